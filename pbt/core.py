"""Runner: generated cases in parallel shards, shrinking, replay files, evidence.

    check.sh <property> [--tier quick|thorough] [--replay FILE] [--only SUB] [--scale X]

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the harness itself failed (no verdict).
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK", "45"))
CASE_SECONDS = 150


class Violation(Exception):
    """The property does not hold for the current case."""


class CaseTimeout(Exception):
    """A single case did not finish."""


class StopShrinking(KeyboardInterrupt):
    """Ends a hypothesis run; the smallest failing case so far is reported."""


class Ctx:
    """What a check says about the case it looks at."""

    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    @staticmethod
    def require(cond, msg, *args):
        if not bool(cond):
            raise Violation(msg % args if args else msg)


class Sub:
    """One generated check of a property."""

    def __init__(self, name, strategy, check, quick, thorough=None, shards=8, corpus=()):
        self.name = name
        self.strategy = strategy          # callable returning a hypothesis strategy
        self.check = check                # check(case, ctx)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.corpus = corpus              # hand-written cases, always run


# Raised by an oracle that is handed something that is no matrix, vector, list, ... at all.
UNREADABLE = (ValueError, TypeError, IndexError, KeyError, ArithmeticError, AttributeError,
              AssertionError, RuntimeError)


def key_of(case):
    return json.dumps(case, sort_keys=True)


def seed_everything(text):
    import numpy as np
    s = zlib.crc32(text.encode())
    random.seed(s)
    np.random.seed(s)


def repo_frame(exc):
    """True if the exception was raised below code of the repository."""
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    where = ""
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(REPO + os.sep):
            where = " at %s:%d" % (os.path.relpath(f, REPO), tb.tb_lineno)
        tb = tb.tb_next
    return "%s: %s%s" % (type(exc).__name__, str(exc)[:300], where)


def _alarm(_sig, _frame):
    raise CaseTimeout("case did not finish in %d s" % CASE_SECONDS)


def run_case(sub, case):
    """Runs one case; returns ctx.  Raises Violation for a broken property."""
    ctx = Ctx()
    seed_everything(key_of(case))
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        sub.check(case, ctx)
    except Violation:
        raise
    except StopShrinking:
        raise
    except Exception as e:                # noqa: BLE001
        if isinstance(e, CaseTimeout) or repo_frame(e):
            raise Violation("unexpected " + describe(e)) from e
        if isinstance(e, UNREADABLE) or type(e).__name__ == "LinAlgError":
            # The oracles handle every well-formed result; this one has another shape or type.
            raise Violation("result cannot be interpreted: " + describe(e)) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx


class Shard:
    def __init__(self, prop, sub, index, count, seed):
        self.prop, self.sub, self.index, self.count, self.seed = prop, sub, index, count, seed
        self.evaluations = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failing = None
        self.failing_msg = None
        self.first_failure = None

    def one(self, case):
        if self.first_failure is not None and time.time() - self.first_failure > SHRINK_SECONDS:
            raise StopShrinking()
        counting = self.first_failure is None
        if counting:
            self.evaluations += 1
        take_note(case)
        try:
            ctx = run_case(self.sub, case)
        except Violation as v:
            if self.first_failure is None:
                self.first_failure = time.time()
            self.failing, self.failing_msg = case, str(v)
            raise
        if not counting:
            return
        for lab in ctx.labels:
            self.labels[lab] += 1
        if ctx.nontrivial:
            k = key_of(case)
            self.hashes.add(hashlib.blake2b(k.encode(), digest_size=8).hexdigest())
            if len(self.samples) < 1 and len(k) < 3000 and self.evaluations > 3:
                self.samples.append(case)

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        t0 = time.time()
        error = None
        try:
            if self.index == -1:
                for case in self.sub.corpus_cases:
                    self.one(case)
            else:
                s = zlib.crc32(("%s/%s/%d/%d" % (self.prop, self.sub.name, self.index,
                                                self.seed)).encode())

                @hypothesis.seed(s)
                @settings(max_examples=self.count, deadline=None, database=None,
                          phases=(Phase.generate, Phase.shrink), print_blob=False,
                          suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                          verbosity=hypothesis.Verbosity.quiet)
                @given(self.sub.strategy())
                def test(case):
                    self.one(case)
                test()
        except Violation:
            pass
        except StopShrinking:
            pass
        except BaseException as e:         # noqa: BLE001
            if self.failing is None:
                error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        return {"sub": self.sub.name, "index": self.index, "evaluations": self.evaluations,
                "hashes": self.hashes, "labels": self.labels, "samples": self.samples,
                "failing": self.failing, "msg": self.failing_msg, "error": error,
                "wall": time.time() - t0}


def silence():
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")


# What a worker is doing, for the case that the process dies: file of the worker, number of the job.
NOTE = [None, None]
CRASHES = (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE)


def take_note(case):
    if NOTE[0] is not None:
        b = json.dumps([NOTE[1], case]).encode()
        os.pwrite(NOTE[0], b, 0)
        os.ftruncate(NOTE[0], len(b))


def _worker(jobs, counter, out, note):
    os.setsid()
    silence()
    NOTE[0] = os.open(note, os.O_CREAT | os.O_RDWR)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(jobs):
            out.put(None)
            return
        NOTE[1] = i
        out.put(jobs[i].run())


def parallel(jobs, stop_on_failure=True):
    """Runs the jobs in forked workers and yields their results."""
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    out = ctx.Queue()
    sys.stdout.flush()
    notes = tempfile.mkdtemp(prefix="pbt-")
    procs = [ctx.Process(target=_worker, args=(jobs, counter, out, "%s/%d" % (notes, i)),
                         daemon=False) for i in range(min(WORKERS, len(jobs)))]
    for p in procs:
        p.start()
    results, finished = [], 0
    try:
        while finished < len(procs):
            try:
                r = out.get(timeout=5)
            except queue.Empty:
                crashed = [i for i, p in enumerate(procs) if p.exitcode in CRASHES]
                if crashed:
                    results.append(crash(jobs, procs[crashed[0]], "%s/%d" % (notes, crashed[0])))
                    break
                if all(not p.is_alive() for p in procs):
                    try:
                        r = out.get(timeout=2)
                    except queue.Empty:
                        results.append(dict(EMPTY, error="worker processes ended without a "
                                                         "result"))
                        break
                else:
                    continue
            if r is None:
                finished += 1
                continue
            results.append(r)
            if os.environ.get("VERIF_DEBUG"):
                print("  %-28s shard %2d  %6d cases  %6.1f s %s" %
                      (r["sub"], r["index"], r["evaluations"], r["wall"],
                       "FAIL" if r["failing"] is not None else ""), file=sys.stderr, flush=True)
            if stop_on_failure and r["failing"] is not None:
                break
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                p.kill()
            except (OSError, ValueError):
                pass
        for p in procs:
            p.join(5)
        shutil.rmtree(notes, ignore_errors=True)
    return results


EMPTY = {"sub": "?", "index": -2, "evaluations": 0, "hashes": set(), "labels": {}, "samples": [],
         "failing": None, "msg": None, "error": None, "wall": 0.}


def crash(jobs, proc, note):
    """The result of a job whose process was killed by the code under test."""
    what = "the process died of signal %d" % -proc.exitcode
    try:
        with open(note) as f:
            i, case = json.load(f)
    except (OSError, ValueError):
        return dict(EMPTY, error=what)
    return dict(EMPTY, sub=jobs[i].sub.name, index=jobs[i].index, failing=case, msg=what, job=i)


def load_known(prop):
    """Lines of known_findings.txt: `known: {json}` and `fixed: property=... ...`."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    d = json.loads(line[len("known:"):])
                    if d["property"] == prop:
                        out.append(d)
    return out


def load_corpus(prop, sub):
    out = []
    d = os.path.join(HERE, "corpus", prop)
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            if name.endswith(".json"):
                with open(os.path.join(d, name)) as f:
                    c = json.load(f)
                if c["sub"] == sub:
                    out.append(c["case"])
    return out


def plan(prop, subs, tier, seed, scale):
    jobs = []
    for s in subs:
        s.corpus_cases = list(s.corpus) + load_corpus(prop, s.name)
        if s.corpus_cases:
            jobs.append(Shard(prop, s, -1, 0, seed))
    body = []
    for s in subs:
        total = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        shards = max(1, min(s.shards if tier == "quick" else 4 * s.shards, total))
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            if n:
                body.append(Shard(prop, s, i, n, seed))
    # Interleave, so that every kind of case is reached early.
    body.sort(key=lambda j: j.index)
    return jobs + body


def confirm(sub, case):
    """Run a failing case again, on its own, in a fresh process."""
    class Once(Shard):
        def run(self):
            take_note(case)
            try:
                run_case(self.sub, case)
            except Violation as v:
                return dict(base, failing=case, msg=str(v))
            except BaseException as e:     # noqa: BLE001
                return dict(base, error=repr(e))
            return dict(base)
    base = dict(EMPTY, sub=sub.name, evaluations=1)
    return parallel([Once("", sub, -2, 1, 0)])[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from pbt import deps
    deps.ensure()
    # Library output goes nowhere; ours goes to the original stdout.
    real_out = os.dup(1)
    stdout = os.fdopen(real_out, "w")
    sys.stdout = open(os.devnull, "w")
    warnings.simplefilter("ignore")

    def say(text):
        stdout.write(text + "\n")
        stdout.flush()

    try:
        import PyQCodes
        where = os.path.realpath(os.path.dirname(PyQCodes.__file__))
        if not where.startswith(REPO + os.sep):
            raise RuntimeError("PyQCodes is imported from %s, not from %s" % (where, REPO))
        mod = importlib.import_module("pbt.checks." + prop.lower())
        if hasattr(mod, "warm_up"):
            try:
                mod.warm_up()
            except Exception:             # noqa: BLE001  (the cases will meet it again)
                traceback.print_exc()
    except Exception:                     # noqa: BLE001
        traceback.print_exc()
        say("ERROR property=%s the harness could not start" % prop)
        return 2
    subs = [s for s in mod.SUBS if not a.only or s.name == a.only]
    by_name = {s.name: s for s in mod.SUBS}

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        r = confirm(by_name[rep["sub"]], rep["case"])
        if r["failing"] is not None:
            say("VIOLATION property=%s replay=%s" % (prop, a.replay))
            say("  " + str(r["msg"]))
            return 1
        if r["error"]:
            say("ERROR " + r["error"])
            return 2
        say("OK property=%s replay=%s does not fail" % (prop, a.replay))
        return 0

    # Recorded defects of the unchanged tree: pinned inputs, run as they are.
    known = load_known(prop)
    known_hits = 0
    if known and not a.only:
        class KnownJob(Shard):
            def __init__(self, entry):
                self.entry = entry
                self.index, self.sub = -3, None

            def run(self):
                seed_everything(json.dumps(self.entry, sort_keys=True))
                try:
                    still = mod.KNOWN[self.entry["key"]](self.entry["input"])
                    err = None
                except Exception as e:     # noqa: BLE001
                    still, err = (True, None) if repo_frame(e) else (False, repr(e))
                return {"sub": "known", "index": -3, "evaluations": 1, "hashes": set(),
                        "labels": {}, "samples": [], "failing": None, "msg": None,
                        "error": err, "wall": 0., "entry": self.entry, "still": still}
        for r in parallel([KnownJob(k) for k in known]):
            if r["error"]:
                say("ERROR property=%s known finding: %s" % (prop, r["error"]))
                return 2
            if r["still"]:
                known_hits += 1
                say("KNOWN-FINDING: property=%s %s" % (prop, r["entry"]["what"]))

    jobs = plan(prop, subs, tier, seed, a.scale)
    results = parallel(jobs)
    for r in results:
        # Death of a process: has to happen again, with this case or in this part of the search.
        if "job" not in r:
            continue
        again = []
        for _ in range(4):
            again = again or [x for x in [confirm(by_name[r["sub"]], r["failing"])] +
                              parallel([jobs[r["job"]]]) if x["failing"] is not None]
        if again:
            r.update({k: again[0][k] for k in ("failing", "msg")})
        else:
            r.update(failing=None, error=r["msg"] + ", which does not happen again")
    failures = [r for r in results if r["failing"] is not None]
    errors = [r for r in results if r["error"]]
    evaluations = sum(r["evaluations"] for r in results)
    hashes, labels, samples, per_sub = set(), collections.Counter(), [], {}
    for r in results:
        hashes |= {r["sub"] + h for h in r["hashes"]}
        for k, v in r["labels"].items():
            labels[r["sub"] + ": " + k] += v
        p = per_sub.setdefault(r["sub"], {"evaluations": 0, "distinct_nontrivial": 0})
        p["evaluations"] += r["evaluations"]
    for r in sorted(results, key=lambda r: r["index"]):
        if r["samples"] and sum(s["sub"] == r["sub"] for s in samples) < 2:
            samples.append({"sub": r["sub"], "case": r["samples"][0]})
    for h in hashes:
        for name in per_sub:
            if h.startswith(name) and len(h) == len(name) + 16:
                per_sub[name]["distinct_nontrivial"] += 1
    evidence = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(hashes),
                     "rule": mod.RULE, "samples": samples, "per_check": per_sub,
                     "classes": dict(sorted(labels.items())),
                     "known_findings_reproduced": known_hits},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(failures)}

    code = 0
    if failures:
        r = failures[0]
        rep_dir = os.path.join(HERE, "replays")
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, "%s-%s.json" % (prop, r["sub"]))
        again = confirm(by_name[r["sub"]], r["failing"])
        with open(path, "w") as f:
            json.dump({"property": prop, "sub": r["sub"], "case": r["failing"],
                       "message": r["msg"],
                       "reproduces_alone": again["failing"] is not None}, f, indent=1)
        say("VIOLATION property=%s replay=%s" % (prop, path))
        say("  %s: %s" % (r["sub"], r["msg"]))
        code = 1
    elif errors:
        for r in errors[:2]:
            say("ERROR property=%s in %s\n%s" % (prop, r["sub"], r["error"]))
        code = 2
    else:
        say("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
            (prop, evaluations, len(hashes), time.time() - t0))
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    return code


if __name__ == "__main__":
    # Under `python -m` this file is __main__; checks import pbt.core, so hand over to it.
    from pbt import core
    sys.exit(core.main())
