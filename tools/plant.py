#!/usr/bin/env python3
"""Try a planted bug in a scratch copy of /repo.

    tools/plant.py make  SEEDS.py          write seeded/<id>/ from a table of edits (see add())
    tools/plant.py demo  ID...             demo on the unchanged copy and on the patched copy
    tools/plant.py tests ID...             the repository's stable tests on the patched copy
    tools/plant.py check ID... [-- args]   the property's check (all others with --all) on the copy
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# Exit 0 if the property holds for the inputs of demo.py.  Run in the repository.
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 280 %s "$(dirname "$0")/demo.py" > /dev/null
''' % PY


def copy(name):
    dst = "/tmp/plant-%s" % name
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    shutil.copytree("/repo", dst, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
    return dst


def patched(name):
    dst = copy(name)
    subprocess.run(["git", "-C", dst, "apply", os.path.join(SEEDED, name, "patch.diff")], check=True)
    return dst


def blame_ok(dst, name):
    """Changed lines have to be lines of the original repository."""
    base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
                          capture_output=True, text=True).stdout.strip()
    out = subprocess.run(["git", "-C", dst, "diff", "-U0"], capture_output=True, text=True).stdout
    path, bad, good = None, [], 0
    for line in out.splitlines():
        if line.startswith("--- a/"):
            path = line[6:]
        if line.startswith("@@"):
            a = line.split()[1][1:].split(",")
            start, count = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for i in range(start, start + count):
                b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", "%d,%d" %
                                    (i, i), "HEAD", "--", path], capture_output=True, text=True)
                if b.stdout.startswith("^" + base[:39]) or b.stdout.startswith(base[:39]):
                    good += 1
                else:
                    bad.append((path, i))
    return good, bad


def make(table):
    seeds = []

    def add(ident, prop, edits, needs, breaks, demo):
        seeds.append((ident, prop, edits, needs, breaks, demo))
    exec(compile(open(table).read(), table, "exec"), {"add": add})
    for ident, prop, edits, needs, breaks, demo in seeds:
        d = os.path.join(SEEDED, ident)
        os.makedirs(d, exist_ok=True)
        dst = copy(ident)
        for path, old, new in edits:
            p = os.path.join(dst, "PyQCodes", path)
            s = open(p).read()
            if s.count(old) != 1:
                print(ident, "NOT UNIQUE", s.count(old), repr(old[:70]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = subprocess.run(["git", "-C", dst, "diff"], capture_output=True, text=True).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
            with open(os.path.join(d, "meta.json"), "w") as f:
                json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
            good, bad = blame_ok(dst, ident)
            if bad or not good:
                print(ident, "blame: original lines", good, "other lines", bad)
        shutil.rmtree(dst)


def demo(name):
    res = []
    for prepare in (copy, patched):
        dst = prepare(name)
        r = subprocess.run(["bash", os.path.join(SEEDED, name, "demo.sh")], cwd=dst,
                           capture_output=True, text=True)
        res.append((r.returncode, r.stderr.strip().splitlines()[-1:] ))
    shutil.rmtree(dst)
    ok = res[0][0] == 0 and res[1][0] != 0
    print("demo %-28s %s clean %s patched %s" % (name, "ok " if ok else "BAD", res[0], res[1]),
          flush=True)


def tests(name):
    dst = patched(name)
    env = dict(os.environ, HOME="/root", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    failed = set()
    # The tests of the channels do not import the codes.
    diff = open(os.path.join(SEEDED, name, "patch.diff")).read()
    main = ["PyQCodes", "--ignore=PyQCodes/avgfid"]
    if "/chan/" not in diff and "_optimize.py" not in diff:
        main = ["PyQCodes/tests"]
    for paths in (main, ["PyQCodes/avgfid", "-m", "not slow"]):
        xml = "/tmp/plant-%s.xml" % name
        skip = ["--deselect", "PyQCodes/chan/tests/test_channel.py::test_optimizing_coherent_"
                "information_erasure_using_choi_matrix"]
        subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8",
                        "--randomly-seed=0", "--randomly-dont-reorganize", "--timeout=600",
                        "-o", "junit_family=xunit2", "--junitxml=" + xml] + skip + paths, cwd=dst,
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        import xml.etree.ElementTree as E
        for c in E.parse(xml).iter("testcase"):
            if c.find("failure") is not None or c.find("error") is not None:
                failed.add(c.get("classname") + "::" + c.get("name"))
        os.remove(xml)
    names = sorted(s for s in stable if any(s.endswith(f.split("::")[1]) for f in failed))
    print("tests %-27s %s %s" % (name, "ok" if not names else "FAIL", names), flush=True)
    shutil.rmtree(dst)


def check(name, args):
    meta = json.load(open(os.path.join(SEEDED, name, "meta.json")))
    props = [meta["property"]]
    if "--all" in args:
        props = ["C%02d" % i for i in range(1, 100)
                 if os.path.exists(os.path.join(HERE, "pbt/checks/c%02d.py" % i))]
        args = [a for a in args if a != "--all"]
    dst = patched(name)
    for prop in props:
        r = subprocess.run([os.path.join(HERE, "check.sh"), prop] + args,
                           cwd=HERE, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=dst))
        out = [x for x in r.stdout.splitlines() if not x.startswith("KNOWN")]
        if len(props) == 1 or r.returncode:
            print("check %-27s %s exit %d  %s" % (name, prop, r.returncode, " | ".join(out)[:260]),
                  flush=True)
    shutil.rmtree(dst)


def main():
    args = sys.argv[2:]
    extra = []
    if "--" in args:
        extra = args[args.index("--") + 1:]
        args = args[:args.index("--")]
    if sys.argv[1] == "make":
        return make(args[0])
    names = args or sorted(os.listdir(SEEDED))
    for name in names:
        {"demo": demo, "tests": tests}.get(sys.argv[1], lambda n: check(n, extra))(name)


if __name__ == "__main__":
    main()
