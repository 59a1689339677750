"""C31  Objects and arguments are independent of each other."""
import copy

from pbt.checks import c13
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Histories over a pool of channels (dense and sparse): queries with any n, serial and "
        "parallel composition of members at whatever n they were used last (the result joins the "
        "pool), and overwriting in place of arrays and lists that were handed over or returned "
        "earlier; every answer is compared with the reference of that member, and every argument "
        "must be the same after the call.  Optimisers, the effective channel and codes leave "
        "their arguments alone and give the same answer for the same seed.  Non-trivial: a "
        "composed member is queried, or an array is overwritten before a query.")
warm_up = warm_sparse


@st.composite
def cases(draw):
    d = draw(st.sampled_from([2, 2, 3]))
    return {"chans": [draw(gen.chan_spec(dims=(d, d), max_kraus=2)) for _ in range(2)],
            "sparse": draw(st.lists(st.booleans(), min_size=2, max_size=2)),
            "containers": [draw(st.sampled_from(gen.CONTAINERS)) for _ in range(2)],
            "orth": draw(st.booleans()),
            "steps": [list(s) for s in draw(st.lists(st.tuples(
                st.sampled_from(["channel", "channel", "exchange", "adjoint", "coherent", "serial",
                                 "parallel", "spoil input", "spoil output", "update", "kraus"]),
                st.integers(0, 7), st.integers(0, 7), st.integers(1, 3), st.integers(0, 255)),
                min_size=2, max_size=10))]}


class Member:
    def __init__(self, q, ops, composed, orth=False):
        self.q, self.ops, self.composed, self.orth = q, ops, composed, orth


def spoil(x):
    if isinstance(x, list):
        for y in x:
            spoil(y)
        if x:
            x[0] = np.zeros((1, 1))
            x.append(None)
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 7


def run(case, ctx):
    from PyQCodes.chan.channel import AnalyticQChan
    from pbt.checks.c02 import pseudo_matrix, pseudo_state
    pool, inputs, outputs = [], [], []
    for spec, sp, cont in zip(case["chans"], case["sparse"], case["containers"]):
        c = gen.build_chan(spec)
        given = gen.contain(c.kraus, cont, sp)
        orth = bool(case["orth"] and c.orth and not sp)
        nq = list(c.numb_qubits)
        q = AnalyticQChan(given, nq, c.din, c.dout, c.orth if orth else (), sp)
        inputs += [given] if cont != "coo" else []
        pool.append(Member(q, c.kraus, False, orth))
    spoiled = False
    for op, i, j, n, s in case["steps"]:
        a, b = pool[i % len(pool)], pool[j % len(pool)]
        D, d = a.ops[0].shape
        K = len(a.ops)
        while n > 1 and ((K * max(d, D)) ** n > 200 or K ** n > 64):
            n -= 1
        ctx.label(op)
        if op in ("serial", "parallel"):
            big = len(a.ops) * len(b.ops)
            if op == "serial" and (b.ops[0].shape[0] != d or big > 16):
                continue
            if op == "parallel" and (big > 8 or max(d * b.ops[0].shape[1],
                                                    D * b.ops[0].shape[0]) > 16):
                continue
            if op == "serial":
                m = Member(a.q + b.q, [x @ y for x in a.ops for y in b.ops], True)
            else:
                if (a.q.dim_in, a.q.dim_out) != (b.q.dim_in, b.q.dim_out):
                    continue
                m = Member(a.q * b.q, [np.kron(x, y) for x in a.ops for y in b.ops], True)
            pool.append(m)
            continue
        if op == "spoil input":
            for x in inputs:
                spoil(x)
            inputs.clear()
            spoiled = True
            continue
        if op == "spoil output":
            for x in outputs:
                spoil(x)
            spoiled = spoiled or bool(outputs)
            outputs.clear()
            continue
        ops = ref.tensor_power(a.ops, n)
        rho, y = pseudo_state(d ** n, s), pseudo_matrix(D ** n, s)
        arg = rho.copy() if op != "adjoint" else y.copy()
        what = "%s on member %d, n=%d" % (op, i % len(pool), n)
        keep = arg.copy()
        if op == "channel":
            got = a.q.channel(arg, n)
            near(ctx, got, ref.apply_kraus(ops, rho), what)
            outputs.append(got)
        elif op == "adjoint":
            got = a.q.channel(arg, n, adjoint=True)
            near(ctx, got, ref.apply_adjoint(ops, y), what, 1e-7)
            outputs.append(got)
        elif op == "exchange":
            got = a.q.entropy_exchange(arg, n)
            spec = np.sort(np.concatenate([ref.eigs(arr(w)) for w in got]))
            near(ctx, spec, np.sort(ref.eigs(ref.complementary(ops, rho))), what, 1e-7)
            outputs.append(got)
        elif op == "coherent":
            value(ctx, a.q.coherent_information(arg, n), ref.coherent_information(ops, rho), what,
                  1e-6)
        elif op == "kraus":
            got = ops_of(a.q.kraus)
            ctx.require(len(got) == len(a.ops), "%s: %d operators", what, len(got))
            near(ctx, ref.choi(got), ref.choi(a.ops), what)
        elif op == "update":
            a.q.krauss.update_kraus_operators(n)
        near(ctx, arg, keep, "argument of " + what, 0)
        ctx.nt(a.composed or spoiled)
        if spoiled:
            ctx.label("query after overwriting")
        if a.composed:
            ctx.label("query of a composed channel")


# ------------------------------------------------------------------ other arguments

@st.composite
def argument_cases(draw):
    return {"kind": draw(st.sampled_from(["optimise", "code", "code", "entropy", "entfid"])),
            "opt": draw(c13.cases(opts=("slsqp",))),
            "code": draw(gen.code_spec(2, 5, gates=("H", "CX", "CZ"))),
            "how": draw(st.sampled_from(gen.CODE_INPUTS)), "given": draw(st.booleans()),
            "error": draw(gen.pauli_row(5)), "chan": draw(gen.chan_spec(max_dim=3, same=True)),
            "seed": draw(st.integers(0, 2 ** 31))}


def same(x, y):
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, np.ndarray):
        return x.shape == y.shape and x.dtype == y.dtype and bool(np.all(x == y))
    return x is y or x == y


def arguments(case, ctx):
    from PyQCodes.codes import StabilizerCode
    kind = case["kind"]
    ctx.label(kind)
    ctx.nt()
    if kind == "optimise":
        o = dict(case["opt"], maxiter=min(case["opt"]["maxiter"], 4))
        c, q = c13.build(o)
        P, param = c13.user_param(o["param"])
        starts = [c13.vec_of(h, o, P, c.d ** o["n"]) for h in o["samples"]]
        given = [s.copy() for s in starts]
        out = []
        for _ in range(2):
            np.random.seed(case["seed"])
            out.append(c13.call(q, o, param, samples=given, lipschitz=o["lip"], use_pool=0))
            ctx.require(same(given, starts), "the samples handed over were changed")
        value(ctx, out[1]["optimal_val"], float(out[0]["optimal_val"]), "second run with the same "
              "seed", 1e-6)
    elif kind == "code":
        rows, n, k = gen.code_rows(case["code"])
        given = gen.code_input(rows, case["how"])
        keep = copy.deepcopy(given)
        lx, lz = ref.logicals(rows)
        ops = [lx.copy(), lz.copy()] if case["given"] else None
        code = StabilizerCode(given, n, k, ops)
        before = [np.array(x, copy=True) for x in (code.normal_form, code.logical_x,
                                                   code.logical_z, code.stab_bin_rep)]
        err = np.array(case["error"][:n] + case["error"][5:5 + n])
        mats = [ref.pauli_mat(err), np.eye(2 ** n, dtype=complex)]
        keep_m = [m.copy() for m in mats]
        code.encode_krauss_operators()
        code.kraus_operators_correcting_errors(mats, False)
        StabilizerCode.binary_rep_to_pauli_str(err)
        list(code)
        if n < 5:
            code.normalizer()
        ctx.require(same(given, keep), "the generators handed over were changed")
        ctx.require(same(mats, keep_m), "the errors handed over were changed")
        if ops:
            ctx.require(same(ops, [lx, lz]), "the logical operators handed over were changed")
        if isinstance(given, np.ndarray):
            given[...] = 0
        elif isinstance(given[0], list):
            given[0][0] = 1 - given[0][0]
        for x, y in zip(before, (code.normal_form, code.logical_x, code.logical_z,
                                 code.stab_bin_rep)):
            ctx.require(np.array_equal(x, y), "the code changed")
    else:
        c = gen.build_chan(case["chan"])
        q = c.make()
        rho = np.eye(c.d) / c.d
        if kind == "entropy":
            blocks = [w.copy() for w in map(arr, q.entropy_exchange(rho, 1))]
            keep = copy.deepcopy(blocks)
            q.entropy(blocks)
            ctx.require(same(blocks, keep), "the blocks handed over were changed")
        else:
            probs, states = [0.25, 0.75], [rho, np.diag([1.0] + [0.0] * (c.d - 1))]
            keep = copy.deepcopy([probs, states])
            c.make_choi().average_entanglement_fidelity(probs, states)
            q.average_entanglement_fidelity(probs, states)
            ctx.require(same([probs, states], keep), "the ensemble handed over was changed")


SUBS = [Sub("pool", cases, run, 4000), Sub("arguments", argument_cases, arguments, 2000)]
