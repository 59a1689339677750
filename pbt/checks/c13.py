"""C13  Optimisation of coherent information and of the minimum fidelity."""
import contextlib
import io

from scipy.optimize import minimize_scalar

from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random channels, sizes, ranks, optimisers (SLSQP, differential evolution), "
        "parameterisations (both, and a user's subclass), user samples and / or the Lipschitz "
        "sampler, with and without a pool.  The reported state is a density matrix of the rank "
        "asked for and the reported value is the objective at that state; the value is the best "
        "over the starting points (equal to the best of separate runs, whatever their order), not "
        "worse than the objective at any user-supplied start, and on channels with known optimum "
        "it reaches it and never passes it.  Unknown optimisers, parameterisations and "
        "objectives raise TypeError.  Non-trivial: at least two starting points of "
        "different value, or a known optimum.")
ASSUMPTIONS = ["SLSQP with several starts reaches a known optimum up to 0.02, differential evolution with few iterations up to 0.4."]
warm_up = warm_sparse
SLACK = 2e-4


def own_class():
    from PyQCodes.chan.param import OverParam, ParameterizationABC

    class Own(ParameterizationABC):
        """All variables shifted: something the library does not know."""
        @staticmethod
        def numb_variables(nsize, rank):
            return OverParam.numb_variables(nsize, rank)

        @staticmethod
        def bounds(nsize, rank):
            return [(0., 1.)] * OverParam.numb_variables(nsize, rank)

        @staticmethod
        def rho_from_vec(vec, nsize, rank=None):
            return OverParam.rho_from_vec(2 * np.asarray(vec) - 1, nsize, rank)

        @staticmethod
        def random_vectors(nsize, rank):
            return np.random.uniform(0, 1, size=OverParam.numb_variables(nsize, rank))
    # Differential evolution pickles it for its worker processes.
    Own.__qualname__ = "Own"
    return Own


Own = own_class()


def user_param(name):
    from PyQCodes.chan.param import CholeskyParam, OverParam
    if name != "own":
        return {"overparam": OverParam, "cholesky": CholeskyParam}[name], name
    return Own, Own


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@st.composite
def cases(draw, pool=False, opts=("slsqp", "slsqp", "diffev")):
    obj = draw(st.sampled_from(["coherent", "fidelity"]))
    spec = draw(gen.chan_spec(max_dim=4, max_kraus=3, same=obj == "fidelity"))
    d, D = dims(spec)
    n = draw(st.integers(1, min(2, max_uses(spec, 60, 2))))
    opt = draw(st.sampled_from(opts))
    param = draw(st.sampled_from(["overparam", "cholesky", "own"]))
    rank = 1 if obj == "fidelity" else draw(st.integers(1, d ** n))
    rank = max(rank, 1)
    lo = 6 if opt == "diffev" else 1       # scipy: "rand2exp" needs six members
    how = draw(st.sampled_from(["samples", "lipschitz", "both"]))
    m = 0 if how == "lipschitz" else draw(st.integers(lo, lo + 2))
    lip = 0 if how == "samples" else draw(st.integers(lo if m == 0 else 1, lo + 2))
    length = {"cholesky": rank + 2 * sum(min(i, rank) for i in range(d ** n))}.get(
        param, 2 * rank * d ** n)
    # Differential evolution of basis states can combine them to the zero vector, which is no state.
    start = st.one_of(gen.hexbytes(length), gen.hexbytes(length), st.integers(0, length - 1))
    return {"chan": spec, "n": n, "obj": obj, "opt": opt, "param": param, "rank": rank,
            "samples": [draw(start if opt == "slsqp" else gen.hexbytes(length)) for _ in range(m)],
            "lip": lip,
            "maxiter": draw(st.integers(1, 12)) if opt == "slsqp" else draw(st.integers(1, 3)),
            "kind": draw(st.sampled_from(["dense", "dense", "sparse", "orth", "choi"])),
            "reg": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31)),
            "pool": draw(st.integers(2, 3)) if pool else 0}


def build(case):
    c = gen.build_chan(case["chan"])
    kind = case["kind"]
    if kind == "choi" and case["n"] == 1:
        return c, c.make_choi()
    return c, c.make(kind == "sparse", orth=kind == "orth")


def vec_of(h, case, P, size):
    """A start inside the bounds whose matrix is not zero."""
    if isinstance(h, int):                # a basis state, often a stationary point
        b = P.bounds(size, case["rank"])
        v = np.array([0.5 * lo + 0.5 * hi if lo else 0. for lo, hi in b])
        if case["param"] == "own":
            v[:] = .5
        v[h] = b[h][1]
    else:
        v = gen.floats_from_hex(h)
    v = v / max(1.0, np.abs(v).max())
    b = P.bounds(size, case["rank"])
    v = np.array([min(max(x, lo), hi) for x, (lo, hi) in zip(v, b)])
    try:
        with np.errstate(all="ignore"):
            ok = ref.is_state(P.rho_from_vec(v, size, case["rank"]))
    except Exception:      # noqa: BLE001
        ok = False
    if not ok:
        v = np.array([0.5 * lo + 0.5 * hi for lo, hi in b])
        v[0] = b[0][1]
    return v


def call(q, case, param, **kw):
    kw = gen.brief(case, dict(kw, optimizer=case["opt"], param=param),
                   {"optimizer": "diffev", "param": "overparam", "lipschitz": 0, "use_pool": 0,
                    "samples": []})
    with quiet():
        if case["obj"] == "coherent":
            return q.optimize_coherent(case["n"], case["rank"], maxiter=case["maxiter"], **kw)
        return q.optimize_fidelity(case["n"], maxiter=case["maxiter"], **kw)


def objective(c, case, rho):
    ops = ref.tensor_power(c.kraus, case["n"])
    if case["obj"] == "coherent":
        return ref.coherent_information(ops, rho)
    return ref.fidelity(rho, ref.apply_kraus(ops, rho))


def better(case, a, b, slack):
    """a is at least as good as b."""
    return a >= b - slack if case["obj"] == "coherent" else a <= b + slack


def judge(ctx, case, c, res, lip, size):
    rho, val = np.asarray(res["optimal_rho"]), res["optimal_val"]
    ctx.require(np.isscalar(val) or np.ndim(val) == 0, "optimal value is not a number")
    ctx.require(rho.shape == (size, size) and ref.is_state(rho), "optimal_rho is not a density "
                "matrix")
    ctx.require(np.sum(ref.eigs(rho) > 1e-7) <= case["rank"], "optimal_rho has rank above %d",
                case["rank"])
    value(ctx, val, objective(c, case, rho), "optimal_val compared to the objective at "
          "optimal_rho", 1e-5)
    ctx.require(res["method"] == case["opt"] and res["objective"] == case["obj"]
                and bool(res["lipschitz"]) == bool(lip) and bool(res["success"]) in (True, False),
                "wrong description of the run: %s", {k: res[k] for k in
                                                     ("method", "objective", "lipschitz")})
    return float(val)


def run(case, ctx):
    c, q = build(case)
    size = c.d ** case["n"]
    P, param = user_param(case["param"])
    starts = [vec_of(h, case, P, size) for h in case["samples"]]
    np.random.seed(case["seed"])
    res = call(q, case, param, samples=[s.copy() for s in starts], lipschitz=case["lip"],
               use_pool=case["pool"])
    val = judge(ctx, case, c, res, case["lip"], size)
    ctx.label(case["obj"], case["opt"], case["param"], case["kind"], "n=%d" % case["n"],
              "lipschitz" if case["lip"] else "samples only")
    at = [objective(c, case, P.rho_from_vec(s, size, case["rank"])) for s in starts]
    ctx.nt(len({round(x, 4) for x in at}) > 1)
    if case["opt"] == "diffev":
        for x in at:
            ctx.require(better(case, val, x, 1e-6), "differential evolution returns %g, a "
                        "start has %g", val, x)
    elif starts:
        # The same starts, one at a time and in another order.
        runs = [call(q, case, param, samples=[s.copy()], use_pool=0) for s in starts]
        single = [judge(ctx, case, c, r, 0, size) for r in runs]
        best = max(single) if case["obj"] == "coherent" else min(single)
        if len({round(x, 4) for x in single}) > 1:
            ctx.label("runs of different value")
        if case["lip"]:
            ctx.require(better(case, val, best, SLACK), "%g although a start of the user alone "
                        "gives %g", val, best)
            ctx.label("own starts and lipschitz")
        else:
            value(ctx, val, best, "best value over %d starts" % len(starts), SLACK)
            back = call(q, case, param, samples=[s.copy() for s in reversed(starts)], use_pool=0)
            value(ctx, back["optimal_val"], val, "value for the starts in reverse order", SLACK)
            flags = {bool(r["success"]) for r, x in zip(runs, single) if abs(x - val) < 2 * SLACK}
            ctx.require(bool(res["success"]) in flags, "success is %s, but the best start alone "
                        "has %s", res["success"], flags)
            if len({bool(r["success"]) for r in runs}) > 1:
                ctx.label("some starts converge")
    if case["obj"] == "coherent" and case["reg"] and not case["lip"] and case["opt"] == "slsqp":
        with quiet():
            r = q.optimize_coherent(case["n"], case["rank"], "slsqp", param,
                                    maxiter=case["maxiter"], samples=[s.copy() for s in starts],
                                    regularized=True)
        value(ctx, r["optimal_val"], val / case["n"], "regularized optimal value", SLACK)
        ctx.label("regularized")


# ------------------------------------------------------------------ known optima

@st.composite
def known_cases(draw):
    fam = draw(st.sampled_from(["dephasing", "erasure", "damping", "unitary", "fid pauli",
                                "fid bitflip", "fid damping", "dephasing2"]))
    case = {"fam": fam, "p": draw(st.integers(0, 16)), "q": draw(gen.hexbytes(4)),
            "d": draw(st.integers(2, 3)), "u": draw(gen.cmat_hex(4, 4)),
            "v": draw(gen.cmat_hex(4, 4)), "param": draw(st.sampled_from(["overparam",
                                                                          "cholesky"])),
            "kind": draw(st.sampled_from(["dense", "sparse"])),
            "opt": draw(st.sampled_from(["slsqp", "slsqp", "slsqp", "diffev"])),
            "seed": draw(st.integers(0, 2 ** 31)), "pool": 0}
    if fam == "dephasing2" or case["d"] == 3:
        case["opt"] = "slsqp"
    return case


def h2(p):
    return ref.entropy(np.diag([p, 1 - p]))


def known(case, ctx):
    p, fam = case["p"] / 16.0, case["fam"]
    n, d = 1, 2
    case = dict(case, obj="fidelity" if fam.startswith("fid") else "coherent", maxiter=60 if case["opt"] == "slsqp" else 15,
                reg=False)
    if fam.startswith("dephasing"):
        ops = [np.sqrt(1 - p) * ref.PI, np.sqrt(p) * ref.PZ]
        n = 2 if fam.endswith("2") else 1
        best = n * (1 - h2(p))
    elif fam == "erasure":
        d = case["d"]
        ops = [np.sqrt(1 - p) * np.eye(d + 1, d)] + [
            np.sqrt(p) * np.outer(np.eye(d + 1)[d], e) for e in np.eye(d)]
        best = max(0.0, (1 - 2 * p) * np.log2(d))
    elif fam == "damping":
        g = p / 2
        ops = [np.array([[1, 0], [0, np.sqrt(1 - g)]]), np.array([[0, np.sqrt(g)], [0, 0]])]
        best = -minimize_scalar(lambda t: h2(g * t) - h2((1 - g) * t), bounds=(0, 1),
                                method="bounded", options={"xatol": 1e-9}).fun
    elif fam == "unitary":
        d = case["d"]
        ops = [np.eye(d)]
        best = np.log2(d)
    elif fam == "fid pauli":
        w = np.abs(gen.floats_from_hex(case["q"])) + 0.05
        w = w / w.sum()
        ops = [np.sqrt(x) * m for x, m in zip(w, [ref.PI, ref.PX, 1j * ref.PX @ ref.PZ, ref.PZ])]
        best = np.sqrt(w[0] + min(w[1:]))
    elif fam == "fid bitflip":
        p = 0.9 * p
        ops = [np.sqrt(1 - p) * ref.PI, np.sqrt(p) * ref.PX]
        best = np.sqrt(1 - p)
    else:
        g = 0.9 * p
        ops = [np.array([[1, 0], [0, np.sqrt(1 - g)]]), np.array([[0, np.sqrt(g)], [0, 0]])]

        def f(z):            # <psi|N(psi)|psi> depends on the Bloch z only
            c = (1 + z) / 2
            s = 1 - c
            return c * c + 2 * c * s * np.sqrt(1 - g) + s * s * (1 - g) + g * s * c
        best = np.sqrt(min(f(z) for z in np.linspace(-1, 1, 4001)))
    D = len(ops[0])
    u = gen.unitary_from_hex(case["u"][:4 * d * d], d)       # a change of basis on the input
    v = u if fam.startswith("fid") else gen.unitary_from_hex(case["v"], 4)[:D, :D]
    if fam.startswith("fid"):
        ops = [ref.dag(u) @ k @ u for k in ops]
    else:
        v = gen.isometry_from(v)
        ops = [v @ k @ u for k in ops]
    c = gen.Chan(ops, {"dims": [1, d, 1, D]})
    q = c.make(case["kind"] == "sparse")
    case["n"], case["rank"] = n, (1 if case["obj"] == "fidelity" else d ** n)
    np.random.seed(case["seed"])
    res = call(q, case, case["param"], lipschitz=6 if case["opt"] == "slsqp" else 20)
    val = judge(ctx, case, c, res, 1, d ** n)
    ctx.label(fam, case["opt"])
    ctx.nt()
    ctx.require(better(case, best, val, 1e-5), "%s: value %g passes the optimum %g", fam, val, best)
    ctx.require(better(case, val, best, 0.02 if case["opt"] == "slsqp" else 0.4),
                "%s: value %g does not reach the optimum %g", fam, val, best)


@st.composite
def bad_cases(draw):
    names = ["slsqp", "diffev", "overparam", "cholesky", "coherent", "fidelity"]
    word = st.one_of(st.text("abcdeflopqrsvy_", max_size=10), st.sampled_from(
        names + [x.upper() for x in names] + [x[:-1] for x in names] + ["bfgs", "over"]))
    odd = st.sampled_from([None, 3, ["overparam"], "object", "int"])
    return {"optimizer": draw(st.one_of(st.sampled_from(["slsqp", "diffev"]), word)),
            "param": draw(st.one_of(st.sampled_from(["overparam", "cholesky"]), word, odd)),
            "objective": draw(st.one_of(st.sampled_from(["coherent", "fidelity"]), word)),
            "p": draw(st.integers(1, 15)), "sparse": draw(st.booleans()),
            "seed": draw(st.integers(0, 2 ** 31))}


def bad(case, ctx):
    """Unknown names of optimisers, parameterisations and objectives raise TypeError."""
    from PyQCodes.chan._coherent import optimize_procedure
    p = case["p"] / 16.
    q = gen.Chan([np.sqrt(1 - p) * ref.PI, np.sqrt(p) * ref.PX], {"dims": [1, 2, 1, 2]}).make(
        case["sparse"])
    param = {"object": object(), "int": int}.get(case["param"], case["param"]) \
        if isinstance(case["param"], str) else case["param"]
    ok = [case["optimizer"] in ("slsqp", "diffev"), param in ("overparam", "cholesky"),
          case["objective"] in ("coherent", "fidelity")]
    opts = dict(optimizer=case["optimizer"], param=param, lipschitz=6, maxiter=1)
    for name, fine, call in [
            ("optimize_procedure", all(ok), lambda: optimize_procedure(
                q, 1, 1, objective=case["objective"], **opts)),
            ("optimize_coherent", all(ok[:2]), lambda: q.optimize_coherent(1, 1, **opts)),
            ("optimize_fidelity", all(ok[:2]), lambda: q.optimize_fidelity(1, **opts))]:
        try:
            with quiet():
                call()
        except TypeError:
            ctx.require(not fine, "%s raises TypeError for %s", name, opts)
            continue
        ctx.require(fine, "%s accepts %s, objective %r", name, opts, case["objective"])
    ctx.label("valid" if all(ok) else "invalid")
    ctx.nt(not all(ok))


SUBS = [Sub("search", lambda: cases(), run, 960),
        Sub("pool", lambda: cases(True, ("slsqp",)), run, 48),
        Sub("optimum", known_cases, known, 240),
        Sub("arguments", bad_cases, bad, 400)]
