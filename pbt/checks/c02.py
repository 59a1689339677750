"""C02  Results for n uses do not depend on what was asked from the channel object before."""
import contextlib
import io

from pbt.checks.common import *  # noqa: F401,F403

RULE = ("One channel object (dense with and without an orthogonal split, or sparse) and a history "
        "of 2..8 queries (channel, adjoint, complementary channel and its adjoint, coherent "
        "information, fidelity, Kraus operators, explicit updates of n, optimisations) "
        "with n jumping up and down; every answer is compared with the reference for that n.  "
        "Non-trivial: n both increases and decreases within the history.")
warm_up = warm_sparse
OPS = ["channel", "channel", "adjoint", "exchange", "exchange", "exchange_adjoint", "coherent",
       "fidelity", "kraus", "update", "dims", "batch", "single",
       "optimise"]


@st.composite
def cases(draw, cap):
    # every fourth case is about many uses of a small channel
    far = draw(st.integers(0, 3)) == 0
    if far:
        dims, k = draw(st.sampled_from([((2, 2), 1), ((2, 2), 1), ((1, 2), 2), ((2, 2), 2)]))
        spec = draw(gen.chan_spec(dims=dims, max_kraus=k, fams=["rand", "real", "unitary",
                                                                "withzero", "iso"]))
        c = gen.build_chan(spec)
        m2, size = 3, c.K * c.d * c.D
        while size ** (m2 + 1) <= 12 * cap and m2 < 6:
            m2 += 1
        steps = draw(st.lists(st.tuples(st.sampled_from(OPS), st.sampled_from(
            [1, 2, 3, m2 - 2, m2 - 1, m2 - 1, m2]), st.integers(0, 255)), min_size=2, max_size=5))
        return {"chan": spec, "steps": [list(s) for s in steps], "orth": draw(st.booleans()),
                "container": draw(st.sampled_from(gen.CONTAINERS))}
    spec = draw(gen.chan_spec(max_dim=4, max_kraus=3))
    m = max_uses(spec, cap, 4)
    m2 = max(m, 2)
    c = gen.build_chan(spec)
    if (c.K * max(c.d, c.D)) ** m2 > 4 * cap:
        spec = draw(gen.chan_spec(dims=(2, 2), max_kraus=2))
        m2 = max(2, max_uses(spec, cap, 4))
    steps = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(1, m2),
                                    st.integers(0, 255)), min_size=2, max_size=8))
    return {"chan": spec, "steps": [list(s) for s in steps], "orth": draw(st.booleans()),
            "container": draw(st.sampled_from(gen.CONTAINERS))}


def pseudo_state(d, s):
    r = np.random.RandomState(s)
    a = r.normal(size=(d, 1 + s % d)) + 1j * r.normal(size=(d, 1 + s % d))
    rho = a @ ref.dag(a)
    return rho / np.real(np.trace(rho))


def pseudo_matrix(d, s):
    r = np.random.RandomState(1000 + s)
    return r.normal(size=(d, d)) + 1j * r.normal(size=(d, d))


def run(case, ctx, sparse):
    c = gen.build_chan(case["chan"])
    orth = bool(case["orth"] and c.orth and not sparse)
    q = c.make(sparse, case["container"], orth)
    ns = [s[1] for s in case["steps"]]
    ups = any(b > a for a, b in zip([1] + ns, ns))
    downs = any(b < a for a, b in zip([1] + ns, ns))
    ctx.nt(ups and downs)
    ctx.label("max n=%d" % max(ns), "orthogonal split" if orth else "no split")
    if downs:
        ctx.label("n decreases")
    if any(b == 1 < a for a, b in zip(ns, ns[1:])):
        ctx.label("n back to 1")
    if any(1 < b < a for a, b in zip(ns, ns[1:])):
        ctx.label("n decreases to 2 or more")
    for t, (op, n, s) in enumerate(case["steps"]):
        what = "step %d (%s, n=%d)" % (t, op, n)
        ctx.label(op)
        ops = ref.tensor_power(c.kraus, n)
        d, D, K = c.d ** n, c.D ** n, c.K ** n
        rho = pseudo_state(d, s)
        if op == "channel":
            near(ctx, q.channel(rho, n), ref.apply_kraus(ops, rho), what)
        elif op == "batch":
            two = np.array([rho, pseudo_state(d, s + 1)])
            near(ctx, q.channel(two, n), np.array([ref.apply_kraus(ops, r) for r in two]), what)
        elif op == "adjoint":
            y = pseudo_matrix(D, s)
            near(ctx, q.channel(y, n, adjoint=True), ref.apply_adjoint(ops, y), what, 1e-7)
        elif op == "exchange":
            got = [arr(w) for w in q.entropy_exchange(rho, n)]
            want = ref.complementary(ops, rho)
            if orth:
                ge = np.sort(np.concatenate([ref.eigs(w) for w in got]))
                near(ctx, ge, np.sort(ref.eigs(want)), what + " spectrum")
            else:
                ctx.require(len(got) == 1, "%s returned %d blocks", what, len(got))
                near(ctx, got[0], want, what)
        elif op == "exchange_adjoint":
            y = pseudo_matrix(K, s)
            near(ctx, q.entropy_exchange(y, n, adjoint=True), ref.complementary_adjoint(ops, y),
                 what, 1e-7)
        elif op == "coherent":
            value(ctx, q.coherent_information(rho, n), ref.coherent_information(ops, rho), what,
                  1e-6)
        elif op == "fidelity":
            if d == D:
                value(ctx, q.fidelity_two_states(rho, n),
                      ref.fidelity(rho, ref.apply_kraus(ops, rho)), what, 1e-5)
        elif op == "update":
            q.krauss.update_kraus_operators(n)
        elif op == "single":
            for g, w in zip(ops_of(q.kraus), c.kraus):
                near(ctx, g, w, what)
            ctx.require(q.numb_krauss == c.K, "%s: number of Kraus operators", what)
        elif op == "kraus":
            q.krauss.update_kraus_operators(n)
            got = ops_of(q.nth_kraus_operators)
            ctx.require(len(got) == len(ops), "%s: %d operators", what, len(got))
            for g, w in zip(got, ops):
                near(ctx, g, w, what)
        elif op == "optimise":
            if d <= 4:
                np.random.seed(s)
                with contextlib.redirect_stdout(io.StringIO()):
                    r = q.optimize_coherent(n, d, "slsqp", maxiter=1, samples=[
                        np.random.RandomState(s).uniform(-1, 1, 2 * d * d)])
                best = arr(r["optimal_rho"])
                ctx.require(ref.is_state(best) and best.shape == (d, d), "%s: no state", what)
                value(ctx, r["optimal_val"], ref.coherent_information(ops, best), what, 1e-4)
        elif op == "dims":
            q.channel(rho, n)
            ctx.require((q.input_dimension, q.output_dimension) == (d, D), "%s: %s -> %s", what,
                        q.input_dimension, q.output_dimension)


SUBS = [
    Sub("dense", lambda: cases(400), lambda c, x: run(c, x, False), 8000),
    Sub("sparse", lambda: cases(100), lambda c, x: run(c, x, True), 1600),
]
