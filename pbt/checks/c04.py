"""C04  Adjoint duality of the channel, the complementary channel and Choi channels."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random channels (dense, sparse, Choi), n uses, arbitrary complex matrices X and Y: "
        "<Y, N(X)> = <N*(Y), X> and <Y, N^c(X)> = <N^c*(Y), X>, explicit formulas, unitality of "
        "the adjoints.  Non-trivial: at least two Kraus operators or a non-square one, X, Y not zero.")
warm_up = warm_sparse


@st.composite
def cases(draw, cap, choi=False):
    spec = draw(gen.chan_spec(max_dim=5 if not choi else 4, max_kraus=4))
    n = 1 if choi else draw(uses(spec, cap, limit=3))
    d, D = dims(spec)
    c = gen.build_chan(spec)
    return {"chan": spec, "n": n, "container": draw(st.sampled_from(gen.CONTAINERS)),
            "x": draw(gen.matrix_spec(d ** n)), "y": draw(gen.matrix_spec(D ** n)),
            "s": draw(st.integers(0, 10 ** 6)), "K": c.K, "batch": draw(st.booleans())}


def ip(a, b):
    return np.sum(np.conj(a) * b)


def run(case, ctx, sparse):
    c = gen.build_chan(case["chan"])
    n = case["n"]
    ops = ref.tensor_power(c.kraus, n)
    x, y = gen.build_matrix(case["x"]), gen.build_matrix(case["y"])
    describe_chan(ctx, c, n)
    ctx.label(case["chan"]["fam"])
    ctx.nt((c.K > 1 or c.d != c.D) and np.abs(x).max() > 0 and np.abs(y).max() > 0)
    q = c.make(sparse, case["container"])
    tol = 1e-7 * (1 + np.abs(x).max()) * (1 + np.abs(y).max()) * x.size
    out, back = arr(q.channel(x, n)), arr(q.channel(y, n, adjoint=True))
    near(ctx, back, ref.apply_adjoint(ops, y), "adjoint channel", 1e-6)
    ctx.require(abs(ip(y, out) - ip(back, x)) <= tol, "<Y, N(X)> - <N*(Y), X> = %s",
                ip(y, out) - ip(back, x))
    near(ctx, q.channel(np.eye(c.D ** n), n, adjoint=True), np.eye(c.d ** n),
         "adjoint channel of the identity")
    if case["batch"]:
        near(ctx, q.channel(np.array([y, ref.dag(y), y @ y]), n, adjoint=True),
             np.array([ref.apply_adjoint(ops, m) for m in (y, ref.dag(y), y @ y)]),
             "adjoint channel on an array of matrices", 1e-4)
    r = np.random.RandomState(case["s"])
    z = r.normal(size=(c.K ** n,) * 2) + 1j * r.normal(size=(c.K ** n,) * 2)
    w = arr(q.entropy_exchange(x, n)[0])
    zback = arr(q.entropy_exchange(z, n, adjoint=True))
    near(ctx, w, ref.complementary(ops, x), "complementary channel", 1e-6)
    near(ctx, zback, ref.complementary_adjoint(ops, z), "adjoint of the complementary channel", 1e-6)
    ctx.require(abs(ip(z, w) - ip(zback, x)) <= tol * 10 * len(z),
                "<Z, N^c(X)> - <N^c*(Z), X> = %s", ip(z, w) - ip(zback, x))
    near(ctx, q.entropy_exchange(np.eye(c.K ** n), n, adjoint=True), np.eye(c.d ** n),
         "adjoint of the complementary channel of the identity")


def run_choi(case, ctx):
    c = gen.build_chan(case["chan"])
    x, y = gen.build_matrix(case["x"]), gen.build_matrix(case["y"])
    describe_chan(ctx, c)
    ctx.nt((c.K > 1 or c.d != c.D) and np.abs(x).max() > 0 and np.abs(y).max() > 0)
    q = c.make_choi()
    out, back = arr(q.channel(x, 1)), arr(q.channel(y, 1, adjoint=True))
    near(ctx, back, ref.apply_adjoint(c.kraus, y), "adjoint of a Choi channel", 1e-6)
    tol = 1e-7 * (1 + np.abs(x).max()) * (1 + np.abs(y).max()) * x.size
    ctx.require(abs(ip(y, out) - ip(back, x)) <= tol, "Choi: <Y, N(X)> - <N*(Y), X> = %s",
                ip(y, out) - ip(back, x))
    near(ctx, q.channel(np.eye(c.D), 1, adjoint=True), np.eye(c.d),
         "adjoint of a Choi channel of the identity")


SUBS = [
    Sub("dense", lambda: cases(400), lambda c, x: run(c, x, False), 8000),
    Sub("sparse", lambda: cases(100), lambda c, x: run(c, x, True), 1600),
    Sub("choi", lambda: cases(400, True), run_choi, 2400),
]
