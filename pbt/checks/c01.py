"""C01  channel(rho, n) is the Kraus sum of the n-fold tensor power and a density matrix."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random Kraus channels (random isometries cut into Kraus operators, Weyl/Pauli mixtures, "
        "amplitude damping, erasure, direct sums, replacers, with zero / duplicate / tiny "
        "operators; 1 to 3 particles of dimension 2..9 in and out), number of uses n, and single "
        "density matrices or stacks of them; Choi matrices of such channels.  Non-trivial: the channel is not the identity and "
        "some state is not maximally mixed, and n > 1, a stack, or a non-square channel.")
warm_up = warm_sparse


@st.composite
def cases(draw, cap):
    spec = draw(gen.chan_spec(max_dim=9))
    n = draw(uses(spec, cap, limit=5))
    d = dims(spec)[0] ** n
    return {"chan": spec, "n": n, "batch": draw(st.booleans()),
            "container": draw(st.sampled_from(gen.CONTAINERS)),
            "states": draw(st.lists(gen.state_spec(d), min_size=1, max_size=3 if d <= 9 else 1))}


def run(case, ctx, sparse):
    c = gen.build_chan(case["chan"])
    n = case["n"]
    q = c.make(sparse, case["container"])
    states = [gen.build_state(s) for s in case["states"]]
    ops = ref.tensor_power(c.kraus, n)
    want = [ref.apply_kraus(ops, r) for r in states]
    describe_chan(ctx, c, n)
    ctx.label(case["chan"]["fam"], case["container"])
    moved = any(not ref.close(w, r) for w, r in zip(want, states) if w.shape == r.shape)
    ctx.nt((c.d != c.D or moved) and (n > 1 or case["batch"] or c.d != c.D))
    if case["batch"]:
        out = q.channel(np.array(states), n)
        near(ctx, out, np.array(want), "channel on an array of density matrices")
        out = list(arr(out))
        ctx.label("stack of %d" % len(states))
    else:
        out = [q.channel(r, n) for r in states]
        for o, w in zip(out, want):
            near(ctx, o, w, "channel of a density matrix (n=%d)" % n)
    for o in out:
        ctx.require(ref.is_state(arr(o)), "channel output is not a density matrix")
    ctx.require(q.input_dimension == c.d ** n and q.output_dimension == c.D ** n,
                "dimensions reported for n=%d: %s -> %s", n, q.input_dimension,
                q.output_dimension)
    got = ops_of(q.nth_kraus_operators)
    ctx.require(len(got) == c.K ** n, "%d Kraus operators for n=%d", len(got), n)
    for g, w in zip(got, ops):
        near(ctx, g, w, "Kraus operator of the tensored channel")
    ctx.require(q.numb_krauss == c.K and q.dim_in == c.din and q.dim_out == c.dout
                and list(q.numb_qubits) == c.numb_qubits, "metadata of the channel")
    for g, w in zip(ops_of(q.kraus), c.kraus):
        near(ctx, g, w, "single-use Kraus operator")
    # Linearity and products.
    if n > 1 and c.d ** n <= 32:
        a = gen.build_state(case["states"][0])
        first = np.trace(a.reshape(c.d, c.d ** (n - 1), c.d, c.d ** (n - 1)), axis1=1, axis2=3)
        rest = np.trace(a.reshape(c.d, c.d ** (n - 1), c.d, c.d ** (n - 1)), axis1=0, axis2=2)
        near(ctx, q.channel(np.kron(first, rest), n),
             np.kron(ref.apply_kraus(c.kraus, first),
                     ref.apply_kraus(ref.tensor_power(c.kraus, n - 1), rest)),
             "channel of a product state")


@st.composite
def choi_cases(draw):
    spec = draw(gen.chan_spec(max_dim=9, max_kraus=4))
    d = dims(spec)[0]
    return {"chan": spec, "states": draw(st.lists(gen.state_spec(d), min_size=1, max_size=4)),
            "s": draw(st.integers(0, 10 ** 6)), "form": draw(st.sampled_from(["array", "array", "one"]))}


def run_choi(case, ctx):
    """A channel given by its Choi matrix: single density matrices and stacks of them."""
    c = gen.build_chan(case["chan"])
    q = c.make_choi()
    states = np.array([gen.build_state(s) for s in case["states"]])
    want = np.array([ref.apply_kraus(c.kraus, r) for r in states])
    r = np.random.RandomState(case["s"])
    ys = r.normal(size=(len(states), c.D, c.D)) + 1j * r.normal(size=(len(states), c.D, c.D))
    back = np.array([ref.apply_adjoint(c.kraus, y) for y in ys])
    describe_chan(ctx, c)
    ctx.label(case["chan"]["fam"], case["form"])
    ctx.nt(c.K > 1 and (len(states) > 1 or c.d != c.D))
    if case["form"] != "one":
        out = q.channel(states, 1)
        near(ctx, out, want, "Choi channel on an array of density matrices")
        near(ctx, q.channel(ys, 1, adjoint=True), back, "adjoint Choi channel on an array", 1e-6)
    else:
        out = [q.channel(a, 1) for a in states]
        for o, w, y, b in zip(out, want, ys, back):
            near(ctx, o, w, "Choi channel of a density matrix")
            near(ctx, q.channel(y, 1, adjoint=True), b, "adjoint Choi channel", 1e-6)
    for o in out:
        ctx.require(ref.is_state(arr(o)), "output of a Choi channel is not a density matrix")


SUBS = [
    Sub("choi", choi_cases, run_choi, 4000),
    Sub("dense", lambda: cases(600), lambda c, x: run(c, x, False), 16000),
    Sub("sparse", lambda: cases(200), lambda c, x: run(c, x, True), 4000),
]
