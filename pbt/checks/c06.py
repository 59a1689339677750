"""C06  Parallel concatenation is the tensor product of maps."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Pairs of random channels A, B of different shapes, dense / sparse / mixed; (A * B) on "
        "product states and on correlated (non-product) states, n uses, associativity, Kraus "
        "objects and static functions, "
        "also of factors that were used for any n before.  Non-trivial: the state is correlated or A and B differ.")
warm_up = warm_sparse


@st.composite
def cases(draw):
    ds = draw(st.lists(st.sampled_from([2, 2, 3, 4]), min_size=4, max_size=4))
    a = draw(gen.chan_spec(dims=(ds[0], ds[1]), max_kraus=3))
    b = draw(gen.chan_spec(dims=(ds[2], ds[3]), max_kraus=3))
    d = ds[0] * ds[2]
    n = draw(st.sampled_from([1, 1, 2])) if max(ds) == 2 else 1
    return {"a": a, "b": b, "n": n, "sparse": draw(st.lists(st.booleans(), min_size=2, max_size=2)),
            "containers": [draw(st.sampled_from(gen.CONTAINERS)),
                           draw(st.sampled_from(gen.CONTAINERS))],
            "state": draw(gen.state_spec(d ** n)), "used": draw(history(2)),
            "sa": draw(gen.state_spec(ds[0])), "sb": draw(gen.state_spec(ds[2]))}


def run(case, ctx):
    a, b = gen.build_chan(case["a"]), gen.build_chan(case["b"])
    qa = a.make(case["sparse"][0], case["containers"][0])
    qb = b.make(case["sparse"][1], case["containers"][1])
    ops = [np.kron(x, y) for x in a.kraus for y in b.kraus]
    n = case["n"] if len(ops) ** case["n"] <= 64 else 1
    used = replay([qa, qb], [a, b], case["used"])
    q = qa * qb
    ctx.require(q.numb_krauss == len(ops), "%d Kraus operators of the product", q.numb_krauss)
    ctx.require(q.dim_in ** q.numb_qubits[0] == a.d * b.d and
                q.dim_out ** q.numb_qubits[1] == a.D * b.D, "dimensions of A * B")
    sa, sb = gen.build_state(case["sa"]), gen.build_state(case["sb"])
    near(ctx, q.channel(np.kron(sa, sb), 1),
         np.kron(ref.apply_kraus(a.kraus, sa), ref.apply_kraus(b.kraus, sb)),
         "A * B on a product state")
    if n == case["n"]:
        rho = gen.build_state(case["state"])
        near(ctx, q.channel(rho, n), ref.apply_kraus(ref.tensor_power(ops, n), rho),
             "A * B on a correlated state, n=%d" % n)
        ctx.nt(case["state"]["fam"] not in ("mixed", "basis"))
    near(ctx, np.sort(ref.eigs(arr(q.entropy_exchange(np.kron(sa, sb), 1)[0]))),
         np.sort(np.kron(ref.eigs(ref.complementary(a.kraus, sa)),
                         ref.eigs(ref.complementary(b.kraus, sb)))),
         "spectrum of the complementary channel of A * B", 1e-7)
    for x, c, s in ((qa, a, sa), (qb, b, sb)):
        near(ctx, x.channel(s, 1), ref.apply_kraus(c.kraus, s), "a factor afterwards")
    ctx.label("sparse %s" % sum(case["sparse"]), "n=%d" % n)
    if used:
        ctx.label("factor used before")
    if a.nin > 1 or b.nin > 1 or a.nout > 1 or b.nout > 1:
        ctx.label("several particles")
    if a.d != a.D or b.d != b.D:
        ctx.label("non-square")
        ctx.nt()
    # Composition distributes over the product: (A*B) followed by (id*id).
    if not any(case["sparse"]) and a.D * b.D <= 9:
        from PyQCodes.chan.channel import AnalyticQChan
        ident = AnalyticQChan([np.eye(a.D)], [1, 1], a.D, a.D) \
            * AnalyticQChan([np.eye(b.D)], [1, 1], b.D, b.D)
        near(ctx, (ident + q).channel(np.kron(sa, sb), 1),
             np.kron(ref.apply_kraus(a.kraus, sa), ref.apply_kraus(b.kraus, sb)),
             "identity composed with A * B")


@st.composite
def kraus_cases(draw, sparse):
    ds = draw(st.lists(st.sampled_from([2, 2, 3, 4]), min_size=4, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        ds[draw(st.integers(0, 3))] = draw(st.sampled_from([8, 9]))
    m = 3 if max(ds) <= 4 else 2
    return {"a": draw(gen.chan_spec(dims=(ds[0], ds[1]), max_kraus=m)),
            "b": draw(gen.chan_spec(dims=(ds[2], ds[3]), max_kraus=m)), "sparse": sparse,
            "containers": [draw(st.sampled_from(gen.CONTAINERS)),
                           draw(st.sampled_from(gen.CONTAINERS))],
            "state": draw(gen.state_spec(ds[0] * ds[2]))}


def run_kraus(case, ctx):
    from PyQCodes.chan._kraus import DenseKraus, SparseKraus
    cls = SparseKraus if case["sparse"] else DenseKraus
    a, b = gen.build_chan(case["a"]), gen.build_chan(case["b"])
    rho = gen.build_state(case["state"])
    ops = [np.kron(x, y) for x in a.kraus for y in b.kraus]
    ctx.nt(len(ops) > 1)
    got = ops_of(cls.parallel_concatenate(
        gen.contain(a.kraus, case["containers"][0], case["sparse"]),
        gen.contain(b.kraus, case["containers"][1], case["sparse"])))
    ctx.require(len(got) == len(ops), "parallel_concatenate gives %d operators", len(got))
    for g, w in zip(got, ops):
        near(ctx, g, w, "parallel_concatenate operator A_i x B_j")
    total = a.make_kraus(case["sparse"], case["containers"][0]) \
        * b.make_kraus(case["sparse"], case["containers"][1])
    ctx.require(isinstance(total, cls), "product of Kraus objects is a %s", type(total))
    near(ctx, total.channel(rho), ref.apply_kraus(ops, rho), "product of Kraus objects")
    ctx.require(list(total.numb_qubits) == [1, 1] and total.dim_in == a.d * b.d
                and total.dim_out == a.D * b.D, "metadata of the product of Kraus objects")


@st.composite
def choi_cases(draw):
    ds = draw(st.lists(st.sampled_from([2, 2, 3, 4]), min_size=4, max_size=4))
    return {"a": draw(gen.chan_spec(dims=(ds[0], ds[1]), max_kraus=3)),
            "b": draw(gen.chan_spec(dims=(ds[2], ds[3]), max_kraus=3)),
            "sparse": draw(st.booleans()), "state": draw(gen.state_spec(ds[0] * ds[2]))}


def run_choi(case, ctx):
    """The second factor is given by its Choi matrix."""
    a, b = gen.build_chan(case["a"]), gen.build_chan(case["b"])
    rho = gen.build_state(case["state"])
    q = a.make(case["sparse"]) * b.make_choi()
    ops = [np.kron(x, y) for x in a.kraus for y in b.kraus]
    ctx.label("sparse" if case["sparse"] else "dense")
    ctx.nt(case["state"]["fam"] not in ("mixed", "basis"))
    near(ctx, q.channel(rho, 1), ref.apply_kraus(ops, rho), "A * B with B from a Choi matrix", 1e-6)
    ctx.require(q.dim_in ** q.numb_qubits[0] == a.d * b.d and
                q.dim_out ** q.numb_qubits[1] == a.D * b.D, "dimensions of A * B, B from Choi")
    value(ctx, q.coherent_information(rho, 1), ref.coherent_information(ops, rho),
          "coherent information of A * B", 1e-5)


SUBS = [
    Sub("choi", lambda: choi_cases(), run_choi, 1600),
    Sub("channels", lambda: cases(), run, 5000),
    Sub("kraus-dense", lambda: kraus_cases(False), run_kraus, 3200),
    Sub("kraus-sparse", lambda: kraus_cases(True), run_kraus, 1600),
]
