"""C07  Everything that is a function of the map is independent of its representation."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("One map given by different Kraus sets: dense, sparse, list / 3-D array, operators "
        "reordered, multiplied by phases, mixed by a random isometry into more operators, padded "
        "with zero operators, and (n = 1) as a Choi matrix.  Channel, adjoint, spectrum of the "
        "complementary channel, coherent information and fidelity must agree.  Non-trivial: the "
        "remixed set really differs from the original and the map has at least two operators.")
warm_up = warm_sparse


@st.composite
def cases(draw, cap):
    spec = draw(gen.chan_spec(max_dim=4, max_kraus=3))
    c = gen.build_chan(spec)
    extra = draw(st.integers(0, 2))
    k2 = c.K + extra
    n = draw(st.integers(1, gen.max_n(k2, c.d, c.D, cap, 3)))
    return {"chan": spec, "n": n, "extra": extra, "mix": draw(gen.cmat_hex(k2, c.K)),
            "order": draw(st.permutations(list(range(c.K)))),
            "phases": draw(st.lists(st.integers(0, 15), min_size=c.K, max_size=c.K)),
            "state": draw(gen.state_spec(c.d ** n)), "y": draw(gen.matrix_spec(c.D ** n)),
            "sparse": draw(st.booleans())}


def run(case, ctx):
    c = gen.build_chan(case["chan"])
    n = case["n"]
    k2 = c.K + case["extra"]
    v = gen.isometry_from(gen.cmat(case["mix"], k2, c.K))
    mixed = [sum(v[i, j] * c.kraus[j] for j in range(c.K)) for i in range(k2)]
    reordered = [c.kraus[i] * np.exp(2j * np.pi * case["phases"][i] / 16) for i in case["order"]]
    ctx.nt(c.K > 1 and max(np.abs(m - k).max() for m, k in zip(mixed, c.kraus)) > 1e-3)
    describe_chan(ctx, c, n)
    rho, y = gen.build_state(case["state"]), gen.build_matrix(case["y"])
    import copy
    variants = [("dense", c.make(False)), ("dense array", c.make(False, "array"))]
    for name, ops in (("remixed", mixed), ("reordered", reordered),
                      ("padded", c.kraus + [np.zeros((c.D, c.d))])):
        cc = copy.copy(c)
        cc.kraus = ops
        if (len(ops) * max(c.d, c.D)) ** n <= 4000:
            variants.append((name, cc.make(case["sparse"] and name == "remixed")))
    if case["sparse"]:
        variants.append(("sparse", c.make(True)))
    if n == 1:
        variants.append(("choi", c.make_choi()))
    base = variants[0][1]
    out0, adj0 = arr(base.channel(rho, n)), arr(base.channel(y, n, adjoint=True))
    coh0 = base.coherent_information(rho, n)
    spec0 = np.sort(ref.eigs(arr(base.entropy_exchange(rho, n)[0])))
    fid0 = base.fidelity_two_states(rho, n) if c.d == c.D else None
    for name, q in variants[1:]:
        ctx.label(name)
        near(ctx, q.channel(rho, n), out0, "channel, %s representation" % name)
        near(ctx, q.channel(y, n, adjoint=True), adj0, "adjoint, %s representation" % name, 1e-6)
        value(ctx, q.coherent_information(rho, n), coh0,
              "coherent information, %s representation" % name, 1e-5)
        if c.d == c.D:
            value(ctx, q.fidelity_two_states(rho, n), fid0,
                  "fidelity, %s representation" % name, 1e-5)
        if name != "choi":
            w = np.sort(ref.eigs(arr(q.entropy_exchange(rho, n)[0])))
            size = max(len(w), len(spec0))
            near(ctx, np.concatenate((np.zeros(size - len(w)), w)),
                 np.concatenate((np.zeros(size - len(spec0)), spec0)),
                 "spectrum of the complementary channel, %s representation" % name, 1e-7)


SUBS = [Sub("representations", lambda: cases(300), run, 4000)]
