"""C03  Complementary channel (entropy exchange)."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random Kraus channels, with an orthogonal split into 2 or 3 groups (sizes may differ) "
        "where the channel is a direct sum or an erasure, n uses, random states.  Non-trivial: at "
        "least two Kraus operators and the state is not the maximally mixed one; split cases count "
        "separately in the classes.")
warm_up = warm_sparse


@st.composite
def cases(draw, cap, split):
    fams = ["directsum", "directsum3", "erasure", "dephrasure"] if split else None
    spec = draw(gen.chan_spec(max_dim=5 if split else 8, fams=fams,
                              dims=draw(st.sampled_from([(2, 3), (2, 3), (2, 4), (3, 4), (2, 5),
                                                         (3, 3), (4, 5), (4, 4)]))
                              if split else None))
    n = draw(uses(spec, cap, limit=4))
    return {"chan": spec, "n": n, "container": draw(st.sampled_from(gen.CONTAINERS)),
            "state": draw(gen.state_spec(dims(spec)[0] ** n))}


def run(case, ctx, sparse, split):
    c = gen.build_chan(case["chan"])
    n = case["n"]
    rho = gen.build_state(case["state"])
    ops = ref.tensor_power(c.kraus, n)
    want = ref.complementary(ops, rho)
    describe_chan(ctx, c, n)
    ctx.label(case["chan"]["fam"], case["state"]["fam"])
    ctx.nt(c.K > 1 and case["state"]["fam"] != "mixed")
    plain = c.make(sparse, case["container"], False)
    got = plain.entropy_exchange(rho, n)
    ctx.require(isinstance(got, (list, tuple)) and len(got) == 1,
                "complementary channel without a split returns a list of one matrix")
    w = arr(got[0])
    near(ctx, w, want, "complementary channel, W_ij = Tr(K_i rho K_j^dagger)")
    ctx.require(ref.is_state(w), "complementary channel output is not a density matrix")
    if split and c.orth:
        q = c.make(False, case["container"], True)
        blocks = [arr(b) for b in q.entropy_exchange(rho, n)]
        ctx.label("groups of sizes %s" % list(np.diff([0] + list(c.orth) + [c.K])))
        ctx.require(len(blocks) == len(c.orth) + 1 or n > 1, "%d blocks for %d groups",
                    len(blocks), len(c.orth) + 1)
        if n == 1:
            cuts = [0] + list(c.orth) + [c.K]
            for b, lo, hi in zip(blocks, cuts, cuts[1:]):
                near(ctx, b, want[lo:hi, lo:hi], "block of the complementary channel")
        ev = np.sort(np.concatenate([ref.eigs(b) for b in blocks]))
        near(ctx, ev, np.sort(ref.eigs(want)), "spectrum of the blocks of the complementary channel")
        value(ctx, q.entropy(q.entropy_exchange(rho, n)), ref.entropy(want),
              "entropy of the list of blocks", 1e-6)
        value(ctx, q.coherent_information(rho, n), ref.coherent_information(ops, rho),
              "coherent information with an orthogonal split", 1e-6)
    value(ctx, plain.entropy(got), ref.entropy(want), "entropy of the exchange matrix", 1e-6)


SUBS = [
    Sub("dense", lambda: cases(500, False), lambda c, x: run(c, x, False, False), 8000),
    Sub("split", lambda: cases(500, True), lambda c, x: run(c, x, False, True), 5000),
    Sub("sparse", lambda: cases(160, False), lambda c, x: run(c, x, True, False), 2000),
]
