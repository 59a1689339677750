"""C08  A Choi matrix describes the same map as the Kraus operators it was made from."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random Choi matrices (from 1..9 Kraus operators; rank 1 up to full), input and output "
        "of different dimension and several particles; channel, Kraus operators recovered from "
        "the Choi matrix (trace preserving, same map, rank many), (I x N) on the purification, "
        "coherent information, entanglement fidelity of ensembles.  Non-trivial: Choi rank at "
        "least two or non-square.")


@st.composite
def cases(draw):
    spec = draw(gen.chan_spec(max_dim=8, max_kraus=4))
    c = gen.build_chan(spec)
    case = {"chan": spec, "state": draw(gen.state_spec(c.d)), "x": draw(gen.matrix_spec(c.d))}
    if c.d == c.D:
        m = draw(st.integers(1, 4))
        case["ens"] = draw(st.lists(gen.state_spec(c.d), min_size=m, max_size=m))
        case["w"] = draw(st.lists(st.integers(0, 9), min_size=m, max_size=m))
    return case


def run(case, ctx):
    c = gen.build_chan(case["chan"])
    choi = ref.choi(c.kraus)
    q = c.make_choi()
    rho, x = gen.build_state(case["state"]), gen.build_matrix(case["x"])
    rank = int(np.sum(ref.eigs(choi) > 1e-7))
    describe_chan(ctx, c)
    ctx.label("rank %d" % rank)
    ctx.nt(rank > 1 or c.d != c.D)
    want = ref.apply_kraus(c.kraus, rho)
    near(ctx, q.channel(rho, 1), want, "channel from a Choi matrix")
    near(ctx, q.channel(x, 1), ref.apply_kraus(c.kraus, x), "Choi channel of any matrix", 1e-6)
    ops = [arr(k) for k in q.kraus]
    ctx.require(all(k.shape == (c.D, c.d) for k in ops), "shapes of Kraus operators from Choi")
    near(ctx, sum(ref.dag(k) @ k for k in ops), np.eye(c.d),
         "sum of K^dagger K of Kraus operators from Choi", 1e-6)
    near(ctx, ref.choi(ops), choi, "Choi matrix of the Kraus operators from Choi", 1e-6)
    near(ctx, ref.apply_kraus(ops, x), ref.apply_kraus(c.kraus, x),
         "map of the Kraus operators from Choi", 1e-5)
    if not np.any((ref.eigs(choi) > 1e-9) & (ref.eigs(choi) < 1e-7)):
        ctx.require(len(ops) == rank, "%d Kraus operators for Choi rank %d", len(ops), rank)
    # The Kraus operators describe a valid channel object.
    from PyQCodes.chan.channel import AnalyticQChan
    again = AnalyticQChan([np.array(k) for k in ops], list(c.numb_qubits), c.din, c.dout)
    near(ctx, again.channel(rho, 1), want, "channel rebuilt from the Choi Kraus operators", 1e-6)
    # (I x N)(purification): same spectrum as the complementary channel.
    comp = arr(q.choi.complementary_channel(rho))
    ctx.require(comp.shape == (c.d * c.D,) * 2, "shape of (I x N)(purification)")
    a = np.sort(ref.eigs(comp))[::-1]
    b = np.sort(ref.eigs(ref.complementary(c.kraus, rho)))[::-1]
    size = max(len(a), len(b))
    near(ctx, np.pad(a, (0, size - len(a))), np.pad(b, (0, size - len(b))),
         "spectrum of (I x N)(purification)", 1e-6)
    value(ctx, np.trace(comp), 1.0, "trace of (I x N)(purification)", 1e-6)
    value(ctx, q.coherent_information(rho, 1), ref.coherent_information(c.kraus, rho),
          "coherent information from a Choi matrix", 1e-5)
    ctx.require(q.input_dimension == c.d and q.output_dimension == c.D and q.dim_in == c.din
                and q.dim_out == c.dout and list(q.numb_qubits) == c.numb_qubits,
                "metadata of a Choi channel")
    if c.d == c.D:
        w = np.array(case["w"], dtype=float) + 1e-3
        w = w / w.sum()
        states = [gen.build_state(s) for s in case["ens"]]
        value(ctx, q.average_entanglement_fidelity(list(w), states),
              sum(p * ref.entanglement_fidelity(c.kraus, s) for p, s in zip(w, states)),
              "average entanglement fidelity from a Choi matrix", 1e-7)
        ctx.label("ensemble of %d" % len(states))
    else:
        # An ensemble's entanglement fidelity needs input and output of one dimension.
        try:
            got = q.average_entanglement_fidelity([1.], [rho])
            ctx.require(False, "average entanglement fidelity %r of a map between different "
                        "dimensions", got)
        except ValueError:
            pass


SUBS = [Sub("choi", lambda: cases(), run, 10000)]
