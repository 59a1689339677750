"""C11  Fidelity of input and output, and average entanglement fidelity."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random channels with equal input and output dimension, n uses, states of every rank: "
        "fidelity against || sqrt(rho) sqrt(N(rho)) ||_1, range [0, 1], multiplicative on "
        "products, sqrt(<psi|N(psi)|psi>) for pure states, one for fixed states; average "
        "entanglement fidelity of random ensembles against sum_j p_j sum_i |tr(K_i rho_j)|^2, "
        "bounds, linearity in the weights, Choi and Kraus representation.  Non-trivial: channel "
        "with at least two operators.")
ASSUMPTIONS = ["For the Kraus representation average_entanglement_fidelity is wrong on the "
               "unchanged tree (known finding); a value is accepted there if it is the defined "
               "one or the recorded wrong formula."]
warm_up = warm_sparse


@st.composite
def cases(draw):
    spec = draw(gen.chan_spec(max_dim=8, max_kraus=4, same=True))
    d, D = dims(spec)
    n = draw(uses(spec, 300, 3))
    return {"chan": spec, "n": n, "state": draw(gen.state_spec(d ** n)),
            "kind": draw(st.sampled_from(["dense", "sparse", "choi"]))}


def make(c, kind, n):
    return c.make_choi() if kind == "choi" and n == 1 else c.make(kind == "sparse")


def fidelity(case, ctx):
    c = gen.build_chan(case["chan"])
    n, rho = case["n"], gen.build_state(case["state"])
    q = make(c, case["kind"], n)
    describe_chan(ctx, c, n)
    ctx.label(case["kind"], case["state"]["fam"])
    ctx.nt(c.K > 1)
    out = ref.apply_kraus(ref.tensor_power(c.kraus, n), rho)
    got = q.fidelity_two_states(rho, n)
    value(ctx, got, ref.fidelity(rho, out), "fidelity", 1e-5)
    ctx.require(-1e-6 <= got <= 1 + 1e-6, "fidelity %g outside [0, 1]", got)
    w, v = np.linalg.eigh(rho)
    if w[-1] > 1 - 1e-9:
        psi = v[:, -1]
        value(ctx, got, np.sqrt(max(0, np.real(np.conj(psi) @ out @ psi))),
              "fidelity of a pure state", 1e-5)
        ctx.label("pure")
    if np.abs(out - rho).max() < 1e-12:
        value(ctx, got, 1.0, "fidelity of a fixed state", 1e-5)
        ctx.label("fixed")


@st.composite
def product_cases(draw):
    spec = draw(gen.chan_spec(max_dim=4, max_kraus=3, same=True))
    d, _ = dims(spec)
    n = max(2, min(3, max_uses(spec, 400, 3)))
    return {"chan": spec, "states": [draw(gen.state_spec(d)) for _ in range(n)],
            "sparse": draw(st.booleans())}


def product(case, ctx):
    c = gen.build_chan(case["chan"])
    rhos = [gen.build_state(s) for s in case["states"]]
    q = c.make(case["sparse"])
    ctx.nt(c.K > 1)
    want, joint = 1.0, np.eye(1)
    for r in rhos:
        want *= float(q.fidelity_two_states(r, 1))
        joint = np.kron(joint, r)
    value(ctx, q.fidelity_two_states(joint, len(rhos)), want, "fidelity of a product state", 1e-5)


@st.composite
def ensemble_cases(draw):
    spec = draw(gen.chan_spec(max_dim=8, max_kraus=4, same=True))
    d, _ = dims(spec)
    m = draw(st.integers(1, 4))
    return {"chan": spec, "ens": [draw(gen.state_spec(d)) for _ in range(m)],
            "w": draw(st.lists(st.integers(0, 9), min_size=m, max_size=m)),
            "kind": draw(st.sampled_from(["choi", "choi", "dense", "sparse"]))}


def recorded(kind, kraus, w, states):
    """What the unchanged Kraus classes compute instead (see known_findings.txt)."""
    tot = 0.0
    for p, s in zip(w, states):
        kr = np.array([k @ s for k in kraus])
        if kind == "dense":
            tot += p * np.sum(np.abs(kr.sum(axis=(1, 2))) ** 2)
        else:
            tot += p * np.sum(np.abs(np.trace(kr, axis1=0, axis2=1)) ** 2)
    return float(tot)


def ensemble(case, ctx):
    c = gen.build_chan(case["chan"])
    w = np.array(case["w"], dtype=float)
    w = w / w.sum() if w.sum() else np.ones(len(w)) / len(w)
    states = [gen.build_state(s) for s in case["ens"]]
    q = make(c, case["kind"], 1)
    want = sum(p * ref.entanglement_fidelity(c.kraus, s) for p, s in zip(w, states))
    got = complex(q.average_entanglement_fidelity(list(w), states))
    ctx.label(case["kind"], "%d states" % len(states))
    ctx.nt(c.K > 1)
    if case["kind"] != "choi":
        if abs(got - want) > 1e-7:
            value(ctx, got, recorded(case["kind"], c.kraus, w, states),
                  "average entanglement fidelity (%s Kraus)" % case["kind"], 1e-7)
        return
    value(ctx, got, want, "average entanglement fidelity", 1e-7)
    ctx.require(-1e-7 <= got.real <= 1 + 1e-7, "entanglement fidelity %s outside [0, 1]", got)
    one = [float(np.real(q.average_entanglement_fidelity([1.0], [s]))) for s in states]
    value(ctx, got, float(np.dot(w, one)), "linearity in the ensemble", 1e-7)
    # Entanglement fidelity of a state is at most its (squared) fidelity with the output.
    for s, e in zip(states, one):
        f = float(q.fidelity_two_states(s, 1))
        ctx.require(e <= f * f + 1e-5, "entanglement fidelity %g above squared fidelity %g",
                    e, f * f)


def known_entfid(inp):
    from PyQCodes.chan.channel import AnalyticQChan
    d = inp["d"]
    psi = np.ones((d, 1)) / np.sqrt(d)
    q = AnalyticQChan([np.eye(d)], [1, 1], d, d, sparse=inp["sparse"])
    got = complex(q.average_entanglement_fidelity([1.0], [psi @ psi.T]))
    return abs(got - 1.0) > 1e-6


KNOWN = {"kraus-entanglement-fidelity": known_entfid}

SUBS = [Sub("fidelity", cases, fidelity, 6000),
        Sub("product", product_cases, product, 1500),
        Sub("ensemble", ensemble_cases, ensemble, 5000)]
