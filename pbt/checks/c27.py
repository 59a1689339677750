"""C27  The approximate unitary two-design and its inverse."""
from pbt.checks import pq
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Registers of 1..4 qubits in any state, several epsilons, with or without other circuits in "
        "between: the inverse undoes the design for the phases it returned (several designs "
        "undone in reverse order), the design is a unitary of the right size, different draws "
        "give different unitaries, and over many draws the second moment E|<0|U^+VU|0>|^2 of a "
        "random V is no further from (|tr V|^2+d)/(d^2+d) than for the documented circuit (exact "
        "average over its phases) up to 6 standard errors, nor is the frame potential; the "
        "phases are thirds and halves of a turn, average out and are pairwise independent, and "
        "it has no fewer layers than documented.  set_register_to_zero gives |0..0> from any "
        "state.  Non-trivial: more than one layer and a state other than |0..0>.")
ASSUMPTIONS = ["The documented circuit: 2 ceil(log2(1/epsilon)/n) + 1 layers of random diagonal "
               "gates (phases of thirds of 2 pi, controlled signs) followed by Hadamards."]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "eps": draw(st.sampled_from([0.9, 0.5, 0.3, 0.1, 0.05, 0.01] if n < 3 else
                                                [0.9, 0.5, 0.3, 0.1])),
            "amps": draw(gen.cmat_hex(2 ** n, 1)), "rounds": draw(st.integers(1, 2)),
            "default": draw(st.integers(0, 3)) == 0, "seed": draw(st.integers(0, 2 ** 31)),
            "order": draw(st.integers(0, 2 ** 10))}


def run(case, ctx):
    from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
    n = case["n"]
    np.random.seed(case["seed"])
    with pq.Reg(n, case["seed"], case["default"]) as r:
        # The register need not list the qubits in order of allocation.
        q = [r.q[i] for i in np.random.RandomState(case["order"]).permutation(n)]
        dev = ProjectQDeviceAdaptor(r.eng, q)
        psi = pq.state_from_hex(case["amps"], n)
        r.set(psi, q)
        phases, states = [], []
        for _ in range(case["rounds"]):
            phases.append(dev.approximate_unitary_two_design(case["eps"]))
            states.append(r.state(q))
            ctx.require(abs(np.linalg.norm(states[-1]) - 1) < 1e-6, "state is not normalised")
        for _ in range(case["rounds"]):
            before = states.pop()
            ctx.require(pq.fidelity(r.state(q), before) > 1 - 1e-6, "inverse stops elsewhere")
            dev.inverse_of_unitary_two_design(phases.pop())
        got = r.state(q)
        ctx.require(pq.fidelity(got, psi) > 1 - 1e-6, "inverse gives fidelity %.6f with the "
                    "state before", pq.fidelity(got, psi))
        ctx.require(r.active() == n, "%d active qubits", r.active())
    ctx.nt(np.abs(psi[0]) < 0.999)
    ctx.label("n=%d" % n, "eps=%s" % case["eps"], "rounds=%d" % case["rounds"])


# ------------------------------------------------------------------ second moments

def layers(n, eps):
    return 2 * int(np.ceil(np.log2(1 / eps) / n)) + 1


def diagonal_average(n):
    """All (diagonal of the layer) with equal weights: array (choices, 2^n)."""
    idx = np.arange(2 ** n)
    b = np.array([(idx >> (n - 1 - i)) & 1 for i in range(n)])
    out = [np.ones(2 ** n, dtype=complex)]
    for i in range(n):
        out = [o * np.exp(1j * t * b[i]) for o in out for t in (0, 2 * np.pi / 3, 4 * np.pi / 3)]
    for i in range(n):
        for j in range(i):
            out = [o * s for o in out for s in (np.ones(2 ** n), (-1.0) ** (b[i] * b[j]))]
    return np.array(out)


@gen.memo
def second_moment(n, m):
    """E[(U|0><0|U^+)^{x2}] for m layers, as a matrix."""
    d = 2 ** n
    diag = diagonal_average(n)
    two = np.einsum("ci,cj->cij", diag, diag).reshape(len(diag), d * d)
    mask = np.einsum("ci,cj->ij", two, two.conj()) / len(diag)
    h = np.eye(1)
    for _ in range(n):
        h = np.kron(h, np.array([[1, 1], [1, -1]]) / np.sqrt(2))
    h = np.kron(h, h)
    rho = np.zeros((d * d, d * d), dtype=complex)
    rho[0, 0] = 1
    for _ in range(m):
        rho = h @ (rho * mask) @ h
    return rho


@st.composite
def moment_cases(draw):
    n = draw(st.sampled_from([1, 2, 2, 3]))
    return {"n": n, "eps": draw(st.sampled_from([0.5, 0.3, 0.1, 0.05] if n < 3 else [0.5, 0.3])),
            "v": [draw(gen.cmat_hex(2 ** n, 2 ** n)) for _ in range(6)],
            "seed": draw(st.integers(0, 2 ** 31)), "count": 600}


def moments(case, ctx):
    from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
    n = case["n"]
    d = 2 ** n
    np.random.seed(case["seed"])
    states = []
    with pq.Reg(n, case["seed"]) as r:
        dev = ProjectQDeviceAdaptor(r.eng, r.q)
        zero = pq.basis_state([0] * n)
        for _ in range(case["count"]):
            r.set(zero)
            dev.approximate_unitary_two_design(case["eps"])
            states.append(r.state())
    states = np.array(states)
    ctx.require(np.max(np.abs(states - states[0])) > 1e-3, "all draws are the same")
    rho2 = second_moment(n, layers(n, case["eps"]))
    vs = [gen.unitary_from_hex(h, d) for h in case["v"]]
    vs += [ref.pauli_mat(np.array([(i >> j) & 1 for j in range(2 * n)])) for i in range(1, 4 ** n)]
    for v in vs:
        p = np.abs(np.einsum("si,ij,sj->s", states.conj(), v, states)) ** 2
        haar = (abs(np.trace(v)) ** 2 + d) / (d * (d + 1))
        exact = np.real(np.trace(np.kron(v, ref.dag(v)) @ rho2))
        err = 6 * np.std(p) / np.sqrt(len(p)) + 6 * 0.05 / np.sqrt(len(p))
        ctx.require(abs(p.mean() - haar) <= abs(exact - haar) + err, "mean of |<0|U^+VU|0>|^2 is "
                    "%.4f, Haar %.4f, documented circuit %.4f", p.mean(), haar, exact)
    # Frame potential E|<U0|U'0>|^4 over pairs of draws.
    pairs = np.abs(states.conj() @ states.T) ** 4
    np.fill_diagonal(pairs, 0)
    num = len(states)
    got = pairs.sum() / (num * (num - 1))
    exact = np.real(np.trace(rho2 @ rho2))
    rows = pairs.sum(axis=1) / (num - 1)
    err = 12 * np.std(rows) / np.sqrt(num) + 10 * np.sqrt(2 * pairs.var()) / num
    ctx.require(got <= exact + err, "frame potential of %d states of %d qubits is %.5f, Haar %.5f, "
                "documented circuit %.5f", num, n, got, 2 / (d * (d + 1)), exact)
    ctx.nt()
    ctx.label("n=%d" % n, "layers=%d" % layers(n, case["eps"]))


# ------------------------------------------------------------------ reset

@st.composite
def reset_cases(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "amps": draw(gen.cmat_hex(2 ** n, 1)), "seed": draw(st.integers(0, 10 ** 6)),
            "steps": draw(st.lists(st.tuples(st.sampled_from(["zero", "cheat", "design",
                                                              "measure"]),
                                             st.sampled_from([0.5, 0.1])).map(list),
                                   min_size=1, max_size=6))}


def reset(case, ctx):
    from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
    from projectq.ops import All, Measure
    n = case["n"]
    with pq.Reg(n, case["seed"]) as r:
        dev = ProjectQDeviceAdaptor(r.eng, r.q)
        r.set(pq.state_from_hex(case["amps"], n))
        r.q = None
        for what, eps in case["steps"]:
            if what == "design":
                dev.approximate_unitary_two_design(eps)
            elif what == "measure":
                All(Measure) | dev.register
                r.eng.flush()
            else:
                if what == "zero":
                    # Qubits that are released have to be in a basis state.
                    All(Measure) | dev.register
                    r.eng.flush()
                dev.set_register_to_zero(**gen.brief(case, {"cheat": what == "cheat"},
                                                         {"cheat": False}))
                ctx.require(len(dev.register) == n and dev.numb_qubits == n, "register of %d "
                            "qubits", len(dev.register))
                ctx.require(pq.fidelity(r.state(list(dev.register)), pq.basis_state([0] * n))
                            > 1 - 1e-9, "register is not |0..0> after %s", what)
                ctx.nt()
                ctx.label(what)


# ------------------------------------------------------------------ number of layers

@st.composite
def layer_cases(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "eps": draw(st.floats(1e-6, 0.95)), "seed": draw(st.integers(0, 2 ** 31))}


def number_of_layers(case, ctx):
    from projectq import MainEngine
    from projectq.backends import Simulator
    from projectq.cengines import BasicEngine
    from PyQCodes.device_adaptor import ProjectQDeviceAdaptor

    class Count(BasicEngine):
        hadamards = 0

        def receive(self, commands):
            self.hadamards += sum(str(c.gate) == "H" for c in commands)
            self.send(commands)

    n, eps = case["n"], case["eps"]
    count = Count()
    np.random.seed(case["seed"])
    eng = MainEngine(Simulator(rnd_seed=1), engine_list=[count])
    q = eng.allocate_qureg(n)
    phases = ProjectQDeviceAdaptor(eng, q).approximate_unitary_two_design(eps)
    eng.flush()
    eng.backend.set_wavefunction([1.0] + [0.0] * (2 ** n - 1), q)
    eng.flush(deallocate_qubits=True)
    # Rounding of the logarithm may cost or add one unit.
    want = layers(n, eps * (1 + 1e-9))
    ctx.require(max(len(phases), count.hadamards / n) >= want, "%d layers (%d Hadamards on %d "
                "qubits) for epsilon %g, %d are needed", len(phases), count.hadamards, n, eps, want)
    ctx.nt(want > 3)
    ctx.label("n=%d" % n, "%s layers" % ("<10" if want < 10 else "10+"))


# ------------------------------------------------------------------ phases of the layers

@st.composite
def phase_cases(draw):
    n = draw(st.sampled_from([1, 2, 3]))
    return {"n": n, "eps": draw(st.sampled_from([0.9, 0.5, 0.3])),
            "seed": draw(st.integers(0, 2 ** 31)), "count": 1200}


def phases_drawn(case, ctx):
    """Diagonal gates of a design average out: moments of the phases over many draws."""
    from projectq import MainEngine
    from projectq.cengines import DummyEngine
    from PyQCodes.device_adaptor import ProjectQDeviceAdaptor

    def flat(x):
        return [float(x)] if np.ndim(x) == 0 else [v for y in x for v in flat(y)]

    n = case["n"]
    np.random.seed(case["seed"])
    eng = MainEngine(DummyEngine(), engine_list=[])
    q = eng.allocate_qureg(n)
    dev = ProjectQDeviceAdaptor(eng, q)
    rows = np.array([flat(dev.approximate_unitary_two_design(case["eps"]))
                     for _ in range(case["count"])])
    turns = rows / (2 * np.pi)
    ctx.require(np.max(np.abs(turns * 6 - np.round(turns * 6))) < 1e-6, "a phase is neither a "
                "third nor a half of a turn")
    z = np.exp(1j * rows)
    # All phases together: E z = 0, E z^2 = share of the signs, E z^3 = share of the thirds.
    num = z.size
    per = n + n * (n - 1)
    for k, want in ((1, 0), (2, (per - n) / per), (3, n / per)):
        ctx.require(abs(np.mean(z ** k) - want) < 6.5 / np.sqrt(num), "mean of exp(%di phase) is "
                    "%s, should be %.3f", k, np.mean(z ** k), want)
    # Each of them, and each pair.
    ctx.require(np.max(np.abs(z.mean(axis=0))) < 0.25, "a phase has mean %.3f",
                np.max(np.abs(z.mean(axis=0))))
    off = 1 - np.eye(z.shape[1])
    for w, what in ((z.conj(), "differ"), (z, "add up")):
        c = np.abs(z.T @ w / len(z)) * off
        ctx.require(c.max() < 0.25, "phases %s %s: correlation %.3f",
                    np.unravel_index(c.argmax(), c.shape), what, c.max())
    ctx.nt(n > 1)
    ctx.label("n=%d" % n)


SUBS = [Sub("phases", phase_cases, phases_drawn, 32), Sub("inverse", cases, run, 6000), Sub("moments", moment_cases, moments, 200),
        Sub("layers", layer_cases, number_of_layers, 1500),
        Sub("reset", reset_cases, reset, 4000)]
