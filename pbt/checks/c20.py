"""C20  The encoding circuit."""
import itertools

from pbt.checks import pq
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes of 2..6 qubits (generators with an even number of Y) on the ProjectQ "
        "simulator: every basis state is encoded into the joint +1 eigenspace of the standard "
        "form, different states into orthogonal ones, logical Z_i acts as (-1)^x_i, logical X_i "
        "flips x_i, a superposition on the last k qubits becomes the superposition of code words; "
        "if standard form and generators have the same +1 eigenspace the image is the range of "
        "encode_krauss_operators.  Non-trivial: both X and Z generators, or k >= 2.")
ASSUMPTIONS = ["The code space is the one of the standard form; it is a qubit permutation of the "
               "code given when the elimination exchanges qubits (known finding)."]


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 6, named=["bitflip3", "phaseflip3", "five", "four22", "steane",
                                           "yy", "three2", "six4", "four1"], max_gates=20))
    _, n, k = gen.code_rows(spec)
    return {"code": spec, "amps": draw(gen.cmat_hex(2 ** k, 1)), "default": draw(st.booleans()),
            "pick": draw(st.integers(0, 2 ** k - 1)),
            "shuffle": draw(st.permutations(list(range(n)))),
            "as_ints": draw(st.booleans())}


def encode(code, n, state, default, perm=None, inputs=None):
    """Wave function after the circuit; the register can be any list of qubits."""
    with pq.Reg(n, default=default) as r:
        reg = r.q if perm is None else [r.q[p] for p in perm]
        if inputs is not None:
            r.set(inputs, reg)
        code.encoding_circuit(r.eng, reg, state)
        return r.state(reg)


def even(rows):
    return not any(ref.numb_y(r) % 2 for r in rows)


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    if not even(rows):
        return
    nf = ref.ints(code.normal_form)
    proj = ref.projector(nf)
    states = list(itertools.product([0, 1], repeat=k))
    pick = states[case["pick"]]
    if k > 2:
        states = sorted({states[case["pick"]], states[0], states[-1], states[1]})
    words = {s: encode(code, n, list(s), case["default"] and s == pick) for s in states}
    x, z = ref.ints(code.logical_x), ref.ints(code.logical_z)
    for s, v in words.items():
        ctx.require(abs(np.linalg.norm(v) - 1) < 1e-6, "not normalised")
        ctx.require(np.linalg.norm(proj @ v - v) < 1e-6, "encoded %s is not in the code space", s)
        for i in range(k):
            ctx.require(np.linalg.norm(ref.pauli_mat(z[i]) @ v - (-1) ** s[i] * v) < 1e-6,
                        "logical Z%d on encoded %s", i, s)
            t = tuple(b ^ (j == i) for j, b in enumerate(s))
            if t in words:
                ctx.require(pq.fidelity(ref.pauli_mat(x[i]) @ v, words[t]) > 1 - 1e-6,
                            "logical X%d on encoded %s is not encoded %s", i, s, t)
        for t, w in words.items():
            ctx.require(s == t or abs(np.vdot(v, w)) < 1e-6, "encoded %s and %s overlap", s, t)
    # Qubits of the register in another order than they were allocated.
    v = encode(code, n, list(pick), case["default"], case["shuffle"])
    ctx.require(pq.fidelity(v, words[pick]) > 1 - 1e-6, "encoding depends on the qubits used")
    if k <= 2:
        amps = pq.state_from_hex(case["amps"], k)
        inputs = np.kron(pq.basis_state([0] * (n - k)), amps)
        v = encode(code, n, [0] * k, case["default"], None, inputs)
        want = sum(amps[i] * words[s] for i, s in enumerate(states))
        ctx.require(pq.fidelity(v, want) > 1 - 1e-6, "superposition of inputs is not encoded "
                    "into the superposition of code words")
        ctx.label("superposition")
    if np.abs(ref.projector(rows) - proj).max() < 1e-9:
        ctx.label("same code space as the generators given")
        e = np.asarray(code.encode_krauss_operators())
        for v in words.values():
            ctx.require(np.linalg.norm(e @ ref.dag(e) @ v - v) < 1e-6,
                        "circuit and encoding operator have different code spaces")
    ctx.label("n=%d" % n, "k=%d" % k, "default engine" if case["default"] else "plain engine")
    ctx.nt(k > 1 or 0 < code.rank < n - k)


def reject(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    state = case["state"]
    ok = len(state) == k and all(b in (0, 1) for b in state) and case["n"] % 3 == 0
    size = n + {0: 0, 1: 1, 2: -1}[case["n"] % 3]
    with pq.Reg(size) as r:
        try:
            code.encoding_circuit(r.eng, r.q, state)
        except AssertionError:
            ctx.require(not ok, "valid state %s rejected", state)
            ctx.nt()
            return
        ctx.require(ok, "state %s on %d qubits is accepted by a [%d, %d] code", state, size, n, k)


@st.composite
def reject_cases(draw):
    spec = draw(gen.code_spec(2, 4))
    k = spec["k"]
    m = draw(st.sampled_from([k, k, k + 1, max(0, k - 1)]))
    return {"code": spec, "state": draw(st.lists(st.sampled_from([0, 1, 1, 0, 2, -1]), min_size=m,
                                                 max_size=m)), "n": draw(st.integers(0, 5))}


def known_swapped(inp):
    """Encoded state outside the code space of the generators given."""
    from PyQCodes.codes import StabilizerCode
    code = StabilizerCode(inp["stab"], inp["n"], inp["k"])
    v = encode(code, inp["n"], [0] * inp["k"], False)
    rows = np.array([ref.str_row(s) for s in inp["stab"]])
    return np.linalg.norm(ref.projector(rows) @ v - v) > 1e-6


KNOWN = {"encoder-other-qubit-order": known_swapped}
SUBS = [Sub("encode", cases, run, 5000), Sub("reject", reject_cases, reject, 800)]
