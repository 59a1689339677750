"""C33  Error-correction cycles."""
from pbt.checks import pq
from pbt.checks.c20 import even
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes of 2..5 qubits, any superposition of k qubits encoded by the circuit, then 1..4 "
        "rounds of: Pauli error, measurement of all standard-form generators in any order, and a "
        "correction chosen from the measured syndrome alone (any Pauli with that syndrome).  After "
        "every round the state is in the code space again with every syndrome zero, and decoding "
        "gives the logical Pauli of (product of errors and corrections) applied to the input.  "
        "Measurement with supplied or allocated ancilla, text or binary Paulis.  Non-trivial: an "
        "error with a non-zero syndrome, or a net logical operator.")
ASSUMPTIONS = ["The code is that of the standard form (known finding of C20); generators have an "
               "even number of Y."]


@gen.memo
def all_paulis(n):
    return np.array([[(i >> j) & 1 for j in range(2 * n)] for i in range(4 ** n)])


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 5, max_k=3, named=["bitflip3", "phaseflip3", "five", "four22", "yy",
                                                    "three2", "four1"], max_gates=16))
    _, n, k = gen.code_rows(spec)
    rounds = draw(st.lists(st.tuples(gen.pauli_row(n), st.integers(0, 1023), st.integers(0, 719)),
                           min_size=1, max_size=4))
    return {"code": spec, "amps": draw(gen.cmat_hex(2 ** k, 1)), "own": draw(st.booleans()),
            "default": draw(st.booleans()), "text": draw(st.booleans()),
            "rounds": [list(r) for r in rounds], "seed": draw(st.integers(0, 10 ** 6))}


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    if not even(rows):
        return
    nf, lx, lz = (ref.ints(x) for x in (code.normal_form, code.logical_x, code.logical_z))
    amps = pq.state_from_hex(case["amps"], k)
    form = (lambda row: ref.pauli_str(row)) if case["text"] else (lambda row: np.array(row))
    proj = ref.projector(nf)
    ctx.label("ancilla in register" if case["own"] else "ancilla allocated", "n=%d k=%d" % (n, k),
              "%d rounds" % len(case["rounds"]))
    want = amps
    with pq.Reg(n, case["seed"], case["default"]) as r:
        r.set(np.kron(pq.basis_state([0] * (n - k)), amps))
        code.encoding_circuit(r.eng, r.q, [0] * k)
        reg = list(r.q)
        if case["own"]:
            reg += list(r.eng.allocate_qureg(1))
            r.eng.flush()

        def check(what):
            v = r.state(reg)
            v = v.reshape(2 ** n, -1)[:, 0] if case["own"] else v
            ctx.require(np.linalg.norm(proj @ v - v) < 1e-5, "the state is not in the code space "
                        "%s", what)

        check("after encoding")
        for err, pick, order in case["rounds"]:
            err = np.array(err)
            code.apply_stabilizer_circuit(r.eng, reg, form(err))
            syndrome = np.zeros(n - k, dtype=int)
            for i in np.random.RandomState(order).permutation(n - k):
                syndrome[i] = code.single_syndrome_measurement(r.eng, reg, form(nf[i]))
            table = all_paulis(n)
            swap = np.hstack((nf[:, n:], nf[:, :n]))
            fits = table[np.all((table @ swap.T) % 2 == syndrome, axis=1)]
            fix = fits[pick % len(fits)]
            code.apply_stabilizer_circuit(r.eng, reg, form(fix))
            check("after correcting %s by %s" % (ref.pauli_str(err), ref.pauli_str(fix)))
            step = (err + fix) % 2
            logical = np.array([ref.symp(step, z) for z in lz] + [ref.symp(step, x) for x in lx])
            want = ref.pauli_mat(logical) @ want
            if syndrome.any():
                ctx.nt()
                ctx.label("error detected")
            if logical.any():
                ctx.nt()
                ctx.label("net logical operator")
        for row in nf:
            got = code.single_syndrome_measurement(r.eng, reg, form(row))
            ctx.require(got == 0, "syndrome of %s is %s after correction", ref.pauli_str(row), got)
        if case["own"]:
            # The decoder wants the ancillas right behind the block.
            reg, extra = reg[:n], reg[n:]
            r.eng.flush()
        out = list(code.decoding_circuit(r.eng, reg, add_ancilla_bits=True))
        v = r.state(out + (extra if case["own"] else []))
        v = v.reshape(2 ** n, 2 ** k, -1)[:, :, 0]
        ctx.require(abs(np.linalg.norm(v) - 1) < 1e-5, "the measurement ancilla is not clean")
        u, s, w = np.linalg.svd(v, full_matrices=False)
        ctx.require(s[0] > 1 - 1e-6, "the decoded qubits are entangled with the block")
        ctx.require(pq.fidelity(w[0], want) > 1 - 1e-6, "decoded state after %d rounds has fidelity "
                    "%.6f", len(case["rounds"]), pq.fidelity(w[0], want))


SUBS = [Sub("cycle", cases, run, 5000)]
