"""C22  Syndrome measurements over histories."""
from pbt.checks import pq
from pbt.checks.c20 import even
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes of 2..5 qubits, register with and without its own ancilla, start in a code "
        "word or any state, then a history of Pauli errors, stabilizer measurements and "
        "measurements of other Paulis; a state-vector model predicts which results are possible "
        "and the state after each.  On a code word with an error the results are the symplectic "
        "products of error and stabilizers.  Non-trivial: an error with a non-zero syndrome or "
        "a measurement whose result is random.")
ASSUMPTIONS = ["Measured Paulis have an even number of Y (Y is X.Z in the library)."]


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 5, named=["bitflip3", "phaseflip3", "five", "four22", "yy"],
                              max_gates=16))
    _, n, k = gen.code_rows(spec)
    step = st.one_of(st.tuples(st.just("measure"), st.integers(0, n - k - 1)),
                     st.tuples(st.just("given"), st.integers(0, n - k - 1)),
                     st.tuples(st.just("error"), gen.pauli_row(n)),
                     st.tuples(st.just("other"), gen.pauli_row(n)))
    return {"code": spec, "own": draw(st.booleans()), "default": draw(st.booleans()),
            "start": draw(st.sampled_from(["word", "word", "any"])),
            "amps": draw(gen.cmat_hex(2 ** n, 1)), "bits": draw(gen.bits(k)),
            "steps": [list(s) for s in draw(st.lists(step, min_size=1, max_size=10))],
            "text": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    if not even(rows):
        return
    nf = ref.ints(code.normal_form)
    own = case["own"]
    ctx.label("ancilla in register" if own else "ancilla allocated", case["start"],
              "default engine" if case["default"] else "plain engine")
    with pq.Reg(n, case["seed"], case["default"]) as r:
        if case["start"] == "word":
            code.encoding_circuit(r.eng, r.q, case["bits"])
            psi = r.state()
        else:
            psi = pq.state_from_hex(case["amps"], n)
            r.set(psi)
        reg = list(r.q)
        if own:
            reg += list(r.eng.allocate_qureg(1))
            r.eng.flush()
        total_error = np.zeros(2 * n, dtype=int)
        random_result = False
        for what, arg in case["steps"]:
            if what == "error":
                row = np.array(arg)
                code.apply_stabilizer_circuit(r.eng, reg, row)
                psi = ref.pauli_mat(row) @ psi
                total_error = (total_error + row) % 2
                continue
            row = {"measure": nf, "given": rows}[what][arg] if what != "other" else np.array(arg)
            if ref.numb_y(row) % 2:
                continue
            arg = ref.pauli_str(row) if case["text"] else np.array(row)
            got = code.single_syndrome_measurement(r.eng, reg, arg)
            ctx.require(got in (0, 1), "result %s", got)
            m = ref.pauli_mat(row)
            post = (psi + (-1) ** got * (m @ psi)) / 2
            p = np.linalg.norm(post) ** 2
            ctx.require(p > 1e-6, "measuring %s gives %d, which has probability zero",
                        ref.pauli_str(row), got)
            if p < 1 - 1e-6:
                random_result = True
                ctx.label("random result")
            elif case["start"] == "word" and what == "measure" and not random_result:
                ctx.require(got == ref.symp(row, total_error), "syndrome of the error %s",
                            ref.pauli_str(total_error))
                if got:
                    ctx.label("error detected")
                    ctx.nt()
            psi = post / np.sqrt(p)
            ctx.require(r.active() == n + own, "%d active qubits after the measurement",
                        r.active())
        ctx.nt(random_result)
        want = np.kron(psi, [1, 0]) if own else psi
        got = r.state(reg)
        ctx.require(pq.fidelity(got, want) > 1 - 1e-5, "state after the history is wrong "
                    "(fidelity %.6f)", pq.fidelity(got, want))


@st.composite
def size_cases(draw):
    return {"code": draw(gen.code_spec(2, 4)), "extra": draw(st.sampled_from([-1, 2, 3])),
            "letter": draw(st.booleans())}


def sizes(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    ctx.nt()
    if case["letter"]:
        with pq.Reg(n + 1) as r:
            try:
                code.single_syndrome_measurement(r.eng, r.q, "Z" * (n - 1) + "Q")
            except RuntimeError:
                return
        raise Violation("unknown Pauli letter is accepted")
    with pq.Reg(n + case["extra"]) as r:
        try:
            code.single_syndrome_measurement(r.eng, r.q, ref.pauli_str(rows[0]))
        except TypeError:
            return
    raise Violation("a register of %d qubits is accepted for n = %d" % (n + case["extra"], n))


SUBS = [Sub("history", cases, run, 7000), Sub("size", size_cases, sizes, 300)]
