"""C23  Circuits of Pauli and logical operators."""
from pbt.checks import pq
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Any state of 2..6 qubits: apply_stabilizer_circuit with strings, arrays and lists acts as "
        "the tensor product of Paulis, logical_circuit as the Pauli of logical_x / logical_z / "
        "their product, for codes with their own or user-given logical operators; a wrong name or "
        "index is rejected.  Sequences of both, compared up to a global phase after each step.  "
        "Non-trivial: the state changes.")


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 6, gates=("H", "S", "CX", "CZ"), max_gates=18))
    n, k = spec["n"], spec["k"]
    step = st.one_of(st.tuples(st.just("pauli"), gen.pauli_row(n)),
                     st.tuples(st.sampled_from(["X", "Y", "Z"]), st.integers(0, k - 1)))
    return {"code": spec, "amps": draw(gen.cmat_hex(2 ** n, 1)), "default": draw(st.booleans()),
            "steps": [list(s) for s in draw(st.lists(step, min_size=1, max_size=8))],
            "how": draw(st.sampled_from(["text", "array", "list"])),
            "user": draw(st.booleans()), "shuffle": draw(st.permutations(list(range(n)))),
            "mix": draw(st.lists(st.tuples(st.integers(0, 15), st.integers(0, 15)), max_size=3))}


def run(case, ctx):
    from PyQCodes.codes import StabilizerCode
    code, rows, n, k = gen.make_code(case["code"])
    x, z = ref.ints(code.logical_x), ref.ints(code.logical_z)
    if case["user"]:
        # Logical operators multiplied by stabilizers are just as good.
        x, z = x.copy(), z.copy()
        nf = ref.ints(code.normal_form)
        for a, b in case["mix"]:
            x[a % k] = (x[a % k] + nf[b % (n - k)]) % 2
            z[b % k] = (z[b % k] + nf[a % (n - k)]) % 2
        code = StabilizerCode(rows, n, k, [x.copy(), z.copy()])
        ctx.label("user's logical operators")
    psi = pq.state_from_hex(case["amps"], n)
    with pq.Reg(n, default=case["default"]) as r:
        reg = [r.q[i] for i in case["shuffle"]]
        r.set(psi, reg)
        for what, arg in case["steps"]:
            if what == "pauli":
                row = np.array(arg)
                given = {"text": ref.pauli_str(row), "array": row,
                         "list": [int(b) for b in row]}[case["how"]]
                code.apply_stabilizer_circuit(r.eng, reg, given)
            else:
                row = {"X": x, "Z": z, "Y": (x + z) % 2}[what][arg]
                code.logical_circuit(r.eng, reg, what + str(arg))
            new = ref.pauli_mat(row) @ psi
            ctx.nt(pq.fidelity(new, psi) < 1 - 1e-6)
            psi = new
            got = r.state(reg)
            ctx.require(pq.fidelity(got, psi) > 1 - 1e-6, "%s %s acts wrongly: fidelity %.6f",
                        what, ref.pauli_str(row) if what == "pauli" else arg,
                        pq.fidelity(got, psi))
            ctx.label("apply" if what == "pauli" else "logical " + what,
                      "Y" if ref.numb_y(row) else "no Y")


@st.composite
def name_cases(draw):
    return {"code": draw(gen.code_spec(2, 4)), "op": draw(st.sampled_from(
        ["A0", "I0", "X", "", "X-1", "Y9", "Z7", "00", "Xx", "XX", "Z00", "x0"]))}


def names(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    ctx.nt()
    psi = np.ones(2 ** n) / 2 ** (n / 2) + 0j
    with pq.Reg(n) as r:
        r.set(psi)
        try:
            code.logical_circuit(r.eng, r.q, case["op"])
        except (AssertionError, ValueError):
            ctx.require(pq.fidelity(r.state(), psi) > 1 - 1e-9, "rejected, but applied")
            return
    raise Violation("logical operator %r is accepted with k = %d" % (case["op"], k))


SUBS = [Sub("sequence", cases, run, 8000), Sub("names", name_cases, names, 400)]
