"""C21  Decoding undoes encoding."""
from pbt.checks import pq
from pbt.checks.c20 import even
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes of 2..5 qubits: an arbitrary superposition of k qubits is encoded, a random "
        "sequence of stabilizers and logical X / Y / Z circuits is applied and the result is "
        "decoded, with every combination of options; the ancilla qubits hold the input acted on "
        "by the same logical Paulis, the code block is left in the encoded zero state, number "
        "and order of the returned qubits are as documented.  User-supplied logical operators "
        "(times stabilizers, logical Z, changed basis) decode the state they define.  Non-trivial: "
        "the input is a superposition / the operators differ from the standard ones.")


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 5, max_k=3, named=["bitflip3", "phaseflip3", "five", "four22",
                                                    "steane", "yy", "three2", "four1"],
                              max_gates=18))
    _, n, k = gen.code_rows(spec)
    ops = draw(st.lists(st.tuples(st.sampled_from("XYZSXZ"), st.integers(0, 7)), max_size=6))
    return {"code": spec, "amps": draw(gen.cmat_hex(2 ** k, 1)), "default": draw(st.booleans()),
            "add": draw(st.booleans()), "drop": draw(st.booleans()),
            "bits": draw(gen.bits(k)), "ops": [list(o) for o in ops],
            "seed": draw(st.integers(0, 10 ** 6))}


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    if not even(rows):
        return
    amps = pq.state_from_hex(case["amps"], k)
    add, drop = case["add"], case["drop"]
    ctx.nt(np.sum(np.abs(amps) > 1e-3) > 1)
    ctx.label("add ancilla" if add else "own ancilla", "drop" if drop else "keep",
              "n=%d" % n, "k=%d" % k, "default engine" if case["default"] else "plain engine",
              "%d operations between" % len(case["ops"]))
    with pq.Reg(n if add else n + k, case["seed"], case["default"]) as r:
        block = r.q[:n]
        r.set(np.kron(np.kron(pq.basis_state([0] * (n - k)), amps),
                      pq.basis_state([] if add else [0] * k)))
        code.encoding_circuit(r.eng, block, case["bits"])
        want = amps
        for i, b in enumerate(case["bits"]):
            if b:
                want = pauli_on(i, k, "X") @ want
        for name, i in case["ops"]:
            if name == "S":
                # A stabilizer with an even number of Y acts up to sign as the identity.
                code.apply_stabilizer_circuit(r.eng, block,
                                              ref.ints(code.normal_form)[i % (n - k)])
            else:
                i %= k
                code.logical_circuit(r.eng, block, name + str(i))
                want = pauli_on(i, k, name) @ want
        reg = list(r.q)
        out = code.decoding_circuit(r.eng, reg, **gen.brief(
            case, {"add_ancilla_bits": add, "deallocate_nqubits": drop},
            {"add_ancilla_bits": False, "deallocate_nqubits": False}))
        if drop:
            ctx.require(len(out) == k, "%d qubits returned instead of %d", len(out), k)
            anc = list(out)
            # The block was measured; only the ancilla qubits are looked at.
            got = marginal(r, block, anc)
        else:
            ctx.require(len(out) == n + k, "%d qubits returned instead of %d", len(out), n + k)
            ctx.require([x.id for x in list(out)[:n]] == [x.id for x in block],
                        "order of the returned qubits")
            anc = list(out)[n:]
            v = r.state(list(block) + anc).reshape(2 ** n, 2 ** k)
            u, s, w = np.linalg.svd(v, full_matrices=False)
            ctx.require(s[0] > 1 - 1e-6, "ancilla is still entangled with the block")
            got = w[0]
            zero = u[:, 0]
            ctx.require(np.linalg.norm(ref.projector(ref.ints(code.normal_form)) @ zero - zero)
                        < 1e-5, "the block is not left in the code space")
            for zrow in ref.ints(code.logical_z):
                ctx.require(np.linalg.norm(ref.pauli_mat(zrow) @ zero - zero) < 1e-5,
                            "the block is not left in the encoded zero state")
        if not add:
            ctx.require([x.id for x in anc] == [x.id for x in r.q[n:]], "other ancilla qubits")
        ctx.require(pq.fidelity(got, want) > 1 - 1e-6, "decoded state differs from the input: "
                    "fidelity %.6f", pq.fidelity(got, want))


def marginal(r, block, anc):
    v = r.state(list(block) + list(anc)) if r.active() == len(block) + len(anc) else None
    if v is None:
        return r.state(anc)
    v = v.reshape(2 ** len(block), 2 ** len(anc))
    _, s, w = np.linalg.svd(v, full_matrices=False)
    return w[0]


def pauli_on(i, k, name):
    row = np.zeros(2 * k, dtype=int)
    row[i] = name in "XY"
    row[k + i] = name in "ZY"
    return ref.pauli_mat(row)


# ------------------------------------------------------------------ user-supplied operators

@st.composite
def user_cases(draw):
    spec = draw(gen.code_spec(2, 5, max_k=3, min_k=1, named=["bitflip3", "phaseflip3", "five",
                                                             "four22", "yy", "three2", "four1"],
                              max_gates=18))
    _, n, k = gen.code_rows(spec)
    return {"code": spec, "amps": draw(gen.cmat_hex(2 ** k, 1)), "default": draw(st.booleans()),
            "add": draw(st.booleans()), "mix": draw(gen.bits(k * k)), "diag": draw(gen.bits(k * k)),
            "xs": draw(gen.bits(k * (n - k))), "zs": draw(gen.bits(k * (n - k))),
            "seed": draw(st.integers(0, 10 ** 6))}


def user_logicals(code, case, n, k):
    """Other logical operators with logical Z made of Z only: a change of basis of the logical
    qubits, logical X times Z, and stabilizers."""
    g, lx, lz = (ref.ints(x) for x in (code.normal_form, code.logical_x, code.logical_z))
    low = np.tril(np.array(case["mix"]).reshape(k, k), -1) + np.eye(k, dtype=int)
    inv = np.round(np.linalg.inv(low)).astype(int) % 2
    b = np.array(case["diag"]).reshape(k, k)
    b = (np.triu(b) + np.triu(b, 1).T) % 2
    x = (low @ (lx + b @ lz) + np.array(case["xs"]).reshape(k, n - k) @ g) % 2
    pure = ~g[:, :n].any(axis=1)
    z = (inv.T @ lz + np.array(case["zs"]).reshape(k, n - k)[:, pure] @ g[pure]) % 2
    return x, z


def user(case, ctx):
    from PyQCodes.codes import StabilizerCode
    code, rows, n, k = gen.make_code(case["code"])
    if not even(rows):
        return
    x, z = user_logicals(code, case, n, k)
    # X operators with an odd number of Y are no reflections.
    x = np.array([r if ref.numb_y(r) % 2 == 0 else r0
                  for r, r0 in zip(x, (ref.ints(code.logical_x)))])
    ctx.require(not z[:, :n].any(), "logical Z of the standard form contains an X")
    if any(ref.numb_y(r) % 2 for r in x) or any(ref.symp(a, b) for a in x for b in x) \
            or any(ref.symp(a, b) != (i == j) for i, a in enumerate(x) for j, b in enumerate(z)):
        return
    other = StabilizerCode(ref.ints(code.normal_form), n, k, [x, z])
    amps = pq.state_from_hex(case["amps"], k)
    add = case["add"]
    with pq.Reg(n if add else n + k, case["seed"], case["default"]) as r:
        block = r.q[:n]
        r.set(pq.basis_state([0] * (n if add else n + k)))
        code.encoding_circuit(r.eng, block, [0] * k)
        zero = r.state()
        if not add:
            zero = zero.reshape(2 ** n, 2 ** k)[:, 0]
        vec = np.zeros(2 ** n, dtype=complex)
        for i in range(2 ** k):
            w = zero
            for j in range(k):
                if i >> (k - 1 - j) & 1:
                    w = ref.pauli_mat(x[j]) @ w
            vec = vec + amps[i] * w
        r.set(vec if add else np.kron(vec, pq.basis_state([0] * k)))
        reg = list(r.q)
        out = list(other.decoding_circuit(r.eng, reg, **gen.brief(
            case, {"add_ancilla_bits": add}, {"add_ancilla_bits": False})))
        ctx.require(len(out) == n + k, "%d qubits returned instead of %d", len(out), n + k)
        v = r.state(out)
        ctx.require(pq.fidelity(v, np.kron(zero, amps)) > 1 - 1e-6, "decoding with the user's "
                    "logical operators %s: fidelity %.6f with the input",
                    [StabilizerCode.binary_rep_to_pauli_str(q) for q in x],
                    pq.fidelity(v, np.kron(zero, amps)))
    ctx.nt(not np.array_equal(x, ref.ints(code.logical_x)))
    ys = max(ref.numb_y(q) for q in x)
    ctx.label("%d Y in a logical X" % ys, "n=%d" % n, "k=%d" % k)


SUBS = [Sub("roundtrip", cases, run, 6000), Sub("user", user_cases, user, 4000)]
