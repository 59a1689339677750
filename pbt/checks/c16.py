"""C16  Pauli strings, binary vectors and matrices say the same."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random Pauli strings on 1..7 qubits: string -> binary -> string and binary -> string -> "
        "binary are the identity; the matrix is the tensor product of X^x Z^z, first qubit "
        "slowest, dense and sparse alike; matrix products agree with sums of vectors up to sign "
        "and matrices commute iff the symplectic product is zero (bilinear, symmetric, "
        "alternating); unknown symbols are rejected.  Non-trivial: weight at least two.")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 7))
    m = draw(st.integers(1, 4))
    return {"n": n, "rows": [draw(gen.pauli_row(n)) for _ in range(max(m, 2))],
            "as_float": draw(st.booleans())}


def run(case, ctx):
    from PyQCodes.codes import StabilizerCode as S
    n = case["n"]
    rows = np.array(case["rows"], dtype=float if case["as_float"] else int)
    ints = rows.astype(int)
    strings = [ref.pauli_str(r) for r in ints]
    ctx.nt(max(sum(c != "I" for c in s) for s in strings) >= 2)
    ctx.label("n=%d" % n, "Y" if "Y" in "".join(strings) else "no Y")
    for r, s in zip(rows, strings):
        ctx.require(S.binary_rep_to_pauli_str(r) == s, "%s becomes %s", r,
                    S.binary_rep_to_pauli_str(r))
        ctx.require(S.binary_rep_to_pauli_str([int(x) for x in r]) == s, "list %s", r)
    back = np.asarray(S.pauli_str_to_binary_representation(strings))
    near(ctx, back, ints, "binary representation of strings")
    ctx.require([S.binary_rep_to_pauli_str(r) for r in back] == strings, "string round trip")
    dense = [arr(x) for x in S.binary_rep_to_pauli_mat(rows)]
    sparse = [arr(x) for x in S.binary_rep_to_pauli_mat(rows, sparse=True)]
    ctx.require(len(dense) == len(rows) == len(sparse), "number of matrices")
    x, z = (int(t) for t in (ints[0][0], ints[0][n]))
    for m, sp in ((S.binary_rep_to_pauli_mat(rows)[0], False),
                  (S.binary_rep_to_pauli_mat(rows, sparse=True)[0], True),
                  (S.index_to_qubit_pauli(x, z), False),
                  (S.index_to_qubit_pauli(x, z, sparse=True), True)):
        ctx.require(hasattr(m, "todense") == sp, "%s where a %s matrix is documented", type(m),
                    "sparse" if sp else "dense")
    for r, a, b in zip(ints, dense, sparse):
        near(ctx, a, ref.pauli_mat(r), "Pauli matrix of %s" % ref.pauli_str(r))
        near(ctx, b, ref.pauli_mat(r), "sparse Pauli matrix of %s" % ref.pauli_str(r))
    for i in range(len(rows)):
        ctx.require(int(S.inner_prod(rows[i], rows[i])) == 0, "symplectic product with itself")
        for j in range(i):
            ip = int(S.inner_prod(rows[i], rows[j]))
            ctx.require(ip == ref.symp(ints[i], ints[j]), "symplectic product of %s and %s is %d",
                        strings[i], strings[j], ip)
            ctx.require(ip == int(S.inner_prod(rows[j], rows[i])), "symmetry")
            ab, ba = dense[i] @ dense[j], dense[j] @ dense[i]
            near(ctx, ab, (-1) ** ip * ba, "commutation of %s and %s" % (strings[i], strings[j]))
            both = arr(S.binary_rep_to_pauli_mat(np.array([(ints[i] + ints[j]) % 2]))[0])
            ctx.require(ref.close(ab, both) or ref.close(ab, -both), "product of %s and %s",
                        strings[i], strings[j])
            for t in range(len(rows)):
                s3 = (int(S.inner_prod(rows[i], rows[t])) + int(S.inner_prod(rows[j], rows[t]))) % 2
                ctx.require(int(S.inner_prod((rows[i] + rows[j]) % 2, rows[t])) == s3,
                            "bilinearity")


@st.composite
def bad_cases(draw):
    return {"s": draw(st.text("IXYZixyz0 Q", min_size=1, max_size=5)),
            "v": draw(st.lists(st.integers(-1, 3), min_size=2, max_size=6))}


def bad(case, ctx):
    from PyQCodes.codes import StabilizerCode as S
    ok = all(c in "IXYZ" for c in case["s"])
    try:
        got = S.pauli_str_to_binary_representation([case["s"]])
        ctx.require(ok, "string %r is accepted", case["s"])
        near(ctx, got, ref.str_row(case["s"])[None], "binary representation")
    except ValueError:
        ctx.require(not ok, "string %r is rejected", case["s"])
    ctx.nt(not ok)
    v = np.array(case["v"][:2 * (len(case["v"]) // 2)])
    n = len(v) // 2
    ok = all(x in (0, 1) for x in v)
    try:
        S.binary_rep_to_pauli_mat(v[None])
        ctx.require(ok, "matrix of the non-binary vector %s", v)
    except ValueError:
        ctx.require(not ok, "vector %s rejected", v)
    for given in (v, v.tolist()):
        try:
            got = S.binary_rep_to_pauli_str(given)
            ctx.require(ok and got == ref.pauli_str(v), "vector %s is read as %r", v, got)
        except RuntimeError:
            ctx.require(not ok, "vector %s has no string", v)
    try:
        S.binary_rep_to_pauli_mat(v)
        ctx.require(False, "one-dimensional array accepted as a set of Paulis")
    except TypeError:
        pass
    for a in range(n):
        for sp in (False, True):
            try:
                m = arr(S.index_to_qubit_pauli(v[a], v[n + a], sp))
                near(ctx, m, ref.pauli_mat([v[a], v[n + a]]), "single-qubit Pauli")
            except ValueError:
                ctx.require(v[a] not in (0, 1) or v[n + a] not in (0, 1), "index rejected")


SUBS = [Sub("convert", cases, run, 5000), Sub("reject", bad_cases, bad, 3000)]
