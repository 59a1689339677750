"""C18  Logical operators."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random stabilizer codes of 2..9 qubits: there are k logical X and k logical Z operators "
        "of length 2n, binary; every one commutes with every row of the standard form, X_i and "
        "Z_j anticommute iff i = j, X's commute with each other, Z's too; none is a product of "
        "generators; the Z's contain no X.  Non-trivial: k >= 2 or an X operator of weight >= 2.")


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 9, gates=("H", "S", "CX", "CZ"), named=list(gen.NAMED),
                              max_gates=30))
    return {"code": spec, "how": draw(st.sampled_from(gen.CODE_INPUTS))}


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"], case["how"])
    nf = ref.ints(code.normal_form)
    x, z = np.array(code.logical_x), np.array(code.logical_z)
    ctx.require(x.shape == (k, 2 * n) and z.shape == (k, 2 * n), "shapes %s and %s", x.shape,
                z.shape)
    ctx.require(np.all((x == 0) | (x == 1)) and np.all((z == 0) | (z == 1)), "not binary")
    x, z = ref.ints(x), ref.ints(z)
    for name, ops in (("X", x), ("Z", z)):
        for i, v in enumerate(ops):
            ctx.require(all(ref.symp(v, s) == 0 for s in nf), "logical %s%d %s does not commute "
                        "with the stabilizers", name, i, ref.pauli_str(v))
            ctx.require(all(ref.symp(v, w) == 0 for w in ops), "logical %s operators do not "
                        "commute", name)
    for i in range(k):
        for j in range(k):
            ctx.require(ref.symp(x[i], z[j]) == (i == j), "commutation of X%d and Z%d", i, j)
    ctx.require(ref.gf2_rank(np.vstack((nf, x, z))) == n + k, "logical operators and generators "
                "are dependent")
    ctx.require(not z[:, :n].any(), "logical Z with an X part")
    again = code.logical_operators()
    ctx.require(np.array_equal(again[0], x) and np.array_equal(again[1], z),
                "logical_operators() differs from the attributes")
    if ref.same_span(nf, rows):
        ctx.label("same qubit order")
        ctx.require(all(ref.symp(v, s) == 0 for v in np.vstack((x, z)) for s in rows),
                    "logical operators do not commute with the generators given")
    ctx.label("n=%d" % n, "k=%d" % k)
    ctx.nt(k >= 2 or np.sum((x[:, :n] + x[:, n:]) > 0) >= 2)


SUBS = [Sub("algebra", cases, run, 12000)]
