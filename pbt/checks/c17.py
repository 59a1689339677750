"""C17  Standard form of the generators."""
import itertools

from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random stabilizer codes (2..9 qubits, 1..8 generators, any Clifford circuit, redundant "
        "products of generators, named codes): the standard form is binary, has the blocks "
        "[I A1 A2 | B C1 C2; 0 0 0 | D I E] with rank the GF(2) rank of the X block, its rows "
        "commute, are independent, and generate the same group as the input up to one "
        "permutation of the qubits (searched exhaustively for n <= 5, by weight enumerator "
        "above); the input is left alone.  Non-trivial: both kinds of rows occur or the "
        "elimination has to exchange qubits.")


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 8, gates=("H", "S", "CX", "CZ"), named=list(gen.NAMED),
                              max_gates=24))
    return {"code": spec, "how": draw(st.sampled_from(gen.CODE_INPUTS))}


def counts(rows, n):
    """How often each combination of numbers of X, Y and Z occurs in the group."""
    out = {}
    for v in ref.span(rows):
        x, z = v[:n], v[n:]
        key = (int(np.sum(x * (1 - z))), int(np.sum(x * z)), int(np.sum((1 - x) * z)))
        out[key] = out.get(key, 0) + 1
    return out


def run(case, ctx):
    rows, n, k = gen.code_rows(case["code"])
    given = gen.code_input(rows, case["how"])
    from PyQCodes.codes import StabilizerCode
    code = StabilizerCode(given, n, k)
    nf = np.array(code.normal_form)
    r = code.rank
    want_r = ref.gf2_rank(rows[:, :n])
    ctx.require(r == want_r, "rank %s, the X block has rank %d", r, want_r)
    ctx.require(nf.shape == (n - k, 2 * n), "standard form has shape %s", nf.shape)
    ctx.require(np.all((nf == 0) | (nf == 1)), "standard form is not binary")
    nf = ref.ints(nf)
    ctx.require(np.array_equal(nf[:r, :r], np.eye(r)), "no identity in the X block")
    ctx.require(not nf[r:, :n].any(), "X block of the lower rows is not zero")
    ctx.require(np.array_equal(nf[r:, n + r:2 * n - k], np.eye(n - k - r)),
                "no identity in the Z block")
    ctx.require(ref.gf2_rank(nf) == n - k, "rows are dependent")
    ctx.require(all(ref.symp(a, b) == 0 for a in nf for b in nf), "rows do not commute")
    same = ref.same_span(nf, rows)
    if n <= 5:
        ctx.require(same or any(ref.same_span(ref.permute_rows(rows, p), nf)
                                for p in itertools.permutations(range(n))),
                    "standard form generates another group: %s from %s",
                    [ref.pauli_str(x) for x in nf], [ref.pauli_str(x) for x in rows])
        ctx.label("all permutations tried")
    else:
        ctx.require(same or counts(nf, n) == counts(rows, n), "standard form generates a group "
                    "with other weights: %s from %s", [ref.pauli_str(x) for x in nf],
                    [ref.pauli_str(x) for x in rows])
    ctx.require(np.array_equal(ref.ints(code.stab_bin_rep), rows), "generators were changed")
    if not isinstance(given, list):
        ctx.require(np.array_equal(np.asarray(given), rows), "the input was changed")
    near(ctx, np.array(list(code)), nf, "iteration over the code")
    again = StabilizerCode(nf.copy(), n, k)
    ctx.require(np.array_equal(ref.ints(again.normal_form), nf), "standard form of the standard "
                "form differs")
    ctx.label("same qubit order" if same else "qubits exchanged", "n=%d" % n, "k=%d" % k,
              "X rows and Z rows" if 0 < r < n - k else "one kind")
    ctx.nt(0 < r < n - k or not same)


SUBS = [Sub("form", cases, run, 12000)]
