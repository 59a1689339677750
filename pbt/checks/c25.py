"""C25  Errors merged with the stabilizer that detects them."""
from scipy.sparse import csr_matrix, issparse

from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes (2..5 qubits) and lists of scalar multiples of n-qubit Paulis (all sizes of "
        "coefficients, complex ones, zero), dense or sparse: for an error that commutes with all "
        "generators the operator itself is returned, for any other one the product of a generator "
        "that anti-commutes with it and the error; one operator per error, in order.  The errors "
        "of an n-fold Pauli channel keep their sum K^+K.  Non-trivial: both kinds of errors occur.")


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 5, gates=("H", "S", "CX", "CZ"), max_gates=16,
                              named=["bitflip3", "phaseflip3", "five", "four22", "yy"]))
    rows, n, k = gen.code_rows(spec)
    errs = draw(st.lists(st.tuples(gen.pauli_row(n), st.integers(0, 40), st.integers(0, 7)),
                         min_size=1, max_size=6))
    comb = draw(st.lists(st.integers(0, 1), min_size=n - k, max_size=n - k))
    return {"code": spec, "errors": [list(e) for e in errs], "comb": comb,
            "sparse": draw(st.booleans()), "how": draw(st.sampled_from(gen.CODE_INPUTS))}


def coefficient(a, b):
    """0, 1, and magnitudes down to 1e-9."""
    if a == 0:
        return 0.0
    return 10.0 ** (-(a - 1) / 4.3) * np.exp(2j * np.pi * b / 8)


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"], case["how"])
    todo = [(np.array(r), coefficient(a, b)) for r, a, b in case["errors"]]
    todo.append((np.array(case["comb"]) @ rows % 2, 0.5))     # one that is not detected
    mats = [c * ref.pauli_mat(r) for r, c in todo]
    given = [csr_matrix(m) if case["sparse"] else m.copy() for m in mats]
    got = code.kraus_operators_correcting_errors(list(given), case["sparse"])
    ctx.require(len(got) == len(mats), "%d operators for %d errors", len(got), len(mats))
    stabs = [ref.pauli_mat(r) for r in rows]
    kinds = set()
    for (row, c), m, g in zip(todo, mats, got):
        if case["sparse"]:
            ctx.require(issparse(g), "dense operator for a sparse error")
        g = arr(g)
        anti = [s for s, r in zip(stabs, rows) if ref.symp(r, row)]
        if c == 0:
            anti, want = [], [m]
        elif anti:
            want = [s @ m for s in anti]
        else:
            want = [m]
        kinds.add(bool(anti))
        scale = max(abs(c), 1e-300)
        ctx.require(g.shape == m.shape and any(np.max(np.abs(g - w)) <= 1e-9 * scale
                                               for w in want),
                    "operator for %s * %s (%s) is wrong", c, ref.pauli_str(row),
                    "detected" if anti else "not detected")
    for a, m in zip(given, mats):
        near(ctx, a, m, "the error handed over", 0)
    ctx.label("sparse" if case["sparse"] else "dense", "n=%d" % n, *["detected" if x else
                                                                     "undetected" for x in kinds])
    ctx.nt(len(kinds) == 2)


SUBS = [Sub("merge", cases, run, 6000)]
