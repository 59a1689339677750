"""C19  The encoding operator is an isometry onto the code space."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes of 2..7 qubits whose generators have an even number of Y: E has shape "
        "2^n x 2^k, E^dagger E = 1, E E^dagger is the projector on the joint +1 eigenspace of "
        "the generators given (Y taken as X.Z, the convention of the library), dense and sparse.  "
        "Non-trivial: at least two generators that are not all of the same kind.")
ASSUMPTIONS = ["Generators with an odd number of Y are excluded: X.Z on an odd number of qubits "
               "is not hermitian (known finding)."]


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 6, named=["bitflip3", "phaseflip3", "five", "four22", "steane",
                                           "yy", "six4", "four1", "three2"], max_gates=20))
    return {"code": spec, "how": draw(st.sampled_from(gen.CODE_INPUTS)),
            "sparse": draw(st.booleans())}


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"], case["how"])
    if any(ref.numb_y(r) % 2 for r in rows):
        return
    e = code.encode_krauss_operators(sparse=case["sparse"])
    if case["sparse"]:
        from scipy.sparse import issparse
        ctx.require(issparse(e), "sparse encoder is not sparse")
    e = arr(e)
    ctx.require(e.shape == (2 ** n, 2 ** k), "encoder of shape %s", e.shape)
    near(ctx, ref.dag(e) @ e, np.eye(2 ** k), "E^dagger E", 1e-8)
    near(ctx, e @ ref.dag(e), ref.projector(rows), "E E^dagger", 1e-8)
    for r in rows:
        near(ctx, ref.pauli_mat(r) @ e, e, "stabilizer %s on encoded states" % ref.pauli_str(r),
             1e-8)
    ctx.label("n=%d" % n, "k=%d" % k, "sparse" if case["sparse"] else "dense",
              "Y" if any(ref.numb_y(r) for r in rows) else "no Y")
    ctx.nt(len(rows) > 1 and rows[:, :n].any() and rows[:, n:].any())


def known_odd(inp):
    """X.Z is not hermitian: the encoder of a generator with an odd number of Y is wrong."""
    from PyQCodes.codes import StabilizerCode
    code = StabilizerCode(inp["stab"], inp["n"], inp["k"])
    e = np.asarray(code.encode_krauss_operators())
    y = np.array([[0, -1j], [1j, 0]])
    m = {"I": np.eye(2), "X": ref.PX, "Y": y, "Z": ref.PZ}
    p = np.eye(2 ** inp["n"], dtype=complex)
    for s in inp["stab"]:
        f = np.eye(1)
        for c in s:
            f = np.kron(f, m[c])
        p = p @ (np.eye(len(p)) + f) / 2
    return e.shape != (2 ** inp["n"], 2 ** inp["k"]) or np.abs(e @ ref.dag(e) - p).max() > 1e-6


KNOWN = {"odd-y-encoder": known_odd}
SUBS = [Sub("encoder", cases, run, 6000)]
