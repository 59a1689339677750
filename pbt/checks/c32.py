"""C32  Real vectors and hermitian matrices (StandardBasis)."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random sizes 1..9: any real vector of length d^2 (array or list) gives the hermitian "
        "matrix read row by row (diagonal, then real and imaginary part of each later entry), any "
        "hermitian matrix gives the vector back, both maps are real-linear and inverse to each "
        "other, bounds and number of variables are d^2 times (-1, 1), arguments stay as they were.  "
        "Non-trivial: size >= 3 and an entry with an imaginary part.")


def layout(v, d):
    out = np.zeros((d, d), dtype=complex)
    pos = 0
    for i in range(d):
        out[i, i] = v[pos]
        pos += 1
        for j in range(i + 1, d):
            out[i, j] = v[pos] + 1j * v[pos + 1]
            out[j, i] = v[pos] - 1j * v[pos + 1]
            pos += 2
    return out


@st.composite
def cases(draw):
    d = draw(st.integers(1, 9))
    return {"d": d, "v": draw(gen.hexbytes(d * d)), "w": draw(gen.hexbytes(d * d)),
            "a": draw(st.sampled_from([-2.0, -1.0, 0.25, 3.0])),
            "big": draw(st.sampled_from([1.0, 1.0, 1e3, 1e-6])),
            "how": draw(st.sampled_from(["array", "list", "int", "mixed"]))}


def run(case, ctx):
    from PyQCodes.chan.param import StandardBasis
    d, a = case["d"], case["a"]
    v = gen.floats_from_hex(case["v"]) * case["big"]
    w = gen.floats_from_hex(case["w"])
    if case["how"] == "int":
        v = np.round(v * 10).astype(int)
    tol = 1e-10 * max(1, case["big"])
    ctx.require(StandardBasis.numb_variables(d) == d * d, "number of variables")
    b = list(StandardBasis.bounds(d))
    ctx.require(len(b) == d * d and all(tuple(x) == (-1, 1) for x in b), "bounds")
    given = list(v) if case["how"] == "list" else v.copy()
    if case["how"] == "mixed":      # plain Python numbers, integers where they fit
        v = np.where(np.arange(d * d) % 3 == 0, np.round(v), v)
        given = [int(x) if x == round(x) else float(x) for x in v]
    m = StandardBasis.rho_from_vec(given, d)
    ctx.require(np.array_equal(np.asarray(given), v), "the vector was changed")
    near(ctx, m, layout(v, d), "matrix of the vector", tol)
    near(ctx, StandardBasis.rho_from_vec(v + a * w, d), layout(v, d) + a * layout(w, d),
         "matrix of a sum", tol)
    keep = arr(m).copy()
    near(ctx, StandardBasis.vec_from_rho(m, d), v, "vector of the matrix", tol)
    ctx.require(np.array_equal(arr(m), keep), "the matrix was changed")
    h = layout(w, d) @ layout(w, d)
    h = (h + h.conj().T) / 2
    back = StandardBasis.vec_from_rho(h, d)
    near(ctx, layout(np.asarray(back), d), h, "vector of a hermitian matrix", 1e-10 * d)
    near(ctx, StandardBasis.rho_from_vec(back, d), h, "matrix -> vector -> matrix", 1e-10 * d)
    for bad in (np.zeros(d * d + 1), np.zeros(d * d - 1)):
        try:
            StandardBasis.rho_from_vec(bad, d)
        except Exception:      # noqa: BLE001
            continue
        raise Violation("vector of length %d is accepted for size %d" % (len(bad), d))
    ctx.nt(d >= 3 and np.abs(np.imag(keep)).max() > 1e-9)
    ctx.label("d=%d" % d, case["how"])


SUBS = [Sub("vectors", cases, run, 10000)]
