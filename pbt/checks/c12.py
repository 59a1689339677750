"""C12  Parameterisations of density matrices."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random sizes 1..8 and ranks 1..size.  Any real vector of the announced length gives a "
        "density matrix of at most that rank which does not change when the vector is scaled and "
        "equals the documented A.A^dagger / L.L^dagger; any density matrix of that rank goes to a "
        "vector of the announced length that gives it back; bounds match the variables; random "
        "vectors have the announced length and the documented distribution, inside the bounds.  Non-trivial: size >= 2 and "
        "a state that is neither diagonal nor real.")


def classes():
    from PyQCodes.chan.param import CholeskyParam, OverParam
    return {"over": OverParam, "cholesky": CholeskyParam}


def length(name, d, r):
    return 2 * d * r if name == "over" else r + 2 * sum(min(i, r) for i in range(d))


@st.composite
def vec_cases(draw):
    d = draw(st.integers(1, 8))
    r = draw(st.integers(1, d))
    name = draw(st.sampled_from(["over", "cholesky"]))
    return {"param": name, "d": d, "r": r, "v": draw(gen.hexbytes(length(name, d, r))),
            "scale": draw(st.sampled_from([0.125, 0.5, 2.0, 3.0])),
            "none": draw(st.booleans()), "how": draw(st.sampled_from(["array", "list"]))}


def factor(name, v, d, r):
    """The matrix A (or L) that the vector stands for."""
    if name == "over":
        return (v[0::2] + 1j * v[1::2]).reshape(d, r)
    a = np.zeros((d, r), dtype=complex)
    pos = r
    for i in range(d):
        for j in range(min(i, r)):
            a[i, j] = v[pos] + 1j * v[pos + 1]
            pos += 2
    for i in range(r):
        a[i, i] = v[i]
    return a


def from_vec(case, ctx):
    name, d, r = case["param"], case["d"], case["r"]
    P = classes()[name]
    v = gen.floats_from_hex(case["v"])
    if name == "cholesky":
        v[:r] = np.abs(v[:r])
    if np.abs(v).max() == 0:
        v[0] = 1.0
    ctx.require(P.numb_variables(d, r) == len(v), "%s announces %s variables instead of %d",
                name, P.numb_variables(d, r), len(v))
    b = P.bounds(d, r)
    ctx.require(len(b) == len(v), "%s has %d bounds for %d variables", name, len(b), len(v))
    lo = [0.0 if name == "cholesky" and i < r else -1.0 for i in range(len(v))]
    ctx.require(all(tuple(x) == (m, 1.0) for x, m in zip(b, lo)), "bounds of %s", name)
    rank_none = case["none"] and (name == "over" or r == d)
    arg = list(v) if case["how"] == "list" else v.copy()
    rho = P.rho_from_vec(arg, d, None if rank_none else r)
    ctx.label(name, "rank none" if rank_none else "rank given",
              "full rank" if r == d else "rank deficient")
    ctx.require(ref.is_state(rho) and rho.shape == (d, d), "%s: not a density matrix", name)
    w = ref.eigs(rho)
    ctx.require(np.sum(w > 1e-9) <= r, "%s: rank %d above %d", name, np.sum(w > 1e-9), r)
    a = factor(name, v, d, r)
    want = a @ ref.dag(a)
    near(ctx, rho, want / np.trace(want), "%s: density matrix of a vector" % name, 1e-9)
    near(ctx, P.rho_from_vec(v * case["scale"], d, r), rho, "%s after scaling" % name, 1e-8)
    ctx.require(np.array_equal(np.asarray(arg), v), "%s: the vector was changed", name)
    ctx.nt(d > 1 and np.abs(np.imag(want)).max() > 1e-9)


@st.composite
def rho_cases(draw):
    d = draw(st.integers(1, 8))
    r = draw(st.integers(1, d))
    return {"param": draw(st.sampled_from(["over", "cholesky"])), "d": d, "r": r,
            "m": draw(gen.cmat_hex(d, r)), "sub": draw(st.integers(0, 3)),
            "none": draw(st.booleans()),
            # Which entries of the factor are kept, and whether they become 0, 1, -1, i, -i.
            "keep": draw(st.one_of(
                st.none(), st.lists(st.integers(0, 2 ** r - 1), min_size=d, max_size=d),
                st.lists(st.sampled_from([0] + [2 ** j for j in range(r)]), min_size=d,
                         max_size=d))),
            "units": draw(st.sampled_from([False, False, True])),
            "bare": draw(st.sampled_from(["complex", "complex", "real"]))}


def from_rho(case, ctx):
    name, d, r = case["param"], case["d"], case["r"]
    P = classes()[name]
    a = gen.cmat(case["m"], d, r)
    if case.get("keep"):
        keep = np.array([[(row >> j) & 1 for j in range(r)] for row in case["keep"]])
        if case["units"]:
            a = 1j ** np.round(np.real(a) * 16)
        a = a * keep
        ctx.label("zeros in the factor")
    if case["sub"] == 0 and r > 1:        # a rank below the announced one
        a[:, -1] = a[:, 0]
        ctx.label("lower rank than announced")
    if np.sum(np.abs(a) ** 2) < 1e-3:
        a = a + np.eye(d, r)
    rho = a @ ref.dag(a)
    rho = rho / np.real(np.trace(rho))
    if case.get("bare") == "real" and np.abs(np.imag(rho)).max() == 0:
        rho = np.array(np.real(rho))
        ctx.label("real array")
    none = case["none"] and name == "cholesky" and r == d
    before = rho.copy()
    vec = P.vec_from_rho(rho, d, *(() if none else (r,)))
    ctx.require(np.array_equal(rho, before), "%s: the density matrix was changed", name)
    vec = np.asarray(vec)
    ctx.require(vec.shape == (length(name, d, r),) and np.isrealobj(vec)
                and np.all(np.isfinite(vec)), "%s: vector of shape %s", name, vec.shape)
    back = P.rho_from_vec(vec, d, r)
    # OverParam drops eigenvalues below 1e-5, as documented in its source.
    near(ctx, back, rho, "%s: density matrix -> vector -> density matrix" % name,
         1e-4 if name == "over" else 1e-6)
    for (lo, hi), x in zip(P.bounds(d, r), vec):
        ctx.require(lo - 1e-9 <= x <= hi + 1e-9, "%s: %g outside its bounds", name, x)
    ctx.label(name, "rank %d of %d" % (r, d))
    ctx.nt(d > 1 and np.abs(np.imag(rho)).max() > 1e-6)


@st.composite
def basis_cases(draw):
    d = draw(st.integers(1, 8))
    return {"d": d, "v": draw(gen.hexbytes(d * d)), "how": draw(st.sampled_from(["array", "list"]))}


def basis(case, ctx):
    from PyQCodes.chan.param import StandardBasis as P
    d = case["d"]
    v = gen.floats_from_hex(case["v"])
    ctx.require(P.numb_variables(d) == d * d and len(P.bounds(d)) == d * d
                and all(tuple(b) == (-1, 1) for b in P.bounds(d)), "variables of StandardBasis")
    want = np.zeros((d, d), dtype=complex)
    pos = 0
    for i in range(d):
        want[i, i] = v[pos]
        pos += 1
        for j in range(i + 1, d):
            want[i, j] = v[pos] + 1j * v[pos + 1]
            want[j, i] = v[pos] - 1j * v[pos + 1]
            pos += 2
    rho = P.rho_from_vec(list(v) if case["how"] == "list" else v, d)
    near(ctx, rho, want, "StandardBasis matrix", 1e-12)
    near(ctx, P.vec_from_rho(rho, d), v, "StandardBasis vector", 1e-12)
    ctx.nt(d > 1 and np.abs(np.imag(want)).max() > 0)


@st.composite
def random_cases(draw):
    d = draw(st.integers(1, 6))
    return {"param": draw(st.sampled_from(["over", "cholesky"])), "d": d,
            "r": draw(st.integers(1, d)), "seed": draw(st.integers(0, 2 ** 31)),
            "dist": draw(st.sampled_from([None, "normal", "uniform", "other"]))}


def random_vectors(case, ctx):
    name, d, r, dist = case["param"], case["d"], case["r"], case["dist"]
    P = classes()[name]
    np.random.seed(case["seed"])
    ctx.label(name, str(dist))
    if dist == "other":
        try:
            P.random_vectors(d, r, dist)
        except TypeError:
            ctx.nt()
            return
        raise Violation("an unknown distribution is accepted")
    kw = {} if dist is None else {"dist": dist}
    vecs = [np.asarray(P.random_vectors(d, r, **kw)) for _ in range(3)]
    for v in vecs:
        ctx.require(v.shape == (length(name, d, r),) and np.all(np.isfinite(v)),
                    "%s: random vector of shape %s", name, v.shape)
        ctx.require(ref.is_state(P.rho_from_vec(v, d, r)), "%s: random vector gives no state", name)
        if dist == "uniform" or (dist is None and name == "cholesky"):
            ctx.require(all(lo <= x <= hi for (lo, hi), x in zip(P.bounds(d, r), v)),
                        "%s: uniform vector outside the bounds", name)
        if name == "cholesky":
            ctx.require(np.all(v[:r] >= 0), "%s: negative diagonal", name)
    ctx.require(len(vecs[0]) == 1 or not np.array_equal(vecs[0], vecs[1]), "%s: vectors repeat", name)
    ctx.nt()


# ------------------------------------------------------------------ distribution

@st.composite
def distribution_cases(draw):
    name = draw(st.sampled_from(["over", "over", "cholesky"]))
    d = draw(st.integers(2, 4))
    case = {"param": name, "d": d, "r": draw(st.integers(1, d)),
            "seed": draw(st.integers(0, 2 ** 31)), "count": 1500,
            "dist": draw(st.sampled_from([None, "normal", "uniform"] if name == "over" else
                                         [None, "uniform"]))}
    if name == "cholesky" and draw(st.booleans()):
        case["bounds"] = [draw(st.sampled_from([-3.0, -1.0, -0.5, 0.0])),
                          draw(st.sampled_from([0.25, 1.0, 2.0]))]
    return case


def away(x, cdf):
    """Kolmogorov-Smirnov distance times the root of the number of values."""
    x = np.sort(np.ravel(x))
    f = cdf(x)
    i = np.arange(len(x))
    return max(np.max(f - i / len(x)), np.max((i + 1) / len(x) - f)) * np.sqrt(len(x))


def distribution(case, ctx):
    """Every variable has the documented distribution and they are independent."""
    from scipy.stats import norm
    name, d, r = case["param"], case["d"], case["r"]
    P = classes()[name]
    kw = {} if case["dist"] is None else {"dist": case["dist"]}
    if "bounds" in case:
        kw.update(l_bnd=case["bounds"][0], u_bnd=case["bounds"][1])
    np.random.seed(case["seed"])
    v = np.array([P.random_vectors(d, r, **kw) for _ in range(case["count"])])
    low, high = case.get("bounds", (-1.0, 1.0))

    def flat(a, b):
        return lambda x: np.clip((x - a) / (b - a), 0, 1)
    if name == "over":
        parts = [("entries", v, flat(-1.0, 1.0) if case["dist"] == "uniform" else norm.cdf)]
    else:
        parts = [("diagonal entries", v[:, :r], flat(0.0, high)), ("entries", v[:, r:], flat(low, high))]
    for what, x, cdf in parts:
        if x.size:
            # 2 exp(-2 c^2) is the chance of exceeding c.
            ctx.require(away(x, cdf) < 3.6, "%s: %s are not distributed as documented: %.2f",
                        name, what, away(x, cdf))
            worst = max(away(c, cdf) for c in x.T)
            ctx.require(worst < 3.8, "%s: one of the %s is not distributed as documented: %.2f",
                        name, what, worst)
    if v.shape[1] > 1:
        c = np.abs(np.corrcoef(v.T) - np.eye(v.shape[1])).max()
        ctx.require(c < 0.25, "%s: entries are correlated: %.3f", name, c)
    ctx.nt()
    ctx.label(name, str(case["dist"]))


SUBS = [Sub("distribution", distribution_cases, distribution, 64), Sub("from_vec", vec_cases, from_vec, 8000), Sub("from_rho", rho_cases, from_rho, 8000),
        Sub("basis", basis_cases, basis, 2500), Sub("random", random_cases, random_vectors, 2500)]
