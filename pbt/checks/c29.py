"""C29  Optimal recovery of a stabilizer code (semi-definite program)."""
import contextlib
import io

from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes (2 or 3 qubits) and random channels on k qubits, dense and sparse, strings "
        "and arrays: the recovery found is positive, trace preserving, maps n to k qubits, and "
        "has the entanglement fidelity reported when its Kraus operators are applied after "
        "encoder and channel; the value lies between the best fidelity found by an independent "
        "fixed-point iteration over recoveries and a bound certified by weak duality; unitary and "
        "completely correctable noise gives 1, and the value does not depend on the form of the "
        "input.  Non-trivial: the value is below 0.999 and above the fidelity without recovery.")
ASSUMPTIONS = ["Accuracy of the solver: 1e-3 relative and absolute, as set in the code; the checks "
               "allow 4e-3."]
TOL = 4e-3


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def bounds_on_optimum(kraus, n, k, rounds=4000):
    return bounds(kraus, 2 ** n, 2 ** k, 2 ** k, rounds)


def bounds(kraus, N, d, dim_state, rounds=4000):
    """Lower bound (a channel from N to d dimensions) and upper bound (dual point) on the
    entanglement fidelity of the channel and the Kraus operators, in either order."""
    v = np.array([np.ravel(x.conj().T, order="F") for x in kraus]).T    # index: in, out
    C = v @ v.conj().T / dim_state ** 2
    # Fixed point X -> (Y^-1/2 x 1) C X C (Y^-1/2 x 1), Y^2 = Tr_out C X C: increases Tr(CX).
    X = np.eye(N * d) / d
    low = 0
    for i in range(rounds):
        M = C @ X @ C
        Y2 = np.trace(M.reshape(N, d, N, d), axis1=1, axis2=3)
        w, u = np.linalg.eigh((Y2 + ref.dag(Y2)) / 2)
        inv = np.where(w > 1e-15 * max(w[-1], 1e-300), 1 / np.sqrt(np.clip(w, 1e-300, None)), 0)
        P = u @ np.diag(inv) @ ref.dag(u)
        P = np.kron(P, np.eye(d))
        X = P @ M @ P
        hole = np.eye(N) - np.trace(X.reshape(N, d, N, d), axis1=1, axis2=3)
        X = X + np.kron(hole, np.eye(d)) / d
        X = (X + ref.dag(X)) / 2
        if i % 20 == 19:
            new = np.real(np.trace(C @ X))
            if new - low < 1e-7:
                break
            low = new
    low = np.real(np.trace(C @ X))
    Y = C @ X
    Y = np.trace(Y.reshape(N, d, N, d), axis1=1, axis2=3)
    Y = (Y + ref.dag(Y)) / 2
    up = 10.0
    for eps in (0, 1e-5, 1e-4, 1e-3):
        Z = Y + eps * np.eye(N)
        gap = max(0.0, -np.linalg.eigvalsh(np.kron(Z, np.eye(d)) - C)[0])
        up = min(up, np.real(np.trace(Z)) + gap * N)
        # Scaling instead of shifting.
        w = np.linalg.eigvalsh(Z)
        if w[0] > 1e-12:
            s = np.kron(ref.psd_sqrt(np.linalg.inv(Z)), np.eye(d))
            up = min(up, np.linalg.eigvalsh(s @ C @ s)[-1] * np.real(np.trace(Z)))
    return low, min(up, 1.0), X


def recovery_kraus(X, n, k):
    """Kraus operators of a Choi matrix (input first)."""
    w, v = np.linalg.eigh((X + ref.dag(X)) / 2)
    return [np.sqrt(max(x, 0)) * v[:, i].reshape(2 ** k, 2 ** n, order="F")
            for i, x in enumerate(w)]


@st.composite
def cases(draw, size=2):
    spec = draw(gen.code_spec(size, size, gates=("H", "CX", "CZ"),
                              max_k=None if size == 2 else 1))
    rows, n, k = gen.code_rows(spec)
    d = 2 ** k
    fams = ["rand", "rand", "ad", "gad", "pauli", "weyl", "unitary", "bitflip", "dephase", "mixed",
            "real"]
    return {"code": spec, "chan": draw(gen.chan_spec(dims=(d, d), max_kraus=3, fams=fams)),
            "how": draw(st.sampled_from(gen.CODE_INPUTS)), "sparse": draw(st.booleans()),
            "both": size == 2 and draw(st.booleans()), "opts": draw(st.booleans())}


def solve(case, rows, n, k, ops, sparse):
    from PyQCodes.avgfid.avg_fidelity import optimize_decoder_stabilizers
    opts = {"maxit": 60, "feastol": 1e-4, "abstol": 1e-4, "reltol": 1e-4} if case["opts"] else None
    with quiet():
        return optimize_decoder_stabilizers(gen.code_input(rows, case["how"]), (n, k),
                                            [o.copy() for o in ops], **gen.brief(
                                                case, {"sparse": sparse, "options": opts},
                                                {"sparse": False, "options": None}))


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"])
    c = gen.build_chan(case["chan"])
    enc = arr(code.encode_krauss_operators())
    total = [x @ enc for x in ref.tensor_power(c.kraus, n // k)]
    res = solve(case, rows, n, k, c.kraus, case["sparse"])
    val = complex(res["optimal_val"])
    ctx.require(abs(val.imag) < 1e-6, "value %s is not real", val)
    val = val.real
    ctx.require(str(res["status"]) == "optimal", "solver ends with status %s", res["status"])
    ctx.require(0 <= float(res["time"]), "time is %s", res["time"])
    X = np.array(res["optimal_recov"].value)
    N, d = 2 ** n, 2 ** k
    ctx.require(X.shape == (N * d, N * d), "recovery has shape %s", X.shape)
    ctx.require(np.max(np.abs(X - ref.dag(X))) < 1e-6 and ref.eigs(X)[0] > -TOL,
                "recovery is not positive (%g)", ref.eigs(X)[0])
    tr = np.trace(X.reshape(N, d, N, d), axis1=1, axis2=3)
    near(ctx, tr, np.eye(N), "trace of the recovery over its output", TOL)
    rec = recovery_kraus(X, n, k)
    fid = sum(abs(np.trace(r @ x)) ** 2 for r in rec for x in total) / d ** 2
    ctx.require(abs(fid - val) < TOL, "value %.5f, the recovery has entanglement fidelity %.5f", val,
                fid)
    low, up, _ = bounds_on_optimum(total, n, k)
    ctx.require(val > low - TOL, "value %.5f, a recovery with %.5f exists", val, low)
    ctx.require(val < up + TOL, "value %.5f above the bound %.5f", val, up)
    ctx.label("bracket %s" % ("tight" if up - low < 5e-3 else "loose"),
              "sparse" if case["sparse"] else "dense", "n=%d k=%d" % (n, k), case["chan"]["fam"])
    if len(total) == 1:
        ctx.require(val > 1 - TOL, "unitary noise: value %.5f", val)
    ctx.nt(val < 0.999 and len(total) > 1)
    if case["both"]:
        other = solve(case, rows, n, k, c.kraus, not case["sparse"])
        value(ctx, other["optimal_val"], val, "value for the other form of input", TOL)


@st.composite
def correctable_cases(draw):
    """Noise the code corrects: products of two Kraus operators are in the group or detected."""
    kind = draw(st.sampled_from(["bitflip3", "phaseflip3", "none"]))
    return {"kind": kind, "p": draw(st.integers(1, 4)), "sparse": draw(st.booleans())}


def correctable(case, ctx):
    """First-order check: value >= the probability of at most one error."""
    paulis, n, k = gen.NAMED[case["kind"] if case["kind"] != "none" else "bitflip3"]
    p = case["p"] / 16.0 if case["kind"] != "none" else 0.0
    op = ref.PZ if case["kind"] == "phaseflip3" else ref.PX
    ops = [np.sqrt(1 - p) * ref.PI, np.sqrt(p) * op]
    rows = np.array([ref.str_row(s) for s in paulis])
    res = solve({"how": "strings", "opts": True}, rows, n, k, ops, case["sparse"])
    want = (1 - p) ** 3 + 3 * p * (1 - p) ** 2
    value(ctx, res["optimal_val"], want, "entanglement fidelity of majority vote", TOL)
    ctx.nt(p > 0)
    ctx.label(case["kind"])


@st.composite
def general_cases(draw):
    """Any channel before a recovery, or after an encoder, of small dimension."""
    encoder = draw(st.booleans())
    big = draw(st.sampled_from([(2, 2), (1, 3), (1, 4), (1, 2), (3, 2)]))
    small = draw(st.sampled_from([(1, 2), (1, 2), (1, 3)]))
    if big == (3, 2):
        small = (1, 2)
    a, b = small[1] ** small[0], big[1] ** big[0]
    spec = draw(gen.chan_spec(dims=(b, a) if encoder else (a, b), max_kraus=3,
                              fams=["rand", "real", "iso", "mixed", "dup"]))
    return {"encoder": encoder, "big": big, "small": small, "chan": spec,
            "sparse": draw(st.booleans()), "verbose": draw(st.booleans()),
            "container": draw(st.sampled_from(["list", "array"]))}


def general(case, ctx):
    from scipy.sparse import csr_matrix
    from PyQCodes.avgfid import avg_fidelity
    if not hasattr(avg_fidelity, "_optimize_average_entang_fid"):
        return
    c = gen.build_chan(case["chan"])
    (nb, db), (ns, ds) = case["big"], case["small"]
    b, a = db ** nb, ds ** ns
    # The map that is looked for goes from N to d dimensions.
    (nn, dn), (nd, dd) = ((ns, ds), (nb, db)) if case["encoder"] else ((nb, db), (ns, ds))
    N, d = dn ** nn, dd ** nd
    if case["sparse"]:
        ops = [csr_matrix(x, dtype=complex) for x in c.kraus]
    else:
        ops = [x.copy() for x in c.kraus]
        ops = np.array(ops) if case["container"] == "array" else ops
    with quiet():
        res = avg_fidelity._optimize_average_entang_fid(
            ops, (nn, nd), dn, dd, encoder=case["encoder"], verbose=case["verbose"])
    val = complex(res["optimal_val"]).real
    X = np.array(res["optimal_recov"].value)
    ctx.require(X.shape == (N * d, N * d) and ref.eigs(X)[0] > -TOL, "map is not positive")
    near(ctx, np.trace(X.reshape(N, d, N, d), axis1=1, axis2=3), np.eye(N),
         "trace of the map over its output", TOL)
    w, v = np.linalg.eigh((X + ref.dag(X)) / 2)
    maps = [np.sqrt(max(x, 0)) * v[:, i].reshape(d, N, order="F") for i, x in enumerate(w)]
    fid = sum(abs(np.trace(r @ x)) ** 2 for r in maps for x in c.kraus) / a ** 2
    ctx.require(abs(fid - val) < TOL, "value %.5f, the map found has %.5f", val, fid)
    low, up, _ = bounds(c.kraus, N, d, a)
    ctx.require(val > low - TOL, "value %.5f, a map with %.5f exists", val, low)
    ctx.require(val < up + TOL, "value %.5f above the bound %.5f", val, up)
    ctx.nt(len(c.kraus) > 1)
    ctx.label("encoder" if case["encoder"] else "recovery", "%d to %d" % (N, d),
              "tight" if up - low < 5e-3 else "loose")


SUBS = [Sub("general", general_cases, general, 400),
        Sub("two-qubits", cases, run, 400, 4000), Sub("three-qubits", lambda: cases(3), run, 96,
                                                      960),
        Sub("majority", correctable_cases, correctable, 24, 48)]
