"""C26  Effective channel of a stabilizer code under Pauli noise."""
from pbt.checks import c13
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes (n <= 4, k | n) under random Pauli channels on k qubits (1..4 errors, dense "
        "and sparse, strings and arrays, all options): the reported state is a density matrix on "
        "the k logical qubits, the reported value is the coherent information of encoder followed "
        "by n/k uses of the channel at that state (independent calculation), it is not worse than "
        "at any start handed over, options reach the optimiser, noiseless channels give k.  "
        "Invalid arguments are rejected.  Non-trivial: at least two errors that occur.")
ASSUMPTIONS = ["Logical basis: the library's own encoding isometry.",
               "optimize='fidelity' is a known finding (see known_findings.txt)."]
warm_up = warm_sparse


@st.composite
def cases(draw, pool=False):
    css = draw(st.booleans())
    spec = draw(gen.code_spec(2, 4, named=["bitflip3", "phaseflip3", "four22", "two", "twox",
                                           "four1", "yy"], max_k=2,
                              gates=("H", "CX", "CZ"), css=css))
    rows, n, k = gen.code_rows(spec)
    if n % k:
        spec = {"n": 4, "k": 2, "gates": [g for g in spec.get("gates", [])], "rows": []}
        rows, n, k = gen.code_rows(spec)
    m = draw(st.integers(1, 4 if n // k <= 2 else 3 if n // k == 3 else 2))
    ops = draw(st.lists(gen.pauli_row(k), min_size=m, max_size=m, unique_by=tuple))
    how = draw(st.sampled_from(["samples", "samples", "lipschitz", "both"]))
    param = draw(st.sampled_from(["overparam", "cholesky", "own", "default"]))
    if how == "lipschitz" and draw(st.booleans()) and k == 1 and n < 4:
        param = "default"
    size = 2 ** k
    length = {"cholesky": size + 2 * sum(min(i, size) for i in range(size))}.get(param,
                                                                               2 * size * size)
    return {"code": spec, "errors": ops, "p": draw(st.lists(st.integers(1, 15), min_size=m,
                                                            max_size=m)),
            "phase": draw(st.lists(st.integers(0, 3), min_size=m, max_size=m)),
            "sparse": draw(st.booleans()), "how": draw(st.sampled_from(gen.CODE_INPUTS)),
            "param": param, "lip": 0 if how == "samples" else draw(st.integers(1, 4)),
            "samples": [draw(gen.hexbytes(length)) for _ in range(
                0 if how == "lipschitz" else draw(st.integers(1, 2)))],
            "maxiter": draw(st.integers(1, 12)), "pool": 2 if pool else 0,
            "default": how == "lipschitz" and n < 4 and k == 1 and draw(st.integers(0, 3)) == 0,
            "seed": draw(st.integers(0, 2 ** 31))}


@st.composite
def large_cases(draw):
    """Three logical qubits, two uses of noise on three qubits."""
    k = draw(st.sampled_from([3, 3, 2]))
    gates = draw(gen.code_spec(2 * k, 2 * k, max_k=k, gates=("H", "CX", "CZ"))).get("gates", [])
    m = draw(st.integers(1, 2))
    sparse = draw(st.booleans())
    return {"code": {"n": 2 * k, "k": k, "gates": gates, "rows": []}, "sparse": sparse,
            "errors": draw(st.lists(gen.pauli_row(k), min_size=m, max_size=m, unique_by=tuple)),
            "p": draw(st.lists(st.integers(1, 15), min_size=m, max_size=m)),
            "phase": draw(st.lists(st.integers(0, 3), min_size=m, max_size=m)),
            "how": draw(st.sampled_from(gen.CODE_INPUTS)), "param": "overparam", "lip": 0,
            "samples": [draw(gen.hexbytes(2 * 4 ** k))], "maxiter": 1, "pool": 0, "default": False,
            "seed": draw(st.integers(0, 2 ** 31))}


def run(case, ctx):
    from PyQCodes.find_codes import effective_channel_with_stabilizers
    code, rows, n, k = gen.make_code(case["code"])
    p = np.array(case["p"], dtype=float) / sum(case["p"])
    mats = [np.sqrt(x) * 1j ** f * ref.pauli_mat(np.array(r))
            for x, r, f in zip(p, case["errors"], case["phase"])]
    enc = arr(code.encode_krauss_operators())
    size = 2 ** k
    want = gen.Chan([e @ enc for e in ref.tensor_power(mats, n // k)],
                    {"dims": [k, 2, n, 2]})
    P, param = c13.user_param("overparam" if case["param"] == "default" else case["param"])
    opts = {"lipschitz": case["lip"], "use_pool": case["pool"], "maxiter": case["maxiter"]}
    fake = {"obj": "coherent", "opt": "slsqp", "rank": size, "n": 1}
    starts = [c13.vec_of(h, fake, P, size) for h in case["samples"]]
    if case["param"] != "default":
        opts["param"] = param
    if starts:
        opts["samples"] = [s.copy() for s in starts]
    if case["default"]:
        opts = None
    np.random.seed(case["seed"])
    stab = gen.code_input(rows, case["how"])
    with c13.quiet():
        res = effective_channel_with_stabilizers(stab, (n, k), [m.copy() for m in mats],
                                                 **gen.brief(case, {"sparse": case["sparse"],
                                                                    "options": opts},
                                                             {"sparse": False, "options": None}))
    val = c13.judge(ctx, fake, want, res, opts is None or case["lip"], size)
    for s in starts:
        at = c13.objective(want, fake, P.rho_from_vec(s, size, size))
        ctx.require(val >= at - 1e-4, "value %g, a start handed over has %g", val, at)
    ctx.require(val <= k + 1e-6, "value %g above the number of logical qubits", val)
    if len(mats) == 1 and opts is None:
        ctx.require(val > k - 1e-2, "noiseless channel has value %g", val)
    if not (opts or {}).get("samples") and opts is None:
        # Twenty-five Lipschitz starts find at least what the mixed state has.
        at = c13.objective(want, fake, np.eye(size) / size)
        ctx.require(val >= at - 0.02, "value %g, the mixed state has %g", val, at)
        ctx.label("default options")
    ctx.label("sparse" if case["sparse"] else "dense", "n=%d" % n, "k=%d" % k, case["param"])
    ctx.nt(len(mats) > 1)


@st.composite
def bad_cases(draw):
    return {"kind": draw(st.sampled_from(["name", "type", "size"])),
            "name": draw(st.sampled_from(["Coherent", "", "entropy", "fid"])),
            "code": draw(gen.code_spec(2, 4, max_k=2))}


def bad(case, ctx):
    from PyQCodes.find_codes import effective_channel_with_stabilizers
    rows, n, k = gen.code_rows(case["code"])
    ctx.nt()
    errs, what = [np.eye(2 ** k)], "coherent"
    if case["kind"] == "name":
        what = case["name"]
    elif case["kind"] == "type":
        what = 3
    else:
        errs = [np.eye(2 ** (k + 1))]
    try:
        with c13.quiet():
            effective_channel_with_stabilizers(rows, (n, k), errs, optimize=what,
                                               options={"lipschitz": 1, "maxiter": 1,
                                                        "use_pool": 0})
    except TypeError:
        return
    raise Violation("%s is accepted" % case["kind"])


def fidelity_fails(inp):
    from PyQCodes.find_codes import effective_channel_with_stabilizers
    with c13.quiet():
        try:
            effective_channel_with_stabilizers(inp["stab"], (inp["n"], inp["k"]), [np.eye(2)],
                                               optimize="fidelity", options={"use_pool": 0})
        except ValueError:
            return True
    return False


KNOWN = {"effective-fidelity": fidelity_fails}
SUBS = [Sub("effective", lambda: cases(), run, 1200),
        Sub("large", large_cases, run, 24),
        Sub("pool", lambda: cases(True), run, 32),
        Sub("arguments", bad_cases, bad, 160)]
