"""C09  Only valid descriptions are accepted, and every valid one is."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Valid channels perturbed in one named way: an operator scaled, dropped, shifted by a "
        "random matrix, wrong particle numbers or dimensions, Choi matrices that are not trace "
        "preserving or not completely positive (e.g. partially transposed) or of the wrong "
        "size, operators of the wrong type or rank; and the same channels unperturbed.  Cases "
        "whose perturbation leaves a channel (within 1e-7) must be accepted, those that break the "
        "condition by more than 1e-3 must be rejected.  Non-trivial: the perturbed ones.")
warm_up = warm_sparse
KINDS = ["valid", "scale", "drop", "shift", "rotate-rows", "dims-in", "dims-out", "particles",
         "noise", "skew", "skew-trace", "mix-input"]


@st.composite
def cases(draw):
    spec = draw(gen.chan_spec(max_dim=8, max_kraus=4))
    c = gen.build_chan(spec)
    return {"chan": spec, "kind": draw(st.sampled_from(KINDS)), "i": draw(st.integers(0, 15)),
            "sparse": draw(st.sampled_from([False, False, True])),
            "container": draw(st.sampled_from(gen.CONTAINERS)), "f": draw(st.integers(-20, 20)),
            "m": draw(gen.cmat_hex(c.D, c.d)), "n": draw(st.integers(1, 2))}


def attempt(f):
    try:
        f()
        return None
    except (AssertionError, TypeError, ValueError) as e:
        return e


def run(case, ctx):
    from PyQCodes.chan.channel import AnalyticQChan
    c = gen.build_chan(case["chan"])
    kind, i = case["kind"], case["i"] % c.K
    ops = [np.array(k, dtype=complex) for k in c.kraus]
    nq, din, dout = list(c.numb_qubits), c.din, c.dout
    shape_ok = True
    if kind == "scale":
        ops[i] = ops[i] * (1 + case["f"] / 20.0)
    elif kind == "drop" and c.K > 1:
        ops = ops[:i] + ops[i + 1:]
    elif kind == "shift":
        ops[i] = ops[i] + gen.cmat(case["m"], c.D, c.d) / 8
    elif kind == "rotate-rows":
        ops[i] = np.roll(ops[i], 1, axis=0)
    elif kind in ("skew", "skew-trace", "mix-input"):
        # right-multiply every operator: sum K^+K becomes m^+m, whose diagonal (or trace) is kept
        m = np.eye(c.d, dtype=complex)
        s = abs(case["f"]) / 20.0
        phase = 1j ** (case["i"] % 4)
        a, b = case["i"] % c.d, (case["i"] // 4) % c.d
        if a == b:
            b = (a + 1) % c.d
        if c.d > 1:
            if kind == "skew":            # columns of length one, not orthogonal
                m[:, b] = 0
                m[a, b], m[b, b] = s * phase, np.sqrt(1 - s * s)
            elif kind == "skew-trace":    # too much of one input, too little of another
                m[a, a], m[b, b] = np.sqrt(1 + s), np.sqrt(1 - s)
            else:                         # determinant one
                m[a, b] = s * phase
        ops = [k @ m for k in ops]
    elif kind == "noise":
        ops[i] = ops[i] + gen.cmat(case["m"], c.D, c.d) * 1e-10
    elif kind == "dims-in":
        din += 1 + abs(case["f"]) % 2
        shape_ok = False
    elif kind == "dims-out":
        dout += 1 + abs(case["f"]) % 2
        shape_ok = False
    elif kind == "particles":
        j = abs(case["f"]) % 2
        nq[j] += 1
        shape_ok = False
    gap = np.abs(sum(ref.dag(k) @ k for k in ops) - np.eye(c.d)).max()
    ctx.label(kind, "sparse" if case["sparse"] else "dense")

    def build():
        return AnalyticQChan(gen.contain(ops, case["container"], case["sparse"]), nq, din, dout,
                             sparse=case["sparse"])
    err = attempt(build)
    if not shape_ok or gap > 1e-3:
        ctx.nt()
        ctx.label("invalid by %s" % kind)
        ctx.require(err is not None, "accepted %s (deviation from trace preserving %.2g)",
                    "wrong dimensions" if not shape_ok else "operators that are not trace "
                    "preserving", gap)
        if not shape_ok:
            from PyQCodes.chan._kraus import DenseKraus, SparseKraus
            cls = SparseKraus if case["sparse"] else DenseKraus
            ctx.require(attempt(lambda: cls(gen.contain(ops, case["container"], case["sparse"]),
                                            nq, din, dout)) is not None,
                        "Kraus object with wrong dimensions accepted")
    elif gap < 1e-7:
        ctx.label("valid")
        if err is not None:
            raise Violation("valid channel rejected: %r" % (err,))
        q = build()
        ctx.require(q.krauss.is_trace_perserving(), "valid channel reported as not trace preserving")
        rho = np.eye(c.d) / c.d
        value(ctx, np.trace(arr(q.channel(rho, 1))), 1.0, "trace of the output", 1e-6)


CHOI_KINDS = ["valid", "scale", "shift", "transpose", "swap", "negative", "size", "block"]


@st.composite
def choi_cases(draw):
    spec = draw(gen.chan_spec(max_dim=4, max_kraus=3))
    c = gen.build_chan(spec)
    return {"chan": spec, "kind": draw(st.sampled_from(CHOI_KINDS)), "f": draw(st.integers(-20, 20)),
            "m": draw(gen.cmat_hex(c.d * c.D, 1)), "h": draw(gen.cmat_hex(c.d, c.d)),
            "g": draw(gen.cmat_hex(c.D, c.D))}


def run_choi(case, ctx):
    from PyQCodes.chan.channel import AnalyticQChan
    c = gen.build_chan(case["chan"])
    d, D = c.d, c.D
    choi = ref.choi(c.kraus)
    nq, din, dout, size_ok = list(c.numb_qubits), c.din, c.dout, True
    kind = case["kind"]
    if kind == "scale":
        choi = choi * (1 + case["f"] / 20.0)
    elif kind == "shift":
        v = gen.cmat(case["m"], d * D, 1)
        choi = choi + v @ ref.dag(v) / 8
    elif kind == "transpose":             # stays trace preserving, may lose positivity
        choi = choi.reshape(d, D, d, D).transpose(0, 3, 2, 1).reshape(d * D, d * D)
    elif kind == "swap":                  # the other ordering convention
        choi = choi.reshape(d, D, d, D).transpose(1, 0, 3, 2).reshape(d * D, d * D)
    elif kind == "negative":              # trace preserving, not positive
        h = gen.cmat(case["h"], d, d)
        g = gen.cmat(case["g"], D, D)
        h, g = h + ref.dag(h), g + ref.dag(g)
        g = g - np.eye(D) * np.trace(g) / D
        choi = choi + np.kron(h, g) * 0.5
    elif kind == "block":                 # trace one but not trace preserving
        e = np.zeros((d, d))
        e[0, 0] = d
        choi = np.kron(e, np.eye(D) / D)
    elif kind == "size":
        if case["f"] % 2:
            din += 1
        else:
            dout += 1
        size_ok = False
    tp = np.abs(np.einsum("iaja->ij", choi.reshape(d, D, d, D)) - np.eye(d)).max()
    low = ref.eigs(choi)[0]
    err = attempt(lambda: AnalyticQChan(np.array(choi), nq, din, dout))
    ctx.label(kind)
    if not size_ok or tp > 1e-3 or low < -1e-3:
        ctx.nt()
        ctx.label("invalid by %s" % kind)
        ctx.require(err is not None, "accepted a Choi matrix that is not a channel (trace "
                    "preservation off by %.2g, lowest eigenvalue %.2g)", tp, low)
    elif tp < 1e-10 and low > -1e-12:
        ctx.label("valid")
        if err is not None:
            raise Violation("valid Choi matrix rejected: %r" % (err,))


@st.composite
def type_cases(draw):
    return {"chan": draw(gen.chan_spec(max_dim=4, max_kraus=3)),
            "bad": draw(st.sampled_from(["tuple", "none", "string", "int", "dict", "1d", "4d",
                                         "choi-n2", "choi-add", "choi-mul", "choi-exchange",
                                         "float-dim"])),
            "sparse": draw(st.booleans())}


def run_types(case, ctx):
    from PyQCodes.chan.channel import AnalyticQChan
    c = gen.build_chan(case["chan"])
    bad = case["bad"]
    ctx.nt()
    ctx.label(bad)
    nq, sp = list(c.numb_qubits), case["sparse"]
    rho = np.eye(c.d) / c.d

    def make(op, din=None):
        return AnalyticQChan(op, nq, c.din if din is None else din, c.dout, sparse=sp)
    tries = {
        "tuple": lambda: make(tuple(c.kraus)), "none": lambda: make(None),
        "string": lambda: make("kraus"), "int": lambda: make(3),
        "dict": lambda: make({0: c.kraus[0]}), "1d": lambda: make(c.kraus[0].ravel()),
        "4d": lambda: make(np.array([c.kraus])),
        "float-dim": lambda: make(c.kraus, float(c.din)),
        "choi-n2": lambda: c.make_choi().channel(np.kron(rho, rho), 2),
        "choi-add": lambda: c.make_choi() + c.make(),
        "choi-mul": lambda: c.make_choi() * c.make(),
        "choi-exchange": lambda: c.make_choi().entropy_exchange(rho, 1)}
    ctx.require(attempt(tries[bad]) is not None, "invalid use '%s' is accepted", bad)


SUBS = [
    Sub("kraus", lambda: cases(), run, 5000),
    Sub("choi", lambda: choi_cases(), run_choi, 4000),
    Sub("types", lambda: type_cases(), run_types, 400),
]
