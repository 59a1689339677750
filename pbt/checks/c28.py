"""C28  Estimation and optimisation of the average fidelity of circuits."""
from pbt.checks import c13, pq
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random circuits as channels (unitaries, Pauli noise, measurements, codes with encoder and "
        "decoder) on 1..3 qubits.  The channel is called exactly ntimes on the register; with the "
        "states before and after each call recorded, the number of successes is within 6 standard "
        "deviations of sum |<before|after>|^2 (exact for certain outcomes), and for a unitary V the "
        "mean of |<before|after>|^2 within 6 standard errors plus the design's own bias of "
        "(|tr V|^2 + d)/(d^2 + d).  Encoder, channel and decoder run in this order.  The optimiser "
        "hands each part its own parameters, within its bounds, and reports the value, and the "
        "parameters, of the best fidelity.  Non-trivial: a channel that is not the identity.")
ASSUMPTIONS = ["The generator of numpy is seeded per case, the simulator by the harness."]


def gates(eng, q, steps, eng_rng=None):
    """Applies a generated circuit."""
    from projectq.meta import Control
    from projectq.ops import H, Measure, Ry, Rz, S, T, X, Y, Z
    one = {"H": H, "X": X, "Y": Y, "Z": Z, "S": S, "T": T}
    n = len(q)
    for g in steps:
        name, a, b = g[0], g[1] % n, g[2] % n
        if name in one:
            one[name] | q[a]
        elif name in ("CX", "CZ"):
            if a != b:
                with Control(eng, q[a]):
                    (X if name == "CX" else Z) | q[b]
        elif name == "Ry":
            Ry(g[2] / 4.0) | q[a]
        elif name == "Rz":
            Rz(g[2] / 4.0) | q[a]
        elif name == "M":
            Measure | q[a]
            eng.flush()
        elif name == "noise":              # X, Y or Z with some probability
            if np.random.rand() < g[2] / 16.0:
                [X, Y, Z][np.random.randint(3)] | q[a]
    eng.flush()


def unitary_of(steps, n):
    with pq.Reg(n) as r:
        cols = []
        for i in range(2 ** n):
            r.set(np.eye(2 ** n)[i])
            gates(r.eng, r.q, steps)
            cols.append(r.state())
    return np.array(cols).T


KINDS = ["X", "Y", "Z", "H", "S", "T", "CX", "CZ", "Ry", "Rz"]


def circuit(kinds=KINDS, most=4):
    return st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 3),
                              st.integers(0, 15)).map(list), max_size=most)


@st.composite
def cases(draw):
    return {"n": draw(st.integers(1, 3)), "steps": draw(circuit(KINDS + ["M", "noise", "noise"])),
            "eps": draw(st.sampled_from([0.5, 0.3, 0.1])), "ntimes": draw(st.integers(1, 24)),
            "api": draw(st.sampled_from(["adaptor", "device", "cheat", "device cheat", "code"])),
            "enc": draw(circuit(most=3)), "undo": draw(st.booleans()),
            "seed": draw(st.integers(0, 2 ** 31)), "again": draw(st.booleans())}


def inverse(steps):
    out = []
    for g in reversed(steps):
        if g[0] in ("Ry", "Rz"):
            out.append([g[0], g[1], -g[2]])
        elif g[0] in ("S", "T"):
            out += [list(g)] * (3 if g[0] == "S" else 7)
        else:
            out.append(list(g))
    return out


def run(case, ctx):
    from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
    from PyQCodes.find_codes import QDeviceChannel
    n, steps, api = case["n"], case["steps"], case["api"]
    np.random.seed(case["seed"])
    # Reversal of control angles needs the index semantics of `gates`.
    enc = [g for g in case["enc"]]
    dec = inverse(enc) if case["undo"] else []
    log = []
    r = pq.Reg(n, case["seed"])
    with r:
        start, r.q = r.q, None

        def check_register(reg):
            reg = list(reg)
            ctx.require(len(reg) == n and len({x.id for x in reg}) == n and r.active() == n,
                        "circuit gets a register of %d qubits (%d active)", len(reg), r.active())
            return reg

        def channel(eng, reg):
            ctx.require(eng is r.eng, "another engine")
            reg = check_register(reg)
            log.append(["channel", r.state(reg)])
            gates(eng, reg, steps)
            log.append(["out", r.state(reg)])

        def encoder(eng, reg):
            reg = check_register(reg)
            log.append(["encoder", r.state(reg)])
            gates(eng, reg, enc)

        def decoder(eng, reg):
            reg = check_register(reg)
            gates(eng, reg, dec)
            log.append(["decoded", r.state(reg)])
        if api in ("adaptor", "cheat"):
            obj = ProjectQDeviceAdaptor(r.eng, start)
        else:
            obj = QDeviceChannel(r.eng, start, channel)
            ctx.require(obj.channel is channel and obj.eng is r.eng and obj.numb_qubits == n
                        and len(obj.register) == n, "attributes of QDeviceChannel")
        del start
        total = 0
        for _ in range(1 + case["again"]):
            log.clear()
            if api in ("adaptor", "cheat"):
                got = obj.estimate_average_fidelity(channel, case["ntimes"], case["eps"],
                                                    **gen.brief(case, {"cheat": api == "cheat"},
                                                                {"cheat": False}))
            elif api in ("device", "device cheat"):
                got = obj.estimate_average_fidelity_channel(case["ntimes"], case["eps"], **gen.brief(
                    case, {"cheat": api == "device cheat"}, {"cheat": False}))
            else:
                got = obj.estimate_average_fidelity_error_code(encoder, decoder, case["ntimes"],
                                                               case["eps"])
            names = ["encoder", "channel", "out", "decoded"] if api == "code" else ["channel",
                                                                                  "out"]
            ctx.require([x[0] for x in log] == names * case["ntimes"], "order of calls is %s for "
                        "%d trials", [x[0] for x in log], case["ntimes"])
            m = len(names)
            before = [x[1] for x in log[0::m]]
            after = [x[1] for x in log[m - 1::m]]
            p = np.array([pq.fidelity(a, b) for a, b in zip(before, after)])
            hits = got * case["ntimes"]
            ctx.require(abs(hits - round(hits)) < 1e-6 and -1e-9 <= got <= 1 + 1e-9,
                        "estimate %s is not a fraction of %d", got, case["ntimes"])
            sure = (p < 1e-9) | (p > 1 - 1e-9)
            unsure = p[~sure]
            low = np.sum(p[sure] > 0.5)
            dev = 6 * np.sqrt(np.sum(unsure * (1 - unsure))) + (1.5 if len(unsure) else 0)
            want = np.sum(unsure) + low
            ctx.require(max(low - 1e-6, want - dev - 1e-6) <= hits <= min(
                low + len(unsure) + 1e-6, want + dev + 1e-6),
                "%g successes in %d trials, expected %.3f +- %.3f", hits, case["ntimes"], want, dev)
            total += 1
        r.eng.flush()
    ctx.nt(any(s[0] != "Rz" or s[2] for s in steps))
    ctx.label(api, "n=%d" % n, "measurement" if any(s[0] == "M" for s in steps) else "no "
              "measurement")


@st.composite
def mean_cases(draw):
    n = draw(st.integers(1, 2))
    return {"n": n, "steps": draw(circuit()), "eps": draw(st.sampled_from([0.1, 0.05, 0.02])),
            "ntimes": 250, "cheat": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31))}


def mean(case, ctx):
    from pbt.checks.c27 import layers, second_moment
    from PyQCodes.find_codes import QDeviceChannel
    n = case["n"]
    d = 2 ** n
    v = unitary_of(case["steps"], n)
    np.random.seed(case["seed"])
    p = []
    r = pq.Reg(n, case["seed"])
    with r:
        q, r.q = r.q, None

        def channel(eng, reg):
            reg = list(reg)
            a = r.state(reg)
            gates(eng, reg, case["steps"])
            p.append(pq.fidelity(a, r.state(reg)))
        dev = QDeviceChannel(r.eng, q, channel)
        del q
        got = dev.estimate_average_fidelity_channel(case["ntimes"], case["eps"], case["cheat"])
        r.eng.flush()
    p = np.array(p)
    haar = (abs(np.trace(v)) ** 2 + d) / (d * (d + 1))
    exact = np.real(np.trace(np.kron(v, ref.dag(v)) @ second_moment(n, layers(n, case["eps"]))))
    bias = abs(exact - haar)
    se = (6 * np.std(p) + 0.3) / np.sqrt(len(p))
    ctx.require(abs(p.mean() - haar) <= bias + se, "mean of |<before|after>|^2 is %.3f, average "
                "fidelity %.3f", p.mean(), haar)
    se = 6 * np.sqrt(max(haar * (1 - haar), 0.01) / len(p))
    ctx.require(abs(got - haar) <= bias + se, "estimate %.3f, average fidelity %.3f", got, haar)
    ctx.nt(haar < 1 - 1e-6)
    ctx.label("n=%d" % n)


# ------------------------------------------------------------------ optimisation

@st.composite
def opt_cases(draw):
    m, k = draw(st.integers(0, 3)), draw(st.integers(0, 2))
    if m + k == 0:
        m = 1
    low = draw(st.lists(st.integers(-8, 8), min_size=m + k, max_size=m + k))
    wid = draw(st.lists(st.integers(1, 8), min_size=m + k, max_size=m + k))
    goal = draw(st.lists(st.integers(0, 16), min_size=m + k, max_size=m + k))
    return {"m": m, "k": k, "low": low, "wid": wid, "goal": goal, "seed": draw(
        st.integers(0, 2 ** 31)), "maxiter": draw(st.integers(1, 30)),
        "short": draw(st.integers(0, 9)) == 0, "name": draw(st.integers(0, 9)) == 0,
        "ntimes": draw(st.integers(1, 50)), "eps": draw(st.sampled_from([0.5, 0.1]))}


def plumbing(case, ctx):
    """The estimator is replaced by a known function of the parameters it can see."""
    from PyQCodes import device_adaptor, find_codes
    m, k = case["m"], case["k"]
    low, wid = np.array(case["low"]) / 2.0, np.array(case["wid"]) / 4.0
    goal = low + wid * np.array(case["goal"]) / 16.0
    bounds = [(float(a), float(a + b)) for a, b in zip(low, wid)]
    calls = []

    def estimate(self, channel, ntimes, epsilon, cheat=False):
        ctx.require(ntimes == case["ntimes"] and epsilon == case["eps"], "estimate with ntimes = "
                    "%s, epsilon = %s", ntimes, epsilon)
        calls.clear()
        channel(self.eng, self.register)
        ctx.require([c[0] for c in calls] == ["encoder", "channel", "decoder"], "order %s",
                    [c[0] for c in calls])
        x = np.concatenate((calls[0][1], calls[2][1]))
        ctx.require(np.all(x >= low - 1e-9) and np.all(x <= low + wid + 1e-9), "parameters %s "
                    "outside of the bounds", x)
        return float(np.exp(-np.sum((x - goal) ** 2)))

    def encoder(eng, reg, x):
        ctx.require(len(x) == m, "encoder gets %d parameters of %d", len(x), m)
        calls.append(("encoder", np.array(x, dtype=float)))

    def decoder(eng, reg, x):
        ctx.require(len(x) == k, "decoder gets %d parameters of %d", len(x), k)
        calls.append(("decoder", np.array(x, dtype=float)))
    saved = device_adaptor.ProjectQDeviceAdaptor.estimate_average_fidelity
    device_adaptor.ProjectQDeviceAdaptor.estimate_average_fidelity = estimate
    np.random.seed(case["seed"])
    ctx.nt(m and k)
    ctx.label("M=%d N=%d" % (m, k))
    try:
        with pq.Reg(1) as r:
            dev = find_codes.QDeviceChannel(r.eng, r.q, lambda e, q: calls.append(("channel",)))
            if case["short"] or case["name"]:
                kw = {"optimizer": "newton"} if case["name"] else {}
                try:
                    dev.optimize_encoder_decoder_average_fidelity(
                        encoder, decoder, case["ntimes"], case["eps"], (m, k),
                        bounds if case["name"] else bounds[1:], maxiter=1, **kw)
                except (ValueError if case["name"] else AssertionError):
                    return
                raise Violation("wrong arguments are accepted")
            res = dev.optimize_encoder_decoder_average_fidelity(
                encoder, decoder, case["ntimes"], case["eps"], (m, k), bounds,
                maxiter=case["maxiter"])
    finally:
        device_adaptor.ProjectQDeviceAdaptor.estimate_average_fidelity = saved
    xe, xd = np.asarray(res["params_encoder"]), np.asarray(res["params_decoder"])
    ctx.require(xe.shape == (m,) and xd.shape == (k,), "%s parameters of the encoder, %s of the "
                "decoder", xe.shape, xd.shape)
    x = np.concatenate((xe, xd))
    ctx.require(np.all(x >= low - 1e-9) and np.all(x <= low + wid + 1e-9), "result outside of the "
                "bounds")
    best = float(np.exp(-np.sum((x - goal) ** 2)))
    value(ctx, res["optimal_val"], best, "optimal_val", 1e-9)
    ctx.require(best > 0.98, "fidelity %.4f found, 1 is possible", best)
    ctx.require(bool(res["success"]) in (True, False), "success is missing")


@st.composite
def real_cases(draw):
    return {"a": draw(st.integers(0, 15)), "seed": draw(st.integers(0, 2 ** 31))}


def real(case, ctx):
    """Channel Ry(a), encoder Ry(x), decoder Ry(y): the best fidelity is 1 at x + y = -a."""
    from projectq.ops import Ry
    from PyQCodes.find_codes import QDeviceChannel
    a = case["a"] / 5.0
    np.random.seed(case["seed"])
    r = pq.Reg(1, case["seed"])
    with r:
        q, r.q = r.q, None
        dev = QDeviceChannel(r.eng, q, lambda e, reg: Ry(a) | reg[0])
        del q
        res = dev.optimize_encoder_decoder_average_fidelity(
            lambda e, reg, x: Ry(float(x[0])) | reg[0], lambda e, reg, x: Ry(float(x[0])) | reg[0],
            12, 0.3, (1, 1), [(-np.pi, np.pi)] * 2, maxiter=2)
        r.eng.flush()
    t = float(res["params_encoder"][0] + res["params_decoder"][0]) + a
    true = (np.cos(t / 2) ** 2 * 4 + 2) / 6
    ctx.require(res["optimal_val"] >= 0.9, "value %.3f found", res["optimal_val"])
    ctx.require(true > 0.42, "parameters of average fidelity %.3f reported for value %.3f", true,
                res["optimal_val"])
    ctx.nt()


SUBS = [Sub("estimate", cases, run, 1600), Sub("mean", mean_cases, mean, 160),
        Sub("parameters", opt_cases, plumbing, 240), Sub("rotation", real_cases, real, 8)]
