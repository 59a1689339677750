"""C14  Lipschitz sampler of initial guesses."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("The sampler is run with a recording parameterisation, so the whole history of candidates "
        "is known; a reference model decides which of them must be kept (first one always, later "
        "ones iff the best value so far is at most min_i f_i + sum|rho - rho_i|) and the returned "
        "samples, values and success flag must be those.  Objectives: coherent information and "
        "fidelity of random channels, and steep / flat / periodic test functions.  Non-trivial: "
        "at least one candidate rejected and at least two kept.")
warm_up = warm_sparse


@st.composite
def cases(draw):
    d = draw(st.integers(2, 4))
    return {"d": d, "r": draw(st.integers(1, d)), "seed": draw(st.integers(0, 2 ** 31)),
            "param": draw(st.sampled_from(["over", "cholesky"])),
            "numb": draw(st.sampled_from([5, 8, 12, 3, 2, 1])),
            "tries": draw(st.sampled_from([20, 60, 40, 5, 0])),
            "f": draw(st.sampled_from(["ramp", "steep", "wave", "wave", "coherent", "fidelity",
                                         "flat", "ramp"])),
            "slope": draw(st.sampled_from([50.0, 8.0, 200.0, 20.0, 2.0])),
            "chan": draw(gen.chan_spec(dims=(d, d), same=True, max_kraus=3))}


def run(case, ctx):
    from PyQCodes.chan.param import CholeskyParam, OverParam
    try:
        from PyQCodes._optimize import initial_guesses_lipschitz
    except ImportError:
        ctx.label("no sampler of this name")
        return
    P = OverParam if case["param"] == "over" else CholeskyParam
    d, r = case["d"], case["r"]
    seen = []

    class Recorder:
        @staticmethod
        def random_vectors(nsize, rank):
            v = P.random_vectors(nsize, rank)
            seen.append(np.array(v))
            return v

        @staticmethod
        def rho_from_vec(vec, nsize, rank=None):
            return P.rho_from_vec(vec, nsize, rank)

    slope = case["slope"]

    def f(vec, nsize, rank, param, chan, n):
        if case["f"] == "coherent":
            return -chan.coherent_information(param.rho_from_vec(vec, nsize, rank), n)
        if case["f"] == "fidelity":
            return chan.fidelity_two_states(param.rho_from_vec(vec, nsize, 1), n)
        x = np.real(P.rho_from_vec(vec, nsize, rank)[0, 0])
        return {"steep": -slope * x * x, "flat": 0.25, "wave": slope * np.sin(20 * x),
                "ramp": slope * x}[case["f"]]

    if case["f"] == "fidelity":
        r = 1
    chan = gen.build_chan(case["chan"]).make()
    np.random.seed(case["seed"])
    got_v, got_f, got_s = initial_guesses_lipschitz(f, d, r, Recorder, chan, 1,
                                                    numb_samples=case["numb"],
                                                    numb_tries=case["tries"])
    # Reference model over the recorded history.
    keep, vals, rhos, used = [seen[0]], [-f(seen[0], d, r, P, chan, 1)], [], 0
    rhos = [P.rho_from_vec(seen[0], d, r)]
    border = False
    for v in seen[1:]:
        ctx.require(used < case["tries"] and len(keep) < case["numb"],
                    "a candidate is drawn after the sampler should have ended")
        used += 1
        rho = P.rho_from_vec(v, d, r)
        bound = min(y + np.sum(np.abs(rho - s)) for y, s in zip(vals, rhos))
        border = border or abs(bound - max(vals)) < 1e-9
        if max(vals) <= bound:
            keep.append(v)
            rhos.append(rho)
            vals.append(-f(v, d, r, P, chan, 1))
    if border:
        ctx.label("tie, not judged")
        return
    ctx.require(len(keep) >= case["numb"] or used == case["tries"], "the sampler gave up after "
                "%d of %d candidates", used, case["tries"])
    ctx.require(len(got_v) == len(keep) == len(got_f), "%d samples and %d values kept, model %d",
                len(got_v), len(got_f), len(keep))
    for a, b in zip(got_v, keep):
        ctx.require(np.array_equal(np.asarray(a), b), "other samples kept than the model keeps")
    near(ctx, np.array(got_f, dtype=float), np.array(vals), "values of the samples", 1e-9)
    ctx.require(bool(got_s) == (len(keep) == case["numb"]), "success flag %s with %d of %d samples",
                got_s, len(keep), case["numb"])
    rejected = used + 1 - len(keep)
    ctx.label(case["f"], case["param"], "rejections" if rejected else "no rejection",
              "success" if got_s else "gave up")
    ctx.nt(rejected > 0 and len(keep) > 1)


SUBS = [Sub("history", cases, run, 8000)]
