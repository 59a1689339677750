"""C30  Undetectable errors N(S) - S."""
import itertools

from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random codes of 2..4 qubits (2..5 in the thorough tier) and named codes: the normalizer "
        "lists each Pauli that commutes with all generators and is not in the group exactly once, "
        "and nothing else (4^n candidates, checked against a linear-algebra count and membership "
        "tests); undetectable_errors lists the same Paulis as strings.  Non-trivial: group of at "
        "least two generators.")


@st.composite
def cases(draw):
    return {"code": draw(gen.code_spec(2, 4, gates=("H", "S", "CX", "CZ"), max_gates=16,
                                       named=["bitflip3", "phaseflip3", "four22", "yy", "three2",
                                              "four1"])),
            "how": draw(st.sampled_from(gen.CODE_INPUTS))}


def run(case, ctx):
    code, rows, n, k = gen.make_code(case["code"], case["how"])
    got = [tuple(int(b) for b in r) for r in np.asarray(code.normalizer())]
    group = {tuple(v) for v in ref.span(rows)}
    want = {tuple(c @ ref.centralizer(rows) % 2)
            for c in (np.array(x) for x in itertools.product([0, 1], repeat=n + k))} - group
    ctx.require(len(got) == len(set(got)), "a Pauli is listed twice")
    ctx.require(set(got) == want, "N(S) - S of %s has %d elements, %d returned",
                [ref.pauli_str(r) for r in rows], len(want), len(got))
    errors = code.undetectable_errors()
    ctx.require(sorted(errors) == sorted(ref.pauli_str(np.array(r)) for r in want),
                "undetectable_errors differs from the normalizer")
    ctx.require(np.array_equal(ref.ints(code.stab_bin_rep), rows), "generators were changed")
    ctx.label("n=%d" % n, "k=%d" % k)
    ctx.nt(n - k >= 2)


SUBS = [Sub("normalizer", cases, run, 3000)]
