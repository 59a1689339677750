"""C15  A stabilizer code is accepted exactly if it is one."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random sets of n-k independent Pauli generators (strings, arrays, lists, floats), valid "
        "ones made by Clifford circuits and the same with one or two entries flipped, rows "
        "missing, added, too short or too long, unknown letters.  Oracle: accepted iff all rows "
        "have 2n entries, there are n-k of them and their symplectic products vanish; accepted "
        "codes keep the generators given.  Non-trivial: n >= 3 and at least two generators.")
OPS = ["none", "flip", "flip", "flip2", "drop", "extra", "short", "long", "letter", "params", "none"]


@st.composite
def cases(draw):
    spec = draw(gen.code_spec(2, 7, gates=("H", "S", "CX", "CZ"), named=list(gen.NAMED)))
    return {"code": spec, "how": draw(st.sampled_from(gen.CODE_INPUTS)),
            "op": draw(st.sampled_from(OPS)), "i": draw(st.integers(0, 63)),
            "j": draw(st.integers(0, 63)), "i2": draw(st.integers(0, 63)),
            "j2": draw(st.integers(0, 63)), "dn": draw(st.integers(-2, 2)),
            "dk": draw(st.integers(-2, 2))}


def run(case, ctx):
    from PyQCodes.codes import StabilizerCode
    rows, n, k = gen.code_rows(case["code"])
    rows = rows.copy()
    m = len(rows)
    op, how, i = case["op"], case["how"], case["i"] % len(rows)
    ctx.nt(n >= 3 and m >= 2)
    nn, kk = n, k
    if op in ("flip", "flip2"):
        rows[i, case["j"] % (2 * n)] ^= 1
        if op == "flip2":
            rows[case["i2"] % m, case["j2"] % (2 * n)] ^= 1
    elif op == "drop":
        rows = np.delete(rows, i, axis=0)
    elif op == "extra":
        rows = np.vstack((rows, rows[i]))
    elif op == "params":
        nn, kk = n + case["dn"], k + case["dk"]
    if len(rows) == 0 or nn < 1 or kk < 0:
        return
    given = gen.code_input(rows, how)
    valid = True
    if op in ("short", "long", "letter"):
        if how == "strings":
            s = given[i]
            given[i] = {"short": s[:-1], "long": s + "I", "letter": s[:-1] + "Q"}[op]
        elif op == "letter" or m == 1:
            return
        elif how == "lists" or len(rows) == 1:
            given[i] = given[i][:-1] if op == "short" else given[i] + [0]
        else:
            given = np.array(given)
            given = given[:, :-1] if op == "short" else np.hstack((given, given[:, :1]))
        valid = False
    else:
        valid = (nn == n and len(rows) == nn - kk
                 and all(ref.symp(a, b) == 0 for a in rows for b in rows))
    independent = ref.gf2_rank(rows) == len(rows)
    ctx.label(op, how, "valid" if valid else "invalid")
    if valid and not independent:
        ctx.label("dependent generators, not judged")
        return
    try:
        code = StabilizerCode(given, nn, kk)
    except (AssertionError, ValueError) as e:
        ctx.require(not valid, "a stabilizer code is rejected: %s", e)
        return
    except Exception as e:       # noqa: BLE001
        if not valid and op in ("short", "long", "letter"):
            return               # ragged input: any error will do
        raise
    ctx.require(valid, "%s is accepted although %s", [ref.pauli_str(r) for r in rows],
                "it does not fit the parameters" if op not in ("flip", "flip2")
                else "its generators do not commute")
    ctx.require(code.n == n and code.k == k and code.numb_stab == n - k
                and code.dim_code_space == k, "parameters of the code")
    near(ctx, np.array(code.stab_bin_rep, dtype=float), rows.astype(float), "stab_bin_rep")
    ctx.require(list(code.pauli_stab) == [ref.pauli_str(r) for r in rows], "pauli_stab is %s",
                code.pauli_stab)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(list(code), code.normal_form))
                and len(list(code)) == n - k, "iteration over the generators")
    ctx.require(np.array_equal(np.array(code.generator_set_pauli_elements()), np.eye(2 * n)),
                "generator_set_pauli_elements")


@st.composite
def logical_cases(draw):
    spec = draw(gen.code_spec(2, 6, gates=("H", "CX", "CZ")))
    return {"code": spec, "bad": draw(st.sampled_from([None, "list", "listz", "short", "shortz"]))}


def logical(case, ctx):
    from PyQCodes.codes import StabilizerCode
    rows, n, k = gen.code_rows(case["code"])
    base = StabilizerCode(rows, n, k)
    lx, lz = np.array(base.logical_x), np.array(base.logical_z)
    bad = case["bad"]
    ctx.label(str(bad))
    ctx.nt(k > 1 or bad is not None)
    arg = {None: [lx, lz], "list": [lx.tolist(), lz], "listz": [lx, lz.tolist()],
           "short": [lx[:, :-1], lz], "shortz": [lx, lz[:, :-2]]}[bad]
    try:
        code = StabilizerCode(rows, n, k, arg)
    except AssertionError:
        ctx.require(bad is not None, "logical operators rejected")
        return
    ctx.require(bad is None, "logical operators of a wrong type or size are accepted")
    ctx.require(np.array_equal(code.logical_x, lx) and np.array_equal(code.logical_z, lz),
                "logical operators given by the user are not the ones of the code")


SUBS = [Sub("construction", cases, run, 8000), Sub("logical", logical_cases, logical, 1500)]
