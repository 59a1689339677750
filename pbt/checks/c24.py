"""C24  Concatenation of codes."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random pairs of an [n,k] code and an [m,l] code with l | n (l = 1..4): the concatenated "
        "code has n*m/l qubits, k logical qubits, and its group is generated by the second code's "
        "generators on every block and the first code's generators with X_j, Z_j replaced by the "
        "logical operators of qubit j of the second code; logical operators of the second code "
        "are its own or supplied by the user.  Both codes stay as they were; l not dividing n is a "
        "ValueError.  Non-trivial: first code has both X and Z letters, or l > 1.")
ASSUMPTIONS = ["When the logical operators of the second code are the found ones, codes whose "
               "standard form exchanges qubits are left out (known finding).",
               "Logical Y is X.Z up to a sign (signs are not part of the binary form)."]


@st.composite
def cases(draw):
    second = draw(gen.code_spec(2, 5, named=["bitflip3", "phaseflip3", "five", "four22", "yy",
                                             "three2", "six4", "two", "steane", "four1"],
                                gates=("H", "S", "CX", "CZ"), max_k=3))
    _, m, l = gen.code_rows(second)
    ok = draw(st.integers(0, 7)) > 0
    sizes = [n for n in range(2, 7) if (n % l == 0) and n * m // l <= 30] if ok else \
        [n for n in range(2, 7) if n % l]
    if not sizes:
        sizes = [n for n in range(2, 7) if n % l == 0]
    n = draw(st.sampled_from(sizes))
    return {"first": draw(gen.code_spec(n, n, gates=("H", "S", "CX", "CZ"))),
            "second": second, "given": draw(st.booleans()),
            "mix": draw(st.lists(st.integers(0, 1), min_size=20, max_size=20)),
            "how": [draw(st.sampled_from(["strings", "array", "lists"])) for _ in range(2)]}


def concatenated(rows, n, block, lx, lz, m, l):
    """Independent construction of the generators."""
    total = n * m // l
    out = []
    for b in range(n // l):
        for r in block:
            g = np.zeros(2 * total, dtype=int)
            g[b * m:(b + 1) * m] = r[:m]
            g[total + b * m:total + (b + 1) * m] = r[m:]
            out.append(g)
    for r in rows:
        g = np.zeros(2 * total, dtype=int)
        for j in range(n):
            b, q = divmod(j, l)
            part = (r[j] * lx[q] + r[n + j] * lz[q]) % 2
            g[b * m:(b + 1) * m] ^= part[:m]
            g[total + b * m:total + (b + 1) * m] ^= part[m:]
        out.append(g)
    return np.array(out)


def build(case):
    from PyQCodes.codes import StabilizerCode
    rows, n, k = gen.code_rows(case["first"])
    block, m, l = gen.code_rows(case["second"])
    first = StabilizerCode(gen.code_input(rows, case["how"][0]), n, k)
    if case["given"]:
        lx, lz = ref.logicals(block)
        # Any representative of a logical operator will do.
        mix = np.array(case["mix"])[:len(block)]
        lx = np.array([(x + mix @ block) % 2 for x in lx])
        second = StabilizerCode(gen.code_input(block, case["how"][1]), m, l, [lx, lz])
    else:
        second = StabilizerCode(gen.code_input(block, case["how"][1]), m, l)
        lx, lz = ref.ints(second.logical_x), ref.ints(second.logical_z)
    return first, second, rows, block, lx, lz, (n, k, m, l)


def run(case, ctx):
    from PyQCodes.codes import StabilizerCode
    first, second, rows, block, lx, lz, (n, k, m, l) = build(case)
    if not case["given"] and not ref.same_span(ref.ints(second.normal_form), block):
        ctx.label("skipped: standard form in another qubit order")
        return
    ctx.label("l=%d" % l, "logicals given" if case["given"] else "logicals found")
    if n % l:
        ctx.nt()
        ctx.label("l does not divide n")
        try:
            StabilizerCode.concatenate_codes(first, second)
        except ValueError:
            return
        raise Violation("n = %d, l = %d is accepted" % (n, l))
    before = [np.array(x, copy=True) for x in (first.stab_bin_rep, second.stab_bin_rep,
                                               second.logical_x, second.logical_z)]
    code = StabilizerCode.concatenate_codes(first, second)
    want = concatenated(rows, n, block, lx, lz, m, l)
    got = ref.ints(code.stab_bin_rep)
    total = n * m // l
    ctx.require((code.n, code.k) == (total, k), "parameters %s instead of %s", (code.n, code.k),
                (total, k))
    ctx.require(got.shape == (total - k, 2 * total), "generators have shape %s", got.shape)
    ctx.require(ref.same_span(got, want), "group is generated by %s instead of %s",
                [ref.pauli_str(x) for x in got], [ref.pauli_str(x) for x in want])
    for a, b in zip(before, (first.stab_bin_rep, second.stab_bin_rep, second.logical_x,
                             second.logical_z)):
        ctx.require(np.array_equal(a, b), "one of the codes was changed")
    ctx.nt(l > 1 or (rows[:, :n].any() and rows[:, n:].any()))
    ctx.label("first code with Y" if any(ref.numb_y(r) for r in rows) else "no Y")


def shor_like(inp):
    from PyQCodes.codes import StabilizerCode
    first = StabilizerCode(inp["first"], *inp["nk"])
    second = StabilizerCode(inp["second"], *inp["ml"])
    try:
        code = StabilizerCode.concatenate_codes(first, second)
    except AssertionError:
        return True
    block = np.array([ref.str_row(p) for p in inp["second"]])
    m, l = inp["ml"]
    b = len(block) * inp["nk"][0] // l
    images = ref.ints(code.stab_bin_rep)[b:]
    # Generators of the first code must commute with the blocks and not be part of them.
    blocks = ref.ints(code.stab_bin_rep)[:b]
    return not all(ref.symp(x, y) == 0 for x in images for y in blocks)


KNOWN = {"second-code-exchanged-qubits": shor_like}
SUBS = [Sub("concatenation", cases, run, 10000)]
