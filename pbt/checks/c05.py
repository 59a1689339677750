"""C05  Serial concatenation is composition of maps."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Pairs (and triples) of random channels B: d0->d1, A: d1->d2, dense / sparse / mixed, "
        "whose particle structures may differ (one 4-level particle feeding two qubits); A + B as "
        "channels (also after the operands were used for any n), as Kraus objects and as the static "
        "function.  B from a Choi matrix.  Mismatched dimensions must raise "
        "TypeError.  Non-trivial: the two maps do not commute on the input or are not square.")
warm_up = warm_sparse


@st.composite
def cases(draw, max_dim, triples):
    m = 3 if triples else 2
    pool = [x for x in [2, 2, 3, 4, 4, 8, 9] if x <= max_dim]
    ds = draw(st.lists(st.sampled_from(pool), min_size=m + 1, max_size=m + 1))
    if draw(st.integers(0, 2)) == 0:
        ds = [ds[0]] * (m + 1)
    chans = [draw(gen.chan_spec(dims=(ds[i], ds[i + 1]), max_kraus=3)) for i in range(m)]
    n = draw(st.sampled_from([1, 1, 1, 2])) if max(ds) <= 3 else 1
    return {"chans": chans, "sparse": draw(st.lists(st.booleans(), min_size=m, max_size=m)),
            "n": n, "state": draw(gen.state_spec(ds[0] ** n)), "used": draw(history(m)),
            "containers": draw(st.lists(st.sampled_from(gen.CONTAINERS), min_size=m,
                                        max_size=m))}


def run(case, ctx):
    cs = [gen.build_chan(s) for s in case["chans"]]
    n = case["n"]
    rho = gen.build_state(case["state"])
    qs = [c.make(s, k) for c, s, k in zip(cs, case["sparse"], case["containers"])]
    ops = cs[0].kraus
    for c in cs[1:]:
        ops = [a @ b for a in c.kraus for b in ops]
    if (len(ops) * max(c.d for c in cs)) ** n > 1500:
        n = 1
        rho = rho[:cs[0].d, :cs[0].d]
        if abs(np.trace(rho)) < 1e-9:
            rho = np.eye(cs[0].d)
        rho = rho / np.trace(rho)
    want = rho
    for c in cs:
        want = ref.apply_kraus(ref.tensor_power(c.kraus, n), want)
    if replay(qs, cs, case["used"]):
        ctx.label("operand used before")
    total = qs[0]
    for q in qs[1:]:
        total = q + total                 # q is applied after what is there
    near(ctx, total.channel(rho, n), want, "A + B (B applied first)")
    ctx.require(list(total.numb_qubits) == [cs[0].nin, cs[-1].nout] and total.dim_in == cs[0].din
                and total.dim_out == cs[-1].dout, "particles / dimensions of the composition: "
                "%s %s -> %s", list(total.numb_qubits), total.dim_in, total.dim_out)
    ctx.require(total.input_dimension == cs[0].d ** n and
                total.output_dimension == cs[-1].D ** n, "dimensions of the composition")
    ctx.require(total.numb_krauss == len(ops), "%d Kraus operators", total.numb_krauss)
    w = arr(total.entropy_exchange(rho, n)[0])
    near(ctx, np.sort(ref.eigs(w)), np.sort(ref.eigs(ref.complementary(
        ref.tensor_power(ops, n), rho))), "spectrum of the complementary channel of A + B", 1e-7)
    ctx.label("sparse %s" % sum(case["sparse"]), "n=%d" % n, "%d maps" % len(cs))
    if any(a.nout != b.nin for a, b in zip(cs, cs[1:])):
        ctx.label("different particle structure")
    for q, c in zip(qs, cs):
        sig = np.eye(c.d) / c.d
        near(ctx, q.channel(sig, 1), ref.apply_kraus(c.kraus, sig), "an operand afterwards")
    square = all(c.d == c.D == cs[0].d for c in cs)
    if not square:
        ctx.label("dimension changes")
        ctx.nt()
    else:
        other = rho
        for c in cs[::-1]:
            other = ref.apply_kraus(ref.tensor_power(c.kraus, n), other)
        ctx.nt(not ref.close(other, want, 1e-6))
    if len(cs) == 3:
        left = (qs[2] + qs[1]) + qs[0]
        near(ctx, left.channel(rho, n), want, "(A + B) + C")


@st.composite
def kraus_cases(draw, sparse):
    ds = draw(st.lists(st.sampled_from([2, 2, 3, 4, 8, 9]), min_size=3, max_size=3))
    m = 3 if max(ds) <= 4 else 2
    return {"a": draw(gen.chan_spec(dims=(ds[1], ds[2]), max_kraus=m)),
            "b": draw(gen.chan_spec(dims=(ds[0], ds[1]), max_kraus=m)), "sparse": sparse,
            "containers": [draw(st.sampled_from(gen.CONTAINERS)),
                           draw(st.sampled_from(gen.CONTAINERS))],
            "state": draw(gen.state_spec(ds[0]))}


def run_kraus(case, ctx):
    from PyQCodes.chan._kraus import DenseKraus, SparseKraus
    cls = SparseKraus if case["sparse"] else DenseKraus
    a, b = gen.build_chan(case["a"]), gen.build_chan(case["b"])
    rho = gen.build_state(case["state"])
    ops = [x @ y for x in a.kraus for y in b.kraus]
    ctx.nt(len(ops) > 1)
    ctx.label("sparse" if case["sparse"] else "dense")
    # Static function: Kraus operators A_i B_j, grouped by A.
    got = ops_of(cls.serial_concatenate(gen.contain(a.kraus, case["containers"][0], case["sparse"]),
                                        gen.contain(b.kraus, case["containers"][1],
                                                    case["sparse"])))
    ctx.require(len(got) == len(ops), "serial_concatenate gives %d operators", len(got))
    for g, w in zip(got, ops):
        near(ctx, g, w, "serial_concatenate operator A_i B_j")
    total = a.make_kraus(case["sparse"], case["containers"][0]) \
        + b.make_kraus(case["sparse"], case["containers"][1])
    ctx.require(isinstance(total, cls), "sum of Kraus objects is a %s", type(total))
    near(ctx, total.channel(rho), ref.apply_kraus(ops, rho), "sum of Kraus objects")
    ctx.require(list(total.numb_qubits) == [b.nin, a.nout] and total.dim_in == b.din
                and total.dim_out == a.dout, "metadata of the sum of Kraus objects")


@st.composite
def bad_cases(draw):
    ds = draw(st.lists(st.sampled_from([2, 3, 4, 5, 6, 8, 9]), min_size=4, max_size=4)
              .filter(lambda x: x[1] != x[2]))
    return {"b": draw(gen.chan_spec(dims=(ds[0], ds[1]), max_kraus=2)),
            "a": draw(gen.chan_spec(dims=(ds[2], ds[3]), max_kraus=2)),
            "sparse": draw(st.lists(st.booleans(), min_size=2, max_size=2))}


def run_bad(case, ctx):
    from PyQCodes.chan._kraus import DenseKraus, SparseKraus
    a, b = gen.build_chan(case["a"]), gen.build_chan(case["b"])
    ctx.nt()
    sa, sb = case["sparse"]
    tries = [("channels", lambda: a.make(sa) + b.make(sb)),
             ("Kraus objects", lambda: a.make_kraus(sa) + b.make_kraus(sa)),
             ("serial_concatenate", lambda: (SparseKraus if sa else DenseKraus)
              .serial_concatenate(a.make_kraus(sa).kraus_ops, b.make_kraus(sa).kraus_ops))]
    for name, f in tries:
        try:
            f()
        except TypeError:
            continue
        except Exception as e:            # noqa: BLE001
            raise Violation("%s of mismatched dimensions raise %r, not TypeError" % (name, e))
        raise Violation("%s of mismatched dimensions are composed" % name)


@st.composite
def choi_cases(draw):
    ds = draw(st.lists(st.sampled_from([2, 2, 3, 4]), min_size=3, max_size=3))
    fits = draw(st.integers(0, 9)) > 0
    return {"a": draw(gen.chan_spec(dims=(ds[1] if fits else ds[1] + 1, ds[2]), max_kraus=3)),
            "b": draw(gen.chan_spec(dims=(ds[0], ds[1]), max_kraus=3)),
            "sparse": draw(st.booleans()), "state": draw(gen.state_spec(ds[0])),
            "before": draw(st.booleans())}


def run_choi(case, ctx):
    """The channel applied first is given by its Choi matrix."""
    a, b = gen.build_chan(case["a"]), gen.build_chan(case["b"])
    qa, qb = a.make(case["sparse"]), b.make_choi()
    rho = gen.build_state(case["state"])
    if case["before"]:
        qb.channel(rho, 1)
    ctx.nt()
    if a.d != b.D:
        ctx.label("mismatch")
        try:
            qa + qb
        except TypeError:
            return
        raise Violation("channel and Choi matrix of mismatched dimensions are composed")
    ctx.label("sparse" if case["sparse"] else "dense", "non-square" if b.d != b.D else "square")
    total = qa + qb
    near(ctx, total.channel(rho, 1), ref.apply_kraus(a.kraus, ref.apply_kraus(b.kraus, rho)),
         "A + B with B from a Choi matrix", 1e-6)
    ctx.require(list(total.numb_qubits) == [b.nin, a.nout] and total.dim_in == b.din
                and total.dim_out == a.dout, "particles / dimensions of A + B, B from Choi")
    value(ctx, total.coherent_information(rho, 1), ref.coherent_information(
        [x @ y for x in a.kraus for y in b.kraus], rho), "coherent information of A + B", 1e-5)
    near(ctx, qb.channel(rho, 1), ref.apply_kraus(b.kraus, rho), "B afterwards", 1e-6)


SUBS = [
    Sub("choi", lambda: choi_cases(), run_choi, 900),
    Sub("channels", lambda: cases(9, False), run, 2600),
    Sub("triples", lambda: cases(4, True), run, 1600),
    Sub("kraus-dense", lambda: kraus_cases(False), run_kraus, 2600),
    Sub("kraus-sparse", lambda: kraus_cases(True), run_kraus, 1600),
    Sub("mismatch", lambda: bad_cases(), run_bad, 800),
]
