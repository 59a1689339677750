"""C10  Entropy and coherent information."""
from pbt.checks.common import *  # noqa: F401,F403

RULE = ("Random channels (dense, sparse, block-declared orthogonal, Choi), n uses and input "
        "states of every rank: coherent information against S(N(rho)) - S(N^c(rho)) computed "
        "from the Kraus operators, |I_c| <= S(rho), division by n, additivity on product states, "
        "data processing under a second channel, entropy of matrices, stacks and lists of blocks "
        "of any shapes.  Non-trivial: mixed input and a channel with at least two operators, or "
        "at least two blocks.")
warm_up = warm_sparse


@st.composite
def coherent_cases(draw):
    spec = draw(gen.chan_spec(max_dim=8, max_kraus=4))
    d, D = dims(spec)
    n = draw(uses(spec, 300, 3))
    return {"chan": spec, "n": n, "state": draw(gen.state_spec(d ** n)),
            "kind": draw(st.sampled_from(["dense", "sparse", "orth", "choi", "dense"])),
            "reg": draw(st.booleans())}


def make(c, kind, n=1):
    if kind == "choi" and n == 1:
        return c.make_choi()
    if kind == "orth" and c.orth:
        return c.make(orth=True)
    return c.make(kind == "sparse")


def coherent(case, ctx):
    c = gen.build_chan(case["chan"])
    n, rho = case["n"], gen.build_state(case["state"])
    q = make(c, case["kind"], n)
    describe_chan(ctx, c, n)
    ctx.label(case["kind"])
    ctx.nt(c.K > 1 and ref.entropy(rho) > 1e-3)
    ops = ref.tensor_power(c.kraus, n)
    want = ref.coherent_information(ops, rho)
    got = q.coherent_information(rho, n, **gen.brief(case, {"regularized": case["reg"]},
                                                         {"regularized": False}))
    value(ctx, got, want / n if case["reg"] else want, "coherent information", 1e-5)
    ctx.label("regularized" if case["reg"] else "not regularized")
    total = float(got) * (n if case["reg"] else 1)
    s = ref.entropy(rho)
    ctx.require(abs(total) <= s + 1e-5, "|coherent information| %g exceeds the entropy %g of "
                "the input", total, s)
    ctx.label("positive" if total > 1e-6 else "negative" if total < -1e-6 else "zero")
    if c.K == 1:
        value(ctx, total, s, "coherent information of an isometric channel", 1e-5)


@st.composite
def product_cases(draw):
    spec = draw(gen.chan_spec(max_dim=4, max_kraus=3))
    d, D = dims(spec)
    n = max(2, min(3, max_uses(spec, 500, 3)))
    return {"chan": spec, "states": [draw(gen.state_spec(d)) for _ in range(n)],
            "kind": draw(st.sampled_from(["dense", "sparse", "orth"]))}


def product(case, ctx):
    c = gen.build_chan(case["chan"])
    rhos = [gen.build_state(s) for s in case["states"]]
    q = make(c, case["kind"], 2)
    describe_chan(ctx, c, len(rhos))
    ctx.nt(c.K > 1 and min(ref.entropy(r) for r in rhos) > 1e-3)
    parts = [float(q.coherent_information(r, 1)) for r in rhos]
    joint = rhos[0]
    for r in rhos[1:]:
        joint = np.kron(joint, r)
    value(ctx, q.coherent_information(joint, len(rhos)), sum(parts),
          "coherent information of a product state", 1e-5)
    value(ctx, q.coherent_information(joint, len(rhos), regularized=True),
          sum(parts) / len(rhos), "regularized coherent information of a product state", 1e-5)


@st.composite
def processing_cases(draw):
    spec = draw(gen.chan_spec(max_dim=4, max_kraus=3))
    d, D = dims(spec)
    spec2 = draw(gen.chan_spec(dims=(D, draw(st.sampled_from([2, 3, 4]))), max_kraus=3))
    spec2["dims"][:2] = spec["dims"][2:]
    return {"chan": spec, "then": spec2, "state": draw(gen.state_spec(d)),
            "sparse": draw(st.tuples(st.booleans(), st.booleans()))}


def processing(case, ctx):
    c, c2 = gen.build_chan(case["chan"]), gen.build_chan(case["then"])
    rho = gen.build_state(case["state"])
    a = c.make(case["sparse"][0])
    b = c2.make(case["sparse"][1])
    both = b + a
    before, after = a.coherent_information(rho, 1), both.coherent_information(rho, 1)
    ctx.nt(c.K > 1 and c2.K > 1 and ref.entropy(rho) > 1e-3)
    ctx.require(after <= before + 1e-5, "processing the output raised the coherent information "
                "from %g to %g", before, after)
    value(ctx, after, ref.coherent_information([x @ y for x in c2.kraus for y in c.kraus], rho),
          "coherent information of the concatenation", 1e-5)
    if c2.K == 1:
        value(ctx, after, float(before), "coherent information after an isometry", 1e-5)
        ctx.label("isometry after")


@st.composite
def entropy_cases(draw):
    m = draw(st.integers(1, 4))
    same = draw(st.booleans())
    d0 = draw(st.integers(1, 6))
    ds = [d0 if same else draw(st.integers(1, 6)) for _ in range(m)]
    return {"blocks": [draw(gen.state_spec(d)) for d in ds],
            "w": draw(st.lists(st.integers(0, 9), min_size=m, max_size=m)),
            "how": draw(st.sampled_from(["list", "tuple", "stack", "single"])),
            "cut": draw(st.sampled_from([None, 1e-8, 1e-12])), "u": draw(gen.cmat_hex(ds[0], ds[0]))}


def entropy(case, ctx):
    rhos = [gen.build_state(s) for s in case["blocks"]]
    w = np.array(case["w"], dtype=float)
    w = w / w.sum() if w.sum() else np.ones(len(w)) / len(w)
    blocks = [p * r for p, r in zip(w, rhos)]
    q = gen.Chan([np.eye(2)], {"dims": [1, 2, 1, 2]}).make()
    kw = {} if case["cut"] is None else {"cut_off": case["cut"]}
    how = case["how"]
    shapes = {b.shape for b in blocks}
    ctx.label(how, "%d blocks" % len(blocks), "equal shapes" if len(shapes) == 1 else "unequal")
    if how == "single":
        u = gen.unitary_from_hex(case["u"], len(rhos[0]))
        mat, want = rhos[0], ref.entropy(rhos[0])
        value(ctx, q.entropy(u @ mat @ ref.dag(u), **kw), want,
              "entropy after a change of basis", 1e-5)
        ctx.nt(want > 1e-3)
    else:
        want = sum(ref.entropy(b) for b in blocks)
        ctx.nt(len(blocks) > 1)
        if how == "stack" and len(shapes) == 1:
            mat = np.array(blocks)
        else:
            mat = tuple(blocks) if how == "tuple" else blocks
    got = q.entropy(mat, **kw)
    value(ctx, got, want, "entropy", 1e-5)
    dim = sum(len(b) for b in blocks) if how != "single" else len(rhos[0])
    ctx.require(-1e-6 <= got <= np.log2(dim) + 1e-6, "entropy %g outside [0, log2 %d]", got, dim)


SUBS = [Sub("coherent", coherent_cases, coherent, 6000),
        Sub("product", product_cases, product, 1500),
        Sub("processing", processing_cases, processing, 2500),
        Sub("entropy", entropy_cases, entropy, 4000)]
