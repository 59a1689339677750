"""Shared pieces of the channel checks."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Sub, Violation  # noqa: F401


def warm_sparse():
    """Compile the numba kernels of `sparse` once, before the workers are forked."""
    import io
    import contextlib
    from PyQCodes.chan.channel import AnalyticQChan
    with contextlib.redirect_stdout(io.StringIO()):
        for ops in ([np.sqrt(.5) * np.eye(2), np.sqrt(.5) * np.array([[0, 1], [1, 0]])],
                    [np.sqrt(.5) * np.eye(2), np.sqrt(.5) * np.array([[0, 1j], [1j, 0]])]):
            c = AnalyticQChan(ops, [1, 1], 2, 2, sparse=True)
            for dt in (float, complex):
                rho = (np.eye(2) / 2).astype(dt)
                c.channel(rho, 1)
                c.channel(rho, 1, adjoint=True)
                c.entropy_exchange(rho, 1)
                c.entropy_exchange(np.eye(2, dtype=dt), 1, adjoint=True)
                c.channel(np.eye(4, dtype=dt) / 4, 2)
                c.entropy_exchange(np.eye(4, dtype=dt) / 4, 2)
                try:
                    c.average_entanglement_fidelity([1.], [rho])
                except Exception:  # noqa: BLE001
                    pass
            try:
                (c + c).channel(np.eye(2) / 2, 1)
                (c * c).channel(np.eye(4) / 4, 1)
            except Exception:      # noqa: BLE001
                pass


def arr(x):
    """Plain ndarray of whatever the library returned."""
    if hasattr(x, "todense") and not isinstance(x, np.ndarray):
        x = x.todense()
    return np.asarray(x)


def ops_of(x):
    return [arr(k) for k in arr(x)]


@st.composite
def uses(draw, chan, cap=600, limit=4):
    m = max_uses(chan, cap, limit)
    return draw(st.sampled_from(list(range(1, m + 1)) + [m, m]))


def max_uses(spec, cap=600, limit=4):
    c = gen.build_chan(spec)
    return gen.max_n(c.K, c.d, c.D, cap, limit)


def dims(spec):
    nin, din, nout, dout = spec["dims"]
    return din ** nin, dout ** nout


def describe_chan(ctx, c, n=1):
    ctx.label("n=%d" % n, "K=%d" % min(c.K, 6), "d=%d" % c.d,
              "square" if c.d == c.D else "non-square")
    if c.nin > 1 or c.nout > 1:
        ctx.label("several particles")
    if any(np.iscomplexobj(k) and np.abs(np.imag(k)).max() > 1e-9 for k in c.kraus):
        ctx.label("complex")


def near(ctx, got, want, what, tol=1e-8):
    got, want = arr(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s has shape %s instead of %s" % (what, got.shape, want.shape))
    if got.size and not np.all(np.isfinite(got)):
        raise Violation("%s is not finite" % what)
    err = np.max(np.abs(got - want)) if got.size else 0.0
    if not err <= tol:
        raise Violation("%s differs from the reference by %.3g" % (what, err))


def value(ctx, got, want, what, tol=1e-7):
    got = complex(got)
    if not (np.isfinite(got.real) and abs(got.imag) <= max(tol, 1e-7)
            and abs(got.real - want) <= tol):
        raise Violation("%s is %s, reference %.10g" % (what, got, want))


def history(m):
    """Earlier queries of m channels: [which, what, n]."""
    return st.lists(st.tuples(st.integers(0, m - 1), st.sampled_from(
        ["channel", "exchange", "adjoint", "update"]), st.integers(1, 3)).map(list), max_size=3)


def replay(qs, cs, steps):
    """Query the channels; True if one was used for more than one particle."""
    used = False
    for i, what, n in steps:
        q, c = qs[i], cs[i]
        if (c.K * max(c.d, c.D)) ** n > 300:
            continue
        used = used or n > 1
        if what == "channel":
            q.channel(np.eye(c.d ** n) / c.d ** n, n)
        elif what == "adjoint":
            q.channel(np.eye(c.D ** n), n, adjoint=True)
        elif what == "exchange":
            q.entropy_exchange(np.eye(c.d ** n) / c.d ** n, n)
        else:
            q.krauss.update_kraus_operators(n)
    return used
