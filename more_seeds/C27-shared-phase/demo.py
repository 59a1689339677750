import sys, os
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter("ignore")
import numpy as np
rng = np.random.RandomState(7)
def state(d, r=None):
    a = rng.normal(size=(d, r or d)) + 1j * rng.normal(size=(d, r or d))
    a = a @ a.conj().T
    return a / np.trace(a)
def kraus(d, D, k):
    a = rng.normal(size=(D * k, d)) + 1j * rng.normal(size=(D * k, d))
    q, _ = np.linalg.qr(a)
    return [q[i * D:(i + 1) * D] for i in range(k)]
def apply(ops, rho):
    return sum(k @ rho @ k.conj().T for k in ops)
def tensor(ops, n):
    out = ops
    for _ in range(n - 1):
        out = [np.kron(a, b) for a in out for b in ops]
    return out
def arr(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x)
from PyQCodes.chan.channel import AnalyticQChan

from functools import reduce
from PyQCodes.codes import StabilizerCode
PM = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Z": np.diag([1, -1]), "Y": np.array([[0, -1j], [1j, 0]])}
XZ = dict(PM, Y=PM["X"] @ PM["Z"])
def mat(s, m=XZ):
    return reduce(np.kron, [m[c] for c in s])
def engine(n):
    from projectq import MainEngine
    from projectq.backends import Simulator
    eng = MainEngine(backend=Simulator(rnd_seed=5), engine_list=[])
    return eng, eng.allocate_qureg(n)
def setup(eng, reg, psi):
    # qubit 0 is the first tensor factor
    eng.flush()
    n = len(reg)
    eng.backend.set_wavefunction(list(np.asarray(psi, dtype=complex)), list(reversed(list(reg))))
def wave(eng, reg):
    eng.flush()
    m, w = eng.backend.cheat()
    w = np.array(w)
    order = list(reversed(list(reg)))
    out = np.zeros(2 ** len(order), dtype=complex)
    for b in range(len(out)):
        idx = 0
        for pos, q in enumerate(order):
            if (b >> pos) & 1:
                idx |= 1 << m[q.id]
        out[b] = w[idx]
    return out
def done(eng, reg):
    from projectq.ops import All, Measure
    All(Measure) | list(reg)
    eng.flush()

from PyQCodes.device_adaptor import ProjectQDeviceAdaptor
np.random.seed(0)
diff = set()
for s in range(12):
    eng, reg = engine(3)
    for ph in ProjectQDeviceAdaptor(eng, reg).approximate_unitary_two_design(.5):
        diff.add(tuple(np.round(ph[:3], 3)))
    done(eng, reg)
assert len(diff) > 9
