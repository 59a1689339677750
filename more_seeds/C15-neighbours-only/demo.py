import sys, os
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter("ignore")
import numpy as np
rng = np.random.RandomState(7)
def state(d):
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    a = a @ a.conj().T
    return a / np.trace(a)
def kraus(d, D, k):
    a = rng.normal(size=(D * k, d)) + 1j * rng.normal(size=(D * k, d))
    q, _ = np.linalg.qr(a)
    return [q[i * D:(i + 1) * D] for i in range(k)]
def apply(ops, rho):
    return sum(k @ rho @ k.conj().T for k in ops)
def tensor(ops, n):
    out = ops
    for _ in range(n - 1):
        out = [np.kron(a, b) for a in out for b in ops]
    return out

from PyQCodes.codes import StabilizerCode
try:
    StabilizerCode(["ZIII", "IIZI", "XIII"], 4, 1)
except AssertionError:
    sys.exit(0)
sys.exit(1)
