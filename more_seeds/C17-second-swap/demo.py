import sys, os
sys.path.insert(0, os.getcwd())
import warnings; warnings.simplefilter("ignore")
import numpy as np
rng = np.random.RandomState(7)
def state(d):
    a = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    a = a @ a.conj().T
    return a / np.trace(a)
def kraus(d, D, k):
    a = rng.normal(size=(D * k, d)) + 1j * rng.normal(size=(D * k, d))
    q, _ = np.linalg.qr(a)
    return [q[i * D:(i + 1) * D] for i in range(k)]
def apply(ops, rho):
    return sum(k @ rho @ k.conj().T for k in ops)
def tensor(ops, n):
    out = ops
    for _ in range(n - 1):
        out = [np.kron(a, b) for a in out for b in ops]
    return out

from PyQCodes.codes import StabilizerCode
def comm(a, b):
    n = len(a) // 2
    return int(a[:n] @ b[n:] + a[n:] @ b[:n]) % 2
for stab in (["XXXX", "ZZII", "IIZZ"], ["XXXX", "ZIIZ", "ZZZZ"], ["XIXI", "IIIZ", "ZIZI"], ["XIIX", "IZII", "ZIIZ"], ["XIX", "ZIZ"], ["XIIX", "ZIIZ"]):
    n = len(stab[0])
    c = StabilizerCode(stab, n, n - len(stab))
    nf = c.normal_form.astype(int)
    for a in nf:
        for b in nf:
            assert comm(a, b) == 0, stab
