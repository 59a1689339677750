"""Reference models (oracles).  Only numpy; nothing here imports the code under test."""
import itertools

import numpy as np

# ------------------------------------------------------------------ quantum channels


def dag(a):
    return np.conj(np.swapaxes(np.asarray(a), -1, -2))


def tensor_power(kraus, n):
    """Kraus operators of the n-fold tensor product, first factor slowest."""
    out = [np.eye(1, dtype=complex)]
    for _ in range(n):
        out = [np.kron(a, b) for a in out for b in kraus]
    return out


def apply_kraus(kraus, rho):
    return sum(k @ rho @ dag(k) for k in kraus)


def apply_adjoint(kraus, y):
    return sum(dag(k) @ y @ k for k in kraus)


def complementary(kraus, rho):
    m = len(kraus)
    w = np.zeros((m, m), dtype=complex)
    for i in range(m):
        kr = kraus[i] @ rho
        for j in range(m):
            w[i, j] = np.sum(kr * np.conj(kraus[j]))
    return w


def complementary_adjoint(kraus, y):
    m = len(kraus)
    return sum(y[i, j] * dag(kraus[i]) @ kraus[j] for i in range(m) for j in range(m))


def choi(kraus):
    """(I x Phi)(sum |i><j| x |i><j|), input system first."""
    vecs = [np.ravel(k, order="F") for k in kraus]
    return sum(np.outer(v, np.conj(v)) for v in vecs)


def eigs(h):
    return np.linalg.eigvalsh((h + dag(h)) / 2)


def entropy(h):
    e = eigs(h)
    e = e[e > 1e-12]
    return float(-np.sum(e * np.log2(e)))


def psd_sqrt(h):
    w, v = np.linalg.eigh((h + dag(h)) / 2)
    return (v * np.sqrt(np.clip(w, 0, None))) @ dag(v)


def fidelity(a, b):
    """Root fidelity Tr sqrt(sqrt(a) b sqrt(a)) = || sqrt(a) sqrt(b) ||_1."""
    return float(np.sum(np.linalg.svd(psd_sqrt(a) @ psd_sqrt(b), compute_uv=False)))


def coherent_information(kraus, rho):
    return entropy(apply_kraus(kraus, rho)) - entropy(complementary(kraus, rho))


def entanglement_fidelity(kraus, rho):
    return float(sum(abs(np.trace(k @ rho)) ** 2 for k in kraus))


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def is_state(rho, tol=1e-7):
    rho = np.asarray(rho)
    return (rho.ndim == 2 and rho.shape[0] == rho.shape[1] and np.all(np.isfinite(rho))
            and close(rho, dag(rho), tol) and abs(np.trace(rho) - 1) < tol
            and eigs(rho)[0] > -tol)


# ------------------------------------------------------------------ binary Pauli algebra
# A Pauli is a 0/1 vector (x|z) of length 2n.  The library's matrix convention is
# Y := X.Z (a real matrix), so a row (x|z) stands for X^x Z^z on every qubit.

PX = np.array([[0, 1], [1, 0]], dtype=complex)
PZ = np.array([[1, 0], [0, -1]], dtype=complex)
PI = np.eye(2, dtype=complex)
PXZ = PX @ PZ


def symp(a, b):
    n = len(a) // 2
    return int(np.dot(a[:n], b[n:]) + np.dot(a[n:], b[:n])) % 2


def ints(m):
    return np.array(np.rint(np.real(np.asarray(m))), dtype=int)


def pauli_str(row):
    n = len(row) // 2
    return "".join("IXZY"[int(row[i]) + 2 * int(row[n + i])] for i in range(n))


def str_row(s):
    n = len(s)
    r = np.zeros(2 * n, dtype=int)
    for i, c in enumerate(s):
        r[i] = c in "XY"
        r[n + i] = c in "ZY"
    return r


def pauli_mat(row):
    """X^x Z^z on every qubit, first qubit is the slowest index."""
    n = len(row) // 2
    m = np.eye(1, dtype=complex)
    for i in range(n):
        f = PI
        if row[i]:
            f = f @ PX
        if row[n + i]:
            f = f @ PZ
        m = np.kron(m, f)
    return m


def numb_y(row):
    n = len(row) // 2
    return int(np.sum(np.asarray(row[:n]) * np.asarray(row[n:])))


def rref(m):
    m = np.array(m, dtype=int) % 2
    rank = 0
    for j in range(m.shape[1]):
        piv = [i for i in range(rank, m.shape[0]) if m[i, j]]
        if not piv:
            continue
        m[[rank, piv[0]]] = m[[piv[0], rank]]
        for i in range(m.shape[0]):
            if i != rank and m[i, j]:
                m[i] = (m[i] + m[rank]) % 2
        rank += 1
    return m[:rank]


def gf2_rank(m):
    return len(rref(m)) if np.size(m) else 0


def same_span(a, b):
    ra, rb = rref(a), rref(b)
    return ra.shape == rb.shape and bool(np.all(ra == rb))


def in_span(v, m):
    return gf2_rank(np.vstack((m, v))) == gf2_rank(m)


def span(m):
    m = np.array(m, dtype=int)
    for c in itertools.product([0, 1], repeat=len(m)):
        yield np.array(c) @ m % 2


def permute_row(row, perm):
    """Row of the permuted register: position i of the result is position perm[i]."""
    n = len(row) // 2
    p = list(perm)
    return np.concatenate((np.asarray(row)[p], np.asarray(row)[[n + q for q in p]]))


def permute_rows(m, perm):
    return np.array([permute_row(r, perm) for r in m])


# Symplectic action of Clifford gates on rows.
def clifford_rows(rows, gates):
    rows = np.array(rows, dtype=int)
    n = rows.shape[1] // 2
    for g in gates:
        name, a = g[0], g[1] % n
        b = g[2] % n if len(g) > 2 else a
        if name == "H":
            rows[:, [a, n + a]] = rows[:, [n + a, a]]
        elif name == "S":
            rows[:, n + a] ^= rows[:, a]
        elif a == b:
            continue
        elif name == "CX":
            rows[:, b] ^= rows[:, a]
            rows[:, n + a] ^= rows[:, n + b]
        elif name == "CZ":
            rows[:, n + a] ^= rows[:, b]
            rows[:, n + b] ^= rows[:, a]
        else:
            raise ValueError(name)
    return rows


def projector(rows):
    """Projector on the joint +1 eigenspace of the matrices X^x Z^z of the rows."""
    dim = 2 ** (len(rows[0]) // 2)
    p = np.eye(dim, dtype=complex)
    for r in rows:
        p = p @ (np.eye(dim) + pauli_mat(r)) / 2
    return p


def gf2_null(m):
    """Basis of the vectors v with m v = 0 (mod 2)."""
    m = rref(m)
    cols = m.shape[1]
    piv = [int(np.flatnonzero(r)[0]) for r in m]
    out = []
    for f in range(cols):
        if f in piv:
            continue
        v = np.zeros(cols, dtype=int)
        v[f] = 1
        for r, c in zip(m, piv):
            v[c] = r[f]
        out.append(v)
    return np.array(out, dtype=int).reshape(-1, cols)


def centralizer(rows):
    """Basis of all Paulis that commute with the rows."""
    n = rows.shape[1] // 2
    return gf2_null(np.hstack((rows[:, n:], rows[:, :n])))


def logicals(rows):
    """Logical X and Z operators of a stabilizer group (symplectic Gram-Schmidt)."""
    pool = [v for v in centralizer(rows)]
    xs, zs = [], []
    while pool:
        a = pool.pop(0)
        j = next((j for j, b in enumerate(pool) if symp(a, b)), None)
        if j is None:
            continue                       # in the stabilizer group (times nothing)
        b = pool.pop(j)
        xs.append(a)
        zs.append(b)
        pool = [(v + symp(v, b) * a + symp(v, a) * b) % 2 for v in pool]
    return np.array(xs), np.array(zs)
