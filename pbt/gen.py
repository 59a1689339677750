"""Generators.  Every strategy yields a JSON-able specification; build_* turns it into arrays.

Matrices come from byte strings (hypothesis shrinks bytes towards zero, i.e. towards sparse
matrices with small entries), so replay files contain the whole input.
"""
import functools
import json
import zlib

import numpy as np
from hypothesis import strategies as st

from pbt import ref

# ------------------------------------------------------------------------ raw matrices


def hexbytes(n):
    return st.binary(min_size=n, max_size=n).map(bytes.hex)


def floats_from_hex(h):
    b = np.frombuffer(bytes.fromhex(h), dtype=np.uint8).astype(int)
    return ((b >> 1) ^ -(b & 1)) / 16.0


def cmat(h, rows, cols):
    v = floats_from_hex(h)
    return (v[0::2] + 1j * v[1::2])[:rows * cols].reshape(rows, cols)


def cmat_hex(rows, cols):
    return hexbytes(2 * rows * cols)


def isometry_from(g):
    """Polar part of g; g with (near) linearly dependent columns is shifted first."""
    g = np.array(g, dtype=complex)
    r, c = g.shape
    eye = np.eye(r, c)
    for shift in (0, 1, 2, 4, 8, 16, 32, 64, 200, 1000):
        w, v = np.linalg.eigh(ref.dag(g + shift * eye) @ (g + shift * eye))
        if w[0] > 1e-3 * max(1.0, w[-1] * 1e-2):
            v = (g + shift * eye) @ (v * (1 / np.sqrt(w))) @ ref.dag(v)
            # Once more (Newton), so that it is an isometry to machine precision.
            return v @ (1.5 * np.eye(c) - 0.5 * ref.dag(v) @ v)
    return eye.astype(complex)


def unitary_from_hex(h, d):
    return isometry_from(cmat(h, d, d))


def weyl(d):
    shift = np.roll(np.eye(d), 1, axis=0).astype(complex)
    clock = np.diag(np.exp(2j * np.pi * np.arange(d) / d))
    return [np.linalg.matrix_power(shift, a) @ np.linalg.matrix_power(clock, b)
            for a in range(d) for b in range(d)]


# ------------------------------------------------------------------------ channels

def brief(case, given, documented):
    """Keyword arguments; in every other case those of the documented default are left out."""
    if zlib.crc32(json.dumps(case, sort_keys=True).encode()) & 1:
        return dict(given)
    return {k: v for k, v in given.items()
            if not (k in documented and type(v) is type(documented[k]) and v == documented[k])}


class Chan:
    def __init__(self, kraus, spec):
        self.kraus = [np.array(k) for k in kraus]
        self.nin, self.din, self.nout, self.dout = spec["dims"]
        self.d, self.D = self.din ** self.nin, self.dout ** self.nout
        self.orth = tuple(spec.get("orth", ()))
        self.numb_qubits = [self.nin, self.nout]
        assert all(k.shape == (self.D, self.d) for k in self.kraus)

    @property
    def K(self):
        return len(self.kraus)

    def make(self, sparse=False, container="list", orth=False):
        from PyQCodes.chan.channel import AnalyticQChan
        ops = contain(self.kraus, container, sparse)
        if not sparse and not orth and self.K % 2:      # the documented defaults
            return AnalyticQChan(ops, list(self.numb_qubits), self.din, self.dout)
        return AnalyticQChan(ops, list(self.numb_qubits), self.din, self.dout,
                             self.orth if orth else (), sparse)

    def make_kraus(self, sparse=False, container="list", orth=False):
        from PyQCodes.chan._kraus import DenseKraus, SparseKraus
        ops = contain(self.kraus, container, sparse)
        if self.din == self.dout == 2 and not orth and self.K % 2:     # the documented defaults
            return (SparseKraus if sparse else DenseKraus)(ops, list(self.numb_qubits))
        if sparse:
            return SparseKraus(ops, list(self.numb_qubits), self.din, self.dout)
        return DenseKraus(ops, list(self.numb_qubits), self.din, self.dout,
                          self.orth if orth else ())

    def make_choi(self):
        from PyQCodes.chan.channel import AnalyticQChan
        return AnalyticQChan(ref.choi(self.kraus), list(self.numb_qubits), self.din, self.dout)


def contain(kraus, container, sparse):
    """The ways a user can hand over Kraus operators."""
    if container == "list":
        return [np.array(k) for k in kraus]
    if container == "coo" and sparse:
        from sparse import COO
        return COO(np.array(kraus, dtype=np.complex128))
    if container == "real" and all(np.isrealobj(k) or np.all(np.imag(k) == 0) for k in kraus):
        return np.array([np.real(k) for k in kraus])
    if container == "reallist" and all(np.isrealobj(k) or np.all(np.imag(k) == 0)
                                       for k in kraus):
        return [np.array(np.real(k)) for k in kraus]
    return np.array(kraus)


CONTAINERS = ["list", "array", "real", "coo", "reallist"]


def factorings(d):
    """(number of particles, dimension of one) with product d."""
    return {2: [(1, 2)], 3: [(1, 3)], 4: [(2, 2), (1, 4)], 5: [(1, 5)], 6: [(1, 6)],
            7: [(1, 7)], 8: [(3, 2), (1, 8)], 9: [(2, 3), (1, 9)], 16: [(4, 2), (2, 4)]
            }.get(d, [(1, d)])


def _families(d, D):
    fams = ["rand", "rand", "real", "withzero", "dup", "tiny", "mixed"]
    if d * D <= 9:
        fams += ["replacer"]
    if D >= d:
        fams += ["iso"]
    if d == D:
        fams += ["weyl", "weyl", "dephase", "unitary", "ident", "perm"]
    if d == 2 and D == 2:
        fams += ["ad", "ad", "pauli", "bitflip", "gad"]
    if D == d + 1:
        fams += ["erasure", "erasure"]
    if (d, D) == (2, 3):
        fams += ["dephrasure"]
    if D >= 3:
        fams += ["directsum", "directsum", "directsum3"]
    return fams


@st.composite
def chan_spec(draw, dims=None, max_dim=4, max_kraus=4, same=False, fams=None, min_kraus=1):
    """A completely positive trace-preserving map."""
    if dims is None:
        pool = [2, 2, 2, 3, 4, 3, 4, 8, 5, 9]
        pool = [x for x in pool if x <= max_dim]
        d = draw(st.sampled_from(pool))
        D = d if same else draw(st.sampled_from(pool))
    else:
        d, D = dims
    spec = {"dims": list(draw(st.sampled_from(factorings(d))))
            + list(draw(st.sampled_from(factorings(D))))}
    if same:
        spec["dims"] = spec["dims"][:2] * 2
    avail = _families(d, D)
    if fams is not None:
        avail = [f for f in avail if f in fams] or ["rand"]
    fam = draw(st.sampled_from(avail))
    spec["fam"] = fam
    K = draw(st.integers(max(min_kraus, -(-d // D)), max(max_kraus, -(-d // D))))
    spec["K"] = K
    if fam in ("rand", "real", "withzero", "dup", "tiny", "mixed"):
        spec["m"] = draw(cmat_hex(K * D, d))
    if fam in ("unitary", "iso"):
        spec["m"] = draw(cmat_hex(D, d))
    if fam == "replacer":
        spec["m"] = draw(cmat_hex(D, D))
    if fam in ("weyl", "perm"):
        spec["ops"] = draw(st.lists(st.integers(0, d * d - 1), min_size=min(max(1, min_kraus), d * d),
                                    max_size=max(min_kraus, min(max_kraus, d * d)), unique=True))
        spec["p"] = draw(st.lists(st.integers(1, 15), min_size=len(spec["ops"]),
                                  max_size=len(spec["ops"])))
    if fam in ("ad", "gad", "pauli", "bitflip", "erasure", "dephrasure", "dephase", "tiny",
               "directsum", "directsum3"):
        spec["p"] = draw(st.lists(st.integers(0, 16), min_size=4, max_size=4))
    if fam == "directsum":
        D1 = draw(st.integers(1, D - 1))
        K1 = draw(st.integers(-(-d // D1), max(-(-d // D1), 2)))
        D2 = D - D1
        K2 = draw(st.integers(-(-d // D2), max(-(-d // D2), 2)))
        spec["parts"] = [[D1, K1], [D2, K2]]
    if fam == "directsum3":
        D1 = draw(st.integers(1, D - 2))
        D2 = draw(st.integers(1, D - 1 - D1))
        spec["parts"] = [[x, -(-d // x) + draw(st.integers(0, 1 if x == D1 else 0))]
                         for x in (D1, D2, D - D1 - D2)]
    if fam.startswith("directsum"):
        spec["m"] = draw(cmat_hex(sum(x * y for x, y in spec["parts"]), d))
        cuts = np.cumsum([y for _, y in spec["parts"]])[:-1]
        spec["orth"] = [int(c) for c in cuts]
    if fam == "erasure":
        spec["orth"] = [1]
    if fam == "dephrasure":
        spec["orth"] = [2]
    return spec


def _split(v, K, D):
    return [v[i * D:(i + 1) * D] for i in range(K)]


def build_chan(spec):
    nin, din, nout, dout = spec["dims"]
    d, D = din ** nin, dout ** nout
    fam, K = spec["fam"], spec["K"]
    p = [x / 16.0 for x in spec.get("p", ())]
    if fam in ("rand", "mixed"):
        ops = _split(isometry_from(cmat(spec["m"], K * D, d)), K, D)
        if fam == "mixed":
            ops = ops[:-1] + [ops[-1] * 1j]
    elif fam == "real":
        ops = [np.real(k) for k in _split(isometry_from(np.real(cmat(spec["m"], K * D, d))), K, D)]
    elif fam == "withzero":
        ops = _split(isometry_from(cmat(spec["m"], K * D, d)), K, D)
        ops = ops[:K // 2] + [np.zeros((D, d), dtype=complex)] + ops[K // 2:]
    elif fam == "dup":
        ops = _split(isometry_from(cmat(spec["m"], K * D, d)), K, D)
        ops = [ops[0] * np.sqrt(0.5), ops[0] * np.sqrt(0.5)] + ops[1:]
    elif fam == "tiny":
        eps = 10.0 ** (-1 - spec["p"][0] % 4)
        v = cmat(spec["m"], K * D, d)
        v[(K - 1) * D:] *= eps
        ops = _split(isometry_from(v), K, D)
    elif fam in ("unitary", "iso"):
        ops = [isometry_from(cmat(spec["m"], D, d))]
    elif fam == "ident":
        ops = [np.eye(d)]
    elif fam == "replacer":
        a = cmat(spec["m"], D, D)
        rho = a @ ref.dag(a) + 1e-2 * np.eye(D)
        s = ref.psd_sqrt(rho / np.trace(rho))
        ops = [np.outer(s[:, i], np.eye(d)[j]) for i in range(D) for j in range(d)]
    elif fam == "weyl":
        w = weyl(d)
        q = np.array(spec["p"], dtype=float) / sum(spec["p"])
        ops = [np.sqrt(x) * w[i] for x, i in zip(q, spec["ops"])]
    elif fam == "perm":
        w = [np.roll(np.eye(d), i, axis=0)[:, np.argsort([(j * 7 + i) % (d + 3) for j in range(d)],
                                                         kind="stable")]
             for i in range(d * d)]
        q = np.array(spec["p"], dtype=float) / sum(spec["p"])
        ops = [np.sqrt(x) * w[i] for x, i in zip(q, spec["ops"])]
    elif fam == "dephase":
        ops = [np.sqrt(1 - p[0]) * np.eye(d)] + [np.sqrt(p[0]) * np.outer(e, e) for e in np.eye(d)]
    elif fam == "bitflip":
        ops = [np.sqrt(1 - p[0]) * np.eye(2), np.sqrt(p[0]) * np.real(ref.PX)]
    elif fam == "ad":
        ops = [np.array([[1, 0], [0, np.sqrt(1 - p[0])]]), np.array([[0, np.sqrt(p[0])], [0, 0]])]
    elif fam == "gad":
        q = p[1]
        ops = [np.sqrt(q) * np.array([[1, 0], [0, np.sqrt(1 - p[0])]]),
               np.sqrt(q) * np.array([[0, np.sqrt(p[0])], [0, 0]]),
               np.sqrt(1 - q) * np.array([[np.sqrt(1 - p[0]), 0], [0, 1]]),
               np.sqrt(1 - q) * np.array([[0, 0], [np.sqrt(p[0]), 0]])]
    elif fam == "pauli":
        q = np.array([spec["p"][0] + 1] + spec["p"][1:], dtype=float)
        q /= q.sum()
        ops = [np.sqrt(x) * m for x, m in
               zip(q, [np.eye(2), ref.PX, 1j * ref.PX @ ref.PZ, ref.PZ])]
    elif fam == "erasure":
        emb = np.eye(d + 1, d)
        ops = [np.sqrt(1 - p[0]) * emb] + [np.sqrt(p[0]) * np.outer(np.eye(d + 1)[d], e)
                                          for e in np.eye(d)]
    elif fam == "dephrasure":
        z = np.array([[1., 0.], [0., -1.], [0., 0.]])
        ops = [np.sqrt((1 - p[0]) * (1 - p[1])) * np.eye(3, 2), np.sqrt((1 - p[0]) * p[1]) * z,
               np.sqrt(p[0]) * np.outer([0, 0, 1], [1, 0]),
               np.sqrt(p[0]) * np.outer([0, 0, 1], [0, 1])]
    elif fam.startswith("directsum"):
        parts = spec["parts"]
        w = np.array([spec["p"][i] + 1 for i in range(len(parts))], dtype=float)
        w = np.sqrt(w / w.sum())
        ops, used, row = [], 0, 0
        for (Dj, Kj), wj in zip(parts, w):
            h = spec["m"][4 * used * d:4 * (used + Dj * Kj) * d]
            for k in _split(isometry_from(cmat(h, Kj * Dj, d)), Kj, Dj):
                full = np.zeros((D, d), dtype=complex)
                full[row:row + Dj] = k * wj
                ops.append(full)
            used += Dj * Kj
            row += Dj
    else:
        raise ValueError(fam)
    return Chan(ops, spec)


def kraus_count(spec):
    return build_chan(spec).K


def max_n(K, d, D, cap=600, limit=4):
    """Largest number of uses that stays affordable."""
    n = 1
    while n < limit and (K * d) ** (n + 1) <= cap and (K * D) ** (n + 1) <= 2 * cap \
            and max(d, D) ** (n + 1) <= 32 and K ** (n + 1) <= 128:
        n += 1
    return n


# ------------------------------------------------------------------------ states

@st.composite
def state_spec(draw, d, fams=None):
    fam = draw(st.sampled_from(fams or ["rand", "rand", "rand", "pure", "basis", "mixed", "diag",
                                        "real", "lowrank", "nearpure"]))
    spec = {"fam": fam, "d": d}
    if fam in ("rand", "real", "nearpure"):
        spec["m"] = draw(cmat_hex(d, d))
    elif fam == "pure":
        spec["m"] = draw(cmat_hex(d, 1))
    elif fam == "lowrank":
        spec["r"] = draw(st.integers(1, d))
        spec["m"] = draw(cmat_hex(d, spec["r"]))
    elif fam == "basis":
        spec["i"] = draw(st.integers(0, d - 1))
    elif fam == "diag":
        spec["m"] = draw(hexbytes(d))
    return spec


def build_state(spec):
    d, fam = spec["d"], spec["fam"]
    if fam == "mixed":
        return np.eye(d) / d
    if fam == "basis":
        r = np.zeros((d, d))
        r[spec["i"], spec["i"]] = 1.0
        return r
    if fam == "diag":
        v = np.abs(floats_from_hex(spec["m"]))
        if v.sum() == 0:
            v[0] = 1.0
        return np.diag(v / v.sum())
    cols = {"pure": 1, "lowrank": spec.get("r")}.get(fam, d)
    a = cmat(spec["m"], d, cols)
    if fam == "real":
        a = np.real(a)
    if np.sum(np.abs(a) ** 2) < 1e-3:
        a = a + np.eye(d, cols)
    if fam == "nearpure":
        a = a * np.array([1.0] + [1e-3] * (d - 1))
        if np.sum(np.abs(a) ** 2) < 1e-3:
            a = a + np.eye(d, cols)
    r = a @ ref.dag(a)
    r = r / np.real(np.trace(r))
    return (r + ref.dag(r)) / 2


@st.composite
def matrix_spec(draw, rows, cols=None):
    """An arbitrary complex matrix (no structure)."""
    return {"r": rows, "c": cols or rows, "m": draw(cmat_hex(rows, cols or rows))}


def build_matrix(spec):
    return cmat(spec["m"], spec["r"], spec["c"])


# ------------------------------------------------------------------------ stabilizer codes

NAMED = {
    "bitflip3": (["ZZI", "ZIZ"], 3, 1), "phaseflip3": (["XXI", "XIX"], 3, 1),
    "bitflip5": (["ZZIII", "IZZII", "IIZZI", "IIIZZ"], 5, 1),
    "five": (["XZZXI", "IXZZX", "XIXZZ", "ZXIXZ"], 5, 1),
    "four22": (["XXXX", "ZZZZ"], 4, 2),
    "steane": (["IIIXXXX", "IXXIIXX", "XIXIXIX", "IIIZZZZ", "IZZIIZZ", "ZIZIZIZ"], 7, 1),
    "shor": (["ZZIIIIIII", "IZZIIIIII", "IIIZZIIII", "IIIIZZIII", "IIIIIIZZI", "IIIIIIIZZ",
              "XXXXXXIII", "IIIXXXXXX"], 9, 1),
    "two": (["ZZ"], 2, 1), "twox": (["XX"], 2, 1), "three2": (["ZZZ"], 3, 2),
    "yy": (["YY"], 2, 1), "four1": (["XXXX", "ZZII", "IIZZ"], 4, 1),
    "six4": (["XXXXXX", "ZZZZZZ"], 6, 4),
    "eight3": (["XXXXXXXX", "ZZZZZZZZ", "IXIXYZYZ", "IXZYIXZY", "IYXZXZIY"], 8, 3),
}


@st.composite
def code_spec(draw, min_n=2, max_n=5, max_k=None, min_k=1, gates=("H", "CX", "CZ"), named=None,
              max_gates=14, css=False):
    """A code made by Clifford gates from Z_1..Z_{n-k}; every generator has an even number of Y
    unless "S" is among the gates."""
    if named and draw(st.integers(0, 5)) == 0:
        names = [m for m in named if m in NAMED]
        return {"named": draw(st.sampled_from(names))}
    n = draw(st.integers(min_n, max_n))
    k = draw(st.integers(min_k, min(n - 1, max_k or n - 1)))
    one = st.tuples(st.sampled_from([g for g in gates if g in ("H", "S")] or ["H"]),
                    st.integers(0, n - 1))
    two = st.tuples(st.sampled_from([g for g in gates if g in ("CX", "CZ")]),
                    st.integers(0, n - 1), st.integers(0, n - 1))
    least = draw(st.sampled_from([max_gates // 2, max_gates - 2, 0]))
    gl = draw(st.lists(st.one_of(two, one), min_size=least, max_size=max_gates))
    rows = draw(st.lists(st.tuples(st.integers(0, n - k - 1), st.integers(0, n - k - 1)),
                         max_size=4))
    spec = {"n": n, "k": k, "gates": [list(g) for g in gl], "rows": [list(r) for r in rows]}
    if css:
        spec["hs"] = draw(st.lists(st.integers(0, 1), min_size=n, max_size=n))
    return spec


def code_rows(spec):
    """(generator rows, n, k)"""
    if "named" in spec:
        paulis, n, k = NAMED[spec["named"]]
        return np.array([ref.str_row(p) for p in paulis]), n, k
    n, k = spec["n"], spec["k"]
    m = np.zeros((n - k, 2 * n), dtype=int)
    for i in range(n - k):
        m[i, n + i] = 1
    if "hs" in spec:
        # CSS: the Hadamards come first, CX keeps X-type and Z-type generators apart.
        m = ref.clifford_rows(m, [["H", i] for i in range(n) if spec["hs"][i]])
    m = ref.clifford_rows(m, spec["gates"])
    for a, b in spec["rows"]:
        if a != b and (("hs" not in spec) or bool(m[a][:n].any()) == bool(m[b][:n].any())):
            m[a] = (m[a] + m[b]) % 2
    return m, n, k


CODE_INPUTS = ["strings", "array", "lists", "floats"]


def code_input(rows, how):
    rows = np.array(rows, dtype=int)
    if how == "strings":
        return [ref.pauli_str(r) for r in rows]
    if how == "lists":
        return [[int(x) for x in r] for r in rows]
    if how == "floats":
        return rows.astype(float)
    return rows


def make_code(spec, how="array"):
    from PyQCodes.codes import StabilizerCode
    rows, n, k = code_rows(spec)
    return StabilizerCode(code_input(rows, how), n, k), rows, n, k


def bits(n):
    return st.lists(st.integers(0, 1), min_size=n, max_size=n)


def pauli_row(n):
    return st.lists(st.integers(0, 1), min_size=2 * n, max_size=2 * n)


def memo(f):
    return functools.lru_cache(maxsize=None)(f)
