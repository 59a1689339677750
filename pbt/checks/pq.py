"""ProjectQ simulator registers for the checks of circuits."""
import contextlib
import io

import numpy as np

from pbt.core import Violation


class Reg:
    """A simulator with n qubits; states are vectors with the first qubit as slowest index."""

    def __init__(self, n, seed=1, default=False, flush=True):
        from projectq import MainEngine
        from projectq.backends import Simulator
        sim = Simulator(rnd_seed=(int(seed) % 1000003) + 1)
        with contextlib.redirect_stdout(io.StringIO()):
            self.eng = MainEngine(sim) if default else MainEngine(sim, engine_list=[])
        plain = sim.set_wavefunction

        def set_wavefunction(wavefunction, qureg):
            # The simulator reads past the end of a wave function of another length.
            size = 2 ** len(sim.cheat()[0])
            if len(qureg) and (len(wavefunction) != 2 ** len(qureg)
                               or len(wavefunction) != size):
                raise Violation("wave function of %d entries is set for %d of %d states" % (
                    len(wavefunction), 2 ** len(qureg), size))
            return plain(wavefunction, qureg)
        sim.set_wavefunction = set_wavefunction
        self.q = list(self.eng.allocate_qureg(n)) if n else []
        if flush:
            self.eng.flush()

    def __enter__(self):
        self.out = contextlib.redirect_stdout(io.StringIO())
        self.out.__enter__()
        return self

    def state(self, qubits=None):
        """Wave function over the qubits given (which must be all active ones)."""
        qubits = self.q if qubits is None else qubits
        self.eng.flush()
        where, vec = self.eng.backend.cheat()
        vec = np.array(vec)
        n = len(qubits)
        assert len(where) == n, "%d active qubits, %d expected" % (len(where), n)
        axes = [n - 1 - where[x.id] for x in qubits]
        return vec.reshape([2] * n).transpose(axes).ravel()

    def active(self):
        self.eng.flush()
        return len(self.eng.backend.cheat()[0])

    def set(self, vec, qubits=None):
        qubits = list(self.q if qubits is None else qubits)
        n = len(qubits)
        vec = np.asarray(vec, dtype=complex).reshape([2] * n)
        vec = vec.transpose(range(n - 1, -1, -1)).ravel()
        self.eng.flush()
        self.eng.backend.set_wavefunction(list(vec / np.linalg.norm(vec)), qubits)

    def __exit__(self, *exc):
        # Whatever is left in the simulator is measured, so that qubits can be released quietly.
        try:
            from projectq.ops import All, Measure
            qs = [x for x in self.eng.active_qubits]
            All(Measure) | qs
            self.eng.flush()
        except Exception:      # noqa: BLE001
            pass
        self.out.__exit__(None, None, None)
        return False


def basis_state(bits):
    v = np.zeros(2 ** len(bits), dtype=complex)
    v[int("".join(str(int(b)) for b in bits) or "0", 2)] = 1
    return v


def state_from_hex(h, n):
    from pbt import gen
    v = gen.cmat(h, 2 ** n, 1).ravel()
    if np.linalg.norm(v) < 1e-2:
        v = v + 0
        v[0] = 1.0
    return v / np.linalg.norm(v)


def fidelity(a, b):
    return abs(np.vdot(a, b)) ** 2
