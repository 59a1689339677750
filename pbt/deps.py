"""Makes `hypothesis` importable offline from the wheelhouse (no pip, no network)."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHEELS = "/opt/veriftools/wheels"
VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _wheels():
    tag = "cp%d%d" % sys.version_info[:2]
    pick = []
    for name in ("hypothesis-*%s-%s*.whl" % (tag, tag), "attrs-*.whl", "sortedcontainers-*.whl"):
        found = sorted(glob.glob(os.path.join(WHEELS, name)))
        if not found:
            return None
        pick.append(found[-1])
    return pick


def _unpack(target):
    wheels = _wheels()
    if wheels is None:
        return False
    parent = os.path.dirname(target)
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=parent)
    try:
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, target)
        except OSError:          # another process was faster
            shutil.rmtree(tmp, ignore_errors=True)
        return True
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        return False


def ensure():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    target = os.path.join(HERE, ".deps")
    if not os.path.isdir(os.path.join(target, "hypothesis")):
        try:
            _unpack(target)
        except OSError:
            pass
    if os.path.isdir(os.path.join(target, "hypothesis")):
        sys.path.append(target)
    elif os.path.isdir(VENV):
        sys.path.append(VENV)
    import hypothesis  # noqa: F401


if __name__ == "__main__":
    ensure()
    import hypothesis
    print("hypothesis", hypothesis.__version__, hypothesis.__file__)
