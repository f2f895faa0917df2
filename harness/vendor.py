"""Make Hypothesis (and mpmath) importable in the repository's interpreter, offline."""

import glob
import os
import sys
import zipfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENDOR = os.path.join(HERE, ".vendor")
WHEELS = "/opt/veriftools/wheels"
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NEEDED = ["hypothesis", "sortedcontainers", "mpmath"]


def ensure():
    """Unpack the wheels once; put them at the end of sys.path."""
    if not os.path.isdir(os.path.join(VENDOR, "hypothesis")):
        tmp = VENDOR + f".{os.getpid()}"
        try:
            os.makedirs(tmp, exist_ok=True)
            for name in NEEDED:
                wheels = sorted(glob.glob(os.path.join(WHEELS, f"{name}-*.whl")))
                chosen = [w for w in wheels if "cp312" in w or "none-any" in w]
                with zipfile.ZipFile((chosen or wheels)[-1]) as zf:
                    zf.extractall(tmp)
            try:
                os.rename(tmp, VENDOR)
            except OSError:
                import shutil

                shutil.rmtree(tmp, ignore_errors=True)
        except Exception as exc:  # fall back to the tooling environment
            print(f"note: could not unpack wheels ({exc})", file=sys.stderr)
    for path in (VENDOR, PYVENV):
        if os.path.isdir(path) and path not in sys.path:
            sys.path.append(path)


if __name__ == "__main__":
    ensure()
    import hypothesis
    import mpmath

    print("hypothesis", hypothesis.__version__, "mpmath", mpmath.__version__)
