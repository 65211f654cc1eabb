"""Environment: where the code under test is, and the solver bindings.

VERIF_REPO is only for development (running against a scratch copy); the registered
commands leave it unset, so they always read /repo's working tree.
"""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1"))

os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
warnings.filterwarnings("ignore")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)       # z3 only; everything else resolves in /opt/venv first
