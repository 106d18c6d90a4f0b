"""pyvc: verification-condition generation for the real Python functions of /repo."""
import os, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
