"""Process set-up shared by all checks: real nagini from /repo/src, new z3."""
import os
import sys
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.insert(0, VT)
import z3  # noqa
sys.path.remove(VT)
SRC = os.path.join(REPO, 'src')
RES = os.path.join(SRC, 'nagini_translation', 'resources')
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != SRC]
sys.path.insert(0, SRC)
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.setrecursionlimit(20000)
os.environ.setdefault('PYTHONHASHSEED', '0')
z3.set_param('smt.random_seed', 0)
