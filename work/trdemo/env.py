import os, sys
sys.dont_write_bytecode = True
SRC = os.path.join(os.getcwd(), 'src')
REPO = os.getcwd()
RES = os.path.join(SRC, 'nagini_translation', 'resources')
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, SRC)
sys.setrecursionlimit(20000)
