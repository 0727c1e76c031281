"""Translate a Python text with ./src, run the recorded Viper methods and the Python
functions side by side on symbolic arguments, and say where they differ."""
import ast, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import env  # noqa
import programs as P, diff, px, rundiff


def check(src, expect_differences=False):
    P.setup()
    d = tempfile.mkdtemp(prefix='rundemo_')
    os.environ['PROGRAMS_WORK'] = d
    os.chdir(d)
    rundiff.CORPUS = d
    with open(os.path.join(d, 'prog.py'), 'w') as f:
        f.write(src)
    bad = []
    try:
        _, out = rundiff.job(('prog.py', rundiff.entries('prog.py'), 300, 4, 20))
        for fn, res, _ in out:
            bad += [(fn, lb, det.get('what') or str(det)[:300]) for st, lb, det, n in res if st == 'bad']
        if not out:
            bad.append('nothing was compared')
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
    for b in bad:
        print(b)
    sys.exit(1 if bad else 0)
