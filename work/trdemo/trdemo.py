"""Translate Python texts with ./src into a recorded Viper program (no JVM)."""
import contextlib, io, logging, os, shutil, sys, tempfile, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import env  # noqa
logging.disable(50)
warnings.simplefilter('ignore')
import fakejvm


def translate(files, **kw):
    """files: text, or {name: text} whose first is the main one"""
    import nagini_translation.main as M
    if isinstance(files, str):
        files = {'prog.py': files}
    d = tempfile.mkdtemp(prefix='trdemo_')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        for n, s in files.items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(s)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            r = M.translate(os.path.join(d, next(iter(files))), fakejvm.install(), 8, base_dir=d, **kw)
        if r is None:
            raise SystemExit('not type correct: ' + buf.getvalue())
        return r[1]
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def names(files, **kw):
    import wfnames
    problems, _ = wfnames.check(translate(files, **kw))
    for p in problems:
        print(p)
    sys.exit(1 if problems else 0)
