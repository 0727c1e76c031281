"""Whole programs: run the real translation on the recording JVM stand-in and look
at what it hands to Viper. Shared by the checks that state contracts about the
translation of programs."""
import contextlib
import glob
import io
import logging
import multiprocessing
import os
import shutil
import tempfile
import time
import warnings
import env

WORK = None


class Translated:
    """What one translation produced."""
    def __init__(self, modules, prog, chosen, out):
        self.modules, self.prog, self.chosen, self.out = modules, prog, chosen, out


def workdir():
    """One scratch folder per process: the type checker's cache of the library stubs stays in it."""
    global WORK
    if WORK is None:
        WORK = tempfile.mkdtemp(prefix='prog_', dir=os.environ.get('PROGRAMS_WORK'))
    return WORK


def setup():
    logging.disable(50)
    warnings.simplefilter('ignore')


def load(path):
    """The program, and the programs beside it that it needs (`# with: x.py`)."""
    fs = {os.path.basename(path): open(path).read()}
    for line in fs[os.path.basename(path)].splitlines():
        if line.startswith('# with: '):
            for n in line[8:].split():
                fs[n] = open(os.path.join(os.path.dirname(path), n)).read()
    return fs


def write(d, files):
    for f in glob.glob(os.path.join(d, '*.py')):
        if os.path.basename(f) not in files:
            os.unlink(f)
    for n, s in files.items():
        p = os.path.join(d, n)
        if not os.path.exists(p) or open(p).read() != s:
            with open(p, 'w') as f:
                f.write(s)


def translate(files, selected=None, d=None, **k):
    """Translate the first of the files (the others are there to be imported)."""
    import fakejvm
    import nagini_translation.main as M
    from nagini_translation.lib import config
    d = d or workdir()
    write(d, files)
    config.obligation_config._info.pop('disable_all', None)
    out = io.StringIO()
    cwd = os.getcwd()
    fakejvm.Chopper.last, fakejvm.Chopper.full = set(), None
    if selected is not None:
        k['selected'] = set(selected)
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            r = M.translate(os.path.join(d, next(iter(files))), fakejvm.install(), 8, base_dir=d, **k)
    finally:
        os.chdir(cwd)
    if r is None:
        raise Exception('not type correct: ' + out.getvalue()[:200])
    return Translated(r[0], fakejvm.Chopper.full or r[1], {str(x) for x in fakejvm.Chopper.last}, out.getvalue())


def lines(node):
    """(file, line) of all positions within a node of the recorded program."""
    s = set()
    for n in node.walk():
        p = n.pos()
        if getattr(p, 'line', None):
            s.add((os.path.basename(str(p.file())) if getattr(p, 'file', None) else '', p.line()))
    return s


def line(node):
    p = node.pos()
    if getattr(p, 'line', None):
        return (os.path.basename(str(p.file())) if getattr(p, 'file', None) else '', p.line())
    return None


def run_all(rep, jobs, fn, budget, procs=8):
    """fn(job) -> (name, [(obligation, detail)], {count: n}) in parallel. Returns (failures by obligation, counts, broken)."""
    failed, total, broken = {}, {}, []
    os.environ['PYTHONHASHSEED'] = '0'          # repeatable runs
    deadline = time.time() + budget
    os.environ['PROGRAMS_WORK'] = tempfile.mkdtemp(prefix='prog_all_')
    done = 0
    try:
        with multiprocessing.get_context('spawn').Pool(procs, initializer=setup) as pool:
            it = pool.imap_unordered(fn, jobs, chunksize=1)
            for _ in jobs:
                try:
                    name, out, counts = it.next(timeout=max(1, deadline - time.time()))
                except (TimeoutError, multiprocessing.TimeoutError):
                    rep.extra['programs not reached in time'] = len(jobs) - done
                    if not done:
                        rep.error('programs: nothing translated in time')
                    pool.terminate()
                    break
                done += 1
                for k, v in counts.items():
                    total[k] = total.get(k, 0) + v
                for lb, det in out:
                    if lb == 'translation':
                        broken.append((name, det['error']))
                    else:
                        failed.setdefault(lb, []).append((name, det))
    finally:
        shutil.rmtree(os.environ.pop('PROGRAMS_WORK'), ignore_errors=True)
    return failed, total, broken


def conclude(rep, what, obs, failed, total, broken, bound, njobs):
    """Record the outcome: a violation per failed obligation, a bounded result for the others."""
    for lb, ds in failed.items():
        name, det = ds[0]
        key = '%s/%s' % (what, lb)
        new = []
        for n, x in ds:
            k = rep.known_for('%s/%s' % (key, x.get('key', n))) or rep.known_for(key)
            if k:
                rep.hit_known(k)
            else:
                new.append((n, x))
        if new:
            name, det = new[0]
            rep.violation(what, lb, dict(det, what='%s: %s' % (name, det.get('what', '')), also=[n for n, _ in new[1:]]), replayed=True)
    rep.extra[what] = dict(total, untranslatable=broken, jobs=njobs)
    if njobs and len(broken) > max(2, njobs // 3):
        rep.error('most of the corpus is not translated: %s' % broken[:3])
    for lb in obs:
        if lb not in failed:
            rep.bounded_ok(what, lb, bound, total.get('cases', 0))
