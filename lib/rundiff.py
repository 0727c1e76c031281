"""Contracts of the translation, one per corpus function: for every value of its parameters
the Viper method the real translator produced does what the Python function does.

`check(rep, what, files, ...)` translates each corpus file from /repo's current source and
discharges the obligations of every function in it (lib/diff.py) path by path."""
import ast
import os
import time
import env
import px
import diff
import programs as P

CORPUS = os.path.join(env.VERIF, 'corpus', 'run')
OBS = ('preconditions are assumed as written', 'what fails in Python does not verify', 'what holds in Python is not rejected',
       'the same exit is taken', 'the same results', 'the translation does what Python does', 'the translation succeeds', 'what the translation does is determined')


TRUSTED = ['z3', 'CPython (the oracle: the corpus function itself, run on symbolic values)',
           'lib/fakejvm.py (stand-in for the JVM: records the translated program)',
           'lib/vrun.py (semantics of the recorded Viper program; calls of verified methods run their body, contracts are checked on the way)',
           'lib/pyref.py (semantics of the contract functions on the Python side)']
ASSUMPTIONS = ['the corpus stands for the programs of the property: each of its functions is decided for all values of its parameters, other programs are not looked at',
               'parameters are int, bool, Optional[int] (any integer) or str (two texts); loops of the corpus run a number of times fixed by the program',
               'machine arithmetic is not involved: Python and Viper integers are unbounded']


class Rep:
    """Collects what px.prove says about one function."""
    def __init__(self, prop):
        self.prop, self.extra, self.functions, self.out = prop, {}, set(), []

    def known_for(self, key):
        return None

    def violation(self, fn, lb, detail, replayed):
        self.out.append(('bad', lb, detail, 0))

    def proved(self, fn, lb, secs):
        self.out.append(('proved', lb, None, secs))

    def bounded_ok(self, fn, lb, bound, n):
        self.out.append(('bounded', lb, bound, n))


_LAST = {}


def translated(name):
    """One translation per process and file."""
    if name not in _LAST:
        _LAST.clear()
        path = os.path.join(CORPUS, name)
        src = open(path).read()
        _LAST[name] = (diff.Case(P.translate(P.load(path)), src, name[:-3]), src)
    return _LAST[name]


def job(spec):
    name, fns, limit, samples, budget = spec
    P.setup()
    try:
        case, src = translated(name)
    except Exception as e:
        import traceback
        return name, [(f, [('bad', 'the translation succeeds', {'what': '%s is not translated: %r' % (name, e), 'trace': traceback.format_exc()[-1500:]}, 0)], 0) for f in fns[:1]]
    out = []
    for d, params in case.entries():
        if d.name not in fns:
            continue
        r = Rep('')
        t = time.time()
        px.prove(r, d.name, diff.harness(case, case.tr.prog, d, params), limit=limit, samples=samples, budget=budget)
        for o in r.out:
            if o[0] == 'bad':
                o[2]['program'] = ast.get_source_segment(src, d)
        out.append((d.name, r.out, r.extra.get('paths', 0)))
    return name, out


def entries(name):
    """Names of the functions of a corpus file that are compared."""
    tree = ast.parse(open(os.path.join(CORPUS, name)).read())
    c = diff.Case.__new__(diff.Case)
    c.tree = tree
    return [d.name for d, _ in c.entries()]


def check(rep, files, thorough=False, budget=600, chunk=10):
    import multiprocessing
    import shutil
    import tempfile
    jobs = []
    for f in files:
        ns = entries(f)
        k = max(1, -(-len(ns) // chunk))
        for i in range(k):
            jobs.append((f, ns[i::k], 1500 if thorough else 300, 40 if thorough else 4, 90 if thorough else 20))
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PROGRAMS_WORK'] = tempfile.mkdtemp(prefix='rundiff_')
    deadline = time.time() + budget
    nfun, npath, nproved, nbound, bad, open_, done, sample = 0, 0, 0, 0, {}, {}, 0, []
    try:
        with multiprocessing.get_context('spawn').Pool(8, initializer=P.setup) as pool:
            it = pool.imap_unordered(job, jobs, chunksize=1)
            for _ in jobs:
                try:
                    name, out = it.next(timeout=max(1, deadline - time.time()))
                except multiprocessing.TimeoutError:
                    rep.extra['parts of the corpus not reached in time'] = len(jobs) - done
                    pool.terminate()
                    break
                done += 1
                for fn, res, paths in out:
                    nfun, npath = nfun + 1, npath + paths
                    what = '%s:%s' % (name[:-3], fn)
                    if len(sample) < 5:
                        sample.append('%s: %d paths, %s' % (what, paths, ', '.join('%s %s' % (r[1], r[0]) for r in res)))
                    if not res:
                        open_.setdefault('every obligation is decided', []).append((what, dict(what='nothing could be decided')))
                    for st, lb, det, n in res:
                        if st == 'bounded' and 'outside' in str(det):
                            open_.setdefault('every obligation is decided', []).append((what, dict(what='%s: %s' % (lb, det))))
                        elif st == 'bad':
                            bad.setdefault(lb, []).append((what, det))
                        elif st == 'proved':
                            nproved += 1
                            rep.proved(what, lb, n)
                        else:
                            nbound += 1
                            rep.bounded_ok(what, lb, det, n)
                            rep.functions.add(what)
    finally:
        shutil.rmtree(os.environ.pop('PROGRAMS_WORK'), ignore_errors=True)
    for lb, ds in sorted(bad.items()):
        new = []
        for what, det in ds:
            k = rep.known_for('%s/%s' % (what, lb))
            if k:
                rep.hit_known(k)
            else:
                new.append((what, det))
        if new:
            what, det = new[0]
            rep.violation(what, lb, dict(det, also=[w for w, _ in new[1:]]), replayed=True)
    for lb, ds in sorted(open_.items()):
        what, det = ds[0]
        rep.violation(what, lb, dict(det, also=[w for w, _ in ds[1:]]), replayed=False)
    rep.extra.update({'programs': nfun, 'disagreements_checked': npath, 'samples': sample, 'corpus': files,
                      'programs_proved_for_all_inputs': nproved, 'bounded_obligations': nbound})
    return nfun
