"""C15: distinct program entities get distinct Viper names."""
import ast
import contextlib
import importlib
import io
import itertools
import os
import multiprocessing
import random
import shutil
import sys
import tempfile
import time
import traceback
import env
import px
from px import prove, target, Missing, PathInfeasible

LEVEL = 'proof'
TRUSTED = ['z3 (strings and arrays)', 'CPython', 'lib/fakejvm.py (stand-in for the JVM: records the translated program)', 'ast.unparse']
ASSUMPTIONS = ['the loop of get_fresh_name ends (the set of used names is finite)',
               'whole programs are checked on a fixed corpus under sampled renamings (bounded)',
               'Viper resolves a name to the declaration of that name in its scope']
MIN = 6
PN = 'nagini_translation.lib.program_nodes'
CORPUS = os.path.join(env.VERIF, 'corpus', 'names')


def scopes(c, used):
    """A scope and the one that owns the names, with arbitrary names in use."""
    Scope = target(PN, 'PythonScope')
    top = Scope(used, None)
    s = top
    for _ in range(c.choice('scopes between the entity and its names', [0, 1, 2])):
        s = Scope(None, s)
    return top, s


def fresh(rep):
    def h(c):
        Scope = target(PN, 'PythonScope')
        target(PN, 'PythonScope.get_fresh_name')
        used = c.names('names in use')
        before = px.NameSet(used.a) if not c.conc else set(used)
        top, s = scopes(c, used)
        name, other = c.name('requested name'), c.name('some other name')
        got = c.run('get_fresh_name', c.loop_free(Scope.get_fresh_name), s, name)
        if c.conc:
            c.ensure(isinstance(got, str) and got not in before, 'the name was not in use', got=got, used=sorted(before))
            c.ensure(got in top.sil_names, 'the name is in use afterwards', got=got)
            c.ensure(before <= top.sil_names, 'names in use stay in use', used=sorted(before), now=sorted(top.sil_names))
            c.ensure(name in before or got == name, 'a free name is given as requested', got=got, name=name)
            c.ensure(got.startswith(name), 'the requested name is recognisable', got=got, name=name)
            return
        z3 = px.z3
        g, n, o = c.string(got), c.string(name), c.string(other)
        c.ensure(z3.Not(z3.Select(before.a, g)), 'the name was not in use')
        c.ensure(z3.Select(top.sil_names.a, g), 'the name is in use afterwards')
        c.ensure(z3.Implies(z3.Select(before.a, o), z3.Select(top.sil_names.a, o)), 'names in use stay in use')
    prove(rep, 'PythonScope.get_fresh_name', h, samples=400)

    def h(c):
        """Requests from any scope that shares the names never get the same."""
        used = c.names('names in use')
        before = set(used) if c.conc else px.NameSet(used.a)
        top, s = scopes(c, used)
        Scope = target(PN, 'PythonScope')
        s2 = c.choice('second scope', ['same', 'owner', 'sibling'])
        s2 = s if s2 == 'same' else top if s2 == 'owner' else Scope(None, top)
        n1, n2 = c.name('first name'), c.name('second name')
        f = c.loop_free(Scope.get_fresh_name)
        a = c.run('get_fresh_name', f, s, n1)
        b = c.run('get_fresh_name', f, s2, n2)
        if c.conc:
            c.ensure(a != b, 'two requests get different names', first=a, second=b)
        else:
            c.ensure(c.string(a) != c.string(b), 'two requests get different names')
    prove(rep, 'PythonScope.get_fresh_name (two requests)', h, samples=400)

    def h(c):
        """All histories of three requests over a small universe of names."""
        Scope = target(PN, 'PythonScope')
        uni = ['a', 'a_0', 'a_1', 'a_0_0']
        top = Scope({n for n in uni if c.bool(n + ' in use')}, None)
        given = set(top.sil_names)
        for i in range(3):
            s = Scope(None, top) if c.choice('scope %d' % i, [0, 1]) else top
            got = c.run('get_fresh_name', s.get_fresh_name, c.choice('request %d' % i, ['a', 'a_0']))
            c.ensure(got not in given, 'every request gets a name not given before', got=got, given=sorted(given))
            given.add(got)
        c.ensure(given <= set(top.sil_names), 'all given names are in use')
    prove(rep, 'PythonScope.get_fresh_name (histories)', h, samples=0, limit=6000,
          bounded='all histories of 3 requests from 2 names with any of 4 names in use')

    def h(c):
        """A scope with names of its own does not see or change those of others."""
        Scope = target(PN, 'PythonScope')
        outer = c.names('outer names')
        inner = c.names('inner names')
        top = Scope(outer, None)
        s = Scope(inner, top)
        before = set(outer) if c.conc else px.NameSet(outer.a)
        got = c.run('get_fresh_name', c.loop_free(Scope.get_fresh_name), s, c.name('requested name'))
        if c.conc:
            c.ensure(top.sil_names == before, 'the outer names are unchanged')
        else:
            x = px.z3.String('any name')
            c.ensure(px.z3.Select(before.a, x) == px.z3.Select(top.sil_names.a, x), 'the outer names are unchanged')
    prove(rep, 'PythonScope.get_fresh_name (own names)', h, samples=400)


def strings(rep):
    def h(c):
        """Attribute and module names are encoded as integers: injective."""
        U = importlib.import_module('nagini_translation.lib.util')
        f = target('nagini_translation.lib.util', 'string_to_int')
        a, b = c.choice('lengths', [(0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (1, 4), (4, 4)])
        xs = [c.int('x%d' % i, 1, 0x10ffff) for i in range(a)]
        ys = [c.int('y%d' % i, 1, 0x10ffff) for i in range(b)]
        if c.conc:
            for v in xs + ys:
                c.assume(not 0xd800 <= v < 0xe000)
            sx, sy = ''.join(map(chr, xs)), ''.join(map(chr, ys))
            c.ensure((f(sx) == f(sy)) == (sx == sy), 'different texts have different codes', first=sx, second=sy)
            return
        c.patch(U, 'ord', lambda ch: ch)
        kx, ky = c.run('string_to_int', f, xs), c.run('string_to_int', f, ys)
        z3 = px.z3
        if a != b:
            c.ensure(px.t(kx) != px.t(ky), 'different texts have different codes')
        else:
            c.ensure(z3.Implies(px.t(kx) == px.t(ky), z3.And(*[px.t(x) == px.t(y) for x, y in zip(xs, ys)])),
                     'different texts have different codes')
    prove(rep, 'util.string_to_int', h, samples=300, bounded='texts of at most 4 characters, all characters symbolic')


# ----------------------------------------------------------- whole programs
def load(path):
    fs = {os.path.basename(path): open(path).read()}
    if 'two_a' in path:
        fs['two_b.py'] = open(path.replace('two_a', 'two_b')).read()
    return fs


def translate(d, files):
    import fakejvm
    import nagini_translation.main as M
    from nagini_translation.lib import config
    for n, s in files.items():
        with open(os.path.join(d, n), 'w') as f:
            f.write(s)
    config.obligation_config._info.pop('disable_all', None)
    err = io.StringIO()
    with contextlib.redirect_stdout(err), contextlib.redirect_stderr(err):
        r = M.translate(os.path.join(d, next(iter(files))), fakejvm.install(), 8, base_dir=d)
    if r is None:
        raise Exception('not type correct: ' + err.getvalue()[:200])
    return r[1]


def user_names(prog):
    import alpha
    import wfnames
    user, glob_ = set(), set()
    for k in ('methods', 'functions', 'predicates'):
        for m in wfnames.items(getattr(prog, k)()):
            if not getattr(m.pos(), 'line', None):
                continue
            glob_.add(m.name())
            for n in m.walk():
                if wfnames.kind(n) in alpha.LOCAL:
                    user.add(n.f(alpha.LOCAL[wfnames.kind(n)]))
    return user, glob_ | set(wfnames.global_names(prog))


WORK = None


def workdir():
    """One scratch folder per process: the type checker's cache of the library stubs stays in it."""
    global WORK
    if WORK is None:
        WORK = tempfile.mkdtemp(prefix='c15_', dir=os.environ.get('C15_WORK'))
    return WORK


def persistent(d, orig, new):
    """Whether translations of orig always correspond to each other, and never to ones of new."""
    import alpha
    ps, qs = [translate(d, orig) for _ in range(4)], [translate(d, new) for _ in range(4)]
    return not any(alpha.differences(ps[0], x)[0] for x in ps[1:]) and all(alpha.differences(x, y)[0] for x in ps for y in qs)


def local_counts(prog):
    import wfnames
    return {m.name(): sum(1 for n in m.walk() if wfnames.kind(n) == 'LocalVarDecl') for m in wfnames.items(prog.methods())
            if getattr(m.pos(), 'line', None)}


def one_program(job):
    """(program, list of (obligation, detail), counts)"""
    import logging
    import warnings
    logging.disable(50)
    warnings.simplefilter('ignore')
    import alpha
    import renaming as R
    import wfnames
    path, seed, rounds = job
    d = workdir()
    cwd = os.getcwd()
    out, counts = [], {'translated': 0, 'refused': 0, 'uses': 0, 'members': 0, 'left_out': 0, 'extended': 0, 'locals': 0, 'refused extensions': 0}
    try:
        os.chdir(d)
        fs = load(path)
        name = os.path.basename(path)
        orig = {n: R.rename(s, {}) for n, s in fs.items()}
        try:
            p = translate(d, orig)
        except Exception as e:
            return name, [('translation', {'error': repr(e)[:300]})], counts
        problems, n = wfnames.check(p)
        counts['translated'] += 1
        counts['uses'] += n['use']
        for x in problems[:3]:
            out.append((x[0], {'name': x[1], 'where': x[2], 'program': orig}))
        ids = sorted(R.defined([R.parse(s) for s in fs.values()]))
        user, glob_ = user_names(p)
        kw = ['inhale', 'exhale', 'method', 'domain', 'axiom', 'old', 'perm', 'field', 'var', 'fold', 'requires', 'forall', 'goto', 'label',
              'write', 'wildcard', 'null', 'true', 'define', 'package', 'unique', 'apply', 'let', 'acc', 'union', 'subset']
        under = any('NamedTuple' in s for s in fs.values())
        ok = lambda x: R.usable(x) and not (under and x.startswith('_'))
        near = sorted(x for x in user if ok(x))
        far = sorted(x for x in glob_ | set(kw) | {i + s for i in ids for s in ('_0', '_basic', '_arg', '_getter', '__box__')} if ok(x))
        shifts = range(len(R.NEW)) if rounds > 9 else ([0, 2] if rounds else [0])
        have = R.identifiers([R.parse(x) for x in fs.values()])
        free = lambda xs: sorted(x for x in xs if ok(x) and x not in have)
        main = next(iter(fs))
        ext = [('globals', R.extend_globals(fs[main], free(glob_), k)) for k in shifts]
        ext += [('members', R.extend_members(fs[main], free(glob_))), ('locals', R.extend_locals(fs[main], free(user)))]
        for k, text in ext:
            if text is None:
                continue
            new = dict(fs, **{main: text})
            try:
                q = translate(d, new)
            except Exception as e:
                counts['refused extensions'] += 1
                if os.environ.get('C15_DEBUG'):
                    print(name, k, repr(e)[:200])
                continue
            counts['translated'] += 1
            counts['extended'] += 1
            problems, n = wfnames.check(q)
            counts['uses'] += n['use']
            for x in problems[:3]:
                out.append((x[0], {'name': x[1], 'where': x[2], 'program': new}))
            if k == 'locals':
                before, after = local_counts(p), local_counts(q)
                for f, extra in R.added_locals(text, free(user)):
                    for m in [f] if f in before and f in after else []:
                        counts['locals'] += extra
                        if after[m] < before[m] + extra:
                            out.append(('a variable of its own for every local variable', {
                                'name': '%d variables, and %d with %d more in the program' % (before[m], after[m], extra),
                                'where': 'Method ' + m, 'program': new}))
        if out:
            return name, out, counts
        rng = random.Random('%s %s' % (name, seed))
        for i in range(rounds):
            tgt = set()
            while len(tgt) < len(ids):
                tgt.add(rng.choice(near) if near and rng.random() < .55 and len(tgt & set(near)) < len(near) else rng.choice(far))
            tgt = sorted(tgt)
            if i % 3:
                rng.shuffle(tgt)
            m = dict(zip(ids, tgt))
            new = {n_: R.rename(s, m) for n_, s in fs.items()}
            try:
                q = translate(d, new)
            except Exception:
                counts['refused'] += 1
                continue
            counts['translated'] += 1
            problems, n = wfnames.check(q)
            counts['uses'] += n['use']
            for x in problems[:3]:
                out.append((x[0], {'name': x[1], 'where': x[2], 'program': new, 'renaming': m}))
            if i % 3 == 0:          # order preserving: sorting by name changes nothing
                bad, k, left = alpha.differences(p, q)
                if bad and ('Union' in orig[main] or not persistent(d, orig, new)):
                    bad = []            # the order of the classes of a union is not determined
                for x in bad[:2]:
                    out.append((x[0], {'names': x[1], 'where': x[2], 'program': new, 'renaming': m}))
            if out:
                break
    finally:
        os.chdir(cwd)
        for f in os.listdir(d):
            if f.endswith('.py'):
                os.unlink(os.path.join(d, f))
    return name, out, counts


OBS = ('duplicate declaration', 'Viper keyword as a name', 'use of an undeclared variable', 'variable used with another type',
       'use of an undeclared label', 'call of an undeclared method', 'call with another number of arguments', 'call of an undeclared function',
       'call of an undeclared domain function', 'use of an undeclared predicate', 'access of an undeclared field',
       'field used with another type', 'names do not correspond', 'a variable of its own for every local variable')


def programs(rep, thorough):
    from multiprocessing import get_context
    import glob
    files = sorted(f for f in glob.glob(os.path.join(CORPUS, '*.py')) if not f.endswith('two_b.py'))
    rounds = 40 if thorough else 2
    jobs = [(f, px.SEED, rounds) for f in sorted(files, key=os.path.getsize, reverse=True)]
    failed, total, broken = {}, {}, []
    # other hash seeds must not matter, but a fixed one makes runs repeatable
    os.environ['PYTHONHASHSEED'] = '0'
    deadline = time.time() + (2400 if thorough else 420)
    os.environ['C15_WORK'] = tempfile.mkdtemp(prefix='c15_all_')
    with get_context('spawn').Pool(8) as pool:
        it = pool.imap_unordered(one_program, jobs, chunksize=1)
        for _ in jobs:
            try:
                name, out, counts = it.next(timeout=max(1, deadline - time.time()))
            except (TimeoutError, multiprocessing.TimeoutError):
                rep.extra['programs not reached in time'] = True
                if not total:
                    rep.error('programs: nothing translated in time')
                pool.terminate()
                break
            for k, v in counts.items():
                total[k] = total.get(k, 0) + v
            for lb, det in out:
                if lb == 'translation':
                    broken.append((name, det['error']))
                else:
                    failed.setdefault(lb, []).append((name, det))
    shutil.rmtree(os.environ.pop('C15_WORK'), ignore_errors=True)
    rep.extra['programs'] = dict(total, corpus=len(files), renamings_each=rounds, untranslatable=broken)
    for lb, ds in failed.items():
        name, det = ds[0]
        rep.violation('translated programs', lb, dict(det, what='%s: %s in %s' % (name, det.get('name', det.get('names')), det['where']),
                                                      also=[d[0] for d in ds[1:]]), replayed=True)
    if len(broken) > len(files) // 3:
        rep.error('most of the corpus is not translated: %s' % broken[:3])
    for lb in OBS:
        if lb not in failed:
            rep.bounded_ok('translated programs', lb if lb.startswith('a ') else 'no %s' % lb, '%d programs, %d injective renamings each (seed %d)' % (
                len(files), rounds, px.SEED), total.get('translated', 0))


class InOneModule(ast.NodeTransformer):
    """Rename module-level definitions, and what refers to them, in one module only."""
    def __init__(self, m):
        self.m, self.depth = m, 0

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n

    def definition(self, n):
        if self.depth == 0:
            n.name = self.m.get(n.name, n.name)
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_FunctionDef = visit_ClassDef = definition


def module_level(tree):
    out = set()
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        if isinstance(n, ast.Assign):
            out |= {x.id for x in n.targets if isinstance(x, ast.Name)}
    return out


def modules_of(path):
    """Two modules define the same names: each means its own."""
    import alpha
    import programs as P
    name, out, counts = os.path.basename(path), [], {'cases': 0, 'members': 0, 'left_out': 0, 'names': 0}
    fs = P.load(path)
    main, other = fs
    parse = lambda s: ast.parse(s, type_comments=True)
    both = sorted(module_level(parse(fs[main])) & module_level(parse(fs[other])))
    orig = {f: ast.unparse(parse(s)) for f, s in fs.items()}
    try:
        p = P.translate(orig)
    except Exception as e:
        return name, [('translation', {'error': repr(e)[:300]})], counts
    counts['names'] += len(both)
    for m in [{b: b + '_of_a' for b in both}] + [{b: b + '_of_a'} for b in both]:
        new = dict(orig, **{main: ast.unparse(InOneModule(m).visit(parse(orig[main])))})
        try:
            q = P.translate(new)
        except Exception as e:
            out.append((OWN, {'what': 'renaming %s in %s only: %r' % (sorted(m), main, e), 'program': orig, 'renamed': new}))
            continue
        counts['cases'] += 1
        changed = []                    # more than the order of some parts, which may depend on that of sets
        bad, n, left = alpha.differences(p.prog, q.prog, changed=changed)
        counts['members'] += n
        counts['left_out'] += left
        if changed:
            out.append((OWN, {'what': 'renaming %s in %s only changes %s' % (sorted(m), main, changed[:3]), 'program': orig, 'renamed': new}))
        for x in bad[:2]:
            out.append((OWN, {'what': 'renaming %s in %s only: %s in %s' % (sorted(m), main, x[1], x[2]), 'program': orig, 'renamed': new}))
    return name, out[:4], counts


OWN = 'a name means the definition of its own module'


def own_module(rep, thorough):
    import glob
    import programs as P
    fs = sorted(glob.glob(os.path.join(env.VERIF, 'corpus', 'mod', '*_a.py')))
    failed, total, broken = P.run_all(rep, fs, modules_of, 600 if thorough else 200)
    P.conclude(rep, 'translated modules', (OWN,), failed, total, broken, '%d pairs of modules that define the same names, renamed in one of them' % len(fs), len(fs))


def run(rep, thorough):
    own_module(rep, thorough)
    px.Ctx.thorough = thorough
    fresh(rep)
    strings(rep)
    programs(rep, thorough)
