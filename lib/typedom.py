"""The subtype relation of the emitted type domain, decided by the verifier's own means.

The PyType axioms of a translated program are taken as recorded and given to z3 with the
triggers they carry (e-matching only, as the verifier runs it).  For the classes S, T of
the program:
  - S is a subclass of T in Python        ==>  issubtype(S, T) is derived
  - S is not a subclass of T in Python    ==>  !issubtype(S, T) is derived
  - nothing contradicts: false is not derived from the axioms and what was asked about
    unions, generic classes and tuples (bounded: the terms of the universe below)."""
import env  # noqa
import z3

Ty = z3.DeclareSort('PyType')
Ref = z3.DeclareSort('Ref')


class Unsupported(Exception):
    pass


def k(n):
    return type(n).__name__


class Domain:
    def __init__(self, dom):
        self.fns, self.uniq = {}, []
        for f in dom.f('functions').items:
            try:
                args = [self.sort(a.f('typ')) for a in f.f('formalArgs').items]
                res = self.sort(f.f('typ'))
            except Unsupported:
                continue
            d = z3.Function(f.f('name'), *args, res) if args else z3.Const(f.f('name'), res)
            self.fns[f.f('name')] = d
            if f.f('unique'):
                self.uniq.append(d)
        self.axioms, self.left = [], []
        for a in dom.f('axioms').items:
            try:
                self.axioms.append((a.f('name'), self.x(a.f('exp'), {})))
            except Unsupported as e:
                self.left.append('%s (%s)' % (a.f('name'), e))

    def sort(self, t):
        n = str(t)
        if n.startswith('PyType'):
            return Ty
        if n in ('Int', 'Bool', 'Ref'):
            return {'Int': z3.IntSort(), 'Bool': z3.BoolSort(), 'Ref': Ref}[n]
        if n.startswith('Seq[PyType'):
            return z3.SeqSort(Ty)
        raise Unsupported('sort ' + n)

    def x(self, e, env):
        n = k(e)
        r = lambda f: self.x(e.f(f), env)
        if n == 'Forall':
            vs = [(v.f('name'), z3.Const(v.f('name') + '!q', self.sort(v.f('typ')))) for v in e.f('variables').items]
            env = dict(env, **dict(vs))
            body = self.x(e.f('exp'), env)
            pats = []
            for t in e.f('triggers').items:
                ts = [self.x(y, env) for y in t.f('exps').items]
                pats.append(z3.MultiPattern(*ts))
            return z3.ForAll([v for _, v in vs], body, patterns=pats)
        if n == 'LocalVar':
            return env[e.f('name')]
        if n == 'DomainFuncApp':
            f = self.fns.get(e.f('funcname'))
            if f is None:
                raise Unsupported('function ' + e.f('funcname'))
            args = [self.x(a, env) for a in e.f('args').items]
            return f(*args) if args else f
        if n in ('And', 'Or', 'Implies', 'EqCmp', 'NeCmp'):
            a, b = r('left'), r('right')
            return {'And': z3.And, 'Or': z3.Or, 'Implies': z3.Implies, 'EqCmp': lambda p, q: p == q,
                    'NeCmp': lambda p, q: p != q}[n](a, b)
        if n == 'Not':
            return z3.Not(r('exp'))
        if n in ('TrueLit', 'FalseLit'):
            return z3.BoolVal(n == 'TrueLit')
        if n == 'IntLit':
            return z3.IntVal(int(e.f('i')))
        if n == 'NullLit':
            return self.null
        raise Unsupported(n)

    null = z3.Const('null', Ref)

    def solver(self, timeout=10000):
        s = z3.Solver()
        s.set('timeout', timeout, 'auto_config', False, 'smt.mbqi', False, 'random_seed', 0)
        if len(self.uniq) > 1:
            s.add(z3.Distinct(*self.uniq))
        for _, a in self.axioms:
            s.add(a)
        return s

    def t(self, name, *args):
        f = self.fns[name]
        return f(*args) if args else f


def of(prog):
    for d in prog.domains().items:
        if d.f('name') == 'PyType':
            return Domain(d)


# -------------------------------------------------------------- Python's side
# A type is (name, *arguments); 'Union' and 'tuple' take any number of arguments.
TOWER = {'bool': ('int',), 'int': ('float',), 'float': ('object',), 'str': ('object',), 'NoneType': ('object',), 'bytes': ('object',),
         'Exception': ('object',), 'list': ('object',), 'set': ('object',), 'dict': ('object',)}


def parents(classes):
    """name -> (parameters, superclass as a type) of the user's classes, from Python's class objects."""
    import typing

    def conv(b):
        if isinstance(b, typing.TypeVar):
            return b.__name__
        o = typing.get_origin(b)
        return ((o or b).__name__,) + tuple(conv(a) for a in typing.get_args(b))
    out = {}
    for n, c in classes.items():
        bases = [b for b in getattr(c, '__orig_bases__', c.__bases__) if typing.get_origin(b) is not typing.Generic]
        if '__orig_bases__' not in c.__dict__:
            bases = list(c.__bases__)
        out[n] = (tuple(p.__name__ for p in getattr(c, '__parameters__', ())), conv(bases[0]) if bases else ('object',))
    return out


def up(t, ps):
    """The superclass of a class type, or None."""
    if t[0] == 'object':
        return None
    if t[0] in ps:
        params, sup = ps[t[0]]
        m = dict(zip(params, t[1:]))

        def s(x):
            return m[x] if isinstance(x, str) else (x[0],) + tuple(s(y) for y in x[1:])
        return s(sup)
    if t[0] == 'tuple':
        return ('object',)
    return TOWER[t[0]]


def sub(a, b, ps):
    """Whether every object of type a is an object of type b."""
    if a[0] == 'Union':
        return all(sub(x, b, ps) for x in a[1:])
    if b[0] == 'Union':
        return any(sub(a, x, ps) for x in b[1:])
    if a[0] == 'tuple' and b[0] == 'tuple':
        return len(a) == len(b) and all(sub(x, y, ps) for x, y in zip(a[1:], b[1:]))
    while a is not None:
        if a == b:
            return True
        a = up(a, ps)
    return False


def text(t):
    return t[0] + ('[%s]' % ', '.join(text(a) for a in t[1:]) if len(t) > 1 else '')


def term(D, t, sil):
    args = [term(D, a, sil) for a in t[1:]]
    if t[0] == 'Union':
        return D.t('union_type_%d' % len(args), *args)
    if t[0] == 'tuple':
        return D.t('tuple', z3.Concat(*[z3.Unit(a) for a in args]) if len(args) > 1 else z3.Unit(args[0]))
    return D.t(sil.get(t[0], t[0]), *args)


def universe(ps, thorough):
    base = [('object',), ('int',), ('bool',), ('float',), ('str',), ('NoneType',), ('Exception',)]
    plain = [(n,) for n, (params, _) in sorted(ps.items()) if not params]
    gen = []
    for n, (params, _) in sorted(ps.items()):
        if len(params) == 1:
            gen += [(n, a) for a in (('int',), ('bool',), ('object',))]
        elif len(params) == 2:
            gen += [(n, ('int',), ('bool',)), (n, ('bool',), ('int',))]
    gen += [('list', ('int',)), ('list', ('bool',)), ('list', ('list', ('int',))), ('set', ('int',)), ('dict', ('int',), ('str',))]
    unions = [('Union', ('int',), ('float',)), ('Union', ('bool',), ('int',)), ('Union', ('int',), ('str',)), ('Union', ('NoneType',), ('int',)),
              ('Union', ('int',), ('str',), ('NoneType',)), ('Union', ('list', ('int',)), ('str',))]
    subs = [(n,) for n in sorted(ps) if not ps[n][0]]
    for a in subs:
        for b in subs:
            if a < b and (sub(a, b, ps) or sub(b, a, ps)) or (thorough and a < b):
                unions.append(('Union', a, b))
                if thorough:
                    unions.append(('Union', b, a, ('NoneType',)))
    inv = [('list', unions[0])]
    return base + plain + gen + inv, unions


def job(spec):
    """Questions about one type: what is derived about an object of it, and about unions."""
    path, i, n, thorough = spec
    import programs as P
    P.setup()
    src = open(path).read()
    ns = {'__name__': 'corpus'}
    exec(compile(src, path, 'exec'), ns)
    tr = P.translate({'prog.py': src})
    D = of(tr.prog)
    sil, user = {}, {}
    for m in tr.modules:
        for cn, c in m.classes.items():
            if isinstance(ns.get(cn), type) and ns[cn].__module__ == 'corpus':
                sil[cn] = c.sil_name
                user[cn] = ns[cn]
    ps = parents(user)
    plain, unions = universe(ps, thorough)
    out, count = [], 0

    def ask(lb, goal, what, mk):
        nonlocal count
        count += 1
        s.push()
        s.add(z3.Not(goal))
        r = s.check()
        s.pop()
        if r != z3.unsat:
            out.append((lb, '%s is not derived (%s)' % (what, mk)))
        goals.append(goal)
    s = D.solver()
    x = z3.Const('x', Ref)
    for t in (plain + unions)[i::n]:
        a = term(D, t, sil)
        goals = []
        s.push()
        if t[0] != 'Union':
            s.add(D.t('typeof', x) == a)
            c = t
            while c is not None:
                for j in range(len(c) - 1):      # the arguments are talked about
                    s.add(z3.Const('%s_arg%d' % (c[0], j), Ty) == D.t(sil.get(c[0], c[0]) + '_arg', D.t('typeof', x), j))
                c = up(c, ps)
            if t == ('NoneType',):
                s.add(x == D.null)
        else:
            for j, m in enumerate(t[1:]):    # an object of each member: they are known to be types of objects
                s.add(D.t('typeof', z3.Const('m%d' % j, Ref)) == term(D, m, sil))
        for u in plain + unions:
            b = term(D, u, sil)
            w = sub(t, u, ps)
            if t[0] != 'Union':
                q = D.t('issubtype', D.t('typeof', x), b)
                ask('an object is an instance of its superclasses' if w else 'an object is not an instance of other classes',
                    q if w else z3.Not(q), 'isinstance(x: %s, %s) is %s' % (text(t), text(u), w), 'object')
            elif u[0] != 'Union':
                q = D.t('issubtype', a, b)
                ask('a union is a subtype of what its members are subtypes of', q if w else z3.Not(q),
                    'issubtype(%s, %s) is %s' % (text(t), text(u), w), 'union')
        for g in goals:
            s.add(g)
        count += 1
        if s.check() == z3.unsat:
            out.append(('the type axioms are not contradictory', 'false is derived for %s %s' % ('an object of type' if t[0] != 'Union' else 'objects of', text(t))))
        s.pop()
    return out, count, D.left, len(D.axioms)


LABELS = ('an object is an instance of its superclasses', 'an object is not an instance of other classes',
          'a union is a subtype of what its members are subtypes of', 'the type axioms are not contradictory')


def check(rep, path, thorough):
    import multiprocessing
    import os
    import shutil
    import tempfile
    import time
    t0 = time.time()
    os.environ['PROGRAMS_WORK'] = tempfile.mkdtemp(prefix='typedom_')
    bad, n, left, axs = {}, 0, set(), 0
    try:
        with multiprocessing.get_context('spawn').Pool(8) as pool:
            for out, c, lf, ax in pool.imap_unordered(job, [(path, i, 8, thorough) for i in range(8)]):
                n, axs = n + c, ax
                left.update(lf)
                for lb, what in out:
                    bad.setdefault(lb, []).append(what)
    finally:
        shutil.rmtree(os.environ.pop('PROGRAMS_WORK'), ignore_errors=True)
    for lb in LABELS:
        if lb in bad:
            rep.violation('the type domain', lb, dict(what=bad[lb][0], also=bad[lb][1:40]), replayed=True)
        elif 'contradictory' in lb:
            rep.bounded_ok('the type domain', lb, 'objects and unions of the corpus classes', n)
        else:
            rep.proved('the type domain', lb, time.time() - t0)
    rep.extra.update({'type_domain_axioms': axs, 'type_domain_axioms_left_out': sorted(left), 'subtype_questions': n})
