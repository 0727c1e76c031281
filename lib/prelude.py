"""Contract check of Nagini's prelude (the .sil resources): every function and
method contract is discharged against Python's semantics (pysem) for all
arguments. Obligations, per function f with interpretation PY(f):
  post/k   pre and result = PY(f)(args)  ==>  k-th postcondition
  body     pre                          ==>  body = PY(f)(args)
  def      pre                          ==>  Python's operation does not raise
  exact    pre and all posts hold of r   ==>  r = PY(f)(args)
and for methods the same with the effect on the heap, plus
  perm     every mutated location is required with full permission, and no
           postcondition returns more permission than was required
"""
import os, sys, json, time, traceback, multiprocessing as mp
import env
import z3
import fakejvm as J
import silparse
from den import *
from den import _ctr
import den, pysem
from pysem import PY, DEF, METH, Eff

# functions whose second argument is statically of the same class
SAME_KIND = ('str___add__', 'tuple___eq__')

ELEM_FIELDS = {'list_acc': ('seq', V), 'bytearray_acc': ('seq', INT), 'set_acc': ('set', V), 'dict_acc': ('map', V),
               '__container': ('val', V), '__iter_index': ('val', INT), '__previous': ('seq', V)}


class Heap(State):
    def __init__(self, tag=''):
        super().__init__()
        self.tag = tag
        self.upds = []

    def get(self, name, r):
        kind, sort = ELEM_FIELDS[name]
        base = self.base(name, kind, sort, r)
        for (n, ref, val) in self.upds:
            if n == name:
                base = ite(r == ref, val, base) if not (z3.is_expr(r) and r.eq(ref)) else val
        return base

    def base(self, name, kind, sort, r):
        if isinstance(r, Made):
            raise NotImplementedError('heap access on a made object')
        n = name + self.tag
        if kind == 'val':
            return obs_fn(n, V, sort)(r)
        if kind == 'seq':
            a, l = obs_fn(n + '_at', V, INT, sort), obs_fn(n + '_len', V, INT)
            return SSeq(l(r), lambda i: a(r, i), sort)
        if kind == 'set':
            m, c = obs_fn(n + '_mem', V, V, BOOL), obs_fn(n + '_card', V, INT)
            return SSet(lambda x: m(r, x), c(r), V)
        h, g, c = obs_fn(n + '_has', V, V, BOOL), obs_fn(n + '_get', V, V, V), obs_fn(n + '_card', V, INT)
        return SMap(lambda x: h(r, x), lambda x: g(r, x), c(r), V, V)

    def with_upds(self, upds):
        h = Heap(self.tag)
        h.upds = self.upds + list(upds)
        return h


def den_ite_map(c, a, b):
    return SMap(lambda x: z3.If(c, a.has(x), b.has(x)), lambda x: z3.If(c, a.get(x), b.get(x)),
                z3.If(c, a.card, b.card), a.ks, a.vs)


_ite0 = den.ite


def ite(c, a, b):
    if isinstance(a, SMap):
        return den_ite_map(c, a, b)
    return _ite0(c, a, b)


den.ite = ite
pysem.ite = ite


def heap_facts(h, r):
    """Representation facts of the containers reachable at reference r."""
    t = typeof(r)
    i, x = fresh(INT, 'i'), fresh(V, 'x')
    l, b, s, d = h.get('list_acc', r), h.get('bytearray_acc', r), h.get('set_acc', r), h.get('dict_acc', r)
    out = [l.n >= 0, b.n >= 0, s.card >= 0, d.card >= 0, h.get('__previous', r).n >= 0,
           z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n, T.is_t_list(t)), issubtype(typeof(l.at(i)), T.a_list(t)))),
           z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n, T.is_t_Iterator(t)), issubtype(typeof(l.at(i)), T.a_Iterator(t)))),
           z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l.n), wf_obj(l.at(i)))),
           z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.n), z3.And(0 <= b.at(i), b.at(i) < 256))),
           z3.ForAll([x], z3.Implies(z3.And(s.mem(x), T.is_t_set(t)), issubtype(typeof(x), T.a_set(t)))),
           z3.ForAll([x], z3.Implies(d.has(x), z3.And(z3.Implies(T.is_t_dict(t), z3.And(
               issubtype(typeof(x), T.k_dict(t)), issubtype(typeof(d.get(x)), T.v_dict(t))))))),
           # the empty collection is the only one with no members
           z3.Implies(s.card == 0, z3.ForAll([x], z3.Not(s.mem(x)))),
           z3.Implies(d.card == 0, z3.ForAll([x], z3.Not(d.has(x))))]
    return z3.And(*out)


def value_pair_facts(a, b):
    """== and identity of the value classes."""
    out = []
    va, vb = V.is_vobj(a), V.is_vobj(b)
    for k, f in (('str', str_val), ('bytes', bytes_val), ('PSeq', pseq_val), ('PByteSeq', pbs_val)):
        both = z3.And(va, vb, is_t(k)(typeof(a)), is_t(k)(typeof(b)))
        e = f(a).eq(f(b))
        out.append(z3.Implies(both, pyeq(a, b) == e))
        if k in ('PSeq', 'PByteSeq'):
            out.append(z3.Implies(z3.And(both, typeof(a) == typeof(b), e), a == b))
        one = z3.And(z3.Or(va, vb), is_t(k)(typeof(a)) != is_t(k)(typeof(b)),
                     z3.Or(z3.And(va, is_t(k)(typeof(a))), z3.And(vb, is_t(k)(typeof(b)))))
        out.append(z3.Implies(one, z3.Not(pyeq(a, b))))
    both = z3.And(va, vb, T.is_t_range_0(typeof(a)), T.is_t_range_0(typeof(b)))
    out.append(z3.Implies(both, pyeq(a, b) == range_val(a).eq(range_val(b))))
    out.append(z3.Implies(z3.And(T.is_t_range_0(typeof(a)) != T.is_t_range_0(typeof(b)),
                                 z3.Or(z3.And(va, T.is_t_range_0(typeof(a))), z3.And(vb, T.is_t_range_0(typeof(b))))),
                          z3.Not(pyeq(a, b))))
    for k, f in (('PSet', pset_mem), ('PMultiset', pms_cnt)):
        both = z3.And(va, vb, is_t(k)(typeof(a)), is_t(k)(typeof(b)), typeof(a) == typeof(b))
        e = f(a).eq(f(b))
        out.append(z3.Implies(both, z3.And(pyeq(a, b) == e, z3.Implies(e, z3.And(a == b, f(a).card == f(b).card)))))
    out.append(z3.Implies(z3.And(va, vb, T.is_t_tuple(typeof(a)), T.is_t_tuple(typeof(b))), z3.BoolVal(True)))
    return z3.And(*out)


class Ctx:
    """Hypotheses shared by the obligations of one function or method."""
    def __init__(self, prog, f, bits, bvinterp, width):
        self.f, self.name = f, f.f('name')
        self.old = Heap('')
        self.d = Den(self.old, bits, interp=None)
        self.d.funcs = _G['fn']
        self.d.dom_interp = bvinterp
        self.d.bv = width
        self.d.old_st = self.old
        self.env, self.args, hyps = {}, [], []
        refs = []
        for a in f.f('formalArgs').items:
            t, n = a.f('typ'), a.f('name')
            v = self.d.newval(t, n)
            if t.name_ == 'Ref':
                hyps += [wf_value(v), heap_facts(self.old, v)]
                refs.append(v)
            if isinstance(v, SSeq):
                hyps.append(v.n >= 0)
                if v.sort == V:
                    i = fresh(INT, 'i')
                    hyps.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), wf_obj(v.at(i)))))
            if isinstance(v, (SSet, SMul)):
                hyps.append(v.card >= 0)
            self.env[n] = v
            self.args.append(v)
        for i, a in enumerate(refs):
            for b in refs[i + 1:]:
                hyps.append(value_pair_facts(a, b))
                hyps.append(pyeq(a, b) == pyeq(b, a))
        # receivers are statically of the class the function belongs to
        recv = {'tuple': 'tuple', 'str': 'str', 'slice': 'slice', 'range': 'range_0', 'bytes': 'bytes',
                'Iterator': 'Iterator'}.get(
            self.name.split('_')[0])
        for p, v in zip(f.f('formalArgs').items, self.args):
            if recv and p.f('name') in ('self',) + (('other',) if self.name in SAME_KIND else ()):
                g = z3.And(V.is_vobj(v), is_t(recv)(typeof(v)))
                hyps.append(z3.Or(v == null, g) if self.name.endswith('___bool__') else g)
            if self.name == 'NoneType___bool__':
                hyps.append(v == null)
        if self.name == 'str___create__':
            hyps.append(self.args[0] == self.args[1].n)
        self.refs = refs
        self.hyps = hyps
        self.pres = [self.d.ev(p, self.env) for p in f.f('pres').items]
        if REGION_HYP is not None:
            self.pres.append(z3.Not(REGION_HYP(self)))

    def separation(self):
        """Locations required with permissions that exceed 1 together differ."""
        req = acc_perms(self.f.f('pres').items, self.d, self.env, self.old)
        out = []
        for i, (f1, r1, p1, c1) in enumerate(req):
            for f2, r2, p2, c2 in req[i + 1:]:
                if f1 == f2 and p1 is not None and p2 is not None and not r1.eq(r2):
                    out.append(z3.Implies(z3.And(c1, c2, p1 + p2 > 1), r1 != r2))
        return out

    def math_facts(self):
        out = self.separation()
        n = self.name
        if 'pow' in n:
            out.append(pow_axiom())
            out.append(pow_facts(*self.args))
        if 'bit_length' in n:
            out += [pypow(z3.IntVal(2), k) == 2 ** k for k in range(65)]
        if n in ('bytes___mul__', 'bytes___mul__helper', 'list___mul__'):
            # uniqueness of Euclidean division
            a, b, k = z3.Ints('ea eb ek')
            s0 = fresh(INT, 'n0')
            out.append(z3.ForAll([a, b], z3.Implies(z3.And(b > 0), z3.And(0 <= a % b, a % b < b)), patterns=[a % b]))
            s, k = [(x.n if isinstance(x, SSeq) else x) for x in self.args]
            if not isinstance(self.args[0], SSeq):
                s = {'list': self.old.get('list_acc', self.args[0]), 'bytes': bytes_val(self.args[0])}[n.split('_')[0]].n
            out.append(s0 == s)
            s = s0
            out.append(z3.ForAll([a], z3.Implies(z3.And(s > 0, (k - 1) * s <= a, a < k * s), a % s == a - (k - 1) * s),
                                 patterns=[a % s]))
            out.append(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < s), a % s == a), patterns=[a % s]))
            out.append(k * s == (k - 1) * s + s)
            out.append(z3.Implies(z3.And(k >= 1, s >= 0), (k - 1) * s >= 0))
        if 'shift' in n:
            out += [pypow(z3.IntVal(2), k) == 2 ** k for k in range(65)]
            k = self.args[-1]
            kk = k if z3.is_int(k) else num(k)
            out.append(z3.Implies(kk >= 0, pypow(z3.IntVal(2), kk) >= 1))
            out.append(z3.Implies(kk >= 64, pypow(z3.IntVal(2), kk) >= 2 ** 64))
            out.append(z3.Implies(kk >= 0, pypow(z3.IntVal(2), kk + 1) == 2 * pypow(z3.IntVal(2), kk)))
        return out


def acc_perms(nodes, d, env, st):
    """[(field, receiver term, permission or None for wildcard, condition)]"""
    out = []

    def go(n, cond):
        k = type(n).__name__
        if k == 'And':
            go(n.f('left'), cond), go(n.f('right'), cond)
        elif k == 'Implies':
            go(n.f('right'), z3.And(cond, d.ev(n.f('left'), env)))
        elif k == 'CondExp':
            c = d.ev(n.f('cond'), env)
            go(n.f('thn'), z3.And(cond, c)), go(n.f('els'), z3.And(cond, z3.Not(c)))
        elif k == 'FieldAccessPredicate':
            loc = n.f('loc')
            p = n.f('perm')
            p = p.x if hasattr(p, 'x') else p
            pk = type(p).__name__
            perm = None if pk == 'WildcardPerm' else z3.RealVal(1) if isinstance(p, J._None) else d.ev(p, env)
            out.append((loc.f('field').f('name'), d.ev(loc.f('rcv'), env), perm, cond))
    save = d.st
    d.st = st
    for n in nodes:
        go(n, z3.BoolVal(True))
    d.st = save
    return out


def obligations(ctx, lite=False):
    """[(label, source text, hyps, goal)] for one function or method."""
    f, d, env, name = ctx.f, ctx.d, ctx.env, ctx.name
    is_fn = type(f).__name__ == 'Function'
    obs = []
    if is_fn:
        if name not in PY:
            return []
        res = PY[name](d, *ctx.args)
        base = ([] if lite else ctx.hyps) + ctx.pres + ctx.math_facts()
        env2 = dict(env)
        env2['result'] = res
        body = f.f('body')
        if not isinstance(body, J._None):
            n0 = len(d.side)
            b = d.ev(body.x, env)
            obs.append(('body', str(body.x), base + list(d.side), veq(b, res)))
        for k, p in enumerate(f.f('posts').items):
            g = d.ev(p, env2)
            obs.append(('post%d' % k, str(p), base + list(d.side), g))
        if name in DEF:
            obs.append(('def', 'no exception', base + list(d.side), DEF[name](d, *ctx.args)))
        posts = f.f('posts').items
        if posts and (isinstance(body, J._None)):
            r = d.newval(f.f('typ'), 'r')
            env3 = dict(env)
            env3['result'] = r
            ps = [d.ev(p, env3) for p in posts]
            extra = [wf_obj(r)] if not isinstance(r, (SSeq, SSet, SMul, SMap)) and r.sort() == V else []
            if isinstance(r, SSeq):
                extra.append(r.n >= 0)
            obs.append(('exact', 'the postconditions determine the result', base + list(d.side) + ps + extra, veq(r, res)))
        return obs
    if name not in METH:
        return []
    e = METH[name](d, *ctx.args)
    if not isinstance(e, Eff):
        s = e
        # list_remove style: plain sequence update
        e = Eff({}, [('list_acc', ctx.args[0], s)])
    base = ([] if lite else ctx.hyps) + ctx.pres + ctx.math_facts() + e.facts
    new = ctx.old.with_upds(e.upd)
    env2 = dict(env)
    env2.update(e.ret)
    d.st = new
    for k, p in enumerate(f.f('posts').items):
        g = d.ev(p, env2)
        obs.append(('post%d' % k, str(p), base + list(d.side), g))
    d.st = ctx.old
    if name in DEF:
        obs.append(('def', 'no exception', base + list(d.side), DEF[name](d, *ctx.args)))
    # permissions
    req = acc_perms(f.f('pres').items, d, env, ctx.old)
    ens = acc_perms(f.f('posts').items, d, env2, new)
    news = [r for r in e.ret.values()]
    for fld, ref, _ in e.upd:
        if any(ref is n or (z3.is_expr(n) and n.eq(ref)) for n in news):
            continue
        total = z3.Sum([z3.RealVal(0)] + [z3.If(z3.And(c, r == ref), pm, 0) for (fl, r, pm, c) in req
                                          if fl == fld and pm is not None])
        obs.append(('perm_' + fld, 'modifies %s with full permission' % fld, base + list(d.side), total >= 1))
    for i, (fld, ref, pm, c) in enumerate(ens):
        if name == 'Iterator___del__':
            continue
        if any(z3.is_expr(n) and z3.is_expr(ref) and n.eq(ref) for n in news) and not (
                set(map(str, news)) & set(map(str, ctx.args))):
            continue
        tot_e = z3.Sum([z3.If(z3.And(c2, r2 == ref), p2, 0) for (f2, r2, p2, c2) in ens if f2 == fld and p2 is not None])
        tot_r = z3.Sum([z3.RealVal(0)] + [z3.If(z3.And(c2, r2 == ref), p2, 0) for (f2, r2, p2, c2) in req
                                          if f2 == fld and p2 is not None])
        fresh_ref = z3.Or(*[ref == n for n in news if z3.is_expr(n) and n.sort() == V]) if news else z3.BoolVal(False)
        obs.append(('permout%d' % i, 'returns no more permission to %s than required' % fld, base + list(d.side) + [c],
                    z3.Or(fresh_ref, tot_e <= tot_r)))
    # exactness: an arbitrary post state of the locations the method may write
    st2 = Heap('')
    ups, goals, facts = [], [], []
    env3 = dict(env)
    for n, v in e.ret.items():
        rt = [a.f('typ') for a in f.f('formalReturns').items if a.f('name') == n][0]
        env3[n] = v if any(ref is v for _, ref, _ in e.upd) else d.newval(rt, n)
        if env3[n] is not v:
            goals.append(veq(env3[n], v))
            facts.append(wf_obj(env3[n]))
    for fld, ref, val in e.upd:
        kind, sort = ELEM_FIELDS[fld]
        nv = unknown(kind, sort)
        if kind == 'seq':
            facts.append(nv.n >= 0)
        ups.append((fld, ref, nv))
        goals.append(veq(nv, val))
    d.st = ctx.old.with_upds(ups)
    if goals and f.f('posts').items:
        ps = [d.ev(p, env3) for p in f.f('posts').items]
        obs.append(('exact', 'the postconditions determine the effect', base + list(d.side) + ps + facts, z3.And(*goals)))
    d.st = ctx.old
    return obs


def unknown(kind, sort):
    if kind == 'val':
        return fresh(sort, 'nv')
    if kind == 'seq':
        return SSeq.new(sort, 'nv')
    k = next(_ctr)
    if kind == 'set':
        m = z3.Function('nvm!%d' % k, V, BOOL)
        return SSet(lambda x: m(x), z3.Int('nvc!%d' % k), V)
    h, g = z3.Function('nvh!%d' % k, V, BOOL), z3.Function('nvg!%d' % k, V, V)
    return SMap(lambda x: h(x), lambda x: g(x), z3.Int('nvc!%d' % k), V, V)


def _goal(h):
    g = z3.Goal()
    g.add(h)
    return g


def int_consts(es):
    """Uninterpreted integer constants occurring in es, by name."""
    acc, seen, todo = {}, set(), list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
        else:
            if z3.is_const(e) and e.sort() == INT and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[str(e)] = e
            todo.extend(e.children())
    return acc


def prove_inst(hyps, goal, lens, timeout, keep=False):
    """Skolemise, then instantiate integer quantifiers at the skolem constants
    and their shifts by sequence lengths (indices counted from the end)."""
    t0 = time.time()
    t = z3.With('nnf', mode='full')
    before = int_consts(list(hyps) + [goal])
    forms = [f for h in list(hyps) + [z3.Not(goal)] for f in t(_goal(h))[0]]
    after = int_consts(forms)
    sk = [c for n, c in sorted(after.items()) if n not in before] or [c for n, c in sorted(after.items())]
    sk = sk[:12]
    cands = list(sk) + [c + l for c in sk for l in lens] + [c - l for c in sk for l in lens]
    cands += [V.vint(c) for c in cands]

    def rw(f):
        if z3.is_quantifier(f):
            if f.is_forall() and f.num_vars() == 1:
                s = f.var_sort(0)
                return z3.And(([f] if keep else []) + [z3.substitute_vars(f.body(), c) for c in cands if c.sort() == s])
            return f if keep else z3.BoolVal(True)
        if z3.is_and(f):
            return z3.And([rw(c) for c in f.children()])
        if z3.is_or(f):
            return z3.Or([rw(c) for c in f.children()])
        return f
    s = z3.Solver()
    s.set('timeout', timeout)
    for f in forms:
        s.add(rw(f))
    r = s.check()
    return ('proved' if r == z3.unsat else 'unknown'), time.time() - t0, ''


def has_quant(e):
    seen, todo = set(), [e]
    while todo:
        e = todo.pop()
        if z3.is_quantifier(e):
            return True
        if e.get_id() not in seen:
            seen.add(e.get_id())
            todo.extend(e.children())
    return False


def conjuncts(g):
    if z3.is_eq(g) and g.arg(0).sort() == BOOL and (has_quant(g.arg(0)) or has_quant(g.arg(1))):
        return [c for x in (z3.Implies(g.arg(0), g.arg(1)), z3.Implies(g.arg(1), g.arg(0))) for c in conjuncts(x)]
    if z3.is_and(g):
        return [c for x in g.children() for c in conjuncts(x)]
    if z3.is_implies(g) and z3.is_and(g.arg(1)):
        return [z3.Implies(g.arg(0), c) for c in conjuncts(g.arg(1))]
    return [g]


def prove(hyps, goal, timeout=10000, seed=1, quick=False):
    total = 0
    for c in conjuncts(goal):
        st, dt, info = prove1(hyps, c, timeout, seed, quick)
        total += dt
        if st != 'proved':
            return st, total, info
    return 'proved', total, None


def prove1(hyps, goal, timeout=10000, seed=1, quick=False):
    t0 = time.time()
    for opts in ({},) if quick else ({}, {'smt.mbqi': False}, {'smt.arith.solver': 2}):
        s = z3.Solver()
        s.set('timeout', timeout if not opts else timeout * 2)
        s.set('random_seed', seed)
        for k, v in opts.items():
            s.set(k, v)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', time.time() - t0, None
        if r == z3.sat and not opts:
            return 'refuted', time.time() - t0, s.model()
    return 'unknown', time.time() - t0, s.reason_unknown()


_G = {}
REGION_HYP = None        # excludes the region of a known finding


def load_all(bits=8, flt=None):
    """The prelude as main.load_sil_files hands it to Viper."""
    jvm = J.install()
    import nagini_translation.main as M
    prog = M.load_sil_files(jvm, bits, False, flt)
    r = J.FastParser.last
    interp, width = bv_interp(r.program)
    _G['fn'] = {f.f('name'): f for f in r.program.functions().items}
    _G['me'] = {f.f('name'): f for f in r.program.methods().items}
    _G.update(prog=r.program, res=r, interp=interp, width=width, bits=bits)
    return r


def build(name):
    f = _G['fn'].get(name) or _G['me'].get(name)
    return Ctx(_G['prog'], f, _G['bits'], _G['interp'], _G['width'])


def lens_of(ctx):
    return [x.n for a in ctx.args for x in ([a] if isinstance(a, SSeq) else [] if not z3.is_expr(a) or a.sort() != V
                                            else [tup_val(a), ctx.old.get('list_acc', a)])]


def discharge(q, timeout):
    """Portfolio over equivalent encodings of one obligation, cheapest first.
    q: (lite hyps, goal), (hyps, goal), (hyps, goal) with Ref quantifiers split."""
    (h2, g2), (h, g), (h3, g3), lens, lens3 = q
    total = 0.0
    st, dt, info = prove(h2, g2, 1000, quick=True)
    total += dt
    if st == 'proved':
        return st, total, None
    for hh, gg, ln in ((h, g, lens), (h3, g3, lens3)):
        ok = True
        for c in conjuncts(gg):
            st, dt, info = prove1(hh, c, 1500, quick=True)
            total += dt
            if st == 'refuted':
                return st, total, info
            if st != 'proved':
                st, dt, info = prove_inst(hh, c, ln, timeout)
                total += dt
            if st != 'proved':
                ok = False
                break
        if ok:
            return 'proved', total, None
    for hh, gg in ((h, g), (h3, g3)):
        st, dt, info = prove(hh, gg, timeout)
        total += dt
        if st != 'unknown':
            return st, total, info
    return 'unknown', total, info


def run_one(task):
    """task: (name, timeout, labels to prove or None, region exclusions)"""
    name, timeout, want = (task + (None,))[:3]
    out = []
    try:
        ctx = build(name)
        obs = obligations(ctx)
        lite = obligations(ctx, lite=True)
        Den.expand = True
        c3 = build(name)
        exp = obligations(c3)
        Den.expand = False
        # vacuity guard: the hypotheses must not be contradictory
        s = z3.Solver()
        s.set('timeout', 3000)
        for h in (obs[0][2] if obs else ctx.pres):
            s.add(h)
        t0 = time.time()
        out.append((name, 'reach', 'precondition satisfiable', 'proved' if s.check() != z3.unsat else 'refuted',
                    time.time() - t0, '', None))
        for (label, text, hyps, goal), (_, _, h2, g2), (_, _, h3, g3) in zip(obs, lite, exp):
            if want is not None and not want(name, label):
                continue
            st, dt, info = discharge(((h2, g2), (hyps, goal), (h3, g3), lens_of(ctx), lens_of(c3)), timeout)
            wit = None
            if st != 'proved' and type(ctx.f).__name__ == 'Function':
                import witness
                k = int(label[4:]) if label.startswith('post') else label
                if isinstance(k, int) or k in ('body', 'def'):
                    wit = witness.search(ctx, k)
            out.append((name, label, text, st, round(dt, 2), model_text(info) if info is not None else '', wit))
    except Exception as e:
        out.append((name, 'error', '', 'error', 0, traceback.format_exc()[-1500:], None))
    return out


def model_text(m):
    return str(m)[:1500]


if __name__ == '__main__':
    import env
    load_all()
    names = sys.argv[1:] or [n for n in list(PY) + list(METH) if n in _G['fn'] or n in _G['me']]
    with mp.get_context('fork').Pool(8) as p:
        for out in p.imap(run_one, [(n, 5000) for n in names]):
            for (fn, label, text, st, dt, info, wit) in out:
                if st != 'proved' or len(sys.argv) > 1:
                    print(fn, label, st, dt, '|', text[:150], '|', info[:600] if st != 'unknown' else info[:80], wit, flush=True)
