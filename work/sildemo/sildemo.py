"""Evaluate the contract of a prelude (.sil) function or method of ./src on
concrete arguments and compare with what CPython computes."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ['VERIF_REPO'] = os.getcwd()
sys.path.insert(0, HERE)
import env  # noqa
sys.path.insert(0, HERE)
import z3
import prelude
import den
from prelude import *
from witness import Enc
failures = []


def load(bits=8, flt=None):
    prelude.load_all(bits, flt)


def _entails(facts, g):
    s = z3.Solver(); s.set('timeout', 60000)
    for f in facts: s.add(f)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def _sat(facts):
    s = z3.Solver(); s.set('timeout', 10000)
    for f in facts: s.add(f)
    return s.check() != z3.unsat


def func(name, vals, want):
    """The contract must allow exactly `want` (or forbid the call: want is an
    exception type)."""
    ctx = prelude.build(name)
    enc = Enc(ctx.old)
    d, f = ctx.d, ctx.f
    e = {a.f('name'): enc.term(v, a.f('typ')) for a, v in zip(f.f('formalArgs').items, vals)}
    pres = [d.ev(p, e) for p in f.f('pres').items]
    facts = enc.facts + pow_facts_for(vals)
    if isinstance(want, type):
        ok = _entails(facts, z3.Not(z3.And(*pres)))
        report(name, vals, want, ok)
        return
    ok = _sat(facts + pres + list(d.side))
    w = enc.term(want, f.f('typ'))
    e['result'] = w
    body = f.f('body')
    if hasattr(body, 'x'):
        ok = ok and _entails(enc.facts + facts + pres + list(d.side), veq(d.ev(body.x, e), w))
    for p in f.f('posts').items:
        g = d.ev(p, e)
        ok = ok and _entails(enc.facts + facts + pres + list(d.side), g)
    report(name, vals, want, ok)


def pow_facts_for(vals):
    return [pypow(z3.IntVal(a), z3.IntVal(b)) == a ** b for a in [2] + [v for v in vals if type(v) is int]
            for b in list(range(0, 20)) if abs(a) < 20]


def method(name, field, before, args, after):
    """Receiver contents `before`, CPython leaves `after`."""
    ctx = prelude.build(name)
    d, f = ctx.d, ctx.f
    enc = Enc(ctx.old)
    fs = f.f('formalArgs').items
    recv = enc.ref(before)
    e = {fs[0].f('name'): recv}
    for a, v in zip(fs[1:], args):
        e[a.f('name')] = enc.term(v, a.f('typ'))
    new = Heap('#after')
    d.old_st = ctx.old
    pres = [d.ev(p, e) for p in f.f('pres').items]
    d.st = new
    s = new.get(field, recv)
    item = (lambda x: enc.ref(x)) if s.sort == V else (lambda x: z3.IntVal(x))
    spec = [s.n == len(after)] + [s.at(z3.IntVal(i)) == item(x) for i, x in enumerate(after)]
    ok = _sat(enc.facts + pres)
    posts = [d.ev(p, e) for p in f.f('posts').items]
    base = enc.facts + pres + list(d.side)
    for p in posts:
        ok = ok and _entails(base + spec, p)
    ok = ok and _entails(base + posts, z3.And(*spec))
    report(name, [before] + list(args), after, ok)


def report(name, vals, want, ok):
    if not ok:
        print('%s%r: CPython gives %r, the contract disagrees' % (name, tuple(vals), want))
        failures.append(name)


def done():
    print('FAILED' if failures else 'ok')
    sys.exit(1 if failures else 0)


def method_raises(name, before, args):
    """CPython raises: the precondition must be false."""
    ctx = prelude.build(name)
    d, f = ctx.d, ctx.f
    enc = Enc(ctx.old)
    fs = f.f('formalArgs').items
    if isinstance(before, (set, dict)):
        recv = V.vobj(z3.IntVal(999))
        enc.facts.append(otype(z3.IntVal(999)) == (T.t_set(T.t_int) if isinstance(before, set) else T.t_dict(T.t_int, T.t_int)))
        x = z3.Const('x', V)
        c = ctx.old.get('set_acc' if isinstance(before, set) else 'dict_acc', recv)
        mem = c.mem if isinstance(before, set) else c.has
        enc.facts += [c.card == len(before), z3.ForAll([x], mem(x) == z3.Or(*[x == enc.ref(k) for k in before]))]
    else:
        recv = enc.ref(before)
    e = {fs[0].f('name'): recv}
    for a, v in zip(fs[1:], args):
        e[a.f('name')] = enc.term(v, a.f('typ'))
    pres = [d.ev(p, e) for p in f.f('pres').items]
    report(name, [before] + list(args), 'an exception', _entails(enc.facts, z3.Not(z3.And(*pres))))
