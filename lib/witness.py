"""Concrete failing inputs for prelude contracts.

Given a function of the prelude and one of its obligations that the verifier
could not discharge, search a small pool of Python values for arguments that
satisfy the precondition while the contract, with CPython's own result in place
of `result`, is false. CPython is the oracle here; z3 only evaluates the ground
contract.
"""
import itertools
import operator
import re
import z3
from den import *
import den

OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'floordiv': operator.floordiv,
       'mod': operator.mod, 'pow': operator.pow, 'and': operator.and_, 'or': operator.or_, 'xor': operator.xor,
       'lshift': operator.lshift, 'rshift': operator.rshift, 'eq': operator.eq, 'ge': operator.ge,
       'gt': operator.gt, 'le': operator.le, 'lt': operator.lt, 'neg': operator.neg, 'pos': operator.pos,
       'invert': operator.invert, 'int': int, 'bool': bool, 'len': len, 'getitem': operator.getitem,
       'contains': operator.contains, 'truediv': operator.truediv,
       'val': lambda x: x, 'sil_seq': lambda x: list(x), 'getitem_slice': operator.getitem,
       'box': lambda x: x, 'unbox': lambda x: x}
SPECIAL = {'abs': abs, 'max': lambda a, b=None: max(a) if b is None else max(a, b),
           'min': lambda a, b=None: min(a) if b is None else min(a, b), 'sum': sum,
           'int_bit_length': lambda x: int(x).bit_length(), 'list_index': lambda l, x: l.index(x)}


def pyop(name):
    if name in SPECIAL:
        return SPECIAL[name]
    n = name[len('__prim__'):] if name.startswith('__prim__') else name
    m = re.match(r'^([A-Za-z]+)___(?:r(?=(?:lshift|rshift|and|or|xor)__))?(\w+?)__$', n)
    if not m or m.group(2) not in OPS or m.group(1) in ('PSeq', 'PSet', 'PMultiset', 'PByteSeq', 'slice', 'float', 'Place'):
        return None
    return OPS[m.group(2)]


INTS = [0, 1, -1, 2, -2, 3, -3, 7, -7, 8, -8, 63, -64, 100, 255]
POOL = {'int': INTS, 'bool': [True, False], 'NoneType': [None],
        'str': ['', 'a', 'ab', 'ba', 'abc'], 'bytes': [b'', b'\x01', b'\x01\x02', b'\x00\xff\x07'],
        'tuple': [(), (1,), (1, 2), (2, 1), (0, 5, -3), (1, True)],
        'list': [[], [1], [1, 2], [2, 1], [0, 5, -3], [4, 4, 1, 0]],
        'bytearray': [bytearray(b''), bytearray(b'\x01'), bytearray(b'\x05\x02\x09')],
        'range': [range(0), range(1, 5), range(3, 1), range(-2, 3, 2), range(0, 7, 3)],
        'slice': [slice(None, None), slice(1, None), slice(None, -1), slice(-2, 5), slice(2, 1), slice(0, 2)]}


class Enc:
    """Python values as terms of the model, with the facts that pin them."""
    def __init__(self, heap):
        self.h, self.facts, self.k, self.memo = heap, [], itertools.count(1000), {}

    def seq(self, s, xs, enc):
        self.facts.append(s.n == len(xs))
        for i, x in enumerate(xs):
            self.facts.append(s.at(z3.IntVal(i)) == enc(x))

    def ref(self, v):
        if v is None:
            return null
        if isinstance(v, bool):
            return V.vbool(z3.BoolVal(v))
        if isinstance(v, int):
            return V.vint(z3.IntVal(v))
        key = id(v)
        if key in self.memo:
            return self.memo[key][0]
        o = z3.IntVal(next(self.k))
        r = V.vobj(o)
        self.memo[key] = (r, v)
        iv = lambda x: z3.IntVal(x)
        if isinstance(v, str):
            self.facts.append(otype(o) == T.t_str)
            self.seq(str_val(r), [ord(c) for c in v], iv)
        elif isinstance(v, bytes):
            self.facts.append(otype(o) == T.t_bytes)
            self.seq(bytes_val(r), list(v), self.ref)
        elif isinstance(v, tuple):
            self.facts += [T.is_t_tuple(otype(o)), ttlen(T.tid(otype(o))) == len(v)]
            for i, x in enumerate(v):
                self.facts.append(ttarg(T.tid(otype(o)), i) == typeof(self.ref(x)))
            self.seq(tup_val(r), list(v), self.ref)
        elif isinstance(v, list):
            self.facts.append(otype(o) == T.t_list(T.t_int))
            self.seq(self.h.get('list_acc', r), v, self.ref)
        elif isinstance(v, bytearray):
            self.facts.append(otype(o) == T.t_bytearray)
            self.seq(self.h.get('bytearray_acc', r), list(v), iv)
        elif isinstance(v, range):
            self.facts += [otype(o) == T.t_range_0, r_start(r) == v.start, r_stop(r) == v.stop, r_step(r) == v.step,
                           r_len(r) == len(v)]
        elif isinstance(v, slice):
            self.facts += [otype(o) == T.t_slice, sl_start(r) == self.ref(v.start), sl_stop(r) == self.ref(v.stop)]
        else:
            raise NotImplementedError(type(v))
        return r

    def term(self, v, typ):
        n = typ.name_
        if n == 'Int':
            return z3.IntVal(int(v))
        if n == 'Bool':
            return z3.BoolVal(bool(v))
        if n == 'Ref':
            return self.ref(v)
        if n == 'Seq':
            s = typ.args_[0].name_
            xs = [ord(c) for c in v] if isinstance(v, str) else list(v)
            return SSeq.lit([z3.IntVal(int(x)) if s == 'Int' else self.ref(x) for x in xs], INT if s == 'Int' else V)
        raise NotImplementedError(n)


def candidates(name, a, first):
    t = a.f('typ').name_
    if t == 'Int':
        return INTS
    if t == 'Bool':
        return [False, True]
    if t == 'Ref':
        cls_ = name.replace('__prim__', '').split('_')[0]
        if first and cls_ in POOL:
            return POOL[cls_] + ([True, False] if cls_ == 'int' else [])
        if name.endswith('getitem_slice__'):
            return POOL['slice']
        same = POOL.get(cls_, []) if cls_ not in ('int', 'bool') else []
        return INTS[:11] + [True, False, None] + same
    if t == 'Seq':
        return [[], [1], [3, 0, 2]]
    return []


def search(ctx, k, limit=400, budget=20.0):
    """A concrete violation of postcondition k (int) or the body ('body')."""
    import time
    t0 = time.time()
    f, name = ctx.f, ctx.name
    op = pyop(name)
    if op is None:
        return None
    formals = f.f('formalArgs').items
    pools = [candidates(name, a, i == 0) for i, a in enumerate(formals)]
    tuples = sorted(itertools.islice(itertools.product(*pools), 4000), key=lambda t: sum(map(size, t)))
    d = ctx.d
    for vals in tuples[:limit]:
        if time.time() - t0 > budget:
            return None
        try:
            if name.endswith('shift__') and abs(vals[1]) > 64:
                continue
            want, raised = op(*vals), None
        except Exception as e:          # CPython raises: the precondition must exclude it
            want, raised = None, type(e).__name__
        try:
            enc = Enc(ctx.old)
            env = {a.f('name'): enc.term(v, a.f('typ')) for a, v in zip(formals, vals)}
            pres = [d.ev(p, env) for p in f.f('pres').items]
            s = z3.Solver()
            s.set('timeout', 300)
            recv = {'int': int, 'bool': bool, 'str': str, 'bytes': bytes, 'tuple': tuple, 'list': list}
            for x in enc.facts + pres:
                s.add(x)
            if raised:
                if k == 'def' and s.check() == z3.sat:
                    return {'arguments': [repr(v) for v in vals], 'cpython': 'raises ' + raised,
                            'contract': 'precondition holds'}
                continue
            if k == 'def':
                continue
            env['result'] = enc.term(want, f.f('typ'))
            g = d.ev(f.f('body').x, env) == env['result'] if k == 'body' else d.ev(f.f('posts').items[k], env)
            s = z3.Solver()
            s.set('timeout', 300)
            for x in enc.facts + pres + list(d.side) + (ctx.math_facts0(enc, env) if hasattr(ctx, 'math_facts0') else []):
                s.add(x)
            if 'pow' in name and len(vals) == 2:
                s.add(pypow(env[formals[0].f('name')], env[formals[1].f('name')]) == want)
            s.push()
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                continue
            s.pop()
            if s.check() != z3.sat:
                continue
            s.add(g)
            if s.check() == z3.unsat:
                return {'arguments': [repr(v) for v in vals], 'cpython': repr(want),
                        'contract': str(f.f('body').x if k == 'body' else f.f('posts').items[k])}
        except (NotImplementedError, KeyError, AttributeError, TypeError, z3.Z3Exception):
            continue
    return None


def size(v):
    return abs(v) + (v < 0) if isinstance(v, int) else len(v) * 2 if hasattr(v, '__len__') else 1
