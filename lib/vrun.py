"""Execution of a translated program: Silver's operational semantics on the
recorded Viper program, with scalars that may be symbolic (px.SInt).

Permissions are tracked per activation; inhale adds, exhale checks and removes;
calls hand over what the callee's contract says; loop bodies run with what the
invariants grant. An assumption (`inhale`) that is false in the execution is a
failure as much as an assertion that is. Prelude functions have the values
their contracts fix (that these are Python's is C01 to C03).
"""
import re
from fractions import Fraction
import fakejvm
import px
from px import SInt, SBool, SymUnsupported, PathInfeasible

ONE = Fraction(1)
TINY = Fraction(1, 10 ** 9)


class VFail(BaseException):
    """The program does not verify: this obligation fails in the execution."""
    def __init__(self, kind, node, what=''):
        self.kind, self.node, self.what = kind, node, what
        p = getattr(node, '_pos', None)
        try:
            self.line = p.line() if p is not None and getattr(p, 'line', None) else None
        except Exception:
            self.line = None
        super().__init__('%s at %s: %s' % (kind, self.line, what))


class Goto(BaseException):
    def __init__(self, label):
        self.label = label


class Unknown(BaseException):
    """The value of something nothing is known about."""


class NoCheck(BaseException):
    """A method overrides another one and there is no check of it."""


class Unset:
    def __repr__(self):
        return '?'


UNSET = Unset()


class Hole:
    def __init__(self):
        self.v, self.below = None, []

    def __repr__(self):
        return '?' if self.v is None else repr(self.v)


# types whose objects the programs of the corpus do not subclass
FINAL = {'list', 'set', 'dict', 'tuple', 'PSeq', 'PSet', 'PMultiset', 'PByteSeq', 'Iterator', 'int', 'bool', 'float', 'str', 'bytes', 'bytearray', 'range_0',
         'slice', 'NoneType', 'EllipsisType'}


def deref(t):
    while isinstance(t, Hole) and t.v is not None:
        t = t.v
    return t


class Ty:
    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)

    def __repr__(self):
        return self.name + ('(%s)' % ', '.join(map(repr, self.args)) if self.args else '')


class B:
    """A value of a built-in immutable type, as a reference."""
    __slots__ = ('ty', 'v', 't')

    def __init__(self, ty, v, t=None):
        self.ty, self.v, self.t = ty, v, t

    def __repr__(self):
        return '%s:%r' % (self.ty, self.v)


class Obj:
    n = 0

    def __init__(self, ty=None):
        self.ty = ty
        Obj.n += 1
        self.id = Obj.n

    def __repr__(self):
        return '<%r #%d>' % (self.ty, self.id)


def boxi(v):
    return B('int', v)


def boxb(v):
    return B('bool', v)


def truth(x):
    if isinstance(x, Unset):
        raise Unknown()
    return bool(x)


def teq(a, b, bind=False):
    a, b = deref(a), deref(b)
    if isinstance(a, Hole) or isinstance(b, Hole):
        if a is b:
            return True
        if not bind:
            raise Unknown()
        if isinstance(a, Hole):
            a.v = b
        else:
            b.v = a
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(teq(x, y, bind) for x, y in zip(a, b))
    if not isinstance(a, Ty) or not isinstance(b, Ty):
        return a is b
    return a.name == b.name and len(a.args) == len(b.args) and all(teq(x, y, bind) for x, y in zip(a.args, b.args))


def eq(a, b, bind=False):
    """Silver's == (structural on values, identity on references)."""
    if isinstance(a, Unset) or isinstance(b, Unset):
        raise Unknown()
    if isinstance(a, (Ty, Hole)) or isinstance(b, (Ty, Hole)):
        return teq(a, b, bind)
    if a is b:
        return True
    if isinstance(a, B) and isinstance(b, B):
        if a.ty != b.ty:
            return False
        return eq(a.v, b.v)
    if isinstance(a, (B, Obj)) or isinstance(b, (B, Obj)) or a is None or b is None:
        return False
    if isinstance(a, VSet) and isinstance(b, VSet):
        return len(a.items) == len(b.items) and all(b.has(x) for x in a.items)
    if isinstance(a, VMap) and isinstance(b, VMap):
        return len(a.items) == len(b.items) and all(b.get(k) is not UNSET and truth(eq(b.get(k), v)) for k, v in a.items)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(truth(eq(x, y)) for x, y in zip(a, b))
    if isinstance(a, (tuple, VSet, VMap)) or isinstance(b, (tuple, VSet, VMap)):
        return False
    return a == b


class VSet:
    def __init__(self, items=()):
        self.items = []
        for x in items:
            if not self.has(x):
                self.items.append(x)

    def has(self, x):
        return any(truth(eq(x, y)) for y in self.items)

    def __repr__(self):
        return 'Set(%s)' % ', '.join(map(repr, self.items))


class VBag:
    def __init__(self, items=()):
        self.items = list(items)


class VMap:
    def __init__(self, items=()):
        self.items = list(items)

    def get(self, k):
        for a, b in self.items:
            if truth(eq(a, k)):
                return b
        return UNSET

    def put(self, k, v):
        return VMap([(a, b) for a, b in self.items if not truth(eq(a, k))] + [(k, v)])

    def __repr__(self):
        return 'Map(%s)' % self.items


class Frame:
    def __init__(self, args=None):
        self.vars = dict(args or {})
        self.perms = {}             # (obj, field) -> amount
        self.preds = []             # [name, args, amount]
        self.facts = []             # (function, args)
        self.labels = {}
        self.old = {}
        self.result = UNSET

    def copy_perms(self):
        return dict(self.perms), [list(p) for p in self.preds]

    def set_perms(self, s):
        self.perms, self.preds = dict(s[0]), [list(p) for p in s[1]]


def opt(x):
    return x.x if hasattr(x, 'x') else None


class Interp:
    dispatch = None      # (called method, calling method, class of the receiver) -> overriding method

    def __init__(self, prog, max_steps=4000, max_depth=12):
        self.prog = prog
        self.functions = {f.f('name'): f for f in prog.functions().items}
        self.methods = {m.f('name'): m for m in prog.methods().items}
        self.predicates = {p.f('name'): p for p in prog.predicates().items}
        self.heap = {}
        self.steps, self.max_steps, self.depth, self.max_depth = 0, max_steps, 0, max_depth
        self.bindtypes = False
        self.sides = {}
        self.exact = {}
        self.extends = None
        self.domfuncs = {f.f('name'): f for d in prog.domains().items for f in d.f('functions').items}

    # ------------------------------------------------------------ the type domain
    def rules(self):
        """Direct supertypes, read off the program's axioms."""
        if self.extends is None:
            self.extends = {}
            for d in self.prog.domains().items:
                for ax in d.f('axioms').items:
                    for n in ax.f('exp').walk():
                        if type(n).__name__ == 'DomainFuncApp' and n.f('funcname') == 'extends_':
                            a, b = n.f('args').items
                            if type(a).__name__ == 'DomainFuncApp':
                                self.extends.setdefault(a.f('funcname'), []).append(([getattr(x, '_v', {}).get('name') for x in a.f('args').items], b))
        return self.extends

    def supers(self, t):
        out = []
        for vs, b in self.rules().get(t.name, []):
            e = dict(zip([v for v in vs if v], t.args))
            f = Frame(e)
            out.append(self.ev(b, f))
        return out

    def issub(self, a, b):
        a, b = deref(a), deref(b)
        if isinstance(b, Hole) or isinstance(a, Hole):
            if a is b:
                return True
            if isinstance(a, Hole) and isinstance(b, Ty) and b.name not in FINAL:
                # an instance of b or of any subclass of it
                if self.bindtypes:
                    a.below.append(b)
                    return True
                if any(self.issub(x, b) for x in a.below):
                    return True
                raise Unknown()
            if self.bindtypes:
                return teq(a, b, True)
            raise Unknown()
        if not isinstance(a, Ty) or not isinstance(b, Ty):
            raise Unknown()
        if b.name.startswith('union_type_'):
            return any(self.issub(a, x) for x in b.args)
        if a.name.startswith('union_type_'):
            return all(self.issub(x, b) for x in a.args)
        if b.name == 'object' and not b.args:
            return True
        if a.name == 'NoneType' and b.name == 'NoneType':
            return True
        if b.name == 'tuple_var' and a.name in ('tuple', 'tuple_var'):
            xs = deref(a.args[0])
            if isinstance(xs, Hole):
                raise Unknown()
            return all(self.issub(x, b.args[0]) for x in (xs if a.name == 'tuple' else (xs,)))
        if a.name == b.name == 'tuple':
            x, y = deref(a.args[0]), deref(b.args[0])
            if isinstance(x, Hole) or isinstance(y, Hole):
                if x is y:
                    return True
                if self.bindtypes:
                    return teq(x, y, True)
                raise Unknown()
            return len(x) == len(y) and all(self.issub(p, q) for p, q in zip(x, y))
        if a.name == b.name and a.args and teq(a, b, self.bindtypes):
            return True
        if a.name == b.name and not a.args:
            return True
        return any(self.issub(s, b) for s in self.supers(a))

    def typeof(self, r):
        if isinstance(r, Unset):
            raise Unknown()
        if r is None:
            return Ty('NoneType')
        if isinstance(r, B):
            if r.t is not None:
                return r.t
            if r.ty == 'tuple':
                return Ty('tuple', [tuple(self.typeof(x) for x in r.v)])
            return Ty({'range': 'range_0', 'ellipsis': 'EllipsisType'}.get(r.ty, r.ty))
        if r.ty is None:
            r.ty = Hole()
        return r.ty

    # ------------------------------------------------------------- expressions
    def ev(self, n, f):
        self.steps += 1
        if self.steps > self.max_steps * 50:
            raise PathInfeasible()
        h = getattr(self, 'e_' + type(n).__name__, None)
        if h is None:
            raise SymUnsupported('Viper expression %s' % type(n).__name__)
        return h(n, f)

    def e_IntLit(self, n, f):
        return int(n.f('i'))

    def e_TrueLit(self, n, f):
        return True

    def e_FalseLit(self, n, f):
        return False

    def e_NullLit(self, n, f):
        return None

    def e_LocalVar(self, n, f):
        v = f.vars.get(n.f('name'), UNSET)
        return v

    def e_Result(self, n, f):
        return f.result

    def e_FieldAccess(self, n, f):
        r = self.ev(n.f('rcv'), f)
        fld = n.f('field').f('name')
        if isinstance(r, Unset):
            raise Unknown()
        if f.perms.get((r, fld) if isinstance(r, Obj) else None, 0) <= 0 and not getattr(f, 'free', False):
            raise VFail('insufficient permission', n, 'read %r.%s' % (r, fld))
        return f.heapview(self)[(r, fld)] if (r, fld) in f.heapview(self) else UNSET

    def e_Old(self, n, f):
        return self.in_heap(n.f('exp'), f, f.old)

    def e_LabelledOld(self, n, f):
        s = f.labels.get(n.f('oldLabel'))
        if s is None:
            raise VFail('label not reached', n)
        return self.in_heap(n.f('exp'), f, s)

    def in_heap(self, e, f, snap):
        heap, perms = snap
        g = Frame()
        g.__dict__.update(f.__dict__)
        g.set_perms(perms)
        h = self.heap
        self.heap = heap
        try:
            return self.ev(e, g)
        finally:
            self.heap = h

    def e_Not(self, n, f):
        return not truth(self.ev(n.f('exp'), f))

    def e_Minus(self, n, f):
        return -self.ev(n.f('exp'), f)

    def e_And(self, n, f):
        return truth(self.ev(n.f('left'), f)) and truth(self.ev(n.f('right'), f))

    def e_Or(self, n, f):
        return truth(self.ev(n.f('left'), f)) or truth(self.ev(n.f('right'), f))

    def e_Implies(self, n, f):
        return (not truth(self.ev(n.f('left'), f))) or truth(self.ev(n.f('right'), f))

    def e_CondExp(self, n, f):
        return self.ev(n.f('thn') if truth(self.ev(n.f('cond'), f)) else n.f('els'), f)

    def two(self, n, f):
        return self.ev(n.f('left'), f), self.ev(n.f('right'), f)

    def e_EqCmp(self, n, f):
        a, b = self.two(n, f)
        return eq(a, b, self.bindtypes)

    def e_NeCmp(self, n, f):
        a, b = self.two(n, f)
        return not truth(eq(a, b))

    def num2(self, n, f):
        a, b = self.two(n, f)
        if isinstance(a, Unset) or isinstance(b, Unset):
            raise Unknown()
        return a, b

    def e_LtCmp(self, n, f):
        a, b = self.num2(n, f)
        return a < b

    def e_LeCmp(self, n, f):
        a, b = self.num2(n, f)
        return a <= b

    def e_GtCmp(self, n, f):
        a, b = self.num2(n, f)
        return a > b

    def e_GeCmp(self, n, f):
        a, b = self.num2(n, f)
        return a >= b

    e_PermLtCmp, e_PermLeCmp, e_PermGtCmp, e_PermGeCmp = e_LtCmp, e_LeCmp, e_GtCmp, e_GeCmp

    def e_Add(self, n, f):
        a, b = self.num2(n, f)
        return a + b

    def e_Sub(self, n, f):
        a, b = self.num2(n, f)
        return a - b

    def e_Mul(self, n, f):
        a, b = self.num2(n, f)
        return a * b

    e_PermAdd, e_PermSub, e_PermMul, e_IntPermMul = e_Add, e_Sub, e_Mul, e_Mul

    def e_Div(self, n, f):
        a, b = self.num2(n, f)
        if truth(b == 0):
            raise VFail('division by zero', n)
        return a // b if b > 0 else -(a // (-b))

    def e_Mod(self, n, f):
        a, b = self.num2(n, f)
        if truth(b == 0):
            raise VFail('division by zero', n)
        return a % b if b > 0 else a % (-b)

    def e_FullPerm(self, n, f):
        return ONE

    def e_NoPerm(self, n, f):
        return Fraction(0)

    def e_WildcardPerm(self, n, f):
        return 'wildcard'

    def e_EpsilonPerm(self, n, f):
        return TINY

    def e_FractionalPerm(self, n, f):
        a, b = self.num2(n, f)
        if isinstance(a, SInt) or isinstance(b, SInt):
            raise SymUnsupported('symbolic fraction')
        return Fraction(a) / Fraction(b)

    def e_PermDiv(self, n, f):
        a, b = self.num2(n, f)
        return Fraction(a) / Fraction(b)

    e_PermPermDiv = e_PermDiv

    def e_PermMinus(self, n, f):
        return -self.ev(n.f('exp'), f)

    def e_Let(self, n, f):
        v = self.ev(n.f('exp'), f)
        return self.bound(f, n.f('variable').f('name'), v, lambda: self.ev(n.f('body'), f))

    def bound(self, f, name, v, go):
        old = f.vars.get(name, UNSET)
        had = name in f.vars
        f.vars[name] = v
        try:
            return go()
        finally:
            if had:
                f.vars[name] = old
            else:
                f.vars.pop(name, None)

    def e_InhaleExhaleExp(self, n, f):
        return self.ev(n.f('in_' if self.bindtypes else 'ex'), f)

    def e_CurrentPerm(self, n, f):
        r = n.f('res')
        if type(r).__name__ == 'FieldAccess':
            o = self.ev(r.f('rcv'), f)
            return f.perms.get((o, r.f('field').f('name')) if isinstance(o, Obj) else None, Fraction(0))
        args = [self.ev(a, f) for a in r.f('args').items]
        p = self.find_pred(f, r.f('predicateName'), args)
        return p[2] if p else Fraction(0)

    def find_pred(self, f, name, args):
        for p in f.preds:
            if p[0] == name and all(truth(eq(a, b)) for a, b in zip(p[1], args)):
                return p
        return None

    def e_ForPerm(self, n, f):
        vs = [v.f('name') for v in n.f('variables').items]
        r = n.f('resource')
        if type(r).__name__ == 'FieldAccess':
            cands = [((o,), a) for (o, fl), a in f.perms.items() if fl == r.f('field').f('name')]
        else:
            cands = [(p[1], p[2]) for p in f.preds if p[0] == r.f('predicateName')]
        for args, a in cands:
            if truth(a > 0):
                olds = dict(f.vars)
                f.vars.update(zip(vs, args))
                try:
                    if not truth(self.ev(n.f('body'), f)):
                        return False
                finally:
                    f.vars = olds
        return True

    def e_Unfolding(self, n, f):
        acc = n.f('acc')
        s = f.copy_perms()
        try:
            self.unfold(acc, f)
            return self.ev(n.f('body'), f)
        finally:
            f.set_perms(s)

    def e_Asserting(self, n, f):
        s = f.copy_perms()
        self.exhale(n.f('a'), f)
        f.set_perms(s)
        return self.ev(n.f('body'), f)

    # sequences, sets, maps
    def elems(self, n, f):
        return [self.ev(x, f) for x in n.f('elems').items]

    def e_ExplicitSeq(self, n, f):
        return tuple(self.elems(n, f))

    def e_EmptySeq(self, n, f):
        return ()

    def e_ExplicitSet(self, n, f):
        return VSet(self.elems(n, f))

    def e_EmptySet(self, n, f):
        return VSet()

    def e_EmptyMultiset(self, n, f):
        return VBag()

    def e_ExplicitMultiset(self, n, f):
        return VBag(self.elems(n, f))

    def e_EmptyMap(self, n, f):
        return VMap()

    def e_ExplicitMap(self, n, f):
        m = VMap()
        for x in n.f('elems').items:
            m = m.put(self.ev(x.f('key'), f), self.ev(x.f('value'), f))
        return m

    def e_AnySetContains(self, n, f):
        s, x = self.known(n.f('s'), f), self.ev(n.f('elem'), f)
        return s.has(x) if isinstance(s, VSet) else any(truth(eq(x, y)) for y in s.items)

    def known(self, n, f):
        v = self.ev(n, f)
        if isinstance(v, Unset):
            raise Unknown()
        return v

    def e_AnySetUnion(self, n, f):
        a, b = self.num2(n, f)
        return type(a)(a.items + b.items)

    def e_AnySetIntersection(self, n, f):
        a, b = self.num2(n, f)
        return VSet([x for x in a.items if b.has(x)])

    def e_AnySetMinus(self, n, f):
        a, b = self.num2(n, f)
        return VSet([x for x in a.items if not b.has(x)])

    def e_AnySetSubset(self, n, f):
        a, b = self.num2(n, f)
        return all(b.has(x) for x in a.items)

    def e_AnySetCardinality(self, n, f):
        return len(self.known(n.f('s'), f).items)

    def e_MapContains(self, n, f):
        return self.known(n.f('base'), f).get(self.ev(n.f('key'), f)) is not UNSET

    def e_MapLookup(self, n, f):
        v = self.known(n.f('base'), f).get(self.ev(n.f('key'), f))
        if v is UNSET:
            raise VFail('map key', n)
        return v

    def e_MapUpdate(self, n, f):
        return self.known(n.f('base'), f).put(self.ev(n.f('key'), f), self.ev(n.f('value'), f))

    def e_MapDomain(self, n, f):
        return VSet([k for k, _ in self.known(n.f('base'), f).items])

    def e_MapRange(self, n, f):
        return VSet([v for _, v in self.known(n.f('base'), f).items])

    def e_MapCardinality(self, n, f):
        return len(self.known(n.f('base'), f).items)

    def e_SeqAppend(self, n, f):
        a, b = self.num2(n, f)
        return a + b

    def e_SeqContains(self, n, f):
        s, x = self.known(n.f('s'), f), self.ev(n.f('elem'), f)
        return any(truth(eq(x, y)) for y in s)

    def e_SeqLength(self, n, f):
        return len(self.known(n.f('s'), f))

    def conc(self, i, n):
        """A position as a plain number, by cases."""
        if isinstance(i, Unset):
            raise Unknown()
        if isinstance(i, SInt):
            for k in range(n):
                if truth(i == k):
                    return k
            return n if truth(i >= n) else -1
        return i

    def e_SeqIndex(self, n, f):
        s = self.known(n.f('s'), f)
        i = self.conc(self.ev(n.f('idx'), f), len(s))
        if i < 0 or i >= len(s):
            raise VFail('sequence index', n)
        return s[i]

    def e_SeqTake(self, n, f):
        s = self.known(n.f('s'), f)
        return s[:max(0, self.conc(self.ev(n.f('n'), f), len(s)))]

    def e_SeqDrop(self, n, f):
        s = self.known(n.f('s'), f)
        return s[max(0, self.conc(self.ev(n.f('n'), f), len(s))):]

    def e_SeqUpdate(self, n, f):
        s = self.known(n.f('s'), f)
        i = self.conc(self.ev(n.f('idx'), f), len(s))
        if i < 0 or i >= len(s):
            raise VFail('sequence index', n)
        return s[:i] + (self.ev(n.f('elem'), f),) + s[i + 1:]

    def e_RangeSeq(self, n, f):
        a, b = self.ev(n.f('low'), f), self.ev(n.f('high'), f)
        out = []
        while truth(a < b):
            out.append(a)
            a = a + 1
            if len(out) > 50:
                raise PathInfeasible()
        return tuple(out)

    # quantifiers: over the values that occur (a check, not a proof)
    def universe(self, typ, f):
        t = str(typ)
        if t == 'Int':
            hi = 1
            for v in list(self.heap.values()) + list(f.vars.values()):
                if isinstance(v, tuple):
                    hi = max(hi, len(v) + 1)
            return list(range(-1, hi + 2))
        if t == 'Bool':
            return [True, False]
        if t == 'Ref':
            out, seen = [None], set()

            def add(v):
                if isinstance(v, (Obj, B)):
                    k = id(v) if isinstance(v, Obj) or not isinstance(v.v, (int, str)) or isinstance(v.v, SInt) else (v.ty, v.v)
                    if k not in seen:
                        seen.add(k)
                        out.append(v)
                        if isinstance(v, B) and isinstance(v.v, tuple):
                            add(v.v)
                elif isinstance(v, tuple):
                    for x in v:
                        add(x)
                elif isinstance(v, (VSet, VBag)):
                    for x in v.items:
                        add(x)
                elif isinstance(v, VMap):
                    for k, x in v.items:
                        add(k)
                        add(x)
            for (o, _), v in self.heap.items():
                add(o)
                add(v)
            for v in f.vars.values():
                add(v)
            for i in self.universe('Int', f):
                add(boxi(i))
            return out
        raise Unknown()

    def quant(self, n, f, want):
        vs = [v for v in n.f('variables').items]

        def go(k):
            if k == len(vs):
                return truth(self.ev(n.f('exp'), f)) == want
            for x in self.universe(vs[k].f('typ'), f):
                if self.bound(f, vs[k].f('name'), x, lambda: go(k + 1)):
                    return True
            return False
        return go(0)

    def e_Forall(self, n, f):
        return not self.quant(n, f, False)

    def e_Exists(self, n, f):
        return self.quant(n, f, True)

    # functions
    def e_FuncApp(self, n, f):
        name = n.f('funcname')
        return self.apply(name, [self.ev(a, f) for a in n.f('args').items], f, n)

    e_DomainFuncApp = e_FuncApp

    def apply(self, name, args, f, n):
        if name == 'typeof':
            return self.typeof(args[0])
        if name == 'issubtype':
            return self.issub(*args)
        m = re.match(r'(.*)_args?$', name)
        if m and name in self.domfuncs and args:
            t = deref(args[0])
            if isinstance(t, Hole):
                if not self.bindtypes and m.group(1) not in ('list', 'set', 'dict', 'PSeq', 'PSet', 'PMultiset', 'Iterator', 'tuple'):
                    raise Unknown()
                t.v = Ty(m.group(1), [Hole() for _ in self.domfuncs[m.group(1)].f('formalArgs').items])
                t = t.v
            if t.name != m.group(1):
                for s in self.allsupers(t):
                    if s.name == m.group(1):
                        t = s
                        break
                else:
                    return Hole()
            i = args[1] if len(args) > 1 else 0
            a = t.args
            if t.name == 'tuple':
                if name == 'tuple_args':
                    return a[0]
                a = deref(a[0])
                if isinstance(a, Hole):
                    raise Unknown()
            return a[i] if i < len(a) else Hole()
        if name == '_assuming':
            # the condition, which is assumed from here on, is its second argument
            c = n.f('args').items[1]
            if type(c).__name__ in ('FuncApp', 'DomainFuncApp'):
                f.facts.append((c.f('funcname'), [self.ev(a, f) for a in c.f('args').items], True))
            return args[0]
        fn = self.functions.get(name)
        if fn is None:
            d = self.domfuncs.get(name)
            if d is not None and str(d.f('typ')) == 'PyType':
                return Ty(name, args)
            nat = NAT.get(name)
            if nat:
                return nat(self, *args)
            return self.uninterpreted(name, args, f, d)
        g = Frame(dict(zip([a.f('name') for a in fn.f('formalArgs').items], args)))
        g.perms, g.preds, g.facts = dict(f.perms), [list(p) for p in f.preds], f.facts
        g.caller = f
        user = getattr(fn.pos(), 'line', None) is not None
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise PathInfeasible()
        saved, self.bindtypes = self.bindtypes, False
        try:
            self.pres(fn, g, n, user)
            body = opt(fn.f('body'))
            nat = NAT.get(name)
            if nat:
                return nat(self, *args)
            if body is not None:
                v = self.ev(body, g)
                if user:
                    g.result = v
                    for p in fn.f('posts').items:
                        if not type(p).__name__.startswith('Decreases') and not self.check(p, g):
                            raise VFail('postcondition of function', p, str(p)[:200])
                return v
            v = self.by_posts(fn, g)
            if v is not UNSET:
                return v
            return self.uninterpreted(name, args, f, fn)
        finally:
            self.bindtypes = saved
            self.depth -= 1

    def allsupers(self, t):
        out = []
        for s in self.supers(t):
            out.append(s)
            out += self.allsupers(s)
        return out

    def check(self, p, g):
        try:
            return truth(self.ev(p, g))
        except Unknown:
            return True

    def pres(self, fn, g, n, user):
        """The precondition holds here; the function sees what it grants."""
        s = g.copy_perms()
        got = Frame(g.vars)
        got.facts = g.facts
        for p in fn.f('pres').items:
            if type(p).__name__.startswith('Decreases'):
                continue
            try:
                self.exhale(p, g, got=got)
            except Unknown:
                pass
            except VFail as e:
                raise VFail('precondition of %s' % fn.f('name'), n, str(e)[:200]) from e
            g.set_perms(s)
        g.set_perms(got.copy_perms())

    def by_posts(self, fn, g):
        """The value the postconditions fix."""
        cands = []

        def hasres(e):
            return any(type(x).__name__ == 'Result' for x in e.walk())

        def look(p):
            k = type(p).__name__
            if k == 'And':
                return look(p.f('left')) or look(p.f('right'))
            if k == 'Implies' and not hasres(p.f('left')):
                try:
                    if truth(self.ev(p.f('left'), g)):
                        return look(p.f('right'))
                except Unknown:
                    pass
                return False
            if k == 'CondExp' and not hasres(p.f('cond')):
                try:
                    return look(p.f('thn') if truth(self.ev(p.f('cond'), g)) else p.f('els'))
                except Unknown:
                    return False
            if k == 'EqCmp':
                for a, b in ((p.f('left'), p.f('right')), (p.f('right'), p.f('left'))):
                    if type(a).__name__ == 'Result' and not hasres(b):
                        if any(type(x).__name__ == 'FuncApp' and x.f('funcname') == fn.f('name') for x in b.walk()):
                            continue
                        try:
                            cands.append(self.ev(b, g))
                            return cands[-1] is not UNSET
                        except Unknown:
                            cands[:] = []
                    # unboxing of the result fixes a boxed value
                    if type(a).__name__ == 'FuncApp' and not hasres(b) and len(a.f('args').items) == 1 and type(a.f('args').items[0]).__name__ == 'Result':
                        t = {'int___unbox__': boxi, 'bool___unbox__': boxb}.get(a.f('funcname'))
                        if t:
                            try:
                                cands.append(t(self.ev(b, g)))
                                return True
                            except Unknown:
                                pass
                return False
            if k == 'Result':
                cands.append(True)
                return True
            if k == 'Not' and type(p.f('exp')).__name__ == 'Result':
                cands.append(False)
                return True
            if k == 'Let' and not hasres(p.f('exp')):
                try:
                    v = self.ev(p.f('exp'), g)
                except Unknown:
                    return False
                return self.bound(g, p.f('variable').f('name'), v, lambda: look(p.f('body')))
            return False
        for p in fn.f('posts').items:
            if look(p):
                return cands[-1]
        return UNSET

    def uninterpreted(self, name, args, f, fn):
        for n2, a2, v in f.facts:
            if n2 == name and len(a2) == len(args) and all(truth(eq(x, y)) for x, y in zip(a2, args)):
                return v
        if fn is not None and str(fn.f('typ')) == 'Bool' and name == '_isDefined':
            return False
        raise Unknown()

    # ------------------------------------------------------------- assertions
    def amount(self, p, have):
        if p == 'wildcard':
            return have / 2 if have > 0 else TINY
        if isinstance(p, (SInt, SBool)):
            raise SymUnsupported('symbolic permission')
        return Fraction(p)

    def perm(self, n, f):
        p = n.f('perm')
        if type(p).__name__ in ('Some', '_None'):
            p = opt(p)
        return ONE if p is None else self.ev(p, f)

    def loc(self, n, f):
        l = n.f('loc')
        if type(l).__name__ == 'FieldAccess':
            return 'field', (self.ev(l.f('rcv'), f), l.f('field').f('name'))
        return 'pred', (l.f('predicateName'), tuple(self.ev(a, f) for a in l.f('args').items))

    def have(self, kind, key, f):
        if kind == 'field':
            return f.perms.get(key, Fraction(0)) if isinstance(key[0], Obj) else Fraction(0)
        p = self.find_pred(f, *key)
        return p[2] if p else Fraction(0)

    def give(self, kind, key, a, f, node):
        if a < 0:
            raise VFail('negative permission', node)
        if kind == 'field':
            if not isinstance(key[0], Obj):
                if a == 0:
                    return
                if isinstance(key[0], Unset):
                    raise Unknown()
                raise VFail('assumes false', node, 'permission to a field of %r' % (key[0],))
            f.perms[key] = f.perms.get(key, Fraction(0)) + a
            if f.perms[key] > 1:
                raise VFail('assumes false', node, 'more than full permission to %r.%s' % key)
        else:
            p = self.find_pred(f, *key)
            if p:
                p[2] += a
            else:
                f.preds.append([key[0], key[1], a])

    def take(self, kind, key, p, f, node):
        if kind == 'field' and isinstance(key[0], Unset):
            raise Unknown()
        h = self.have(kind, key, f)
        a = self.amount(p, h)
        if a < 0:
            raise VFail('negative permission', node)
        if a > h or (p == 'wildcard' and h <= 0):
            raise VFail('insufficient permission', node, '%s of %s(%r): have %s' % (a, kind, key, h))
        if kind == 'field':
            if a:
                f.perms[key] = h - a
        elif a:
            self.find_pred(f, *key)[2] -= a
        return a

    def reader(self, f):
        r = Frame()
        r.__dict__.update(f.__dict__)
        r.perms, r.preds = dict(f.perms), [list(p) for p in f.preds]
        return r

    def exhale(self, n, f, got=None, reader=None, keep=False, scale=ONE):
        """Check an assertion and give up its permissions (into `got`)."""
        if reader is None:
            reader = Frame()
            reader.__dict__.update(f.__dict__)
            reader.perms, reader.preds = dict(f.perms), [list(p) for p in f.preds]
        k = type(n).__name__
        if k.startswith('Decreases'):
            return
        if k == 'And':
            self.exhale(n.f('left'), f, got, reader, keep, scale)
            return self.exhale(n.f('right'), f, got, reader, keep, scale)
        if k == 'Implies' and not n.f('right').isPure():
            if truth(self.ev(n.f('left'), reader)):
                self.exhale(n.f('right'), f, got, reader, keep, scale)
            return
        if k == 'CondExp' and not n.isPure():
            return self.exhale(n.f('thn') if truth(self.ev(n.f('cond'), reader)) else n.f('els'), f, got, reader, keep, scale)
        if k == 'Let' and not n.isPure():
            v = self.ev(n.f('exp'), reader)
            name = n.f('variable').f('name')
            return self.bound(reader, name, v, lambda: self.exhale(n.f('body'), f, got, reader, keep, scale))
        if k == 'InhaleExhaleExp' and type(n.f('ex')).__name__ == 'CondExp' and str(n.f('in_')).startswith('(_int_to_bool('):
            e = n.f('ex')
            side = truth(self.ev(e.f('cond'), f))
            self.sides[(str(e.f('cond').f('left')).rsplit('.', 1)[-1], self.ev(n.f('in_').f('cond').f('args').items[-1], f))] = side
        if k == 'InhaleExhaleExp':
            return self.exhale(n.f('ex'), f, got, reader, keep, scale)
        if k in ('FieldAccessPredicate', 'PredicateAccessPredicate'):
            kind, key = self.loc(n, reader)
            p = self.perm(n, reader)
            if p != 'wildcard' and scale != ONE:
                p = p * scale
            a = self.take(kind, key, p, f, n)
            if got is not None:
                self.give(kind, key, a, got, n)
            return
        if k == 'Forall' and not n.isPure():
            return self.qp(n, reader, lambda b: self.exhale(b, f, got, reader, keep, scale))
        try:
            v = truth(self.ev(n, reader))
        except Unknown:
            self.doubt(n, f)
            return
        if not v:
            raise VFail('assertion might not hold', n, str(n)[:200])

    doubts = None

    def doubt(self, n, f):
        raise Unknown()

    def qp(self, n, f, go):
        vs = [v for v in n.f('variables').items]
        body = n.f('exp')

        def rec(k):
            if k == len(vs):
                if type(body).__name__ == 'Implies':
                    if truth(self.ev(body.f('left'), f)):
                        go(body.f('right'))
                else:
                    go(body)
                return
            for x in self.universe(vs[k].f('typ'), f):
                self.bound(f, vs[k].f('name'), x, lambda: rec(k + 1))
        rec(0)

    def inhale(self, n, f, scale=ONE):
        """Add permissions; what is assumed must be so."""
        k = type(n).__name__
        if k.startswith('Decreases'):
            return
        if k == 'And':
            self.inhale(n.f('left'), f, scale)
            return self.inhale(n.f('right'), f, scale)
        if k == 'Implies':
            try:
                g = truth(self.ev(n.f('left'), f))
            except Unknown:
                if n.f('right').isPure():
                    return
                raise
            if g:
                self.inhale(n.f('right'), f, scale)
            return
        if k == 'CondExp' and not n.isPure():
            return self.inhale(n.f('thn') if truth(self.ev(n.f('cond'), f)) else n.f('els'), f, scale)
        if k == 'Let':
            v = self.ev(n.f('exp'), f)
            return self.bound(f, n.f('variable').f('name'), v, lambda: self.inhale(n.f('body'), f, scale))
        if k == 'InhaleExhaleExp':
            return self.inhale(self.chosen(n, f), f, scale)
        if k in ('FieldAccessPredicate', 'PredicateAccessPredicate'):
            kind, key = self.loc(n, f)
            p = self.perm(n, f)
            if p != 'wildcard' and scale != ONE:
                p = p * scale
            return self.give(kind, key, self.amount(p, Fraction(0)), f, n)
        if k == 'Forall' and not n.isPure():
            return self.qp(n, f, lambda b: self.inhale(b, f, scale))
        if k in ('FuncApp', 'DomainFuncApp') and n.f('funcname') in ('_isDefined',):
            f.facts.append((n.f('funcname'), [self.ev(a, f) for a in n.f('args').items], True))
            return
        self.bindtypes = True
        try:
            v = truth(self.ev(n, f))
        except Unknown:
            self.learn(n, f)
            return
        finally:
            self.bindtypes = False
        if not v:
            if self.rechecked(n, f):
                return
            raise VFail('assumes false', n, str(n)[:200])

    def rechecked(self, n, f):
        """The body of a method assumes that its receiver is exactly of its class; for a class that
        inherits the method it is verified again under the assumption that it is exactly of that class."""
        m = getattr(f, 'method', None)
        if m is None or type(n).__name__ != 'EqCmp' or not str(n.f('left')).startswith('typeof(') and not str(n).startswith('(typeof('):
            return False
        a = n.f('left').f('args').items[0]
        if str(a) != m.f('formalArgs').items[0].f('name'):
            return False
        dyn = deref(self.typeof(self.ev(a, f)))
        if not isinstance(dyn, Ty):
            return False
        for k in self.methods:
            g = re.match(r'(.*)_inherit_check(_\d+)?$', k)
            if g and g.group(1).startswith(dyn.name + '_') and m.f('name').endswith(g.group(1)[len(dyn.name):]):
                return True
        return False

    def chosen(self, n, f):
        """What is assumed of [c ? A : B, perm(x.f) > none ? A : B], where c is arbitrary: the side that was given."""
        i, e = n.f('in_'), n.f('ex')
        if type(i).__name__ == 'CondExp' and type(e).__name__ == 'CondExp' and str(i.f('cond')).startswith('_int_to_bool('):
            side = self.sides.get((str(e.f('cond').f('left')).rsplit('.', 1)[-1], self.ev(i.f('cond').f('args').items[-1], f)))
            if side is not None:
                return i.f('thn' if side else 'els')
        return i

    def learn(self, n, f):
        """An equation fixes what nothing was known about."""
        if type(n).__name__ == 'EqCmp':
            for a, b in ((n.f('left'), n.f('right')), (n.f('right'), n.f('left'))):
                try:
                    v = self.ev(b, f)
                except Unknown:
                    continue
                if v is UNSET:
                    continue
                if type(a).__name__ == 'FieldAccess':
                    r = self.ev(a.f('rcv'), f)
                    key = (r, a.f('field').f('name'))
                    if isinstance(r, Obj) and self.heap.get(key, UNSET) is UNSET:
                        self.heap[key] = v
                        return True
                if type(a).__name__ == 'LocalVar' and f.vars.get(a.f('name'), UNSET) is UNSET:
                    f.vars[a.f('name')] = v
                    return True
        if type(n).__name__ in ('FuncApp', 'DomainFuncApp'):
            if n.f('funcname') == 'issubtype':
                # an arbitrary object of a given type
                a, t = n.f('args').items
                if type(a).__name__ == 'DomainFuncApp' and a.f('funcname') == 'typeof':
                    x = a.f('args').items[0]
                    if type(x).__name__ == 'LocalVar' and f.vars.get(x.f('name'), UNSET) is UNSET:
                        f.vars[x.f('name')] = Obj(self.ev(t, f))
                        return True
            try:
                f.facts.append((n.f('funcname'), [self.ev(a, f) for a in n.f('args').items], True))
            except Unknown:
                pass
        return False

    # ------------------------------------------------------------- statements
    def flat(self, s):
        if type(s).__name__ == 'Seqn':
            return [y for x in s.f('ss').items for y in self.flat(x)]
        return [s]

    def labels_in(self, n):
        k = '_labels'
        v = n.__dict__.get(k)
        if v is None:
            v = set()
            t = type(n).__name__
            if t == 'Label':
                v.add(n.f('name'))
            elif t in ('Seqn', 'If', 'While'):
                for c in ([n.f('thn'), n.f('els')] if t == 'If' else [n.f('body')] if t == 'While' else n.f('ss').items):
                    v |= self.labels_in(c)
            n.__dict__[k] = v
        return v

    def run_seq(self, s, f, start=None):
        ss = self.flat(s)
        i = 0
        while i < len(ss) or start:
            try:
                if start:
                    g = start
                    start = None
                    raise Goto(g)
                self.st(ss[i], f)
            except Goto as g:
                # a label here, or inside a statement here (handlers lie behind the loop they belong to)
                for again in range(20):
                    for j, x in enumerate(ss):
                        if g.label in self.labels_in(x):
                            break
                    else:
                        raise g
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise PathInfeasible()
                    i = j
                    if type(x).__name__ == 'Label':
                        self.st(x, f)
                        break
                    try:
                        if type(x).__name__ == 'If':
                            self.run_seq(x.f('thn') if g.label in self.labels_in(x.f('thn')) else x.f('els'), f, g.label)
                        else:
                            self.s_While(x, f, g.label)
                        break
                    except Goto as h:
                        g = h
                else:
                    raise PathInfeasible()
            i += 1

    def st(self, s, f):
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathInfeasible()
        h = getattr(self, 's_' + type(s).__name__, None)
        if h is None:
            raise SymUnsupported('Viper statement %s' % type(s).__name__)
        return h(s, f)

    def s_Seqn(self, s, f):
        self.run_seq(s, f)

    def s_LocalVarAssign(self, s, f):
        try:
            f.vars[s.f('lhs').f('name')] = self.ev(s.f('rhs'), f)
        except Unknown:
            f.vars[s.f('lhs').f('name')] = UNSET

    def s_FieldAssign(self, s, f):
        l = s.f('lhs')
        r = self.ev(l.f('rcv'), f)
        fld = l.f('field').f('name')
        v = self.ev(s.f('rhs'), f)
        if not isinstance(r, Obj) or f.perms.get((r, fld), 0) < 1:
            raise VFail('insufficient permission', s, 'write %r.%s' % (r, fld))
        self.heap[(r, fld)] = v

    def s_NewStmt(self, s, f):
        o = Obj()
        f.vars[s.f('lhs').f('name')] = o
        for fl in s.f('fields').items:
            f.perms[(o, fl.f('name'))] = ONE

    def s_Label(self, s, f):
        f.labels[s.f('name')] = (dict(self.heap), f.copy_perms())

    def s_Goto(self, s, f):
        raise Goto(s.f('target'))

    def s_If(self, s, f):
        self.run_seq(s.f('thn') if truth(self.ev(s.f('cond'), f)) else s.f('els'), f)

    def s_Inhale(self, s, f):
        self.inhale(s.f('exp'), f)

    s_Assume = s_Inhale

    def s_Exhale(self, s, f):
        self.exhale(s.f('exp'), f)

    def s_Assert(self, s, f):
        p = f.copy_perms()
        self.exhale(s.f('exp'), f)
        f.set_perms(p)

    def s_Refute(self, s, f):
        pass

    def s_Fold(self, s, f):
        acc = s.f('acc')
        kind, (name, args) = self.loc(acc, f)
        p = self.amount(self.perm(acc, f), Fraction(2))
        self.pred_body(name, args, f, p, s, False)
        self.give('pred', (name, args), p, f, s)

    def s_Unfold(self, s, f):
        self.unfold(s.f('acc'), f)

    def unfold(self, acc, f):
        kind, (name, args) = self.loc(acc, f)
        p = self.perm(acc, f)
        a = self.take('pred', (name, args), p, f, acc)
        self.pred_body(name, args, f, a, acc, True)

    def pred_body(self, name, args, f, p, node, inh):
        pr = self.predicates[name]
        body = opt(pr.f('body'))
        if body is None:
            raise VFail('abstract predicate', node)
        vs = dict(zip([a.f('name') for a in pr.f('formalArgs').items], args))
        g = Frame(vs)
        g.facts = f.facts
        if inh:
            g.set_perms(f.copy_perms())
            self.inhale(body, g, p)
        else:
            g.set_perms(f.copy_perms())
            try:
                self.exhale(body, g, scale=p)
            except VFail as e:
                raise VFail(e.kind, node, e.what) from e
        f.set_perms(g.copy_perms())

    def s_While(self, s, f, start=None):
        invs = s.f('invs').items
        it = 0
        rest = ({}, [])
        while True:
            if start is None:
                got = Frame(f.vars)
                rd = self.reader(f)
                for i in invs:
                    self.exhale(i, f, got, rd)
                self.merge(f, rest)
                rest = f.copy_perms()
                f.set_perms(got.copy_perms())
                c = truth(self.ev(s.f('cond'), f))
                if not c:
                    break
            it += 1
            if it > 40:
                raise PathInfeasible()
            try:
                self.run_seq(s.f('body'), f, start)
                start = None
            except Goto:
                self.merge(f, rest)
                raise
        self.merge(f, rest)

    def merge(self, f, rest):
        for k, a in rest[0].items():
            f.perms[k] = f.perms.get(k, Fraction(0)) + a
        for n, args, a in rest[1]:
            p = self.find_pred(f, n, args)
            if p:
                p[2] += a
            else:
                f.preds.append([n, args, a])

    def s_MethodCall(self, s, f):
        m = self.methods[s.f('methodName')]
        args = [self.ev(a, f) for a in s.f('args').items]
        tg = [t.f('name') for t in s.f('targets').items]
        res = self.call(m, args, f, s)
        for t, v in zip(tg, res):
            f.vars[t] = v

    def call(self, m, args, f, node):
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise PathInfeasible()
        try:
            return self._call(m, args, f, node)
        finally:
            self.depth -= 1

    def _call(self, m, args, f, node):
        name = m.f('name')
        check = self.overriding(name, args, f)
        if check:
            return self._call(check, args, f, node)
        formals = [a.f('name') for a in m.f('formalArgs').items]
        rets = [a.f('name') for a in m.f('formalReturns').items]
        user = getattr(m.pos(), 'line', None) is not None or re.search(r'_(override|inherit)_check(_\d+)?$', name) is not None
        # the caller gives up what the callee requires
        c = Frame(dict(zip(formals, args)))
        c.set_perms(f.copy_perms())
        c.facts = f.facts
        callee = Frame(dict(zip(formals, args)))
        callee.heap0 = None
        before = dict(self.heap)
        rd = self.reader(c)
        for p in m.f('pres').items:
            try:
                self.exhale(p, c, callee, rd)
            except VFail as e:
                raise VFail('precondition of call', node, '%s: %s' % (name, e)) from e
            except Unknown:
                if user:
                    raise
        if user and opt(m.f('body')) is not None:
            self.framed(m.f('pres').items, dict(zip(formals, args)), None, f)
        callee.old = (before, callee.copy_perms())
        for r in rets:
            callee.vars[r] = UNSET
        given = callee.copy_perms()
        body = opt(m.f('body'))
        nat = NATM.get(name)
        if nat:
            nat(self, callee)
        elif user and body is not None:
            self.run_method(m, callee)
        else:
            self.abstract(m, callee)
        # and gets what it ensures
        f.set_perms(c.copy_perms())
        if nat or not (user and body is not None):
            for k, a in callee.perms.items():
                if a:
                    self.give('field', k, a, f, node)
            for n, aa, a in callee.preds:
                if a:
                    self.give('pred', (n, aa), a, f, node)
        else:
            r = Frame(callee.entry)
            for x in rets:
                r.vars[x] = callee.vars[x]
            r.old = callee.old
            r.set_perms(f.copy_perms())
            r.facts = f.facts
            for p in m.f('posts').items:
                self.inhale(p, r)
            f.set_perms(r.copy_perms())
        return [callee.vars[x] for x in rets]

    def overriding(self, name, args, f):
        """A call of a method that the receiver's class overrides does what the override check does."""
        if self.dispatch is None or not args or not isinstance(args[0], Obj):
            return None
        ty = deref(args[0].ty)
        if not isinstance(ty, Ty):
            return None
        k = self.dispatch(name, getattr(f, 'method', None), ty.name)
        if k is None:
            return None
        kind, k = k
        if re.match(re.escape(k) + r'_inherit_check', f.method.f('name')):
            return None
        for x in self.methods:
            if re.fullmatch(re.escape(k) + '_%s_check' % kind + r'(_\d+)?', x):
                return self.methods[x]
        raise NoCheck(k)

    def framed(self, conds, vars, old, f):
        """The conditions read only what they (so far) give permission to."""
        g = Frame(vars)
        g.set_perms(Frame().copy_perms())
        g.facts, g.old = list(f.facts), old
        for p in conds:
            try:
                self.inhale(p, g)
            except VFail as e:
                if e.kind == 'insufficient permission':
                    raise VFail('contract reads what it has no permission to', p, e.what)
                raise
            except Unknown:
                return

    def run_method(self, m, fr):
        """The body, from its precondition to its postcondition."""
        fr.entry = dict(fr.vars)
        fr.method = m
        fr.set_perms(fr.copy_perms())
        if not fr.old:
            fr.old = (dict(self.heap), fr.copy_perms())
        try:
            self.run_seq(opt(m.f('body')), fr)
        except Goto as g:
            raise VFail('jump to a label that does not exist: %s' % g.label, m)
        e = Frame(fr.entry)
        e.vars = dict(fr.entry)
        for r in m.f('formalReturns').items:
            e.vars[r.f('name')] = fr.vars.get(r.f('name'), UNSET)
        e.old, e.facts = fr.old, fr.facts
        e.set_perms(fr.copy_perms())
        rd = self.reader(e)
        for p in m.f('posts').items:
            try:
                self.exhale(p, e, None, rd)
            except VFail as x:
                raise VFail('postcondition: ' + x.kind, p, x.what) from x
        self.framed(m.f('posts').items, dict(e.vars), fr.old, fr)
        self.left = e.copy_perms()

    def abstract(self, m, fr):
        """A method known by its contract: the postconditions say what it does."""
        pos = list(m.f('posts').items)
        have = {k: a for k, a in fr.perms.items()}
        for k, a in have.items():
            if a >= 1:
                self.heap[k] = UNSET
        for r in m.f('formalReturns').items:
            if str(r.f('typ')) == 'Ref':
                created = any(type(n).__name__ == 'FieldAccessPredicate' and type(n.f('loc').f('rcv')).__name__ == 'LocalVar' and n.f('loc').f('rcv').f('name') == r.f('name')
                              for p in pos for n in p.walk())
                if created:
                    fr.vars[r.f('name')] = Obj()
        s = fr.copy_perms()
        fr.set_perms(({}, []))
        for rounds in range(2):
            for p in pos:
                if rounds and not p.isPure():
                    continue
                self.inhale(p, fr)

    def heap_of(self):
        return self.heap


def _heapview(self, interp):
    return interp.heap


Frame.heapview = _heapview

NAT, NATM = {}, {}


def nat(name):
    def d(fn):
        NAT[name] = fn
        return fn
    return d


def natm(name):
    def d(fn):
        NATM[name] = fn
        return fn
    return d


@nat('__prim__int___box__')
def _(I, v):
    if isinstance(v, Unset):
        return UNSET
    return boxi(v)


@nat('__prim__bool___box__')
def _(I, v):
    if isinstance(v, Unset):
        return UNSET
    return boxb(v)


@nat('int___unbox__')
def _(I, r):
    if isinstance(r, Unset):
        return UNSET
    if isinstance(r, B) and r.ty == 'bool':
        return 1 if truth(r.v) else 0
    if isinstance(r, B) and r.ty == 'int':
        return r.v
    raise Unknown()


@nat('bool___unbox__')
def _(I, r):
    if isinstance(r, Unset):
        return UNSET
    if isinstance(r, B) and r.ty == 'bool':
        return r.v
    raise Unknown()


@natm('Iterator___next__')
def _(I, fr):
    it = fr.vars['self']
    l, i, pv = [I.heap.get((it, k), UNSET) for k in ('list_acc', '__iter_index', '__previous')]
    ret = [r.f('name') for r in I.methods['Iterator___next__'].f('formalReturns').items]
    n = len(l)
    if i < n:
        fr.vars[ret[0]], fr.vars[ret[1]] = l[i], None
        I.heap[(it, '__iter_index')] = i + 1
        I.heap[(it, '__previous')] = l[:i]
    else:
        fr.vars[ret[0]], fr.vars[ret[1]] = (l[-1] if l else UNSET), Obj(Ty('StopIteration'))
        I.heap[(it, '__iter_index')] = i
        I.heap[(it, '__previous')] = l


@nat('str___create__')
def _(I, n, val):
    return B('str', tuple(val))


@nat('str___val__')
def _(I, s):
    return s.v


@nat('str___len__')
def _(I, s):
    return len(s.v)


@nat('str___eq__')
def _(I, a, b):
    return eq(a, b)


@nat('str___add__')
def _(I, a, b):
    return B('str', a.v + b.v)


@nat('str___bool__')
def _(I, a):
    return a is not None and len(a.v) > 0


for _n in range(10):
    NAT['tuple___create%d__' % _n] = (lambda n: lambda I, *a: B('tuple', tuple(a[:n])))(_n)


@nat('tuple___val__')
def _(I, s):
    return s.v


NAT['tuple___sil_seq__'] = NAT['tuple___val__']


@nat('tuple___len__')
def _(I, s):
    return len(s.v)


@nat('tuple___eq__')
def _(I, a, b):
    return len(a.v) == len(b.v) and all(peq(I, x, y) for x, y in zip(a.v, b.v))


@nat('tuple___contains__')
def _(I, a, b):
    return any(peq(I, x, b) for x in a.v)


def peq(I, x, y):
    """Python's == on references."""
    if isinstance(x, B) and isinstance(y, B):
        if x.ty in ('int', 'bool') and y.ty in ('int', 'bool'):
            return truth(NAT['int___unbox__'](I, x) == NAT['int___unbox__'](I, y))
        if x.ty == y.ty == 'tuple':
            return NAT['tuple___eq__'](I, x, y)
    return truth(eq(x, y))


@nat('int___eq__')
def _(I, a, b):
    return peq(I, a, b)


@nat('object___bool__')
def _(I, a):
    if a is None:
        return False
    if isinstance(a, B):
        if a.ty in ('int', 'bool'):
            return truth(a.v != 0) if a.ty == 'int' else truth(a.v)
        return len(a.v) > 0
    t = deref(a.ty)
    for k in ('list', 'set', 'dict', 'PSeq', 'PSet', 'bytearray'):
        if isinstance(t, Ty) and t.name == k:
            v = I.heap.get((a, {'list': 'list_acc', 'set': 'set_acc', 'dict': 'dict_acc'}.get(k)), UNSET)
            if v is UNSET:
                raise Unknown()
            return len(v if isinstance(v, tuple) else v.items) > 0
    return True


class Slice:
    pass


@nat('slice___create__')
def _(I, a, b):
    return B('slice', (a, b))


@nat('slice___internal_start__')
def _(I, s):
    return s.v[0]


@nat('slice___internal_stop__')
def _(I, s):
    return s.v[1]


@nat('range___create__')
def _(I, a, b, ctr):
    out = []
    while truth(a < b):
        out.append(a)
        a = a + 1
        if len(out) > 30:
            raise PathInfeasible()
    return B('range', tuple(out))


@nat('range___create_step__')
def _(I, a, b, st, ctr):
    out = []
    if isinstance(st, SInt):
        raise SymUnsupported('symbolic step')
    while truth(a < b if st > 0 else a > b):
        out.append(a)
        a = a + st
        if len(out) > 30:
            raise PathInfeasible()
    return B('range', tuple(out))


@nat('range___val__')
def _(I, s):
    return s.v


@nat('range___sil_seq__')
def _(I, s):
    return tuple(boxi(x) for x in s.v)


@nat('range___len__')
def _(I, s):
    return len(s.v)


@nat('range___contains__')
def _(I, s, x):
    return any(truth(NAT['int___unbox__'](I, x) == y) for y in s.v) if isinstance(x, B) and x.ty in ('int', 'bool') else False


for _k in ('PSeq', 'PSet', 'PMultiset'):
    NAT[_k + '___create__'] = (lambda k: lambda I, v, t: UNSET if isinstance(v, Unset) else B(k, v, Ty(k, [t])))(_k)
NAT['PSeq___sil_seq__'] = NAT['PSet___unbox__'] = NAT['PMultiset___unbox__'] = NAT['tuple___val__']


@nat('PSet___sil_seq__')
def _(I, s):
    return tuple(s.v.items)


NAT['PMultiset___sil_seq__'] = NAT['PSet___sil_seq__']


@nat('PMultiset_num')
def _(I, s, x):
    return sum(1 for y in s.v.items if truth(eq(x, y)))


@nat('set___sil_seq__')
def _(I, s):
    return tuple(I.heap[(s, 'set_acc')].items)


@nat('dict___sil_seq__')
def _(I, s):
    return tuple(k for k, _ in I.heap[(s, 'dict_acc')].items)


@nat('list___eq__')
def _(I, a, b):
    x, y = I.heap[(a, 'list_acc')], I.heap[(b, 'list_acc')]
    return len(x) == len(y) and all(peq(I, p, q) for p, q in zip(x, y))


@nat('object___eq__')
def _(I, a, b):
    return peq(I, a, b)
