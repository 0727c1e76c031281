"""Denotation of Silver expressions (fakejvm Nodes) in the standard Python model.

Reference values are Python values:
  vnull | vint(i) | vbool(b) | vobj(k)         (vobj: every other object)
Sequences are (length, index function) pairs, so equality is extensional.
Prelude functions are interpreted by the table PY (Python's own semantics,
written from the language reference), never by their Silver contracts: the
Silver contracts are what is being checked.
"""
import itertools
import z3
import fakejvm as J
from fakejvm import cls

# ---------------------------------------------------------------- sorts
V = z3.Datatype('V')
V.declare('vnull')
V.declare('vint', ('ival', z3.IntSort()))
V.declare('vbool', ('bval', z3.BoolSort()))
V.declare('vobj', ('oid', z3.IntSort()))
V = V.create()

T = z3.Datatype('T')
for n in ('int', 'bool', 'float', 'str', 'bytes', 'bytearray', 'PByteSeq', 'range_0', 'slice', 'object',
          'NoneType', 'EllipsisType'):
    T.declare('t_' + n)
for n in ('list', 'set', 'Iterator', 'PSeq', 'PSet', 'PMultiset'):
    T.declare('t_' + n, ('a_' + n, T))
T.declare('t_dict', ('k_dict', T), ('v_dict', T))
T.declare('t_tuple', ('tid', z3.IntSort()))         # tuple types; arguments by ttargs
T.declare('t_user', ('uid', z3.IntSort()))
T = T.create()

INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
null = V.vnull
_ctr = itertools.count()


def fresh(sort, base='x'):
    return z3.Const('%s!%d' % (base, next(_ctr)), sort)


def And(*xs):
    xs = [x for x in xs if not (isinstance(x, bool) and x)]
    if any(isinstance(x, bool) for x in xs):
        return z3.BoolVal(False)
    return z3.And(*xs) if xs else z3.BoolVal(True)


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


otype = z3.Function('otype', INT, T)
ttlen = z3.Function('ttlen', INT, INT)
ttarg = z3.Function('ttarg', INT, INT, T)


def is_int(v):
    return z3.Or(V.is_vint(v), V.is_vbool(v))


def num(v):
    if isinstance(v, Made):
        return fresh(INT, 'junk')
    """int(v) for an int or bool value."""
    return z3.If(V.is_vint(v), V.ival(v), z3.If(V.is_vbool(v), z3.If(V.bval(v), z3.IntVal(1), z3.IntVal(0)),
                                                junkint(v)))


junkint = z3.Function('junkint', V, INT)


class Made:
    """A Python object given by its dynamic type and its contents."""
    def __init__(self, kind, typ, **c):
        self.kind, self.typ, self.c = kind, typ, c

    def __repr__(self):
        return 'Made(%s,%s)' % (self.kind, self.c)


class SSeq:
    def __init__(self, n, at, sort):
        self.n, self.at, self.sort = n, at, sort

    @staticmethod
    def lit(xs, sort):
        def at(i):
            r = junk(sort)
            for k in reversed(range(len(xs))):
                r = z3.If(i == k, xs[k], r) if k else (z3.If(i == 0, xs[0], r))
            return r
        return SSeq(z3.IntVal(len(xs)), at, sort)

    @staticmethod
    def new(sort, base='s'):
        k = next(_ctr)
        a = z3.Function('%s_at!%d' % (base, k), INT, sort)
        n = z3.Int('%s_len!%d' % (base, k))
        s = SSeq(n, lambda i: a(i), sort)
        s.decl = a
        return s

    def cat(self, o):
        return SSeq(self.n + o.n, lambda i: z3.If(i < self.n, self.at(i), o.at(i - self.n)), self.sort)

    def take(self, k):
        n = z3.If(k < 0, 0, z3.If(k > self.n, self.n, k))
        return SSeq(n, self.at, self.sort)

    def drop(self, k):
        d = z3.If(k < 0, 0, z3.If(k > self.n, self.n, k))
        return SSeq(self.n - d, lambda i: self.at(i + d), self.sort)

    def upd(self, k, x):
        return SSeq(self.n, lambda i: z3.If(i == k, x, self.at(i)), self.sort)

    def map(self, f, sort):
        return SSeq(self.n, lambda i: f(self.at(i)), sort)

    def eq(self, o):
        i = fresh(INT, 'i')
        return z3.And(self.n == o.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), veq(self.at(i), o.at(i)))))

    def has(self, x):
        i = fresh(INT, 'i')
        return z3.Exists([i], z3.And(0 <= i, i < self.n, veq(self.at(i), x)))


_junk = {}


def junk(sort):
    if sort not in _junk:
        _junk[sort] = z3.Const('junk_%s' % sort, sort)
    return _junk[sort]


class SSet:
    """mem: value -> Bool; card: Int"""
    def __init__(self, mem, card, sort):
        self.mem, self.card, self.sort = mem, card, sort

    def eq(self, o):
        x = fresh(self.sort, 'x')
        return z3.ForAll([x], self.mem(x) == o.mem(x))


class SMul:
    def __init__(self, cnt, card, sort):
        self.cnt, self.card, self.sort = cnt, card, sort

    def eq(self, o):
        x = fresh(self.sort, 'x')
        return z3.ForAll([x], self.cnt(x) == o.cnt(x))


class SMap:
    def __init__(self, has, get, card, ks, vs):
        self.has, self.get, self.card, self.ks, self.vs = has, get, card, ks, vs

    def eq(self, o):
        x = fresh(self.ks, 'x')
        return z3.ForAll([x], z3.And(self.has(x) == o.has(x), z3.Implies(self.has(x), veq(self.get(x), o.get(x)))))


class TT:
    """A tuple type given by its argument sequence."""
    def __init__(self, args):
        self.args = args


def ttargs(t):
    if isinstance(t, TT):
        return t.args
    return SSeq(z3.If(T.is_t_tuple(t), ttlen(T.tid(t)), 0), lambda i: ttarg(T.tid(t), i), T)


def veq(a, b):
    if isinstance(a, TT) or isinstance(b, TT):
        s = ttargs(a).eq(ttargs(b))
        for t in (a, b):
            if not isinstance(t, TT):
                s = z3.And(s, T.is_t_tuple(t))
        return s
    if isinstance(a, Made) or isinstance(b, Made):
        return made_eq(a, b)
    if isinstance(a, (SSeq, SSet, SMul, SMap)):
        return a.eq(b)
    return a == b


def made_eq(a, b):
    """Silver (reference) equality where one side is a made object. Only value
    classes (PSeq, PSet, PMultiset, PByteSeq, str/bytes/tuple literals) are
    compared: they are equal iff type and contents are."""
    if a is b:
        return z3.BoolVal(True)
    m = a if isinstance(a, Made) else b
    o = b if m is a else a
    if m.kind == 'opaque':
        return o == m.c['ref'] if not isinstance(o, Made) else o.c.get('ref') == m.c['ref']
    conj = [veq(typeof(m), typeof(o))]
    for key in m.c:
        obs = OBS[m.kind, key]
        conj.append(veq(m.c[key], obs(o)))
    if not isinstance(o, Made):
        conj.append(V.is_vobj(o))
    return z3.And(*conj)


# -------------------------------------------------------- types
def typeof(v):
    if isinstance(v, Made):
        return v.typ
    return z3.If(V.is_vint(v), T.t_int, z3.If(V.is_vbool(v), T.t_bool, z3.If(V.is_vnull(v), T.t_NoneType,
                                                                         otype(V.oid(v)))))


usub = z3.Function('usub', T, T, BOOL)


def issubtype(a, b):
    if isinstance(a, TT) or isinstance(b, TT):
        sa, sb = ttargs(a), ttargs(b)
        i = fresh(INT, 'i')
        c = [sa.n == sb.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sa.n), issubtype(sa.at(i), sb.at(i))))]
        if not isinstance(a, TT):
            c.append(T.is_t_tuple(a))
        if not isinstance(b, TT):
            return z3.Or(b == T.t_object, z3.And(T.is_t_tuple(b), *c))
        return z3.And(*c)
    return z3.Or(a == b, b == T.t_object,
                 z3.And(a == T.t_bool, z3.Or(b == T.t_int, b == T.t_float)),
                 z3.And(a == T.t_int, b == T.t_float),
                 z3.And(T.is_t_user(a), T.is_t_user(b), usub(a, b)),
                 z3.And(T.is_t_tuple(a), T.is_t_tuple(b), usub(a, b)))


def wf_obj(v):
    """vobj never carries a type that has its own constructor."""
    t = otype(V.oid(v))
    return z3.Implies(V.is_vobj(v), z3.And(t != T.t_int, t != T.t_bool, t != T.t_NoneType))


# -------------------------------------------------------- observers
_obs = {}


def obs_fn(name, *sorts):
    if name not in _obs:
        _obs[name] = z3.Function(name, *sorts)
    return _obs[name]


def seq_obs(kind, sort, valid_type=None):
    """Contents of an immutable sequence object. Objects of another type get a
    junk content no valid object has (length -1)."""
    def f(v):
        if isinstance(v, Made):
            if 'val' in v.c:
                return v.c['val']
            return SSeq(z3.IntVal(-1), lambda i: junk(sort), sort)
        n = obs_fn(kind + '_len', INT, INT)
        a = obs_fn(kind + '_at', INT, INT, sort)
        ok = z3.And(V.is_vobj(v), valid_type(otype(V.oid(v))))
        return SSeq(z3.If(ok, n(V.oid(v)), z3.IntVal(-1)), lambda i: a(V.oid(v), i), sort)
    return f


is_t = lambda name: (lambda t: getattr(T, 'is_t_' + name)(t))
str_val = seq_obs('str', INT, is_t('str'))
bytes_val = seq_obs('bytes', V, is_t('bytes'))
pseq_val = seq_obs('PSeq', V, is_t('PSeq'))
pbs_val = seq_obs('PByteSeq', INT, is_t('PByteSeq'))
tup_val = seq_obs('tuple', V, is_t('tuple'))


def range_f(which):
    def f(v):
        if isinstance(v, Made):
            return v.c[which]
        return obs_fn('range_' + which, INT, INT)(V.oid(v))
    return f


r_start, r_stop, r_step, _r_len = [range_f(w) for w in ('start', 'stop', 'step', 'n')]


def r_len(v):
    if isinstance(v, Made):
        return _r_len(v)
    return z3.If(z3.And(V.is_vobj(v), T.is_t_range_0(otype(V.oid(v)))), _r_len(v), z3.IntVal(-1))



def range_val(v):
    s, st = r_start(v), r_step(v)
    return SSeq(r_len(v), lambda i: s + i * st, INT)


def pyrange_len(start, stop, step):
    """len(range(start, stop, step)) for step > 0 (library reference)."""
    return z3.If(stop <= start, z3.IntVal(0), (stop - start + step - 1) / step)


def slice_b(which):
    def f(v):
        if isinstance(v, Made):
            return v.c[which]
        return obs_fn('slice_' + which, INT, V)(V.oid(v))
    return f


sl_start, sl_stop = slice_b('start'), slice_b('stop')


def pset_mem(v):
    if isinstance(v, Made):
        return v.c['set']
    m = obs_fn('PSet_mem', INT, V, BOOL)
    c = obs_fn('PSet_card', INT, INT)
    return SSet(lambda x: m(V.oid(v), x), c(V.oid(v)), V)


def pms_cnt(v):
    if isinstance(v, Made):
        return v.c['ms']
    m = obs_fn('PMS_cnt', INT, V, INT)
    c = obs_fn('PMS_card', INT, INT)
    return SMul(lambda x: m(V.oid(v), x), c(V.oid(v)), V)


OBS = {('str', 'val'): str_val, ('bytes', 'val'): bytes_val, ('PSeq', 'val'): pseq_val,
       ('PByteSeq', 'val'): pbs_val, ('tuple', 'val'): tup_val, ('range', 'start'): r_start,
       ('range', 'stop'): r_stop, ('range', 'step'): r_step, ('range', 'n'): r_len,
       ('slice', 'start'): sl_start, ('slice', 'stop'): sl_stop, ('PSet', 'set'): pset_mem,
       ('PMultiset', 'ms'): pms_cnt}


def wf_value(v):
    """Representation facts every Python object satisfies."""
    o = V.oid(v)
    t = otype(o)
    out = [wf_obj(v)]
    isobj = V.is_vobj(v)
    i = fresh(INT, 'i')
    for f, k in ((str_val, 'str'), (bytes_val, 'bytes'), (pseq_val, 'PSeq'), (pbs_val, 'PByteSeq'), (tup_val, 'tuple')):
        s = f(v)
        cond = z3.And(isobj, is_t(k)(t))
        out.append(z3.Implies(cond, s.n >= 0))
        if k in ('bytes',):
            x = s.at(i)
            out.append(z3.Implies(cond, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.And(
                V.is_vint(x), 0 <= V.ival(x), V.ival(x) < 256)))))
        if k == 'PByteSeq':
            x = s.at(i)
            out.append(z3.Implies(cond, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.And(0 <= x, x < 256)))))
        if k == 'PSeq':
            x = s.at(i)
            out.append(z3.Implies(cond, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n),
                                                                  z3.And(issubtype(typeof(x), T.a_PSeq(t)), wf_obj(x))))))
        if k == 'tuple':
            x = s.at(i)
            out.append(z3.Implies(cond, z3.And(ttlen(T.tid(t)) == s.n, z3.ForAll([i], z3.Implies(
                z3.And(0 <= i, i < s.n), ttarg(T.tid(t), i) == typeof(x))))))
    cond = z3.And(isobj, T.is_t_range_0(t))
    out.append(z3.Implies(cond, z3.And(r_step(v) >= 1, r_len(v) >= 0)))
    cond = z3.And(isobj, T.is_t_slice(t))
    for b in (sl_start(v), sl_stop(v)):
        out.append(z3.Implies(cond, z3.Or(b == null, is_int(b))))
    cond = z3.And(isobj, T.is_t_PSet(t))
    x = fresh(V, 'x')
    out.append(z3.Implies(cond, z3.And(pset_mem(v).card >= 0, z3.ForAll([x], z3.Implies(
        pset_mem(v).mem(x), issubtype(typeof(x), T.a_PSet(t)))))))
    cond = z3.And(isobj, T.is_t_PMultiset(t))
    x = fresh(V, 'x')
    out.append(z3.Implies(cond, z3.And(pms_cnt(v).card >= 0, z3.ForAll([x], z3.And(pms_cnt(v).cnt(x) >= 0, z3.Implies(
        pms_cnt(v).cnt(x) > 0, issubtype(typeof(x), T.a_PMultiset(t))))))))
    return z3.And(*out)


# -------------------------------------------------------- Python semantics
peq_obj = z3.Function('peq_obj', V, V, BOOL)      # == on objects without a fixed meaning


feq = z3.Function('float___eq__', V, V, BOOL)
fcmp = {n: z3.Function('float___%s__' % n, V, V, BOOL) for n in ('ge', 'gt', 'le', 'lt')}


def pyeq(a, b):
    """Python's a == b: numeric for ints and bools (and floats, whose value is
    left to the float option), None only equal to None, identity implies
    equality, otherwise an uninterpreted equivalence."""
    if isinstance(a, Made) or isinstance(b, Made):
        return z3.Or(made_eq(a, b), made_peq(a, b))
    fa, fb = T.is_t_float(typeof(a)), T.is_t_float(typeof(b))
    return z3.If(z3.And(is_int(a), is_int(b)), num(a) == num(b),
                 z3.If(z3.Or(V.is_vnull(a), V.is_vnull(b)), z3.And(V.is_vnull(a), V.is_vnull(b)),
                       z3.If(is_int(a), z3.And(fb, feq(a, b)),
                             z3.If(is_int(b), z3.And(fa, feq(b, a)), z3.Or(a == b, peq_obj(a, b))))))


def made_peq(a, b):
    return z3.BoolVal(False)


class State:
    """Field contents (old and current) and fraction-free heap."""
    def __init__(self, fields=None, old=None):
        self.fields = fields or {}
        self.old = old

    def get(self, name, r):
        return self.fields[name](r)


def floordiv(a, b):
    """Python a // b: floor of the quotient (b != 0). z3 `/` is Euclidean."""
    return z3.If(b > 0, a / b, (-a) / (-b))


def pymod(a, b):
    return z3.If(b > 0, a % b, -((-a) % (-b)))


pypow = z3.Function('pypow', INT, INT, INT)


def pow_facts(a, b):
    """a ** b for b >= 0 by recursion, at the exponents an argument needs."""
    out = [pypow(a, 0) == 1, pypow(a, 1) == a, pypow(a, 2) == a * a,
           z3.Implies(b > 0, pypow(a, b) == a * pypow(a, b - 1)), z3.Implies(b == 0, pypow(a, b) == 1)]
    return z3.And(*out)


def pow_axiom():
    a, b = z3.Ints('pa pb')
    return z3.And(z3.ForAll([a], pypow(a, 0) == 1, patterns=[pypow(a, 0)]),
                  z3.ForAll([a, b], z3.Implies(b > 0, pypow(a, b) == a * pypow(a, b - 1)), patterns=[pypow(a, b)]))


class Den:
    def __init__(self, st=None, bits=8, interp=None, strict=True):
        self.st = st or State()
        self.bits = bits
        self.dom_interp = {}
        self.bv = None
        self.old_st = None
        self.side = []          # side facts (definitions)
        self.extra = interp or {}
        self.hyp_unf = []

    # sorts of Silver types
    def sort(self, t):
        n = t.name_
        if n == 'Int':
            return INT
        if n == 'Bool':
            return BOOL
        if n == 'Ref':
            return V
        if n == 'Perm':
            return REAL
        if n == 'PyType':
            return T
        if n == '___intbv':
            return z3.BitVecSort(self.bv)
        raise KeyError('sort ' + str(t))

    def newval(self, t, base='a'):
        n = t.name_
        if n == 'Seq':
            return SSeq.new(self.sort(t.args_[0]), base)
        if n == 'Set':
            s = self.sort(t.args_[0])
            k = next(_ctr)
            f = z3.Function('%s_mem!%d' % (base, k), s, BOOL)
            return SSet(lambda x: f(x), z3.Int('%s_card!%d' % (base, k)), s)
        if n == 'Multiset':
            s = self.sort(t.args_[0])
            k = next(_ctr)
            f = z3.Function('%s_cnt!%d' % (base, k), s, INT)
            return SMul(lambda x: f(x), z3.Int('%s_card!%d' % (base, k)), s)
        if n == 'Map':
            ks, vs = self.sort(t.args_[0]), self.sort(t.args_[1])
            k = next(_ctr)
            h = z3.Function('%s_has!%d' % (base, k), ks, BOOL)
            g = z3.Function('%s_get!%d' % (base, k), ks, vs)
            return SMap(lambda x: h(x), lambda x: g(x), z3.Int('%s_card!%d' % (base, k)), ks, vs)
        return fresh(self.sort(t), base)

    # ------------------------------------------------ expressions
    def __call__(self, n, env):
        return self.ev(n, env)

    def ev(self, n, env):
        k = type(n).__name__
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise NotImplementedError('denotation of ' + k)
        return m(n, n._v, env)

    def x_IntLit(self, n, v, env):
        return z3.IntVal(int(v['i']))

    def x_TrueLit(self, n, v, env):
        return z3.BoolVal(True)

    def x_FalseLit(self, n, v, env):
        return z3.BoolVal(False)

    def x_NullLit(self, n, v, env):
        return null

    def x_Result(self, n, v, env):
        return env['result']

    def x_LocalVar(self, n, v, env):
        return env[v['name']]

    def x_FullPerm(self, n, v, env):
        return z3.RealVal(1)

    def x_NoPerm(self, n, v, env):
        return z3.RealVal(0)

    def x_WildcardPerm(self, n, v, env):
        w = fresh(REAL, 'wild')
        self.side.append(z3.And(w > 0, w < 1))
        return w

    def x_FractionalPerm(self, n, v, env):
        return z3.ToReal(self.ev(v['left'], env)) / z3.ToReal(self.ev(v['right'], env))

    def bin(f):
        return lambda self, n, v, env: f(self.ev(v['left'], env), self.ev(v['right'], env))

    x_Add = x_PermAdd = bin(lambda a, b: a + b)
    x_Sub = x_PermSub = bin(lambda a, b: a - b)
    x_Mul = x_PermMul = bin(lambda a, b: a * b)
    x_IntPermMul = bin(lambda a, b: z3.ToReal(a) * b)
    x_PermDiv = bin(lambda a, b: a / z3.ToReal(b))
    x_PermPermDiv = bin(lambda a, b: a / b)
    x_Div = bin(lambda a, b: a / b)          # Viper: Euclidean, as SMT-LIB div
    x_Mod = bin(lambda a, b: a % b)
    x_GtCmp = x_PermGtCmp = bin(lambda a, b: a > b)
    x_GeCmp = x_PermGeCmp = bin(lambda a, b: a >= b)
    x_LtCmp = x_PermLtCmp = bin(lambda a, b: a < b)
    x_LeCmp = x_PermLeCmp = bin(lambda a, b: a <= b)
    x_And = bin(lambda a, b: z3.And(a, b))
    x_Or = bin(lambda a, b: z3.Or(a, b))
    x_Implies = bin(lambda a, b: z3.Implies(a, b))
    x_EqCmp = bin(lambda a, b: veq(a, b))
    x_NeCmp = bin(lambda a, b: z3.Not(veq(a, b)))
    x_SeqAppend = bin(lambda a, b: a.cat(b))
    del bin

    def x_Minus(self, n, v, env):
        return -self.ev(v['exp'], env)

    def x_Not(self, n, v, env):
        return z3.Not(self.ev(v['exp'], env))

    def x_CondExp(self, n, v, env):
        c = self.ev(v['cond'], env)
        a, b = self.ev(v['thn'], env), self.ev(v['els'], env)
        return ite(c, a, b)

    def x_Let(self, n, v, env):
        e2 = dict(env)
        e2[v['variable'].f('name')] = self.ev(v['exp'], env)
        return self.ev(v['body'], e2)

    def x_Forall(self, n, v, env):
        return self.quant(z3.ForAll, v, env)

    def x_Exists(self, n, v, env):
        return self.quant(z3.Exists, v, env)

    expand = False

    def quant(self, q, v, env):
        """Quantifiers. Sequence variables are (array, length) pairs; with
        `expand`, a reference variable is split by the constructors of V."""
        e2, vs, ranges, refs = dict(env), [], [], []
        for d in v['variables'].items:
            t = d.f('typ')
            if t.name_ == 'Seq':
                srt = self.sort(t.args_[0])
                a = fresh(z3.ArraySort(INT, srt), d.f('name'))
                n = fresh(INT, d.f('name') + '_n')
                vs += [a, n]
                ranges.append(n >= 0)
                e2[d.f('name')] = (lambda a, n, srt: SSeq(n, lambda i: a[i], srt))(a, n, srt)
                continue
            if t.name_ in ('Set', 'Multiset', 'Map'):
                raise NotImplementedError('quantification over ' + str(t))
            x = fresh(self.sort(t), d.f('name'))
            vs.append(x)
            e2[d.f('name')] = x
            if t.name_ == 'Ref':
                ranges.append(wf_obj(x))
                refs.append(x)
        body = self.ev(v['exp'], e2)
        if ranges:
            body = z3.Implies(z3.And(*ranges), body) if q is z3.ForAll else z3.And(*(ranges + [body]))
        if self.expand and len(refs) == 1 and len(vs) == 1:
            k = fresh(INT, 'k')
            cases = [z3.simplify(z3.substitute(body, (refs[0], c))) for c in (
                V.vnull, V.vbool(True), V.vbool(False), V.vint(k), V.vobj(k))]
            parts = cases[:3] + [q([k], c) for c in cases[3:]]
            return (z3.And if q is z3.ForAll else z3.Or)(*parts)
        return q(vs, body)

    def x_Old(self, n, v, env):
        save = self.st
        self.st = self.old_st
        try:
            return self.ev(v['exp'], env)
        finally:
            self.st = save

    def x_FieldAccess(self, n, v, env):
        return self.st.get(v['field'].f('name'), self.ev(v['rcv'], env))

    def x_FieldAccessPredicate(self, n, v, env):
        return z3.BoolVal(True)

    x_PredicateAccessPredicate = x_FieldAccessPredicate
    x_DecreasesWildcard = x_FieldAccessPredicate

    def x_SeqLength(self, n, v, env):
        return self.ev(v['s'], env).n

    def x_SeqIndex(self, n, v, env):
        return self.ev(v['s'], env).at(self.ev(v['idx'], env))

    def x_SeqTake(self, n, v, env):
        return self.ev(v['s'], env).take(self.ev(v['n'], env))

    def x_SeqDrop(self, n, v, env):
        return self.ev(v['s'], env).drop(self.ev(v['n'], env))

    def x_SeqUpdate(self, n, v, env):
        return self.ev(v['s'], env).upd(self.ev(v['idx'], env), self.ev(v['elem'], env))

    def x_SeqContains(self, n, v, env):
        return self.ev(v['s'], env).has(self.ev(v['elem'], env))

    def x_EmptySeq(self, n, v, env):
        return SSeq.lit([], self.sort(v['elemTyp']))

    def x_ExplicitSeq(self, n, v, env):
        xs = [self.ev(e, env) for e in v['elems'].items]
        return SSeq.lit(xs, self.sort(v['elems'].items[0].typ()))

    def x_RangeSeq(self, n, v, env):
        a, b = self.ev(v['low'], env), self.ev(v['high'], env)
        return SSeq(z3.If(b > a, b - a, 0), lambda i: a + i, INT)

    def x_AnySetContains(self, n, v, env):
        s, e = self.ev(v['s'], env), self.ev(v['elem'], env)
        return s.cnt(e) if isinstance(s, SMul) else s.mem(e)

    def x_MapContains(self, n, v, env):
        return self.ev(v['base'], env).has(self.ev(v['key'], env))

    def x_MapLookup(self, n, v, env):
        return self.ev(v['base'], env).get(self.ev(v['key'], env))

    def x_MapUpdate(self, n, v, env):
        m, k, x = self.ev(v['base'], env), self.ev(v['key'], env), self.ev(v['value'], env)
        return SMap(lambda y: z3.Or(y == k, m.has(y)), lambda y: z3.If(y == k, x, m.get(y)),
                    z3.If(m.has(k), m.card, m.card + 1), m.ks, m.vs)

    def x_MapCardinality(self, n, v, env):
        return self.ev(v['base'], env).card

    def x_MapDomain(self, n, v, env):
        m = self.ev(v['base'], env)
        return SSet(m.has, m.card, m.ks)

    def x_MapRange(self, n, v, env):
        m = self.ev(v['base'], env)

        def mem(x):
            k = fresh(m.ks, 'k')
            return z3.Exists([k], z3.And(m.has(k), m.get(k) == x))
        return SSet(mem, fresh(INT, 'card'), m.vs)

    def x_EmptyMap(self, n, v, env):
        return SMap(lambda x: z3.BoolVal(False), lambda x: junk(self.sort(v['valueType'])), z3.IntVal(0),
                    self.sort(v['keyType']), self.sort(v['valueType']))

    def x_AnySetCardinality(self, n, v, env):
        return self.ev(v['s'], env).card

    def x_EmptySet(self, n, v, env):
        return SSet(lambda x: z3.BoolVal(False), z3.IntVal(0), self.sort(v['elemTyp']))

    def x_ExplicitSet(self, n, v, env):
        xs = [self.ev(e, env) for e in v['elems'].items]
        return SSet(lambda y: z3.Or(*[y == x for x in xs]), fresh(INT, 'card') if len(xs) > 1 else z3.IntVal(1),
                    self.sort(v['elems'].items[0].typ()))

    def x_AnySetUnion(self, n, v, env):
        a, b = self.ev(v['left'], env), self.ev(v['right'], env)
        return union(a, b)

    def x_AnySetMinus(self, n, v, env):
        a, b = self.ev(v['left'], env), self.ev(v['right'], env)
        return setminus(a, b)

    def x_AnySetIntersection(self, n, v, env):
        a, b = self.ev(v['left'], env), self.ev(v['right'], env)
        return SSet(lambda x: z3.And(a.mem(x), b.mem(x)), fresh(INT, 'card'), a.sort)

    def x_DomainFuncApp(self, n, v, env):
        name = v['funcname']
        args = [self.ev(a, env) for a in v['args'].items]
        if name in self.extra:
            return self.extra[name](self, *args)
        return dom_fn(self, name, args, n)

    def x_FuncApp(self, n, v, env):
        name = v['funcname']
        args = [self.ev(a, env) for a in v['args'].items]
        if name in self.extra:
            return self.extra[name](self, *args)
        import pysem
        if name in pysem.PY:
            return pysem.PY[name](self, *args)
        f = self.funcs.get(name)
        if f is not None and hasattr(f.f('body'), 'x'):
            # a helper that is not part of Python: its own definition
            if self.depth > 12:
                raise NotImplementedError('recursive helper ' + name)
            self.depth += 1
            try:
                return self.ev(f.f('body').x, dict(zip([a.f('name') for a in f.f('formalArgs').items], args)))
            finally:
                self.depth -= 1
        return self.uninterpreted(name, args, n.typ())

    depth = 0
    funcs = {}

    def uninterpreted(self, name, args, typ):
        """A function nothing is known about, applied to these arguments."""
        key = (name,) + tuple(str(a) if z3.is_expr(a) else str(id(a)) for a in args)
        c = self.__dict__.setdefault('_unint', {})
        if key not in c:
            c[key] = self.newval(typ, name)
        return c[key]


def ite(c, a, b):
    if isinstance(a, SSeq):
        return SSeq(z3.If(c, a.n, b.n), lambda i: z3.If(c, a.at(i), b.at(i)), a.sort)
    if isinstance(a, SSet):
        return SSet(lambda x: z3.If(c, a.mem(x), b.mem(x)), z3.If(c, a.card, b.card), a.sort)
    if isinstance(a, Made) or isinstance(b, Made):
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return a
        if z3.is_false(cs):
            return b
        raise NotImplementedError('conditional made object')
    return z3.If(c, a, b)


def union(a, b):
    if isinstance(a, SMul):
        return SMul(lambda x: a.cnt(x) + b.cnt(x), a.card + b.card, a.sort)
    return SSet(lambda x: z3.Or(a.mem(x), b.mem(x)), fresh(INT, 'card'), a.sort)


def setminus(a, b):
    if isinstance(a, SMul):
        def c(x):
            d = a.cnt(x) - b.cnt(x)
            return z3.If(d > 0, d, 0)
        return SMul(c, fresh(INT, 'card'), a.sort)
    return SSet(lambda x: z3.And(a.mem(x), z3.Not(b.mem(x))), fresh(INT, 'card'), a.sort)


def dom_fn(d, name, args, n):
    """Domain functions: type constructors, typeof/issubtype, ==, bit vectors, ..."""
    if name == 'typeof':
        return typeof(args[0])
    if name == 'issubtype':
        return issubtype(*args)
    if name == 'object___eq__':
        return pyeq(*args)
    if name in ('Low', 'LowEvent'):
        return z3.BoolVal(True)
    if name == 'tuple':
        return TT(args[0])
    if name == 'tuple_args':
        return ttargs(args[0])
    if name == 'tuple_arg':
        return ttargs(args[0]).at(args[1])
    if name in ('list', 'set', 'dict', 'Iterator', 'PSeq', 'PSet', 'PMultiset'):
        return getattr(T, 't_' + name)(*args)
    if name == 'dict_arg':
        i = z3.simplify(args[1]).as_long()
        return (T.k_dict if i == 0 else T.v_dict)(args[0])
    if name.endswith('_arg') and hasattr(T, 'a_' + name[:-4]):
        return getattr(T, 'a_' + name[:-4])(args[0])
    if hasattr(T, 't_' + name) and not args:
        return getattr(T, 't_' + name)
    if name in d.dom_interp:
        return d.dom_interp[name](*args)
    if name in DOMX:
        return DOMX[name](d, *args)
    raise NotImplementedError('domain function ' + name)


def bv_interp(program):
    """Read the SMT interpretation strings of the ___intbv domain."""
    out, width = {}, None
    for dom in program.domains().items:
        if dom.f('name') != '___intbv':
            continue
        it = dom.f('interpretations').x['SMTLIB']
        width = int(it.split()[-1].rstrip(')'))
        ops = {'bvand': lambda a, b: a & b, 'bvor': lambda a, b: a | b, 'bvxor': lambda a, b: a ^ b,
               'bvshl': lambda a, b: a << b, 'bvlshr': z3.LShR, 'bvashr': lambda a, b: a >> b,
               'bvnot': lambda a: ~a, 'bvadd': lambda a, b: a + b, 'bvsub': lambda a, b: a - b,
               'bv2int': lambda a: z3.BV2Int(a), 'bv2nat': lambda a: z3.BV2Int(a),
               'ubv_to_int': lambda a: z3.BV2Int(a), 'sbv_to_int': lambda a: z3.BV2Int(a, True)}
        for f in dom.f('functions').items:
            s = f.f('interpretation').x
            if s.startswith('(_ int2bv') or s.startswith('(_ nat2bv') or s.startswith('(_ int_to_bv'):
                w = int(s.split()[-1].rstrip(')'))
                out[f.f('name')] = (lambda w: lambda a: z3.Int2BV(a, w))(w)
            elif s in ops:
                out[f.f('name')] = ops[s]
    return out, width


_sums = {}


def seq_sum(s):
    """The sum of an integer sequence: a function of its contents."""
    i = z3.Int('sumkey')
    key = (str(z3.simplify(s.n)), str(z3.simplify(s.at(i))))
    if key not in _sums:
        _sums[key] = fresh(INT, 'sum')
    return _sums[key]


DOMX = {'___pow': lambda d, a, b: pypow(a, b), '__sum': lambda d, s: seq_sum(s)}
