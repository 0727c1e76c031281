"""Python's semantics of the functions and methods of Nagini's prelude.

Everything here is written from the Python language/library reference (and, for
the ghost types PSeq/PSet/PMultiset/PByteSeq and the iterator protocol, from
the documentation in nagini_contracts); nothing is taken from the .sil
contracts, which are what is checked against these definitions.
"""
import z3
from den import *
from den import _ctr

PY = {}       # functions: value
DEF = {}      # functions and methods: "Python does not raise"
METH = {}     # methods: effect


def py(name):
    def deco(f):
        PY[name] = f
        return f
    return deco


def defined(*names):
    def deco(f):
        for n in names:
            DEF[n] = f
        return f
    return deco


def meth(name):
    def deco(f):
        METH[name] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def box(i):
    return V.vint(i)


def bbox(b):
    return V.vbool(b)


def at(s, i):
    """s[i] with Python's negative indices."""
    return s.at(z3.If(i >= 0, i, s.n + i))


def in_range(s, i):
    return z3.And(i < s.n, i >= -s.n)


def clamp(i, n):
    j = z3.If(i < 0, i + n, i)
    return z3.If(j < 0, z3.IntVal(0), z3.If(j > n, n, j))


def pyslice(s, start, stop):
    """s[start:stop]; start/stop are values (None or int)."""
    a = z3.If(V.is_vnull(start), z3.IntVal(0), clamp(num(start), s.n))
    b = z3.If(V.is_vnull(stop), s.n, clamp(num(stop), s.n))
    n = z3.If(b > a, b - a, z3.IntVal(0))
    return SSeq(n, lambda i: s.at(i + a), s.sort)


def slice_norm(v, n, which):
    """Where a slice bound lands before clamping."""
    x = sl_start(v) if which == 'start' else sl_stop(v)
    return z3.If(V.is_vnull(x), z3.IntVal(0) if which == 'start' else n,
                 z3.If(num(x) < 0, n + num(x), num(x)))


def boxed(s):
    return s.map(box, V)


def mkstr(s):
    return Made('str', T.t_str, val=s)


def mkbytes(s):
    return Made('bytes', T.t_bytes, val=s)


def mktuple(xs):
    s = SSeq.lit(xs, V)
    return Made('tuple', TT(SSeq.lit([typeof(x) for x in xs], T)), val=s)


def field(d, name, r):
    return d.st.get(name, r)


# ------------------------------------------------------------------ bool/int
truth_user = z3.Function('truth_user', V, BOOL)


def truth(d, v):
    t = otype(V.oid(v))
    def f(kind, c):
        return lambda e: z3.If(is_t(kind)(t), c, e)
    e = z3.BoolVal(True)
    for k, c in (('float', truth_user(v)), ('str', str_val(v).n != 0), ('bytes', bytes_val(v).n != 0),
                 ('tuple', tup_val(v).n != 0), ('PSeq', pseq_val(v).n != 0), ('PByteSeq', pbs_val(v).n != 0),
                 ('range_0', r_len(v) != 0), ('list', field(d, 'list_acc', v).n != 0),
                 ('set', field(d, 'set_acc', v).card != 0), ('dict', field(d, 'dict_acc', v).card != 0),
                 ('PSet', pset_mem(v).card != 0), ('PMultiset', pms_cnt(v).card != 0),
                 ('bytearray', field(d, 'bytearray_acc', v).n != 0)):
        e = f(k, c)(e)
    return z3.If(V.is_vnull(v), z3.BoolVal(False), z3.If(is_int(v), num(v) != 0, e))


for _n in ('object', 'NoneType', 'bool', 'int', 'str', 'bytes', 'list', 'set', 'dict', 'bytearray', 'tuple', 'float'):
    PY['%s___bool__' % _n] = truth

PY['bool___and__'] = lambda d, a, b: z3.And(a, b)
PY['bool___or__'] = lambda d, a, b: z3.Or(a, b)
PY['bool___xor__'] = lambda d, a, b: a != b


def twos(d, a, b, f):
    """Python's bitwise operator: two's complement, infinitely sign extended.
    For operands in [-2^n, 2^n) n+1 bits (plus one) represent both exactly."""
    w = d.bits + 2
    r = f(z3.Int2BV(num(a), w), z3.Int2BV(num(b), w))
    return z3.BV2Int(r, True)


def bitop(f, fb):
    def g(d, a, b):
        return z3.If(z3.And(V.is_vbool(a), V.is_vbool(b)), bbox(fb(V.bval(a), V.bval(b))), box(twos(d, a, b, f)))
    return g


for _o, _f, _fb in (('and', lambda a, b: a & b, lambda a, b: z3.And(a, b)),
                    ('or', lambda a, b: a | b, lambda a, b: z3.Or(a, b)),
                    ('xor', lambda a, b: a ^ b, lambda a, b: a != b)):
    PY['int___%s__' % _o] = PY['int___r%s__' % _o] = bitop(_f, _fb)

def pow2(k):
    return pypow(z3.IntVal(2), k)


def pow2_facts(lo, hi):
    """pow2 at the literals lo..hi and beyond: doubling."""
    return z3.And(*[pow2(z3.IntVal(k)) == 2 ** k for k in range(lo, hi + 1)])


for _n, _m in (('__shift_factor8', 8), ('__shift_factor32', 32), ('__shift_factor64', 64)):
    PY[_n] = lambda d, a: pow2(a)

PY['__prim__int___lshift__'] = PY['__prim__int___rlshift__'] = lambda d, a, b: a * pow2(b)
PY['int___lshift__'] = PY['int___rlshift__'] = lambda d, a, b: box(num(a) * pow2(num(b)))
PY['__prim__int___rshift__'] = PY['__prim__int___rrshift__'] = lambda d, a, b: floordiv(a, pow2(b))
PY['int___rshift__'] = PY['int___rrshift__'] = lambda d, a, b: box(floordiv(num(a), pow2(num(b))))
for _n in ('__prim__int___lshift__', '__prim__int___rlshift__', '__prim__int___rshift__', '__prim__int___rrshift__'):
    DEF[_n] = lambda d, a, b: b >= 0
for _n in ('int___lshift__', 'int___rlshift__', 'int___rshift__', 'int___rrshift__'):
    DEF[_n] = lambda d, a, b: num(b) >= 0

_bl = z3.Function('bitlen', INT, INT)


def bitlen(a):
    """int.bit_length for 0 <= a < 2**64: the least n with a < 2**n."""
    r = _bl(a)
    for n in range(64, -1, -1):
        r = z3.If(a < 2 ** n, z3.IntVal(n), r)
    return r


for _n in ('__int_bit_length8', '__int_bit_length32', '__int_bit_length64'):
    PY[_n] = lambda d, a: bitlen(a)
PY['int_bit_length'] = lambda d, a: bitlen(z3.If(num(a) >= 0, num(a), -num(a)))

PY['__prim__int___box__'] = lambda d, i: box(i)
PY['int___unbox__'] = lambda d, v: num(v)
PY['__prim__bool___box__'] = lambda d, b: bbox(b)
PY['bool___unbox__'] = lambda d, v: V.bval(v)


def float_or(name, f):
    ff = fcmp[name.strip('_')]

    def g(d, a, b):
        return z3.If(z3.And(is_int(a), is_int(b)), f(num(a), num(b)), ff(a, b))
    return g, g


for _n, _f in (('___ge__', lambda a, b: a >= b), ('___gt__', lambda a, b: a > b), ('___le__', lambda a, b: a <= b),
               ('___lt__', lambda a, b: a < b)):
    PY['int' + _n], PY['float' + _n] = float_or(_n, _f)

PY['float___eq__'] = lambda d, a, b: z3.If(z3.And(is_int(a), is_int(b)), num(a) == num(b), feq(a, b))
PY['int___eq__'] = lambda d, a, b: pyeq(a, b)
PY['bool___eq__'] = lambda d, a, b: pyeq(a, b)
PY['Place___eq__'] = lambda d, a, b: a == b
PY['int___add__'] = lambda d, a, b: a + b
PY['int___sub__'] = lambda d, a, b: a - b
PY['int___mul__'] = lambda d, a, b: a * b
PY['int___pow__'] = PY['int___pow_unrolled__'] = lambda d, a, b: pypow(a, b)
PY['int___floordiv__'] = lambda d, a, b: floordiv(a, b)
PY['int___mod__'] = lambda d, a, b: pymod(a, b)
for _n in ('int___floordiv__', 'int___mod__', 'int___truediv__'):
    DEF[_n] = lambda d, a, b: b != 0


def truediv(d, a, b):
    r = V.vobj(fresh(INT, 'quot'))         # a float object; its value is left to the float option
    d.side.append(typeof(r) == T.t_float)
    return r


PY['int___truediv__'] = truediv
PY['int___pos__'] = lambda d, a: box(num(a))
PY['int___neg__'] = lambda d, a: box(-num(a))
PY['int___invert__'] = lambda d, a: box(-num(a) - 1)
PY['int___int__'] = lambda d, a: box(num(a))
PY['int___byte_bounds__'] = lambda d, i: z3.And(0 <= i, i < 256)
PY['object___cast__'] = lambda d, t, o: o
PY['abs'] = lambda d, a: z3.If(a < 0, -a, a)
Ellipsis_ = z3.Const('Ellipsis_', V)


@py('EllipsisType___create__')
def ellipsis(d):
    r = fresh(V, 'r')
    d.side.append(z3.And(V.is_vobj(Ellipsis_), typeof(Ellipsis_) == T.t_EllipsisType, z3.ForAll([r], z3.Implies(
        typeof(r) == T.t_EllipsisType, r == Ellipsis_))))
    return Ellipsis_



def extremum(less):
    """max/min of a list of ints (or of two ints): the element such that no
    other is better; for lists the index is a Skolem function."""
    def g(d, a, b):
        s = field(d, 'list_acc', a)
        k = z3.Function('extr_%s' % less.__name__, INT, INT)(V.oid(a))
        i = fresh(INT, 'i')
        d.side.append(z3.Implies(z3.And(V.is_vobj(a), s.n > 0), z3.And(
            0 <= k, k < s.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.Not(less(num(s.at(k)), num(s.at(i)))))))))
        two = z3.If(less(num(a), num(b)), num(b), num(a))
        return z3.If(is_int(a), two, num(s.at(k)))
    return g


def lt_(a, b):
    return a < b


def gt_(a, b):
    return a > b


PY['max'], PY['min'] = extremum(lt_), extremum(gt_)
DEF['max'] = DEF['min'] = lambda d, a, b: z3.Or(is_int(a), field(d, 'list_acc', a).n > 0)
seq_ref_to_int = lambda s: s.map(num, INT)
PY['__seq_ref_to_seq_int'] = lambda d, s: seq_ref_to_int(s)
PY['PByteSeq___seq_ref_to_seq_int__'] = PY['__seq_ref_to_seq_int']


PY['sum'] = lambda d, v: seq_sum(field(d, 'list_acc', v).map(num, INT))


# ------------------------------------------------------------------ list / tuple / bytes / str / PSeq
def content(kind):
    def g(d, v):
        if kind in ('list', 'bytearray'):
            return field(d, kind + '_acc', v)
        return {'tuple': tup_val, 'bytes': bytes_val, 'str': str_val, 'PSeq': pseq_val, 'PByteSeq': pbs_val,
                'range': range_val}[kind](v)
    return g


C = {k: content(k) for k in ('list', 'bytearray', 'tuple', 'bytes', 'str', 'PSeq', 'PByteSeq', 'range')}
for _k in C:
    PY[_k + '___len__'] = (lambda c: lambda d, v: c(d, v).n)(C[_k])
for _k in ('list', 'PSeq', 'tuple', 'bytes'):
    PY[_k + '___sil_seq__'] = (lambda c: lambda d, v: c(d, v))(C[_k])
for _k in ('bytearray', 'range', 'PByteSeq'):
    PY[_k + '___sil_seq__'] = (lambda c: lambda d, v: boxed(c(d, v)))(C[_k])
for _k in ('tuple', 'bytes', 'str', 'PByteSeq', 'range'):
    PY[_k + '___val__'] = (lambda c: lambda d, v: c(d, v))(C[_k])

# indexing with a reference (boxed int or bool) or a primitive integer
for _k in ('list', 'PSeq', 'bytearray', 'PByteSeq'):
    PY[_k + '___getitem__'] = (lambda c: lambda d, v, i: at(c(d, v), num(i)))(C[_k])
    DEF[_k + '___getitem__'] = (lambda c: lambda d, v, i: in_range(c(d, v), num(i)))(C[_k])
for _k in ('tuple', 'bytes', 'range'):
    PY[_k + '___getitem__'] = (lambda c: lambda d, v, i: at(c(d, v), i))(C[_k])
    DEF[_k + '___getitem__'] = (lambda c: lambda d, v, i: in_range(c(d, v), i))(C[_k])


def mem_seq(kind):
    def g(d, v, x):
        s = C[kind](d, v)
        return s.has(x)
    return g


for _k in ('list', 'tuple', 'PSeq'):
    PY[_k + '___contains__'] = mem_seq(_k)
PY['PByteSeq___contains__'] = mem_seq('PByteSeq')
PY['bytearray___contains__'] = lambda d, v, x: C['bytearray'](d, v).has(num(x))
# x in range: start <= x < stop reached by the step
PY['range___contains__'] = lambda d, v, x: z3.And(V.is_vint(x), range_val(v).has(num(x)))


def elemwise_eq(kind, eq):
    def g(d, a, b):
        s, t = C[kind](d, a), C[kind](d, b)
        i = fresh(INT, 'i')
        return z3.And(s.n == t.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), eq(s.at(i), t.at(i)))))
    return g


PY['list___eq__'] = elemwise_eq('list', pyeq)
PY['tuple___eq__'] = elemwise_eq('tuple', pyeq)
PY['bytearray___eq__'] = elemwise_eq('bytearray', lambda a, b: a == b)
for _k in ('str', 'bytes', 'range', 'PSeq', 'PByteSeq'):
    PY[_k + '___eq__'] = (lambda k: lambda d, a, b: z3.And(
        V.is_vobj(b), is_t('range_0' if k == 'range' else k)(typeof(b)), elemwise_eq(k, lambda x, y: x == y)(d, a, b)))(_k)

PY['tuple___create0__'] = lambda d: mktuple([])
for _n in range(1, 10):
    PY['tuple___create%d__' % _n] = (lambda n: lambda d, *a: mktuple(list(a[:n])))(_n)


def tuple_slice(d, v, k):
    s = pyslice(tup_val(v), sl_start(k), sl_stop(k))
    return Made('tuple', TT(s.map(typeof, T)), val=s)


PY['tuple___getitem_slice__'] = tuple_slice
PY['bytes___getitem_slice__'] = lambda d, v, k: mkbytes(pyslice(bytes_val(v), sl_start(k), sl_stop(k)))


def range_slice(d, v, k):
    s = pyslice(range_val(v), sl_start(k), sl_stop(k))
    a = z3.If(V.is_vnull(sl_start(k)), z3.IntVal(0), clamp(num(sl_start(k)), r_len(v)))
    start = r_start(v) + a * r_step(v)
    return Made('range', T.t_range_0, start=start, step=r_step(v), n=s.n, stop=fresh(INT, 'stop'))


PY['range___getitem_slice__'] = range_slice
PY['range___create__'] = lambda d, a, b, c: Made('range', T.t_range_0, start=a, stop=b, step=z3.IntVal(1),
                                                 n=z3.If(b > a, b - a, z3.IntVal(0)))
PY['range___create_step__'] = lambda d, a, b, s, c: Made('range', T.t_range_0, start=a, stop=b, step=s,
                                                         n=pyrange_len(a, b, s))
DEF['range___create_step__'] = lambda d, a, b, s, c: s != 0
PY['range___start__'] = lambda d, v: r_start(v)
PY['range___stop__'] = lambda d, v: r_stop(v)

PY['slice___create__'] = lambda d, a, b: Made('slice', T.t_slice, start=a, stop=b)
PY['slice___internal_start__'] = lambda d, v: sl_start(v)
PY['slice___internal_stop__'] = lambda d, v: sl_stop(v)
PY['slice___start__'] = lambda d, v, n: slice_norm(v, n, 'start')
PY['slice___stop__'] = lambda d, v, n: slice_norm(v, n, 'stop')

PY['str___create__'] = lambda d, n, s: mkstr(s)
PY['str___add__'] = lambda d, a, b: mkstr(str_val(a).cat(str_val(b)))
_sm = z3.Function('str_fmt', V, V, V)
PY['str_join'] = PY['str___mod__'] = lambda d, a, b: Made('opaque', T.t_str, ref=fresh(V, 's'))
PY['object___str_val__'] = lambda d, v: SSeq.new(INT, 'strval')
PY['object___repr_val__'] = lambda d, v: SSeq.new(INT, 'reprval')
PY['bytes___create__'] = lambda d, s, c: mkbytes(s)
PY['bytes___add__'] = lambda d, a, b: mkbytes(bytes_val(a).cat(bytes_val(b)))


def rep(s, k):
    """s * k for a sequence."""
    n = z3.If(k > 0, k * s.n, z3.IntVal(0))
    return SSeq(n, lambda i: s.at(i % s.n), s.sort)


PY['bytes___mul__'] = lambda d, v, k: mkbytes(rep(bytes_val(v), k))
PY['bytes___mul__helper'] = lambda d, s, k: rep(s, k)
PY['PByteSeq___create__'] = PY['PByteSeq___from_bytes__'] = lambda d, s: Made('PByteSeq', T.t_PByteSeq, val=s)
PY['PByteSeq_take'] = lambda d, v, n: Made('PByteSeq', T.t_PByteSeq, val=pbs_val(v).take(n))
PY['PByteSeq_drop'] = lambda d, v, n: Made('PByteSeq', T.t_PByteSeq, val=pbs_val(v).drop(n))
PY['PByteSeq_update'] = lambda d, v, i, x: Made('PByteSeq', T.t_PByteSeq, val=pbs_val(v).upd(i, x))
PY['PByteSeq___add__'] = lambda d, a, b: Made('PByteSeq', T.t_PByteSeq, val=pbs_val(a).cat(pbs_val(b)))
DEF['PByteSeq_update'] = lambda d, v, i, x: z3.And(0 <= i, i < pbs_val(v).n, 0 <= x, x < 256)


def join_helper(d, l, sep, index):
    """sep.join(l[index:]) by recursion over the list."""
    s = field(d, 'list_acc', l)
    key = ('join', str(l), str(z3.simplify(sep.n)), str(z3.simplify(sep.at(z3.Int('k')))))
    c = d.__dict__.setdefault('_cache', {})
    if key not in c:
        k = next(_ctr)
        ln, at_ = z3.Function('join_len!%d' % k, INT, INT), z3.Function('join_at!%d' % k, INT, INT, V)
        f = c[key] = lambda i: SSeq(ln(i), lambda j: at_(i, j), V)
        i = fresh(INT, 'i')
        for q in (index, index + 1):
            b = bytes_val(s.at(q))
            whole = ite(q < s.n - 1, b.cat(sep).cat(f(q + 1)), b)
            d.side.append(z3.Implies(z3.And(0 <= q, q < s.n), f(q).eq(whole)))
    return c[key](index)


PY['bytes_join_val_helper'] = join_helper
PY['bytes_join'] = lambda d, v, o: mkbytes(ite(field(d, 'list_acc', o).n == 0, SSeq.lit([], V),
                                              join_helper(d, o, bytes_val(v), z3.IntVal(0))))


def mkpseq(s, t):
    return Made('PSeq', T.t_PSeq(t), val=s)


PY['PSeq___create__'] = lambda d, s, t: mkpseq(s, t)
PY['PSeq_take'] = lambda d, v, n: mkpseq(pseq_val(v).take(n), T.a_PSeq(typeof(v)))
PY['PSeq_drop'] = lambda d, v, n: mkpseq(pseq_val(v).drop(n), T.a_PSeq(typeof(v)))
PY['PSeq_update'] = lambda d, v, i, x: mkpseq(pseq_val(v).upd(i, x), T.a_PSeq(typeof(v)))
DEF['PSeq_update'] = lambda d, v, i, x: z3.And(0 <= i, i < pseq_val(v).n)
PY['PSeq___add__'] = lambda d, a, b: mkpseq(pseq_val(a).cat(pseq_val(b)), T.a_PSeq(typeof(a)))


def list_index(d, v, x):
    s = C['list'](d, v)
    k = fresh(INT, 'ix')
    j = fresh(INT, 'j')
    d.side.append(z3.Implies(s.has(x), z3.And(0 <= k, k < s.n, s.at(k) == x,
                                             z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), s.at(j) != x)))))
    return k


PY['list_index'] = list_index
DEF['list_index'] = lambda d, v, x: C['list'](d, v).has(x)
PY['bytearray_hex'] = lambda d, v: Made('opaque', T.t_str, ref=fresh(V, 's'))


# ------------------------------------------------------------------ sets, dicts
PY['set___len__'] = lambda d, v: field(d, 'set_acc', v).card
PY['set___contains__'] = lambda d, v, x: field(d, 'set_acc', v).mem(x)
PY['dict___len__'] = lambda d, v: field(d, 'dict_acc', v).card
PY['dict___contains__'] = lambda d, v, x: field(d, 'dict_acc', v).has(x)
PY['dict___getitem__'] = lambda d, v, x: field(d, 'dict_acc', v).get(x)
DEF['dict___getitem__'] = lambda d, v, x: field(d, 'dict_acc', v).has(x)
PY['dict_get'] = lambda d, v, x: z3.If(field(d, 'dict_acc', v).has(x), field(d, 'dict_acc', v).get(x), null)


def enum(d, n, mem, name):
    """Some enumeration without duplicates of a finite set with n members."""
    s = SSeq.new(V, name)
    i, j, x = fresh(INT, 'i'), fresh(INT, 'j'), fresh(V, 'x')
    ix = z3.Function('%s_ix!%d' % (name, next(_ctr)), V, INT)
    d.side.append(z3.And(
        s.n == n,
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(mem(s.at(i)), ix(s.at(i)) == i))),
        z3.ForAll([x], z3.Implies(mem(x), z3.And(0 <= ix(x), ix(x) < n, s.at(ix(x)) == x)))))
    return s


def cached(f):
    def g(d, v):
        x = z3.Const('keyx', V)
        key = (f.__name__, str(v)) + tuple(str(z3.simplify(e)) for e in (
            field(d, 'set_acc', v).mem(x), field(d, 'dict_acc', v).has(x)))
        c = d.__dict__.setdefault('_cache', {})
        if key not in c:
            c[key] = f(d, v)
        return c[key]
    return g


@py('set___sil_seq__')
@cached
def set_seq(d, v):
    s = field(d, 'set_acc', v)
    return enum(d, s.card, s.mem, 'setseq')


@py('dict___sil_seq__')
@cached
def dict_seq(d, v):
    s = field(d, 'dict_acc', v)
    return enum(d, s.card, s.has, 'dictseq')


PY['PSet___create__'] = lambda d, s, t: Made('PSet', T.t_PSet(t), set=s)
PY['PSet___unbox__'] = lambda d, v: pset_mem(v)
PY['PSet___contains__'] = lambda d, v, x: pset_mem(v).mem(x)
PY['PSet___len__'] = lambda d, v: pset_mem(v).card
PY['PSet___add__'] = lambda d, a, b: Made('PSet', T.t_PSet(T.a_PSet(typeof(a))), set=union(pset_mem(a), pset_mem(b)))
PY['PSet___sub__'] = lambda d, a, b: Made('PSet', T.t_PSet(T.a_PSet(typeof(a))), set=setminus(pset_mem(a), pset_mem(b)))
PY['PSet___eq__'] = lambda d, a, b: pset_mem(a).eq(pset_mem(b))


@py('PSet___sil_seq__')
@cached
def pset_seq(d, v):
    s = pset_mem(v)
    return enum(d, s.card, s.mem, 'psetseq')


PY['PMultiset___create__'] = lambda d, s, t: Made('PMultiset', T.t_PMultiset(t), ms=s)
PY['PMultiset___unbox__'] = lambda d, v: pms_cnt(v)
PY['PMultiset_num'] = lambda d, v, x: pms_cnt(v).cnt(x)
PY['PMultiset___len__'] = lambda d, v: pms_cnt(v).card
PY['PMultiset___add__'] = lambda d, a, b: Made('PMultiset', T.t_PMultiset(T.a_PMultiset(typeof(a))),
                                               ms=union(pms_cnt(a), pms_cnt(b)))
PY['PMultiset___sub__'] = lambda d, a, b: Made('PMultiset', T.t_PMultiset(T.a_PMultiset(typeof(a))),
                                               ms=setminus(pms_cnt(a), pms_cnt(b)))
PY['PMultiset___eq__'] = lambda d, a, b: pms_cnt(a).eq(pms_cnt(b))


@py('PMultiset___sil_seq__')
@cached
def pms_seq(d, v):
    """An enumeration with repetitions: every member occurs, and only members."""
    m = pms_cnt(v)
    s = SSeq.new(V, 'pmsseq')
    i, x = fresh(INT, 'i'), fresh(V, 'x')
    ix = z3.Function('pms_ix!%d' % next(_ctr), V, INT)
    d.side.append(z3.And(s.n == m.card,
                         z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), m.cnt(s.at(i)) > 0)),
                         z3.ForAll([x], z3.Implies(m.cnt(x) > 0, z3.And(0 <= ix(x), ix(x) < s.n, s.at(ix(x)) == x)))))
    return s


# ------------------------------------------------------------------ methods
class Eff:
    """Effect of a method: results, field updates [(field, ref, value)],
    side facts, and the frame is everything else."""
    def __init__(self, ret=None, upd=(), facts=()):
        self.ret, self.upd, self.facts = ret or {}, list(upd), list(facts)


def newobj(d, args, typ):
    k = fresh(INT, 'new')
    r = V.vobj(k)
    facts = [r != a for a in args if not isinstance(a, (SSeq, SSet, SMap, Made)) and a.sort() == V]
    if typ is not None:
        facts.append(otype(k) == typ)
    return r, facts


def fresh_with(rname, fieldname, content, typ):
    def g(d, *args):
        t = typ(d, *args) if callable(typ) else typ
        r, facts = newobj(d, args, t)
        return Eff({rname: r}, [(fieldname, r, content(d, *args))], facts)
    return g


anyT = lambda: fresh(T, 'anyT')
tl = lambda d, self, *a: typeof(self)
METH['list___init__'] = fresh_with('res', 'list_acc', lambda d: SSeq.lit([], V), lambda d: T.t_list(anyT()))
METH['list___getitem_slice__'] = fresh_with('_res', 'list_acc', lambda d, v, k: pyslice(
    C['list'](d, v), sl_start(k), sl_stop(k)), tl)
METH['list___add__'] = fresh_with('res', 'list_acc', lambda d, a, b: C['list'](d, a).cat(C['list'](d, b)), tl)
METH['list___mul__'] = fresh_with('res', 'list_acc', lambda d, a, k: rep(C['list'](d, a), k), tl)
METH['list_copy'] = fresh_with('res', 'list_acc', lambda d, a: C['list'](d, a), tl)


def upd(fieldname, f):
    def g(d, self, *a):
        return Eff({}, [(fieldname, self, f(d, self, *a))])
    return g


def rev(s):
    return SSeq(s.n, lambda i: s.at(s.n - 1 - i), s.sort)


METH['list___setitem__'] = upd('list_acc', lambda d, v, i, x: C['list'](d, v).upd(z3.If(i < 0, C['list'](d, v).n + i, i), x))
DEF['list___setitem__'] = lambda d, v, i, x: in_range(C['list'](d, v), i)


def insert(s, i, x):
    k = clamp(i, s.n)
    return SSeq(s.n + 1, lambda j: z3.If(j < k, s.at(j), z3.If(j == k, x, s.at(j - 1))), s.sort)


METH['list_insert'] = upd('list_acc', lambda d, v, i, x: insert(C['list'](d, v), i, x))
METH['list_append'] = upd('list_acc', lambda d, v, x: C['list'](d, v).cat(SSeq.lit([x], V)))
METH['list_extend'] = upd('list_acc', lambda d, v, o: C['list'](d, v).cat(C['list'](d, o)))
METH['list_reverse'] = lambda d, v: Eff({}, [('list_acc', v, rev(C['list'](d, v)))])


def list_remove(d, v, x):
    s = C['list'](d, v)
    k = list_index(d, v, x)
    return Eff({}, [('list_acc', v, SSeq(s.n - 1, lambda j: z3.If(j < k, s.at(j), s.at(j + 1)), V))])


METH['list_remove'] = list_remove
DEF['list_remove'] = lambda d, v, x: C['list'](d, v).has(x)


def iter_of(seqf, elem):
    def g(d, self):
        r, facts = newobj(d, [self], T.t_Iterator(elem(self)))
        return Eff({'_res': r}, [('list_acc', r, seqf(d, self)), ('__container', r, self), ('__iter_index', r, z3.IntVal(0)),
                                 ('__previous', r, SSeq.lit([], V))], facts)
    return g


METH['list___iter__'] = iter_of(C['list'], lambda v: T.a_list(typeof(v)))
METH['set___iter__'] = iter_of(set_seq, lambda v: T.a_set(typeof(v)))
METH['dict___iter__'] = iter_of(dict_seq, lambda v: T.k_dict(typeof(v)))
METH['range___iter__'] = iter_of(lambda d, v: boxed(range_val(v)), lambda v: T.t_int)
METH['bytearray___iter__'] = iter_of(lambda d, v: boxed(C['bytearray'](d, v)), lambda v: T.t_int)


@meth('Iterator___next__')
def it_next(d, self):
    """The iterator protocol: yields list[index], then StopIteration for ever."""
    s, ix = field(d, 'list_acc', self), field(d, '__iter_index', self)
    prev = field(d, '__previous', self)
    done = ix == s.n
    err, facts = newobj(d, [self], None)
    ix2 = z3.If(done, ix, ix + 1)
    prev2 = ite(done, s, s.take(ix))
    i = fresh(INT, 'i')
    # invariant of iterators made by __iter__ and advanced by __next__
    inv = z3.And(0 <= ix, ix <= s.n,
                 z3.Or(z3.And(prev.n == z3.If(ix > 0, ix - 1, 0), prev.eq(s.take(z3.If(ix > 0, ix - 1, 0)))),
                       z3.And(ix == s.n, prev.eq(s))))
    res = s.at(z3.If(done, ix - 1, ix))
    return Eff({'_res': res, '_err': z3.If(done, err, null)},
               [('__iter_index', self, ix2), ('__previous', self, prev2)], facts + [inv])


METH['Iterator___del__'] = lambda d, self: Eff()

METH['bytearray___init__'] = fresh_with('res', 'bytearray_acc', lambda d: SSeq.lit([], INT), T.t_bytearray)
METH['bytearray___initFromInt__'] = fresh_with('res', 'bytearray_acc', lambda d, n: SSeq(
    num(n), lambda i: z3.IntVal(0), INT), T.t_bytearray)
DEF['bytearray___initFromInt__'] = lambda d, n: num(n) >= 0
METH['bytearray___initFromBytearray__'] = fresh_with('res', 'bytearray_acc', lambda d, o: C['bytearray'](d, o), T.t_bytearray)
METH['bytearray___initFromList__'] = fresh_with('res', 'bytearray_acc', lambda d, o: seq_ref_to_int(C['list'](d, o)),
                                                T.t_bytearray)


def all_bytes(s, f=lambda x: x):
    i = fresh(INT, 'i')
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.n), z3.And(0 <= f(s.at(i)), f(s.at(i)) < 256)))


DEF['bytearray___initFromList__'] = lambda d, o: all_bytes(C['list'](d, o), num)
METH['bytearray___getitem_slice__'] = fresh_with('_res', 'bytearray_acc', lambda d, v, k: pyslice(
    C['bytearray'](d, v), sl_start(k), sl_stop(k)), T.t_bytearray)
METH['bytearray___setitem__'] = upd('bytearray_acc', lambda d, v, i, x: C['bytearray'](d, v).upd(
    z3.If(i < 0, C['bytearray'](d, v).n + i, i), num(x)))
DEF['bytearray___setitem__'] = lambda d, v, i, x: z3.And(in_range(C['bytearray'](d, v), i), 0 <= num(x), num(x) < 256)
METH['bytearray_append'] = upd('bytearray_acc', lambda d, v, x: C['bytearray'](d, v).cat(SSeq.lit([num(x)], INT)))
DEF['bytearray_append'] = lambda d, v, x: z3.And(0 <= num(x), num(x) < 256)
METH['bytearray_extend'] = upd('bytearray_acc', lambda d, v, o: C['bytearray'](d, v).cat(C['bytearray'](d, o)))
METH['bytearray_reverse'] = upd('bytearray_acc', lambda d, v: rev(C['bytearray'](d, v)))

METH['set___init__'] = fresh_with('res', 'set_acc', lambda d: SSet(lambda x: z3.BoolVal(False), z3.IntVal(0), V),
                                  lambda d: T.t_set(anyT()))


def set_add(d, v, x):
    s = field(d, 'set_acc', v)
    return SSet(lambda y: z3.Or(y == x, s.mem(y)), z3.If(s.mem(x), s.card, s.card + 1), V)


METH['set_add'] = upd('set_acc', set_add)


def set_rem(d, v, x):
    s = field(d, 'set_acc', v)
    return SSet(lambda y: z3.And(y != x, s.mem(y)), z3.If(s.mem(x), s.card - 1, s.card), V)


METH['set_remove'] = upd('set_acc', set_rem)
DEF['set_remove'] = lambda d, v, x: field(d, 'set_acc', v).mem(x)
METH['set_clear'] = upd('set_acc', lambda d, v: SSet(lambda x: z3.BoolVal(False), z3.IntVal(0), V))
METH['dict___init__'] = fresh_with('res', 'dict_acc', lambda d: SMap(
    lambda x: z3.BoolVal(False), lambda x: junk(V), z3.IntVal(0), V, V), lambda d: T.t_dict(anyT(), anyT()))


def dict_set(d, v, k, x):
    m = field(d, 'dict_acc', v)
    return SMap(lambda y: z3.Or(y == k, m.has(y)), lambda y: z3.If(y == k, x, m.get(y)),
                z3.If(m.has(k), m.card, m.card + 1), V, V)


METH['dict___setitem__'] = upd('dict_acc', dict_set)


@meth('dict_keys')
def dict_keys(d, v):
    m = field(d, 'dict_acc', v)
    r, facts = newobj(d, [v], T.t_set(T.k_dict(typeof(v))))
    return Eff({'res': r}, [('set_acc', r, SSet(m.has, m.card, V))], facts)


@meth('dict_values')
def dict_values(d, v):
    m = field(d, 'dict_acc', v)
    keys = dict_seq(d, v)
    r, facts = newobj(d, [v], T.t_list(T.v_dict(typeof(v))))
    return Eff({'_res': r}, [('list_acc', r, keys.map(m.get, V))], facts)
