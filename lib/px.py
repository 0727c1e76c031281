"""Contract checking of real Python functions by exhaustive path exploration.

A harness states a contract of one real function of /repo: it builds symbolic
inputs (precondition), runs the *real, unmodified* function on them and states
postconditions with `ensure`/`same`. Inputs are proxies around z3 terms; every
branch the real code takes on a symbolic value splits the exploration, and all
feasible paths are followed. A postcondition is discharged when z3 proves that
its negation is unsatisfiable together with each path condition, so the verdict
holds for all values of the symbolic inputs.

Every refutation is replayed: the model's values are put into plain Python
objects and the harness is run again on the real code. Only a replayed failure
is a violation. Where the real code does something the proxies cannot follow
the obligation falls back to concrete cases (bounded, labelled so).

Assumed: opaque text is handled parametrically (the code can test it for
equality and emptiness, and copy it; anything else falls back to bounded).
"""
import random
import sys
import time
import traceback
import env  # noqa
import z3

RAW = 770077000077          # the plain int inside a symbolic one (must never show)
SEED = 1


class SymUnsupported(BaseException):
    pass


class PathInfeasible(BaseException):
    pass


class Missing(BaseException):
    """The function the contract belongs to does not exist (any more)."""


CUR = [None]


def t(x):
    """z3 term of a proxy or constant."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if z3.is_expr(x):
        return x
    raise SymUnsupported('term of %r' % (type(x),))


def num(x):
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    return t(x)


class SBool:
    """Symbolic truth value."""
    def __init__(self, term):
        self.t = term

    def __bool__(self):
        return CUR[0].decide(self.t)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.t == t(o))
        if isinstance(o, (SInt, int)):
            return SBool(num(self) == num(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else True

    def __hash__(self):
        return 1

    def __and__(self, o):
        return SBool(z3.And(self.t, t(o)))

    def __or__(self, o):
        return SBool(z3.Or(self.t, t(o)))

    def __invert__(self):
        raise SymUnsupported('~bool')

    def __format__(self, spec):
        return str(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__


def _arith(f):
    def op(self, o):
        if not isinstance(o, (int, SBool)):
            return NotImplemented
        return SInt(f(self.t, num(o)))
    return op


def _rarith(f):
    def op(self, o):
        if not isinstance(o, (int, SBool)):
            return NotImplemented
        return SInt(f(num(o), self.t))
    return op


def _cmp(f):
    def op(self, o):
        if not isinstance(o, (int, SBool)):
            return NotImplemented
        return SBool(f(self.t, num(o)))
    return op


class SInt(int):
    """Symbolic mathematical integer."""
    def __new__(cls, term):
        r = int.__new__(cls, RAW)
        r.t = z3.simplify(term)
        return r

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _rarith(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __neg__(self):
        return SInt(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.t < 0, -self.t, self.t))

    def __bool__(self):
        return CUR[0].decide(self.t != 0)

    def __eq__(self, o):
        if isinstance(o, (int, SBool)):
            return SBool(self.t == num(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else True

    def __hash__(self):
        return 1

    def __floordiv__(self, o):
        if not isinstance(o, (int, SBool)):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        d = num(o)
        # SMT-LIB's div rounds so that the remainder is not negative
        return SInt(self.t / d) if o > 0 else SInt(-self.t / -d)

    def __mod__(self, o):
        if not isinstance(o, (int, SBool)):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('integer modulo by zero')
        d = num(o)
        return SInt(self.t % d) if o > 0 else SInt(-(-self.t % -d))

    def __rfloordiv__(self, o):
        return SInt(num(o)) // self

    def __rmod__(self, o):
        return SInt(num(o)) % self

    def __pow__(self, o):
        if type(o) is int and 0 <= o < 5:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise SymUnsupported('power')

    def _no(self, *a, **k):
        raise SymUnsupported('int operation')

    __index__ = __int__ = __float__ = __rpow__ = _no
    __and__ = __or__ = __xor__ = __lshift__ = __rshift__ = __invert__ = __truediv__ = _no
    __rand__ = __ror__ = __rxor__ = __rlshift__ = __rrshift__ = __rtruediv__ = __divmod__ = _no
    to_bytes = bit_length = _no

    def __format__(self, spec):
        if spec not in ('', 'd'):
            raise SymUnsupported('format')
        return CUR[0].mark('i', self.t)

    def __str__(self):
        return CUR[0].mark('i', self.t)

    __repr__ = __str__


class SText(str):
    """Opaque text: can be copied, concatenated, compared and tested for emptiness."""
    def __new__(cls, name):
        r = str.__new__(cls, '\ue000t:%s\ue001' % name)
        r.atom = name
        return r

    def __eq__(self, o):
        if isinstance(o, SText):
            if o.atom == self.atom:
                return True
            return SBool(CUR[0].text_eq2(self.atom, o.atom))
        if isinstance(o, str):
            if '\ue000' in o:
                if str.__eq__(self, o):
                    return True
                raise SymUnsupported('compare opaque text')
            return SBool(CUR[0].text_eq(self.atom, str(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else not r

    def __hash__(self):
        return 1

    def __bool__(self):
        return not bool(SBool(CUR[0].text_eq(self.atom, '')))

    def __str__(self):
        return self

    def __format__(self, spec):
        if spec:
            raise SymUnsupported('format')
        return str.__str__(self)

    def _no(self, *a, **k):
        raise SymUnsupported('text operation')

    __len__ = __getitem__ = __contains__ = __iter__ = __lt__ = __gt__ = __le__ = __ge__ = __mod__ = _no
    startswith = endswith = split = rsplit = strip = lstrip = rstrip = replace = find = rfind = _no
    index = rindex = lower = upper = title = capitalize = partition = rpartition = splitlines = _no
    isdigit = isalnum = isalpha = isspace = isupper = islower = isidentifier = count = encode = _no
    translate = join = casefold = swapcase = zfill = center = ljust = rjust = removeprefix = removesuffix = _no


class Fail(BaseException):
    """A failed ensure in concrete mode."""
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


INTS = [0, 1, -1, 2, -2, 3, 5, 7, 8, 10, 63, 64, 127, 128, 255, 256, -128, 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32, -2 ** 31 - 1,
        2 ** 63, 2 ** 63 - 1, -2 ** 63, 10 ** 30, -10 ** 30]
TEXTS = ['abc', 'x', 'a.b', 'A_1', 'hello world', 'a:b:1', 'ünï', '(not x)', '__main__', '"q"', 'None', 'a, b', 'x\ny']


class Ctx:
    def __init__(self, prefix=(), values=None, rng=None):
        self.prefix, self.taken, self.pending, self.pc = list(prefix), [], [], []
        self.values, self.rng = values, rng
        self.conc = values is not None or rng is not None
        self.inputs = {}
        self.cons = []
        self.marks = {}
        self.texts = {}
        self.fails = []
        self.labels = []
        self.cleanups = []
        self.log = []
        self.n_dec = 0

    # ------------------------------------------------------------- inputs
    def _pick(self, name, gen):
        if self.values is not None and name in self.values:
            return self.values[name]
        if self.rng is not None:
            return gen(self.rng)
        return gen(random.Random(hash_name(name)))

    def int(self, name, lo=None, hi=None):
        if self.conc:
            cand = [x for x in INTS if (lo is None or x >= lo) and (hi is None or x <= hi)] or [lo if lo is not None else hi]
            if lo is not None and hi is not None and hi - lo < 300:
                cand = list(range(lo, hi + 1))
            v = self._pick(name, lambda r: r.choice(cand))
            self.inputs[name] = v
            return v
        x = z3.Int(name)
        self.inputs[name] = x
        if lo is not None:
            self.pc.append(x >= lo)
        if hi is not None:
            self.pc.append(x <= hi)
        return SInt(x)

    def bool(self, name, split=True):
        if self.conc:
            v = self._pick(name, lambda r: r.random() < 0.5)
            self.inputs[name] = v
            return v
        x = z3.Bool(name)
        self.inputs[name] = x
        return self.decide(x) if split else SBool(x)

    def choice(self, name, options):
        """One of finitely many alternatives, each explored."""
        options = list(options)
        if self.conc:
            v = self._pick(name, lambda r: r.randrange(len(options)))
            self.inputs[name] = v
            return options[v]
        x = z3.Int('choice:' + name)
        self.inputs[name] = x
        self.pc += [x >= 0, x < len(options)]
        for i in range(len(options) - 1):
            if self.decide(x == i):
                return options[i]
        return options[-1]

    def text(self, name):
        if self.conc:
            v = self._pick(name, lambda r: r.choice(TEXTS + ['']))
            self.inputs[name] = v
            return v
        self.texts.setdefault(name, {})
        self.inputs[name] = ('text', name)
        return SText(name)

    def word(self, name):
        """Opaque non-empty text."""
        if self.conc:
            v = self._pick(name, lambda r: r.choice(TEXTS)) or 'w'
            self.inputs[name] = v
            return v
        s = self.text(name)
        self.pc.append(z3.Not(self.text_eq(name, '')))
        return s

    def opaque(self, name, cls=None, **attrs):
        """A fresh object that is only itself."""
        o = (cls or Opaque)(name) if cls is None or issubclass(cls, Opaque) else cls()
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def assume(self, c):
        if self.conc:
            if not c:
                raise PathInfeasible()
            return
        if isinstance(c, bool):
            if not c:
                raise PathInfeasible()
            return
        self.pc.append(t(c))
        if not self.sat():
            raise PathInfeasible()

    # ------------------------------------------------------ names and sets of names
    def name(self, name):
        """Any name, as a z3 string; sets made by `names` decide membership of it."""
        if self.conc:
            v = self._pick(name, lambda r: r.choice(NAMES))
            self.inputs[name] = v
            return v
        x = z3.String(name)
        self.inputs[name] = x
        return STerm(self.mark('n', x))

    def names(self, name):
        """Any finite set of names."""
        if self.conc:
            v = self._pick(name, lambda r: sorted(r.sample(NAMES, r.randrange(len(NAMES)))))
            if isinstance(v, str):
                v = [n for n in NAMES if n in v.split()]
            self.inputs[name] = v
            return set(v)
        x = z3.Array(name, z3.StringSort(), z3.BoolSort())
        self.inputs[name] = x
        return NameSet(x)

    def string(self, s):
        """z3 string of a text made of literals, names and numbers."""
        import re
        parts = []
        for x in re.split('(\ue000.*?\ue001)', str.__str__(s)):
            if not x:
                continue
            if x[0] == '\ue000':
                v = self.marks[x[1:-1]]
                parts.append(v if z3.is_string(v) else z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v))))
            else:
                parts.append(z3.StringVal(x))
        if not parts:
            return z3.StringVal('')
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)

    def loop_free(self, fn):
        """The function with every while loop cut: what its loops assign is
        arbitrary, and one iteration is followed. (Concretely: the real one.)"""
        return fn if self.conc else cut_loops(fn)

    # ------------------------------------------------------- text machinery
    def text_eq(self, atom, lit):
        d = self.texts.setdefault(atom, {})
        if lit not in d:
            v = z3.Bool('text:%s==%r' % (atom, lit))
            for w in d.values():
                self.pc.append(z3.Not(z3.And(v, w)))
            d[lit] = v
        return d[lit]

    def text_eq2(self, a, b):
        a, b = sorted((a, b))
        return z3.Bool('text:%s===%s' % (a, b))

    def mark(self, kind, term):
        key = '%s:%d' % (kind, len(self.marks))
        self.marks[key] = term
        return '\ue000%s\ue001' % key

    # --------------------------------------------------------------- deciding
    def sat(self, *extra):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(*self.pc)
        s.add(*extra)
        return s.check() != z3.unsat

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            a = self.sat(c)
            b = self.sat(z3.Not(c)) if a else True
            if a and b:
                self.pending.append(self.taken + [False])
            d = a
        self.taken.append(d)
        self.pc.append(c if d else z3.Not(c))
        return d

    # ---------------------------------------------------------------- claims
    def ensure(self, c, label, **detail):
        self.labels.append(label)
        if self.conc:
            if not c:
                raise Fail(label, detail)
            return
        if isinstance(c, SBool):
            c = c.t
        if z3.is_expr(c):
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*self.pc)
            s.add(z3.Not(c))
            r = s.check()
            if r == z3.unsat:
                return
            self.fails.append((label, detail, s.model() if r == z3.sat else None))
            return
        if not c:
            s = z3.Solver()
            s.add(*self.pc)
            s.check()
            self.fails.append((label, detail, s.model()))

    def eq(self, a, b):
        """Structural equality as a condition."""
        if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
            if isinstance(a, bool) != isinstance(b, bool) and not isinstance(a, SBool) and not isinstance(b, SBool):
                pass
            if not isinstance(a, (SInt, SBool, int)) or not isinstance(b, (SInt, SBool, int)):
                return z3.BoolVal(False)
            return num(a) == num(b)
        if isinstance(a, str) and isinstance(b, str):
            return self.text_same(a, b)
        if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b)):
            if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
                return z3.BoolVal(False)
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return z3.BoolVal(False)
            return z3.And(*([self.eq(x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)]))
        if isinstance(a, dict):
            if set(a) != set(b):
                return z3.BoolVal(False)
            return z3.And(*([self.eq(a[k], b[k]) for k in a] + [z3.BoolVal(True)]))
        r = a == b
        return r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))

    def text_same(self, a, b):
        a, b = str.__str__(a), str.__str__(b)
        if a == b:
            return z3.BoolVal(True)
        import re
        pa, pb = re.split('(\ue000.*?\ue001)', a), re.split('(\ue000.*?\ue001)', b)
        if len(pa) != len(pb):
            return z3.BoolVal(False)
        out = []
        for x, y in zip(pa, pb):
            if x == y:
                continue
            if x[:3] == '\ue000i:' and y[:3] == '\ue000i:':
                out.append(self.marks[x[1:-1]] == self.marks[y[1:-1]])
            else:
                return z3.BoolVal(False)
        return z3.And(*(out + [z3.BoolVal(True)]))

    def same(self, got, want, label):
        if self.conc:
            ok = type(got) is type(want) or isinstance(got, (int, float, str)) and isinstance(want, type(got))
            self.ensure(bool(ok and got == want), label, got=repr(got)[:500], want=repr(want)[:500])
        else:
            self.ensure(self.eq(got, want), label, got=safe(got), want=safe(want))

    def is_(self, got, want, label):
        self.ensure(got is want, label, got=safe(got), want=safe(want))

    def call(self, fn, *a, **k):
        """('ok', value) or ('exc', exception) of the real function."""
        try:
            return 'ok', fn(*a, **k)
        except Exception as e:
            return 'exc', e

    def run(self, label, fn, *a, **k):
        """Value of the real function, which must not raise."""
        kind, v = self.call(fn, *a, **k)
        if kind == 'exc':
            self.ensure(False, label + ': does not raise', exception=repr(v)[:300],
                        trace=''.join(traceback.format_exception(type(v), v, v.__traceback__))[-1500:])
            raise PathInfeasible()
        self.labels.append(label + ': does not raise')
        return v

    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.cleanups.append(undo)

    def cleanup(self):
        for c in reversed(self.cleanups):
            c()
        self.cleanups = []


NAMES = ['a', 'a_0', 'a_1', 'a_0_0', 'b', 'a_2', 'ab', 'a_basic', 'a_0_basic']


class STerm(str):
    """A name: a text that stands for a z3 string."""
    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return SBool(CUR[0].string(self) == CUR[0].string(o))

    def __ne__(self, o):
        r = self == o
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else True

    def __hash__(self):
        raise SymUnsupported('hash of a name')

    def __add__(self, o):
        return STerm(str.__str__(self) + str.__str__(o))

    def __radd__(self, o):
        return STerm(str.__str__(o) + str.__str__(self))

    def __str__(self):
        return self

    def __format__(self, spec):
        return str.__str__(self)


class NameSet:
    """A set of names (z3 array)."""
    def __init__(self, a):
        self.a = a

    def has(self, n):
        return SBool(z3.Select(self.a, CUR[0].string(n)))

    def __contains__(self, n):
        return bool(self.has(n))

    def add(self, n):
        self.a = z3.Store(self.a, CUR[0].string(n), z3.BoolVal(True))

    def update(self, ns):
        for n in ns:
            self.add(n)

    def __ior__(self, ns):
        self.update(ns)
        return self

    def __iter__(self):
        raise SymUnsupported('iteration over an arbitrary set')

    def __len__(self):
        raise SymUnsupported('size of an arbitrary set')


class LoopCut(PathInfeasible):
    """The end of one arbitrary iteration of a loop."""


def havoc(v, where):
    import itertools
    c = CUR[0]
    c.fresh = getattr(c, 'fresh', 0) + 1
    n = 'loop%d:%s' % (c.fresh, where)
    if isinstance(v, STerm) or isinstance(v, str):
        return STerm(c.mark('n', z3.String(n)))
    if isinstance(v, (bool, SBool)):
        return SBool(z3.Bool(n))
    if isinstance(v, (int, SInt)):
        return SInt(z3.Int(n))
    raise SymUnsupported('loop variable %s of type %s' % (where, type(v).__name__))


def cut_loops(fn):
    """Mechanical: each `while c: body` becomes: assign arbitrary values to what
    the body assigns; leave unless c; run the body once and stop the path at its
    end. Nothing else changes. Loops with an else part or changing objects in
    the body other than through assignments to names are refused."""
    import ast
    import inspect
    import textwrap
    try:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    except (OSError, SyntaxError, TypeError) as e:
        raise SymUnsupported('no source: %s' % e)

    class Cut(ast.NodeTransformer):
        def visit_While(self, n):
            self.generic_visit(n)
            if n.orelse:
                raise SymUnsupported('while with else')
            assigned = sorted({m.id for b in n.body + [n.test] for m in ast.walk(b)
                               if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)})
            for b in n.body:
                for m in ast.walk(b):
                    if isinstance(m, (ast.Attribute, ast.Subscript)) and isinstance(m.ctx, ast.Store):
                        raise SymUnsupported('loop that changes objects')
                    if isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr not in ('contains_name', 'format'):
                        raise SymUnsupported('loop that calls %s' % m.func.attr)
            src = ''.join('try:\n    {0} = __havoc__({0}, {0!r})\nexcept NameError: pass\n'.format(a) for a in assigned)
            out = ast.parse(src).body
            loop = ast.parse('for __once in (0,):\n    pass\nelse:\n    raise __cut__()').body[0]
            leave = ast.parse('for _ in ():\n    if not 0: break').body[0].body[0]
            leave.test.operand = n.test
            loop.body = [leave] + n.body
            return out + [loop]
    tree = Cut().visit(tree)
    tree.body[0].decorator_list = []
    ast.fix_missing_locations(tree)
    ns = dict(fn.__globals__)
    ns.update(__havoc__=havoc, __cut__=LoopCut)
    exec(compile(tree, '<loops cut>', 'exec'), ns)
    return ns[fn.__name__]


def safe(x):
    try:
        return repr(x)[:500]
    except BaseException:
        return '<%s>' % type(x).__name__


def hash_name(n):
    return sum(ord(c) * (i + 1) for i, c in enumerate(n)) + 7919 * SEED


class Opaque:
    """An object about which nothing is known but its identity."""
    def __init__(self, name='o'):
        self.__dict__['_px_name'] = name

    def __repr__(self):
        return '<%s>' % self._px_name


def target(module, path):
    """The real function, by name; Missing when it does not exist."""
    import importlib
    try:
        o = importlib.import_module(module)
        for p in path.split('.') if path else []:
            o = getattr(o, p)
        return o
    except (ImportError, AttributeError) as e:
        raise Missing('%s.%s' % (module, path)) from e


def concretise(ctx, model):
    """Plain values for the inputs of a symbolic run."""
    vals, used = {}, set()
    for name, x in ctx.inputs.items():
        if isinstance(x, tuple):
            lits = ctx.texts.get(name, {})
            got = None
            for lit, v in lits.items():
                if model is not None and z3.is_true(model.eval(v, model_completion=False)):
                    got = lit
            vals[name] = got
            continue
        if model is None:
            continue
        if z3.is_string(x) or z3.is_array(x):
            continue
        v = model.eval(x, model_completion=True)
        vals[name] = z3.is_true(v) if z3.is_bool(v) else v.as_long()
    for name, x in ctx.inputs.items():
        if isinstance(x, tuple) and vals.get(name) is None:
            lits = ctx.texts.get(name, {})
            for other in ctx.inputs:
                if other < name and isinstance(ctx.inputs[other], tuple) and model is not None and z3.is_true(
                        model.eval(ctx.text_eq2(other, name), model_completion=False)):
                    vals[name] = vals.get(other)
            if vals.get(name) is None:
                for i in range(1000):
                    c = (TEXTS[:4] + ['w%d' % k for k in range(1000)])[i]
                    if c not in lits and c not in used:
                        vals[name] = c
                        break
        if isinstance(x, tuple):
            used.add(vals[name])
    return vals


def run_conc(harness, values=None, rng=None):
    """None, or (label, detail) of a failure on the real code."""
    ctx = Ctx(values=values, rng=rng)
    CUR[0] = ctx
    try:
        harness(ctx)
        return None, ctx
    except PathInfeasible:
        return None, ctx
    except Fail as f:
        return (f.label, f.detail), ctx
    except Missing:
        raise
    except Exception as e:
        return ('no unexpected exception', {'exception': repr(e)[:300], 'trace': traceback.format_exc()[-2000:]}), ctx
    finally:
        ctx.cleanup()
        CUR[0] = None


def prove(rep, fn, harness, limit=3000, samples=60, budget=60.0, bounded=None):
    """Explore every path of the harness. `bounded` names the bound when the
    harness itself only covers part of the input space."""
    t0 = time.time()
    todo, labels, cands, why, paths = [[]], {}, [], None, 0
    try:
        while todo:
            if paths >= limit or time.time() - t0 > budget:
                why = 'path limit'
                break
            ctx = Ctx(todo.pop())
            CUR[0] = ctx
            paths += 1
            try:
                harness(ctx)
            except PathInfeasible:
                pass
            except SymUnsupported as e:
                why = 'outside the symbolic subset: %s' % e
            except Missing:
                raise
            except Fail as f:
                ctx.fails.append((f.label, f.detail, None))
            except Exception as e:
                s = z3.Solver()
                s.add(*ctx.pc)
                s.check()
                ctx.fails.append(('no unexpected exception', {'exception': repr(e)[:300],
                                                               'trace': traceback.format_exc()[-2000:]}, s.model()))
            finally:
                ctx.cleanup()
                CUR[0] = None
            for lb in ctx.labels:
                labels[lb] = labels.get(lb, 0) + 1
            for lb, det, model in ctx.fails:
                if lb not in [c[0] for c in cands] or len(cands) < 5:
                    cands.append((lb, det, concretise(ctx, model)))
            todo += ctx.pending
            if why and why.startswith('outside'):
                todo += []
        found = None
        for lb, det, vals in cands:
            bad, c = run_conc(harness, vals)
            if bad:
                found = (bad, c, 'model of the failed obligation %r' % lb)
                break
        if not found:
            rng = random.Random(SEED)
            n = samples if not (why or cands) else 600
            for _ in range(n):
                bad, c = run_conc(harness, None, rng)
                for lb in c.labels:
                    labels.setdefault(lb, 0)
                if bad:
                    found = (bad, c, 'sampled input')
                    break
                if time.time() - t0 > budget * 2:
                    break
    except Missing as m:
        rep.extra.setdefault('contracts_without_function', []).append('%s: %s' % (fn, m))
        print('NOTE property=%s %s does not exist; its contract was not checked' % (rep.prop, m), flush=True)
        return False
    secs = time.time() - t0
    if found:
        (lb, det), c, how = found
        key = '%s/%s' % (fn, lb)
        k = rep.known_for(key) or rep.known_for('%s/%s/%s' % (fn, lb, known_inputs(c)))
        if k:
            rep.hit_known(k)
            return True
        rep.violation(fn, lb, {'what': '%s; %s' % (str(det)[:400], safe(c.inputs)), 'inputs': {n: safe(v) for n, v in c.inputs.items()},
                               'detail': det, 'found_by': how}, replayed=True)
        return True
    for lb in sorted(labels):
        if why or bounded or any(cd[0] == lb for cd in cands):
            rep.bounded_ok(fn, lb, bounded or why or 'unconfirmed', paths)
            rep.functions.add(fn)
        else:
            rep.proved(fn, lb, secs / max(1, len(labels)))
    rep.extra['paths'] = rep.extra.get('paths', 0) + paths
    return True


def known_inputs(c):
    return ','.join('%s=%s' % (k, v) for k, v in sorted(c.inputs.items()))
