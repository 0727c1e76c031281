"""C17: what a counterexample shows is what the backend model says.

The real Extractor/Converter run on model objects that encode a known state. The
encoding (the backend's side of the format) and the reading back of the result
are written down here; integers and booleans in the state are symbolic, so each
shape of state is decided for all of their values."""
import itertools
import os
import random
import shutil
import tempfile
import env
import px
import z3
from px import prove

LEVEL = 'proof'
TRUSTED = ['z3', 'CPython', 'the format of Silicon counterexamples as written down in the harness (names of the functions in a model, terms, chunks)',
           'recording JVM stand-in', 'mypy']
ASSUMPTIONS = ['Silicon reports models in the format the converter reads; no backend is available to confirm it',
               'integers and booleans of the state are symbolic; the shapes of the states (objects, lengths, types) are enumerated']
MIN = 10
U = '$Snap.unit'
CONV = 'nagini_translation.models.converter'


def conv():
    import importlib
    return importlib.import_module(CONV)


# ------------------------------------------------------- texts of integers
class NumText(str):
    """What an SMT solver prints for a symbolic integer: digits, or (- digits).
    Pieces are literal characters and one block of digits of a number >= 0."""
    def __new__(cls, parts):
        o = super().__new__(cls, '<num%s>' % id(parts))
        o.parts = parts
        return o

    def _no(self, *a, **k):
        raise px.SymUnsupported('operation on the text of a symbolic integer')

    def startswith(self, p, *a):
        if a or not isinstance(p, str):
            if isinstance(p, tuple) and not a:
                return any(self.startswith(x) for x in p)
            self._no()
        for i, c in enumerate(p):
            if i >= len(self.parts):
                return False
            if not isinstance(self.parts[i], str):
                if c.isdigit():
                    self._no()
                return False
            if self.parts[i] != c:
                return False
        return True

    def endswith(self, p, *a):
        if a or not isinstance(p, str):
            self._no()
        r = NumText(self.parts[::-1])
        return r.startswith(p[::-1])

    def __getitem__(self, k):
        n = [i for i, x in enumerate(self.parts) if not isinstance(x, str)][0]
        after = len(self.parts) - n - 1
        if isinstance(k, slice) and k.step is None:
            lo, hi = k.start or 0, k.stop
            if 0 <= lo <= n and (hi is None or (hi < 0 and -hi <= after)):
                return NumText(self.parts[lo:len(self.parts) + (hi or 0)])
            self._no()
        if isinstance(k, int) and (0 <= k < n or -after <= k < 0):
            return self.parts[k]
        self._no()

    def strip(self, chars=None):
        p = list(self.parts)
        ok = (lambda x: x.isspace()) if chars is None else (lambda x: x in chars)
        if chars is not None and any(c.isdigit() for c in chars):
            self._no()
        while p and isinstance(p[0], str) and ok(p[0]):
            p.pop(0)
        while p and isinstance(p[-1], str) and ok(p[-1]):
            p.pop()
        return NumText(p)

    def split(self, *a):
        if a:
            self._no()
        out, cur = [], []
        for x in self.parts:
            if isinstance(x, str) and x.isspace():
                if cur:
                    out.append(cur)
                cur = []
            else:
                cur.append(x)
        if cur:
            out.append(cur)
        return [NumText(x) if any(not isinstance(y, str) for y in x) else ''.join(x) for x in out]

    def replace(self, a, b, *r):
        if r or not a or any(ch.isdigit() for ch in a + b) or len(a) != 1:
            self._no()
        return NumText([y for x in self.parts for y in (list(b) if x == a else [x])])

    def __eq__(self, o):
        if isinstance(o, NumText):
            return self is o or self._no()
        if isinstance(o, str):
            if o.strip('() -').isdigit():
                self._no()
            return False
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 77

    def __str__(self):
        return self

    def __contains__(self, x):
        if any(ch.isdigit() for ch in x):
            self._no()
        return any(isinstance(p, str) and p == x for p in self.parts) if len(x) == 1 else self._no()

    def __bool__(self):
        return True

    __add__ = __radd__ = __mul__ = __len__ = __iter__ = __format__ = __lt__ = __le__ = __gt__ = __ge__ = __mod__ = _no
    find = index = rfind = count = encode = partition = rpartition = join = lower = upper = isdigit = isdecimal = isnumeric = _no
    lstrip = rstrip = rsplit = splitlines = removeprefix = removesuffix = translate = casefold = __int__ = _no


def num_text(c, n):
    if isinstance(n, px.SInt):
        if n < 0:
            return NumText(['(', '-', ' ', -n, ')'])
        return NumText([n])
    return str(n) if n >= 0 else '(- %d)' % -n


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, x):
        return issubclass(x, int)


class Int(metaclass=_IntMeta):
    """The builtin int, which also reads the texts of symbolic integers."""
    def __new__(cls, x=0, *a):
        if isinstance(x, NumText) and not a:
            s = x.strip()
            if len(s.parts) == 1:
                return s.parts[0]
            if len(s.parts) == 2 and s.parts[0] in ('-', '+') and not isinstance(s.parts[1], str):
                return -s.parts[1] if s.parts[0] == '-' else s.parts[1]
            raise ValueError('invalid literal for int()')
        if isinstance(x, px.SInt):
            return x
        return int(x, *a)


def bool_text(c, b):
    return 'true' if b else 'false'


def new_converter(model, modules=(), method=None, store=None, heap=None):
    m = conv()
    return m.Converter(method, model, store or {}, heap or {}, {}, None, list(modules))


# ------------------------------------------------------------- functions
def parsing(rep):
    def ints(c):
        c.patch(conv(), 'int', Int)
        k = new_converter({})
        n = c.int('n')
        c.same(k.parse_int(num_text(c, n)), n, 'the text of an integer is read as that integer')
    prove(rep, 'converter.Converter.parse_int', ints, samples=200)

    def unknown(c):
        k = new_converter({})
        v = c.choice('text', ['None', '#unspecified', '(- x)', '(ite a b)', 'x!1', '$Ref!val!3', '(/ 1 2)', '(+ 1 2)', ''])
        c.ensure(k.parse_int(v) == '?', 'text that is no integer is unknown', text=v)
    prove(rep, 'converter.Converter.parse_int', unknown, bounded='listed texts')

    def bools(c):
        k = new_converter({})
        b = c.bool('b')
        c.ensure(k.parse_bool(bool_text(c, b)) is bool(b), 'the text of a truth value is read as that truth value')
        for v in ('None', '#unspecified', '1', 'True', '(not x)'):
            c.ensure(k.parse_bool(v) == '?', 'text that is no truth value is unknown', text=v)
    prove(rep, 'converter.Converter.parse_bool', bools)

    def lookup(c):
        m = conv()
        keys = [(), ('a',), ('a', 'b'), ('b',), ('(f a)',), ('(f a)', 'b'), ('a', 'b', 'c')]
        have = [k for i, k in enumerate(keys[1:]) if c.choice('has%d' % i, [True, False])]
        els = c.choice('else', [None, 'z'])
        model = {'f': {k: 'v%d' % i for i, k in enumerate(have)}, 'g': 'const'}
        if els:
            model['f']['else'] = els
        ask = c.choice('ask', [('a',), ('a', 'b'), ('  b ',), ('(f\n  a)',), ('c',)])
        norm = tuple(' '.join(a.split()) for a in ask)
        got = m.get_func_value(model, 'f', ask)
        want = 'v%d' % have.index(norm) if norm in have else (els or 'None')
        c.ensure(got == want, 'the value of a function is the entry of the arguments, else the default', ask=ask, got=got, want=want)
        c.ensure(m.get_func_value(model, 'g', ()) == 'const', 'a constant is its entry')
        opts, e = m.get_func_values(model, 'f', ask)
        c.ensure(sorted(opts) == sorted((k[len(norm):], 'v%d' % i) for i, k in enumerate(have) if k[:len(norm)] == norm) and e == (els or 'None'),
                 'all entries that begin with the arguments are found', ask=ask, got=opts)
    prove(rep, 'converter.get_func_value', lookup, bounded='maps of at most 6 entries, all subsets', limit=20000)

    def parts(c):
        import random as R
        rng = R.Random(c.choice('seed', list(range(300))))

        def term(d):
            if d == 0 or rng.random() < .3:
                return rng.choice(['a', '$t@1', '(- 1)', '$Snap.unit', '$Ref!val!0'])
            return '(%s %s)' % (rng.choice(['f', '$Snap.combine', 'Cons%limited']), ' '.join(term(d - 1) for _ in range(rng.randint(1, 3))))
        ps = [term(3) for _ in range(rng.randint(1, 3))]
        s = '($Snap.combine %s)' % ' '.join(ps)
        c.ensure(list(conv().get_parts(None, s)) == ['$Snap.combine'] + ps, 'an application is split into its function and arguments', text=s)
    prove(rep, 'converter.get_parts', parts, bounded='300 applications of depth at most 4', budget=30)


# ------------------------------------------------- stand-in for the model
class It:
    def __init__(self, xs):
        self.xs = list(xs)

    def toIterator(self):
        return It(self.xs)

    iterator = toIterator

    def hasNext(self):
        return bool(self.xs)

    def next(self):
        return self.xs.pop(0)

    def head(self):
        return self.xs[0]


class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def _1(self):
        return self.a

    def _2(self):
        return self.b


class Txt:
    def __init__(self, s):
        self.s = s

    def toString(self):
        return self.s

    def __str__(self):
        return self.s


class Const(Txt):
    def value(self):
        return self.s


class AppEntry(Txt):
    pass


class MapEntry:
    def __init__(self, d, els):
        self.d, self.els = d, els

    def resolveFunctionDefinition(self):
        return self

    def options(self):
        return It(Pair(It(Txt(x) for x in k), Txt(v)) for k, v in self.d.items())

    def default(self):
        return Txt(self.els)


class Term:
    def __init__(self, *a):
        self.a = a

    def __str__(self):
        return '%s(%s)' % (type(self).__name__, ','.join(map(str, self.a)))

    def __eq__(self, o):
        return type(self) is type(o) and self.a == o.a

    def __hash__(self):
        return hash(str(self))

    def sort(self):
        return Sort('Snap')


class Var(Term):
    def __str__(self):
        return self.a[0]


class IntLiteral(Term):
    def __str__(self):
        return str(self.a[0])


class Null(Term):
    pass


class Unit(Term):
    pass


class App(Term):
    def applicable(self):
        return self

    def id(self):
        return self.a[0]

    def args(self):
        return It(self.a[1])


class Combine(Term):
    def p0(self):
        return self.a[0]

    def p1(self):
        return self.a[1]


class First(Term):
    def p(self):
        return self.a[0]


class Second(Term):
    def p(self):
        return self.a[0]


class SortWrapper(Term):
    def t(self):
        return self.a[0]

    def to(self):
        return self.a[1]


class PredicateLookup(Term):
    def predname(self):
        return self.a[0]

    def psf(self):
        return self.a[1]

    def args(self):
        return It(self.a[2])


class SeqAppend(Term):
    def p0(self):
        return self.a[0]

    def p1(self):
        return self.a[1]


class SeqSingleton(Term):
    def p(self):
        return self.a[0]


class SeqNil(Term):
    pass


class Other(Term):
    pass


class Sort:
    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __str__(self):
        return self.k

    def elementsSort(self):
        return self.a[0]

    def keySort(self):
        return self.a[0]

    def valueSort(self):
        return self.a[1]


class Chunk:
    def __init__(self, kind, id_, args, snap):
        self.kind, self.i, self.ar, self.s = kind, id_, args, snap

    def resourceID(self):
        return Txt(self.kind)

    def id(self):
        return Txt(self.i)

    def args(self):
        return It(self.ar)

    def snap(self):
        return self.s


class NS:
    pass


def fake_jvm():
    j, t, v, st = NS(), NS(), NS(), NS()
    for c in (Var, IntLiteral, App, Combine, First, Second, SortWrapper, PredicateLookup, SeqAppend, SeqSingleton, SeqNil):
        setattr(t, c.__name__, c)
    st.terms, st.BasicChunk = t, Chunk
    v.ConstantEntry, v.ApplicationEntry = Const, AppEntry
    j.java = NS()
    j.viper = NS()
    j.viper.silicon = NS()
    j.viper.silicon.state = st
    j.viper.silver = NS()
    j.viper.silver.verifier = v
    return j


class _SortKind(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Sort) and x.k == cls.K


def getclass(java, pkg, name):
    if name in ('Null$', 'Unit$'):
        return {'Null$': Null, 'Unit$': Unit}[name]
    assert name.startswith('sorts$'), name
    return _SortKind('S', (), {'K': name[6:].rstrip('$')})


def getobject(java, pkg, name):
    o = NS()
    o.apply = lambda ts: snap_tree(list(ts.xs))
    return o


def snap_tree(ts):
    if not ts:
        return Unit()
    r = ts[0]
    for x in ts[1:]:
        r = Combine(r, x)
    return r


class Entries:
    def __init__(self, d):
        self.d = d

    def entries(self):
        return It(Pair(k, v) for k, v in self.d.items())


class Heaps:
    def __init__(self, old):
        self.old = old

    def contains(self, k):
        return k == 'old' and self.old is not None

    def get(self, k):
        o = NS()
        o.get = lambda: It(self.old)
        return o


class CE:
    def __init__(self, store, model, heap, old):
        self._s, self._m, self._h, self._o = store, model, heap, old

    def store(self):
        return It(Pair(k, Pair(v, Txt('type'))) for k, v in self._s)

    def model(self):
        return Entries(self._m)

    def heap(self):
        return It(self._h)

    def oldHeaps(self):
        return Heaps(self._o)


# --------------------------------------------------------------- states
_PROG = {}


def program():
    """Modules of the corpus program (real analysis, recording JVM)."""
    if not _PROG:
        import contextlib
        import io
        import fakejvm
        import nagini_translation.main as M
        d = tempfile.mkdtemp(prefix='c17_')
        cwd = os.getcwd()
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'ce')
        try:
            os.chdir(d)
            for f in ('prog.py', 'other.py'):
                shutil.copy(os.path.join(src, f), d)
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                r = M.translate(os.path.join(d, 'prog.py'), fakejvm.install(), 8, base_dir=d)
            if r is None:
                raise Exception(buf.getvalue())
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        mods = r[0]
        byname = {}
        for m in mods:
            byname.setdefault(m.type_prefix, m)
        _PROG.update(modules=mods, main=[m for m in mods if 'holds' in m.predicates][0], other=[m for m in mods if (m.type_prefix or '').endswith('other')][0])
    return _PROG


class World:
    """A state and its encoding as a model. Abstract values: ('int', n), ('bool', b), None, Obj."""
    def __init__(self, c):
        p = program()
        self.c = c
        self.p = p
        self.glob = p['modules'][0].global_module
        self.fun = {}
        self.const = {'$Ref.null': '$Ref!val!0', 'None': '$Ref!val!0'}
        self.nref, self.ntype, self.nseq, self.nsnap = 0, 0, 0, 0
        self.types = {}
        self.refs = {}
        self.objs = []
        self.store, self.heap, self.old = [], [], []
        self.sub = []
        for n in ('int', 'bool', 'object', 'NoneType', 'str', 'type', 'tuple'):
            self.simple(self.glob.classes[n])
        self.typed('$Ref!val!0', self.simple(self.glob.classes['NoneType']))

    # types
    def tval(self, key):
        if key not in self.types:
            self.types[key] = 'PyType!val!%d' % len(self.types)
        return self.types[key]

    def simple(self, cls):
        t = self.tval(cls.sil_name)
        self.const[cls.sil_name + '<PyType>'] = t
        self.put('get_basic<PyType>', (t,), t)
        return t

    def generic(self, cls, args):
        """cls applied to the type values args"""
        t = self.tval((cls.sil_name,) + tuple(args))
        self.put(cls.sil_name + '<PyType>', tuple(args), t)
        b = self.tval((cls.sil_name, 'basic'))
        self.const[cls.sil_name + '_basic<PyType>'] = b
        self.put('get_basic<PyType>', (t,), b)
        for i, a in enumerate(args):
            self.put(cls.sil_name + '_arg<PyType>', (t, str(i)), a)
        return t

    def put(self, f, k, v):
        self.fun.setdefault(f, {})[k] = v

    def typed(self, ref, t):
        self.put('typeof<PyType>', (ref,), t)

    # values
    def ref(self):
        self.nref += 1
        return '$Ref!val!%d' % self.nref

    def box(self, v, fresh=True):
        if v is None:
            return '$Ref!val!0'
        k, x = v
        if k == 'obj':
            return x.ref
        r = self.ref()
        if k == 'int':
            self.typed(r, self.const['int<PyType>'])
            self.put('int___unbox__%limited', (U, r), num_text(self.c, x))
        elif k == 'bool':
            self.typed(r, self.const['bool<PyType>'])
            self.put('bool___unbox__%limited', (U, r), bool_text(self.c, x))
        else:
            raise AssertionError(k)
        return r

    def obj(self, cls, args=()):
        o = NS()
        o.ref, o.cls, o.args = self.ref(), cls, args
        t = self.generic(cls, args) if args else self.simple(cls)
        o.type = t
        self.typed(o.ref, t)
        self.objs.append(o)
        return o

    def var(self, pyvar, val_ref):
        n = '%s@%d@01' % (pyvar.sil_name, len(self.store))
        self.store.append((pyvar.sil_name, Var(n)))
        self.const[n] = val_ref
        return Var(n)

    def field(self, heap, recv, name, ref, how):
        """Field chunk whose snapshot denotes ref in one of several ways."""
        self.nsnap += 1
        v = '$t@%d@01' % self.nsnap
        if how == 'var':
            self.const[v] = ref
            s = Var(v)
        else:
            leaf = '(wrap %d)' % self.nsnap
            self.put('$SortWrappers.$SnapTo$Ref', (leaf,), ref)
            junk = '($Snap.combine %s $Snap.unit)' % '(wrap 0)'
            if how == 'first':
                self.const[v], s = '($Snap.combine %s %s)' % (leaf, junk), First(Var(v))
            elif how == 'second':
                self.const[v], s = '($Snap.combine %s %s)' % (junk, leaf), Second(Var(v))
            elif how == 'deep':
                self.const[v], s = '($Snap.combine (f a b) ($Snap.combine %s %s))' % (leaf, junk), First(Second(Var(v)))
            elif how == 'app':
                self.const[v], s = leaf, Var(v)
                self.put('some_function%limited', (U, leaf), leaf)
                s = App('some_function', [Unit(), s])
            s = SortWrapper(s, Sort('Ref'))
        heap.append(Chunk('FieldID', name, [recv], s))

    def seq(self, heap, recv, name, items, extra=()):
        self.nseq += 1
        q = 'Seq<$Ref>!val!%d' % self.nseq
        v = '$q@%d@01' % self.nseq
        self.const[v] = q
        self.put('Seq_length', (q,), str(len(items)))
        for i, x in list(enumerate(items)) + list(extra):
            self.put('Seq_index', (q, num_text(self.c, i)), self.box(x))
        heap.append(Chunk('FieldID', name, [recv], Var(v)))
        return q

    def model(self, drop=None, defaults=None):
        out = {}
        for k, v in self.const.items():
            out[k] = Const(v)
        names = list(self.types.items())
        iss = {}
        sup = {'bool': ['int', 'object'], 'int': ['object']}
        for k, t in names:
            for k2, t2 in names:
                iss[(t, t2)] = 'true' if t == t2 or (k, k2) in self.subs() else 'false'
        self.fun['issubtype<Bool>'] = iss
        for f, d in self.fun.items():
            d = dict(d)
            out[f] = MapEntry(d, (defaults or {}).get(f, {'issubtype<Bool>': 'false', 'int___unbox__%limited': '0', 'bool___unbox__%limited': 'false'}.get(f, '#unspecified')))
        for f in drop or ():
            out.pop(f, None)
        return out

    def subs(self):
        out = set()
        obj = self.glob.classes['object'].sil_name
        keys = list(self.types)
        for k in keys:
            if k != obj:
                out.add((k, obj))
        out.add((self.glob.classes['bool'].sil_name, self.glob.classes['int'].sil_name))
        main = self.p['main'].classes
        out.add((main['B'].sil_name, main['A'].sil_name))
        return out

    def ce(self, **kw):
        return CE(self.store, self.model(**kw), self.heap, self.old)


def extract(c, w, method, **kw):
    import importlib
    m = conv()
    c.patch(m, 'int', Int)
    c.patch(m, 'getclass', getclass)
    c.patch(m, 'getobject', getobject)
    ex = importlib.import_module('nagini_translation.models.extractor')
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return ex.Extractor().extract_counterexample(fake_jvm(), w.p['main'].methods[method] if method in w.p['main'].methods else
                                                     w.p['main'].functions[method], w.ce(**kw), w.p['modules'])


def value_shown(c, got, v, label, **d):
    if v is None:
        c.ensure(got == 'None', label, got=str(got), **d)
    elif v[0] == 'obj':
        c.ensure(isinstance(got, str) and got == names_of(c).setdefault(v[1].ref, got), label, got=str(got), **d)
    elif v[0] == 'bool':
        c.ensure(type(got) is bool and got is bool(v[1]), label, got=str(got), **d)
    else:
        c.same(got, v[1], label)


def names_of(c):
    if not hasattr(c, '_names'):
        c._names = {}
    return c._names


def names_distinct(c, label='different references have different names'):
    ns = names_of(c)
    c.ensure(len(set(ns.values())) == len(ns), label, names=dict(ns))


SHOWN = 'a variable is shown with its value'
FIELD = 'a field is shown with its value'


def variables(rep):
    def scalar(c):
        w = World(c)
        args = w.p['main'].methods['m'].args
        n, b = c.int('n'), c.bool('b')
        how = c.choice('variable', ['i', 'flag', 'oi', 'bool in int', 'none', 'locals', 'result'])
        i = ('int', n)
        w.var(args['i'], w.box(i))
        w.var(args['flag'], w.box(('bool', b)))
        oi = {'none': None, 'bool in int': ('bool', b)}.get(how, i)
        w.var(args['oi'], w.box(oi))
        locs = w.p['main'].methods['m'].locals
        by = {v.name: v for v in locs.values()}
        w.var(by['loc'], w.box(('int', n)))
        w.var(by['loc_b'], w.box(('bool', b)))
        w.var(w.p['main'].methods['m'].result, w.box(('int', n)))
        r = extract(c, w, 'm')
        value_shown(c, r.input_store.get('i'), i, SHOWN, var='i')
        value_shown(c, r.input_store.get('flag'), ('bool', b), SHOWN, var='flag')
        if oi is not None or 'oi' in r.input_store:
            value_shown(c, r.input_store.get('oi'), oi, SHOWN, var='oi')
        value_shown(c, r.current_store.get('loc'), i, SHOWN, var='loc')
        value_shown(c, r.current_store.get('loc_b'), ('bool', b), SHOWN, var='loc_b')
        value_shown(c, r.current_store.get('Result()'), i, SHOWN, var='Result()')
        c.ensure(set(r.input_store) <= {'i', 'flag', 'oi'} and set(r.current_store) <= {'loc', 'loc_b', 'Result()'},
                 'only variables of the state are shown', shown=str(list(r.input_store) + list(r.current_store)))
        text = str(r) if not isinstance(n, px.SInt) else None
        if text:
            c.ensure('i -> %d' % n in text and 'flag -> %s' % bool(b) in text and 'loc -> %d' % n in text, 'the text shows the values', text=text)
    prove(rep, 'extractor.Extractor.extract_counterexample', scalar, samples=100)

    def function(c):
        w = World(c)
        f = w.p['main'].functions['f']
        n = c.int('n')
        w.var(f.args['k'], w.box(('int', n)))
        r = extract(c, w, 'f')
        value_shown(c, r.current_store.get('k'), ('int', n), SHOWN, var='k')
    prove(rep, 'converter.Converter.generate_inputs', function, samples=30)

    def refs(c):
        w = World(c)
        main, other = w.p['main'], w.p['other']
        args = main.methods['m'].args
        A, B, OA = main.classes['A'], main.classes['B'], other.classes['A']
        a = w.obj(c.choice('class of a', [A, B]))
        b = a if c.choice('alias', [True, False]) else w.obj(c.choice('class of b', [A, B]))
        q, q2 = w.obj(OA), w.obj(OA)
        it = w.const['int<PyType>']
        lst = w.glob.classes['list']
        xs, ys = w.obj(lst, (it,)), w.obj(lst, (it,))
        zs = w.obj(lst, (w.const['bool<PyType>'],))
        oa = {'None': None, 'a': ('obj', a), 'other': ('obj', w.obj(A))}[c.choice('oa', ['None', 'a', 'other'])]
        vals = {'a': ('obj', a), 'b': ('obj', b), 'oa': oa, 'q': ('obj', q), 'q2': ('obj', q2), 'xs': ('obj', xs), 'ys': ('obj', ys), 'zs': ('obj', zs)}
        for k, v in vals.items():
            w.var(args[k], w.box(v))
        r = extract(c, w, 'm')
        for k, v in vals.items():
            value_shown(c, r.input_store.get(k), v, SHOWN, var=k)
        names_distinct(c)
        for k, o, cl in (('a', a, ('A', 'B') if a.cls is B else ('A',)), ('q', q, ('A',)), ('xs', xs, ('list<int>',)), ('zs', zs, ('list<bool>',))):
            shown = r.input_store[k].rstrip('0123456789')
            c.ensure(shown in cl + ('?',), 'a reference is named after a class of it', shown=shown, cls=cl)
    prove(rep, 'converter.Converter.get_reference_name', refs, bounded='8 references of 6 types', samples=30)

    def unknown_refs(c):
        w = World(c)
        main, other = w.p['main'], w.p['other']
        args = main.methods['m'].args
        a, q, x = w.obj(main.classes['A']), w.obj(other.classes['A']), w.obj(w.glob.classes['list'], (w.const['int<PyType>'],))
        how = c.choice('model', ['no types', 'no subtypes', 'subtypes open', 'no basic types'])
        vals = {'a': ('obj', a), 'q': ('obj', q), 'xs': ('obj', x)}
        for k, v in vals.items():
            w.var(args[k], w.box(v))
        # values of a static type other than their own, and nothing known about it
        strange = w.ref()
        w.var(args['oa'], strange)
        w.put('typeof<PyType>', (strange,), 'PyType!val!99')
        kw = {'no types': {'drop': ['typeof<PyType>']}, 'no subtypes': {'drop': ['issubtype<Bool>']},
              'subtypes open': {'defaults': {'issubtype<Bool>': '#unspecified'}}, 'no basic types': {'drop': ['get_basic<PyType>']}}[how]
        r = extract(c, w, 'm', **kw)
        for k, v in vals.items():
            if k in r.input_store:
                value_shown(c, r.input_store.get(k), v, SHOWN, var=k)
        if 'oa' in r.input_store:
            names_of(c)[strange] = r.input_store['oa']
            c.ensure(r.input_store['oa'].startswith('?'), 'a reference of unknown type is not shown with a type', shown=r.input_store['oa'])
        names_distinct(c)
        for k, n in r.input_store.items():
            if k != 'oa':
                c.ensure(n[0] == '?' or n.startswith({'a': 'A', 'q': 'A', 'xs': 'list'}[k]), 'a reference of unknown type is not shown with a type', shown=n)
    prove(rep, 'converter.Converter.get_reference_name', unknown_refs, bounded='4 references, 4 ways of leaving types open')


def heaps(rep):
    HOWS = ['var', 'first', 'second', 'deep', 'app']

    def fields(c):
        w = World(c)
        main, other = w.p['main'], w.p['other']
        args = main.methods['m'].args
        A, B, OA = main.classes['A'], main.classes['B'], other.classes['A']
        how = c.choice('snapshot', HOWS)
        n, n2, b = c.int('n'), c.int('n2'), c.bool('b')
        a, o2, q = w.obj(c.choice('class of a', [A, B])), w.obj(B), w.obj(OA)
        va, vb, vq = w.var(args['a'], a.ref), w.var(args['b'], o2.ref), w.var(args['q'], q.ref)
        F = A.fields
        nxt = {'None': None, 'self': ('obj', a), 'other': ('obj', o2)}[c.choice('nxt', ['None', 'self', 'other'])]
        for heap, k in ((w.heap, n), (w.old, n2)):
            w.field(heap, va, F['n'].sil_name, w.box(('int', k)), how)
            w.field(heap, va, F['b'].sil_name, w.box(('bool', b)), how)
            w.field(heap, va, F['nxt'].sil_name, w.box(nxt), how)
            w.field(heap, va, F['peer'].sil_name, w.box(('obj', q)), how)
            w.field(heap, vb, F['n'].sil_name, w.box(('int', n2)), 'var')
            w.field(heap, vb, B.fields['extra'].sil_name, w.box(('int', n)), how)
            w.field(heap, vq, OA.fields['z'].sil_name, w.box(('int', n2)), how)
        r = extract(c, w, 'm')
        for k, o in (('a', a), ('b', o2), ('q', q)):
            value_shown(c, r.input_store.get(k), ('obj', o), SHOWN, var=k)
        N = names_of(c)
        for heap, k in ((r.heap, n), (r.old_heap, n2)):
            oa, ob, oq = heap.get(N[a.ref], {}), heap.get(N[o2.ref], {}), heap.get(N[q.ref], {})
            value_shown(c, oa.get('n'), ('int', k), FIELD, field='n')
            value_shown(c, oa.get('b'), ('bool', b), FIELD, field='b')
            value_shown(c, oa.get('nxt'), nxt, FIELD, field='nxt')
            value_shown(c, oa.get('peer'), ('obj', q), FIELD, field='peer')
            value_shown(c, ob.get('n'), ('int', n2), FIELD, field='n of b')
            value_shown(c, ob.get('extra'), ('int', n), FIELD, field='extra')
            value_shown(c, oq.get('z'), ('int', n2), FIELD, field='z')
            c.ensure(set(heap) == {N[a.ref], N[o2.ref], N[q.ref]}, 'the objects of the heap and no others are shown', shown=str(list(heap)))
        names_distinct(c)
    prove(rep, 'converter.Converter.convert_python_field', fields, samples=60, budget=120.0)

    def unknown(c):
        w = World(c)
        main = w.p['main']
        args = main.methods['m'].args
        A = main.classes['A']
        n = c.int('n')
        a, l = w.obj(A), w.obj(w.glob.classes['list'], (w.const['int<PyType>'],))
        va, vl = w.var(args['a'], a.ref), w.var(args['xs'], l.ref)
        w.var(args['i'], w.box(('int', n)))
        how = c.choice('term', ['missing variable', 'other term', 'first of unknown', 'other in application', 'missing function', 'nested null'])
        t = {'missing variable': Var('gone@1'), 'other term': Other('Plus'), 'first of unknown': First(Unit()),
             'other in application': App('g', [Other('Plus')]), 'missing function': App('gone', [Unit()]), 'nested null': SortWrapper(Null(), Sort('Snap'))}[how]
        w.heap.append(Chunk('FieldID', A.fields['n'].sil_name, [va], t))
        w.heap.append(Chunk('FieldID', 'list_acc', [vl], t))
        w.field(w.heap, va, A.fields['b'].sil_name, w.box(('bool', True)), 'var')
        w.old = None
        drop = c.choice('missing', [(), ('int___unbox__%limited',)])
        try:
            r = extract(c, w, 'm', drop=drop)
        except Exception as e:
            c.ensure(False, 'a counterexample with unknown values is still shown', error=repr(e), term=how)
            return
        ha = r.heap.get(r.input_store['a'], {})
        c.ensure(ha.get('n') in (None, '?'), 'an unknown value is shown as unknown', shown=str(ha.get('n')))
        c.ensure(ha.get('b') is True, FIELD, shown=str(ha.get('b')))
        c.ensure(not any('[' in k for k in r.heap.get(r.input_store['xs'], {})), 'an unknown value is shown as unknown')
        if not drop:
            value_shown(c, r.input_store.get('i'), ('int', n), SHOWN, var='i')
        else:
            c.ensure(r.input_store.get('i') in (None, '?'), 'an unknown value is shown as unknown', shown=str(r.input_store.get('i')))
    prove(rep, 'converter.evaluate_term', unknown, bounded='6 kinds of undetermined term', samples=30)

    def open_values(c):
        w = World(c)
        args = w.p['main'].methods['m'].args
        r1, r2 = w.ref(), w.ref()
        w.typed(r1, w.const['int<PyType>'])
        w.typed(r2, w.const['bool<PyType>'])
        w.put('int___unbox__%limited', (U, 'zz'), '3')
        w.put('bool___unbox__%limited', (U, 'zz'), 'true')
        els = c.choice('default', ['#unspecified', '(ite a b)', 'value'])
        w.var(args['i'], r1)
        w.var(args['flag'], r2)
        d = {'int___unbox__%limited': els, 'bool___unbox__%limited': els}
        n, b = c.int('n'), c.bool('b')
        if els == 'value':
            d = {'int___unbox__%limited': num_text(c, n), 'bool___unbox__%limited': bool_text(c, b)}
        r = extract(c, w, 'm', defaults=d)
        if els == 'value':
            value_shown(c, r.input_store.get('i'), ('int', n), SHOWN, var='i')
            value_shown(c, r.input_store.get('flag'), ('bool', b), SHOWN, var='flag')
        else:
            c.ensure(r.input_store.get('i') in (None, '?') and r.input_store.get('flag') in (None, '?'), 'an unknown value is shown as unknown',
                     shown=str(dict(r.input_store)))
    prove(rep, 'converter.Converter.convert_int_value', open_values, samples=30)


def collections_(rep):
    ITEM = 'an element of a collection is shown with its value'

    def lists(c):
        w = World(c)
        args = w.p['main'].methods['m'].args
        it = w.const['int<PyType>']
        lst = w.glob.classes['list']
        xs, ys = w.obj(lst, (it,)), w.obj(lst, (it,))
        vx, vy = w.var(args['xs'], xs.ref), w.var(args['ys'], ys.ref)
        k = c.choice('length', [0, 1, 2, 3])
        ns = [c.int('e%d' % i) for i in range(k)]
        junk = c.choice('beyond', [[], [(k, ('int', 77))], [(-1, ('int', 78))], [(k + 5, ('int', 79)), (-3, ('int', 80))]])
        w.seq(w.heap, vx, 'list_acc', [('int', n) for n in ns], junk)
        w.seq(w.heap, vy, 'list_acc', [('int', n) for n in ns[::-1]])
        w.old = None
        r = extract(c, w, 'm')
        for v, want in (('xs', ns), ('ys', ns[::-1])):
            name = r.input_store.get(v)
            h = r.heap.get(name)
            c.ensure(h is not None, 'the contents of a list are shown', var=v)
            exp = {'len(%s)' % name: k}
            c.ensure(h.get('len(%s)' % name) == k, 'the length of a collection is shown', shown=str(h.get('len(%s)' % name)))
            for i, n in enumerate(want):
                value_shown(c, h.get('%s[%d]' % (name, i)), ('int', n), ITEM, index=i)
                exp['%s[%d]' % (name, i)] = 1
            c.ensure(set(h) == set(exp), 'no elements beyond the end of a sequence are shown', shown=str(list(h)), length=k)
        c.ensure(r.input_store['xs'] != r.input_store['ys'], 'different references have different names')
    prove(rep, 'converter.Converter.convert_sequence_value', lists, bounded='lengths up to 3 (elements symbolic)', samples=60)

    def objlists(c):
        w = World(c)
        main = w.p['main']
        args = main.methods['m'].args
        A = main.classes['A']
        ta = w.simple(A)
        a1, a2 = w.obj(A), w.obj(A)
        l = w.obj(w.glob.classes['list'], (ta,))
        va, vl = w.var(args['a'], a1.ref), w.var(args['objs'], l.ref)
        items = [[('obj', a1), ('obj', a2)], [('obj', a2), ('obj', a1), ('obj', a2)]][c.choice('items', [0, 1])]
        w.seq(w.heap, vl, 'list_acc', items)
        w.old = None
        r = extract(c, w, 'm')
        value_shown(c, r.input_store['a'], ('obj', a1), SHOWN)
        name = r.input_store['objs']
        h = r.heap.get(name, {})
        for i, x in enumerate(items):
            value_shown(c, h.get('%s[%d]' % (name, i)), x, ITEM, index=i)
        names_distinct(c)
    prove(rep, 'converter.Converter.convert_sequence_value', objlists, bounded='2 lists of references')

    def dicts(c):
        w = World(c)
        args = w.p['main'].methods['m'].args
        it = w.const['int<PyType>']
        d, s = w.obj(w.glob.classes['dict'], (it, it)), w.obj(w.glob.classes['set'], (it,))
        vd, vs = w.var(args['d'], d.ref), w.var(args['s'], s.ref)
        k, m = c.choice('entries', [0, 1, 2]), c.choice('size of the set', [0, 3])
        junk = c.choice('not in the dict', [0, 1])
        states = []
        for j, (heap, size) in enumerate(((w.heap, k), (w.old, (k + 1) % 3))):
            mp, dom, st = 'Map!val!%d' % j, 'Set!val!%d' % j, 'Set!val!%d' % (j + 5)
            w.const['map@%d' % j], w.const['set@%d' % j] = mp, st
            w.put('Map_card', (mp,), str(size))
            w.put('Map_domain', (mp,), dom)
            w.put('Set_card', (st,), str(m + j))
            vals = [c.int('v%d_%d' % (j, i)) for i in range(size)]
            for i in range(size + junk):
                key = w.box(('int', 10 * i - 5))
                w.put('Map_apply', (mp, key), w.box(('int', vals[i] if i < size else 99)))
                w.put('Set_in', (key, dom), 'true' if i < size else 'false')
            heap.append(Chunk('FieldID', 'dict_acc', [vd], Var('map@%d' % j)))
            heap.append(Chunk('FieldID', 'set_acc', [vs], Var('set@%d' % j)))
            states.append((vals, m + j))
        r = extract(c, w, 'm')
        name, sn = r.input_store['d'], r.input_store['s']
        for heap, (vals, size) in zip((r.heap, r.old_heap), states):
            h = heap.get(name, {})
            want = {'len(%s)' % name} | {'%s[%d]' % (name, 10 * i - 5) for i in range(len(vals))}
            c.ensure(h.get('len(%s)' % name) == len(vals), 'the length of a collection is shown', shown=str(list(h)))
            for i, v in enumerate(vals):
                value_shown(c, h.get('%s[%d]' % (name, 10 * i - 5)), ('int', v), ITEM, key=10 * i - 5)
            c.ensure(set(h) == want, 'the keys of a dict and no others are shown', shown=str(sorted(h)))
            c.ensure(heap.get(sn, {}).get('len(%s)' % sn) == size, 'the length of a collection is shown', shown=str(heap.get(sn)))
    prove(rep, 'converter.Converter.convert_special_field', dicts, bounded='up to 2 entries (values symbolic)', samples=60)

    def tuples(c):
        if isinstance(c.int('probe'), px.SInt):
            pass
        w = World(c)
        args = w.p['main'].methods['m'].args
        n, b = c.choice('n', [0, 5, -3]), c.choice('b', [True, False])
        t, tv = w.ref(), w.ref()
        w.put('tuple___getitem__', (U, t, '0'), w.box(('int', n)))
        w.put('tuple___getitem__', (U, t, '1'), w.box(('bool', b)))
        items = c.choice('items', [[], [4], [7, -8]])
        w.put('tuple___len__', (tv,), str(len(items)))
        for i, x in enumerate(items):
            w.put('tuple___getitem__', (U, tv, str(i)), w.box(('int', x)))
        w.put('tuple___getitem__', (U, tv, str(len(items) + 2)), w.box(('int', 123)))
        w.var(args['t'], t)
        w.var(args['tv'], tv)
        r = extract(c, w, 'm')
        want = '( len(t) -> 2, t[0] -> %d, t[1] -> %s )' % (n, b)
        c.ensure(r.input_store.get('t') == want, ITEM, shown=r.input_store.get('t'), want=want)
        if 'tv' in r.input_store:
            want = '( %s )' % ', '.join(['len(tv) -> %d' % len(items)] + ['tv[%d] -> %d' % (i, x) for i, x in enumerate(items)])
            c.ensure(r.input_store['tv'] in (want, '?'), ITEM, shown=r.input_store['tv'], want=want)
    prove(rep, 'converter.Converter.convert_tuple_value', tuples, bounded='tuples of up to 2 elements, 3 integers')

    def pseqs(c):
        w = World(c)
        args = w.p['main'].methods['m'].args
        it = w.const['int<PyType>']
        o = w.obj(w.glob.classes['PSeq'], (it,))
        items = c.choice('items', [[], [4], [7, -8]])
        q = 'Seq<$Ref>!val!44'
        w.put('PSeq___sil_seq__%limited', (U, o.ref), q)
        w.put('Seq_length', (q,), str(len(items)))
        for i, x in list(enumerate(items)) + [(len(items) + 1, 9)]:
            w.put('Seq_index', (q, str(i)), w.box(('int', x)))
        w.var(args['p'], o.ref)
        r = extract(c, w, 'm')
        want = 'Sequence: { %s }' % ', '.join(['len(p) -> %d' % len(items)] + ['p[%d] -> %d' % (i, x) for i, x in enumerate(items)])
        c.ensure(r.input_store.get('p') == want, ITEM, shown=r.input_store.get('p'), want=want)
    prove(rep, 'converter.Converter.convert_pseq_value', pseqs, bounded='sequences of up to 2 elements')

    def predicates(c):
        w = World(c)
        main = w.p['main']
        args = main.methods['m'].args
        a = w.obj(main.classes['A'])
        va = w.var(args['a'], a.ref)
        n = c.choice('n', [3, -3, 0])
        vi = w.var(args['i'], w.box(('int', n)))
        w.heap.append(Chunk('PredicateID', main.predicates['holds'].sil_name, [va, vi], Unit()))
        w.old = None
        r = extract(c, w, 'm')
        want = 'holds(%s, %d)' % (r.input_store['a'], n)
        c.ensure(list(r.heap) == [want], 'a predicate is shown with its arguments', shown=str(list(r.heap)), want=want)
    prove(rep, 'converter.Converter.convert_python_predicate', predicates, bounded='3 integers')

    def generics(c):
        w = World(c)
        main = w.p['main']
        args = main.methods['m'].args
        G = main.classes['G']
        n, b = c.int('n'), c.bool('b')
        g, h = w.obj(G, (w.const['int<PyType>'],)), w.obj(G, (w.const['bool<PyType>'],))
        vg, vh = w.var(args['g'], g.ref), w.var(args['h'], h.ref)
        f = G.fields['v'].sil_name
        w.field(w.heap, vg, f, w.box(('int', n)), 'first')
        w.field(w.heap, vh, f, w.box(('bool', b)), 'second')
        w.old = None
        r = extract(c, w, 'm')
        value_shown(c, r.heap.get(r.input_store['g'], {}).get('v'), ('int', n), FIELD, field='v of G[int]')
        value_shown(c, r.heap.get(r.input_store['h'], {}).get('v'), ('bool', b), FIELD, field='v of G[bool]')
        c.ensure(r.input_store['g'] != r.input_store['h'], 'different references have different names')
    prove(rep, 'converter.Converter.convert_python_field', generics, samples=40)

    def globals_(c):
        w = World(c)
        main = w.p['main']
        n = c.int('n')
        g = main.global_vars['counter']
        w.heap.append(Chunk('FieldID', '_val', [App(g.sil_name, [])], Var('gv@1')))
        w.const['gv@1'] = w.box(('int', n))
        w.const[g.sil_name] = '$Ref!val!500'
        w.old = None
        r = extract(c, w, 'm')
        value_shown(c, r.current_store.get('counter'), ('int', n), SHOWN, var='counter')
    prove(rep, 'converter.Converter.convert_python_field', globals_, samples=40)

    def strings(c):
        w = World(c)
        args = w.p['main'].methods['m'].args
        text = c.choice('text', ['', 'a', 'ab c', 'x"y', 'Zz9'])
        q = SeqNil()
        for ch in text:
            q = SeqAppend(q, SeqSingleton(IntLiteral(ord(ch)))) if not isinstance(q, SeqNil) else SeqSingleton(IntLiteral(ord(ch)))
        n = c.choice('how', ['literal'])
        w.store.append((args['st'].sil_name, App('str___create__', [IntLiteral(len(text)), IntLiteral(7), q])))
        r = extract(c, w, 'm')
        c.ensure(r.input_store.get('st') == '"%s"' % text, SHOWN, shown=r.input_store.get('st'), text=text)
    prove(rep, 'converter.evaluate_term', strings, bounded='5 texts')

    def second(c):
        """Secure information flow: both executions are shown, each with its own values."""
        w1, w2 = World(c), World(c)
        i1, i2 = 11, -22
        for w, i in ((w1, i1), (w2, i2)):
            w.var(w.p['main'].methods['m'].args['i'], w.box(('int', i)))
        ce = w1.ce()
        ce.second = lambda: w2.ce()
        w1.ce = lambda **k: ce
        r = extract(c, w1, 'm')
        a, b = r.index('i -> 11') if 'i -> 11' in r else -1, r.index('i -> -22') if 'i -> -22' in r else -1
        c.ensure(isinstance(r, str) and 0 <= r.index('First execution') < a < r.index('Second execution') < b, 'both executions are shown with their values', text=r)
    prove(rep, 'extractor.Extractor.extract_counterexample', second, bounded='one pair of executions')


def run(rep, thorough):
    px.Ctx.thorough = thorough
    program()
    parsing(rep)
    variables(rep)
    heaps(rep)
    collections_(rep)
