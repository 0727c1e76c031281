"""C14: contract functions do nothing when a program runs."""
import contextlib
import inspect
import io
import sys
import threading
import types
from px import prove, target, Missing

LEVEL = 'proof'
TRUSTED = ['CPython executes the library; an argument object that reports every access to it stands for all arguments (parametricity)',
           'z3']
ASSUMPTIONS = ['the number of positional arguments of variadic constructors is bounded by 4']
MIN = 100
MODULES = ['nagini_contracts.contracts', 'nagini_contracts.obligations', 'nagini_contracts.io_contracts',
           'nagini_contracts.thread', 'nagini_contracts.lock', 'nagini_contracts.io_builtins']
# what a function gives back, when not nothing: the position of its value argument
VALUE_ARG = {'Unfolding': 1, 'Old': 0, 'Reveal': 0, 'Declassify': 0, 'Let': None}
DECORATORS = ['Pure', 'Opaque', 'Predicate', 'Inline', 'Ghost', 'AllLow', 'PreservesLow', 'ContractOnly', 'IOOperation']
MUST_RETURN = {'Unfolding': 1}
ALIASES = {'GInt': int, 'GFloat': float, 'GComplex': complex, 'GBool': bool, 'GStr': str}
# every contract function the library documents
EXPECTED = {
    'nagini_contracts.contracts': '''Requires Ensures Exsures Decreases Invariant Previous Assume Assert Refute Old Result ResultT
        RaisedException Implies Forall Forall2 Forall3 Forall4 Forall5 Forall6 Exists Let Low LowVal LowEvent LowExit Declassify
        TerminatesSif AllLow PreservesLow Acc Rd ARP Wildcard Fold Unfold Unfolding Reveal Pure Opaque Predicate Inline Ghost
        ContractOnly list_pred dict_pred set_pred bytearray_pred ToSeq ToByteSeq ToMS MaySet MayCreate isNaN MarkGhost'''.split(),
    'nagini_contracts.obligations': 'MustRelease MustTerminate WaitLevel Level'.split(),
    'nagini_contracts.io_contracts': 'IOForall Open GetGhostOutput IOOperation Terminates TerminationMeasure token ctoken'.split(),
    'nagini_contracts.thread': 'getMethod getArg getOld getARP arg Joinable MayStart ThreadPost'.split(),
    'nagini_contracts.io_builtins': 'no_op_io split_io join_io gap_io end_io set_var_io eval_io NoOp Split Join Gap End SetVar Eval'.split(),
}
ARGS = {'Requires': (1, 1), 'Ensures': (1, 2), 'Exsures': (2, 2), 'Decreases': (1, 2), 'Invariant': (1, 1), 'Acc': (1, 2),
        'ARP': (0, 1), 'MustRelease': (1, 2), 'MustTerminate': (1, 1), 'token': (1, 2)}
LOG = []


def _make_spy():
    ns = {}
    names = '''call bool eq ne lt le gt ge len iter next getitem setitem delitem contains add radd sub rsub mul rmul truediv
        floordiv mod pow neg pos abs invert and or xor lshift rshift int float index str format bytes enter exit
        hash get set delete reversed iadd isub'''.split()

    def rec(name):
        def f(self, *a, **k):
            LOG.append('%s of an argument' % name)
            if name == '__hash__':
                return 1
            if name in ('__str__', '__format__'):
                return 'spy'
            if name == '__bool__':
                return False
            if name == '__len__':
                return 0
            if name == '__iter__':
                return iter(())
            return None
        return f
    for n in names:
        ns['__%s__' % n] = rec('__%s__' % n)

    def getattribute(self, n):
        if n not in ('__class__', '__dict__') and not n.startswith('_spy'):
            LOG.append('attribute %s of an argument' % n)
            raise AttributeError(n)
        return object.__getattribute__(self, n)

    def setattribute(self, n, v):
        LOG.append('attribute %s of an argument set' % n)
    ns['__getattribute__'] = getattribute
    ns['__setattr__'] = setattribute
    ns['__repr__'] = lambda self: '<argument>'
    return type('Spy', (), ns)


Spy = _make_spy()


def snap():
    out = {}
    for m in MODULES:
        mod = sys.modules.get(m)
        if mod is None:
            continue
        for k, v in vars(mod).items():
            if k.startswith('__'):
                continue
            out[m, k] = (id(v), repr(v) if isinstance(v, (list, dict, set, tuple, int, str)) else None)
            if inspect.isclass(v) and v.__module__.startswith('nagini_contracts'):
                out[m, k, 'attrs'] = sorted((n, id(x)) for n, x in vars(v).items() if not n.startswith('__'))
    return out


def arity(fn, name):
    if name in ARGS:
        return ARGS[name]
    try:
        ps = list(inspect.signature(fn).parameters.values())
    except (TypeError, ValueError):
        return 1, 1
    req = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and p.default is p.empty]
    opt = [p for p in ps if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD) and p.default is not p.empty]
    var = any(p.kind == p.VAR_POSITIONAL for p in ps)
    return len(req), len(req) + len(opt) + (4 if var else 0)


def inert(c, label, thunk, allowed=lambda r: r is None):
    """thunk() neither raises nor looks at its arguments nor leaves a trace."""
    before, nthreads = snap(), threading.active_count()
    prof = sys.getprofile(), sys.gettrace(), threading.excepthook, sys.excepthook, sys.getrecursionlimit()
    out = io.StringIO()
    del LOG[:]
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        kind, r = c.call(thunk)
    log = list(LOG)
    c.ensure(kind == 'ok', label + ': never raises', error=repr(r) if kind != 'ok' else '')
    c.ensure(not log, label + ': does not evaluate or inspect its arguments', log=log[:5])
    c.ensure(out.getvalue() == '', label + ': prints nothing', out=out.getvalue()[:100])
    c.ensure(snap() == before, label + ': leaves the library unchanged')
    c.ensure(threading.active_count() == nthreads, label + ': starts no thread')
    c.ensure((sys.getprofile(), sys.gettrace(), threading.excepthook, sys.excepthook, sys.getrecursionlimit()) == prof,
             label + ': leaves the interpreter unchanged')
    c.ensure(allowed(r), label + ': returns its value argument or nothing', got=type(r).__name__)
    return r


def is_neutral(r, args):
    return r is None or r is NotImplemented and False or any(r is a for a in args) or r is True


def check_function(rep, modname, name):
    def h(c):
        fn = target(modname, name)
        lo, hi = arity(fn, name)
        n = lo + c.choice('optional arguments', range(hi - lo + 1))
        args = [Spy() for _ in range(n)]
        if name in DECORATORS:
            def user(x):
                raise AssertionError('decorated function was run')
            for kind, v in (('function', user), ('object', args[0]), ('method', staticmethod(user)), ('class', Spy)):
                before = dict(user.__dict__), user.__code__, user.__defaults__, user.__annotations__
                r = inert(c, 'on a ' + kind, lambda: fn(v), lambda r: True)
                c.ensure(r is v, 'returns the %s itself' % kind)
                c.ensure((dict(user.__dict__), user.__code__, user.__defaults__, user.__annotations__) == before,
                         'leaves the decorated function unchanged')
            return
        if name in ('WaitLevel', 'Level'):
            r = inert(c, 'call', lambda: fn(*args), lambda r: True)
            r2 = inert(c, 'second call', lambda: fn(*args), lambda r: True)
            inert(c, 'comparison of levels', lambda: r < r2, lambda x: True)
            return
        r = inert(c, 'call', lambda: fn(*args), lambda r: True)
        if name in MUST_RETURN:
            c.ensure(r is args[MUST_RETURN[name]], 'returns the value of its expression')
        elif name in ('Result', 'ResultT', 'RaisedException', 'arg', 'getArg', 'getOld', 'getMethod', 'getARP', 'ARP'):
            c.ensure(r is None or any(r is a for a in args), 'returns nothing')
        elif name in VALUE_ARG and VALUE_ARG[name] is not None:
            c.ensure(r is None or r is args[VALUE_ARG[name]], 'returns its value argument or nothing')
        elif name == 'Let':
            c.ensure(r is None, 'returns nothing')
        else:
            c.ensure(r is None or r is True, 'returns nothing')
    prove(rep, modname.split('.')[1] + '.' + name, h)


def check_class(rep, modname, name):
    def h(c):
        cls = target(modname, name)
        n = c.choice('number of elements', range(5)) if name in ('PSeq', 'PByteSeq', 'PSet', 'PMultiset') else None
        if n is not None:
            o = inert(c, 'constructor', lambda: cls(*[Spy() for _ in range(n)]), lambda r: True)
            c.ensure(type(o) is cls, 'constructs an instance')
            for m in ('__contains__', '__getitem__', '__len__', '__add__', '__sub__', 'take', 'drop', 'update', 'num', '__iter__'):
                f = getattr(cls, m, None)
                if f is None or not callable(f) or m not in vars(cls):
                    continue
                lo, hi = arity(f, m)
                inert(c, m, lambda: f(o, *[Spy() for _ in range(lo - 1)]), lambda r: r is None or r is o)
            return
        if name.startswith('IOExists'):
            k = int(name[8:])
            o = inert(c, 'constructor', lambda: cls(*[Spy() for _ in range(k)]), lambda r: True)
            inert(c, 'call', lambda: o(Spy()))
            return
        if name == 'Thread':
            def tgt():
                LOG.append('thread target run')
            o = inert(c, 'constructor', lambda: cls(None, tgt, Spy(), (Spy(),), Spy(), Spy()), lambda r: True)
            k = c.choice('methods given', range(3))
            inert(c, 'start', lambda: o.start(*[Spy() for _ in range(k)]))
            inert(c, 'join', lambda: o.join(*[Spy() for _ in range(k)]))
            return
        if name == 'Lock':
            above = c.choice('above', ['none', 'lock'])
            below = c.choice('below', ['none', 'lock'])

            class L(cls):
                pass
            C = c.choice('class', [cls, L])
            a = cls(Spy()) if above == 'lock' else None
            b = cls(Spy()) if below == 'lock' else None
            o = inert(c, 'constructor', lambda: C(Spy(), a, b), lambda r: True)
            inert(c, 'acquire', lambda: o.acquire())
            inert(c, 'release', lambda: o.release())
            inert(c, 'get_locked', lambda: o.get_locked(), lambda r: True)
            inert(c, 'invariant', lambda: o.invariant(), lambda r: True)
            return
        o = inert(c, 'constructor', lambda: cls(), lambda r: True)
        if name == 'LevelType':
            inert(c, '<', lambda: o < cls(), lambda r: True)
    prove(rep, modname.split('.')[1] + '.' + name, h)


def programs(rep):
    """Programs with contracts behave like the programs without them."""
    def h(c):
        ct = target('nagini_contracts.contracts', '')
        a, b = c.int('a'), c.int('b')
        exc = ValueError('user')

        def with_contracts(x, y):
            ct.Requires(x > 0)
            ct.Requires(ct.Acc(Spy(), 1))
            ct.Requires(ct.Implies(y > x, ct.Forall(int, lambda z: (z > y, [[z]]))))
            ct.Ensures(ct.Implies(True, ct.Old(x) is None))
            ct.Ensures(int, lambda r: r > 0)
            ct.Exsures(ValueError, y > 1)
            ct.Decreases(None)
            i = x
            if y < x:
                ct.Invariant(ct.Low(i))
                ct.Fold(ct.list_pred(Spy()))
                i = ct.Unfolding(ct.Acc(Spy()), x - y)
                ct.Unfold(ct.list_pred(Spy()))
                ct.Assert(i > 100)
                ct.Assume(False)
            else:
                ct.Refute(True)
                raise exc
            return i + 1

        def without(x, y):
            i = x
            if y < x:
                i = x - y
            else:
                raise exc
            return i + 1
        deco = c.choice('decorator', DECORATORS[:8])
        f = getattr(ct, deco)(with_contracts)
        del LOG[:]
        k1, r1 = c.call(f, a, b)
        k2, r2 = c.call(without, a, b)
        c.ensure(k1 == k2, 'same outcome with and without contracts', error=repr(r1))
        if k1 == 'ok':
            c.same(r1, r2, 'same result with and without contracts')
        else:
            c.ensure(r1 is r2, 'same exception with and without contracts')
        c.ensure(not LOG, 'contracts are not evaluated')
    prove(rep, 'contracts.program', h)


def run(rep, thorough):
    import importlib
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except Exception as e:          # importing the library is part of running a program
            rep.violation(m, 'the library can be imported', {'what': repr(e)}, replayed=True)
            return
        names = list(EXPECTED.get(m, []))
        for n, v in sorted(vars(mod).items()):
            if isinstance(v, types.FunctionType) and v.__module__ == m and n not in names and not n.startswith('_'):
                names.append(n)
        for n in names:
            check_function(rep, m, n)
        for n, v in sorted(vars(mod).items()):
            if inspect.isclass(v) and v.__module__ == m:
                check_class(rep, m, n)

    def exports(c):
        mods = c.choice('module', MODULES)
        mod = target(mods, '')
        for n in getattr(mod, '__all__', ()):
            c.ensure(hasattr(mod, n), 'every exported name exists', name=n)
        if mods == MODULES[0]:
            for n in EXPECTED[mods]:
                c.ensure(n in mod.__all__, 'every contract function is exported by import *', name=n)
            for n, v in ALIASES.items():
                c.ensure(getattr(mod, n) is v, '%s is %s' % (n, v.__name__))
            c.ensure(mod.RD_PRED == 1, 'RD_PRED is 1')
    prove(rep, 'modules', exports)
    programs(rep)
