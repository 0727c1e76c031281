"""Stand-ins for the Java side of verification: backends, results, errors.

Nagini's own code runs unmodified on top; only the objects JPype would return
are replaced.
"""
import sys
import types


class Pkg:
    """A Java package or class, found by name."""
    def __init__(self, jvm, path):
        self.__dict__['_jvm'], self.__dict__['_path'] = jvm, path

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        p = self._path + '.' + n
        if p in self._jvm.missing:
            raise AttributeError(n)
        if p in self._jvm.reg:
            return self._jvm.reg[p]
        return Pkg(self._jvm, p)

    def __call__(self, *a):
        return JObj(self._path, a)

    def __str__(self):
        return self._path

    __repr__ = __str__


class JObj:
    """A Java object nobody looks into."""
    def __init__(self, path, args=()):
        self._path, self.args = path, args

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a: JObj(self._path + '.' + n, a)

    def __repr__(self):
        return self._path


class Seq:
    def __init__(self, items=()):
        self.items = list(items)

    def update(self, i, x):
        self.items[i] = x

    def toSeq(self):
        return self
    toList = toSeq

    def toIterator(self):
        return Iter(self.items)
    iterator = toIterator

    def nonEmpty(self):
        return bool(self.items)

    def isEmpty(self):
        return not self.items

    def head(self):
        return self.items[0]

    def size(self):
        return len(self.items)
    length = size

    def apply(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)


class Iter:
    def __init__(self, items):
        self.items, self.i = items, 0

    def hasNext(self):
        return self.i < len(self.items)

    def next(self):
        self.i += 1
        return self.items[self.i - 1]


class Opt:
    def __init__(self, *v):
        self.v = v

    def isDefined(self):
        return bool(self.v)
    nonEmpty = isDefined

    def isEmpty(self):
        return not self.v

    def get(self):
        return self.v[0]

    def __repr__(self):
        return 'Some(%r)' % self.v if self.v else 'None'


class ArraySeq:
    @staticmethod
    def make(arr):
        return Seq(arr)


class RawFailure:
    """viper.silver.verifier.Failure"""
    def __init__(self, errors):
        self._errors = Seq(errors)

    def errors(self):
        return self._errors


class RawSuccess:
    """viper.silver.verifier.Success"""


class FakeJException(Exception):
    """What JPype raises for an exception of the backend."""
    def stacktrace(self):
        return 'java.lang.RuntimeException'

    def message(self):
        return 'boom'


class JClass:
    def __init__(self, n):
        self.n = n

    def getSimpleName(self):
        return self.n


class Path:
    def __init__(self, p):
        self.p = p

    def toString(self):
        return self.p

    def __str__(self):
        return self.p


class LineCol:
    def __init__(self, l, c):
        self.l, self.c = l, c

    def line(self):
        return self.l

    def column(self):
        return self.c


class Pos:
    """A source position; with an id it refers to a recorded Python node."""
    def __init__(self, file, line, col, end=None, node_id=None, text=None):
        self._file, self._l, self._c, self._end, self._text = file, line, col, end, text
        if node_id is not None:
            self.id = lambda: node_id

    def file(self):
        return Path(self._file)

    def line(self):
        return self._l

    def column(self):
        return self._c

    def start(self):
        return LineCol(self._l, self._c)

    def end(self):
        return Opt(LineCol(*self._end)) if self._end is not None else Opt()

    def __str__(self):
        return self._text or '%s@%s.%s' % (self._file, self._l, self._c)
    toString = __str__


class NoPos:
    def __str__(self):
        return '<no position>'
    toString = __str__


class Info:
    def __init__(self, kind='NoInfo', values=None):
        self.kind, self._v = kind, values or {}

    def getClass(self):
        return JClass(self.kind)

    def values(self):
        me = self

        class M:
            def contains(self, k):
                return k in me._v

            def get(self, k):
                return Opt(Seq(me._v[k])) if k in me._v else Opt()
        return M()


class VNode:
    def __init__(self, pos, info=None):
        self._pos, self._info = pos, info or Info()

    def pos(self):
        return self._pos

    def info(self):
        return self._info


class Bin(VNode):
    def __init__(self, pos, left, right):
        VNode.__init__(self, pos)
        self._l, self._r = left, right

    def left(self):
        return self._l

    def right(self):
        return self._r


class And(Bin):
    pass


class Implies(Bin):
    pass


class Not(VNode):
    def __init__(self, pos, exp):
        VNode.__init__(self, pos)
        self._e = exp

    def exp(self):
        return self._e


class RawReason:
    def __init__(self, rid, node, text='reason text'):
        self._id, self._n, self._t = rid, node, text

    def id(self):
        return self._id

    def offendingNode(self):
        return self._n

    def readableMessage(self, *a):
        return self._t


class FailureContext:
    def __init__(self, bcs=(), ce=None):
        self._b, self._ce = bcs, ce

    def counterExample(self):
        return Opt(self._ce) if self._ce is not None else Opt()

    def branchConditions(self):
        return Seq(self._b)


class RawError:
    """A verification error: an offending node and a reason."""
    def __init__(self, eid, node, reason, cls='AssertFailed', text='error text', contexts=(), pos=None, trafo=None):
        self._id, self._n, self._r, self._cls, self._t, self._ctx = eid, node, reason, cls, text, contexts
        self._pos, self._trafo = pos, trafo

    def id(self):
        return self._id

    def offendingNode(self):
        return self._n

    def reason(self):
        return self._r

    def pos(self):
        return self._pos if self._pos is not None else self._n.pos()

    def text(self):
        return self._t

    def readableMessage(self, *a):
        return self._t + ' ' + self._r.readableMessage()

    def fullId(self):
        return self._id + ':' + self._r.id()

    def getClass(self):
        return JClass(self._cls)

    def transformedError(self):
        return self._trafo if self._trafo is not None else self

    def failureContexts(self):
        return Seq(self._ctx)


class RawTimeout:
    """An error that is not about any node."""
    def __init__(self, cls='TimeoutOccurred', text='Timeout occurred after 1 s'):
        self._cls, self._t = cls, text

    def getClass(self):
        return JClass(self._cls)

    def pos(self):
        return NoPos()

    def fullId(self):
        return 'timeout.error'

    def readableMessage(self, *a):
        return self._t


class FakeJVM:
    """The part of a JVM the verdict and error plumbing needs."""
    def __init__(self, outcome=None):
        self.reg, self.missing, self.singletons = {}, set(), {}
        self.calls = []           # (api, argument list, program)
        self.outcome = outcome    # () -> raw result, or raises
        self.java, self.scala, self.viper = Pkg(self, 'java'), Pkg(self, 'scala'), Pkg(self, 'viper')
        self.fastparse = Pkg(self, 'fastparse')
        me = self

        class Class:
            @staticmethod
            def forName(n):
                return types.SimpleNamespace(getDeclaredField=lambda f: types.SimpleNamespace(
                    get=lambda x: me.singletons.get(n, Opt() if n == 'scala.None$' else JObj(n))))

        def frontend(api):
            class Frontend:
                def __init__(self, reporter):
                    self.args = None

                def initialize(self, args):
                    self.args = list(args)

                def verify(self, prog):
                    me.calls.append((api, self.args, prog))
                    return me.outcome()

                def stop(self):
                    pass
            return Frontend

        class Server:
            def __init__(self, cfg, executor):
                self.jobs = {}

            def start(self):
                if me.server_fails:
                    raise FakeJException()
                return lambda: None

            def verify(self, pid, cfg, prog, none):
                me.calls.append(('viperserver.' + cfg.kind, list(cfg.args), prog))
                return ('job', pid, prog)

            def stop(self):
                return lambda: None

            def getInterruptFutureList(self):
                return lambda: None

            def flushCache(self, x):
                pass

            def ver_jobs(self):
                return types.SimpleNamespace(lookupJob=lambda j: Opt(), discardJob=lambda j: None)
        self.server_fails = False

        def config(kind):
            return types.SimpleNamespace(apply=lambda args: types.SimpleNamespace(kind=kind, args=args))
        self.reg.update({
            'java.lang.Class': Class,
            'java.nio.file.Paths': types.SimpleNamespace(get=lambda p, more: Path(p)),
            'scala.collection.mutable.ArraySeq': ArraySeq,
            'scala.concurrent.Await': types.SimpleNamespace(result=lambda fut, d: fut()),
            'viper.silver.verifier.Failure': RawFailure,
            'viper.silver.verifier.Success': RawSuccess,
            'viper.silver.ast.And': And, 'viper.silver.ast.Implies': Implies, 'viper.silver.ast.Not': Not,
            'viper.silicon.MinimalSiliconFrontendAPI': frontend('silicon'),
            'viper.carbon.MinimalCarbonFrontendAPI': frontend('carbon'),
            'viper.server.frontends.lsp.ViperServerService': Server,
            'viper.server.core.SiliconConfig': config('silicon'),
            'viper.server.core.CarbonConfig': config('carbon'),
            'viper.server.core.ViperCoreServerUtils': types.SimpleNamespace(
                getResultsFuture=lambda server, job, ex: (lambda: me.outcome())),
        })

    def get_array(self, t, n):
        return [None] * n

    def get_proxy(self, t, inst):
        return inst

    def is_known_class(self, package, name):
        return hasattr(package, name)


def patch_all(c, original, replacement):
    """Replace `original` wherever a Nagini module refers to it."""
    for name, mod in list(sys.modules.items()):
        if not name.startswith('nagini_') or mod is None:
            continue
        for k, v in list(vars(mod).items()):
            if v is original:
                c.patch(mod, k, replacement)


class Named(dict):
    """The elements of a module or class, by name."""
    def __init__(self, *names):
        dict.__init__(self, {n: Element(n) for n in names})


class Element:
    """A module, class or function of a translated program: what is not given is empty."""
    def __init__(self, name, **k):
        self.name = self.sil_name = name
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'global_module':
            return GLOBAL_MODULE
        if n in ('functions', 'methods', 'static_methods', 'predicates', 'io_operations', 'global_vars', 'classes', 'fields', 'static_fields',
                 'namespaces', 'type_vars'):
            return {}
        return None


GLOBAL_MODULE = Element('builtins')


def modules():
    """Modules that have every element that a request here selects."""
    cls = {n: Element(n, functions=Named('g', 'c')) for n in ('C', 'B')}
    return [GLOBAL_MODULE, Element('main', functions=Named('f', 'a', 'added by the translation', 'from the first request'), classes=cls)]
