"""The oracle for translated programs: CPython itself, running the same source.

The source is changed mechanically, only so that its contracts are checked as it
runs: contract statements become calls of this module (preconditions at entry,
postconditions at exit, invariants at the loop head, assertions in place),
`raise` marks its exception as raised by the program, handlers refuse
exceptions that the program did not raise itself (those Nagini must exclude).
A line marked `#! fails` fails when it is reached (used for what CPython
cannot see, such as missing permissions).
"""
import ast
import copy
import re
import sys
import px
from px import SInt, SBool, PathInfeasible, SymUnsupported


class PyFail(BaseException):
    def __init__(self, kind, line):
        self.kind, self.line, self.depth = kind, line, 0
        super().__init__('%s at %s' % (kind, line))


class Later:
    def __init__(self, fn):
        try:
            self.v, self.ok = freeze(fn()), True
        except Exception as e:
            self.v, self.ok = e, False

    def __call__(self):
        if not self.ok:
            raise self.v
        return self.v


def freeze(v):
    return list(v) if isinstance(v, list) else v


MARK = '__raised_by_program__'
NOTHING = object()


class Runtime:
    def __init__(self):
        self.failed = None
        self.depth = 0
        self.prev = []

    def fail(self, kind, line):
        if self.failed is None:
            self.failed = PyFail(kind, line)
            self.failed.depth = self.depth
        raise self.failed

    def holds(self, fn, kind, line):
        try:
            v = bool(fn())
        except Exception as e:
            return self.fail('%s raises %s' % (kind, type(e).__name__), line)
        if not v:
            self.fail(kind, line)
        return True

    def enter(self):
        self.depth += 1
        if self.depth > 12:
            raise PathInfeasible()

    def leave(self):
        self.depth -= 1

    def raising(self, e=None):
        if isinstance(e, type):
            e = e()
        if isinstance(e, BaseException):
            setattr(e, MARK, True)
        return e

    def caught(self, line):
        e = sys.exc_info()[1]
        if isinstance(e, Exception) and not getattr(e, MARK, False):
            self.fail('%s' % type(e).__name__, line)

    def marked_fail(self, line):
        self.fail('marked', line)

    def exceptional(self, e, handlers, line):
        if not isinstance(e, Exception):
            return
        if not getattr(e, MARK, False):
            self.fail('%s %s' % (type(e).__name__, e), line)
        ok = False
        for cls, fn, ln in handlers:
            if isinstance(e, cls()):
                ok = True
                self.holds(lambda: fn(e), 'exceptional postcondition', ln)
        if not ok:
            self.fail('undeclared %s' % type(e).__name__, line)

    # contract functions inside assertions
    def Acc(self, *a):
        return True

    def forall(self, dom, fn):
        if dom is int:
            dom = range(-2, 8)
        for x in list(dom):
            r = fn(x)
            if isinstance(r, tuple):
                r = r[0]
            if not r:
                return False
        return True

    def exists(self, dom, fn):
        if dom is int:
            dom = range(-2, 8)
        for x in list(dom):
            r = fn(x)
            if isinstance(r, tuple):
                r = r[0]
            if r:
                return True
        return False

    def rng(self, *a):
        """range with symbolic bounds."""
        if not any(isinstance(x, (SInt, SBool)) for x in a):
            return range(*a)
        if len(a) > 2 and isinstance(a[2], SInt):
            raise SymUnsupported('range')
        s, e, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        out = []
        while (s < e if st > 0 else s > e):
            out.append(s)
            s = s + st
            if len(out) > 30:
                raise PathInfeasible()
        return tuple(out)

    def isinst(self, v, c):
        if isinstance(v, SInt):
            cs = c if isinstance(c, tuple) else (c,)
            return any(x in (int, object) for x in cs)
        return isinstance(v, c)

    def sub(self, o, i):
        if isinstance(i, SInt) and isinstance(o, (list, tuple, str, range)):
            for k in range(-len(o), len(o)):
                if i == k:
                    return o[k]
            raise IndexError('index')
        return o[i]

    def setsub(self, o, i, v):
        if isinstance(i, SInt) and isinstance(o, list):
            for k in range(-len(o), len(o)):
                if i == k:
                    o[k] = v
                    return
            raise IndexError('index')
        o[i] = v

    def slice(self, o, a, b):
        n = len(o)

        def cl(x, d):
            if x is None:
                return d
            if isinstance(x, SInt):
                for k in range(-n, n + 1):
                    if x == k:
                        return k
                return n if x > n else -n
            return x
        return o[cl(a, None):cl(b, None)]

    def contains(self, x, o):
        if isinstance(o, range) and isinstance(x, SInt):
            return any(x == k for k in o)
        return x in o

    def min(self, *a):
        return min(*a)


SPEC = {'Acc': 'Acc', 'Rd': 'Acc', 'Wildcard': 'Acc', 'MaySet': 'Acc', 'list_pred': 'Acc', 'set_pred': 'Acc', 'dict_pred': 'Acc',
        'MayCreate': 'Acc', 'MustTerminate': 'Acc', 'MustRelease': 'Acc', 'MustInvoke': 'Acc', 'WaitLevel': 'Acc'}
DROP = {'Fold', 'Unfold', 'Assume', 'Decreases', 'MustTerminate'}


class Expr(ast.NodeTransformer):
    """Contract expressions to what they say; symbolic positions kept out of C code."""
    def __init__(self, olds=None, result=None, preds=()):
        self.olds, self.result, self.preds = olds, result, preds

    def rt(self, name, args):
        return ast.Call(ast.Attribute(ast.Name('rt__', ast.Load()), name, ast.Load()), args, [])

    def lam(self, e):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)

    def visit_Call(self, n):
        f = n.func.id if isinstance(n.func, ast.Name) else None
        if f == 'Implies':
            return ast.IfExp(self.visit(n.args[0]), self.visit(n.args[1]), ast.Constant(True))
        if f in ('Acc', 'Rd', 'Wildcard'):
            if isinstance(n.args[0], ast.Call) and isinstance(n.args[0].func, ast.Name) and n.args[0].func.id in self.preds:
                return self.visit(n.args[0])
            return ast.Constant(True)
        if f in SPEC:
            return ast.Constant(True)
        if f == 'Result':
            return ast.Name(self.result or '_none__', ast.Load())
        if f == 'RaisedException':
            return ast.Name('_exc__', ast.Load())
        if f == 'Old':
            if self.olds is None:
                raise SymUnsupported('Old')
            self.olds.append(self.visit(n.args[0]))
            return ast.Call(ast.Subscript(ast.Name('_olds__', ast.Load()), ast.Constant(len(self.olds) - 1), ast.Load()), [], [])
        if f == 'Unfolding':
            return self.visit(n.args[1])
        if f == 'Forall':
            return self.rt('forall', [self.visit(a) for a in n.args])
        if f == 'Exists':
            return self.rt('exists', [self.visit(a) for a in n.args])
        if f == 'Let':
            return ast.Call(self.visit(n.args[-1]), [self.visit(n.args[0])], [])
        if f in ('ToSeq',):
            return ast.Call(ast.Name('list', ast.Load()), [self.visit(n.args[0])], [])
        if f == 'Previous':
            return ast.Name('_prev__' + n.args[0].id, ast.Load())
        if f == 'range':
            return self.rt('rng', [self.visit(a) for a in n.args])
        if f == 'isinstance':
            return self.rt('isinst', [self.visit(a) for a in n.args])
        return self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            if isinstance(n.slice, ast.Slice):
                if n.slice.step is None:
                    return self.rt('slice', [n.value, n.slice.lower or ast.Constant(None), n.slice.upper or ast.Constant(None)])
                return n
            return self.rt('sub', [n.value, n.slice])
        return n

    def visit_AnnAssign(self, n):
        n.annotation = ast.Constant(None)
        self.generic_visit(n)
        return n

    def visit_FunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        return n


def call_name(s):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name):
        return s.value.func.id
    return None


class Transform:
    def __init__(self, src):
        self.tree = ast.parse(src)
        self.fails = {}
        for i, l in enumerate(src.splitlines()):
            m = re.search(r'#!\s*fails(\s+if\s+(.*))?$', l)
            if m:
                self.fails[i + 1] = (m.group(2) or 'True').strip()
        self.preds = {d.name for d in ast.walk(self.tree) if isinstance(d, ast.FunctionDef) and
                      any(isinstance(x, ast.Name) and x.id == 'Predicate' for x in d.decorator_list)}

    def run(self):
        self.classes = {d.name: d for d in self.tree.body if isinstance(d, ast.ClassDef)}
        self.overridden = self.overrides()
        self.tree.body = [y for x in self.tree.body for y in self.top(x)]
        ast.fix_missing_locations(self.tree)
        return compile(self.tree, '<corpus>', 'exec')

    def top(self, s):
        if isinstance(s, ast.FunctionDef):
            self.static(s)
            return [self.function(s)]
        if isinstance(s, ast.ClassDef):
            out = []
            for x in s.body:
                if isinstance(x, ast.FunctionDef) and (s.name, x.name) in self.overridden:
                    out.append(self.function(self.via(copy.deepcopy(x), s.name)))
                out += [self.function(x)] if isinstance(x, ast.FunctionDef) else self.top(x)
            s.body = out or [ast.Pass()]
            return [s]
        return [s]

    # A call through a variable whose declared class is X honours the contract X declares,
    # whatever the class of the object is: x.m(..) becomes x.m__via__X(..), a method of X with
    # the contract of X.m that calls self.m(..).
    def owner(self, cls, m):
        while cls in self.classes:
            d = self.classes[cls]
            if any(isinstance(x, ast.FunctionDef) and x.name == m for x in d.body):
                return cls
            cls = d.bases[0].id if d.bases and isinstance(d.bases[0], ast.Name) else None
        return None

    def overrides(self):
        out = set()
        for c, d in self.classes.items():
            base = d.bases[0].id if d.bases and isinstance(d.bases[0], ast.Name) else None
            for x in d.body:
                if isinstance(x, ast.FunctionDef) and x.name != '__init__' and \
                        not any(isinstance(y, ast.Name) and y.id in ('staticmethod', 'classmethod', 'Predicate', 'Pure', 'property') for y in x.decorator_list):
                    o = self.owner(base, x.name)
                    if o:
                        out.add((o, x.name))
        return out

    def via(self, d, cls):
        args = [ast.Name(a.arg, ast.Load()) for a in d.args.args[1:]]
        kws = [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in d.args.kwonlyargs]
        call = ast.Call(ast.Attribute(ast.Name(d.args.args[0].arg, ast.Load()), d.name, ast.Load()), args, kws)
        d.body = [s for s in d.body if call_name(s) in ('Requires', 'Ensures', 'Exsures', 'Decreases')] + [ast.Return(call)]
        d.body[-1].lineno = d.lineno
        d.name = '%s__via__%s' % (d.name, cls)
        return d

    def static(self, d):
        decl = {a.arg: a.annotation.id for a in d.args.args if isinstance(a.annotation, ast.Name) and a.annotation.id in self.classes}
        if not decl or not self.overridden:
            return
        for n in ast.walk(d):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in decl:
                o = self.owner(decl[n.func.value.id], n.func.attr)
                if o and (o, n.func.attr) in self.overridden:
                    n.func.attr = '%s__via__%s' % (n.func.attr, o)

    def e(self, n, **k):
        return Expr(preds=self.preds, **k).visit(n)

    def lam(self, e, *params):
        return ast.Lambda(ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), e)

    def rt(self, name, *args):
        return ast.Expr(ast.Call(ast.Attribute(ast.Name('rt__', ast.Load()), name, ast.Load()), list(args), []))

    def function(self, d):
        pre, post, exs, body = [], [], [], []
        decos = {x.id for x in d.decorator_list if isinstance(x, ast.Name)}
        d.returns = None
        for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs:
            a.annotation = None
        if 'ContractOnly' in decos:
            raise SymUnsupported('ContractOnly')
        for s in d.body:
            nm = call_name(s)
            if nm == 'Requires':
                pre.append((s.value.args[0], s.lineno))
            elif nm == 'Ensures':
                post.append((s.value.args[0], s.lineno))
            elif nm == 'Exsures':
                exs.append((s.value.args[0], s.value.args[1], s.lineno))
            elif nm == 'Decreases':
                pass
            else:
                body.append(s)
        if 'Predicate' in decos:
            d.decorator_list = []
            d.body = [ast.Return(self.e(s.value)) if isinstance(s, ast.Return) else s for s in body]
            return d
        d.decorator_list = [x for x in d.decorator_list if not (isinstance(x, ast.Name) and x.id in ('Pure', 'Inline', 'Opaque', 'Ghost'))]
        if 'Inline' in decos:
            d.body = self.block(body, d) or [ast.Pass()]
            return d
        olds = []
        ens = [(self.e(e, olds=olds, result='_res__'), l) for e, l in post]
        ex = [(c, self.e(e, olds=olds), l) for c, e, l in exs]
        out = [self.rt('enter')]
        for e, l in pre:
            out += self.marked(l) + [self.rt('holds', self.lam(self.e(e)), ast.Constant('precondition'), ast.Constant(l))]
        before, self.olds = getattr(self, 'olds', None), olds
        inside = self.block(body, d) or [ast.Pass()]
        self.olds = before
        later = [ast.Call(ast.Name('_later__', ast.Load()), [self.lam(o)], []) for o in olds]
        out.append(ast.Assign([ast.Name('_olds__', ast.Store())], ast.List(later, ast.Load())))
        params = d.args.posonlyargs + d.args.args + ([d.args.vararg] if d.args.vararg else []) + d.args.kwonlyargs + ([d.args.kwarg] if d.args.kwarg else [])
        inner = ast.FunctionDef('_body__', ast.arguments([], [ast.arg(p.arg) for p in params], None, [], [], None, []),
                                inside, [], None, None)
        inner.lineno = d.lineno
        inner.type_params = []
        out.append(inner)
        run = ast.Assign([ast.Name('_res__', ast.Store())],
                         ast.Call(ast.Name('_body__', ast.Load()), [ast.Name(p.arg, ast.Load()) for p in params], []))
        hs = ast.List([ast.Tuple([self.lam(c), self.lam(e, '_exc__'), ast.Constant(l)], ast.Load()) for c, e, l in ex], ast.Load())
        handler = ast.ExceptHandler(ast.Name('Exception', ast.Load()), '_e__', [
            self.rt('exceptional', ast.Name('_e__', ast.Load()), hs, ast.Constant(d.lineno)), ast.Raise(None, None)])
        checks = [x for e, l in ens for x in self.marked(l) + [self.rt('holds', self.lam(e), ast.Constant('postcondition'), ast.Constant(l))]]
        out.append(ast.Try([run], [handler], checks, [self.rt('leave')]))
        out.append(ast.Return(ast.Name('_res__', ast.Load())))
        d.body = out
        return d

    def block(self, ss, fn):
        return [y for s in ss for y in self.stmt(s, fn)]

    def stmt(self, s, fn):
        out = self.stmt1(s, fn)
        return self.marked(s.lineno) + out

    def marked(self, line):
        if line not in self.fails:
            return []
        return [ast.If(ast.parse(self.fails[line], mode='eval').body, [self.rt('marked_fail', ast.Constant(line))], [])]

    def cond(self, s):
        """Old(...) in the body of a function refers to its entry."""
        return self.e(s, olds=getattr(self, 'olds', None))

    def stmt1(self, s, fn):
        nm = call_name(s)
        L = ast.Constant(s.lineno)
        if nm in ('Fold', 'Unfold', 'Assume', 'Decreases', 'MustTerminate', 'Refute', 'Reveal', 'SetFieldsPermission'):
            return [ast.Pass()]
        if nm in ('Assert', 'Invariant'):
            return [self.rt('holds', self.lam(self.cond(s.value.args[0])), ast.Constant('assertion'), L)]
        if isinstance(s, ast.Assert):
            return [self.rt('holds', self.lam(self.cond(s.test)), ast.Constant('assertion'), L)]
        if isinstance(s, ast.Raise):
            if s.exc is not None:
                s.exc = ast.Call(ast.Attribute(ast.Name('rt__', ast.Load()), 'raising', ast.Load()), [self.e(s.exc)], [])
            return [s]
        if isinstance(s, ast.If):
            s.test = self.e(s.test)
            s.body, s.orelse = self.block(s.body, fn), self.block(s.orelse, fn)
            return [s]
        if isinstance(s, ast.Match):
            s.subject = self.e(s.subject)
            for c in s.cases:
                c.guard = c.guard and self.e(c.guard)
                c.body = self.block(c.body, fn)
            return [s]
        if isinstance(s, (ast.While, ast.For)):
            invs = []
            while s.body and call_name(s.body[0]) == 'Invariant':
                invs.append(s.body.pop(0))
            chk = [x for i in invs for x in self.stmt(i, fn)]
            body, orelse = self.block(s.body, fn) or [ast.Pass()], self.block(s.orelse, fn)
            if isinstance(s, ast.While):
                test = self.e(s.test)
                conds = [c.value for c in chk if isinstance(c, ast.Expr)]
                conds = [ast.BoolOp(ast.Or(), [c, ast.Constant(True)]) for c in conds]
                s.test = ast.BoolOp(ast.And(), conds + [test]) if conds else test
                s.body, s.orelse = body, orelse
                return [s]
            s.iter = self.e(s.iter)
            pre, upd = [], []
            for i in invs:
                for c in ast.walk(i):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'Previous':
                        pass
            prevs = {c.id[7:] for k in chk for c in ast.walk(k) if isinstance(c, ast.Name) and c.id.startswith('_prev__')}
            prevs |= {c.id[7:] for k in body for c in ast.walk(k) if isinstance(c, ast.Name) and c.id.startswith('_prev__')}
            for p in prevs:
                pre.append(ast.parse('_prev__%s = []; _last__%s = []' % (p, p)).body)
                upd += ast.parse('_prev__%s = _prev__%s + _last__%s; _last__%s = [%s]' % (p, p, p, p, p)).body
            last = [x for p in prevs for x in ast.parse('_prev__%s = _prev__%s + _last__%s' % (p, p, p)).body]
            s.body = upd + chk + body
            s.orelse = last + copy.deepcopy(chk) + orelse
            return [x for p in pre for x in p] + [s]
        if isinstance(s, ast.Try):
            s.body, s.orelse, s.finalbody = self.block(s.body, fn), self.block(s.orelse, fn), self.block(s.finalbody, fn)
            for h in s.handlers:
                h.body = [self.rt('caught', ast.Constant(h.lineno))] + self.block(h.body, fn)
            return [s]
        if isinstance(s, ast.With):
            for i in s.items:
                i.context_expr = self.e(i.context_expr)
            s.body = self.block(s.body, fn)
            return [s]
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.top(s)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and not isinstance(s.targets[0].slice, ast.Slice):
            t = s.targets[0]
            tmp = ast.Assign([ast.Name('_v__', ast.Store())], self.e(s.value))
            return [tmp, self.rt('setsub', self.e(t.value), self.e(t.slice), ast.Name('_v__', ast.Load()))]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
            t = s.target
            out = [ast.Assign([ast.Name('_o__', ast.Store())], self.e(t.value)), ast.Assign([ast.Name('_i__', ast.Store())], self.e(t.slice))]
            cur = Expr().rt('sub', [ast.Name('_o__', ast.Load()), ast.Name('_i__', ast.Load())])
            val = ast.BinOp(cur, s.op, self.e(s.value))
            return out + [self.rt('setsub', ast.Name('_o__', ast.Load()), ast.Name('_i__', ast.Load()), val)]
        return [self.e(s)]


def namespace(src, rt):
    """Run the module; its functions check their contracts."""
    ns = {'rt__': rt, '_later__': Later, '__name__': '<corpus>'}
    code = Transform(src).run()
    exec(code, ns)
    return ns


def call(ns, rt, name, args, kw={}):
    """('value', v) | ('raise', e) | ('fail', PyFail) | ('pre', ...)."""
    rt.failed, rt.depth = None, 0
    try:
        v = ns[name](*args, **kw)
        out = ('value', v)
    except PyFail as e:
        out = ('fail', e)
    except Exception as e:
        out = ('raise', e)
    if rt.failed is not None:
        out = ('fail', rt.failed)
    return out
