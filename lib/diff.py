"""One corpus function: the translated method against CPython, for all scalar inputs."""
import ast
import itertools
import px
import pyref
import vrun
from px import SInt, SBool, PathInfeasible, SymUnsupported
from vrun import B, Obj, VSet, VMap, UNSET, boxi, boxb, deref, Ty

STRS = ['', 'ab']


class Case:
    def __init__(self, tr, src, main='prog'):
        self.tr, self.src = tr, src
        self.tree = ast.parse(src)
        self.module = [m for m in tr.modules if str(getattr(m, 'file', None) or '').endswith(main + '.py')][0]
        self.code = pyref.Transform(src).run()

    def dispatch(self, name, caller, dyn):
        """What a call of a method really runs for a receiver of class `dyn`: ('override', method) if a class
        overrides the method, ('inherit', class and method) if `dyn` inherits it, else None."""
        if caller is None:
            return None
        d = next((c for c in self.module.classes.values() if c.sil_name == dyn), None)
        first, over = d, []
        while d is not None:
            d = d.python_class
            over += [m for m in d.methods.values() if m.name != '__init__']
            hit = [m for m in over if m.sil_name == name]
            if hit:
                below = [m for m in over if m.name == hit[0].name]
                if len(below) > 1:
                    own = self.classof(caller.f('name'))
                    if own is not None and own is not d and own.issubtype(d):
                        return None     # super().m()
                    return 'override', below[-2].sil_name
                return None if d is first else ('inherit', '%s_%s' % (first.name, hit[0].name))
            d = d.superclass
        return None

    def classof(self, name):
        for c in self.module.classes.values():
            if any(m.sil_name == name for m in getattr(c, 'methods', {}).values()):
                return c
        return None

    def entries(self):
        """Top-level functions whose parameters are all scalar."""
        out = []
        for d in self.tree.body:
            if isinstance(d, ast.FunctionDef):
                decos = {x.id for x in d.decorator_list if isinstance(x, ast.Name)}
                if decos & {'Predicate', 'ContractOnly', 'Inline'} or d.args.vararg or d.args.kwarg:
                    continue
                ks = [kind(a.annotation) for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs]
                if all(ks):
                    out.append((d, [(a.arg, k) for a, k in zip(d.args.posonlyargs + d.args.args + d.args.kwonlyargs, ks)]))
        return out


def kind(a):
    try:
        s = ast.unparse(a)
    except Exception:
        return None
    return s if s in ('int', 'bool', 'Optional[int]', 'str') else None


def mk(c, name, k):
    if k == 'int':
        return c.int(name)
    if k == 'bool':
        return c.choice(name, [False, True])
    if k == 'str':
        return c.choice(name, STRS)
    return c.int(name) if c.choice(name + '?', [True, False]) else None


def lift(v):
    """A Python scalar as the translated program sees it."""
    if v is None:
        return None
    if isinstance(v, (bool, SBool)):
        return boxb(v)
    if isinstance(v, int):
        return boxi(v)
    if isinstance(v, str):
        return B('str', tuple(ord(x) for x in v))
    raise SymUnsupported('lift %r' % type(v))


class Diff(Exception):
    pass


def same(c, I, case, pv, vv, seen=None, path='result'):
    """The Python value and the Viper value denote the same. Raises Diff."""
    seen = {} if seen is None else seen
    if isinstance(vv, vrun.Unset):
        raise Diff('%s: nothing is known about it in the translation, in Python it is %s' % (path, px.safe(pv)))
    if pv is None or vv is None:
        if pv is not None or vv is not None:
            raise Diff('%s: %s in Python, %s translated' % (path, px.safe(pv), px.safe(vv)))
        return
    if isinstance(pv, (bool, SBool)):
        if not (isinstance(vv, B) and vv.ty == 'bool' and bool(SBool(px.t(pv) == px.t(vv.v)) if isinstance(pv, SBool) or isinstance(vv.v, SBool) else pv == vv.v)):
            raise Diff('%s: %s in Python, %s translated' % (path, px.safe(pv), px.safe(vv)))
        return
    if isinstance(pv, int):
        if not (isinstance(vv, B) and vv.ty == 'int' and bool(pv == vv.v)):
            raise Diff('%s: %s in Python, %s translated' % (path, px.safe(pv), px.safe(vv)))
        return
    if isinstance(pv, str):
        if not (isinstance(vv, B) and vv.ty == 'str' and vv.v == tuple(ord(x) for x in pv)):
            raise Diff('%s: %s in Python, %s translated' % (path, px.safe(pv), px.safe(vv)))
        return
    if isinstance(pv, (tuple, range)):
        if not (isinstance(vv, B) and isinstance(vv.v, tuple) and len(vv.v) == len(pv)):
            raise Diff('%s: %s in Python, %s translated' % (path, px.safe(pv), px.safe(vv)))
        for i, (a, b) in enumerate(zip(pv, vv.v)):
            same(c, I, case, a, boxi(b) if vv.ty == 'range' else b, seen, '%s[%d]' % (path, i))
        return
    if id(pv) in seen:
        if seen[id(pv)] is not vv:
            raise Diff('%s: a different object' % path)
        return
    if vv in seen.values():
        raise Diff('%s: two objects in Python, one translated' % path)
    seen[id(pv)] = vv
    ty = deref(vv.ty) if isinstance(vv, Obj) else None
    if isinstance(pv, (list, tuple)):
        s = I.heap.get((vv, 'list_acc'), UNSET)
        if not isinstance(s, tuple) or not isinstance(ty, Ty) or ty.name != 'list' or len(s) != len(pv):
            raise Diff('%s: %s in Python, %s with %s translated' % (path, px.safe(pv), px.safe(vv), px.safe(s)))
        for i, (a, b) in enumerate(zip(pv, s)):
            same(c, I, case, a, b, seen, '%s[%d]' % (path, i))
        return
    if isinstance(pv, set):
        s = I.heap.get((vv, 'set_acc'), UNSET)
        if not isinstance(s, VSet) or len(s.items) != len(pv) or not all(s.has(lift(x)) for x in pv):
            raise Diff('%s: %s in Python, %s translated' % (path, px.safe(pv), px.safe(s)))
        return
    if isinstance(pv, dict):
        s = I.heap.get((vv, 'dict_acc'), UNSET)
        if not isinstance(s, VMap) or len(s.items) != len(pv):
            raise Diff('%s: %s in Python, %s translated' % (path, px.safe(pv), px.safe(s)))
        for k, v in pv.items():
            same(c, I, case, v, s.get(lift(k)), seen, '%s[%r]' % (path, k))
        return
    cls = case.module.classes.get(type(pv).__name__)
    if cls is None or not isinstance(ty, Ty) or ty.name != cls.sil_name:
        raise Diff('%s: a %s in Python, %s translated' % (path, type(pv).__name__, px.safe(vv)))
    for k, x in vars(pv).items():
        if k == pyref.MARK:
            continue
        fld = cls.get_field(k)
        if fld is None:
            raise Diff('%s has no field %s' % (path, k))
        same(c, I, case, x, I.heap.get((vv, fld.sil_name), UNSET), seen, path + '.' + k)


def run_viper(case, prog, d, args):
    """('value', v, I) | ('raise', class term, I) | ('fail', VFail) | ('pre', VFail)"""
    m = case.module.methods.get(d.name)
    I = vrun.Interp(prog)
    I.dispatch = case.dispatch
    if m is None:
        fn = I.functions[case.module.functions[d.name].sil_name]
        fr = vrun.Frame(dict(zip([a.f('name') for a in fn.f('formalArgs').items], args)))
        try:
            for p in fn.f('pres').items:
                I.inhale(p, fr)
        except vrun.VFail as e:
            return 'pre' if e.kind == 'assumes false' else 'fail', e, I
        try:
            v = I.apply(fn.f('name'), args, fr, fn)
        except vrun.VFail as e:
            return 'fail', e, I
        if str(fn.f('typ')) == 'Int':
            v = boxi(v)
        elif str(fn.f('typ')) == 'Bool':
            v = boxb(v)
        return 'value', v, I
    meth = I.methods[m.sil_name]
    formals = [a.f('name') for a in meth.f('formalArgs').items]
    extra = formals[:len(formals) - len(args)]
    fr = vrun.Frame(dict(zip(formals[len(extra):], args)))
    for x in extra:
        fr.vars[x] = Obj(Ty('Thread_0'))
    rets = [r.f('name') for r in meth.f('formalReturns').items]
    for r in rets:
        fr.vars[r] = UNSET
    try:
        for p in meth.f('pres').items:
            I.inhale(p, fr)
    except vrun.VFail as e:
        return 'pre' if e.kind == 'assumes false' else 'fail', e, I
    fr.old = (dict(I.heap), fr.copy_perms())
    try:
        I.run_method(meth, fr)
    except vrun.VFail as e:
        return 'fail', e, I
    err = [r for r in rets if r.startswith('_err')]
    if err and fr.vars[err[0]] is not None:
        e = fr.vars[err[0]]
        if isinstance(e, vrun.Unset):
            raise Diff('the error variable is never set')
        return 'raise', e, I
    res = [r for r in rets if r.startswith('_res')]
    return 'value', fr.vars[res[0]] if res else None, I


def harness(case, prog, d, params):
    above = case.src.splitlines()[d.lineno - 2] if d.lineno > 1 else ''
    weak = above.startswith('#! weak')      # it is known that not everything is determined

    def undetermined(c, what):
        if weak:
            c.labels.append('what is determined is right')
            raise PathInfeasible()
        c.ensure(False, 'what the translation does is determined', what=what)

    def h(c):
        try:
            h1(c)
        except SymUnsupported:
            if c.conc:
                raise PathInfeasible()
            raise

    def h1(c):
        args = [mk(c, n, k) for n, k in params]
        rt = pyref.Runtime()
        ns = {'rt__': rt, '_later__': pyref.Later, '__name__': 'corpus'}
        exec(case.code, ns)
        try:
            k = len(args) - len(d.args.kwonlyargs)
            py = pyref.call(ns, rt, d.name, args[:k], dict(zip([x.arg for x in d.args.kwonlyargs], args[k:])))
            entrypre = py[0] == 'fail' and py[1].kind.startswith('precondition') and py[1].depth == 1
            vi = run_viper(case, prog, d, [lift(a) for a in args])
        except Diff as e:
            c.ensure(False, 'the translation does what Python does', what=str(e))
            return
        except vrun.Unknown as e:
            undetermined(c, 'what happens depends on a value nothing determines: %s' % ' < '.join('%s' % n for n in reversed(nodes(e)))[:400])
            return
        except vrun.NoCheck as g:
            c.ensure(False, 'overriding methods are checked', what='%s overrides a method and there is no check' % g)
            return
        except vrun.Goto as g:
            c.ensure(False, 'the translation does what Python does', what='jump to %s, which does not exist' % g.label)
            return
        what = ('Python: %s; translated: %s' % (show(py), show(vi)))[:600]
        if vi[0] == 'fail':
            c.ensure('assumes false' not in vi[1].kind, 'what is assumed holds', what=what)
        if py[0] == 'fail':
            if entrypre:
                c.ensure(vi[0] == 'pre', 'preconditions are assumed as written', what=what)
            else:
                c.ensure(vi[0] == 'fail', 'what fails in Python does not verify', what=what)
            return
        c.ensure(vi[0] != 'pre', 'preconditions are assumed as written', what=what)
        c.ensure(vi[0] != 'fail', 'what holds in Python is not rejected', what=what)
        c.ensure(vi[0] == py[0], 'the same exit is taken', what=what)
        if vi[0] != py[0]:
            return
        try:
            if py[0] == 'value':
                same(c, vi[2], case, py[1], vi[1])
            else:
                cls = case.module.classes.get(type(py[1]).__name__)
                name = cls.sil_name if cls else type(py[1]).__name__
                ty = deref(vi[1].ty)
                if not isinstance(ty, Ty) or ty.name != name:
                    raise Diff('%s in Python, %r translated' % (type(py[1]).__name__, ty))
                if cls and type(py[1]).__module__ == 'corpus':
                    same(c, vi[2], case, py[1], vi[1])
            c.labels.append('the same results')
        except Diff as e:
            c.ensure(False, 'the same results', what=str(e))
        except vrun.Unknown:
            undetermined(c, 'the result contains a value nothing determines')
    return h


def nodes(e):
    """The Viper nodes whose value is unknown, outermost first."""
    out, tb = [], e.__traceback__
    while tb is not None:
        n = tb.tb_frame.f_locals.get('n') if tb.tb_frame.f_code.co_name in ('ev', 'inhale', 'exhale', 'st') else None
        if n is None and tb.tb_frame.f_code.co_name == 'st':
            n = tb.tb_frame.f_locals.get('s')
        if n is not None:
            out.append(str(n)[:120])
        tb = tb.tb_next
    return out[-4:]


def show(r):
    if r[0] == 'value':
        return 'returns %s' % px.safe(r[1])
    if r[0] == 'raise':
        return 'raises %s' % px.safe(r[1])
    return '%s (%s)' % (r[0], r[1])
