"""C19: partial verification checks all that was selected and assumes only contracts."""
import ast
import contextlib
import glob
import io
import itertools
import os
import random
import sys
import types
import env
import px
import programs as P
from px import prove, target

LEVEL = 'proof'
TRUSTED = ['z3 (strings and arrays)', 'CPython', 'lib/fakejvm.py (stand-in for the JVM: records the translated program and the names given to the chopper)']
ASSUMPTIONS = ['the chopper of Viper keeps the members it is given, and of what they depend on what is needed',
               'whole programs are checked on a fixed corpus: every single name is selected, and sampled sets of names (bounded)',
               'a body is identified by the source lines its translation refers to']
MIN = 0
A = 'nagini_translation.analyzer'
PT = 'nagini_translation.translators.program'
CORPUS = os.path.join(env.VERIF, 'corpus')


# ------------------------------------------------------------ the two decisions
class Selection(px.NameSet):
    """Any set of names."""
    def __bool__(self):
        z3 = px.z3
        return bool(px.SBool(self.a != z3.K(z3.StringSort(), z3.BoolVal(False))))

    def __iter__(self):
        raise px.SymUnsupported('iteration over an arbitrary selection')


def selection(c):
    s = c.names('selection')
    return s if c.conc else Selection(s.a)


def is_in(c, s, n):
    return (n in s) if c.conc else px.z3.Select(s.a, c.string(n))


def either(c, *xs):
    return any(xs) if c.conc else px.z3.Or(*xs)


def decisions(rep):
    def h(c):
        """Which functions are reduced to their contract: exactly those that are not selected, and those declared so."""
        An = target(A, 'Analyzer')
        f = target(A, 'Analyzer.is_contract_only')
        S = selection(c)
        name = c.name('function')
        cls = c.choice('in a class', [False, True])
        cname = c.name('class') if cls else None
        deco = c.choice('decorators', [[], ['ContractOnly'], ['staticmethod'], ['abstractmethod', 'classmethod'], ['classmethod']])
        node = ast.FunctionDef('f', ast.arguments([], [], None, [], [], None, []), [ast.Pass()], [ast.Name(d, ast.Load()) for d in deco])
        node.name = name
        an = An.__new__(An)
        an.selected, an.contract_only, an.current_function = S, False, None
        an.current_class = types.SimpleNamespace(name=cname) if cls else None
        got = c.run('is_contract_only', f, an, node)
        got = bool(got)
        dec = bool({'ContractOnly', 'abstractmethod'} & set(deco))
        ms = [is_in(c, S, name)] + ([is_in(c, S, cname), is_in(c, S, cname + '.' + name)] if cls else [])
        matched = either(c, *ms)
        if c.conc:
            c.ensure(got == (dec or (bool(S) and not matched)), 'a body is dropped exactly if the function is not selected or declared without',
                     got=got, selection=sorted(S), name=name, cls=cname)
        else:
            z3 = px.z3
            empty = S.a == z3.K(z3.StringSort(), z3.BoolVal(False))
            c.ensure(z3.BoolVal(got) == z3.Or(z3.BoolVal(dec), z3.And(z3.Not(empty), z3.Not(matched))),
                     'a body is dropped exactly if the function is not selected or declared without')
    prove(rep, 'Analyzer.is_contract_only', h, samples=300)

    def h(c):
        """Which Viper members are verified: exactly those of selected elements."""
        Tr = target(PT, 'ProgramTranslator')
        f = target(PT, 'ProgramTranslator.track_dependencies')
        S = selection(c)
        name = c.name('element')
        cls = c.choice('element of', ['nothing', 'a module', 'a class'])
        cname = c.name('class') if cls == 'a class' else None
        node = types.SimpleNamespace(name=name, sil_name='element_sil')
        if cls != 'nothing':
            node.cls = types.SimpleNamespace(name=cname, sil_name='class_sil') if cname is not None else None
        other = c.choice('for another member', [None, 'element_override_check'])
        want = other or 'element_sil'
        before = c.choice('chosen before', [[], ['x']])
        chosen = list(before)
        args = (Tr.__new__(Tr), chosen, S, node, None) + ((other,) if other else ())
        c.run('track_dependencies', f, *args)
        ms = [is_in(c, S, name)] + ([is_in(c, S, cname), is_in(c, S, cname + '.' + name)] if cname is not None else [])
        matched = either(c, *ms)
        added = chosen[len(before):]
        c.ensure(chosen[:len(before)] == before and set(added) <= {want}, 'nothing else is chosen', got=chosen)
        if c.conc:
            c.ensure(bool(added) == matched, 'a member is verified exactly if its element is selected', selection=sorted(S), name=name, cls=cname)
        else:
            c.ensure(px.z3.BoolVal(bool(added)) == matched, 'a member is verified exactly if its element is selected')
    prove(rep, 'ProgramTranslator.track_dependencies', h, samples=300)


# ----------------------------------------------------------------- whole programs
class Def:
    def __init__(self, file, cls, node, module):
        self.file, self.cls, self.node, self.name = file, cls, node, node.name
        names = set()
        for d in node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            names.add(d.attr if isinstance(d, ast.Attribute) else d.id)
        self.deco = names
        self.key = (file, node.lineno)
        self.io = 'IOOperation' in names
        self.bodyless = bool(names & {'ContractOnly', 'abstractmethod'})
        self.inline = 'Inline' in names
        self.predicate = 'Predicate' in names
        self.pure = 'Pure' in names or 'property' in names

    def matched(self, S):
        return self.name in S or (self.cls is not None and (self.cls in S or self.cls + '.' + self.name in S))

    def asserts(self):
        return {(self.file, n.lineno) for n in ast.walk(self.node) if isinstance(n, ast.Assert)}

    def __repr__(self):
        return '%s%s (line %d of %s)' % (self.cls + '.' if self.cls else '', self.name, self.key[1], self.file)


def definitions(files):
    out, top = [], []
    main = next(iter(files))
    for f, text in files.items():
        for n in ast.parse(text).body:
            if isinstance(n, ast.FunctionDef):
                out.append(Def(f, None, n, f))
            elif isinstance(n, ast.ClassDef):
                out += [Def(f, n.name, m, f) for m in n.body if isinstance(m, ast.FunctionDef)]
            elif f == main:
                top += [(f, x.lineno) for x in ast.walk(n) if isinstance(x, ast.Assert)]
    return out, top


def everything(prog):
    out = []
    for k in ('methods', 'functions', 'predicates'):
        for m in getattr(prog, k)().items:
            own, ls = P.line(m), P.lines(m)
            if own or ls:
                out.append((k[:-1], m, own, ls))
    return out


def body(m):
    b = m.body()
    return b.get() if b.isDefined() else None


def body_lines(m):
    b = body(m)
    return None if b is None else P.lines(b)


def contract_lines(m):
    s = set()
    for x in list(m.pres().items) + list(m.posts().items):
        s |= P.lines(x)
    return s


def calls(m):
    return {n.f('methodName') for n in m.walk() if type(n).__name__ == 'MethodCall'}


class Members:
    """The recorded members by the definition they are about."""
    def __init__(self, prog, defs):
        self.all = everything(prog)
        self.by = {}
        spans = set()
        for d in defs:
            spans |= {(d.file, l) for l in range(min([d.node.lineno] + [x.lineno for x in d.node.decorator_list]), d.node.end_lineno + 1)}
        self.main = {}
        for d in defs:
            mine = [(k, m) for k, m, own, ls in self.all if own == d.key]
            real = [m for k, m in mine if k != 'method' or 'frame_check' not in m.name() or m.body().isDefined()]
            self.main[d] = real[0] if real else None
            names = {m.name() for m in real}
            for k, m, own, ls in self.all:
                if own is None and k == 'method' and (d.io and any(d.key[0] == f and d.key[1] <= l <= d.node.end_lineno for f, l in ls) or calls(m) & names and d.key in ls) and m.f('formalArgs').items and self.is_check(m, d, names):
                    mine.append((k, m))         # checks that an override or an inherited method is fine
                elif own is not None and own != d.key and d.key in ls and (k == 'predicate' or k == 'method' and body(m) is None):
                    mine.append((k, m))         # predicate families
            self.by[d] = mine

    def is_check(self, m, d, names):
        if d.io:                                # checks that an IO operation is well-defined
            return any(m.name().startswith(n + '__') for n in names) and 'check' in m.name()
        return d.name in m.name() and 'check' in m.name() and any(m.name().startswith(n) for n in names)


def check_selection(defs, full, sel, S, main):
    """Violated obligations of one selection."""
    F, T = Members(full.prog, defs), Members(sel.prog, defs)
    out = []
    related = {}
    for d in defs:
        for k, m in T.by[d]:
            related.setdefault(m.name(), []).append(d)
            if d.predicate:                     # a family of predicates is checked as a whole
                related[m.name()] += [e for e in defs if e.predicate and e.name == d.name]
    for d in defs:
        if d.inline:
            continue
        mine = [m for k, m in T.by[d]]
        if d.matched(S):
            if not mine and F.by[d]:
                out.append(('selected code is handed to the verifier', '%r has no Viper member' % d))
            for m in mine:
                if m.name() not in sel.chosen:
                    out.append(('selected code is handed to the verifier', '%s of %r is left out' % (m.name(), d)))
            if len(F.by[d]) > len(mine) and d.file == main and d.cls is not None and not d.bodyless:
                inherited = [m for k, m in F.by[d] if 'inherit' in m.name()]
                if len(F.by[d]) - len(inherited) > len(mine):
                    out.append(('selected code is handed to the verifier', '%r has fewer members than without selection' % d))
        else:
            for m in mine:
                if m.name() in sel.chosen and not any(x.matched(S) for x in related[m.name()]):
                    out.append(('code that is not selected is not verified', '%s of %r' % (m.name(), d)))
        a, b = F.main[d], T.main[d]
        if b is None or type(b).__name__ != 'Method':
            continue
        bl = body_lines(b)
        if d.matched(S) and not d.bodyless:
            if bl is None or not d.asserts() <= bl:
                out.append(('the whole body of selected code is translated', '%r: lines %s are missing' % (d, sorted(d.asserts() - (bl or set())))))
            if d.file == main and a is not None and bl is not None and (body_lines(a) or set()) - bl:
                out.append(('the whole body of selected code is translated', '%r: lines %s are missing' % (d, sorted(body_lines(a) - bl))))
        elif not d.matched(S):
            extra = (bl or set()) - contract_lines(b) - {d.key}
            if extra & {(d.file, l) for l in range(d.node.lineno, d.node.end_lineno + 1)} - signature(d):
                out.append(('of code that is not selected, only the contract is used', '%r: lines %s' % (d, sorted(extra))))
            if a is not None and contract_lines(a) != contract_lines(b):
                out.append(('the contract of code that is not selected is used in full', '%r: lines %s' % (
                    d, sorted(contract_lines(a) ^ contract_lines(b)))))
    return out


def signature(d):
    """Lines of the signature and of the contract statements."""
    ls = set(range(d.node.lineno, max([d.node.lineno] + [x.lineno for x in ast.walk(d.node.args) if hasattr(x, 'lineno')]) + 1))
    for s in d.node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in (
                'Requires', 'Ensures', 'Exsures', 'Decreases'):
            ls |= set(range(s.lineno, s.end_lineno + 1))
    return {(d.file, l) for l in ls}


def check_full(defs, top, full, main):
    out = []
    F = Members(full.prog, defs)
    checks = {m.name() for d in defs for k, m in F.by[d]}
    for k, m, own, ls in F.all:
        if m.name() not in checks or k == 'function' and body(m) is None:
            continue
        if m.name() not in full.chosen:
            out.append(('without a selection everything is verified', '%s %s is left out' % (k, m.name())))
    for d in defs:
        m = F.main[d]
        if d.file == main and not d.inline and not d.bodyless and not d.predicate and not d.io and (m is None or type(m).__name__ == 'Method' and not d.asserts() <= (body_lines(m) or set())):
            out.append(('without a selection everything is verified', '%r is not translated in full' % d))
    for l in top:
        if not any(l in ls and m.name() in full.chosen for k, m, own, ls in F.all if k == 'method'):
            out.append(('without a selection everything is verified', 'the statement in line %d of %s is left out' % (l[1], l[0])))
    return out


def selections(defs, rng, extra, single):
    names = sorted({d.name for d in defs} | {d.cls for d in defs if d.cls} | {d.cls + '.' + d.name for d in defs if d.cls})
    out = [{n} for n in names]
    if single is not None and len(out) > single:
        out = rng.sample(out, single)
    for _ in range(extra if len(names) > 1 else 0):
        out.append(set(rng.sample(names, min(len(names), rng.choice([2, 2, 3, 5])))))
    return out


def one(job):
    path, extra, single, seed, part, parts = job
    name = os.path.basename(path)
    fs = P.load(path)
    main = name
    out, counts = [], {'cases': 0, 'refused': 0}
    try:
        full = P.translate(fs)
    except Exception as e:
        return name, [('translation', {'error': repr(e)[:300]})], counts
    defs, top = definitions(fs)
    counts['cases'] += 1
    for lb, what in check_full(defs, top, full, main)[:2]:
        out.append((lb, {'what': what, 'selection': [], 'program': fs}))
    rng = random.Random('%s %s' % (name, seed))
    todo = selections(defs, rng, extra, single)
    for i, S in enumerate(todo):
        if i % parts != part:
            continue
        try:
            sel = P.translate(fs, selected=S)
        except Exception as e:
            counts['refused'] += 1
            if counts['refused'] == 1:
                again = True
                try:
                    P.translate(fs)
                except Exception:
                    again = False
                if again:
                    out.append(('every selection of a translatable program is translated', {'what': '%s: %r' % (sorted(S), e), 'program': fs}))
            continue
        counts['cases'] += 1
        bad = check_selection(defs, full, sel, S, main)
        if bad and any(lb.startswith('the contract') for lb, _ in bad):
            # a translation may depend on the order of sets
            bad = [b for b in bad if b in check_selection(defs, P.translate(fs), P.translate(fs, selected=S), S, main)]
        for lb, what in bad[:3]:
            out.append((lb, {'what': 'selecting %s: %s' % (sorted(S), what), 'selection': sorted(S), 'program': fs}))
        if len(out) > 5:
            break
    return name, out, counts


OBS = ('selected code is handed to the verifier', 'code that is not selected is not verified', 'the whole body of selected code is translated',
       'of code that is not selected, only the contract is used', 'the contract of code that is not selected is used in full',
       'without a selection everything is verified', 'every selection of a translatable program is translated')


def whole(rep, thorough):
    own = sorted(glob.glob(os.path.join(CORPUS, 'sel', '*.py')))
    own = [f for f in own if not f.endswith('_b.py')]
    more = sorted(glob.glob(os.path.join(CORPUS, 'names', '*.py')))
    more = [f for f in more if not os.path.basename(f).startswith('two_')]
    jobs = []
    for f in own:
        parts = 6 if os.path.getsize(f) > 1500 else 2
        jobs += [(f, 40 if thorough else 12, None, px.SEED, i, parts) for i in range(parts)]
    jobs += [(f, 12 if thorough else 1, None if thorough else 2, px.SEED, 0, 1) for f in sorted(more, key=os.path.getsize, reverse=True)]
    failed, total, broken = P.run_all(rep, jobs, one, 2400 if thorough else 480)
    P.conclude(rep, 'translated programs', OBS, failed, total, broken,
               '%d programs, every single name selected for %d of them, and sampled selections (seed %d)' % (len(own) + len(more), len(own), px.SEED), len(jobs))


# --------------------------------------------------------------- unknown selections
def unknown(rep):
    P.setup()
    path = os.path.join(CORPUS, 'sel', 'kinds.py')
    fs = P.load(path)
    t = P.translate(fs)
    defs, _ = definitions(fs)
    known = sorted({d.name for d in defs if not d.io} | {d.cls for d in defs if d.cls} | {d.cls + '.' + d.name for d in defs if d.cls})
    some = ['free', 'C', 'C.m', 'st', 'D.inv', 'prop', 'D.m']
    bad = ['zz', 'C.zz', 'zz.m', ' free', 'free ', '', 'D.st.x', 'free.m', 'C.free', 'c', 'FREE', 'C.', '.m', 'append', 'int', '*']
    import h_c11 as H
    import jfakes as J

    def pick(c):
        sel = {c.choice('first', some + bad)}
        second = c.choice('second', [None, 'pfree', 'D', 'nope'])
        if second:
            sel.add(second)
        return sel, all(s in known for s in sel)

    def stub(c):
        def translate(*a, **k):
            return t.modules, H.PROG
        J.patch_all(c, target('nagini_translation.main', 'translate'), translate)

    def h(c):
        sel, ok = pick(c)
        use_server = c.bool('viper server')
        jvm = J.FakeJVM(lambda: J.RawSuccess())
        H.fresh(c, jvm)
        stub(c)
        s = H.make_service(c, jvm, verifier_backend='silicon', use_viper_server=use_server)
        kind, r, out = H.quiet(c, s.verify, path, selected=set(sel))
        if ok:
            c.ensure(kind == 'ok' and r.success is True, 'existing elements are verified', got=repr((kind, r)), selected=sorted(sel))
        else:
            c.ensure(kind != 'ok' or r.success is not True, 'success is not reported for an element that does not exist', got=repr((kind, r)), selected=sorted(sel))
    prove(rep, 'service.verify', h, limit=4000, budget=100, bounded='23 names, alone and with a second one, selected in one program')

    def h(c):
        sel, ok = pick(c)
        c.assume(sel != {''})           # no selection at all
        jvm = J.FakeJVM(lambda: J.RawSuccess())
        H.fresh(c, jvm)
        stub(c)
        tv = target('nagini_translation.main', 'translate_and_verify')
        by = c.choice('selected by', ['option', 'request'])
        args = H.args_of(select=','.join(sorted(sel)) if by == 'option' else None)
        kind, r, out = H.quiet(c, tv, path, jvm, args, **({'selected': set(sel)} if by == 'request' else {}))
        if ok:
            c.ensure(kind == 'ok' and r is True, 'existing elements are verified', got=repr((kind, r, out)), selected=sorted(sel))
        else:
            c.ensure(kind != 'ok' or r is not True, 'success is not reported for an element that does not exist', got=repr((kind, r, out)), selected=sorted(sel))
    prove(rep, 'main.translate_and_verify', h, limit=4000, budget=100, bounded='23 names, alone and with a second one, selected in one program')


def run(rep, thorough):
    decisions(rep)
    unknown(rep)
    whole(rep, thorough)
