"""Which names a Viper program declares and whether every use of a name denotes
the declaration it must: one declaration per name and scope, uses agree with it
in kind, number of arguments and type. Works on the programs recorded by fakejvm."""
import collections
import re

KEYWORDS = set('''Int Perm Bool Ref Rational true false null result method function predicate domain axiom var returns field define wand
requires ensures invariant fold unfold inhale exhale new assert assume package apply if elseif else while goto label fresh Seq Set Multiset
Map union intersection setminus subset unfolding in folding applying old lhs let forall exists forperm acc wildcard write none epsilon perm
unique interpretation decreases import'''.split())


def items(x):
    return list(getattr(x, 'items', x) if not callable(getattr(x, 'items', None)) else x.items)


def kind(n):
    return type(n).__name__


def global_names(prog):
    out = collections.defaultdict(list)
    for k in ('fields', 'functions', 'methods', 'predicates', 'domains'):
        for x in items(getattr(prog, k)()):
            out[x.name()].append((k[:-1], x))
            if k == 'domains':
                for f in items(x.functions()):
                    out[f.name()].append(('domain function', f))
    return out


def exps_of(member):
    out = []
    for f in member.FIELDS:
        v = member.f(f)
        if f in ('name', 'formalArgs', 'formalReturns', 'typ'):
            continue
        if hasattr(v, 'walk'):
            out.append(v)
        elif hasattr(v, 'items') and not isinstance(v, dict):
            try:
                out += [x for x in items(v) if hasattr(x, 'walk')]
            except TypeError:
                pass
        elif hasattr(v, 'x') and hasattr(v.x, 'walk'):
            out.append(v.x)
    return out


class Checker:
    def __init__(self, prog, only=None):
        self.out = []
        self.g = global_names(prog)
        self.prog = prog
        self.counts = collections.Counter()
        for n, ds in self.g.items():
            self.counts['global'] += 1
            if len(ds) > 1:
                self.add('duplicate declaration', n, ' and '.join(k for k, _ in ds))
            if n in KEYWORDS:
                self.add('Viper keyword as a name', n, ds[0][0])
        for k in ('functions', 'methods', 'predicates'):
            for m in items(getattr(prog, k)()):
                if only is None or only(m):
                    self.member(m)

    def add(self, what, name, where=''):
        self.out.append((what, name, where))

    def decl(self, n, kinds):
        for k, d in self.g.get(n, []):
            if k in kinds:
                return d
        return None

    def member(self, m):
        env, labels = {}, set()
        where = '%s %s' % (kind(m), m.name())

        def declare(d):
            self.counts['local'] += 1
            if d.name() in env or d.name() in labels:
                self.add('duplicate declaration', d.name(), where)
            if d.name() in KEYWORDS:
                self.add('Viper keyword as a name', d.name(), where)
            env[d.name()] = d.typ()
        for f in ('formalArgs', 'formalReturns'):
            if f in m.FIELDS:
                for d in items(m.f(f)):
                    declare(d)
        tops = exps_of(m)

        def collect(n):
            if kind(n) == 'Seqn':
                for d in items(n.scopedSeqnDeclarations()):
                    if kind(d) == 'LocalVarDecl':
                        declare(d)
            if kind(n) == 'Label':
                if n.name() in labels or n.name() in env:
                    self.add('duplicate declaration', n.name(), where)
                labels.add(n.name())
            for s in n.subnodes().items:
                collect(s)
        for e in tops:
            collect(e)
        for e in tops:
            self.uses(e, env, labels, where)

    def uses(self, n, env, labels, where):
        k = kind(n)
        self.counts['use'] += 1
        if k == 'LocalVar':
            if n.name() not in env:
                self.add('use of an undeclared variable', n.name(), where)
            elif env[n.name()] != n.f('typ'):
                self.add('variable used with another type', n.name(), where)
            return
        if k == 'LocalVarDecl':
            return
        if k == 'Goto' and n.target() not in labels:
            self.add('use of an undeclared label', n.target(), where)
        if k == 'LabelledOld' and n.oldLabel() not in labels and n.oldLabel() != 'lhs':
            self.add('use of an undeclared label', n.oldLabel(), where)
        if k == 'MethodCall':
            d = self.decl(n.methodName(), ('method',))
            if d is None:
                self.add('call of an undeclared method', n.methodName(), where)
            elif (len(items(d.formalArgs())), len(items(d.formalReturns()))) != (len(items(n.args())), len(items(n.targets()))):
                self.add('call with another number of arguments', n.methodName(), where)
        if k == 'FuncApp':
            d = self.decl(n.funcname(), ('function',))
            if d is None:
                self.add('call of an undeclared function', n.funcname(), where)
            elif len(items(d.formalArgs())) != len(items(n.args())):
                self.add('call with another number of arguments', n.funcname(), where)
        if k == 'DomainFuncApp':
            d = self.decl(n.funcname(), ('domain function',))
            if d is None:
                self.add('call of an undeclared domain function', n.funcname(), where)
            elif len(items(d.formalArgs())) != len(items(n.args())):
                self.add('call with another number of arguments', n.funcname(), where)
        if k == 'PredicateAccess':
            d = self.decl(n.predicateName(), ('predicate',))
            if d is None:
                self.add('use of an undeclared predicate', n.predicateName(), where)
            elif len(items(d.formalArgs())) != len(items(n.args())):
                self.add('use with another number of arguments', n.predicateName(), where)
        if k == 'FieldAccess':
            f = n.field()
            d = self.decl(f.name(), ('field',))
            if d is None:
                self.add('access of an undeclared field', f.name(), where)
            elif d.typ() != f.typ():
                self.add('field used with another type', f.name(), where)
        if k in ('Forall', 'Exists', 'ForPerm'):
            vs = items(n.variables())
            names = [v.name() for v in vs]
            if len(set(names)) != len(names):
                self.add('duplicate declaration', str(names), where)
            env = dict(env)
            for v in vs:
                env[v.name()] = v.typ()
        if k == 'Let':
            self.uses(n.exp(), env, labels, where)
            env = dict(env)
            env[n.variable().name()] = n.variable().typ()
            self.uses(n.body(), env, labels, where)
            return
        for s in n.subnodes().items:
            self.uses(s, env, labels, where)


def check(prog, only=None):
    c = Checker(prog, only)
    return c.out, c.counts
