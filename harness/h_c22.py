"""C22: terms handed to the backend are well formed and denote what was asked for."""
import re
import ast
import itertools
import z3
import fakejvm
import px
from px import prove, target, Missing, SInt, SBool, SymUnsupported, num

LEVEL = 'proof'
TRUSTED = ['the parameter order of Silver\'s AST case classes (fakejvm.SIG)', 'java.math.BigInteger reads decimal text and negates exactly',
           'z3', 'opaque arguments stand for all arguments (the construction layer cannot look inside them)']
ASSUMPTIONS = ['arguments of silver_nodes are well-typed sub-nodes that satisfy the contract of their class',
               'list conversion itself (to_seq, to_list, to_map, to_set, list_to_seq) is checked for lengths 0 to 6 (bounded); its callers are '
               'checked against that contract for lists of any length']
MIN = 400
N = 'nagini_translation.lib.viper_ast'
NX = 'nagini_translation.sif.lib.viper_ast_extended'
S = 'nagini_translation.lib.silver_nodes.'
NoneTrafo = fakejvm.NoTrafos


class AnyList(list):
    """A list of unknown length and contents: it can only be handed on."""
    def __init__(self, name):
        list.__init__(self)
        self.name = name

    def _no(self, *a, **k):
        raise SymUnsupported('contents of a list of unknown length')
    __len__ = __iter__ = __getitem__ = __contains__ = __add__ = __radd__ = __bool__ = append = extend = _no
    __eq__ = __reversed__ = index = copy = _no
    __hash__ = None

    def __repr__(self):
        return '<list %s>' % self.name


class SeqOf:
    def __init__(self, lst):
        self.lst = lst

    def __repr__(self):
        return 'Seq(%r)' % (self.lst,)


def jvm_int(text):
    """java.math.BigInteger(String) on a decimal numeral or a symbolic one."""
    if not isinstance(text, str):
        raise TypeError('No matching overloads found for constructor java.math.BigInteger(%s)' % type(text).__name__)
    m = re.fullmatch('([-+]?)\ue000(i:\\d+)\ue001', text)
    if m:
        v = SInt(px.CUR[0].marks[m.group(2)])
        return -v if m.group(1) == '-' else v
    if not re.fullmatch('[-+]?[0-9]+', text):
        raise ValueError('NumberFormatException: ' + text)
    return int(text)


class JBig:
    def __init__(self, s):
        self.v = jvm_int(s)

    @classmethod
    def _of(cls, v):
        r = cls.__new__(cls)
        r.v = v
        return r

    @classmethod
    def valueOf(cls, v):
        if not (-2 ** 63 <= v and v < 2 ** 63):
            raise OverflowError('Cannot convert value to Java long')
        return cls._of(v)

    def negate(self):
        return JBig._of(-self.v)

    def add(self, o):
        return JBig._of(self.v + o.v)

    def subtract(self, o):
        return JBig._of(self.v - o.v)

    def multiply(self, o):
        return JBig._of(self.v * o.v)


class SBig:
    def __init__(self, b):
        if not isinstance(b, JBig):
            raise TypeError('No matching overloads found for constructor scala.math.BigInt')
        self.v = b.v


def make(c, extended=False):
    """The real ViperAST over the recorder."""
    jvm = fakejvm.install()
    c.patch_item(fakejvm.SPECIAL, 'java.math.BigInteger', JBig)
    c.patch_item(fakejvm.SPECIAL, 'scala.math.BigInt', SBig)
    cls = target(NX, 'ViperASTExtended') if extended else target(N, 'ViperAST')
    v = cls(jvm, jvm.java, jvm.scala, jvm.viper, 'file.py')
    real = v.to_seq

    def to_seq(lst):
        return SeqOf(lst) if isinstance(lst, AnyList) else real(lst)
    v.to_seq = to_seq
    return v


def patch_item(self, d, k, v):
    old = d[k]
    d[k] = v
    self.cleanups.append(lambda: d.__setitem__(k, old))


px.Ctx.patch_item = patch_item


class Thing(px.Opaque):
    """A child node: only its identity matters."""
    def typ(self):
        return ('typ', self)

    def pos(self):
        return ('pos', self)

    def info(self):
        return ('info', self)


def anylist(c, name):
    if c.conc:
        n = c._pick('len ' + name, lambda r: r.choice([0, 1, 2, 3, 7]))
        c.inputs['len ' + name] = n
        return [Thing('%s%d' % (name, i)) for i in range(n)]
    return AnyList(name)


def is_seq(got, lst):
    if isinstance(lst, AnyList):
        return isinstance(got, SeqOf) and got.lst is lst
    return isinstance(got, fakejvm.ScalaList) and len(got.items) == len(lst) and all(a is b for a, b in zip(got.items, lst))


# constructor -> (node, parameters, expected children); parameter kinds by suffix:
# * list, ? optional; an expected child is a parameter, '[]', 'none' or 'some p'
BIN = '''PermAdd PermSub PermMul IntPermMul PermDiv PermLtCmp PermLeCmp PermGtCmp PermGeCmp EqCmp NeCmp GtCmp GeCmp LtCmp LeCmp
    Implies AnySetUnion AnySetSubset SeqAppend Add Sub Mul Div Mod And Or FractionalPerm LocalVarAssign:lhs,rhs FieldAssign:lhs,rhs
    Unfolding:predicate,expr Asserting:ass,expr FieldAccess:receiver,field Old:expr LabelledOld:expr,label Inhale:expr Exhale:expr
    InhaleExhaleExp:inhale,exhale Assert:expr Refute:expr CurrentPerm:location PermMinus:exp Not:expr Minus:expr Fold:predicate
    Unfold:predicate CondExp:cond,then,els MapContains:key,m MapLookup:m,key SeqContains:elem,s AnySetContains:elem,s SeqLength:s
    SeqIndex:s,ind SeqTake:s,end SeqDrop:s,end EmptySeq:type EmptySet:type EmptyMultiset:type Result:type Let:variable,exp,body
    LocalVarDecl:name,type LocalVar:name,type Field:name,type FullPerm: NoPerm: WildcardPerm: TrueLit: FalseLit: NullLit:
    ExplicitSeq:elems* ExplicitSet:elems* ExplicitMultiset:elems* Trigger:exps* '''.split()
SPECIAL = {
    'Program': ('domains* fields* functions* predicates* methods*', 'domains fields functions predicates methods []'),
    'Function': ('name args* type pres* posts* body?', 'name args type pres posts body'),
    'Predicate': ('name args* body?', 'name args body'),
    'PredicateAccess': ('args* pred_name', 'args pred_name'),
    'PredicateAccessPredicate': ('loc perm', 'loc some:perm'),
    'FieldAccessPredicate': ('fieldacc perm', 'fieldacc some:perm'),
    'Domain': ('name functions* axioms* typevars*', 'name functions axioms typevars none'),
    'MethodCall': ('method_name args* targets*', 'method_name args targets'),
    'NewStmt': ('lhs fields*', 'lhs fields'),
    'Label': ('name', 'name []'),
    'Goto': ('name', 'name'),
    'Exists': ('variables* triggers* exp', 'variables triggers exp'),
    'DecreasesTuple': ('measures* condition?', 'measures condition'),
    'DecreasesWildcard': ('condition?', 'condition'),
    'PredicateInstance': ('args* pred_name', 'pred_name args'),
}
EXT = {
    'Return': ('SIFReturnStmt', 'expr? res_var?', 'expr res_var'),
    'Break': ('SIFBreakStmt', '', ''), 'Continue': ('SIFContinueStmt', '', ''),
    'Raise': ('SIFRaiseStmt', 'assignment?', 'assignment'),
    'Try': ('SIFTryCatchStmt', 'body catch_blocks* else_block? finally_block?', 'body catch_blocks else_block finally_block'),
    'LowEvent': ('SIFLowEventExp', '', ''),
    'Declassify': ('SIFDeclassifyStmt', 'expr', 'expr'),
    'InlinedCall': ('SIFInlinedCallStmt', 'stmts', 'stmts'),
    'AssertNoException': ('SIFAssertNoException', '', ''),
    'TerminatesSif': ('SIFTerminatesExp', 'cond', 'cond'),
}


def table():
    for b in BIN:
        name, _, ps = b.partition(':')
        ps = ps.replace(',', ' ') if ':' in b else 'left right'
        yield name, name, ps, ps.replace('*', ''), False
    for name, (ps, want) in SPECIAL.items():
        yield name, name, ps, want, False
    for name, (node, ps, want) in EXT.items():
        yield name, node, ps, want, True


def inputs(c, spec):
    out = {}
    for p in spec.split():
        n = p.rstrip('*?')
        if p.endswith('*'):
            out[n] = anylist(c, n)
        elif p.endswith('?'):
            out[n] = Thing(n) if c.bool(n + ' given') else None
        else:
            out[n] = Thing(n)
    return out


def check_children(c, label, node, cls, want, env):
    c.ensure(type(node).__name__ == cls, label + ': builds a %s node' % cls, got=type(node).__name__)
    for f, w in zip(node.FIELDS, want.split()):
        got = node._v[f]
        if w == '[]':
            ok = is_seq(got, [])
        elif w == 'none':
            ok = got is fakejvm.NONE
        elif w.startswith('some:'):
            ok = isinstance(got, fakejvm.Some) and got.x is env[w[5:]]
        else:
            v = env[w]
            if isinstance(v, list):
                ok = is_seq(got, v)
            elif w in env.get('optional', ()):
                ok = got is fakejvm.NONE if v is None else isinstance(got, fakejvm.Some) and got.x is v
            else:
                ok = got is v
        c.ensure(ok, label + ': child %s is the %s given' % (f, w), got=px.safe(got))


def where(c, label, node, pos, info):
    c.ensure(node._pos is pos and node._info is info, label + ': carries the position and info given')


def constructors(rep):
    for name, cls, ps, want, ext in table():
        for extended in ([True] if ext else [False, True]):
            if extended and name in ('Label', 'Goto') or extended and not ext and name not in (
                    'PredicateAccessPredicate', 'Seqn', 'And', 'Assert'):
                continue

            def h(c):
                v = make(c, extended)
                env = inputs(c, ps)
                env['optional'] = [p[:-1] for p in ps.split() if p.endswith('?')]
                pos, info = Thing('position'), Thing('info')
                order = [env[p.rstrip('*?')] for p in ps.split()]
                fn = getattr(v, name, None)
                if fn is None:
                    raise Missing(name)
                r = c.run(name, fn, *order, pos, info)
                check_children(c, name, r, cls, want, env)
                where(c, name, r, pos, info)
                # the same call with keyword arguments
                kw = {p.rstrip('*?'): env[p.rstrip('*?')] for p in ps.split()}
                try:
                    r2 = fn(position=pos, info=info, **kw)
                except TypeError:
                    return
                check_children(c, name, r2, cls, want, env)
            prove(rep, ('ViperASTExtended.' if extended else 'ViperAST.') + name, h, samples=20)


def special_nodes(rep):
    def method(c):
        v = make(c)
        env = inputs(c, 'name args* returns* pres* posts* locals* body?')
        pos, info = Thing('p'), Thing('i')
        r = c.run('Method', v.Method, env['name'], env['args'], env['returns'], env['pres'], env['posts'], env['locals'], env['body'], pos, info)
        check_children(c, 'Method', r, 'Method', 'name args returns pres posts', env)
        where(c, 'Method', r, pos, info)
        b = r._v['body']
        if env['body'] is None:
            c.ensure(b is fakejvm.NONE, 'Method: no body when none is given')
        else:
            ok = isinstance(b, fakejvm.Some) and type(b.x).__name__ == 'Seqn'
            c.ensure(ok, 'Method: the body given is its body')
            c.ensure(is_seq(b.x._v['ss'], [env['body']]) and is_seq(b.x._v['scopedSeqnDeclarations'], env['locals']),
                     'Method: the body given is its body, with the locals given', got=px.safe(b))
    prove(rep, 'ViperAST.Method', method)

    def seqn(c):
        v = make(c)
        env = inputs(c, 'body* locals*')
        pos, info = Thing('p'), Thing('i')
        if c.bool('locals given'):
            r = c.run('Seqn', v.Seqn, env['body'], pos, info, env['locals'])
            check_children(c, 'Seqn', r, 'Seqn', 'body locals', env)
        else:
            r = c.run('Seqn', v.Seqn, env['body'], pos, info)
            check_children(c, 'Seqn', r, 'Seqn', 'body []', env)
        where(c, 'Seqn', r, pos, info)
    prove(rep, 'ViperAST.Seqn', seqn)

    def leaves(s):
        """Statements of a (nested) sequence without declarations, in order."""
        if type(s).__name__ == 'Seqn':
            if isinstance(s._v['ss'], SeqOf):
                return [s]
            return [x for k in s._v['ss'].items for x in leaves(k)]
        return [s]

    def if_(c):
        v = make(c)
        env = inputs(c, 'cond thn els')
        pos, info = Thing('p'), Thing('i')
        r = c.run('If', v.If, env['cond'], env['thn'], env['els'], pos, info)
        c.ensure(type(r).__name__ == 'If' and r._v['cond'] is env['cond'], 'If: tests the condition given')
        for k in ('thn', 'els'):
            c.ensure(type(r._v[k]).__name__ == 'Seqn' and leaves(r._v[k]) == [env[k]], 'If: runs the %s branch given' % k)
        where(c, 'If', r, pos, info)
    prove(rep, 'ViperAST.If', if_)

    def while_(c):
        v = make(c)
        env = inputs(c, 'cond invariants* locals* body')
        pos, info = Thing('p'), Thing('i')
        r = c.run('While', v.While, env['cond'], env['invariants'], env['locals'], env['body'], pos, info)
        check_children(c, 'While', r, 'While', 'cond invariants', env)
        b = r._v['body']
        c.ensure(type(b).__name__ == 'Seqn' and is_seq(b._v['scopedSeqnDeclarations'], env['locals']) and
                 len(b._v['ss']) == 1 and b._v['ss'][0] is env['body'], 'While: runs the body given with the locals given')
        where(c, 'While', r, pos, info)
    prove(rep, 'ViperAST.While', while_)

    def assert_true(c):
        v = make(c, c.bool('extended'))
        pos, info = Thing('p'), Thing('i')
        kind = c.choice('asserted', ['TrueLit', 'FalseLit', 'NullLit', 'LocalVar', 'EqCmp'])
        x = {'TrueLit': lambda: v.TrueLit(pos, info), 'FalseLit': lambda: v.FalseLit(pos, info), 'NullLit': lambda: v.NullLit(pos, info),
             'LocalVar': lambda: v.LocalVar('x', v.Bool, pos, info), 'EqCmp': lambda: v.EqCmp(Thing('a'), Thing('b'), pos, info)}[kind]()
        r = c.run('Assert', v.Assert, x, pos, info)
        if kind == 'TrueLit':
            c.ensure(type(r).__name__ == 'Assert' and r._v['exp'] is x or type(r).__name__ == 'Seqn' and not r._v['ss'].items,
                     'Assert: of true checks nothing')
        else:
            c.ensure(type(r).__name__ == 'Assert' and r._v['exp'] is x, 'Assert: checks exactly what is given')
            where(c, 'Assert', r, pos, info)
    prove(rep, 'ViperAST.Assert', assert_true)

    def intlit(c):
        v = make(c)
        n = c.int('n')
        pos, info = Thing('p'), Thing('i')
        r = c.run('IntLit', v.IntLit, n, pos, info)
        c.ensure(type(r).__name__ == 'IntLit', 'IntLit: builds a literal')
        b = r._v['i']
        c.ensure(isinstance(b, SBig), 'IntLit: holds a BigInt')
        c.ensure(b.v == n, 'IntLit: the literal has the value given')
        where(c, 'IntLit', r, pos, info)
    prove(rep, 'ViperAST.IntLit', intlit)

    def bigint(c):
        v = make(c)
        n = c.int('n')
        r = c.run('to_big_int', v.to_big_int, n)
        c.ensure(isinstance(r, SBig), 'to_big_int: gives a BigInt')
        c.ensure(r.v == n, 'to_big_int: the value is unchanged, whatever its size and sign')
    prove(rep, 'ViperAST.to_big_int', bigint, samples=200)

    def domainfunc(c):
        v = make(c)
        env = inputs(c, 'name args* type unique')
        pos, info, dom = Thing('p'), Thing('i'), Thing('domain')
        r = c.run('DomainFunc', v.DomainFunc, env['name'], env['args'], env['type'], env['unique'], pos, info, dom)
        check_children(c, 'DomainFunc', r, 'DomainFunc', 'name args type unique none', env)
        c.ensure(r._rest[0] is pos and r._rest[1] is info and r._rest[2] is dom, 'DomainFunc: belongs to the domain given')
    prove(rep, 'ViperAST.DomainFunc', domainfunc)

    def axiom(c):
        v = make(c)
        env = inputs(c, 'name expr')
        pos, info, dom = Thing('p'), Thing('i'), Thing('domain')
        r = c.run('DomainAxiom', v.DomainAxiom, env['name'], env['expr'], pos, info, dom)
        check_children(c, 'DomainAxiom', r, 'NamedDomainAxiom', 'name expr', env)
        c.ensure(r._rest[0] is pos and r._rest[1] is info and r._rest[2] is dom, 'DomainAxiom: belongs to the domain given')
    prove(rep, 'ViperAST.DomainAxiom', axiom)

    def funcapp(c):
        v = make(c)
        env = inputs(c, 'name args* type formal*')
        pos, info = Thing('p'), Thing('i')
        a = [env['name'], env['args'], pos, info, env['type']] + ([env['formal']] if c.bool('formal arguments given') else [])
        r = c.run('FuncApp', v.FuncApp, *a)
        check_children(c, 'FuncApp', r, 'FuncApp', 'name args', env)
        where(c, 'FuncApp', r, pos, info)
        c.ensure(r.typ() is env['type'], 'FuncApp: has the type given')
        i2 = Thing('info2')
        r2 = c.run('FuncAppWithInfo', v.FuncAppWithInfo, r, i2)
        c.ensure(type(r2).__name__ == 'FuncApp' and r2._v['funcname'] is env['name'] and r2._v['args'] is r._v['args'] and
                 r2._pos is pos and r2._info is i2 and r2.typ() is env['type'], 'FuncAppWithInfo: is the same call with the info given')
    prove(rep, 'ViperAST.FuncApp', funcapp)

    def domainfuncapp(c):
        v = make(c)
        name, typ, dom, pos, info = Thing('name'), Thing('type'), Thing('domain'), Thing('p'), Thing('i')
        n = c.choice('args', range(6))
        args = [Thing('a%d' % i) for i in range(n)]
        r = c.run('DomainFuncApp', v.DomainFuncApp, name, args, typ, pos, info, dom)
        c.ensure(type(r).__name__ == 'DomainFuncApp' and r._v['funcname'] is name and is_seq(r._v['args'], args),
                 'DomainFuncApp: applies the function given to the arguments given, in order')
        where(c, 'DomainFuncApp', r, pos, info)
        c.ensure(r.typ() is typ and r._rest[3] is dom, 'DomainFuncApp: has the type and domain given')
    prove(rep, 'ViperAST.DomainFuncApp', domainfuncapp, bounded='at most 5 arguments')

    def forperm(c):
        v = make(c)
        env = inputs(c, 'variable access body')
        pos, info = Thing('p'), Thing('i')
        r = c.run('ForPerm', v.ForPerm, env['variable'], env['access'], env['body'], pos, info)
        c.ensure(type(r).__name__ == 'ForPerm' and is_seq(r._v['variables'], [env['variable']]) and r._v['resource'] is env['access'] and
                 r._v['body'] is env['body'], 'ForPerm: quantifies over the variable, resource and body given')
        where(c, 'ForPerm', r, pos, info)
    prove(rep, 'ViperAST.ForPerm', forperm)

    def forall(c):
        v = make(c)
        pos, info = Thing('p'), Thing('i')
        env = inputs(c, 'variables* triggers*')
        pure = c.bool('pure body')
        n = 0 if pure else c.choice('parts', range(5))
        parts = [v.LocalVar('q%d' % i, v.Bool, pos, info) for i in range(n)]
        body = Thing('body')
        c.patch(fakejvm.Node, 'isPure', lambda s: pure)
        seen = []

        class QP:
            @staticmethod
            def desugarSourceQuantifiedPermissionSyntax(f):
                seen.append(f)
                return fakejvm.ScalaList(parts)
        v.QPs = QP
        r = c.run('Forall', v.Forall, env['variables'], env['triggers'], body, pos, info)
        f = r if pure else seen[0]
        check_children(c, 'Forall', f, 'Forall', 'variables triggers body', dict(env, body=body))
        where(c, 'Forall', f, pos, info)
        if not pure:
            vals = {'q%d' % i: c.bool('q%d' % i, split=False) for i in range(n)}
            want = z3.And(*([px.t(x) for x in vals.values()] + [z3.BoolVal(True)]))
            c.ensure(SBool(sem(r, {k: px.t(x) for k, x in vals.items()}) == want),
                     'Forall: a quantified permission is the conjunction of all its parts')
    prove(rep, 'ViperAST.Forall', forall, bounded=None)

    def option(c):
        v = make(c)
        x = Thing('x')
        c.ensure(c.run('from_option', v.from_option, v.none) is None, 'from_option: nothing for none')
        c.ensure(c.run('from_option', v.from_option, fakejvm.Some(x)) is x, 'from_option: the value of some')
    prove(rep, 'ViperAST.from_option', option)

    def infos(c):
        v = make(c, True)
        cm = anylist(c, 'comments')
        i = c.run('SimpleInfo', v.SimpleInfo, cm)
        c.ensure(is_seq(i.comment(), cm), 'SimpleInfo: has the comments given')
        a, b = Thing('a'), Thing('b')
        j = c.run('ConsInfo', v.ConsInfo, a, b)
        c.ensure(j.head() is a and j.tail() is b, 'ConsInfo: is the pair given')
    prove(rep, 'ViperAST.SimpleInfo, ConsInfo', infos)

    def types(c):
        v = make(c)
        a, b = Thing('a'), Thing('b')
        for n in ('SeqType', 'SetType', 'MultisetType'):
            r = c.run(n, getattr(v, n), a)
            c.ensure(r.name_ + 'Type' == n and r.args_ == (a,), n + ': has the element type given')
        r = c.run('MapType', v.MapType, a, b)
        c.ensure(r.name_ == 'Map' and r.args_ == (a, b), 'MapType: has the key and value types given')
    prove(rep, 'ViperAST types', types)

    def sif(c):
        v = make(c, True)
        pos, info = Thing('p'), Thing('i')
        e = Thing('e')
        comp = c.choice('comparator', [None, 'eq'])
        r = c.run('Low', v.Low, e, comp, pos, info)
        c.ensure(type(r).__name__ == 'SIFLowExp' and r._v['exp'] is e, 'Low: is about the expression given')
        where(c, 'Low', r, pos, info)
        k = r._v['comparator']
        c.ensure(k is fakejvm.NONE if comp is None else isinstance(k, fakejvm.Some) and k.x == comp, 'Low: uses the comparator given')
        c.ensure(v.lowval_functions == ({comp} if comp else set()), 'Low: registers its comparator')
        err, exc, body = Thing('err'), Thing('exc'), Thing('body')
        hd = c.run('SIFExceptionHandler', v.SIFExceptionHandler, err, exc, body)
        c.ensure(hd._v['errVar'] is err and hd._v['exception'] is exc and hd._v['body'] is body, 'SIFExceptionHandler: is built of what is given')
        for nm in ('Goto', 'Label'):
            s = c.run(nm, getattr(v, nm), 'l', pos, info)
            c.ensure(type(s).__name__ == 'Seqn' and not s._v['ss'].items, 'ViperASTExtended.%s: is empty in the extended AST' % nm)
    prove(rep, 'ViperASTExtended', sif)


def conversions(rep):
    L = 'lengths 0 to 6'

    def seq(c):
        v = make(c, c.bool('extended'))
        lst = [Thing(str(i)) for i in range(c.choice('length', range(7)))]
        if c.bool('repeated element') and len(lst) > 2:
            lst[2] = lst[0]
        copy = list(lst)
        r = c.run('to_seq', v.to_seq, lst)
        c.ensure(is_seq(r, copy), 'to_seq: has exactly the elements given, in order')
        c.ensure(len(lst) == len(copy) and all(a is b for a, b in zip(lst, copy)), 'to_seq: leaves the list alone')
        back = c.run('to_list', v.to_list, r)
        c.ensure(len(back) == len(copy) and all(a is b for a, b in zip(back, copy)), 'to_list: has exactly the elements, in order')
    prove(rep, 'ViperAST.to_seq, to_list', seq, bounded=L, samples=100)

    def lts(c):
        fn = target('nagini_translation.lib.util', 'list_to_seq')
        jvm = fakejvm.install()
        lst = [Thing(str(i)) for i in range(c.choice('length', range(7)))]
        r = c.run('list_to_seq', fn, lst, jvm)
        c.ensure(is_seq(r, lst), 'list_to_seq: has exactly the elements given, in order')
        r = c.run('list_to_seq', fn, lst, jvm, Thing('type'))
        c.ensure(is_seq(r, lst), 'list_to_seq: has exactly the elements given, in order')
    prove(rep, 'util.list_to_seq', lts, bounded=L)

    def m(c):
        v = make(c)
        n = c.choice('size', range(7))
        d = {'k%d' % i: Thing(str(i)) for i in range(n)}
        r = c.run('to_map', v.to_map, d)
        c.ensure(isinstance(r, fakejvm.ScalaMap) and set(r.d) == set(d) and all(r.d[k] is d[k] for k in d), 'to_map: has exactly the entries given')
        s = set(d)
        q = c.run('to_set', v.to_set, s)
        c.ensure(set(q.items) == s, 'to_set: has exactly the elements given')
    prove(rep, 'ViperAST.to_map, to_set', m, bounded=L)

    def single(c):
        v = make(c)
        x = Thing('x')
        c.ensure(is_seq(c.run('singleton_seq', v.singleton_seq, x), [x]), 'singleton_seq: has the one element')
        c.ensure(is_seq(c.run('empty_seq', v.empty_seq), []), 'empty_seq: is empty')
    prove(rep, 'ViperAST.singleton_seq', single)

    def heap(c):
        v = make(c)
        p, i = Thing('p'), Thing('i')
        acc = v.FieldAccess(v.LocalVar('x', v.Ref, p, i), v.Field('f', v.Int, p, i), p, i)
        plain = v.LocalVar('y', v.Int, p, i)
        a = acc if c.bool('left reads the heap') else plain
        b = acc if c.bool('right reads the heap') else plain
        e = v.Add(a, b, p, i)
        got = c.run('is_heap_dependent', v.is_heap_dependent, e)
        c.ensure(bool(got) == (a is acc or b is acc), 'is_heap_dependent: exactly when a location is read')
        c.ensure(c.run('is_heap_dependent', v.is_heap_dependent, acc) is True, 'is_heap_dependent: of a location itself')
    prove(rep, 'ViperAST.is_heap_dependent', heap)

    def position(c):
        v = make(c, c.bool('extended'))
        calls = []
        mod = target(N, '')
        mgr = mod.error_manager

        def add(*a, **k):
            calls.append((a, k))
            return 'id0'
        c.patch(mgr, 'add_error_information', add)
        kind = c.choice('node', ['none', 'no lineno', 'lineno None', 'start only', 'end None', 'full'])
        vias, text, rules, py = [Thing('via')], Thing('text'), Thing('rules'), Thing('py')
        l, col, el, ec = c.int('line'), c.int('col'), c.int('end line'), c.int('end col')
        if kind == 'none':
            node = None
        else:
            node = ast.Name('x') if kind != 'no lineno' else px.Opaque('node')
            if kind == 'no lineno':
                pass
            elif kind == 'lineno None':
                node.lineno = None
            else:
                node.lineno, node.col_offset = l, col
                node.end_lineno = node.end_col_offset = None
                if kind == 'start only':
                    node = px.Opaque('node')
                    node.lineno, node.col_offset = l, col
                elif kind == 'full':
                    node.end_lineno, node.end_col_offset = el, ec
        file = c.choice('file', [None, 'other.py'])
        r = c.run('to_position', v.to_position, node, vias, text, rules, file, py)
        if kind in ('none', 'no lineno', 'lineno None'):
            c.ensure(r is v.NoPosition, 'to_position: no position for a node without one')
            c.ensure(not calls, 'to_position: registers nothing for a node without a position')
            return
        c.ensure(type(r).__name__ == 'IdentifierPosition', 'to_position: a position for a node that has one')
        st = r.start()
        c.ensure(st.line() == l, 'to_position: starts at the line of the node')
        c.ensure(st.column() == col, 'to_position: starts at the column of the node')
        en = r.end()
        if kind == 'full':
            c.ensure(isinstance(en, fakejvm.Some), 'to_position: has an end when the node has one')
            c.ensure(en.x.line() == el, 'to_position: ends at the last line of the node')
            c.ensure(en.x.column() == ec, 'to_position: ends at the last column of the node')
        else:
            c.ensure(en is fakejvm.NONE, 'to_position: has no end when the node has none')
        c.ensure(str(r.file().toString()).endswith(file or 'file.py'), 'to_position: is in the file given, or the source file')
        c.ensure(r.id() == 'id0' and len(calls) == 1, 'to_position: registers its error information once')
        a, k = calls[0]
        names = ['node', 'vias', 'error_string', 'py_node', 'conversion_rules']
        got = dict(zip(names, a))
        got.update({{'rules': 'conversion_rules'}.get(x, x): y for x, y in k.items()})
        c.ensure(got.get('node') is node and list(got.get('vias')) == vias and got.get('error_string') is text and got.get('py_node') is py and
                 got.get('conversion_rules') is rules, 'to_position: registers the node, text, rules and path given')
    prove(rep, 'ViperAST.to_position', position)


# ------------------------------------------------------------- meaning of nodes
def sem(n, env):
    """Meaning of a recorded expression; env: values of LocalVars."""
    k = type(n).__name__
    g = lambda f: sem(n._v[f], env)
    if k == 'LocalVar':
        return env[n._v['name']]
    if k == 'TrueLit':
        return z3.BoolVal(True)
    if k == 'FalseLit':
        return z3.BoolVal(False)
    if k == 'NullLit':
        return env['null']
    if k == 'IntLit':
        return num(n._v['i'].v)
    if k == 'Not':
        return z3.Not(g('exp'))
    if k == 'And':
        return z3.And(g('left'), g('right'))
    if k == 'Or':
        return z3.Or(g('left'), g('right'))
    if k == 'Implies':
        return z3.Implies(g('left'), g('right'))
    if k == 'CondExp':
        return z3.If(g('cond'), g('thn'), g('els'))
    if k == 'EqCmp':
        return g('left') == g('right')
    if k == 'NeCmp':
        return g('left') != g('right')
    if k in ('GtCmp', 'PermGtCmp'):
        return g('left') > g('right')
    if k in ('GeCmp', 'PermGeCmp'):
        return g('left') >= g('right')
    if k in ('LtCmp', 'PermLtCmp'):
        return g('left') < g('right')
    if k in ('LeCmp', 'PermLeCmp'):
        return g('left') <= g('right')
    if k in ('Add', 'PermAdd'):
        return g('left') + g('right')
    if k in ('Sub', 'PermSub'):
        return g('left') - g('right')
    if k in ('Mul', 'PermMul'):
        return g('left') * g('right')
    if k == 'IntPermMul':
        return z3.ToReal(g('left')) * g('right')
    if k == 'FullPerm':
        return z3.RealVal(1)
    if k == 'NoPerm':
        return z3.RealVal(0)
    raise SymUnsupported('meaning of ' + k)


class Trans:
    def __init__(self, viper):
        self.viper = viper
        self.calls = []

    def translate_block(self, body, position, info):
        return self.viper.Seqn(body, position, info)

    def translate_expr(self, node, ctx, target_type=None, impure=False, **k):
        self.calls.append((node, target_type))
        return [], node.silver

    def get_type(self, node, ctx):
        return node.pytype

    def to_bool(self, e, ctx):
        return ('bool', e)

    def to_int(self, e, ctx):
        return ('int', e)

    def to_ref(self, e, ctx):
        return ('ref', e)


class World:
    """Real viper AST, stub translator, one leaf class per node family."""
    def __init__(self, c):
        self.c = c
        self.viper = make(c)
        self.tr = Trans(self.viper)
        self.pos, self.info, self.ctx = Thing('position'), Thing('info'), Thing('ctx')
        self.env = {'null': z3.IntVal(-1)}
        self.made = []

    def leaf(self, name, kind, flags=True):
        base = {'bool': S + 'bool_expr:BoolExpression', 'int': S + 'int_expr:IntExpression', 'perm': S + 'perm_expr:PermExpression',
                'ref': S + 'reference_expr:RefExpression'}[kind]
        mod, cl = base.split(':')
        Base = target(mod, cl)
        w, c = self, self.c
        v = self.viper
        typ = {'bool': v.Bool, 'int': v.Int, 'perm': v.Perm, 'ref': v.Ref}[kind]
        node = v.LocalVar(name, typ, self.pos, self.info)
        self.made.append(node)
        at = af = False
        value = None
        if kind == 'bool':
            val = px.t(c.bool(name, split=False))
            if flags:
                what = c.choice('known ' + name, ['unknown', 'true', 'false'])
                at, af = what == 'true', what == 'false'
                if at:
                    c.assume(SBool(val))
                if af:
                    c.assume(SBool(z3.Not(val)))
        elif kind == 'int':
            iv = c.int(name)
            val = num(iv)
            if flags and c.bool('known ' + name):
                value = iv
        elif kind == 'perm':
            val = z3.ToReal(num(c.int(name))) / 7
        else:
            val = num(c.int(name))
        self.env[name] = val

        class Leaf(Base):
            def translate(self, translator, ctx, position, info):
                w.c.ensure(position is w.pos and info is w.info and ctx is w.ctx and translator is w.tr,
                           'sub-nodes are translated with the translator, context, position and info given')
                return node

            def is_always_true(self):
                return at

            def is_always_false(self):
                return af

            def get_value(self):
                return value
        return Leaf(), val

    def tr_(self, label, node):
        return self.c.run(label, node.translate, self.tr, self.ctx, self.pos, self.info)

    def means(self, label, node, want, text):
        r = self.tr_(label, node)
        got = sem(r, self.env)
        self.c.ensure(SBool(got == want), label + ': ' + text)
        for n in r.walk():
            if not any(n is m for m in self.made):
                self.c.ensure(n._pos is self.pos and n._info is self.info, label + ': the node built carries the position and info given')
        at, af = getattr(node, 'is_always_true', None), getattr(node, 'is_always_false', None)
        if at is not None and bool(self.c.run(label, at)):
            self.c.ensure(SBool(want), label + ': is_always_true only of a true expression')
        if af is not None and bool(self.c.run(label, af)):
            self.c.ensure(SBool(z3.Not(want)), label + ': is_always_false only of a false expression')
        gv = getattr(node, 'get_value', None)
        if gv is not None:
            x = self.c.run(label, gv)
            if x is not None:
                self.c.ensure(SBool(num(x) == want), label + ': get_value is the value of the expression')
        return r


def AND(xs):
    return z3.And(*(list(xs) + [z3.BoolVal(True)]))


def OR(xs):
    return z3.Or(*(list(xs) + [z3.BoolVal(False)]))


def silver_nodes(rep, maxn):
    def simple(name, mod, cl, kinds, f, text, flags=True):
        def h(c):
            w = World(c)
            C = target(S + mod, cl)
            leaves = [w.leaf(n, k, flags) for n, k in zip('abcd', kinds)]
            w.means(cl, C(*[x[0] for x in leaves]), f(*[x[1] for x in leaves]), text)
        prove(rep, 'silver_nodes.' + name, h)
    T = z3.BoolVal(True)
    simple('TrueLit', 'bool_expr', 'TrueLit', [], lambda: T, 'is true')
    simple('FalseLit', 'bool_expr', 'FalseLit', [], lambda: z3.BoolVal(False), 'is false')
    simple('Not', 'bool_expr', 'Not', ['bool'], z3.Not, 'is the negation')
    simple('Implies', 'bool_expr', 'Implies', ['bool', 'bool'], z3.Implies, 'holds exactly when the implication does')
    simple('BoolCondExp', 'bool_expr', 'BoolCondExp', ['bool', 'bool', 'bool'], z3.If, 'is the branch the condition selects')
    for kk in ('int', 'perm', 'ref', 'bool'):
        simple('EqCmp', 'bool_expr', 'EqCmp', [kk, kk], lambda a, b: a == b, 'is equality')
        simple('NeCmp', 'bool_expr', 'NeCmp', [kk, kk], lambda a, b: a != b, 'is inequality')
    ops = {'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b}
    for o, f in ops.items():
        simple(o + 'Cmp', 'int_cmp_expr', o + 'Cmp', ['int', 'int'], f, 'compares left with right')
        simple('Perm%sCmp' % o, 'perm_cmp_expr', 'Perm%sCmp' % o, ['perm', 'perm'], f, 'compares left with right')
    simple('Add', 'int_expr', 'Add', ['int', 'int'], lambda a, b: a + b, 'is the sum')
    simple('Sub', 'int_expr', 'Sub', ['int', 'int'], lambda a, b: a - b, 'is the difference')
    simple('Inc', 'int_expr', 'Inc', ['int'], lambda a: a + 1, 'is one more')
    simple('CondInc', 'int_expr', 'CondInc', ['bool', 'int'], lambda b, a: z3.If(b, a + 1, a), 'is one more exactly if the condition holds')
    simple('PermSub', 'perm_expr', 'PermSub', ['perm', 'perm'], lambda a, b: a - b, 'is the difference')
    simple('NoPerm', 'perm_expr', 'NoPerm', [], lambda: z3.RealVal(0), 'is none')
    simple('FullPerm', 'perm_expr', 'FullPerm', [], lambda: z3.RealVal(1), 'is write')
    simple('IntegerPerm', 'perm_expr', 'IntegerPerm', ['int'], lambda a: z3.ToReal(a), 'is that many full permissions')
    simple('Null', 'reference_expr', 'Null', [], lambda: z3.IntVal(-1), 'is null')

    def raw(c):
        w = World(c)
        C = target(S + 'int_expr', 'RawIntExpression')
        n = c.int('n')
        w.means('RawIntExpression', C(n), num(n), 'is the integer given')
        m = c.int('m')
        e = C(n)
        lf, lv = w.leaf('a', 'int')
        form = c.choice('form', ['e+m', 'e-m', 'e+a', 'e-a', 'a+m', 'a-m', 'a+b', 'a-b'])
        lf2, lv2 = w.leaf('b', 'int')
        nn, mm = num(n), num(m)
        x, want = {'e+m': (lambda: e + m, nn + mm), 'e-m': (lambda: e - m, nn - mm), 'e+a': (lambda: e + lf, nn + lv),
                   'e-a': (lambda: e - lf, nn - lv), 'a+m': (lambda: lf + m, lv + mm), 'a-m': (lambda: lf - m, lv - mm),
                   'a+b': (lambda: lf + lf2, lv + lv2), 'a-b': (lambda: lf - lf2, lv - lv2)}[form]
        w.means('integer arithmetic', c.run(form, x), want, form + ' is the integer it says')
    prove(rep, 'silver_nodes.RawIntExpression', raw)

    def ops_(c):
        w = World(c)
        kind = c.choice('type', ['int', 'perm', 'ref', 'bool', 'int and number', 'ref and None'])
        if kind == 'int and number':
            a, av = w.leaf('a', 'int')
            b = c.int('b')
            bv = num(b)
        elif kind == 'ref and None':
            a, av = w.leaf('a', 'ref')
            b, bv = None, w.env['null']
        else:
            a, av = w.leaf('a', kind)
            b, bv = w.leaf('b', kind)
        allowed = {'int': ['==', '!=', '<', '<=', '>', '>='], 'perm': ['==', '!=', '<', '<=', '>', '>=', '-'],
                   'int and number': ['<', '<=', '>', '>=']}.get(kind, ['==', '!='])
        op = c.choice('operator', allowed)
        import operator as o
        f = {'==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge, '-': o.sub}[op]
        x = c.run('operator ' + op, f, a, b)
        w.means('operator ' + op, x, f(av, bv), 'builds the expression it says')
    prove(rep, 'silver_nodes operators', ops_)

    def many(cl, f, kind, mod, text):
        def h(c):
            w = World(c)
            C = target(S + mod, cl)
            n = c.choice('length', range(maxn + 1))
            ls = [w.leaf('x%d' % i, kind) for i in range(n)]
            lst = [x[0] for x in ls]
            w.means(cl, C(lst), f([x[1] for x in ls]), text)
            c.ensure(len(lst) == n and all(a is b[0] for a, b in zip(lst, ls)), cl + ': leaves the list given alone')
        prove(rep, 'silver_nodes.' + cl, h, bounded='at most %d elements' % maxn, budget=120)
    many('BigAnd', AND, 'bool', 'bool_expr', 'is the conjunction of all elements')
    many('BigOr', OR, 'bool', 'bool_expr', 'is the disjunction of all elements')
    many('Sum', lambda xs: z3.Sum([z3.IntVal(0)] + list(xs)), 'int', 'int_expr', 'is the sum of all elements')

    def access(c):
        w = World(c)
        L = S + 'location_expr'
        r, _ = w.leaf('r', 'ref')
        rn = w.made[-1]
        T_ = target(S + 'types', 'INT')
        which = c.choice('location', ['field', 'predicate'])
        if which == 'field':
            loc = target(L, 'FieldAccess')(r, 'f', T_)
        else:
            loc = target(L, 'PredicateAccess')('p', r)
        given = c.bool('permission given')
        acc = target(L, 'Acc')(loc, w.leaf('q', 'perm')[0]) if given else target(L, 'Acc')(loc)
        n = w.tr_('Acc', acc)
        c.ensure(type(n).__name__ == ('FieldAccessPredicate' if which == 'field' else 'PredicateAccessPredicate'), 'Acc: is access to the location')
        pm = n._v['perm']
        c.ensure(isinstance(pm, fakejvm.Some), 'Acc: states an amount')
        want = w.env['q'] if given else z3.RealVal(1)
        c.ensure(SBool(sem(pm.x, w.env) == want), 'Acc: of the permission given, or write')
        l = n._v['loc']
        if which == 'field':
            c.ensure(type(l).__name__ == 'FieldAccess' and l._v['rcv'] is rn and l._v['field']._v['name'] == 'f' and
                     l._v['field']._v['typ'] is w.viper.Int, 'Acc: to the field of the receiver given')
        else:
            c.ensure(type(l).__name__ == 'PredicateAccess' and is_seq(l._v['args'], [rn]) and l._v['predicateName'] == 'p',
                     'Acc: to the predicate of the receiver given')
        cp = w.tr_('CurrentPerm', target(S + 'perm_expr', 'CurrentPerm')(loc))
        c.ensure(type(cp).__name__ == 'CurrentPerm' and cp._v['res'] == l, 'CurrentPerm: of the location given')
        wc = w.tr_('WildcardPerm', target(S + 'perm_expr', 'WildcardPerm')())
        c.ensure(type(wc).__name__ == 'WildcardPerm', 'WildcardPerm: is a wildcard')
    prove(rep, 'silver_nodes.Acc', access)

    def ie(c):
        w = World(c)
        a, b = w.leaf('a', 'bool'), w.leaf('b', 'bool')
        n = w.tr_('InhaleExhale', target(S + 'bool_expr', 'InhaleExhale')(a[0], b[0]))
        c.ensure(type(n).__name__ == 'InhaleExhaleExp' and n._v['in_'] is w.made[0] and n._v['ex'] is w.made[1],
                 'InhaleExhale: assumes the first and checks the second')
    prove(rep, 'silver_nodes.InhaleExhale', ie)

    def forperm(c):
        w = World(c)
        b = w.leaf('b', 'bool')
        which = c.choice('target', ['field', 'predicate'])
        P = S + 'program'
        tgt = target(P, 'Field')('f', target(S + 'types', 'INT')) if which == 'field' else target(P, 'Predicate')('p', 'v')
        n = w.tr_('ForPerm', target(S + 'bool_expr', 'ForPerm')('r', tgt, b[0]))
        vs = n._v['variables'].items
        c.ensure(type(n).__name__ == 'ForPerm' and len(vs) == 1 and vs[0]._v['name'] == 'r' and vs[0]._v['typ'] is w.viper.Ref,
                 'ForPerm: quantifies over the reference given')
        c.ensure(n._v['body'] is w.made[0], 'ForPerm: has the body given')
        r = n._v['resource']
        if which == 'field':
            c.ensure(type(r).__name__ == 'FieldAccess' and r._v['rcv']._v['name'] == 'r' and r._v['field']._v['name'] == 'f',
                     'ForPerm: over the field of that reference')
        else:
            c.ensure(type(r).__name__ == 'PredicateAccess' and [x._v['name'] for x in r._v['args'].items] == ['r'] and
                     r._v['predicateName'] == 'p', 'ForPerm: over the predicate of that reference')
            d = w.tr_('Predicate', tgt)
            c.ensure(d._v['name'] == 'p' and d._v['body'] is fakejvm.NONE and [x._v['name'] for x in d._v['formalArgs'].items] == ['v'] and
                     d._v['formalArgs'].items[0]._v['typ'] is w.viper.Ref, 'Predicate: is abstract with one reference argument')
    prove(rep, 'silver_nodes.ForPerm', forperm)

    def call(c):
        w = World(c)
        n = c.choice('arguments', range(4))
        A = target(S + 'call', 'CallArg')
        which = c.choice('call', ['BoolCall', 'PermCall'])
        tps = {'BOOL': 'bool', 'INT': 'int', 'REF': 'ref'}
        args, want = [], []
        for i in range(n):
            tp = c.choice('type %d' % i, ['BOOL', 'INT', 'REF', 'PERM'])
            lf = w.leaf('a%d' % i, {'BOOL': 'bool', 'INT': 'int', 'REF': 'ref', 'PERM': 'perm'}[tp], False)
            args.append(A('p%d' % i, target(S + 'types', tp), lf[0]))
            nd = w.made[-1]
            want.append((tps[tp], nd) if tp in tps else nd)
        C = target(S + ('bool_expr' if which == 'BoolCall' else 'perm_expr'), which)
        r = w.tr_(which, C('fn', args))
        c.ensure(type(r).__name__ == 'FuncApp' and r._v['funcname'] == 'fn', which + ': calls the function given')
        got = r._v['args'].items
        c.ensure(len(got) == n and all(g is x or isinstance(x, tuple) and g == x for g, x in zip(got, want)),
                 which + ': passes all arguments in order, each converted to the type of its parameter')
        c.ensure(r.typ() is (w.viper.Bool if which == 'BoolCall' else w.viper.Perm), which + ': has the type of the function')
    prove(rep, 'silver_nodes.CallMixin', call, bounded='at most 3 arguments', limit=2000)

    def stmts(c):
        w = World(c)
        M = S + 'statement'
        b = w.leaf('b', 'bool')
        for cl in ('Inhale', 'Exhale', 'Assert'):
            n = w.tr_(cl, target(M, cl)(b[0]))
            c.ensure(type(n).__name__ == cl and n._v['exp'] is w.made[0], cl + ': of the expression given')
        var = px.Opaque('var')
        ref = Thing('ref')
        var.ref = lambda *a: ref
        n = w.tr_('Assign', target(M, 'Assign')(var, b[0]))
        c.ensure(type(n).__name__ == 'LocalVarAssign' and n._v['lhs'] is ref and n._v['rhs'] is w.made[0], 'Assign: the value to the variable')
        Base = target(S + 'base', 'Statement')

        def st(nm):
            nd = w.viper.Inhale(w.viper.LocalVar(nm, w.viper.Bool, w.pos, w.info), w.pos, w.info)

            class St(Base):
                def translate(self, *a):
                    return nd
            return St(), nd
        k1, k2 = c.choice('then statements', range(4)), c.choice('else statements', range(4))
        t1, t2 = [st('t%d' % i) for i in range(k1)], [st('e%d' % i) for i in range(k2)]
        n = w.tr_('If', target(M, 'If')(b[0], [x[0] for x in t1], [x[0] for x in t2]))

        def flat(s):
            if type(s).__name__ == 'Seqn':
                return [x for k in s._v['ss'].items for x in flat(k)]
            return [s]
        c.ensure(type(n).__name__ == 'If' and n._v['cond'] is w.made[0], 'If: tests the condition given')
        for f, tt in (('thn', t1), ('els', t2)):
            got = flat(n._v[f])
            c.ensure(len(got) == len(tt) and all(g is x[1] for g, x in zip(got, tt)), 'If: runs exactly the %s statements in order' % f)
    prove(rep, 'silver_nodes statements', stmts, bounded='at most 3 statements per branch')

    def seqs(c):
        w = World(c)
        n = c.choice('length', range(5))
        ls = [w.leaf('x%d' % i, 'ref') for i in range(n)]
        r = w.tr_('PSeq', target(S + 'types', 'PSeq')(target(S + 'types', 'REF'), [x[0] for x in ls]))
        if n:
            c.ensure(type(r).__name__ == 'ExplicitSeq' and is_seq(r._v['elems'], w.made[:n]), 'PSeq: has exactly the elements in order')
        else:
            c.ensure(type(r).__name__ == 'EmptySeq' and r._v['elemTyp'] is w.viper.Ref, 'PSeq: is the empty sequence of its type')
        ls = [w.leaf('y%d' % i, 'int') for i in range(n)]
        k = len(w.made)
        r = w.tr_('PByteSeq', target(S + 'types', 'PByteSeq')([x[0] for x in ls]))
        if n:
            c.ensure(type(r).__name__ == 'ExplicitSeq' and is_seq(r._v['elems'], w.made[k - n:k]), 'PByteSeq: has exactly the elements in order')
        else:
            c.ensure(type(r).__name__ == 'EmptySeq' and r._v['elemTyp'] is w.viper.Int, 'PByteSeq: is the empty sequence of integers')
    prove(rep, 'silver_nodes.PSeq, PByteSeq', seqs, bounded='at most 4 elements')

    def domain(c):
        w = World(c)
        TY = S + 'types'
        d = target(TY, 'Domain')('D')
        d.declare_function('fn')
        n = c.choice('arguments', range(4))
        ls = [w.leaf('x%d' % i, 'ref') for i in range(n)]
        r = w.tr_('DomainFuncApp', d.call_function('fn', [x[0] for x in ls]))
        c.ensure(type(r).__name__ == 'DomainFuncApp' and r._v['funcname'] == 'fn' and is_seq(r._v['args'], w.made[:n]),
                 'DomainFuncApp: applies the function to all arguments in order')
        c.ensure(r.typ().name_ == 'D' and r._rest[3] == 'D', 'DomainFuncApp: of the domain given')
        for nm, want in (('BOOL', w.viper.Bool), ('INT', w.viper.Int), ('REF', w.viper.Ref), ('PERM', w.viper.Perm)):
            c.ensure(target(TY, nm).translate(w.tr) is want, 'type %s: is the Viper type of that name' % nm)
        s = target(TY, 'SeqType')(target(TY, 'INT')).translate(w.tr)
        c.ensure(s.name_ == 'Seq' and s.args_ == (w.viper.Int,), 'SeqType: of the element type given')
    prove(rep, 'silver_nodes.Domain', domain, bounded='at most 3 arguments')


def utilities(rep, maxn):
    U = 'nagini_translation.lib.util'

    def join(c):
        fn = target(U, 'join_expressions')
        n = 1 + c.choice('length - 1', range(maxn))
        xs = ['x%d' % i for i in range(n)]
        calls = []

        def op(a, b):
            calls.append((a, b))
            return '(%s %s)' % (a, b)
        lst = list(xs)
        r = c.run('join_expressions', fn, op, lst)
        c.ensure(re.findall(r'x\d+', r) == xs, 'join_expressions: joins all expressions once and in order', got=r)
        c.ensure(lst == xs, 'join_expressions: leaves the list alone')
        c.ensure(len(calls) == n - 1, 'join_expressions: applies the operator between each two')
        fn3 = target(U, 'join_three_expressions')
        r3 = c.run('join_three_expressions', fn3, lambda a, b, rest: '(%s|%s %s)' % (a, b, rest), xs, ['y%d' % i for i in range(n)], 'x0')
        want = xs[-1]
        for i in range(n - 2, -1, -1):
            want = '(x%d|y%d %s)' % (i, i, want)
        c.ensure(r3 == want, 'join_three_expressions: pairs expressions with their conditions in order', got=r3)
    prove(rep, 'util.join_expressions', join, bounded='at most %d expressions' % maxn)

    def flat(c):
        fn = target(U, 'flatten')
        k = c.choice('lists', range(4))
        ls = [[Thing('%d.%d' % (i, j)) for j in range(c.choice('length %d' % i, range(3)))] for i in range(k)]
        r = c.run('flatten', fn, ls)
        want = [x for l in ls for x in l]
        c.ensure(len(r) == len(want) and all(a is b for a, b in zip(r, want)), 'flatten: all elements in order')
        c.ensure(all(r is not l for l in ls), 'flatten: gives a new list')
    prove(rep, 'util.flatten', flat, bounded='at most 3 lists of at most 2 elements')

    def fdict(c):
        fn = target(U, 'flatten_dict')
        k = c.choice('dicts', range(3))
        ds = []
        for i in range(k):
            d = {}
            for key in 'ab':
                n = c.choice('%s in %d' % (key, i), [None, 0, 1, 2])
                if n is not None:
                    d[key] = [Thing('%s%d.%d' % (key, i, j)) for j in range(n)]
            ds.append(d)
        defaults = c.choice('defaults', [None, [], ['a'], ['c']])
        saved = [{x: list(y) for x, y in d.items()} for d in ds]
        r = c.run('flatten_dict', fn, ds) if defaults is None else c.run('flatten_dict', fn, ds, defaults)
        keys = {x for d in saved for x in d} | set(defaults or [])
        c.ensure(set(r) == keys, 'flatten_dict: has exactly the keys of the dicts and the defaults')
        for key in sorted(keys):
            want = [x for d in saved for x in d.get(key, [])]
            c.ensure(len(r[key]) == len(want) and all(a is b for a, b in zip(r[key], want)), 'flatten_dict: all elements of a key in order')
        c.ensure(all({x: [id(z) for z in y] for x, y in d.items()} == {x: [id(z) for z in y] for x, y in s.items()} for d, s in zip(ds, saved)),
                 'flatten_dict: leaves the dicts given alone')
    prove(rep, 'util.flatten_dict', fdict, bounded='at most 2 dicts with 2 keys')


def run(rep, thorough):
    constructors(rep)
    special_nodes(rep)
    conversions(rep)
    silver_nodes(rep, 5 if thorough else 4)
    utilities(rep, 8 if thorough else 5)
