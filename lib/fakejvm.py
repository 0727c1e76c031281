"""A recording stand-in for the JVM objects Nagini talks to.

The Viper back end (viperserver.jar) is not available, so the real translator
is run against this recorder: every Silver AST constructor call made by
/repo/src/nagini_translation/lib/viper_ast.py produces a plain Python `Node`.
Nothing of Nagini is replaced; only the Java side is.

Trusted: the constructor signatures and accessor names in SIG (Silver's own
case classes), and the typ() rules.
"""
import sys

# constructor parameter names (without trailing pos, info, errT), base classes
SIG = {
    'Program': ('domains fields functions predicates methods extensions', 'Node'),
    'Function': ('name formalArgs typ pres posts body', 'Member'),
    'Method': ('name formalArgs formalReturns pres posts body', 'Member'),
    'Field': ('name typ', 'Member'),
    'Predicate': ('name formalArgs body', 'Member'),
    'Domain': ('name functions axioms typVars interpretations', 'Member'),
    'DomainFunc': ('name formalArgs typ unique interpretation', 'Member'),
    'NamedDomainAxiom': ('name exp', 'Member'),
    'AnonymousDomainAxiom': ('exp', 'Member'),
    'LocalVarDecl': ('name typ', 'Node'),
    'UnnamedLocalVarDecl': ('typ', 'Node'),
    'Trigger': ('exps', 'Node'),
    # statements
    'MethodCall': ('methodName args targets', 'Stmt'),
    'NewStmt': ('lhs fields', 'Stmt'),
    'Label': ('name invs', 'Stmt'),
    'Goto': ('target', 'Stmt'),
    'Seqn': ('ss scopedSeqnDeclarations', 'Stmt'),
    'LocalVarAssign': ('lhs rhs', 'Stmt'),
    'FieldAssign': ('lhs rhs', 'Stmt'),
    'Fold': ('acc', 'Stmt'),
    'Unfold': ('acc', 'Stmt'),
    'Inhale': ('exp', 'Stmt'),
    'Exhale': ('exp', 'Stmt'),
    'Assert': ('exp', 'Stmt'),
    'Assume': ('exp', 'Stmt'),
    'Refute': ('exp', 'Stmt'),
    'If': ('cond thn els', 'Stmt'),
    'While': ('cond invs body', 'Stmt'),
    # expressions
    'PredicateAccess': ('args predicateName', 'LocationAccess'),
    'FieldAccess': ('rcv field', 'LocationAccess'),
    'PredicateAccessPredicate': ('loc perm', 'AccessPredicate'),
    'FieldAccessPredicate': ('loc perm', 'AccessPredicate'),
    'Unfolding': ('acc body', 'Exp'),
    'Asserting': ('a body', 'Exp'),
    'DomainFuncApp': ('funcname args typVarMap', 'Exp'),
    'FuncApp': ('funcname args', 'Exp'),
    'Old': ('exp', 'Exp'),
    'LabelledOld': ('exp oldLabel', 'Exp'),
    'InhaleExhaleExp': ('in_ ex', 'Exp'),
    'FullPerm': ('', 'PermExp'), 'NoPerm': ('', 'PermExp'),
    'WildcardPerm': ('', 'PermExp'), 'EpsilonPerm': ('', 'PermExp'),
    'FractionalPerm': ('left right', 'PermExp'),
    'CurrentPerm': ('res', 'PermExp'),
    'PermMinus': ('exp', 'PermExp'),
    'PermAdd': ('left right', 'PermExp'), 'PermSub': ('left right', 'PermExp'),
    'PermMul': ('left right', 'PermExp'), 'IntPermMul': ('left right', 'PermExp'),
    'PermDiv': ('left right', 'PermExp'), 'PermPermDiv': ('left right', 'PermExp'),
    'PermLtCmp': ('left right', 'BoolBin'), 'PermLeCmp': ('left right', 'BoolBin'),
    'PermGtCmp': ('left right', 'BoolBin'), 'PermGeCmp': ('left right', 'BoolBin'),
    'ForPerm': ('variables resource body', 'Exp'),
    'Not': ('exp', 'Exp'), 'Minus': ('exp', 'Exp'),
    'CondExp': ('cond thn els', 'Exp'),
    'EqCmp': ('left right', 'BoolBin'), 'NeCmp': ('left right', 'BoolBin'),
    'GtCmp': ('left right', 'BoolBin'), 'GeCmp': ('left right', 'BoolBin'),
    'LtCmp': ('left right', 'BoolBin'), 'LeCmp': ('left right', 'BoolBin'),
    'And': ('left right', 'BoolBin'), 'Or': ('left right', 'BoolBin'),
    'Implies': ('left right', 'BoolBin'),
    'IntLit': ('i', 'Exp'), 'TrueLit': ('', 'Exp'), 'FalseLit': ('', 'Exp'),
    'NullLit': ('', 'Exp'),
    'LocalVar': ('name typ', 'LocalVarBase'), 'Result': ('typ', 'Exp'),
    'ExplicitSeq': ('elems', 'Exp'), 'ExplicitSet': ('elems', 'Exp'),
    'ExplicitMultiset': ('elems', 'Exp'),
    'EmptySeq': ('elemTyp', 'Exp'), 'EmptySet': ('elemTyp', 'Exp'),
    'EmptyMultiset': ('elemTyp', 'Exp'),
    'AnySetContains': ('elem s', 'Exp'), 'AnySetUnion': ('left right', 'Exp'),
    'AnySetIntersection': ('left right', 'Exp'), 'AnySetMinus': ('left right', 'Exp'),
    'AnySetSubset': ('left right', 'BoolBin'), 'AnySetCardinality': ('s', 'Exp'),
    'MapContains': ('key base', 'Exp'), 'MapLookup': ('base key', 'Exp'),
    'MapUpdate': ('base key value', 'Exp'), 'MapDomain': ('base', 'Exp'),
    'MapRange': ('base', 'Exp'), 'MapCardinality': ('base', 'Exp'),
    'EmptyMap': ('keyType valueType', 'Exp'), 'ExplicitMap': ('elems', 'Exp'),
    'Maplet': ('key value', 'Exp'),
    'SeqAppend': ('left right', 'Exp'), 'SeqContains': ('elem s', 'Exp'),
    'SeqLength': ('s', 'Exp'), 'SeqIndex': ('s idx', 'Exp'),
    'SeqTake': ('s n', 'Exp'), 'SeqDrop': ('s n', 'Exp'),
    'SeqUpdate': ('s idx elem', 'Exp'),
    'RangeSeq': ('low high', 'Exp'),
    'Add': ('left right', 'Exp'), 'Sub': ('left right', 'Exp'),
    'Mul': ('left right', 'Exp'), 'Div': ('left right', 'Exp'),
    'Mod': ('left right', 'Exp'),
    'Forall': ('variables triggers exp', 'Exp'),
    'Exists': ('variables triggers exp', 'Exp'),
    'Let': ('variable exp body', 'Exp'),
    'ApplyExp': ('exp body', 'Exp'),
    # plugins
    'DecreasesTuple': ('tupleExpressions condition', 'Exp'),
    'DecreasesWildcard': ('condition', 'Exp'),
    'DecreasesStar': ('', 'Exp'),
    'PredicateInstance': ('p args', 'Exp'),
    # SIF extension nodes
    'SIFLowExp': ('exp comparator typVarMap', 'Exp'),
    'SIFLowEventExp': ('', 'Exp'),
    'SIFRelExp': ('exp i', 'Exp'),
    'SIFDeclassifyStmt': ('exp', 'Stmt'),
    'SIFReturnStmt': ('exp resVar', 'Stmt'),
    'SIFBreakStmt': ('', 'Stmt'),
    'SIFContinueStmt': ('', 'Stmt'),
    'SIFRaiseStmt': ('assignment', 'Stmt'),
    'SIFExceptionHandler': ('errVar exception body', 'Node'),
    'SIFTryCatchStmt': ('body catchBlocks elseBlock finallyBlock', 'Stmt'),
    'SIFTerminatesExp': ('cond', 'Exp'),
    'SIFInlinedCallStmt': ('stmts', 'Stmt'),
    'SIFAssertNoException': ('', 'Stmt'),
}
BASES = {
    'Member': 'Node', 'Stmt': 'Node', 'Exp': 'Node', 'LocationAccess': 'Exp',
    'AccessPredicate': 'Exp', 'PermExp': 'Exp', 'BoolBin': 'Exp',
    'LocalVarBase': 'Exp',
}
CLASSES = {}


class ScalaList:
    """Scala Seq / List / ArraySeq / ListBuffer."""
    def __init__(self, items=()):
        self.items = list(items)

    def update(self, i, v):
        while len(self.items) <= i:
            self.items.append(None)
        self.items[i] = v

    def append(self, other):
        self.items.extend(other.items)

    def toList(self):
        return self

    toSeq = toIndexedSeq = toList

    def toIterator(self):
        return ScalaIter(self.items)

    iterator = toIterator

    def toSet(self):
        return self

    def add(self, x):
        self.items.append(x)

    def head(self):
        return self.items[0]

    def tail(self):
        return ScalaList(self.items[1:])

    def apply(self, i):
        return self.items[i]

    def size(self):
        return len(self.items)

    length = size

    def nonEmpty(self):
        return bool(self.items)

    def isEmpty(self):
        return not self.items

    def contains(self, x):
        return x in self.items

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __eq__(self, o):
        return isinstance(o, ScalaList) and self.items == o.items

    def __hash__(self):
        return hash(tuple(self.items))

    def __repr__(self):
        return '[' + ', '.join(map(str, self.items)) + ']'


class ScalaIter:
    def __init__(self, items):
        self.items, self.i = list(items), 0

    def hasNext(self):
        return self.i < len(self.items)

    def next(self):
        self.i += 1
        return self.items[self.i - 1]


class ScalaMap:
    def __init__(self, d=None):
        self.d = dict(d or {})

    def updated(self, k, v):
        d = dict(self.d)
        d[k] = v
        return ScalaMap(d)

    def contains(self, k):
        return k in self.d

    def get(self, k):
        return Some(self.d[k]) if k in self.d else NONE

    def items(self):
        return self.d.items()

    def __eq__(self, o):
        return isinstance(o, ScalaMap) and self.d == o.d

    def __hash__(self):
        return 1

    def __repr__(self):
        return repr(self.d)


class Some:
    def __init__(self, x):
        self.x = x

    def get(self):
        return self.x

    def isDefined(self):
        return True

    def isEmpty(self):
        return False

    def __eq__(self, o):
        return isinstance(o, Some) and self.x == o.x

    def __hash__(self):
        return 2

    def __repr__(self):
        return 'Some(%s)' % (self.x,)


class _None:
    def isDefined(self):
        return False

    def isEmpty(self):
        return True

    def get(self):
        raise Exception('None.get')

    def __repr__(self):
        return 'None'


NONE = _None()


class BigInteger:
    def __init__(self, s):
        self.v = int(s)

    def negate(self):
        return BigInteger(-self.v)


class BigInt(int):
    def __new__(cls, b):
        return int.__new__(cls, b.v if isinstance(b, BigInteger) else b)


class Node:
    FIELDS = ()

    def __init__(self, *args):
        n = len(self.FIELDS)
        self._v = {}
        for f, a in zip(self.FIELDS, args):
            self._v[f] = a
        if len(args) < n:
            raise TypeError('%s expects %s, got %d args' % (type(self).__name__, self.FIELDS, len(args)))
        self._rest = args[n:]
        if len(args) == n:
            self._rest = (NoPosition, NoInfo, NoTrafos)
        self._pos = self._rest[0]
        self._info = self._rest[1] if len(self._rest) > 1 else None
        self._extra = self._rest[2:]

    def pos(self):
        return self._pos

    def info(self):
        return self._info

    def errT(self):
        return NoTrafos

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = self.__dict__.get('_v')
        if v is not None and name in v:
            val = v[name]
            return lambda: val
        raise AttributeError('%s has no accessor %s' % (type(self).__name__, name))

    def f(self, name):
        return self._v[name]

    def kids(self):
        return [self._v[f] for f in self.FIELDS]

    # Silver case-class equality: structural, ignoring pos/info
    def __eq__(self, o):
        return type(self) is type(o) and self._v == o._v and self._typ_extra() == o._typ_extra()

    def _typ_extra(self):
        return None

    def __hash__(self):
        return hash(type(self).__name__)

    def subnodes(self):
        out = []
        for k in self.kids():
            if isinstance(k, Node):
                out.append(k)
            elif isinstance(k, ScalaList):
                out += [x for x in k.items if isinstance(x, Node)]
            elif isinstance(k, Some) and isinstance(k.x, Node):
                out.append(k.x)
        return ScalaList(out)

    def replace(self, old, new):
        """Replaces all occurrences of a node (Silver's Exp.replace)."""
        if self == old:
            return new

        def r(k):
            if isinstance(k, Node):
                return k.replace(old, new)
            if isinstance(k, ScalaList):
                return ScalaList([r(x) for x in k.items])
            if isinstance(k, Some):
                return Some(r(k.x))
            return k
        out = type(self)(*[r(k) for k in self.kids()], *self._rest)
        return out

    def walk(self):
        yield self
        for s in self.subnodes().items:
            yield from s.walk()

    def isPure(self):
        k = type(self).__name__
        if isinstance(self, cls('AccessPredicate')) or k == 'MagicWand':
            return False
        if k in ('Unfolding', 'Applying', 'Asserting', 'Let'):
            return self._v['body'].isPure()
        if k in ('FuncApp', 'DomainFuncApp') or isinstance(self, cls('LocationAccess')):
            return True
        return all(x.isPure() for x in self.kids() if isinstance(x, cls('Exp')))

    def __repr__(self):
        try:
            return pp(self)
        except Exception as e:      # printing must never break a run
            return '%s(%s)' % (type(self).__name__, ', '.join(str(k) for k in self.kids()))

    __str__ = __repr__

    def toString(self):
        return repr(self)

    def typ(self):
        v = self._v
        if 'typ' in v:
            return v['typ']
        return _typ(self)

    def localVar(self):
        return cls('LocalVar')(self._v['name'], self._v['typ'], self._pos, self._info, NoTrafos)

    def name(self):
        return self._v['name']

    def getClass(self):
        return JClassObj(type(self))

    def whenExhaling(self):
        C = cls
        if isinstance(self, C('InhaleExhaleExp')):
            return self._v['ex'].whenExhaling()
        if isinstance(self, (C('And'), C('Implies'))):
            return type(self)(self._v['left'].whenExhaling(), self._v['right'].whenExhaling(), *self._rest)
        return self

    def checkTransitively(self):
        return ScalaList()


class JClassObj:
    def __init__(self, c):
        self.c = c

    def getSimpleName(self):
        return self.c.__name__


class Type:
    def __init__(self, name, *args):
        self.name_, self.args_ = name, args

    def isSubtype(self, o):
        return self == o

    def __eq__(self, o):
        return isinstance(o, Type) and (self.name_, self.args_) == (o.name_, o.args_)

    def __hash__(self):
        return hash(self.name_)

    def name(self):
        return self.name_

    def domainName(self):
        return self.name_

    def __repr__(self):
        if self.args_ and self.name_ in ('Seq', 'Set', 'Multiset', 'Map'):
            return '%s[%s]' % (self.name_, ','.join(map(str, self.args_)))
        return self.name_

    toString = __repr__


INT, BOOL, REF, PERM = Type('Int'), Type('Bool'), Type('Ref'), Type('Perm')
WAND = Type('Wand')


class Marker:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<no position>' if self.n == 'NoPosition' else self.n

    toString = __repr__

    def getClass(self):
        return JClassObj(type(self.n, (), {}))


NoPosition, NoInfo, NoTrafos = Marker('NoPosition'), Marker('NoInfo'), Marker('NoTrafos')


def cls(name):
    if name not in CLASSES:
        if name in SIG:
            fields, base = SIG[name]
            CLASSES[name] = type(name, (cls(base),), {'FIELDS': tuple(fields.split())})
        elif name in BASES:
            CLASSES[name] = type(name, (cls(BASES[name]),), {})
        elif name == 'Node':
            CLASSES[name] = Node
        else:
            raise AttributeError('unknown Silver class ' + name)
    return CLASSES[name]


def _typ(n):
    k = type(n).__name__
    v = n._v
    if k == 'AnySetContains' and v['s'].typ().name_ == 'Multiset':
        return INT
    if isinstance(n, cls('BoolBin')) or k in ('Not', 'TrueLit', 'FalseLit', 'Forall', 'Exists',
                                              'ForPerm', 'AnySetContains', 'SeqContains',
                                              'MapContains', 'InhaleExhaleExp', 'SIFLowExp',
                                              'SIFLowEventExp', 'SIFTerminatesExp',
                                              'DecreasesTuple', 'DecreasesWildcard', 'DecreasesStar') \
            or isinstance(n, cls('AccessPredicate')):
        return BOOL
    if k in ('IntLit', 'Add', 'Sub', 'Mul', 'Div', 'Mod', 'Minus', 'SeqLength', 'AnySetCardinality',
             'MapCardinality'):
        return INT
    if isinstance(n, cls('PermExp')):
        return PERM
    if k == 'NullLit':
        return REF
    if k == 'FieldAccess':
        return v['field'].f('typ')
    if k in ('FuncApp',):
        return n._rest[2]
    if k == 'DomainFuncApp':
        return n._rest[2]
    if k in ('CondExp',):
        return v['thn'].typ()
    if k in ('Let', 'Unfolding', 'Asserting'):
        return v['body'].typ()
    if k in ('Old', 'LabelledOld', 'SIFRelExp'):
        return v['exp'].typ()
    if k == 'ExplicitSeq':
        return Type('Seq', v['elems'].items[0].typ())
    if k == 'ExplicitSet':
        return Type('Set', v['elems'].items[0].typ())
    if k == 'ExplicitMultiset':
        return Type('Multiset', v['elems'].items[0].typ())
    if k == 'EmptySeq':
        return Type('Seq', v['elemTyp'])
    if k == 'EmptySet':
        return Type('Set', v['elemTyp'])
    if k == 'EmptyMultiset':
        return Type('Multiset', v['elemTyp'])
    if k in ('SeqAppend', 'AnySetUnion', 'AnySetIntersection', 'AnySetMinus'):
        return v['left'].typ()
    if k in ('SeqTake', 'SeqDrop', 'SeqUpdate'):
        return v['s'].typ()
    if k == 'RangeSeq':
        return Type('Seq', INT)
    if k == 'SeqIndex':
        return v['s'].typ().args_[0]
    if k == 'MapLookup':
        return v['base'].typ().args_[1]
    if k in ('MapUpdate',):
        return v['base'].typ()
    if k in ('MapDomain',):
        return Type('Set', v['base'].typ().args_[0])
    if k in ('MapRange',):
        return Type('Set', v['base'].typ().args_[1])
    if k == 'EmptyMap':
        return Type('Map', v['keyType'], v['valueType'])
    if k == 'PredicateInstance':
        return Type('PredicateInstance')
    raise AttributeError('no typ for ' + k)


BINOP = {'EqCmp': '==', 'NeCmp': '!=', 'GtCmp': '>', 'GeCmp': '>=', 'LtCmp': '<', 'LeCmp': '<=',
         'And': '&&', 'Or': '||', 'Implies': '==>', 'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '\\',
         'Mod': '%', 'PermLtCmp': '<', 'PermLeCmp': '<=', 'PermGtCmp': '>', 'PermGeCmp': '>=',
         'PermAdd': '+', 'PermSub': '-', 'PermMul': '*', 'IntPermMul': '*', 'PermDiv': '/',
         'FractionalPerm': '/', 'SeqAppend': '++', 'AnySetUnion': 'union',
         'AnySetIntersection': 'intersection', 'AnySetMinus': 'setminus', 'AnySetSubset': 'subset'}


def pp(n):
    k = type(n).__name__
    v = n._v

    def L(f):
        x = v[f]
        return ', '.join(str(e) for e in x.items)
    if k in BINOP:
        return '(%s %s %s)' % (v['left'], BINOP[k], v['right'])
    if k in ('FuncApp', 'DomainFuncApp'):
        return '%s(%s)' % (v['funcname'], L('args'))
    if k == 'LocalVar':
        return v['name']
    if k == 'LocalVarDecl':
        return '%s: %s' % (v['name'], v['typ'])
    if k == 'IntLit':
        return str(int(v['i']))
    if k == 'TrueLit':
        return 'true'
    if k == 'FalseLit':
        return 'false'
    if k == 'NullLit':
        return 'null'
    if k == 'Result':
        return 'result'
    if k == 'Not':
        return '!(%s)' % v['exp']
    if k == 'Minus':
        return '-(%s)' % v['exp']
    if k == 'CondExp':
        return '(%s ? %s : %s)' % (v['cond'], v['thn'], v['els'])
    if k == 'FieldAccess':
        return '%s.%s' % (v['rcv'], v['field'].f('name'))
    if k == 'PredicateAccess':
        return '%s(%s)' % (v['predicateName'], L('args'))
    if k.endswith('AccessPredicate'):
        p = v['perm']
        return 'acc(%s, %s)' % (v['loc'], p.x if isinstance(p, Some) else p)
    if k == 'Old':
        return 'old(%s)' % v['exp']
    if k == 'LabelledOld':
        return 'old[%s](%s)' % (v['oldLabel'], v['exp'])
    if k in ('Forall', 'Exists'):
        return '(%s %s :: %s)' % (k.lower(), L('variables'), v['exp'])
    if k == 'Let':
        return '(let %s == (%s) in %s)' % (v['variable'].f('name'), v['exp'], v['body'])
    if k == 'SeqLength':
        return '|%s|' % v['s']
    if k == 'AnySetCardinality':
        return '|%s|' % v['s']
    if k == 'SeqIndex':
        return '%s[%s]' % (v['s'], v['idx'])
    if k == 'SeqTake':
        return '%s[..%s]' % (v['s'], v['n'])
    if k == 'SeqDrop':
        return '%s[%s..]' % (v['s'], v['n'])
    if k in ('SeqContains', 'AnySetContains'):
        return '(%s in %s)' % (v['elem'], v['s'])
    if k in ('ExplicitSeq', 'ExplicitSet', 'ExplicitMultiset'):
        return '%s(%s)' % (k[8:], L('elems'))
    if k in ('EmptySeq', 'EmptySet', 'EmptyMultiset'):
        return '%s[%s]()' % (k[5:], v['elemTyp'])
    if k in ('FullPerm', 'NoPerm', 'WildcardPerm'):
        return {'FullPerm': 'write', 'NoPerm': 'none', 'WildcardPerm': 'wildcard'}[k]
    if k == 'CurrentPerm':
        return 'perm(%s)' % v['res']
    if k == 'Unfolding':
        return '(unfolding %s in %s)' % (v['acc'], v['body'])
    if k == 'Asserting':
        return '(asserting (%s) in %s)' % (v['a'], v['body'])
    if k == 'InhaleExhaleExp':
        return '[%s, %s]' % (v['in_'], v['ex'])
    if k == 'ForPerm':
        return '(forperm %s [%s] :: %s)' % (L('variables'), v['resource'], v['body'])
    # statements
    if k in ('LocalVarAssign', 'FieldAssign'):
        return '%s := %s' % (v['lhs'], v['rhs'])
    if k in ('Inhale', 'Exhale', 'Assert', 'Assume', 'Refute'):
        return '%s %s' % (k.lower(), v['exp'])
    if k in ('Fold', 'Unfold'):
        return '%s %s' % (k.lower(), v['acc'])
    if k == 'MethodCall':
        t = L('targets')
        return '%s%s(%s)' % (t + ' := ' if t else '', v['methodName'], L('args'))
    if k == 'NewStmt':
        return '%s := new(%s)' % (v['lhs'], ', '.join(f.f('name') for f in v['fields'].items))
    if k == 'Label':
        return 'label %s' % v['name']
    if k == 'Goto':
        return 'goto %s' % v['target']
    if k == 'Seqn':
        ds = ''.join('  var %s\n' % d for d in v['scopedSeqnDeclarations'].items if isinstance(d, cls('LocalVarDecl')))
        return '{\n' + ds + '\n'.join('  ' + l for s in v['ss'].items for l in str(s).split('\n')) + '\n}'
    if k == 'If':
        return 'if (%s) %s else %s' % (v['cond'], v['thn'], v['els'])
    if k == 'While':
        return 'while (%s)\n%s%s' % (v['cond'], ''.join('  invariant %s\n' % i for i in v['invs'].items), v['body'])
    if k in ('Function', 'Method'):
        r = ': %s' % v['typ'] if k == 'Function' else ' returns (%s)' % L('formalReturns')
        b = v['body']
        return '%s %s(%s)%s\n%s%s%s' % (
            k.lower(), v['name'], L('formalArgs'), r,
            ''.join('  requires %s\n' % p for p in v['pres'].items),
            ''.join('  ensures %s\n' % p for p in v['posts'].items),
            ('{ %s }' % b.x if k == 'Function' else str(b.x)) if isinstance(b, Some) else '')
    if k == 'Program':
        return '\n\n'.join(str(x) for f in n.FIELDS for x in v[f].items)
    if k == 'Domain':
        return 'domain %s {\n%s\n}' % (v['name'], '\n'.join('  ' + str(x) for x in v['functions'].items + v['axioms'].items))
    if k == 'DomainFunc':
        return '%sfunction %s(%s): %s' % ('unique ' if v['unique'] else '', v['name'], L('formalArgs'), v['typ'])
    if k == 'NamedDomainAxiom':
        return 'axiom %s { %s }' % (v['name'], v['exp'])
    if k == 'Field':
        return 'field %s: %s' % (v['name'], v['typ'])
    if k == 'Predicate':
        b = v['body']
        return 'predicate %s(%s)%s' % (v['name'], L('formalArgs'), ' { %s }' % b.x if isinstance(b, Some) else '')
    return '%s(%s)' % (k, ', '.join(str(x) for x in n.kids()))


class Path:
    def __init__(self, p):
        self.p = p

    def toString(self):
        return self.p

    __str__ = __repr__ = toString

    def getFileName(self):
        return Path(self.p.rsplit('/', 1)[-1])


class LineColumnPosition:
    def __init__(self, l, c):
        self.l, self.c = l, c

    def line(self):
        return self.l

    def column(self):
        return self.c

    def __eq__(self, o):
        return isinstance(o, LineColumnPosition) and (self.l, self.c) == (o.l, o.c)

    def __hash__(self):
        return hash((self.l, self.c))


class IdentifierPosition:
    def __init__(self, file, start, end, id):
        self._f, self._s, self._e, self._id = file, start, end, id

    def file(self):
        return self._f

    def start(self):
        return self._s

    def end(self):
        return self._e

    def id(self):
        return self._id

    def line(self):
        return self._s.line()

    def column(self):
        return self._s.column()

    def toString(self):
        return '%s@%d.%d' % (str(self._f).rsplit('/', 1)[-1], self.line(), self.column())

    __str__ = __repr__ = toString

    def __eq__(self, o):
        return isinstance(o, IdentifierPosition) and self._id == o._id and self._s == o._s

    def __hash__(self):
        return hash(self._id)


class SimpleInfo:
    def __init__(self, comments):
        self._c = comments

    def comment(self):
        return self._c

    def getClass(self):
        return JClassObj(SimpleInfo)


class ConsInfo:
    def __init__(self, head, tail):
        self._h, self._t = head, tail

    def head(self):
        return self._h

    def tail(self):
        return self._t

    def getClass(self):
        return JClassObj(ConsInfo)


class AnnotationInfo:
    def __init__(self, m):
        self._m = m

    def values(self):
        return self._m

    def getClass(self):
        return JClassObj(AnnotationInfo)


class _HLC(type):
    def __instancecheck__(c, o):
        return isinstance(o, (IdentifierPosition, LineColumnPosition))


class HasLineColumn(metaclass=_HLC):
    pass


SINGLETONS = {'NoPosition': NoPosition, 'NoInfo': NoInfo, 'NoTrafos': NoTrafos,
              'Int': INT, 'Bool': BOOL, 'Ref': REF, 'Perm': PERM, 'Wand': WAND, 'None': NONE}


class Companion:
    def __init__(self, name):
        self.name = name

    def apply(self, *a):
        return cls(self.name)(*a)


class Chopper:
    """Viper's PluginAwareChopper: records the selection, removes nothing."""
    last = None
    full = None

    @staticmethod
    def chop(prog, names):
        Chopper.full = prog
        Chopper.last = set(names.items)
        return Some(prog) if names.items else NONE


class QPs:
    @staticmethod
    def desugarSourceQuantifiedPermissionSyntax(forall):
        return ScalaList([forall])


class Anything:
    """Records nothing, returns itself: for configuration objects of the JVM."""
    def __init__(self, name=''):
        self._n = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Anything(self._n + '.' + n)

    def __call__(self, *a):
        return Anything(self._n + '()')

    def __repr__(self):
        return self._n


class FastParser:
    """Viper's parser, replaced by silparse on exactly the text it is given."""
    last = None

    def parse(self, text, path, plugins, loader, expand):
        import silparse
        FastParser.last = silparse.load_text(str(path), text)
        return FastParser.last

    def __call__(self):
        return self


class ParserResolver:
    def __init__(self, parsed):
        self.parsed = parsed

    def run(self, _):
        return Some(self.parsed)


class ParserTranslator:
    @staticmethod
    def apply(resolved):
        class T:
            def translate(self):
                return Some(resolved.program)
        return T()


def singleton(full):
    name = full.rsplit('.', 1)[-1]
    if full == 'viper.silver.parser.Translator':
        return ParserTranslator
    if name in SINGLETONS:
        return SINGLETONS[name]
    if name == 'PluginAwareChopper':
        return Chopper
    if name == 'QuantifiedPermissions':
        return QPs
    if name in SIG:
        return Companion(name)
    return Anything(full + '$')


class ArraySeqFactory:
    def __call__(self, n):
        return ScalaList([None] * n)

    @staticmethod
    def make(arr):
        return ScalaList(arr)


SPECIAL = {
    'viper.silver.parser.FastParser': FastParser,
    'viper.silver.parser.Resolver': ParserResolver,
    'scala.Some': Some,
    'scala.collection.mutable.ListBuffer': lambda: ScalaList(),
    'scala.collection.mutable.ArraySeq': ArraySeqFactory(),
    'scala.collection.mutable.HashSet': lambda: ScalaList(),
    'scala.collection.immutable.HashMap': lambda: ScalaMap(),
    'scala.math.BigInt': BigInt,
    'java.math.BigInteger': BigInteger,
    'viper.silver.ast.LineColumnPosition': LineColumnPosition,
    'viper.silver.ast.IdentifierPosition': IdentifierPosition,
    'viper.silver.ast.SimpleInfo': SimpleInfo,
    'viper.silver.ast.ConsInfo': ConsInfo,
    'viper.silver.ast.AnnotationInfo': AnnotationInfo,
    'viper.silver.ast.HasLineColumn': HasLineColumn,
    'viper.silver.ast.SeqType': lambda t: Type('Seq', t),
    'viper.silver.ast.SetType': lambda t: Type('Set', t),
    'viper.silver.ast.MultisetType': lambda t: Type('Multiset', t),
    'viper.silver.ast.MapType': lambda k, v: Type('Map', k, v),
    'viper.silver.ast.TypeVar': lambda n: Type(n),
    'viper.silver.ast.DomainType': lambda name, m, tv: Type(name, *([tuple(m.items())] if m.d else [])),
}


class _Paths:
    @staticmethod
    def get(p, rest):
        return Path(p)


class _Loaded:
    """java.lang.Class.forName(full): static access and instantiation."""
    def __init__(self, full):
        self.full = full

    def getDeclaredField(self, n):
        full = self.full

        class F:
            def get(self, o):
                return singleton(full[:-1])
        return F()

    def __call__(self, *a):
        return resolve(self.full)(*a)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(resolve(self.full), n)


class _Class:
    @staticmethod
    def forName(full):
        return _Loaded(full)


class JpypeStandIn:
    @staticmethod
    def JClass(x):
        return resolve(x.full) if isinstance(x, _Loaded) else x

    def __getattr__(self, n):
        import jpype
        return getattr(jpype, n)


def resolve(full):
    if full in SPECIAL:
        return SPECIAL[full]
    n = full.rsplit('.', 1)[-1]
    if n in SIG or n in BASES or n == 'Node':
        return cls(n)
    return Anything(full)


def install():
    """Route nagini's class loading to the recorder (jvmaccess only)."""
    from nagini_translation.lib import jvmaccess
    jvmaccess.jpype = JpypeStandIn()
    return FakeJVM()


class Package:
    def __init__(self, name):
        self.__dict__['_name'] = name

    def __str__(self):
        return self._name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        full = self._name + '.' + n
        if full in SPECIAL:
            return SPECIAL[full]
        if full == 'java.nio.file.Paths':
            return _Paths
        if full == 'java.lang.Class':
            return _Class
        if n in SIG or n in BASES or n == 'Node':
            return cls(n)
        if n[0].isupper():
            return Anything(full)
        return Package(full)

    def __call__(self, *a):
        return Anything(self._name + '()')


class FakeJVM:
    def __init__(self):
        self.java = Package('java')
        self.scala = Package('scala')
        self.viper = Package('viper')
        self.fastparse = Package('fastparse')

    def get_proxy(self, supertype, instance):
        return instance

    def get_array(self, t, n):
        return [None] * n

    def is_known_class(self, pkg, name):
        return True
