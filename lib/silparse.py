"""Parser for the Viper/Silver subset used by Nagini's resource files.

Parses /repo/src/nagini_translation/resources/all.sil and everything it
imports, on every run, into fakejvm Nodes. Nothing is dropped except
triggers' effect (kept as nodes) and `import <...>` of Viper's own library.
"""
import os
import re
import fakejvm as J
from fakejvm import ScalaList as L, cls, Type, INT, BOOL, REF, PERM, NoPosition, NoInfo, NoTrafos, NONE, Some

TOK = re.compile(r'''
   (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 | (?P<str>"[^"]*")
 | (?P<num>\d+)
 | (?P<id>[A-Za-z_$][A-Za-z0-9_$']*)
 | (?P<op><==>|==>|:=|::|==|!=|<=|>=|&&|\|\||\+\+|\.\.|[-+*/\\%<>!?:.,;(){}\[\]|@=])
''', re.X | re.S)


class SilError(Exception):
    pass


def lex(text, fname):
    out, i, line = [], 0, 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SilError('%s:%d: cannot lex %r' % (fname, line, text[i:i + 20]))
        if m.lastgroup != 'ws':
            out.append((m.lastgroup, m.group(), line, fname))
        line += m.group().count('\n')
        i = m.end()
    return out


class Parser:
    def __init__(self):
        self.defines = {}
        self.decls = []         # (kind, ...)
        self.seen = set()

    # -- files
    def load(self, path, text=None, subst=None):
        path = os.path.abspath(path)
        if path in self.seen:
            return
        self.seen.add(path)
        if text is None:
            with open(path) as f:
                text = f.read()
        toks = lex(text, path)
        # macros first (their use may precede)
        i, rest = 0, []
        while i < len(toks):
            if toks[i][1] == 'define' and toks[i][0] == 'id':
                name = toks[i + 1][1]
                j, depth = i + 2, 0
                while True:
                    if toks[j][1] == '(':
                        depth += 1
                    if toks[j][1] == ')':
                        depth -= 1
                    j += 1
                    if depth == 0:
                        break
                self.defines[name] = toks[i + 2:j]
                i = j
            else:
                rest.append(toks[i])
                i += 1
        self._top(rest, os.path.dirname(path), subst)

    def _top(self, toks, d, subst):
        save = getattr(self, 't', None), getattr(self, 'i', None)
        self.t, self.i = toks, 0
        while self.i < len(self.t):
            k = self.peek()
            if k == 'import':
                self.next()
                if self.peek() == '<':
                    while self.next() != '>':
                        pass
                else:
                    f = self.next()[1:-1]
                    f = (subst or {}).get(f, f)
                    p = os.path.join(d, f)
                    s = (self.t, self.i)
                    self.load(p, subst=subst)
                    self.t, self.i = s
            elif k == 'domain':
                self.decls.append(self.domain())
            elif k == 'field':
                self.next()
                n = self.next()
                self.eat(':')
                self.decls.append(('field', n, self.type_()))
            elif k == 'function':
                self.decls.append(self.function())
            elif k == 'method':
                self.decls.append(self.method())
            elif k == 'predicate':
                self.next()
                n = self.next()
                a = self.formals()
                b = None
                if self.peek() == '{':
                    self.next()
                    b = self.expr()
                    self.eat('}')
                self.decls.append(('predicate', n, a, b))
            else:
                self.err('unexpected ' + str(k))
        self.t, self.i = save

    # -- tokens
    def peek(self, n=0):
        return self.t[self.i + n][1] if self.i + n < len(self.t) else None

    def line(self):
        return self.t[min(self.i, len(self.t) - 1)][2:]

    def err(self, m):
        ln = self.line()
        raise SilError('%s:%d: %s' % (ln[1], ln[0], m))

    def next(self):
        tok = self.t[self.i]
        if tok[0] == 'id' and tok[1] in self.defines:
            self.t = self.t[:self.i] + self.defines[tok[1]] + self.t[self.i + 1:]
            return self.next()
        self.i += 1
        return tok[1]

    def eat(self, s):
        if self.peek() != s:
            self.err('expected %r, found %r' % (s, self.peek()))
        self.i += 1

    def opt(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    # -- declarations
    def type_(self):
        n = self.next()
        args = []
        if self.opt('['):
            args.append(self.type_())
            while self.opt(','):
                args.append(self.type_())
            self.eat(']')
        return {'Int': INT, 'Bool': BOOL, 'Ref': REF, 'Perm': PERM}.get(n) or Type(n, *args)

    def formals(self):
        self.eat('(')
        out = []
        while self.peek() != ')':
            if self.peek(1) == ':':
                n = self.next()
                self.eat(':')
                out.append((n, self.type_()))
            else:
                out.append((None, self.type_()))
            self.opt(',')
        self.eat(')')
        return out

    def specs(self):
        pres, posts = [], []
        while True:
            k = self.peek()
            if k == 'requires':
                ln = self.line()
                self.next()
                pres.append((self.expr(), ln))
            elif k == 'ensures':
                ln = self.line()
                self.next()
                posts.append((self.expr(), ln))
            elif k == 'decreases':
                self.next()
                if self.peek() == '_' and self.t[self.i][0] == 'id':
                    self.next()
                    pres.append((('decwild',), self.line()))
                else:
                    self.expr()
            else:
                return pres, posts

    def function(self):
        self.eat('function')
        ln = self.line()
        n = self.next()
        a = self.formals()
        self.eat(':')
        t = self.type_()
        pres, posts = self.specs()
        b = None
        if self.opt('{'):
            b = self.expr()
            self.eat('}')
        return ('function', n, a, t, pres, posts, b, ln)

    def method(self):
        self.eat('method')
        ln = self.line()
        n = self.next()
        a = self.formals()
        r = []
        if self.opt('returns'):
            r = self.formals()
        pres, posts = self.specs()
        b = None
        if self.opt('{'):
            b = []
            while not self.opt('}'):
                k = self.next()
                if k not in ('assume', 'inhale', 'exhale', 'assert'):
                    self.err('unsupported statement ' + k)
                b.append((k, self.expr()))
        return ('method', n, a, r, pres, posts, b, ln)

    def interp(self):
        if self.peek() == 'interpretation':
            self.next()
            if self.opt('('):
                d = {}
                while not self.opt(')'):
                    k = self.next()
                    self.eat(':')
                    d[k] = self.next()[1:-1]
                    self.opt(',')
                return d
            return self.next()[1:-1]
        return None

    def domain(self):
        self.eat('domain')
        n = self.next()
        tv = []
        if self.opt('['):
            while not self.opt(']'):
                tv.append(self.next())
                self.opt(',')
        it = self.interp()
        self.eat('{')
        fs, axs = [], []
        while not self.opt('}'):
            uniq = self.opt('unique')
            if self.opt('function'):
                fn = self.next()
                a = self.formals()
                self.eat(':')
                t = self.type_()
                fs.append((fn, a, t, uniq, self.interp()))
            else:
                self.eat('axiom')
                an = None
                if self.peek() != '{':
                    an = self.next()
                self.eat('{')
                axs.append((an, self.expr()))
                self.eat('}')
        return ('domain', n, tv, it, fs, axs)

    # -- expressions
    def expr(self):
        c = self.iff()
        if self.opt('?'):
            a = self.expr()
            self.eat(':')
            return ('ite', c, a, self.expr())
        return c

    def iff(self):
        a = self.impl()
        if self.opt('<==>'):
            return ('bin', '<==>', a, self.iff())
        return a

    def impl(self):
        a = self.or_()
        if self.opt('==>'):
            return ('bin', '==>', a, self.impl())
        return a

    def or_(self):
        a = self.and_()
        if self.opt('||'):
            return ('bin', '||', a, self.or_())
        return a

    def and_(self):
        a = self.eq()
        if self.opt('&&'):
            return ('bin', '&&', a, self.and_())
        return a

    def eq(self):
        a = self.cmp()
        if self.peek() in ('==', '!='):
            op = self.next()
            return ('bin', op, a, self.eq())
        return a

    def cmp(self):
        a = self.sum()
        parts = []
        while self.peek() in ('<', '>', '<=', '>=') or (self.peek() == 'in' and not self.noin):
            op = self.next()
            b = self.sum()
            parts.append(('bin', op, a, b))
            a = b
        if not parts:
            return a
        r = parts[-1]
        for p in reversed(parts[:-1]):
            r = ('bin', '&&', p, r)
        return r

    noin = False

    def sum(self):
        a = self.term()
        while self.peek() in ('+', '-', '++', 'union', 'setminus', 'intersection', 'subset'):
            op = self.next()
            a = ('bin', op, a, self.term())
        return a

    def term(self):
        a = self.suffix()
        while self.peek() in ('*', '/', '\\', '%'):
            op = self.next()
            a = ('bin', op, a, self.suffix())
        return a

    def suffix(self):
        a = self.atom()
        while True:
            if self.peek() == '.' and self.t[self.i + 1][0] == 'id':
                self.next()
                a = ('fld', a, self.next())
            elif self.peek() == '[':
                self.next()
                sv, self.noin = self.noin, False
                if self.opt('..'):
                    n = self.expr()
                    a = ('take', a, n)
                else:
                    e = self.expr()
                    if self.opt('..'):
                        if self.peek() == ']':
                            a = ('drop', a, e)
                        else:
                            n = self.expr()
                            a = ('drop', ('take', a, n), e)
                    elif self.opt(':='):
                        a = ('upd', a, e, self.expr())
                    else:
                        a = ('idx', a, e)
                self.eat(']')
                self.noin = sv
            else:
                return a

    def args(self, close=')'):
        out = []
        sv, self.noin = self.noin, False
        while not self.opt(close):
            out.append(self.expr())
            self.opt(',')
        self.noin = sv
        return out

    def triggers(self):
        out = []
        while self.peek() == '{':
            self.next()
            tr = []
            while not self.opt('}'):
                tr.append(self.expr())
                self.opt(',')
            out.append(tr)
        return out

    def atom(self):
        kind, v, line, _ = self.t[self.i]
        if kind == 'id' and v in self.defines:
            self.t = self.t[:self.i] + self.defines[v] + self.t[self.i + 1:]
            return self.atom()
        if kind == 'num':
            self.i += 1
            return ('int', int(v))
        if v == '@':
            self.i += 1
            nm = self.next()
            self.eat('(')
            msgs = []
            while not self.opt(')'):
                msgs.append(self.next()[1:-1])
                self.opt(',')
            e = self.suffix() if self.peek() == '!' else self.suffix_of_annot()
            return ('annot', nm, msgs, e)
        if v == '(':
            self.i += 1
            sv, self.noin = self.noin, False
            e = self.expr()
            self.eat(')')
            self.noin = sv
            return e
        if v == '!':
            self.i += 1
            return ('not', self.suffix())
        if v == '-':
            self.i += 1
            return ('neg', self.suffix())
        if v == '|':
            self.i += 1
            e = self.expr()
            self.eat('|')
            return ('len', e)
        if v == '[':
            self.i += 1
            a = self.expr()
            if self.opt('..'):
                b = self.expr()
                self.eat(')')
                return ('range', a, b)
            self.eat(',')
            b = self.expr()
            self.eat(']')
            return ('inex', a, b)
        if kind != 'id':
            self.err('unexpected token %r in expression' % v)
        self.i += 1
        if v in ('true', 'false', 'null', 'result', 'write', 'wildcard', 'none'):
            return (v,)
        if v in ('forall', 'exists'):
            vs = []
            while True:
                n = self.next()
                self.eat(':')
                vs.append((n, self.type_()))
                if not self.opt(','):
                    break
            self.eat('::')
            tr = self.triggers()
            sv, self.noin = self.noin, False
            e = self.expr()
            self.noin = sv
            return (v, vs, tr, e)
        if v == 'let':
            n = self.next()
            self.eat('==')
            e = self.suffix()
            self.eat('in')
            return ('let', n, e, self.expr())
        if v == 'old':
            self.eat('(')
            e = self.expr()
            self.eat(')')
            return ('old', e)
        if v == 'acc':
            self.eat('(')
            loc = self.expr()
            p = ('write',)
            if self.opt(','):
                p = self.expr()
            self.eat(')')
            return ('acc', loc, p)
        if v == 'perm':
            self.eat('(')
            loc = self.expr()
            self.eat(')')
            return ('perm', loc)
        if v in ('Seq', 'Set', 'Multiset', 'Map'):
            ts = []
            if self.opt('['):
                ts.append(self.type_())
                while self.opt(','):
                    ts.append(self.type_())
                self.eat(']')
            self.eat('(')
            return ('coll', v, ts, self.args())
        if self.peek() == '(':
            self.i += 1
            return ('call', v, self.args())
        return ('var', v)

    def suffix_of_annot(self):
        return self.atom()


class Resolver:
    """Types the parsed declarations and builds fakejvm nodes."""
    def __init__(self, parser):
        self.funcs, self.dfuncs, self.fields, self.preds, self.methods = {}, {}, {}, {}, {}
        self.p = parser
        R = (NoPosition, NoInfo, NoTrafos)
        self.R = R
        doms, flds, fns, prs, ms = [], [], [], [], []
        for d in parser.decls:
            if d[0] == 'domain':
                for (fn, a, t, u, it) in d[4]:
                    self.dfuncs[fn] = (a, t, d[1], d[2])
            elif d[0] == 'field':
                self.fields[d[1]] = cls('Field')(d[1], d[2], *R)
            elif d[0] == 'function':
                self.funcs[d[1]] = (d[2], d[3])
            elif d[0] == 'method':
                self.methods[d[1]] = d
            elif d[0] == 'predicate':
                self.preds[d[1]] = d[2]
        self.src = {}
        for d in parser.decls:
            k = d[0]
            if k == 'domain':
                fs = []
                for (fn, a, t, u, it) in d[4]:
                    fs.append(cls('DomainFunc')(fn, self.decls(a), t, u, Some(it) if it else NONE,
                                                NoPosition, NoInfo, d[1], NoTrafos))
                axs = []
                for an, e in d[5]:
                    e = self.x(e, {}, BOOL)
                    if an:
                        axs.append(cls('NamedDomainAxiom')(an, e, NoPosition, NoInfo, d[1], NoTrafos))
                    else:
                        axs.append(cls('AnonymousDomainAxiom')(e, NoPosition, NoInfo, d[1], NoTrafos))
                doms.append(cls('Domain')(d[1], L(fs), L(axs), L([Type(t) for t in d[2]]),
                                          Some(d[3]) if d[3] else NONE, *R))
            elif k == 'field':
                flds.append(self.fields[d[1]])
            elif k == 'function':
                _, n, a, t, pres, posts, b, ln = d
                env = dict(a)
                env['result'] = t
                fns.append(cls('Function')(n, self.decls(a), t, L([self.x(e, env, BOOL) for e, _ in pres]),
                                           L([self.x(e, env, BOOL) for e, _ in posts]),
                                           Some(self.x(b, env, t)) if b is not None else NONE, *R))
                self.src[n] = ln
            elif k == 'method':
                _, n, a, r, pres, posts, b, ln = d
                env = dict(a)
                env.update(dict(r))
                body = NONE
                if b is not None:
                    body = Some(cls('Seqn')(L([cls(kk.capitalize())(self.x(e, env, BOOL), *R) for kk, e in b]),
                                            L([]), *R))
                ms.append(cls('Method')(n, self.decls(a), self.decls(r), L([self.x(e, env, BOOL) for e, _ in pres]),
                                        L([self.x(e, env, BOOL) for e, _ in posts]), body, *R))
                self.src[n] = ln
            elif k == 'predicate':
                _, n, a, b = d
                prs.append(cls('Predicate')(n, self.decls(a), Some(self.x(b, dict(a), BOOL)) if b is not None else NONE, *R))
        self.initProperties = lambda: None
        self.program = cls('Program')(L(doms), L(flds), L(fns), L(prs), L(ms), L([]), *R)

    def decls(self, a):
        return L([cls('LocalVarDecl')(n, t, *self.R) if n else cls('UnnamedLocalVarDecl')(t, *self.R) for n, t in a])

    def fix(self, n, want):
        k = type(n).__name__
        if want is INT or want == INT:
            if k == 'FractionalPerm':
                return cls('Div')(n.f('left'), n.f('right'), *self.R)
        if want == PERM and k in ('Add', 'Sub', 'Mul', 'Div'):
            l, r = n.f('left'), n.f('right')
            if k == 'Mul':
                if l.typ() == INT:
                    return cls('IntPermMul')(l, r, *self.R)
                return cls('PermMul')(l, r, *self.R)
            return cls({'Add': 'PermAdd', 'Sub': 'PermSub', 'Div': 'PermDiv'}[k])(l, r, *self.R)
        return n

    def x(self, e, env, want=None):
        n = self._x(e, env, want)
        return self.fix(n, want) if want is not None else n

    def _x(self, e, env, want):
        R = self.R
        k = e[0]
        if k == 'decwild':
            return cls('DecreasesWildcard')(NONE, *R)
        if k == 'int':
            return cls('IntLit')(e[1], *R)
        if k in ('true', 'false', 'null'):
            return cls(k.capitalize() + 'Lit')(*R)
        if k == 'write':
            return cls('FullPerm')(*R)
        if k == 'none':
            return cls('NoPerm')(*R)
        if k == 'wildcard':
            return cls('WildcardPerm')(*R)
        if k == 'result':
            return cls('Result')(env['result'], *R)
        if k == 'var':
            if e[1] not in env:
                raise SilError('unknown variable ' + e[1])
            return cls('LocalVar')(e[1], env[e[1]], *R)
        if k == 'annot':
            n = self.x(e[3], env, want)
            info = J.AnnotationInfo(J.ScalaMap({e[1]: L(e[2])}))
            m = type(n)(*[n.f(f) for f in n.FIELDS], n._rest[0], info, *n._rest[2:])
            return m
        if k == 'not':
            return cls('Not')(self.x(e[1], env, BOOL), *R)
        if k == 'neg':
            return cls('Minus')(self.x(e[1], env, INT), *R)
        if k == 'len':
            s = self.x(e[1], env)
            t = s.typ().name_
            return cls({'Seq': 'SeqLength', 'Map': 'MapCardinality'}.get(t, 'AnySetCardinality'))(s, *R)
        if k == 'range':
            return cls('RangeSeq')(self.x(e[1], env, INT), self.x(e[2], env, INT), *R)
        if k in ('forall', 'exists'):
            env2 = dict(env)
            env2.update(dict(e[1]))
            trs = L([cls('Trigger')(L([self.x(t, env2) for t in tr]), *R) for tr in e[2]])
            return cls(k.capitalize())(self.decls(e[1]), trs, self.x(e[3], env2, BOOL), *R)
        if k == 'let':
            v = self.x(e[2], env)
            env2 = dict(env)
            env2[e[1]] = v.typ()
            return cls('Let')(cls('LocalVarDecl')(e[1], v.typ(), *R), v, self.x(e[3], env2, want), *R)
        if k == 'old':
            return cls('Old')(self.x(e[1], env, want), *R)
        if k == 'acc':
            loc = self.x(e[1], env)
            p = self.x(e[2], env, PERM)
            return cls(type(loc).__name__ + 'Predicate')(loc, Some(p), *R)
        if k == 'perm':
            return cls('CurrentPerm')(self.x(e[1], env), *R)
        if k == 'fld':
            if e[2] not in self.fields:
                raise SilError('unknown field ' + e[2])
            return cls('FieldAccess')(self.x(e[1], env, REF), self.fields[e[2]], *R)
        if k == 'ite':
            a = self.x(e[2], env, want)
            b = self.x(e[3], env, want)
            if a.typ() == PERM or b.typ() == PERM:
                a, b = self.fix(a, PERM), self.fix(b, PERM)
            return cls('CondExp')(self.x(e[1], env, BOOL), a, b, *R)
        if k in ('take', 'drop'):
            return cls('Seq' + k.capitalize())(self.x(e[1], env), self.x(e[2], env, INT), *R)
        if k == 'idx':
            s = self.x(e[1], env)
            if s.typ().name_ == 'Map':
                return cls('MapLookup')(s, self.x(e[2], env, s.typ().args_[0]), *R)
            return cls('SeqIndex')(s, self.x(e[2], env, INT), *R)
        if k == 'upd':
            s = self.x(e[1], env)
            if s.typ().name_ == 'Map':
                return cls('MapUpdate')(s, self.x(e[2], env, s.typ().args_[0]), self.x(e[3], env, s.typ().args_[1]), *R)
            return cls('SeqUpdate')(s, self.x(e[2], env, INT), self.x(e[3], env, s.typ().args_[0]), *R)
        if k == 'coll':
            if e[1] == 'Map':
                if not e[3]:
                    return cls('EmptyMap')(*e[2], *R)
                raise SilError('Map literal')
            if not e[3]:
                t = e[2][0] if e[2] else (want.args_[0] if want is not None and want.args_ else None)
                if t is None:
                    return ('untyped-empty', e[1])
                return cls('Empty' + e[1])(t, *R)
            return cls('Explicit' + e[1])(L([self.x(a, env, e[2][0] if e[2] else None) for a in e[3]]), *R)
        if k == 'call':
            return self.call(e, env)
        if k == 'bin':
            return self.bin(e, env, want)
        raise SilError('expr ' + str(k))

    def call(self, e, env):
        n, args = e[1], e[2]
        R = self.R
        if n in ('domain', 'range') and n not in self.funcs:
            return cls('MapDomain' if n == 'domain' else 'MapRange')(self.x(args[0], env), *R)
        if n in self.funcs:
            fa, t = self.funcs[n]
            if len(fa) != len(args):
                raise SilError('arity of ' + n)
            return cls('FuncApp')(n, L([self.x(a, env, ft) for a, (_, ft) in zip(args, fa)]),
                                  NoPosition, NoInfo, t, NoTrafos)
        if n in self.dfuncs:
            fa, t, dom, tv = self.dfuncs[n]
            if len(fa) != len(args):
                raise SilError('arity of ' + n)
            xs, m = [], {}
            for a, (_, ft) in zip(args, fa):
                x = self.x(a, env, ft if not self.has_tv(ft, tv) else None)
                if isinstance(x, Node_):
                    self.unify(ft, x.typ(), tv, m)
                xs.append(x)
            return cls('DomainFuncApp')(n, L(xs), J.ScalaMap({Type(a): b for a, b in m.items()}),
                                        NoPosition, NoInfo, self.subst(t, m), dom, NoTrafos)
        if n in self.preds:
            return cls('PredicateAccess')(L([self.x(a, env, t) for a, (_, t) in zip(args, self.preds[n])]), n, *R)
        raise SilError('unknown function ' + n)

    def has_tv(self, t, tv):
        return t.name_ in tv or any(self.has_tv(a, tv) for a in t.args_ if isinstance(a, Type))

    def unify(self, ft, at, tv, m):
        if ft.name_ in tv:
            m.setdefault(ft.name_, at)
        for a, b in zip(ft.args_, at.args_):
            self.unify(a, b, tv, m)

    def subst(self, t, m):
        if t.name_ in m:
            return m[t.name_]
        if t.args_:
            return Type(t.name_, *[self.subst(a, m) for a in t.args_])
        return t

    def bin(self, e, env, want):
        R = self.R
        op = e[1]
        if op in ('&&', '||', '==>'):
            return cls({'&&': 'And', '||': 'Or', '==>': 'Implies'}[op])(
                self.x(e[2], env, BOOL), self.x(e[3], env, BOOL), *R)
        if op == '<==>':
            return cls('EqCmp')(self.x(e[2], env, BOOL), self.x(e[3], env, BOOL), *R)
        if op == 'in':
            a, b = self.x(e[2], env), self.x(e[3], env)
            t = b.typ().name_
            if t == 'Seq':
                return cls('SeqContains')(a, b, *R)
            if t == 'Map':
                return cls('MapContains')(a, b, *R)
            return cls('AnySetContains')(a, b, *R)
        a = self.x(e[2], env)
        b = self.x(e[3], env)
        if isinstance(a, tuple):
            a = self.x(e[2], env, b.typ())
        if isinstance(b, tuple):
            b = self.x(e[3], env, a.typ())
        if op in ('==', '!=', '<', '<=', '>', '>='):
            ta, tb = a.typ(), b.typ()
            if ta == PERM or tb == PERM:
                if ta == INT or tb == INT:      # int division written with /
                    a, b = self.fix(a, INT), self.fix(b, INT)
            if a.typ() == PERM and op not in ('==', '!='):
                return cls({'<': 'PermLtCmp', '<=': 'PermLeCmp', '>': 'PermGtCmp', '>=': 'PermGeCmp'}[op])(a, b, *R)
            return cls({'==': 'EqCmp', '!=': 'NeCmp', '<': 'LtCmp', '<=': 'LeCmp', '>': 'GtCmp', '>=': 'GeCmp'}[op])(a, b, *R)
        if op == '++':
            return cls('SeqAppend')(a, b, *R)
        if op in ('union', 'setminus', 'intersection', 'subset'):
            return cls({'union': 'AnySetUnion', 'setminus': 'AnySetMinus', 'intersection': 'AnySetIntersection',
                        'subset': 'AnySetSubset'}[op])(a, b, *R)
        ta, tb = a.typ(), b.typ()
        if op == '/':
            if ta == PERM:
                return cls('PermDiv' if tb == INT else 'PermPermDiv')(a, b, *R)
            return cls('FractionalPerm')(a, b, *R)
        if op == '\\':
            return cls('Div')(self.fix(a, INT), self.fix(b, INT), *R)
        if op == '%':
            return cls('Mod')(self.fix(a, INT), self.fix(b, INT), *R)
        if ta == PERM or tb == PERM:
            if want == INT or (ta == INT and op != '*') or (tb == INT and op != '*'):
                a, b = self.fix(a, INT), self.fix(b, INT)
                return cls({'+': 'Add', '-': 'Sub', '*': 'Mul'}[op])(a, b, *R)
            if op == '*' and (ta == INT):
                return cls('IntPermMul')(a, b, *R)
            return cls({'+': 'PermAdd', '-': 'PermSub', '*': 'PermMul'}[op])(a, b, *R)
        return cls({'+': 'Add', '-': 'Sub', '*': 'Mul'}[op])(a, b, *R)


Node_ = J.Node


def load(resources, bv_size=8, float_option=None):
    """Parse exactly the text main.parse_sil_file hands to Viper's parser."""
    sil = os.path.join(resources, 'all.sil')
    with open(sil) as f:
        text = f.read()
    with open(os.path.join(resources, 'intbv.sil')) as f:
        text += '\n' + f.read().replace('NBITS', str(bv_size)).replace(
            'INT_MIN_VAL', str(-(2 ** bv_size))).replace('INT_MAX_VAL', str(2 ** bv_size - 1))
    return load_text(sil, text, float_option)


def load_text(sil, text, float_option=None):
    if float_option == 'real':
        text = text.replace('float.sil', 'float_real.sil')
    if float_option == 'ieee32':
        text = text.replace('float.sil', 'float_ieee32.sil')
    p = Parser()
    p.load(sil, text)
    return Resolver(p)


if __name__ == '__main__':
    import sys
    r = load('/repo/src/nagini_translation/resources', 8, sys.argv[1] if len(sys.argv) > 1 else None)
    print(len(r.funcs), len(r.dfuncs), len(r.methods))
