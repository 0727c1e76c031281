"""C10: every verification failure is reported, at its place, with its reason."""
import ast
import glob
import importlib
import os
import re
import sys
import types
import env
import jfakes as J
import programs as P
import px
import h_c11 as H
from px import prove, target, Missing, PathInfeasible

LEVEL = 'proof'
TRUSTED = ['the API of Silver errors, reasons and positions as in harness/jfakes.py', 'ast.unparse', 'z3', 'CPython']
ASSUMPTIONS = ['error lists, nesting of conjunctions and chains of error transformations are followed up to a stated depth (bounded)',
               'identifiers, messages and recorded nodes are arbitrary values (parametricity)']
MIN = 60
E = 'nagini_translation.lib.errors'
BIG = 2 ** 31 - 1


def manager():
    return target(E + '.manager', 'ErrorManager')()


def jvm_types():
    ns = types.SimpleNamespace
    return ns(viper=ns(silver=ns(ast=ns(And=J.And, Implies=J.Implies, Not=J.Not)),
                       silicon=ns(sif=ns(CounterexampleSIFTransformerO=ns(transformCounterexample=lambda ce, n: ('sif', ce, n))))))


def text_node(src='x.f + 1'):
    return ast.parse(src, mode='eval').body


def placed(line=3, member='def', src='self.val'):
    """A node inside a member, linked to its parents as the analyzer does."""
    if member == 'def':
        tree = ast.parse('class C:\n def meth(self, x):\n  y = %s\n  z = g(x)\n' % src)
    else:
        tree = ast.parse('y = %s\n' % src)
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            ch._parent = n
    tree._parent = None
    return [n for n in ast.walk(tree) if isinstance(n, ast.Assign)][0].value


def recording(rep):
    def h(c):
        """What is recorded with a position can be found again from it."""
        import h_c22
        m = manager()
        n = c.choice('positions recorded', [1, 2, 3])
        infos = []
        for i in range(n):
            node, vias, reason, py = object(), [c.opaque('via%d' % i)], c.choice('reason string %d' % i, [None, 'text%d' % i]), object()
            rules = c.choice('rules %d' % i, [None, {}, {('a', 'b'): ('c', 'd%d' % i)}])
            infos.append((node, vias, reason, py, rules, m.add_error_information(node, vias, reason, py, rules)))
        c.ensure(len({x[5] for x in infos}) == n, 'identifiers are distinct')
        for node, vias, reason, py, rules, i in infos:
            p = J.Pos('f', 1, 1, node_id=i)
            it = m._get_item(p)
            c.is_(it.node, node, 'the node recorded')
            c.ensure(it.vias == vias == m.get_vias(i), 'the vias recorded')
            c.ensure(it.reason_string == reason, 'the reason recorded')
            c.is_(it.py_node, py, 'the member recorded')
            c.ensure(m._get_conversion_rules(p) == rules, 'the rules recorded')
        c.ensure(m._get_item(J.NoPos()) is None and m._get_conversion_rules(J.NoPos()) is None, 'nothing for no position')
        m.clear()
        c.ensure(m._items == {} and m._conversion_rules == {}, 'nothing after clear')
    prove(rep, 'ErrorManager.add_error_information', h)

    def pos(c):
        V = target('nagini_translation.lib.viper_ast', 'ViperAST')
        em = target(E, 'error_manager')
        em.clear()
        v = object.__new__(V)
        made = []
        v.NoPosition = J.NoPos()
        v.none = J.Opt()
        v.sourcefile = '/src/main.py'
        v.java = types.SimpleNamespace(nio=types.SimpleNamespace(file=types.SimpleNamespace(Paths=types.SimpleNamespace(get=lambda f, rest: J.Path(f)))))
        v.scala = types.SimpleNamespace(Some=lambda x: J.Opt(x))
        v.ast = types.SimpleNamespace(LineColumnPosition=J.LineCol, IdentifierPosition=lambda *a: made.append(a) or ('pos',) + a)
        kind = c.choice('node', ['full', 'no end', 'end unknown', 'no line', 'line unknown', 'none'])
        l, col, el, ec = (c.int(x, 0, BIG) for x in ('line', 'column', 'end line', 'end column'))
        n = ast.Name('x') if kind != 'none' else None
        for k, val in (('lineno', l), ('col_offset', col), ('end_lineno', el), ('end_col_offset', ec)):
            if kind in ('full', 'end unknown') or (kind == 'no end' and not k.startswith('end')):
                setattr(n, k, val)
        if kind == 'end unknown':
            n.end_lineno = n.end_col_offset = None
        if kind == 'line unknown':
            n.lineno = n.col_offset = None
        file = c.choice('file', [None, '/src/other.py'])
        vias = c.choice('vias', [[], [('v', 'p')]])
        rs = c.choice('reason', [None, 'text'])
        rules = c.choice('rules', [None, {('a', 'b'): ('c', 'd')}])
        py = object()
        got = c.run('to_position', v.to_position, n, vias, rs, rules, file, py_node=py)
        if kind in ('no line', 'line unknown', 'none'):
            c.is_(got, v.NoPosition, 'no position without a line')
            return
        c.ensure(got is not None and len(made) == 1 and got == ('pos',) + made[0], 'one position is made')
        path, start, end, i = made[0]
        c.ensure(str(path) == (file or '/src/main.py'), 'file: the module translated, otherwise the main file', got=str(path))
        c.ensure(start.l == l, 'line: that of the node')
        c.ensure(start.c == col, 'column: that of the node')
        c.ensure(end.isDefined() == (kind == 'full'), 'end: when the node has one')
        if kind == 'full':
            c.ensure(end.get().l == el, 'end line: that of the node')
            c.ensure(end.get().c == ec, 'end column: that of the node')
        it = em._items.get(i)
        c.ensure(it is not None, 'the position is recorded')
        c.is_(it.node, n, 'for the node')
        c.ensure(it.vias == vias and it.reason_string == rs and it.py_node is py and em._conversion_rules.get(i) == rules, 'with its vias, reason, member and rules')
        vias.append('later')
        c.ensure(em._items[i].vias == vias[:-1], 'later changes of the context do not affect it')
        em.clear()
    prove(rep, 'ViperAST.to_position', pos)

    def common(c):
        T = target('nagini_translation.translators.common', 'CommonTranslator')
        t = object.__new__(T)
        seen = []
        t.viper = types.SimpleNamespace(to_position=lambda *a, **k: seen.append((a, k)) or 'P')
        ctx = target('nagini_translation.lib.context', 'Context')()
        ctx.position, ctx.module, ctx.current_function = c.opaque('vias'), types.SimpleNamespace(file=c.opaque('file')), c.opaque('fn')
        depth = c.choice('inlined calls', [0, 1, 2])
        mods = [types.SimpleNamespace(file=c.opaque('file%d' % i)) for i in range(depth)]
        ctx.inlined_calls += [types.SimpleNamespace(module=m) for m in mods]
        file = (mods[-1] if mods else ctx.module).file
        n, rs, ru = c.opaque('node'), c.choice('reason', [None, 'text']), c.choice('rules', [None, {1: 2}])
        no = c.bool('no position')
        r = t.no_position(ctx, rs, ru) if no else t.to_position(n, ctx, rs, ru)
        c.ensure(r == 'P' and len(seen) == 1, 'the position made is returned')
        import inspect
        b = inspect.signature(target('nagini_translation.lib.viper_ast', 'ViperAST').to_position).bind(None, *seen[0][0], **seen[0][1])
        b.apply_defaults()
        a = b.arguments
        c.ensure(a['expr'] is (None if no else n) and a['vias'] is ctx.position and a['error_string'] == rs and a['rules'] == ru and
                 a['file'] is file and a['py_node'] is ctx.current_function, 'node, vias, reason, rules, file and member of the context')
    prove(rep, 'CommonTranslator.to_position', common)


def conversion(rep):
    def h(c):
        """One error with every part present or missing."""
        em = manager()
        PM = target('nagini_translation.lib.program_nodes', 'PythonMethod')
        jvm = jvm_types()
        epos = c.choice('error position', ['recorded', 'without id', 'none'])
        rkind = c.choice('reason', ['recorded', 'recorded text', 'without id', 'no position', 'missing'])
        where = c.choice('rules', ['none', 'of the error', 'of the reason', 'in a conjunct', 'in an implication', 'deep right', 'of both', 'not matching'])
        enode, rnode = placed(), text_node('self.cond')
        evias, rvias = [('E', 'p')], [('R', 'q')]
        eid, rid = 'assert.failed', 'assertion.false'
        rules = {(eid, rid): ('termination_check.failed', 'gap.enabled'), ('other', 'other'): ('x', 'y')}
        wrong = {('exhale.failed', rid): ('x', 'y')}
        ce = c.choice('counterexample', [None, 'ce']) if epos == 'recorded' else None
        member = c.choice('member', ['method', 'other'])
        sif = c.choice('sif', [False, True]) if ce else False
        py = object.__new__(PM) if member == 'method' else object()
        if member == 'method':
            py.sil_name = 'm_sil'
        er = rules if where in ('of the error', 'of both') else wrong if where == 'not matching' else None
        i1 = em.add_error_information(enode, evias, None, py, er)
        p1 = {'recorded': J.Pos('/f.py', 7, 2, (7, 9), node_id=i1), 'without id': J.Pos('/r.sil', 5, 1), 'none': J.NoPos()}[epos]
        if er is not None and epos != 'recorded':
            raise PathInfeasible()
        rr = {('assert.failed', 'assertion.false'): ('leak_check.failed', 'loop_body.leaks_obligations')} if where in ('of the reason', 'of both') else None
        i2 = em.add_error_information(rnode, rvias, 'the text' if rkind == 'recorded text' else None, object(), rr)
        p2 = {'recorded': J.Pos('/f.py', 8, 4, node_id=i2), 'recorded text': J.Pos('/f.py', 8, 4, node_id=i2),
              'without id': J.Pos('/r.sil', 9, 9)}.get(rkind, J.NoPos())
        if where == 'of the reason' and not rkind.startswith('recorded'):
            raise PathInfeasible()
        plain = J.VNode(J.NoPos())
        if where in ('in a conjunct', 'in an implication', 'deep right'):
            i3 = em.add_error_information(object(), [], None, None, rules)
            leaf = J.VNode(J.Pos('/f.py', 1, 1, node_id=i3))
            cls = J.Implies if where == 'in an implication' else J.And
            off = cls(p1, plain, leaf) if where != 'deep right' else J.And(p1, plain, J.Implies(J.NoPos(), plain, J.And(J.NoPos(), leaf, plain)))
        else:
            off = J.VNode(p1)
        reason = J.RawReason(rid, J.VNode(p2)) if rkind != 'missing' else None
        bcs = []
        err = J.RawError(eid, off, reason, contexts=[J.FailureContext(bcs, ce)] if c.bool('context') or ce else [], pos=p1)
        if reason is None:
            err.readableMessage = lambda *a: 'error text'
            if c.bool('no reason method'):
                class NoReason(J.RawError):
                    reason = property()
                err.__class__ = NoReason
        asked = []

        class Extractor:
            def extract_counterexample(self, j, m, x, mods):
                asked.append((j, m, x, mods))
                return 'INPUTS'
        c.patch(sys.modules[E + '.manager'], 'Extractor', Extractor)
        mods = object()
        got = c.run('convert', em.convert, [err], jvm, mods, sif)
        c.ensure(len(got) == 1, 'one error for one failure')
        g = got[0]
        want = (eid, rid if reason else None)
        if reason is not None:
            if where in ('of the error', 'of both', 'in a conjunct', 'in an implication', 'deep right'):
                want = rules[(eid, rid)]
            elif where == 'of the reason':
                want = rr[(eid, rid)]
        c.ensure(g.identifier == want[0] and (g.reason.identifier if g.reason else None) == want[1], 'identifiers: of the construct, by its rules',
                 got=(g.identifier, g.reason and g.reason.identifier), want=want)
        c.ensure(g.full_id == (want[0] if want[1] is None else '%s:%s' % want), 'the full identifier has both')
        known = epos != 'none'
        c.ensure(g.position.is_known == known, 'the position is known when the backend gives one')
        c.ensure((g.position.line, g.position.column) == {'recorded': (7, 2), 'without id': (5, 1), 'none': (1, 0)}[epos], 'position: the backend\'s')
        c.ensure((g.position.line_end, g.position.column_end) == {'recorded': (7, 9), 'without id': (5, 1), 'none': (1, 0)}[epos], 'end: the backend\'s')
        if known:
            c.ensure(g.position.file_name == ('/f.py' if epos == 'recorded' else '/r.sil'), 'file: the backend\'s')
        c.ensure(g.position.node_id == (i1 if epos == 'recorded' else None), 'the node identified is the recorded one')
        c.ensure((g._node is enode) == (epos == 'recorded'), 'the construct is the recorded one')
        if reason is None:
            c.ensure(g.reason is None, 'no reason is made up')
            s = c.run('string', g.string, False, False)
            c.ensure('error text' in s, 'without a reason the backend\'s message is shown', got=s)
            ide = c.run('string', g.string, True, False)
            c.ensure('error text' in ide, 'also in IDE mode', got=ide)
        else:
            c.ensure(g.reason.position.is_known == (rkind in ('recorded', 'recorded text', 'without id')), 'the reason\'s position is known when given')
            if rkind.startswith('recorded'):
                c.ensure((g.reason.position.line, g.reason.position.column) == (8, 4), 'reason position: the backend\'s')
                c.ensure(g.reason.vias == rvias, 'vias: those of the reason')
            human, ide = c.run('string', g.string, False, False), c.run('string', g.string, True, False)
            full = c.run('string', g.string, False, True)
            vias = rvias if rkind.startswith('recorded') else evias if epos == 'recorded' else []
            ps = g.position_string
            c.ensure(ps == str(p1) + ''.join(', via %s at %s' % v for v in vias), 'the position names its vias', got=ps)
            if want[1] == 'assertion.false' and rkind.startswith('recorded'):
                txt = 'the text' if rkind == 'recorded text' else 'self.cond'
                c.ensure(all(txt in x for x in (human, ide, full)), 'the reason names the construct', got=human)
            tail = '.\nINPUTS' if asked else ''
            c.ensure(human == '%s %s (%s)%s' % (g.message, g.reason.string(False), ps, tail), 'documented format', got=human)
            c.ensure(full == '%s %s (%s)%s' % (g.message, g.reason.string(True), ps, tail), 'documented format with backend messages', got=full)
            c.ensure(ide == '%s:%s:%s:%s:%s: error: %s %s' % (g.position.file_name, g.position.line, g.position.column + 1, g.position.line_end,
                                                             g.position.column_end + 1, g.message, g.reason), 'documented IDE format', got=ide)
        if epos == 'recorded' and ce and member == 'method':
            c.ensure(len(asked) == 1 and asked[0][0] is jvm and asked[0][1] is py and asked[0][3] is mods, 'the counterexample is extracted for the method')
            c.ensure(asked[0][2] == (('sif', 'ce', 'm_sil') if sif else 'ce'), 'from the failure\'s own model', got=asked[0][2])
            c.ensure(g._inputs == 'INPUTS', 'and shown')
        else:
            c.ensure(not asked and g._inputs is None, 'no counterexample otherwise')
        c.ensure(g.readable_message == err.readableMessage() and g.pos() is p1 and g.offending_node is off, 'the backend error is kept')
    prove(rep, 'ErrorManager.convert', h, limit=30000, samples=0, budget=300)

    def lists(c):
        """Sequences of errors of every kind: each becomes one error, in order."""
        em = manager()
        n = c.choice('errors', [0, 1, 2, 3])
        raws, kinds = [], []
        for i in range(n):
            k = c.choice('kind %d' % i, ['error', 'same as before', 'timeout', 'aborted', 'no reason', 'unknown kind'])
            nid = em.add_error_information(text_node('x%d' % i), [], None, None)
            v = J.VNode(J.Pos('/f.py', i + 1, i, (i + 1, i + 5), node_id=nid))
            if k == 'same as before' and not raws:
                raise PathInfeasible()
            raws.append({'error': lambda: J.RawError('assert.failed', v, J.RawReason('assertion.false', v)),
                         'same as before': lambda: raws[-1],
                         'timeout': lambda: J.RawTimeout(), 'aborted': lambda: J.RawTimeout('AbortedExceptionally', 'aborted'),
                         'no reason': lambda: J.RawError('some.id', v, None),
                         'unknown kind': lambda: J.RawError('new.error', v, J.RawReason('new.reason', v))}[k]())
            if k == 'no reason':
                raws[-1].readableMessage = lambda *a: 'bare'
            kinds.append(k)
        F = target('nagini_translation.verifier', 'Failure')
        c.patch(sys.modules['nagini_translation.verifier'], 'error_manager', em)
        f = c.run('Failure', F, raws, jvm_types(), None, False)
        c.ensure(len(f.errors) == n, 'one error for each failure')
        for e, r in zip(f.errors, raws):
            c.ensure(e._error is r, 'in order')
        c.ensure(not f, 'a failure is never a success')
        ide, viper = c.bool('ide'), c.bool('viper errors')
        s = c.run('to_string', f.to_string, ide, viper)
        lines = []
        for e in f.errors:
            x = e.string(ide, viper)
            c.ensure(isinstance(x, str) and x.strip() != '', 'every failure has a text')
            if x not in lines:
                lines.append(x)
        c.ensure(s == 'Verification failed\nErrors:\n' + '\n'.join(lines), 'every distinct failure is listed once, in order', got=s)
        for k, x in zip(kinds, [e.string(ide, viper) for e in f.errors]):
            if k == 'timeout':
                c.ensure('timed out' in x, 'a timeout is said to be one', got=x)
            if k == 'aborted':
                c.ensure('aborted' in x, 'an abort is described', got=x)
            if k == 'unknown kind':
                c.ensure('error text' in x and 'reason text' in x, 'unknown kinds have the backend\'s message', got=x)
    prove(rep, 'verifier.Failure', lists, limit=20000, samples=0, budget=120, bounded='up to three errors')

    def fix(c):
        em = manager()
        n = c.choice('transformations', [0, 1, 2, 4])
        nid = em.add_error_information(text_node('x'), [], None, None)
        v = J.VNode(J.Pos('/f.py', 1, 0, node_id=nid))
        e = J.RawError('last.id', v, J.RawReason('r', v))
        first = e
        for i in range(n):
            first = J.RawError('id%d' % i, v, J.RawReason('r%d' % i, v), trafo=first)
        g = em.convert([first], jvm_types(), None, False)[0]
        c.ensure(g._error is e and g.full_id == 'last.id:r', 'the error is the one all transformations lead to')
    prove(rep, 'ErrorManager.transformError', fix, bounded='up to four transformations')

    def branches(c):
        em = manager()
        jvm = jvm_types()
        conds, want = [], []
        n = c.choice('conditions', [0, 1, 2])
        for i in range(n):
            src = c.choice('condition %d' % i, ['x > 1', 'not x', 'not a == b', '(not a) == (not b)', 'text', 'not text'])
            neg = c.choice('negated %d' % i, ['no', 'yes', 'by the program'])
            p = c.choice('position %d' % i, ['recorded', 'without id', 'none'])
            txt = {'text': 'a description', 'not text': '(not a description)'}.get(src)
            node = None if txt else text_node(src)
            nid = em.add_error_information(node, [], txt, None)
            pos = {'recorded': J.Pos('/f.py', 3 + i, 4, node_id=nid), 'without id': J.Pos('/f.py', 3, 4), 'none': J.NoPos()}[p]
            v = J.VNode(pos)
            shown = txt or ast.unparse(node)
            if neg == 'yes':
                v = J.Not(pos, v)
            elif neg == 'by the program':
                # a negation with its own position
                id2 = em.add_error_information(text_node('not (%s)' % (src if not txt else 'q')), [], None, None)
                v = J.Not(J.Pos('/f.py', 90, 1, node_id=id2), v)
                shown = ast.unparse(text_node('not (%s)' % (src if not txt else 'q')))
                pos, p = v.pos(), 'recorded'
            conds.append(v)
            if p == 'recorded':
                want.append((shown, neg == 'yes', pos, txt is not None))
        i1 = em.add_error_information(text_node('y'), [], None, None)
        off = J.VNode(J.Pos('/f.py', 1, 0, node_id=i1))
        err = J.RawError('assert.failed', off, J.RawReason('assertion.false', off), contexts=[J.FailureContext(conds)])
        g = c.run('convert', em.convert, [err], jvm, None, False)[0]
        got = g.bcs or []
        c.ensure(len(got) == len(want), 'every condition at a known place is shown', got=got)
        for x, (shown, neg, pos, text) in zip(got, want):
            t, p = x.rsplit(' at ', 1)
            c.ensure(p == str(pos), 'with its place', got=x)
            if text:
                c.ensure((t == shown) if not neg else t in ('(not %s)' % shown, 'a description' if shown.startswith('(not') else None), 'and its text', got=t)
            else:
                e = ast.parse(t, mode='eval').body
                w = ast.parse(shown, mode='eval').body
                flips = 0
                while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                    e, flips = e.operand, flips + 1
                while isinstance(w, ast.UnaryOp) and isinstance(w.op, ast.Not):
                    w, flips = w.operand, flips + 1
                c.ensure(ast.dump(e) == ast.dump(w) and flips % 2 == neg, 'the condition is the one taken', got=t, want=shown, negated=neg)
        s = g.string(False, False)
        c.ensure(all(x in s for x in got), 'the conditions are part of the error', got=s)
    prove(rep, 'ErrorManager.convert (branch conditions)', branches, limit=20000, samples=0, budget=120, bounded='up to two conditions')


# what a message must name: nothing, the construct, the called or containing function
def messages(rep):
    ERR_EXPR = {'expression.undefined'}
    ERR_MEMBER = {'postcondition.violated', 'function.not.wellformed', 'predicate.not.wellformed'}
    ERR_TARGET = {'call.precondition', 'application.precondition'}
    REASON_EXPR = '''assertion.false receiver.null division.by.zero negative.permission permission.not.positive insufficient.permission
        termination_measure.non_positive measure.non_decreasing gap.enabled child_termination.not_implied obligation_measure.non_positive
        loop_condition.not_framed_for_obligation_use high.branch high.receiver.type high.exception.type high.short.circuit
        high.comprehension'''.split()
    REASON_TARGET = 'must_terminate.not_taken caller.has_unsatisfied_obligations method_body.leaks_obligations'.split()
    SILVER_ERR = '''assignment.failed call.failed not.wellformed call.precondition application.precondition exhale.failed inhale.failed if.failed
        while.failed assert.failed postcondition.violated fold.failed unfold.failed invariant.not.preserved invariant.not.established
        function.not.wellformed predicate.not.wellformed internal termination.failed refute.failed'''.split()
    SILVER_REASON = '''assertion.false receiver.null division.by.zero negative.permission insufficient.permission internal qp.not.injective
        tuple.false termination.condition.false refutation.true'''.split()
    NODES = {'expression': lambda: placed(src='self.val'), 'call': lambda: placed(src='callee(1)'), 'method call': lambda: placed(src='a.b.callee(1)'),
             'function': lambda: ast.parse('def callee(x): pass').body[0], 'top level': lambda: placed(member='none', src='glob.x'),
             'top level call': lambda: placed(member='none', src='callee(2)'), 'call of a call': lambda: placed(src='mk()(1)'),
             'call of an element': lambda: placed(src='fs[0](1)'), 'no call arguments': lambda: placed(src='Fold()'),
             'fold': lambda: placed(src='Fold(self.inv())'), 'statement': lambda: ast.parse('while x:\n  y = 1').body[0],
             'argument': lambda: ast.parse('def f(a): pass').body[0].args.args[0], 'string': lambda: 'a text', 'none': lambda: None}

    def h(c):
        W, M = E + '.wrappers', sys.modules[E + '.messages']
        table = c.choice('table', ['errors', 'reasons'])
        ids = sorted(set(M.ERRORS) | set(SILVER_ERR)) if table == 'errors' else sorted(set(M.REASONS) | set(SILVER_REASON) | set(M.VAGUE_REASONS))
        i = c.choice('identifier', ids + ['unknown.id'])
        kind = c.choice('node', list(NODES))
        node = NODES[kind]()
        off = J.VNode(J.Pos('/f.py', 1, 0, (1, 2)))
        if table == 'errors':
            if kind == 'string':
                raise PathInfeasible()
            c.ensure(i in M.ERRORS or i == 'unknown.id', 'every kind of failure has a message', id=i)
            err = J.RawError(i, off, J.RawReason('assertion.false', off))
            e = target(W, 'Error')(err, {}, None, node, [])
            m = c.run('message', lambda: e.message)
            c.ensure(isinstance(m, str) and m != '', 'the message is a text')
            if node is None or i == 'unknown.id':
                c.ensure('error text' in m, 'without a construct or for an unknown kind, the backend\'s message', got=m)
            else:
                expr = ast.unparse(node).replace('\n', '')
                if i in ERR_EXPR and kind != 'function':
                    c.ensure(expr in m or 'error text' in m, 'it names the construct', got=m, want=expr)
                if i in ERR_EXPR and kind == 'expression':
                    c.ensure(expr in m, 'it names the expression', got=m)
                if i in ERR_MEMBER and kind in ('expression', 'call', 'method call', 'fold'):
                    c.ensure(' meth ' in m, 'it names the function it is in', got=m)
                if i in ERR_TARGET and kind in ('call', 'method call', 'function', 'top level call'):
                    c.ensure(' callee ' in m, 'it names the function called', got=m)
                elif i in ERR_TARGET and kind == 'expression':
                    c.ensure(expr in m, 'it names the construct', got=m)
                if i in M.ERRORS and i not in ERR_MEMBER | ERR_TARGET | ERR_EXPR:
                    c.ensure('error text' not in m, 'failures of a known kind have Nagini\'s message', got=m)
            return
        c.ensure(i in M.REASONS or i == 'unknown.id', 'every kind of reason has a message', id=i)
        r = J.RawReason(i, off)
        text = kind == 'string'
        R = target(W, 'Reason')
        x = R(i, r, None if text else node, [], node if text else None)
        show = c.bool('backend messages')
        s = c.run('string', x.string, show)
        c.ensure(isinstance(s, str) and (s != '' or (i == 'assertion.false' and node is None)), 'the reason is a text')
        if i == 'unknown.id':
            c.ensure(s == 'reason text', 'unknown reasons have the backend\'s message', got=s)
        elif node is None:
            if show and i in M.VAGUE_REASONS:
                c.ensure(s == 'reason text', 'the backend\'s message is shown when asked for', got=s)
            elif i in M.VAGUE_REASONS:
                c.ensure('reason text' not in s, 'and not otherwise', got=s)
        elif i in REASON_EXPR and kind not in ('function', 'statement'):
            c.ensure((node if text else ast.unparse(node)) in s, 'it names the construct', got=s)
        elif i in REASON_TARGET and kind in ('call', 'method call', 'function', 'top level call'):
            c.ensure(' callee ' in s, 'it names the function', got=s)
        elif i in REASON_TARGET and kind == 'expression':
            c.ensure(' meth ' in s, 'it names the function it is in', got=s)
    prove(rep, 'errors.messages', h, limit=30000, samples=0, budget=200)

    def annotated(c):
        """A failure about a construct of the encoding that has its own explanation."""
        R = target(E + '.wrappers', 'Reason')
        i = c.choice('identifier', ['assertion.false', 'insufficient.permission', 'receiver.null'])
        show = c.bool('backend messages')
        kind = c.choice('annotation', ['error', 'other', 'comment'])
        info = {'error': J.Info('AnnotationInfo', {'error': ['the explanation', 'x']}), 'other': J.Info('AnnotationInfo', {'weight': ['1']}),
                'comment': J.Info('SimpleInfo')}[kind]
        n = J.VNode(J.Pos('/r.sil', 1, 0), info)
        s = c.run('string', R(i, J.RawReason(i, n)).string, show)
        if kind == 'error':
            c.ensure(s == 'the explanation', 'the construct\'s own explanation is shown', got=s)
        else:
            c.ensure((s == 'reason text') == show, 'otherwise the backend\'s message when asked for', got=s)
    prove(rep, 'Reason.string', annotated)

    def rules(c):
        M, R = sys.modules[E + '.messages'], sys.modules[E + '.rules']
        tables = {k: v for k, v in vars(R).items() if k.isupper() and isinstance(v, dict)}
        c.ensure(len(tables) >= 29, 'every kind of check has its rules', n=len(tables))
        known = expected_ids()
        for name, t in tables.items():
            for (a, b), (x, y) in t.items():
                c.ensure(a in SILVER_ERR and b in SILVER_REASON, 'rules apply to failures the backend reports', rule=name, key=(a, b))
                c.ensure(x in M.ERRORS and y in M.REASONS, 'rules lead to identifiers with messages', rule=name, to=(x, y))
        have = {'%s:%s' % v for t in tables.values() for v in t.values()}
        sv = {'%s:%s' % (a, b) for a in SILVER_ERR for b in SILVER_REASON}
        # those reported by the backends' own plugins keep their identifiers
        own = {x for x in known if x.split(':')[1].startswith('sif') or x.endswith(':permission.not.positive')}
        lost = known - have - sv - {x for x in own if x.split(':')[0] in M.ERRORS and x.split(':')[1] in M.REASONS}
        c.ensure(not lost, 'every documented identifier can be reported', lost=sorted(lost))
    prove(rep, 'errors.rules', rules)

    def fmt(c):
        f = target(E + '.wrappers', 'format_translation_error')
        ide = c.bool('ide')
        l, col = c.int('line', 0, BIG), c.int('column', 0, BIG)
        given = c.choice('end', ['given', 'absent', 'line only', 'column only'])
        el = c.int('end line', 0, BIG) if given in ('given', 'line only') else None
        ec = c.int('end column', 0, BIG) if given in ('given', 'column only') else None
        s = c.run('format', f, ide, '/a:b.py', 'the: message', l, col, el, ec)
        if ide:
            want = '/a:b.py:%s:%s:%s:%s: error: the: message' % (l, col + 1, l if el is None else el, (col if ec is None else ec) + 1)
        else:
            want = 'the: message (/a:b.py@%s.%s)' % (l, col)
        c.same(s, want, 'documented format')
    prove(rep, 'errors.format_translation_error', fmt)


def expected_ids():
    """The identifiers the repository's annotated programs document."""
    out = set()
    for f in glob.glob(os.path.join(env.REPO, 'tests', '**', '*.py'), recursive=True):
        try:
            with open(f, encoding='utf-8') as fh:
                for m in re.finditer(r'ExpectedOutput\(([a-z_.]+:[a-z_.]+)', fh.read()):
                    if not m.group(1).startswith(('invalid.program', 'unsupported', 'type.error')):
                        out.add(m.group(1))
        except UnicodeDecodeError:
            pass
    return out


# ------------------------------------------------- positions name the right file
SKIP = ('Field',)               # declarations that no failure refers to


def imported(path):
    """The program, and the same program imported by an empty one."""
    fs = P.load(path)
    yield 'as the main program', fs, None
    if len(fs) == 1:
        name, text = next(iter(fs.items()))
        sel = {n.name for n in ast.parse(text).body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        if sel:
            yield 'imported', {'prog.py': 'from nagini_contracts.contracts import *\nimport lib_x\n', 'lib_x.py': text}, sel
    elif not path.endswith('two.py'):
        names = list(fs)
        yield 'selected', fs, {n.name for f in names for n in ast.parse(fs[f]).body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}


def positions_of(job):
    path = job
    name = os.path.basename(path)
    out, counts = [], {'cases': 0, 'positions': 0}
    from nagini_translation.lib.errors import error_manager
    for how, fs, sel in imported(path):
        try:
            t = P.translate(fs, selected=sel)
        except Exception as e:
            if how == 'as the main program':
                return name, [('translation', {'error': repr(e)[:300]})], counts
            continue
        counts['cases'] += 1
        own = {}
        for m in t.modules:
            if getattr(m, 'node', None) is not None and m.file:
                for n in ast.walk(m.node):
                    own.setdefault(id(n), (n, set()))[1].add(os.path.basename(str(m.file)))
        for k in ('functions', 'predicates', 'methods'):
            for m in getattr(t.prog, k)().items:
                for x in m.walk():
                    p = x.pos()
                    if not getattr(p, 'line', None) or type(x).__name__ in SKIP:
                        continue
                    counts['positions'] += 1
                    item = error_manager._items.get(p.id())
                    if item is None:
                        out.append((PLACES[0], {'what': '%s, a part of %s' % (how, m.name()), 'program': fs}))
                        continue
                    places = [(item.node, p)] + [(None, v[1]) for v in item.vias]
                    for node, q in places:
                        f = os.path.basename(str(q.file()))
                        if node is None:
                            node = getattr(error_manager._items.get(q.id()), 'node', None)
                        if id(node) in own and own[id(node)][0] is node:
                            if f not in own[id(node)][1]:
                                out.append((PLACES[1], {'what': '%s: line %s of %s in the translation of %s is said to be in %s' % (
                                    how, node.lineno, sorted(own[id(node)][1]), m.name(), f), 'program': fs}))
                        if getattr(node, 'lineno', q.line()) != q.line() or getattr(node, 'col_offset', q.column()) != q.column():
                            out.append((PLACES[2], {'what': '%s: %s of %s' % (how, (q.line(), q.column()), m.name()), 'program': fs}))
        out = out[:6]
    return name, out, counts


PLACES = ('every position belongs to a construct of the program', 'a position names the file of the construct it belongs to',
          'a position has the line and column of the construct it belongs to')


def places(rep, thorough):
    corpus = os.path.join(env.VERIF, 'corpus')
    fs = sorted(glob.glob(corpus + '/mod/*_a.py') + glob.glob(corpus + '/sel/*.py'))
    more = sorted(f for f in glob.glob(corpus + '/names/*.py') if not os.path.basename(f).startswith('two_'))
    if not thorough:
        more = [f for i, f in enumerate(more) if i % 3 == px.SEED % 3]
    jobs = sorted(fs + more, key=os.path.getsize, reverse=True)
    failed, total, broken = P.run_all(rep, jobs, positions_of, 1500 if thorough else 300)
    P.conclude(rep, 'translated programs', PLACES, failed, total, broken, '%d programs, alone and imported by another' % len(jobs), len(jobs))


def run(rep, thorough):
    places(rep, thorough)
    for m in (E, E + '.manager', E + '.messages', E + '.rules', E + '.wrappers', 'nagini_translation.verifier', 'nagini_translation.translators.common'):
        importlib.import_module(m)
    recording(rep)
    conversion(rep)
    messages(rep)
