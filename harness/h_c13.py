"""C13: positions handed to editors and agents."""
import ast
import asyncio
import dataclasses
import importlib
import itertools
import os
import sys
import tempfile
import types
import jfakes as J
import h_c11 as H
from px import prove, target, Missing

LEVEL = 'proof'
TRUSTED = ['lsprotocol stores what it is given', 'CPython (ast positions are UTF-8 byte offsets)', 'z3']
ASSUMPTIONS = ['positions are at most 2^31-1, the largest the protocol can express',
               'source texts are taken from a family built from every line ending, multi-byte characters and nesting (bounded); '
               'the conversion of a diagnostic itself is proved for all positions']
MIN = 40
L, S = 'nagini_translation.lsp_server', 'nagini_translation.service'
PC = 'nagini_translation.mcp_server'
BIG = 2 ** 31 - 1


def conversion(rep):
    def h(c):
        T = importlib.import_module('lsprotocol.types')
        D, f = target(S, 'Diagnostic'), target(L, '_to_lsp_diagnostic')
        sl, sc, el, ec = (c.int(n, -BIG, BIG) for n in ('start line', 'start column', 'end line', 'end column'))
        has_reason = c.bool('has a reason', split=True)
        has_rp = c.bool('has a reason position', split=True)
        rl, rc = c.int('reason line', -BIG, BIG), c.int('reason column', -BIG, BIG)
        msg, code, file = c.text('message'), c.text('code'), c.text('file')
        reason = 'the reason.' if has_reason else None
        d = D(file, sl, sc, el, ec, msg, code, reason=reason, reason_position=(rl, rc) if has_rp else None)
        before = dict(vars(d))
        got = c.run('to_lsp_diagnostic', f, d, 'file:///doc.py')
        zero = lambda x, k: x - k if x - k >= 0 else 0 * x
        s, e = got.range.start, got.range.end
        c.ensure(s.line >= 0, 'start line is not negative')
        c.ensure(s.character >= 0, 'start column is not negative')
        c.ensure(s.line == zero(sl, 1), 'start line: zero-based line reported')
        c.ensure(s.character == zero(sc, 0), 'start column: the column reported')
        c.ensure(bool(s.line < e.line) or (bool(s.line == e.line) and bool(s.character <= e.character)), 'the range does not end before it starts')
        wl, wc = zero(el, 1), zero(ec, 0)
        if bool(wl > s.line) or (bool(wl == s.line) and bool(wc >= s.character)):
            c.ensure(e.line == wl, 'end line: zero-based line reported')
            c.ensure(e.character == wc, 'end column: the column reported')
        c.ensure(got.severity == T.DiagnosticSeverity.Error, 'severity is error')
        c.same(got.code, code, 'code: the one reported')
        c.ensure(got.source == 'nagini', 'source is nagini')
        if not has_reason:
            c.same(got.message, msg, 'message: the one reported')
        else:
            c.ensure(str(got.message).endswith('the reason.'), 'the message includes the reason', got=str(got.message))
        if not has_rp:
            c.ensure(not got.related_information, 'no related place without a reason position')
        else:
            c.ensure(len(got.related_information) == 1, 'the reason is shown at its place')
            r = got.related_information[0]
            c.ensure(r.location.uri == 'file:///doc.py', 'the reason is in the document')
            c.ensure(r.location.range.start.line == zero(rl, 1), 'reason line: zero-based line reported')
            c.ensure(r.location.range.start.character == zero(rc, 0), 'reason column: the column reported')
            q = r.location.range
            c.ensure(bool(q.start.line < q.end.line) or (bool(q.start.line == q.end.line) and bool(q.start.character <= q.end.character)),
                     'the range of the reason does not end before it starts')
        c.ensure(vars(d) == before, 'the diagnostic is not changed')
    prove(rep, 'lsp_server._to_lsp_diagnostic', h, limit=4000)

    def todict(c):
        D, R = target(S, 'Diagnostic'), target(S, 'VerifyResult')
        f = {n: c.opaque(n) for n in ('file', 'start_line', 'start_col', 'end_line', 'end_col', 'message', 'code', 'severity', 'source', 'reason',
                                      'reason_position', 'vias', 'counterexample', 'branch_conditions')}
        names = dict(file='file', start_line='startLine', start_col='startCol', end_line='endLine', end_col='endCol', message='message', code='code',
                     severity='severity', source='source', reason='reason', reason_position='reasonPosition', vias='vias',
                     counterexample='counterexample', branch_conditions='branchConditions')
        d = D(**f)
        got = d.to_dict()
        c.ensure(set(got) == set(names.values()), 'all documented entries', got=sorted(got))
        for k, v in names.items():
            c.is_(got.get(v), f[k], '%s: its value' % v)
        ok, tf, ca = c.bool('success'), c.bool('translation failed'), c.bool('cancelled')
        n = c.choice('number of diagnostics', [0, 1, 3])
        vp = c.choice('viper program', [None, '', 'field x: Int'])
        dur = c.opaque('duration')
        r = R(ok, [d] * n, dur, translation_failed=tf, cancelled=ca, viper_program=vp).to_dict()
        c.ensure(r['success'] == ok and r['translationFailed'] == tf and r['cancelled'] == ca, 'the outcome is passed on')
        c.is_(r['duration'], dur, 'duration is passed on')
        c.ensure(r['diagnostics'] == [got] * n, 'every diagnostic is passed on in order')
        c.ensure(('viperProgram' in r) == (vp is not None) and r.get('viperProgram') == vp, 'the Viper program is included when requested')
    prove(rep, 'service.to_dict', todict)


TEXTS = [
    'def f(a):\n    Assert(a)\n', 'x = 1', '', '\n', 'x = "é"; Assert(x)\n', '# ü\nx = "\U0001F600", y\n',
    'def f(x: int) -> int:\r\n    s = "äö\U0001F40D"; return x\r\n', 'a = 1\rb = "é" + c\r', 's = """\n\U0001F600""" + y\nz = s\n',
    'x = 1\x0c\nüx = y + 1\n', 'a = "\x0b\x1c\x1d\x85\u2028" + b\nc = d\n', '\ufeffx = "é", y\n', 'é = 1\nprint(é, é)', 'class C:\n  "ß"\n  def g(self): pass\n',
    'x\t=\t"漢字",\ty\n', '"\\\né", y\n']


def editor_lines(text):
    """Lines as the protocol counts them."""
    out, cur, i = [], '', 0
    while i < len(text):
        ch = text[i]
        if ch in '\r\n':
            out.append(cur)
            cur = ''
            if text[i:i + 2] == '\r\n':
                i += 1
        else:
            cur += ch
        i += 1
    out.append(cur)
    return out


def u16(s):
    return sum(2 if ord(ch) > 0xffff else 1 for ch in s)


def cut(lines, l0, c0, l1, c1):
    """The text between two zero-based UTF-16 positions."""
    def idx(line, ch):
        n = 0
        for i, x in enumerate(line):
            if n >= ch:
                return i
            n += u16(x)
        return len(line)
    if l0 == l1:
        return lines[l0][idx(lines[l0], c0):idx(lines[l0], c1)]
    return '\n'.join([lines[l0][idx(lines[l0], c0):]] + lines[l0 + 1:l1] + [lines[l1][:idx(lines[l1], c1)]])


def document(rep):
    def h(c):
        D, f, conv = target(S, 'Diagnostic'), target(L, '_for_document'), target(L, '_to_lsp_diagnostic')
        text = c.choice('text', TEXTS)
        tmp = tempfile.mkdtemp()
        try:
            path = os.path.join(tmp, 'doc.py')
            with open(path, 'wb') as fh:
                fh.write(text.encode('utf-8'))
            body = text[1:] if text.startswith('\ufeff') else text
            lines = editor_lines(body)   # editors do not show the byte order mark
            tree = ast.parse(text.encode('utf-8'))
            seg_src = body.replace('\r\n', '\n').replace('\r', '\n')
            nodes = [n for n in ast.walk(tree) if hasattr(n, 'lineno')]
            ds = [D(path, n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, 'm%d' % i, 'code',
                    reason='r' if i % 2 else None, reason_position=(n.lineno, n.col_offset) if i % 2 else None) for i, n in enumerate(nodes)]
            before = [dict(vars(d)) for d in ds]
            got = f(list(ds), path)
            c.ensure(len(got) == len(ds), 'every diagnostic is shown', text=text)
            c.ensure([dict(vars(d)) for d in ds] == before, 'the result is not changed')
            bad = badr = None
            for n, d, g in zip(nodes, ds, got):
                g = conv(g, 'u')
                r = g.range
                want = ast.get_source_segment(seg_src, n)
                s = cut(lines, r.start.line, r.start.character, r.end.line, r.end.character)
                if s != want and s.replace('\x0c', '') != want:
                    bad = bad or (text, s, want)
                if d.reason_position:
                    q = g.related_information[0].location.range.start
                    if (q.line, q.character) != (r.start.line, r.start.character):
                        badr = badr or (text, q, r.start)
            c.ensure(bad is None, 'the range shown is that of the construct reported', case=repr(bad))
            c.ensure(badr is None, 'the place of the reason is that of the construct reported', case=repr(badr))
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    prove(rep, 'lsp_server._for_document (texts)', h, samples=0, bounded='a family of source texts')

    def odd(c):
        D, f, conv = target(S, 'Diagnostic'), target(L, '_for_document'), target(L, '_to_lsp_diagnostic')
        tmp = tempfile.mkdtemp()
        try:
            path = os.path.join(tmp, 'doc.py')
            if c.bool('the file can be read'):
                with open(path, 'wb') as fh:
                    fh.write(c.choice('contents', [b'x = 1\n', b'', 'é\n'.encode(), b'\xff\xfe\n', b'# coding: nonsense\n', b'# coding: latin-1\nx="\xe9"\n']))
            other = c.bool('in another file')
            file = '/elsewhere/mod.py' if other else path
            sl, sc = c.choice('start', [(1, 0), (0, 0), (-3, -4), (1, 3), (2, 0), (7, 5), (BIG, BIG)])
            el, ec = c.choice('end', [(1, 0), (0, 0), (-1, -1), (1, 99), (3, 0)])
            rp = c.choice('reason position', [None, (1, 0), (-1, -1), (99, 99)])
            d = D(file, sl, sc, el, ec, 'the message', 'code', reason='why', reason_position=rp)
            got = c.run('for_document', f, [d, d], path)
            c.ensure(len(got) == 2, 'no diagnostic is dropped or merged')
            g = conv(got[0], 'u')
            ps = [g.range.start, g.range.end] + [x.location.range.start for x in g.related_information or []]
            c.ensure(all(p.line >= 0 and p.character >= 0 for p in ps), 'positions are not negative', got=repr(ps))
            c.ensure((ps[0].line, ps[0].character) <= (ps[1].line, ps[1].character), 'positions are in order', got=repr(ps))
            c.ensure('the message' in g.message and 'why' in g.message, 'message and reason are kept')
            if other:
                c.ensure((ps[0].line, ps[0].character) == (0, 0) == (ps[1].line, ps[1].character), 'diagnostics of other files are at the start of the document')
                c.ensure('/elsewhere/mod.py' in g.message and str(sl) in g.message, 'and name their file and line', got=g.message)
                c.ensure(len(ps) == 2, 'their reason is not placed into this document')
            elif sl >= 1:
                c.ensure(ps[0].line == sl - 1, 'the line shown is the line reported')
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    prove(rep, 'lsp_server._for_document (positions)', odd, limit=20000, samples=0, budget=200)

    def publish(c):
        mod = target(L, '')
        D, R = target(S, 'Diagnostic'), target(S, 'VerifyResult')
        srv = mod.NaginiLanguageServer()
        try:
            n = c.choice('diagnostics', [0, 1, 3])
            ok, cancelled = c.bool('success'), c.bool('cancelled')
            sel = c.choice('selected', [None, {'C.m'}])
            srv.counterexamples, srv.ignore_global = c.bool('counterexamples'), c.bool('ignore global')
            tmp = tempfile.mkdtemp()
            path = os.path.join(tmp, 'a b.py')
            with open(path, 'w') as fh:
                fh.write('aaaa\n' * 5)
            from pygls import uris
            uri = uris.from_fs_path(path)
            asked, sent = [], []

            class Service:
                def verify(self, p, **k):
                    asked.append((p, k))
                    return R(ok, [D(path, i + 1, i, i + 1, i + 1, 'm%d' % i, 'c') for i in range(n)], 0.5, cancelled=cancelled)

                def cancel(self, job_token=None):
                    pass
            srv.service = Service()
            c.patch(mod.NaginiLanguageServer, 'text_document_publish_diagnostics', lambda self, p: sent.append(p))
            c.patch(mod.NaginiLanguageServer, 'window_log_message', lambda self, p: None)
            old = ['kept']
            srv._last_diagnostics[uri] = old
            asyncio.run(srv.run_verification(uri, sel) if sel else srv.run_verification(uri))
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
            c.ensure(len(asked) == 1 and asked[0][0] == path, 'the document\'s file is verified', got=repr(asked))
            k = asked[0][1]
            c.ensure(k.get('selected') == sel and k.get('counterexample') == srv.counterexamples and k.get('ignore_global') == srv.ignore_global
                     and k.get('job_token') == uri, 'with the options in force', got=repr(k))
            if cancelled:
                c.ensure(not sent and srv._last_diagnostics[uri] is old, 'a cancelled run changes nothing')
                return
            c.ensure(len(sent) == 1 and sent[0].uri == uri, 'diagnostics are published for the document', got=repr(sent))
            got = [(x.range.start.line, x.range.start.character, x.range.end.line, x.range.end.character, x.message) for x in sent[0].diagnostics]
            c.ensure(got == [(i, i, i, i + 1, 'm%d' % i) for i in range(n)], 'every diagnostic is published at its place', got=got)
        finally:
            srv._executor.shutdown()
    prove(rep, 'lsp_server.run_verification (publishing)', publish, samples=0)


def sources():
    """Programs with functions at every place, with the functions' names, lines."""
    out = []
    fn = lambda n, ind, kind='def': '%s%s %s(x):\n%s    pass\n' % (ind, kind, n, ind)
    out.append('')
    out.append('x = 1\n')
    for kind in ('def', 'async def'):
        out.append(fn('f', '', kind) + '\n' + fn('g', '', kind))
        out.append('class C:\n    y = 1\n' + fn('m', '    ', kind) + fn('n', '    ', kind) + fn('f', '', kind))
        out.append('class C:\n    class D:\n' + fn('m', '        ', kind) + '    z = 2\n' + fn('m', '    ', kind))
        out.append('# é\n"""\n\n"""\n@Pure\n@other(1)\n' + fn('f', '', kind))
        out.append('%s f(x):\n    y = 1\n' % kind + fn('inner', '    ', kind) + '    return y\n' + fn('g', '', kind))
        out.append('class C:\n    @property\n' + fn('p', '    ', kind) + '    @p.setter\n' + fn('p', '    ', kind))
        out.append('if True:\n' + fn('f', '    ', kind) + 'else:\n' + fn('g', '    ', kind))
        out.append('try:\n' + fn('f', '    ', kind) + 'except E:\n' + fn('g', '    ', kind) + 'finally:\n    class D:\n' + fn('m', '        ', kind))
        out.append(fn('f', '', kind) + '\x0c\n' + fn('é', '', kind).replace('\n', '\r\n'))
    return out


def expected_functions(src):
    """Every function, by its indentation and keyword, in order of appearance."""
    out, stack = [], []
    for no, line in enumerate(editor_lines(src)):
        s = line.lstrip(' \x0c')
        ind = len(line) - len(s)
        if s and not s.startswith('#'):
            while stack and stack[-1][0] >= ind:
                stack.pop()
        for kw in ('async def ', 'def ', 'class '):
            if s.startswith(kw):
                name = s[len(kw):].split('(')[0].split(':')[0]
                q = '.'.join([x[1] for x in stack] + [name])
                if kw != 'class ':
                    out.append((q, no))
                stack.append((ind, name))
    return out


class LS:
    def __init__(self, source):
        self._last_diagnostics = {}
        self.workspace = types.SimpleNamespace(get_text_document=lambda uri: types.SimpleNamespace(source=source, uri=uri))


def feature(f):
    return getattr(f, '__wrapped__', f)


def listing(rep):
    def h(c):
        src = c.choice('source', sources() + ['def f(:\n', '\x00'])
        T = importlib.import_module('lsprotocol.types')
        mod = target(L, '')
        p = types.SimpleNamespace(text_document=types.SimpleNamespace(uri='file:///d.py'))
        broken = src in ('def f(:\n', '\x00')
        got = c.run('code_lens', target(L, 'code_lens'), LS(src), p)
        want = [] if broken else expected_functions(src)
        have = [(x.command.arguments[1], x.range.start.line) for x in got]
        c.ensure(sorted(have) == sorted(want), 'every function is listed once, with its qualified name and line', got=have, want=want, source=src)
        c.ensure(all(x.range.start.character == 0 == x.range.end.character and x.range.start.line == x.range.end.line for x in got), 'at the start of its line')
        c.ensure(all(x.command.command == 'nagini.verifyMethod' and x.command.arguments[0] == 'file:///d.py' for x in got), 'and verifies that function')
    prove(rep, 'lsp_server.code_lens', h, samples=0, bounded='a family of programs')


def words(rep):
    ALPHA = ['a', '_', '1', ' ', '.', 'é']

    def h(c):
        f = target(L, '_word_at')
        bad = None
        n = c.choice('length', range(0, 6 if c.thorough else 5))
        for tup in itertools.product(ALPHA, repeat=n):
            line = ''.join(tup)
            for pos in range(0, n + 2):
                got = f(line, pos)
                # the maximal run of word characters touching the position
                w = None
                if pos <= n:
                    isw = lambda i: 0 <= i < n and line[i] in 'a_1é'
                    a = pos
                    while isw(a - 1):
                        a -= 1
                    b = pos
                    while isw(b):
                        b += 1
                    w = line[a:b] or None
                if got != w:
                    bad = bad or (line, pos, got, w)
        c.ensure(bad is None, 'the word is the one at the cursor', case=repr(bad))
    prove(rep, 'lsp_server._word_at', h, samples=0, budget=120, bounded='lines of up to 4 characters')

    def hov(c):
        T = importlib.import_module('lsprotocol.types')
        D = target(S, 'Diagnostic')
        eol = c.choice('line ends', ['\n', '\r\n', '\r'])
        pre = c.choice('before the name', ['', 'x = ', '"é"; ', '"\U0001F600\U0001F600"; ', '"\x0c\u2028"; '])
        first = c.choice('first line', ['', '# \x0c\x1c\x85 é', '"""\U0001F600"""'])
        src = eol.join([first, 'def foo(x):', '    Requires(x > 0)', '    Ensures(True)', '    y = 1', '', 'def other(x):', '    Requires(x < 0)', '', 'class C:',
                        '    def meth(self):', '        Ensures(self.é)', '        pass', '', pre + 'foo(1); other(2); meth(3); nothing(4); fo', ''])
        line = 14
        lines = editor_lines(src)
        text = lines[line]
        wanted = {'foo': ['Requires(x > 0)', 'Ensures(True)'], 'other': ['Requires(x < 0)'], 'meth': ['Ensures(self.é)'], 'nothing': None, 'fo': None}
        ls = LS(src)
        ls._last_diagnostics['u'] = [D('f', 3, 0, 4, 1, 'm', 'c', counterexample='x = 5'), D('f', 5, 0, 5, 1, 'm', 'c'),
                                     D('f', 5, 0, 6, 1, 'm', 'c', branch_conditions=['x > 0', 'y'])]
        f = target(L, 'hover')

        def at(l, ch, uri='u'):
            r = f(ls, types.SimpleNamespace(text_document=types.SimpleNamespace(uri=uri), position=types.SimpleNamespace(line=l, character=ch)))
            return None if r is None else r.contents.value
        bad = None
        for word, clauses in wanted.items():
            i = text.rindex(word) if word == 'fo' else text.index(word)
            for k in range(len(word) + 1):
                got = at(line, u16(text[:i + k]))
                if clauses is None:
                    if got is not None:
                        bad = bad or (word, k, got)
                elif got is None or any(x not in got for x in clauses) or any(x in got for w, cs in wanted.items() if w != word for x in cs or ()):
                    bad = bad or (word, k, got)
        c.ensure(bad is None, 'the contract shown is that of the function under the cursor', case=repr(bad))
        for l in range(0, 8):
            got = at(l, 0)
            if l in (2, 3):
                c.ensure(got is not None and 'x = 5' in got, 'a counterexample is shown on the lines of its failure', line=l, got=got)
            elif l in (4, 5):
                c.ensure(got is not None and 'x > 0' in got and 'y' in got, 'branch conditions are shown on the lines of their failure', line=l, got=got)
            else:
                c.ensure(got is None or 'x = 5' not in got, 'and only there', line=l, got=got)
        c.ensure(at(2, 0, 'v') is None or 'x = 5' not in at(2, 0, 'v'), 'and only in its document')
        for l, ch in ((99, 0), (line, 9999), (15, 0), (15, 5)):
            c.ensure(at(l, ch) is None, 'nothing outside the text', line=l, char=ch)
    prove(rep, 'lsp_server.hover', hov, samples=0, bounded='a family of texts, every position in them')


def service_side(rep):
    def inst():
        return object.__new__(target(S, 'VerificationService'))

    def exc(c):
        kind = c.choice('exception', ['invalid', 'invalid with message', 'unsupported', 'unsupported with text'])
        util = importlib.import_module('nagini_translation.lib.util')
        where = c.choice('node', ['with position', 'without position', 'none'])
        line, col = c.int('line', 1, BIG), c.int('column', 0, BIG)
        if where == 'with position':
            n = ast.parse('abc').body[0].value
            n.lineno, n.col_offset = line, col
            n.end_lineno, n.end_col_offset = line, col + 3
        elif where == 'without position':
            n = ast.arguments()
        else:
            n = None
        E = {'invalid': lambda: util.InvalidProgramException(n, 'some.code'),
             'invalid with message': lambda: util.InvalidProgramException(n, 'some.code', 'the text'),
             'unsupported': lambda: util.UnsupportedException(n),
             'unsupported with text': lambda: util.UnsupportedException(n, 'the text')}[kind]()
        got = c.run('exception_diagnostics', inst()._exception_diagnostics, E, '/d.py')
        c.ensure(len(got) == 1, 'one diagnostic')
        d = got[0]
        c.ensure(d.code == ('invalid.program' if 'invalid' in kind else 'unsupported'), 'code: the kind of failure')
        c.ensure(d.message.startswith('Invalid program: ' if 'invalid' in kind else 'Not supported: '), 'message: the kind of failure')
        c.ensure(('the text' in d.message) == ('text' in kind or 'message' in kind) and ('some.code' in d.message) == (kind == 'invalid'), 'message: the detail')
        c.ensure(d.file == '/d.py', 'in the file verified')
        wl, wc = (line, col) if where == 'with position' else (1, 0)
        c.ensure(d.start_line == wl, 'line of the construct')
        c.ensure(d.start_col == wc, 'column of the construct')
        c.ensure(bool(d.end_line > d.start_line) or (bool(d.end_line == d.start_line) and bool(d.end_col >= d.start_col)), 'it does not end before it starts')
    prove(rep, 'service._exception_diagnostics (translation)', exc)

    def typ(c):
        from_ = importlib.import_module('nagini_translation.lib.typeinfo')
        file = c.choice('file', ['__main__', '/w/m.py', 'rel.py', '/a b/é.py'])
        form = c.choice('form', ['full', 'line and column', 'line only', 'no position'])
        ln = c.choice('line', [1, 7, 12345])
        col = c.choice('column', [1, 42])
        el, ec = c.choice('end', [(0, 3), (2, 0), (0, 100)])
        text = c.choice('text', ['Incompatible types in assignment (expression has type "str", variable has type "int")  [assignment]',
                                 'Name "x" is not defined', '']
                        + (['a: b: error: c', '3:4:5: error: x'] if form != 'no position' else []))
        sev = 'error'
        loc = {'full': '%s:%d:%d:%d:%d' % (file, ln, col, ln + el, ec), 'line and column': '%s:%d:%d' % (file, ln, col),
               'line only': '%s:%d' % (file, ln), 'no position': file}[form]
        msg = loc + ': ' + sev + ': ' + text if form != 'no position' else 'mypy: ' + text
        more = c.choice('more messages', [0, 2])
        E = from_.TypeException([msg] + ['/x.py:%d: error: other' % (i + 5) for i in range(more)])
        got = c.run('exception_diagnostics', inst()._exception_diagnostics, E, '/d.py')
        c.ensure(len(got) == 1 + more, 'every message becomes a diagnostic', got=repr(got))
        c.ensure([d.start_line for d in got[1:]] == [5 + i for i in range(more)] and all(d.file == '/x.py' for d in got[1:]), 'in order, each at its place')
        d = got[0]
        c.ensure(d.code == 'type.error', 'code: type error')
        c.ensure(text in d.message, 'message: mypy\'s', got=d.message, msg=msg)
        if form == 'no position':
            c.ensure((d.file, d.start_line, d.start_col) == ('/d.py', 1, 0), 'without a position, at the start of the file')
            return
        c.ensure(d.file == ('/d.py' if file == '__main__' else file), 'file: the one reported', got=d.file, msg=msg)
        c.ensure(d.start_line == ln, 'line: the one reported', got=d.start_line, msg=msg)
        if form == 'line only':
            c.ensure(d.start_col == 0 == d.end_col and d.end_line == ln, 'without columns, the start of the line')
        else:
            c.ensure(d.start_col == col - 1, 'column: zero-based', got=d.start_col, msg=msg)
        if form == 'full':
            c.ensure((d.end_line, d.end_col) == (ln + el, ec), 'end: as reported', got=(d.end_line, d.end_col), msg=msg)
    prove(rep, 'service._exception_diagnostics (mypy)', typ, limit=5000)

    def fail(c):
        """A failure's diagnostics carry its position, also when parts are missing."""
        util = importlib.import_module('nagini_translation.lib.util')
        known = c.bool('position known')
        sl, sc, el, ec = (c.int(n, 0, BIG) for n in ('start line', 'start column', 'end line', 'end column'))
        has_reason = c.bool('has a reason')
        rpk = c.choice('reason position', ['known', 'unknown', 'other file']) if has_reason else 'unknown'
        rl, rc = c.int('reason line', 0, BIG), c.int('reason column', 0, BIG)
        nv = c.choice('vias', [0, 2])
        pos = types.SimpleNamespace(is_known=known, file_name='/imported.py' if known else None, line=sl, column=sc, line_end=el, column_end=ec)
        rfile = '/other.py' if rpk == 'other file' else '/imported.py'
        rpos = types.SimpleNamespace(is_known=rpk != 'unknown', file_name=rfile if rpk != 'unknown' else None, line=rl, column=rc)
        vias = [('via%d' % i, '/v.py:%d.0' % i) for i in range(nv)]
        reason = types.SimpleNamespace(position=rpos, vias=vias, string=lambda *a: 'the reason') if has_reason else None

        class Err:
            full_id, message, bcs, _inputs, _vias = 'the.id', 'the message', ['b > 0'], None, vias
            position = pos

            def __str__(self):
                return 'described'
        e = Err()
        e.reason = reason
        e._inputs = c.choice('counterexample', [None, 'x = 1', ''])
        got = c.run('failure_diagnostics', inst()._failure_diagnostics, types.SimpleNamespace(errors=[e]), '/d.py')
        c.ensure(len(got) == 1, 'one diagnostic')
        d = got[0]
        c.ensure(d.file == ('/imported.py' if known else '/d.py'), 'file: that of the construct')
        c.ensure(d.start_line == sl, 'start line: as reported')
        c.ensure(d.start_col == sc, 'start column: as reported')
        c.ensure(d.end_line == el, 'end line: as reported')
        c.ensure(d.end_col == ec, 'end column: as reported')
        c.ensure(d.code == 'the.id' and d.branch_conditions == ['b > 0'], 'code and branch conditions: as reported')
        c.ensure(d.reason == ('the reason' if has_reason else None), 'reason: as reported')
        c.ensure(('the message' if has_reason else 'described') in d.message, 'message: as reported')
        c.ensure([tuple(v) for v in d.vias] == vias, 'vias: as reported', got=d.vias)
        c.ensure(d.counterexample == e._inputs, 'counterexample: as reported')
        if has_reason and rpk == 'known' and known:
            c.ensure(d.reason_position is not None, 'the reason has its position')
            c.ensure(d.reason_position[0] == rl, 'reason line: as reported')
            c.ensure(d.reason_position[1] == rc, 'reason column: as reported')
        else:
            c.ensure(d.reason_position is None, 'no position for a reason elsewhere')
    prove(rep, 'service._failure_diagnostics', fail)


def agents(rep):
    def h(c):
        mod = target(PC, '')
        tool = c.choice('tool', ['verify_file', 'verify_method', 'verify_snippet'])
        code = c.choice('code', ['x = 1\n', 'x = "é\U0001F600"\r\ny = 2\n', ''])
        opts = c.choice('options', [{}, {'counterexample': True}, {'viper_args': ['--a']}, {'include_viper': True, 'job_token': 't'}])
        seen = []
        out = {'success': c.bool('success'), 'diagnostics': ['d1', 'd2']}

        class Result:
            def to_dict(self):
                return out

        class Service:
            def verify(self, path, **k):
                data = None
                if tool == 'verify_snippet':
                    with open(path, 'rb') as f:
                        data = f.read()
                seen.append((path, k, data))
                return Result()
        c.patch(mod, '_service', Service())
        args = {'verify_file': ('/w/a.py',), 'verify_method': ('/w/a.py', 'C.m'), 'verify_snippet': (code,)}[tool]
        fn = target(PC, tool)
        fn = getattr(fn, 'fn', fn)
        r = asyncio.run(fn(*args, **opts))
        c.ensure(r == out, 'the result is passed on')
        c.ensure(len(seen) == 1, 'verified once')
        path, k, data = seen[0]
        if tool == 'verify_snippet':
            c.ensure(data is not None and data.decode('utf-8') == code, 'the snippet itself is verified', got=repr(data))
            c.ensure(not os.path.exists(path), 'no file is left behind')
        else:
            c.ensure(path == '/w/a.py', 'the file itself is verified')
        c.ensure((k.get('selected') or None) == ({'C.m'} if tool == 'verify_method' else None), 'the selection is passed on', got=k)
        for n in ('counterexample', 'viper_args', 'include_viper', 'job_token'):
            c.ensure((k.get(n) or None) == (opts.get(n) or None), 'options are passed on', name=n, got=k)
    prove(rep, 'mcp_server.verify', h, samples=0)


def run(rep, thorough):
    import px
    px.Ctx.thorough = thorough
    for m in (S, L, PC):
        importlib.import_module(m)
    conversion(rep)
    document(rep)
    listing(rep)
    words(rep)
    service_side(rep)
    agents(rep)
