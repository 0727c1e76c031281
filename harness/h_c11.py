"""C11: the verdict is success only if the backend reported success."""
import argparse
import contextlib
import importlib
import io
import json
import logging
import os
import sys
import types
import ast
import jfakes as J
from px import prove, target, Missing, PathInfeasible

LEVEL = 'proof'
TRUSTED = ['the API of the Java backends as in harness/jfakes.py (results are Success or Failure objects, exceptions surface as JException)',
           'z3', 'CPython']
ASSUMPTIONS = ['what a stage does inside (mypy, translation, backend) is represented by its possible outcomes',
               'server histories are followed for three requests with arbitrary outcomes each (bounded)']
MIN = 40
M = 'nagini_translation.main'
V = 'nagini_translation.verifier'
S = 'nagini_translation.service'

logging.disable(logging.CRITICAL)


class Crash(Exception):
    pass


class Exit(BaseException):
    def __init__(self, code):
        self.code = code


def fresh(c, jvm):
    """Process state as after start-up, restored afterwards; the JVM is `jvm`."""
    config = target('nagini_translation.lib.config', '')
    saved = dict(vars(config))
    info = dict(config.obligation_config._info)

    def undo():
        for k in list(vars(config)):
            if k not in saved:
                delattr(config, k)
        for k, v in saved.items():
            setattr(config, k, v)
        config.obligation_config._info.clear()
        config.obligation_config._info.update(info)
    c.cleanups.append(undo)
    config.obligation_config._info.clear()
    config.classpath, config.z3_path, config.boogie_path = 'viper.jar', '/opt/z3', '/opt/boogie'
    config.use_viper_server = False
    for m in (M, S, V, 'nagini_translation.viper_server', 'nagini_translation.lsp_server'):
        importlib.import_module(m)
    J.patch_all(c, target('nagini_translation.lib.jvmaccess', 'JVM'), lambda cp=None: jvm)
    import jpype
    from jpype._jexception import JException
    J.patch_all(c, JException, J.FakeJException)
    J.patch_all(c, target(M, 'load_sil_files'), lambda *a, **k: 'resources')
    vs = sys.modules['nagini_translation.viper_server']
    if hasattr(vs, '_MANAGER'):
        c.patch(vs, '_MANAGER', None)
    if hasattr(sys.modules[V], '_ARP_PLUGIN'):
        c.patch(sys.modules[V], '_ARP_PLUGIN', None)
    mm = sys.modules[M]
    c.patch(mm, 'sil_programs', 'resources')
    return config


def exc_of(name):
    """An exception a stage may raise."""
    u = importlib.import_module('nagini_translation.lib.util')
    ti = importlib.import_module('nagini_translation.lib.typeinfo')
    node = ast.parse('f(x)').body[0]
    return {
        'type error': lambda: ti.TypeException(['/w/file.py:3:1:3:9: error: bad type', 'odd message']),
        'type error in main': lambda: ti.TypeException(['__main__:3: error: bad type']),
        'no type errors': lambda: ti.TypeException([]),
        'invalid': lambda: u.InvalidProgramException(node, 'invalid.code', 'text'),
        'invalid without message': lambda: u.InvalidProgramException(node, 'invalid.code'),
        'invalid without node': lambda: u.InvalidProgramException(None, 'invalid.code'),
        'unsupported': lambda: u.UnsupportedException(node, 'feature'),
        'unsupported without text': lambda: u.UnsupportedException(node),
        'unsupported without node': lambda: u.UnsupportedException(None, 'feature'),
        'inconsistent': lambda: u.ConsistencyException('consistency.error'),
        'java exception': lambda: J.FakeJException('boom'),
        'crash': lambda: Crash('boom'),
        'missing file': lambda: FileNotFoundError('no such file'),
        'missing key': lambda: KeyError('x'),
        'assertion': lambda: AssertionError(),
    }[name]()


TRANSLATION = ['ok', 'no result', 'type error', 'type error in main', 'no type errors', 'invalid', 'invalid without message',
               'invalid without node', 'unsupported', 'unsupported without text', 'unsupported without node', 'inconsistent',
               'java exception', 'crash', 'missing file', 'missing key', 'assertion']
KNOWN = TRANSLATION[2:12]
BACKEND = ['success', 'failure', 'failure with two errors', 'failure without errors', 'timeout', 'aborted', 'java exception', 'crash']


def raw(outcome):
    if outcome == 'success':
        return J.RawSuccess()
    if outcome.startswith('failure'):
        n = 2 if 'two' in outcome else 0 if 'without' in outcome else 1
        errs = []
        for i in range(n):
            node = J.VNode(J.Pos('/w/file.py', 3 + i, 4, (3 + i, 9)))
            errs.append(J.RawError('assert.failed', node, J.RawReason('assertion.false', node)))
        return J.RawFailure(errs)
    if outcome == 'timeout':
        return J.RawFailure([J.RawTimeout()])
    if outcome == 'aborted':
        return J.RawFailure([J.RawTimeout('AbortedExceptionally', 'aborted')])
    raise exc_of(outcome)


PROG = J.JObj('program')


def translator_stub(outcome, jvm_calls, sel=None):
    def translate(*a, **k):
        jvm_calls.append((a, k))
        o = outcome() if callable(outcome) else outcome
        if o == 'ok':
            if k.get('skip_verification'):
                return J.modules(), None
            return J.modules(), PROG
        if o == 'no result':
            return None
        raise exc_of(o)
    return translate


def args_of(**kw):
    d = dict(select=None, sif=False, ignore_global=False, verbose=False, skip_verification=False, extraction=False, counterexample=False,
             float_encoding=None, int_bitops_size=8, print_viper=False, write_viper_to_file=None, verifier='silicon', viper_arg=None,
             benchmark=-1, submit_for_evaluation=False, disable_branch_conditions=False, ide_mode=False, show_viper_errors=False,
             arp=False, base_dir=None, server=False, viper_server=False)
    d.update(kw)
    return argparse.Namespace(**d)


def quiet(c, f, *a, **k):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            r = 'ok', f(*a, **k)
        except SystemExit as e:
            r = 'exit', e.code
        except Exit as e:
            r = 'exit', e.code
        except Exception as e:
            r = 'exc', e
    return r + (out.getvalue(),)


def command_line(rep):
    def h(c):
        mode = c.choice('verifier', ['silicon', 'carbon', 'server/silicon', 'server/carbon'])
        tr = c.choice('translation', TRANSLATION)
        be = c.choice('backend', BACKEND) if tr == 'ok' else 'success'
        extra = c.choice('options', ['none', 'arp', 'sif', 'ide', 'viper errors', 'verbose', 'select', 'print', 'submit', 'skip', 'benchmark',
                                     'server unavailable', 'backend unavailable'])
        jvm = J.FakeJVM(lambda: raw(be))
        config = fresh(c, jvm)
        calls = []
        J.patch_all(c, target(M, 'translate'), translator_stub(tr, calls))
        kw = dict(verifier=mode.split('/')[-1])
        config.use_viper_server = mode.startswith('server')
        if extra == 'server unavailable':
            jvm.server_fails = True
        if extra == 'backend unavailable':
            jvm.missing |= {'viper.silicon.Silicon', 'viper.carbon.CarbonVerifier', 'viper.server.frontends.lsp.ViperServerService'}
        kw.update({'arp': dict(arp=True), 'sif': dict(sif='true'), 'ide': dict(ide_mode=True), 'viper errors': dict(show_viper_errors=True),
                   'verbose': dict(verbose=True), 'select': dict(select='a,B.c'), 'print': dict(print_viper=True),
                   'submit': dict(submit_for_evaluation=True), 'skip': dict(skip_verification=True), 'benchmark': dict(benchmark=2)
                   }.get(extra, {}))
        a = args_of(**kw)
        jvm.reg['viper.silver.plugin.ARPPlugin'] = lambda: types.SimpleNamespace(
            beforeVerify=lambda p: p, mapVerificationResult=lambda r: r, setIgnoredFields=lambda f: None)
        jvm.reg['scala.collection.mutable.ArraySeq'] = ArraySeq2
        said = []
        kind, r, out = quiet(c, target(M, 'translate_and_verify'), '/w/file.py', jvm, a, said.append, arp=a.arp)
        text = '\n'.join(str(s) for s in said)
        good = tr == 'ok' and be == 'success' and extra != 'backend unavailable'
        if extra == 'skip':
            good = tr == 'ok'
            c.ensure(not jvm.calls, 'nothing is verified when verification is skipped')
        c.ensure((kind == 'ok' and r is True) == good, 'success is reported exactly when translation and backend succeeded', got=repr((kind, r)),
                 text=text)
        if extra != 'skip':
            c.ensure(('Verification successful' in text) == good, 'the output claims success exactly then', text=text)
        expected_failure = tr in KNOWN or tr == 'no result' or tr == 'ok' and be not in ('crash',) and extra != 'backend unavailable'
        if expected_failure and tr != 'java exception' and not good:
            c.ensure(kind == 'ok' and r is False, 'an expected failure is reported, not raised', got=repr((kind, r)))
            c.ensure('failed' in text or 'inconsistenc' in text, 'the output says that it failed', text=text)
        if tr != 'ok':
            c.ensure(not jvm.calls, 'nothing is verified after a failed translation')
        elif extra not in ('skip', 'backend unavailable') and be != 'crash':
            want = mode.split('/')[-1]
            direct = not mode.startswith('server') or extra in ('arp', 'sif', 'server unavailable')
            c.ensure(len(jvm.calls) == (2 if extra == 'benchmark' else 1) or be == 'java exception', 'the program is verified once', n=len(jvm.calls))
            c.ensure(all(x[0] == (want if direct else 'viperserver.' + want) for x in jvm.calls), 'by the backend that was asked for', calls=repr(jvm.calls))
            c.ensure(all(x[2] is PROG for x in jvm.calls), 'the translated program is what is verified')
            if be == 'failure with two errors' and extra != 'benchmark':
                c.ensure(text.count('file.py') >= 2, 'every error is listed', text=text)
    prove(rep, 'main.translate_and_verify', h, limit=6000, budget=200)


class ArraySeq2(J.ArraySeq):
    def __new__(cls, n):
        return J.Seq([None] * n)


def backend_args(rep):
    def h(c):
        mode = c.choice('verifier', ['silicon', 'carbon', 'server/silicon', 'server/carbon'])
        ce, nobc = c.bool('counterexample'), c.bool('no branch conditions')
        user = c.choice('arguments', [None, '--timeout=3', '--a,--b=1'])
        jvm = J.FakeJVM(lambda: J.RawSuccess())
        config = fresh(c, jvm)
        config.use_viper_server = mode.startswith('server')
        J.patch_all(c, target(M, 'translate'), translator_stub('ok', []))
        a = args_of(verifier=mode.split('/')[-1], counterexample=ce, disable_branch_conditions=nobc, viper_arg=user)
        kind, r, out = quiet(c, target(M, 'translate_and_verify'), '/w/file.py', jvm, a, lambda s: None)
        c.ensure(kind == 'ok' and r is True and len(jvm.calls) == 1, 'verified', got=repr((kind, r)))
        if not jvm.calls:
            return
        api, args, prog = jvm.calls[0]
        args = [str(x) for x in args]
        us = user.split(',') if user else []
        silicon = mode.endswith('silicon')
        c.ensure(args[len(args) - len(us):] == us or all(u in args for u in us), 'the user\'s arguments reach the backend', args=args)
        own = [x for x in args if x not in us]
        c.ensure('--z3Exe' in own and own[own.index('--z3Exe') + 1] == '/opt/z3', 'the configured Z3 is used')
        plugins = [x.split('=', 1)[1] if '=' in x else own[own.index(x) + 1] for x in own if x.split('=')[0] == '--plugin']
        c.ensure(len(plugins) == 1 and set(p.rsplit('.', 1)[1] for p in plugins[0].split(':')) == {
            'RefutePlugin', 'TerminationPlugin', 'PredicateInstancePlugin'}, 'the plugins that encode Refute and termination are enabled', args=own)
        c.ensure('--disableDefaultPlugins' in own, 'no other plugin is enabled')
        if silicon:
            c.ensure(('--enableBranchconditionReporting' in own) == (not nobc), 'branch conditions are reported as configured')
            c.ensure(any(x.startswith('--counterexample') for x in own) == bool(ce), 'counterexamples are produced as configured')
            allowed = {'--assumeInjectivityOnInhale', '--z3Exe', '/opt/z3', '--disableCatchingExceptions', '--exhaleMode=2',
                       '--alternativeFunctionVerificationOrder', '--z3ResourcesPerMillisecond=9000', '--disableDefaultPlugins',
                       '--enableBranchconditionReporting', '--counterexample=native', '--proverArgs=model.partial=true'}
        else:
            c.ensure('--boogieExe' in own and own[own.index('--boogieExe') + 1] == '/opt/boogie', 'the configured Boogie is used')
            allowed = {'--assumeInjectivityOnInhale', '--boogieExe', '/opt/boogie', '--z3Exe', '/opt/z3', '--disableDefaultPlugins'}
        odd = [x for x in own if x not in allowed and not x.startswith('--plugin') and not x.startswith('viper.silver.plugin')]
        c.ensure(not odd, 'no option that would skip a check is passed', odd=odd)
    prove(rep, 'verifier.backend_args', h)


def exit_status(rep):
    def h(c):
        tr = c.choice('translation', TRANSLATION)
        be = c.choice('backend', BACKEND) if tr == 'ok' else 'success'
        server = c.bool('viper server')
        flags = c.choice('flags', [[], ['--ignore-obligations'], ['--force-obligations'], ['--verifier', 'carbon'], ['--select', 'f'],
                                   ['--sif', 'poss'], ['--ide-mode'], ['--skip-verification'], ['--viper-arg=--timeout=3']])
        jvm = J.FakeJVM(lambda: raw(be))
        config = fresh(c, jvm)
        calls = []
        J.patch_all(c, target(M, 'translate'), translator_stub(tr, calls))

        def _exit(code):
            raise Exit(code)
        c.patch(os, '_exit', _exit)
        c.patch(sys, 'argv', ['nagini', '/w/file.py', '--viper-jar-path', 'v.jar', '--z3', '/opt/z3', '--boogie', '/opt/boogie'] + flags +
                (['--viper-server'] if server else []))
        kind, r, out = quiet(c, target(M, 'main'))
        good = tr == 'ok' and (be == 'success' or '--skip-verification' in flags)
        ended0 = kind == 'exit' and r in (0, None) or kind == 'ok'
        c.ensure(ended0 == good, 'exit status 0 exactly when the file verified', got=repr((kind, r)))
        if '--ignore-obligations' in flags or '--force-obligations' in flags:
            c.ensure(config.obligation_config.disable_all == ('--ignore-obligations' in flags), 'obligations are checked as asked')
        elif calls:
            c.ensure(config.obligation_config.disable_all is None, 'obligations are checked if the program has any')
    prove(rep, 'main.main', h, limit=5000, budget=120)

    def bad(c):
        flags = c.choice('flags', [['--verifier', 'z3'], ['--ignore-obligations', '--force-obligations'], ['--sif', 'no'],
                                   ['--float-encoding', 'x'], ['--verifier', 'carbon', '--counterexample'], ['--log', 'nope'], ['--nope']])
        jvm = J.FakeJVM(lambda: J.RawSuccess())
        fresh(c, jvm)
        J.patch_all(c, target(M, 'translate'), translator_stub('ok', []))
        c.patch(sys, 'argv', ['nagini', '/w/file.py', '--viper-jar-path', 'v.jar', '--z3', '/opt/z3'] + flags)
        kind, r, out = quiet(c, target(M, 'main'))
        c.ensure(kind == 'exit' and r not in (0, None), 'unusable options are refused', got=repr((kind, r)))
        c.ensure(not jvm.calls, 'nothing is verified with unusable options')
    prove(rep, 'main.main (invalid options)', bad)


REQUESTS = ['ok', 'fails', 'invalid', 'type error', 'crash', 'java exception', 'backend crash', 'timeout', 'not json', 'json list', 'no file',
            'select list', 'not utf-8']


def server(rep):
    """--server: every request gets its own verdict."""
    def h(c):
        import zmq
        n = 3
        kinds = [c.choice('request %d' % i, REQUESTS if i == 1 else REQUESTS[:7] if i == 2 else ['ok', 'fails', 'crash', 'select list'])
                 for i in range(n)]
        files = ['/w/file%d.py' % i for i in range(n)]
        current = []

        def outcome():
            k = current[-1]
            if k == 'fails':
                return raw('failure')
            if k == 'backend crash':
                raise J.FakeJException()
            if k == 'timeout':
                return raw('timeout')
            return J.RawSuccess()
        jvm = J.FakeJVM(outcome)
        fresh(c, jvm)
        seen = []

        def translate(path, *a, **k):
            seen.append((path, k.get('selected')))
            if path is None:
                raise TypeError('expected str')
            m = [i for i, f in enumerate(files) if f == path]
            if not m:
                raise FileNotFoundError(path)
            kd = kinds[m[0]]
            current.append(kd)
            if kd in ('invalid', 'type error', 'crash', 'java exception'):
                raise exc_of(kd)
            return J.modules(), PROG
        J.patch_all(c, target(M, 'translate'), translate)

        def encode(i):
            k = kinds[i]
            if k == 'not json':
                return files[i].encode()
            if k == 'json list':
                return json.dumps([files[i]]).encode()
            if k == 'no file':
                return b'{}'
            if k == 'select list':
                return json.dumps({'file': files[i], 'select': ['f']}).encode()
            if k == 'not utf-8':
                return b'\xff\xfe'
            return json.dumps({'file': files[i], 'select': 'f,C.g' if i == 2 else None}).encode()
        replies, todo = [], list(range(n))

        class Socket:
            def bind(self, a):
                pass

            def recv(self, *a):
                if not todo:
                    raise Exit('no more requests')
                if len(replies) != n - len(todo):
                    raise Exit('request before reply')
                return encode(todo.pop(0))

            def recv_string(self, *a, **k):
                return self.recv().decode('utf-8')

            def send_string(self, s, *a, **k):
                replies.append(s)

            def send(self, b, *a):
                replies.append(b.decode())

        class Context:
            def socket(self, t):
                return Socket()
        c.patch(zmq, 'Context', Context)
        c.patch(sys, 'argv', ['nagini', '--server', 'x', '--viper-jar-path', 'v.jar', '--z3', '/opt/z3'])
        kind, r, out = quiet(c, target(M, 'main'))
        c.ensure(kind == 'exit' and r == 'no more requests', 'the server answers every request', got=repr((kind, r)))
        c.ensure(len(replies) == n, 'one reply per request', replies=replies)
        for i, (k, rp) in enumerate(zip(kinds, replies)):
            good = k in ('ok', 'not json')
            c.ensure(('Verification successful' in rp) == good, 'each reply reports the verdict of its own request', request=k, reply=rp)
            if not good:
                c.ensure('failed' in rp, 'a failed request is reported as failed', request=k, reply=rp)
            if k == 'ok':
                c.ensure((files[i], {'f', 'C.g'} if i == 2 else set()) in [(a, set(b or ())) for a, b in seen],
                         'the request\'s own selection is used', seen=repr(seen))
    prove(rep, 'main.server', h, limit=5000, budget=120, bounded='histories of three requests')

    def client(c):
        import zmq
        path = c.choice('file', ['/w/a.py', 'b c.py', '/ü/"x".py', 'nul', '{}'])
        select = c.choice('select', [None, 'f', 'f,C.g'])
        sent = []

        class Socket:
            def connect(self, a):
                sent.append(a)

            def send_string(self, s):
                sent.append(s)

            def recv_string(self):
                return 'reply text'

        class Context:
            def socket(self, t):
                return Socket()
        mod = target('nagini_translation.client', '')
        c.patch(zmq, 'Context', Context)
        c.patch(sys, 'argv', ['nagini_client', path] + (['--select', select] if select else []))
        kind, r, out = quiet(c, mod.main)
        c.ensure(kind == 'ok' and 'reply text' in out, 'the client prints the reply', got=repr((kind, r)))
        req = sent[-1]
        f, sel = target(M, '_parse_client_request')(req)
        c.ensure(f == path and (sel or set()) == (set(select.split(',')) if select else set()),
                 'the server understands the client\'s request', got=repr((f, sel)))
        consts = target('nagini_translation.lib.constants', '')
        c.ensure(sent[0].rsplit(':', 1)[1] == consts.DEFAULT_SERVER_SOCKET.rsplit(':', 1)[1], 'client and server use the same port')
    prove(rep, 'client.main', client, bounded='five file names')


def make_service(c, jvm, **kw):
    cls = target(S, 'VerificationService')
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        return cls(z3_path='/opt/z3', viper_jar_path='v.jar', boogie_path='/opt/boogie', **kw)


def service(rep):
    def h(c):
        tr = c.choice('translation', TRANSLATION)
        be = c.choice('backend', BACKEND + ['cancelled']) if tr == 'ok' else 'success'
        backend = c.choice('verifier', ['silicon', 'carbon'])
        use_server = c.bool('viper server')
        opts = c.choice('request', [{}, {'arp': True}, {'selected': {'f'}}, {'job_token': 'job'}, {'include_viper': True, 'counterexample': True}])
        sif = c.choice('sif', [False, 'true'])
        broken = c.choice('server start', ['works', 'fails']) if use_server else 'works'
        jvm = J.FakeJVM(lambda: raw(be if be != 'cancelled' else 'java exception'))
        jvm.server_fails = broken == 'fails'
        jvm.reg['viper.silver.plugin.ARPPlugin'] = lambda: types.SimpleNamespace(
            beforeVerify=lambda p: p, mapVerificationResult=lambda r: r, setIgnoredFields=lambda f: None)
        jvm.reg['scala.collection.mutable.ArraySeq'] = ArraySeq2
        fresh(c, jvm)
        calls = []
        J.patch_all(c, target(M, 'translate'), translator_stub(tr, calls))
        s = make_service(c, jvm, verifier_backend=backend, use_viper_server=use_server, sif=sif)
        kind, r, out = quiet(c, s.verify, '/w/file.py', **opts)
        good = tr == 'ok' and be == 'success'
        c.ensure((kind == 'ok' and r.success is True) == good, 'success is reported exactly when translation and backend succeeded',
                 got=repr((kind, r)))
        if kind == 'ok':
            d = r.to_dict()
            c.ensure(d['success'] is r.success and len(d['diagnostics']) == len(r.diagnostics), 'the structured result has the same verdict')
            if good:
                c.ensure(not r.diagnostics and not r.translation_failed and not r.cancelled, 'a success has no diagnostics')
            elif be == 'success':
                c.ensure(r.translation_failed is True, 'a failed translation is marked as one')
                c.ensure(len(r.diagnostics) >= 1 or tr == 'no type errors', 'a failed translation has a diagnostic')
                c.ensure(not jvm.calls, 'nothing is verified after a failed translation')
            else:
                c.ensure(not r.translation_failed, 'a verification failure is not a translation failure')
                n = {'failure': 1, 'failure with two errors': 2, 'timeout': 1, 'aborted': 1}.get(be)
                if n:
                    c.ensure(len(r.diagnostics) == n, 'one diagnostic per error', got=repr(r.diagnostics))
                    c.ensure(not r.cancelled, 'a verification failure is not a cancellation')
                elif not r.cancelled and be != 'failure without errors':
                    c.ensure(len(r.diagnostics) >= 1, 'an internal failure has a diagnostic')
            if 'include_viper' in opts and tr == 'ok':
                c.ensure(r.viper_program == str(PROG), 'the Viper program is included on request')
        elif tr == 'ok' and be not in ('crash',) or tr in KNOWN + ['no result']:
            c.ensure(False, 'an expected failure is a result, not an exception', got=repr(r))
        if jvm.calls:
            direct = not use_server or broken == 'fails' or 'arp' in opts or sif
            c.ensure(all(x[0] == (backend if direct else 'viperserver.' + backend) for x in jvm.calls), 'the configured backend is used',
                     calls=repr(jvm.calls), direct=direct)
            c.ensure(len(jvm.calls) == 1 and jvm.calls[0][2] is PROG, 'the translated program is verified once')
        if calls:
            a, k = calls[0]
            c.ensure(set(k.get('selected') or ()) == set(opts.get('selected', ())), 'the selection reaches the translation')
    prove(rep, 'service.verify', h, limit=8000, budget=200)


def frontends(rep):
    import asyncio

    def mcp(c):
        mod = target('nagini_translation.mcp_server', '')
        SR = target(S, 'VerifyResult')
        D = target(S, 'Diagnostic')
        ok = c.bool('verified')
        canc = c.bool('cancelled') if not ok else False
        tf = c.bool('translation failed') if not ok else False
        fn = c.choice('tool', ['verify_file', 'verify_method', 'verify_snippet'])
        method = c.choice('method', [None, 'f', 'C.g'])
        got = []
        diags = [] if ok else [D('/w/f.py', 1, 0, 1, 2, 'm', 'code')]

        class Service:
            def verify(self, path, **k):
                got.append((path, k, open(path).read() if fn == 'verify_snippet' else None))
                return SR(ok, diags, 1.5, translation_failed=tf, cancelled=canc)
        c.patch(mod, '_service', Service())
        if fn == 'verify_file':
            r = asyncio.run(mod.verify_file('/w/f.py', method=method, counterexample=True, job_token='t', base_dir='/w', viper_args=['--x']))
        elif fn == 'verify_method':
            r = asyncio.run(mod.verify_method('/w/f.py', method or 'f', counterexample=True, job_token='t', viper_args=['--x']))
        else:
            r = asyncio.run(mod.verify_snippet('x = 1\n', counterexample=True, job_token='t', viper_args=['--x']))
        c.ensure(r['success'] is ok and r['cancelled'] is canc and r['translationFailed'] is tf, 'the tool reports the verdict of the service')
        c.ensure(len(r['diagnostics']) == len(diags), 'all diagnostics are reported')
        c.ensure(len(got) == 1, 'verified once')
        path, k, text = got[0]
        sel = set(k.get('selected') or ())
        want = {method or 'f'} if fn == 'verify_method' else {method} if fn == 'verify_file' and method else set()
        c.ensure(sel == want, 'exactly the requested method is selected', got=sel)
        c.ensure(k.get('counterexample') is True and k.get('job_token') == 't' and k.get('viper_args') == ['--x'], 'the request\'s options are used')
        if fn == 'verify_snippet':
            c.ensure(text == 'x = 1\n', 'the snippet itself is verified')
            c.ensure(not os.path.exists(path), 'the temporary file is removed')
        else:
            c.ensure(path == '/w/f.py', 'the requested file is verified')
    prove(rep, 'mcp_server tools', mcp)

    def lsp(c):
        mod = target('nagini_translation.lsp_server', '')
        SR = target(S, 'VerifyResult')
        D = target(S, 'Diagnostic')
        ok = c.bool('verified')
        n = c.choice('errors', [1, 2, 3]) if not ok else 0
        canc = c.bool('cancelled') if not ok else False
        crash = c.bool('crash') if not ok else False
        diags = [D('/w/f.py', i + 1, 0, i + 1, 2, 'm%d' % i, 'code') for i in range(n)]

        class Service:
            def verify(self, path, **k):
                if crash:
                    raise Crash()
                return SR(ok, diags, 1.5, cancelled=canc)

            def cancel(self, job_token=None):
                pass
        srv = mod.NaginiLanguageServer()
        srv.service = Service()
        pub, log = [], []
        c.patch(srv, 'text_document_publish_diagnostics', pub.append)
        c.patch(srv, 'window_log_message', log.append)
        asyncio.run(srv.run_verification('file:///w/f.py'))
        text = ' '.join(m.message for m in log)
        c.ensure(('successful' in text) == (ok and not canc), 'success is announced exactly when the file verified', text=text)
        if crash or canc:
            c.ensure(not pub, 'nothing is published for a run without a verdict')
        else:
            c.ensure(len(pub) == 1 and len(pub[0].diagnostics) == n, 'every diagnostic is published', got=repr(pub))
        srv._executor.shutdown()
    prove(rep, 'lsp_server.run_verification', lsp)


OB_FREE = 'from nagini_contracts.contracts import *\ndef f(x: int) -> int:\n    return x\n'
OB = ('from nagini_contracts.contracts import *\nfrom nagini_contracts.obligations import MustTerminate\ndef g(x: int) -> int:\n'
      '    Requires(MustTerminate(1))\n    return x\n')
BAD = 'from nagini_contracts.contracts import *\ndef h(x: int) -> int:\n    def inner() -> None:\n        pass\n    return x\n'
ILL = 'def h(x: int) -> int:\n    return "a"\n'
PURE = 'from nagini_contracts.contracts import *\n@Pure\ndef g(x: int) -> int:\n    Requires(x > 0)\n    return x + 1\n'


def histories(rep):
    """Translating a program does not depend on what the process did before."""
    import fakejvm
    import tempfile
    progs = {'plain': OB_FREE, 'obligations': OB, 'unsupported': BAD, 'ill-typed': ILL, 'pure': PURE}

    def text(jvm, path, **k):
        tr = target(M, 'translate')
        try:
            r = tr(path, jvm, 8, **k)
        except Exception as e:
            return type(e).__name__
        mods, prog = r
        return '\n'.join(sorted(str(m) for m in list(prog.methods().items) + list(prog.functions().items)
                                if hasattr(m.pos(), 'line')))
    base = {}
    with tempfile.TemporaryDirectory() as d:
        for n, src in progs.items():
            with open(os.path.join(d, n.replace('-', '_') + '.py'), 'w') as f:
                f.write(src)

        def h(c):
            jvm = fakejvm.install()
            a = c.choice('before', list(progs))
            b = c.choice('file', ['obligations', 'plain', 'pure'])
            out = io.StringIO()
            config = target('nagini_translation.lib.config', '')
            info = dict(config.obligation_config._info)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                if b not in base:
                    config.obligation_config._info.clear()
                    base[b] = text(jvm, os.path.join(d, b + '.py'))
                    config.obligation_config._info.clear()
                text(jvm, os.path.join(d, a.replace('-', '_') + '.py'))
                got = text(jvm, os.path.join(d, b + '.py'))
            config.obligation_config._info.clear()
            config.obligation_config._info.update(info)
            c.ensure(('MustTerminate' in base['obligations']) if 'obligations' in base else True, 'obligations are checked')
            c.ensure(got == base[b], 'the same program is verified whatever was translated before', before=a, file=b)
        prove(rep, 'main.translate', h, samples=0, budget=200, bounded='pairs of five programs')


def results(rep):
    """The direct backends turn results into verdicts."""
    def h(c):
        which = c.choice('backend', ['Silicon', 'Carbon', 'ViperServer'])
        n = c.choice('errors', [-1, 0, 1, 2, 3, 4])
        jvm = J.FakeJVM(lambda: J.RawSuccess() if n < 0 else J.RawFailure(
            [J.RawError('assert.failed', J.VNode(J.Pos('/w/f.py', i + 1, 0)), J.RawReason('assertion.false', J.VNode(J.Pos('/w/f.py', i + 1, 0))))
             for i in range(n)]))
        fresh(c, jvm)
        if which == 'ViperServer':
            mod = target('nagini_translation.viper_server', '')
            v = mod.ViperServer(jvm, mod.get_viper_server_manager(jvm), 'f.py', [], False, False)
        elif which == 'Silicon':
            v = target(V, 'Silicon')(jvm, 'f.py', [], False, False)
        else:
            v = target(V, 'Carbon')(jvm, 'f.py', [])
        r = v.verify(['modules'], PROG)
        Su, Fa = target(V, 'Success'), target(V, 'Failure')
        c.ensure(isinstance(r, Su) == (n < 0) and isinstance(r, Fa) == (n >= 0), 'success exactly for a successful result', got=repr(r))
        c.ensure(bool(r) == (n < 0), 'the result is truthy exactly when successful')
        if n >= 0:
            c.ensure(len(r.errors) == n and [e.position.line for e in r.errors] == list(range(1, n + 1)), 'every backend error is kept, in order')
            s = r.to_string(False, False)
            c.ensure('failed' in s and 'successful' not in s, 'a failure says so')
        v.stop()
    prove(rep, 'verifier.verify', h, bounded='up to four errors')


def run(rep, thorough):
    results(rep)
    command_line(rep)
    backend_args(rep)
    exit_status(rep)
    server(rep)
    service(rep)
    frontends(rep)
    histories(rep)
