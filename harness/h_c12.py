"""C12: requests to a shared verification service do not influence each other."""
import contextlib
import importlib
import io
import itertools
import logging
import os
import sys
import threading
import types
import jfakes as J
import h_c11 as H
from px import prove, target, Missing, PathInfeasible

LEVEL = 'proof'
TRUSTED = ['the API of the Java backends as in harness/jfakes.py', 'z3', 'CPython',
           'opaque option values stand for all values (parametricity); falsy ones are kept apart']
ASSUMPTIONS = ['request histories are followed for a first request with any outcome and a second one (bounded to two)',
               'schedules: one pre-emption at every line of a request (bounded)']
MIN = 30
M, S = H.M, H.S

# the documented client-facing options and the constructor arguments they stand for
OPTIONS = {'z3Path': 'z3_path', 'viperJarPath': 'viper_jar_path', 'boogiePath': 'boogie_path', 'mypyPath': 'mypy_path',
           'verifier': 'verifier_backend', 'sif': 'sif', 'intBitopsSize': 'int_bitops_size', 'floatEncoding': 'float_encoding',
           'useViperServer': 'use_viper_server', 'disableBranchConditions': 'disable_branch_conditions'}


class Val:
    """An option value of which only the truth value is known."""
    def __init__(self, n, truth):
        self.n, self.truth = n, truth

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return '<%s %s>' % (self.n, 'truthy' if self.truth else 'falsy')


ABSENT = object()


def option_tables(rep):
    keys = list(OPTIONS)

    def kwargs(c):
        f = target(S, 'options_to_kwargs')
        kind = c.choice('options', ['dict', 'object', 'none', 'empty'])
        extra = c.choice('other keys', [{}, {'unknown': 1, 'counterexamples': True, 'z3_path': 'x', None: 2}])
        if kind in ('none', 'empty'):
            c.ensure(f(None if kind == 'none' else {}) == {}, 'no options, no arguments')
            return
        if kind == 'object' and None in extra:
            extra = {'unknown': 1}
        states = [ABSENT, None, Val('v', True), Val('v', False)] if kind == 'dict' else [ABSENT, None, Val('v', False)]
        bad = None
        n = 0
        for st in itertools.product(states, repeat=len(keys)) if kind == 'dict' else itertools.product(states[1:], repeat=len(keys)):
            o = {k: v for k, v in zip(keys, st) if v is not ABSENT}
            o.update(extra)
            before = dict(o)
            want = {OPTIONS[k]: v for k, v in o.items() if k in OPTIONS and v is not None}
            arg = o if kind == 'dict' else types.SimpleNamespace(**o)
            got = f(arg)
            n += 1
            if got.keys() != want.keys() or any(got[k] is not want[k] for k in want):
                bad = bad or ('arguments', before, got)
            elif (o if kind == 'dict' else vars(arg)) != before:
                bad = bad or ('mutated', before, o)
        c.ensure(bad is None or bad[0] != 'arguments', 'exactly the recognised non-null options become arguments, with their values', case=repr(bad))
        c.ensure(bad is None or bad[0] != 'mutated', 'the options are not changed', case=repr(bad))
    prove(rep, 'service.options_to_kwargs', kwargs, samples=0, budget=120)

    def merge(c):
        f = target('nagini_translation.lsp_server', 'merge_service_options')
        bad = None
        for st in itertools.product([ABSENT, None, Val('new', False)], repeat=len(keys)):
            o = {k: v for k, v in zip(keys, st) if v is not ABSENT}
            o['unknown'] = 1
            base = {OPTIONS[k]: Val('old', True) for k in keys[:7]}
            base['other'] = 3
            b0 = dict(base)
            want = dict(base)
            want.update({OPTIONS[k]: v for k, v in o.items() if k in OPTIONS and v is not None})
            got = f(base, o)
            if base != b0 or got is base:
                bad = bad or ('mutated', o, base)
            elif got.keys() != want.keys() or any(got[k] is not want[k] for k in want):
                bad = bad or ('merged', o, got)
        c.ensure(bad is None or bad[0] != 'mutated', 'the defaults are not changed', case=repr(bad))
        c.ensure(bad is None or bad[0] != 'merged', 'given options override the defaults, the others keep them', case=repr(bad))
    prove(rep, 'lsp_server.merge_service_options', merge, samples=0, budget=120)

    def init(c):
        mod = target('nagini_translation.lsp_server', '')
        srv = mod.NaginiLanguageServer()
        try:
            ce0, ig0 = c.bool('counterexamples before'), c.bool('ignore global before')
            srv.counterexamples, srv.ignore_global = ce0, ig0
            base = {'z3_path': 'old', 'sif': 'true'}
            srv.service_kwargs = base
            shape = c.choice('shape', ['dict', 'object', 'none', 'empty'])
            ce = c.choice('counterexamples', [ABSENT, None, True, False, 0, 1])
            ig = c.choice('ignoreGlobal', [ABSENT, None, True, False])
            z3 = c.choice('z3Path', [ABSENT, None, 'new'])
            o = {k: v for k, v in (('counterexamples', ce), ('ignoreGlobal', ig), ('z3Path', z3)) if v is not ABSENT}
            o['unknown'] = 5
            srv.apply_initialization_options({'dict': o, 'object': types.SimpleNamespace(**o), 'none': None, 'empty': {}}[shape])
            given = shape in ('dict', 'object')
            c.ensure(srv.counterexamples == (bool(ce) if given and ce not in (ABSENT, None) else ce0), 'counterexamples: given or as before')
            c.ensure(srv.ignore_global == (bool(ig) if given and ig not in (ABSENT, None) else ig0), 'ignoreGlobal: given or as before')
            want = {'z3_path': 'new' if given and z3 == 'new' else 'old', 'sif': 'true'}
            c.ensure(srv.service_kwargs == want, 'service options: given or as before', got=srv.service_kwargs)
            c.ensure(base == {'z3_path': 'old', 'sif': 'true'}, 'the defaults are not changed')
        finally:
            srv._executor.shutdown()
    prove(rep, 'lsp_server.apply_initialization_options', init, samples=20)

    def cli(c):
        import argparse
        add, kw = target(S, 'add_service_arguments'), target(S, 'service_kwargs_from_args')
        H.fresh(c, J.FakeJVM())
        given = c.choice('flag', [[], ['--viper-jar-path', 'j'], ['--z3', 'z'], ['--boogie', 'b'], ['--mypy-path', 'm'], ['--verifier', 'carbon'],
                                  ['--sif', 'true'], ['--int-bitops-size', '16'], ['--float-encoding', 'real'], ['--disable-branch-conditions'],
                                  ['--no-viper-server']])
        p = argparse.ArgumentParser()
        add(p)
        got = kw(p.parse_args(given))
        want = dict(z3_path='/opt/z3', viper_jar_path='viper.jar', boogie_path='/opt/boogie', mypy_path=target('nagini_translation.lib.config', '').mypy_path,
                    int_bitops_size=8, use_viper_server=True, verifier_backend='silicon', sif=False, float_encoding=None,
                    disable_branch_conditions=False)
        want.update({'--viper-jar-path': {'viper_jar_path': 'j'}, '--z3': {'z3_path': 'z'}, '--boogie': {'boogie_path': 'b'},
                     '--mypy-path': {'mypy_path': 'm'}, '--verifier': {'verifier_backend': 'carbon'}, '--sif': {'sif': 'true'},
                     '--int-bitops-size': {'int_bitops_size': 16}, '--float-encoding': {'float_encoding': 'real'},
                     '--disable-branch-conditions': {'disable_branch_conditions': True}, '--no-viper-server': {'use_viper_server': False}
                     }[given[0]] if given else {})
        c.ensure(got == want, 'each flag sets its own option, the others keep their defaults', got=got, want=want)
    prove(rep, 'service.service_kwargs_from_args', cli)


def locks_free(c, s, label):
    held = [k for k, v in vars(s).items() if hasattr(v, 'acquire') and hasattr(v, 'locked') and v.locked()]
    c.ensure(not held, label, held=held)


DEFAULTS = dict(verifier='silicon', sif=False, intBitopsSize=8, floatEncoding=None, useViperServer=True, disableBranchConditions=False,
                z3Path='/opt/z3', boogiePath='/opt/boogie', mypyPath='/my')


def reconfigure(rep):
    def h(c):
        broken = c.bool('resources cannot be loaded')
        first = c.choice('first change', [{}, {'sif': 'true', 'int_bitops_size': 16}, {'float_encoding': 'real', 'verifier_backend': 'carbon'}])
        jvm = J.FakeJVM(lambda: J.RawSuccess())
        config = H.fresh(c, jvm)
        config.mypy_path = '/my'
        loads, fail = [], [False]

        def load(jvm_, bv, sif=False, fl=None, **k):
            loads.append((bv, sif, fl))
            if fail[0]:
                raise FileNotFoundError('resources')
            return ('resources', bv, sif, fl)
        J.patch_all(c, sys.modules[M].load_sil_files, load)
        s = H.make_service(c, jvm)
        mm = sys.modules[M]
        c.ensure(s.current_options() == DEFAULTS, 'a new service has the configured options', got=s.current_options())
        c.ensure(loads == [(8, False, None)] and mm.sil_programs == ('resources', 8, False, None), 'its resources match its options', loads=loads)
        s.reconfigure(**first)
        want0 = dict(DEFAULTS)
        inv = {v: k for k, v in OPTIONS.items()}
        want0.update({inv[k]: v for k, v in first.items()})
        c.ensure(s.current_options() == want0, 'a change is effective', got=s.current_options())
        svars, cvars, sil = dict(vars(s)), dict(vars(config)), mm.sil_programs
        dims = [('z3_path', [ABSENT, None, '/new']), ('boogie_path', [ABSENT, '/new']), ('mypy_path', [ABSENT, None, '/new']),
                ('verifier_backend', [ABSENT, 'carbon', 'silicon']), ('use_viper_server', [ABSENT, False, True]),
                ('disable_branch_conditions', [ABSENT, True, False]), ('sif', [ABSENT, None, False, 'true']),
                ('int_bitops_size', [ABSENT, 8, 16]), ('float_encoding', [ABSENT, None, 'real']), ('viper_jar_path', [ABSENT, 'j'])]
        bad = {}
        for combo in itertools.product(*[d[1] for d in dims]):
            o = {k: v for (k, _), v in zip(dims, combo) if v is not ABSENT}
            vars(s).update(svars)
            vars(config).update(cvars)
            mm.sil_programs = sil
            del loads[:]
            fail[0] = broken
            try:
                got = s.reconfigure(**o)
                kind = 'ok'
            except FileNotFoundError:
                kind, got = 'exc', None
            want = dict(want0)
            want.update({inv[k]: v for k, v in o.items() if v is not None and k != 'viper_jar_path'})
            alt = dict(want, floatEncoding=None) if 'float_encoding' in o and o['float_encoding'] is None else want
            now = s.current_options()
            need = any(now[k] != want0[k] for k in ('sif', 'intBitopsSize', 'floatEncoding'))
            if kind == 'ok':
                if now not in (want, alt) or got != now:
                    bad.setdefault('options', (o, now))
                if (mm.sil_programs != ('resources', now['intBitopsSize'], now['sif'], now['floatEncoding'])):
                    bad.setdefault('resources', (o, mm.sil_programs))
                if broken and need:
                    bad.setdefault('failure', (o, now))
            else:
                if now != want0 or mm.sil_programs != sil:
                    bad.setdefault('failed', (o, now))
                if not broken:
                    bad.setdefault('exception', o)
            if config.classpath != cvars['classpath']:
                bad.setdefault('classpath', o)
        c.ensure('options' not in bad, 'given options are changed, the others kept', case=repr(bad))
        c.ensure('resources' not in bad, 'the loaded resources match the options', case=repr(bad))
        c.ensure('failed' not in bad and 'failure' not in bad, 'a failed change changes nothing', case=repr(bad))
        c.ensure('exception' not in bad, 'a change that can be made is made', case=repr(bad))
        c.ensure('classpath' not in bad, 'the classpath of the running JVM is kept', case=repr(bad))
        locks_free(c, s, 'no lock stays held')
    prove(rep, 'service.reconfigure', h, samples=0, budget=300)

    def setting(c):
        cfgmod = target('nagini_translation.lib.config', '')
        H.fresh(c, J.FakeJVM())
        oc = cfgmod.obligation_config
        a = c.choice('first', [None, True, False])
        b = c.choice('second', [None, True, False])
        for v in (a, b, a):
            oc.disable_all = v
            c.ensure(oc.disable_all is v, 'the obligation setting is what was set', want=v)
            for n in ('disable_measure_check', 'disable_measures', 'disable_method_body_leak_check', 'disable_loop_body_leak_check',
                      'disable_call_context_leak_check', 'disable_loop_context_leak_check', 'disable_termination_check',
                      'disable_must_invoke', 'disable_waitlevel_check'):
                c.ensure(getattr(oc, n) is v, 'each obligation check follows the common setting')
    prove(rep, 'config.ObligationConfig', setting)


REQS = [{}, {'selected': {'f', 'C.g'}}, {'base_dir': '/b', 'ignore_global': True}, {'counterexample': True, 'viper_args': ['--x=1']},
        {'arp': True}, {'include_viper': True, 'job_token': 't'}]


def observe(c, jvm, s, req, path='/w/b.py'):
    """What the stages of one request see."""
    config = sys.modules['nagini_translation.lib.config']
    em = target('nagini_translation.lib.errors', 'error_manager')
    seen = {}
    orig = sys.modules[M].translate

    def translate(p, jvm_, bv, *a, **k):
        seen['translate'] = (p, bv, a, {x: (set(y) if isinstance(y, (set, frozenset)) else y) for x, y in sorted(k.items())})
        seen['obligations'] = config.obligation_config.disable_all
        seen['resources'] = sys.modules[M].sil_programs
        em.clear()
        config.obligation_config.disable_all = True
        if isinstance(k.get('selected'), set):
            k['selected'].add('added by the translation')
        if isinstance(k.get('viper_args'), list):
            k['viper_args'].append('added')
        return J.modules(), H.PROG
    for name, mod in list(sys.modules.items()):
        if name.startswith('nagini_') and getattr(mod, 'translate', None) is orig and callable(orig):
            c.patch(mod, 'translate', translate)
    del jvm.calls[:]
    kind, r, out = H.quiet(c, s.verify, path, **req)
    seen['outcome'] = kind, (r.success if kind == 'ok' else repr(r)), ([d.to_dict() for d in r.diagnostics] if kind == 'ok' else None)
    seen['backend'] = [(a, b) for a, b, _ in jvm.calls]
    return seen


def histories(rep):
    def h(c):
        server = c.bool('viper server')
        tr = c.choice('first translation', ['ok', 'no result', 'type error', 'invalid', 'inconsistent', 'java exception', 'crash'])
        be = c.choice('first backend', H.BACKEND) if tr == 'ok' else 'success'
        r1 = c.choice('first request', REQS)
        r2 = c.choice('second request', REQS)
        init = c.choice('obligations', [None, True, False])
        outcome = [be]
        jvm = J.FakeJVM(lambda: H.raw(outcome[0]))
        jvm.reg['viper.silver.plugin.ARPPlugin'] = lambda: types.SimpleNamespace(
            beforeVerify=lambda p: p, mapVerificationResult=lambda r: r, setIgnoredFields=lambda f: None)
        jvm.reg['scala.collection.mutable.ArraySeq'] = H.ArraySeq2
        config = H.fresh(c, jvm)
        config.obligation_config.disable_all = init
        em = target('nagini_translation.lib.errors', 'error_manager')

        def translate(*a, **k):
            em.add_error_information(None, [], 'left over', None)
            config.obligation_config.disable_all = True
            if k.get('selected') is not None:
                k['selected'].add('from the first request')
            if tr == 'ok':
                return J.modules(), H.PROG
            if tr == 'no result':
                return None
            raise H.exc_of(tr)
        J.patch_all(c, sys.modules[M].translate, translate)
        s = H.make_service(c, jvm, use_viper_server=server)
        before = {k: v for k, v in vars(config).items() if not k.startswith('__')}
        q1 = {k: (v.copy() if isinstance(v, (set, list)) else v) for k, v in r1.items()}
        H.quiet(c, s.verify, '/w/a.py', **q1)
        c.ensure(q1 == r1, 'the request\'s own arguments are not changed', got=q1)
        after = {k: v for k, v in vars(config).items() if not k.startswith('__')}
        c.ensure(before == after, 'a request leaves the configuration unchanged')
        locks_free(c, s, 'no lock stays held after a request')
        jobs = [k for k, v in vars(s).items() if isinstance(v, dict) and v]
        c.ensure(not jobs, 'nothing is remembered of a finished request', left=jobs)
        outcome[0] = 'failure'
        q2 = {k: (v.copy() if isinstance(v, (set, list)) else v) for k, v in r2.items()}
        got = observe(c, jvm, s, q2)
        c.ensure(got.get('translate', (None,))[0] == '/w/b.py', 'the second request is translated', got=repr(got))
        if 'translate' not in got:
            return
        k = got['translate'][3]
        c.ensure(k.get('selected', set()) == r2.get('selected', set()), 'selection: the request\'s own', got=k.get('selected'))
        c.ensure(k.get('base_dir') == r2.get('base_dir') and bool(k.get('ignore_global')) == r2.get('ignore_global', False) and
                 bool(k.get('counterexample')) == r2.get('counterexample', False) and bool(k.get('arp')) == r2.get('arp', False),
                 'options: the request\'s own, otherwise the defaults', got=k)
        c.ensure(got['obligations'] is init, 'the obligation setting is the configured one', got=got['obligations'])
        c.ensure(q2 == r2, 'the request\'s own arguments are not changed')
        c.ensure(len(got['backend']) == 1, 'verified once')
        args = got['backend'][0][1]
        c.ensure([x for x in args if x.startswith('--x')] == r2.get('viper_args', []), 'backend arguments: the request\'s own', got=args)
        c.ensure(any(x.startswith('--counterexample') for x in args) == r2.get('counterexample', False), 'counterexamples as requested')
        c.ensure(got['outcome'][0] == 'ok' and got['outcome'][1] is False and len(got['outcome'][2]) == 1, 'the verdict is the second request\'s own',
                 got=repr(got['outcome']))
    prove(rep, 'service.verify (histories)', h, limit=8000, samples=20, budget=250, bounded='two requests')


def configured(rep):
    """Every stage of a request works with the options in force."""
    def h(c):
        server = c.bool('viper server')
        backend = c.choice('backend', ['silicon', 'carbon'])
        sif = c.choice('sif', [False, 'true', 'poss', 'prob'])
        fl = c.choice('float encoding', [None, 'real', 'ieee32'])
        bits = c.choice('int bits', [8, 16])
        nobc = c.bool('no branch conditions')
        how = c.choice('set', ['when built', 'afterwards'])
        req = c.choice('request', [{}, {'arp': True}, {'counterexample': True}])
        jvm = J.FakeJVM(J.RawSuccess)
        jvm.reg['viper.silver.plugin.ARPPlugin'] = lambda: types.SimpleNamespace(
            beforeVerify=lambda p: p, mapVerificationResult=lambda r: r, setIgnoredFields=lambda f: None)
        jvm.reg['scala.collection.mutable.ArraySeq'] = H.ArraySeq2
        H.fresh(c, jvm)
        J.patch_all(c, sys.modules[M].load_sil_files, lambda jvm_, bv, sif=False, fl=None, **k: ('resources', bv, sif, fl))
        mm = sys.modules[M]
        c.patch(mm, 'sil_programs', None)
        o = dict(verifier_backend=backend, sif=sif, float_encoding=fl, int_bitops_size=bits, disable_branch_conditions=nobc)
        s = H.make_service(c, jvm, use_viper_server=server, **(o if how == 'when built' else {}))
        if how != 'when built':
            s.reconfigure(**o)
        transformed = []
        for name, mod in list(sys.modules.items()):
            if name.startswith('nagini_') and hasattr(mod, 'set_all_low_methods'):
                c.patch(mod, 'set_all_low_methods', lambda *a: None)
        got = observe(c, jvm, s, req)
        c.ensure('translate' in got, 'the program is translated', got=repr(got))
        if 'translate' not in got:
            return
        p, bv, a, k = got['translate']
        if a:
            names = ['selected', 'base_dir', 'sif']
            k = dict(zip(names, a), **k)
        c.ensure(bv == bits, 'bit width of bitwise operations: the option in force', got=bv)
        c.ensure((k.get('sif') or False) == sif, 'sif: the option in force', got=k.get('sif'), want=sif)
        c.ensure(k.get('float_encoding') == fl, 'float encoding: the option in force', got=k.get('float_encoding'))
        c.ensure(got['resources'] == ('resources', bits, sif, fl), 'the resources loaded are those of the options in force', got=got['resources'])
        c.ensure(len(got['backend']) == 1, 'verified once', got=repr(got['backend']), outcome=repr(got['outcome']))
        if len(got['backend']) != 1:
            return
        api, args = got['backend'][0]
        c.ensure(api.split('.')[-1] == backend, 'backend: the option in force', got=api)
        if backend == 'silicon':
            c.ensure((not nobc) == any(x.startswith('--enableBranchconditionReporting') for x in args), 'branch conditions: the option in force', got=args)
    prove(rep, 'service.verify (options)', h, limit=8000, samples=10, budget=200)


def node(line):
    import ast
    return ast.parse('\n' * (line - 1) + 'Assert(x%d)' % line).body[0].value


def failing(em, line):
    """Records a node as the translation does and builds the backend's error about it."""
    n = node(line)
    nid = em.add_error_information(n, [], None, None)
    v = J.VNode(J.Pos('/w/%d.py' % line, line, 0, (line, 5), node_id=nid))
    return J.RawFailure([J.RawError('assert.failed', v, J.RawReason('assertion.false', v))])


def interleavings(rep):
    """A second operation at every point of a request at which it can run."""
    def setup(c, kinds):
        pending, order = {}, []
        jvm = J.FakeJVM(lambda: pending[jvm.calls[-1][2][1]])
        config = H.fresh(c, jvm)
        em = target('nagini_translation.lib.errors', 'error_manager')
        em.clear()

        def translate(path, *a, **k):
            line = int(os.path.basename(path)[:-3])
            order.append(('translate', line))
            em.clear()
            pending[line] = failing(em, line)
            return J.modules(), ('program', line)
        J.patch_all(c, sys.modules[M].translate, translate)
        s = H.make_service(c, jvm)
        jvm.reg['viper.server.core.ViperCoreServerUtils'] = types.SimpleNamespace(
            getResultsFuture=lambda server, job, ex: (lambda: pending[job[2][1]]))
        return jvm, config, s, em

    def check(c, r, line, label):
        ok = (not r.success and not r.cancelled and len(r.diagnostics) == 1 and r.diagnostics[0].start_line == line and
              'x%d' % line in r.diagnostics[0].reason and r.diagnostics[0].file == '/w/%d.py' % line)
        c.ensure(ok, label, got=repr(r))

    fn = target(S, 'VerificationService').verify
    src = sys.modules[S].__file__
    nlines = 160

    def h(c):
        op = c.choice('second operation', ['verify', 'reconfigure backend', 'reconfigure sif', 'cancel other', 'flush', 'verify failing'])
        jvm, config, s, em = setup(c, op)
        at = c.choice('after how many lines', range(nlines))
        state = {'n': 0, 'done': False, 'busy': False}
        second = []

        def free():
            return not any(hasattr(v, 'locked') and v.locked() for v in vars(s).values())

        def act():
            state['busy'] = True
            old = sys.gettrace()
            sys.settrace(None)
            try:
                if op == 'verify':
                    second.append(s.verify('/w/7.py'))
                elif op == 'verify failing':
                    tr = sys.modules[M].translate

                    def bad(*a, **k):
                        em.clear()
                        raise H.exc_of('invalid')
                    J.patch_all(c, tr, bad)
                    second.append(s.verify('/w/7.py'))
                    J.patch_all(c, bad, tr)
                elif op == 'reconfigure backend':
                    s.reconfigure(verifier_backend='carbon', disable_branch_conditions=True)
                elif op == 'reconfigure sif':
                    s.reconfigure(sif='true')
                elif op == 'cancel other':
                    s.cancel('other')
                else:
                    s.flush_cache()
            finally:
                state['busy'] = False
                sys.settrace(old)

        def local(frame, event, arg):
            if event == 'line' and not state['done'] and not state['busy']:
                state['n'] += 1
                if state['n'] > at and free():
                    state['done'] = True
                    act()
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename == src and not state['busy'] else None
        old = sys.gettrace()
        sys.settrace(tracer)
        try:
            r = s.verify('/w/3.py', job_token='mine')
        finally:
            sys.settrace(old)
        check(c, r, 3, 'the first request gets its own diagnostics')
        if op == 'verify' and second:
            check(c, second[0], 7, 'the second request gets its own diagnostics')
        if op == 'verify failing' and second:
            c.ensure(second[0].translation_failed, 'the second request gets its own failure')
        kinds = {'viperserver.silicon': '--exhaleMode=2', 'viperserver.carbon': '--boogieExe', 'silicon': '--exhaleMode=2', 'carbon': '--boogieExe'}
        for api, args, prog in jvm.calls:
            c.ensure(kinds[api] in args and not any(m in args for a, m in kinds.items() if m != kinds[api]),
                     'a backend gets its own arguments', api=api, args=args)
        c.ensure(sorted(p[1] for a, b, p in jvm.calls) == sorted([3] + [7] * (op == 'verify' and bool(second))), 'each program is verified once',
                 calls=repr(jvm.calls))
        locks_free(c, s, 'no lock stays held')
        r3 = s.verify('/w/9.py')
        check(c, r3, 9, 'a later request gets its own diagnostics')
    prove(rep, 'service.verify (interleaved)', h, limit=2000, samples=0, budget=200, bounded='one pre-emption, after each of the first %d lines' % nlines)

    def exclusive(c):
        """Two translations never overlap, verifications do."""
        jvm, config, s, em = setup(c, None)
        inside, seen = threading.Event(), []
        release = threading.Event()
        tr = sys.modules[M].translate

        def slow(path, *a, **k):
            seen.append(('in', path))
            if path == '/w/3.py':
                inside.set()
                release.wait(0.3)
            r = tr(path, *a, **k)
            seen.append(('out', path))
            return r
        J.patch_all(c, tr, slow)
        res = {}
        use = c.choice('second', ['verify', 'reconfigure'])

        def second():
            if use == 'verify':
                res[7] = s.verify('/w/7.py')
            else:
                s.reconfigure(sif='true', int_bitops_size=16)
                seen.append(('reconfigured', sys.modules[M].sil_programs))
        a = threading.Thread(target=lambda: res.__setitem__(3, s.verify('/w/3.py')))
        b = threading.Thread(target=second)
        a.start()
        inside.wait(5)
        b.start()
        b.join(0.2)
        c.ensure(seen == [('in', '/w/3.py')], 'nothing else happens during a translation', seen=repr(seen))
        release.set()
        a.join(10)
        b.join(10)
        check(c, res[3], 3, 'the first request gets its own diagnostics')
        if use == 'verify':
            check(c, res[7], 7, 'the second request gets its own diagnostics')
    prove(rep, 'service.verify (concurrent)', exclusive, samples=0)

    def tokens(c):
        """Cancelling stops exactly the job with that token."""
        jvm, config, s, em = setup(c, None)
        ev = {n: threading.Event() for n in (3, 7)}
        started = {n: threading.Event() for n in (3, 7)}
        pend = {}

        def future(server, job, ex):
            line = job[2][1]

            def wait():
                started[line].set()
                ev[line].wait(5)
                return J.RawSuccess()
            return wait
        jvm.reg['viper.server.core.ViperCoreServerUtils'] = types.SimpleNamespace(getResultsFuture=future)
        vs = sys.modules['nagini_translation.viper_server']
        stopped = []
        mgr = vs.get_viper_server_manager(jvm)
        c.patch(mgr, 'cancel_job', lambda j: stopped.append(j[2][1]))
        c.patch(mgr, 'cancel_all', lambda: stopped.append('all'))
        t1, t2 = c.choice('tokens', [('a', 'b'), ('a', 'a'), (None, 'b'), ('a', None)])
        first = c.choice('first to finish', [3, 7])
        res = {}
        th = {}
        for n, tok in ((3, t1), (7, t2)):
            th[n] = threading.Thread(target=lambda n=n, tok=tok: res.__setitem__(n, s.verify('/w/%d.py' % n, job_token=tok)))
            th[n].start()
            started[n].wait(5)
        s.cancel('unknown')
        c.ensure(stopped == [], 'an unknown token cancels nothing', stopped=stopped)
        s.cancel('a')
        want = {('a', 'b'): [3], ('a', 'a'): [7], (None, 'b'): [], ('a', None): [3]}[t1, t2]
        c.ensure(stopped == want, 'a token cancels its newest job only', stopped=stopped, want=want)
        ev[first].set()
        th[first].join(10)
        del stopped[:]
        other = 10 - first
        tok = {3: t1, 7: t2}
        if tok[other] and not (t1 == t2 and other == 3):
            s.cancel(tok[other])
            c.ensure(stopped == [other], 'a job stays cancellable when another one finished', stopped=stopped)
        ev[other].set()
        th[other].join(10)
        del stopped[:]
        for t in ('a', 'b'):
            s.cancel(t)
        c.ensure(stopped == [], 'a finished job is not cancelled', stopped=stopped)
        s.cancel()
        c.ensure(stopped == ['all'], 'without a token everything is cancelled', stopped=stopped)
    prove(rep, 'service.cancel', tokens, samples=0)


def editor(rep):
    import asyncio

    def superseded(c):
        mod = target('nagini_translation.lsp_server', '')
        SR, D = target(S, 'VerifyResult'), target(S, 'Diagnostic')
        order = c.choice('first to finish', ['newer', 'older'])
        same = c.bool('same document')
        crash = c.bool('the older run crashes')
        evs = [threading.Event(), threading.Event()]
        n, lk = [0], threading.Lock()
        uri = ['file:///w/0.py', 'file:///w/0.py' if same else 'file:///w/1.py']
        cancelled = []

        class Service:
            def verify(self, path, **k):
                with lk:
                    i = n[0]
                    n[0] += 1
                evs[i].wait(5)
                if i == 0 and crash:
                    raise H.Crash()
                return SR(False, [D(path, i + 1, 0, i + 1, 1, 'run %d' % i, 'c')], 1.0)

            def cancel(self, job_token=None):
                cancelled.append(job_token)
        srv = mod.NaginiLanguageServer()
        srv.service = Service()
        pub = []
        c.patch(srv, 'text_document_publish_diagnostics', pub.append)
        c.patch(srv, 'window_log_message', lambda m: None)

        async def go():
            a = asyncio.ensure_future(srv.run_verification(uri[0]))
            while n[0] < 1:
                await asyncio.sleep(0.001)
            b = asyncio.ensure_future(srv.run_verification(uri[1]))
            while n[0] < 2:
                await asyncio.sleep(0.001)
            if order == 'newer':
                evs[1].set()
                await b
                evs[0].set()
                await a
            else:
                evs[0].set()
                await a
                evs[1].set()
                await b
        asyncio.run(go())
        srv._executor.shutdown()
        shown = {}
        for p in pub:
            shown[p.uri] = [d.message for d in p.diagnostics]
        c.ensure(shown.get(uri[1]) == ['run 1'], 'the newest run of a document decides what is shown', shown=shown)
        if not same and not crash:
            c.ensure(shown.get(uri[0]) == ['run 0'], 'other documents keep their own diagnostics', shown=shown)
        c.ensure(set(cancelled) <= set(uri) and uri[0] in cancelled, 'only runs of the same document are cancelled', cancelled=cancelled)
    prove(rep, 'lsp_server.run_verification', superseded, samples=0)

    def once(c):
        mod = target('nagini_translation.lsp_server', '')
        built = []

        class Slow:
            def __init__(self, **k):
                built.append(k)
                import time
                time.sleep(0.05)
        srv = mod.NaginiLanguageServer()
        srv.service_kwargs = {'z3_path': 'z'}
        c.patch(mod, 'VerificationService', Slow)
        got = []
        ths = [threading.Thread(target=lambda: got.append(srv.ensure_service())) for _ in range(8)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        srv._executor.shutdown()
        c.ensure(built == [{'z3_path': 'z'}] and len(set(map(id, got))) == 1, 'one service is built, with the configured options', built=built)
    prove(rep, 'lsp_server.ensure_service', once, samples=0, bounded='eight concurrent callers')

    def mcp(c):
        mod = target('nagini_translation.mcp_server', '')
        got = []

        class Service:
            def reconfigure(self, **k):
                got.append(k)
                return {'effective': 1}

            def cancel(self, job_token=None):
                got.append(job_token)

            def flush_cache(self):
                got.append('flush')
        c.patch(mod, '_service', Service())
        r = mod.configure({'verifier': 'carbon', 'sif': False, 'z3Path': None, 'unknown': 1})
        c.ensure(got == [{'verifier_backend': 'carbon', 'sif': False}] and r == {'effective': 1}, 'configure passes on the recognised options', got=got)
        r = mod.cancel('t')
        c.ensure(got[1:] == ['t'] and r['jobToken'] == 't', 'cancel passes on the token')
        mod.cancel()
        c.ensure(got[2:] == [None], 'cancel without a token cancels all')
        mod.flush_cache()
        c.ensure(got[3:] == ['flush'], 'flush_cache flushes')
    prove(rep, 'mcp_server.configure', mcp)


def run(rep, thorough):
    for m in (M, S, 'nagini_translation.viper_server', 'nagini_translation.lsp_server', 'nagini_translation.mcp_server'):
        importlib.import_module(m)
    option_tables(rep)
    reconfigure(rep)
    histories(rep)
    configured(rep)
    interleavings(rep)
    editor(rep)
