"""C09: overriding methods must honour the contracts of what they override."""
import itertools
import multiprocessing
import os
import shutil
import tempfile
import programs as P
import rundiff

LEVEL = 'translation_validation'
TRUSTED = rundiff.TRUSTED + ['a call through a variable of class X is taken to run the override check of what really is called '
                             '(the checks of overriding and inherited methods are what a call by a static type relies on)']
ASSUMPTIONS = rundiff.ASSUMPTIONS + ['hierarchies that must be refused outright are enumerated (bounded)']
MIN = 60

HEAD = '''from nagini_contracts.contracts import *
from typing import Optional


class E(Exception):
    pass


class F(Exception):
    pass


'''
# (what the base class has, what the overriding class has, whether that must be refused)
PAIRS = [
    ('same', '{s}def m(self, a: int, b: int = 2) -> int:\n    Ensures(Result() == a)\n    return a', None, False),
    ('other names', 'def m(self, a: int, b: int) -> int:\n    return a', 'def m(self, x: int, b: int) -> int:\n    return x', True),
    ('names exchanged', 'def m(self, a: int, b: int) -> int:\n    return a', 'def m(self, b: int, a: int) -> int:\n    return a', True),
    ('an argument less', 'def m(self, a: int, b: int) -> int:\n    return a', 'def m(self, a: int) -> int:\n    return a', True),
    ('an argument more', 'def m(self, a: int) -> int:\n    return a', 'def m(self, a: int, b: int) -> int:\n    return a', True),
    ('an optional argument more', 'def m(self, a: int) -> int:\n    return a', 'def m(self, a: int, b: int = 1) -> int:\n    return a', True),
    ('default dropped', 'def m(self, a: int, b: int = 1) -> int:\n    return a', 'def m(self, a: int, b: int) -> int:\n    return a', True),
    ('default added', 'def m(self, a: int, b: int) -> int:\n    return a', 'def m(self, a: int, b: int = 1) -> int:\n    return a', True),
    ('exception not declared by the base', 'def m(self, a: int) -> int:\n    return a', 'def m(self, a: int) -> int:\n    Exsures(E, True)\n    raise E()', True),
    ('other exception', 'def m(self, a: int) -> int:\n    Exsures(F, True)\n    raise F()', 'def m(self, a: int) -> int:\n    Exsures(E, True)\n    raise E()', True),
    ('wider exception', 'def m(self, a: int) -> int:\n    Exsures(E, True)\n    raise E()', 'def m(self, a: int) -> int:\n    Exsures(Exception, True)\n    raise F()', True),
    ('same exception', 'def m(self, a: int) -> int:\n    Exsures(E, True)\n    raise E()', None, False),
    ('pure overridden', '@Pure\ndef m(self, a: int) -> int:\n    return a', '@Pure\ndef m(self, a: int) -> int:\n    return a', True),
    ('pure overridden by method', '@Pure\ndef m(self, a: int) -> int:\n    return a', 'def m(self, a: int) -> int:\n    return a', True),
    ('method overridden by pure', 'def m(self, a: int) -> int:\n    return a', '@Pure\ndef m(self, a: int) -> int:\n    return a', True),
    ('result changed', 'def m(self, a: int) -> int:\n    return a', 'def m(self, a: int) -> object:\n    return None', True),
    ('argument type narrowed', 'def m(self, a: object) -> int:\n    return 1', 'def m(self, a: int) -> int:\n    return a', True),
    ('inlined overridden', '@Inline\ndef m(self, a: int) -> int:\n    return a', 'def m(self, a: int) -> int:\n    return a', True),
    ('overridden by inlined', 'def m(self, a: int) -> int:\n    return a', '@Inline\ndef m(self, a: int) -> int:\n    return a', True),
    ('static overridden by method', '@staticmethod\ndef m(a: int) -> int:\n    return a', 'def m(self, a: int) -> int:\n    return a', True),
    ('static', '@staticmethod\ndef m(a: int) -> int:\n    return a', None, False),
]


def indent(s):
    return ''.join('    ' + l + '\n' for l in s.split('\n'))


def program(base, over, between, beyond):
    out = HEAD + 'class C0:\n    def __init__(self) -> None:\n        pass\n\n' + indent(base)
    n = 0
    for _ in range(between):
        out += '\n\nclass C%d(C%d):\n    def other%d(self) -> int:\n        return 1\n' % (n + 1, n, n)
        n += 1
    out += '\n\nclass C%d(C%d):\n%s' % (n + 1, n, indent(over))
    n += 1
    for _ in range(beyond):
        out += '\n\nclass C%d(C%d):\n    pass\n' % (n + 1, n)
        n += 1
    return out


def accepted(src):
    """The override checks in the translated program, or the reason it is refused."""
    P.setup()
    try:
        r = P.translate({'prog.py': src})
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return None, '%s: %s' % (type(e).__name__, str(e)[:200])
    return [m.name() for m in r.prog.methods().items if '_override_check' in m.name()], None


def run(rep, thorough):
    rundiff.check(rep, ['overrides.py'], thorough)
    bad, n, todo = {}, 0, []
    for (what, base, over, refuse), between, beyond in itertools.product(PAIRS, (0, 1, 2), (0, 1) if thorough else (0,)):
        base = base.replace('{s}', '')
        src = program(base, over or base, between, beyond)
        todo.append((what, between, refuse, src))
    os.environ['PROGRAMS_WORK'] = tempfile.mkdtemp(prefix='overrides_')
    try:
        with multiprocessing.get_context('spawn').Pool(8) as pool:
            done = pool.map(accepted, [t[3] for t in todo], chunksize=4)
    finally:
        shutil.rmtree(os.environ.pop('PROGRAMS_WORK'), ignore_errors=True)
    for (what, between, refuse, src), (checks, why) in zip(todo, done):
        n += 1
        case = '%s, %d classes between' % (what, between)
        if refuse and checks is not None:
            bad.setdefault('what must not override is refused', []).append((case, dict(what='%s: accepted, checks: %s' % (case, checks), program=src)))
        elif not refuse and checks is None:
            bad.setdefault('what may override is translated', []).append((case, dict(what='%s: refused, %s' % (case, why), program=src)))
        elif not refuse and not any(c.startswith('C%d_m_override_check' % (between + 1)) for c in checks):
            bad.setdefault('overriding methods are checked', []).append((case, dict(what='%s: no override check, only %s' % (case, checks), program=src)))
    for lb, ds in sorted(bad.items()):
        rep.violation('hierarchies', lb, dict(ds[0][1], also=[w for w, _ in ds[1:]]), replayed=True)
    for lb in ('what must not override is refused', 'what may override is translated', 'overriding methods are checked'):
        if lb not in bad:
            rep.bounded_ok('hierarchies', lb, 'enumerated hierarchies', n)
