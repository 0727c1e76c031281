"""Injective renamings of the user-defined identifiers of Python programs."""
import ast
import io
import tokenize
import builtins
import glob
import importlib
import json
import keyword
import os
import re
import env

_RES = None


def reserved():
    """Names that have a meaning of their own, and so must not be renamed or chosen."""
    global _RES
    if _RES is None:
        out = set(dir(builtins)) | set(keyword.kwlist) | {'self', 'cls', 'print', 'main', '_', 'args', 'match', 'case', 'type'}
        for f in glob.glob(os.path.join(env.REPO, 'src', 'nagini_contracts', '*.py')):
            for n in ast.walk(ast.parse(open(f).read())):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                if isinstance(n, ast.arg):
                    out.add(n.arg)
                if isinstance(n, ast.Name):
                    out.add(n.id)
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
        for mod in ('typing', 'enum', 'dataclasses', 'abc', 'threading'):
            out |= set(dir(importlib.import_module(mod)))
        for t in (int, str, bytes, list, dict, set, tuple, float, Exception, type, range, bytearray, object):
            out |= set(dir(t))
        src = open(os.path.join(env.REPO, 'src', 'nagini_translation', 'resources', 'builtins.json')).read()
        out |= set(re.findall(r'"([A-Za-z_]\w*)"', src))
        out |= {'nagini_contracts', 'name', 'value', 'mypy', 'typing'}
        _RES = out
    return _RES


def parse(src):
    return ast.parse(src, type_comments=True)


def defined(trees):
    """User-defined identifiers of the given modules."""
    out = set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'NamedTuple':
                out |= {c.value for c in ast.walk(n) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
    imported = set()
    for t in trees:
        for n in ast.walk(t):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                mod = getattr(n, 'module', None) or ''
                imported |= {a.asname or a.name for a in n.names if not mod.startswith('two_')}
                imported |= {a.name for a in n.names if isinstance(n, ast.Import)}
                imported |= set(mod.split('.'))
                imported |= {a.asname for a in n.names if a.asname and False}
    return {n for n in out if n not in reserved() and n not in imported and not n.startswith('__')}


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def r(self, n):
        return self.m.get(n, n)

    def text(self, s):
        return re.sub(r'[A-Za-z_]\w*', lambda x: self.r(x.group()), s)

    def generic_visit(self, n):
        for f in ('name', 'arg', 'id', 'attr', 'asname'):
            v = getattr(n, f, None)
            if isinstance(v, str):
                if isinstance(n, ast.alias) and f == 'name' and '.' in v:
                    continue
                setattr(n, f, self.r(v))
        if getattr(n, 'type_comment', None) and not n.type_comment.startswith('ignore'):
            n.type_comment = self.text(n.type_comment)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('NamedTuple', 'cast', 'TypeVar'):
            for c in ast.walk(n):
                if isinstance(c, ast.Constant) and isinstance(c.value, str):
                    c.value = self.text(c.value)
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if a is not None:
                for c in ast.walk(a):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        c.value = self.text(c.value)
        return super().generic_visit(n)


def rename(src, m):
    """Text-preserving: name tokens, names in type comments, and strings that stand for names."""
    t = parse(src)
    strings = set()
    for n in ast.walk(t):
        roots = [getattr(n, f, None) for f in ('annotation', 'returns')]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('NamedTuple', 'cast', 'TypeVar'):
            roots.append(n)
        if isinstance(n, ast.ClassDef):
            roots += n.bases
        if isinstance(n, ast.Subscript):
            roots.append(n if isinstance(n.value, ast.Name) and n.value.id in ('List', 'Dict', 'Set', 'Optional', 'Union', 'Tuple', 'Callable') else None)
        for r in roots:
            if r is not None:
                strings |= {(c.lineno, c.col_offset) for c in ast.walk(r) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
    text = lambda x: re.sub(r'[A-Za-z_]\w*', lambda y: m.get(y.group(), y.group()), x)
    lines = src.splitlines(True)
    edits = []
    for tok in tokenize.generate_tokens(io.StringIO(src).readline):
        new = tok.string
        if tok.type == tokenize.NAME:
            new = m.get(new, new)
        elif tok.type == tokenize.COMMENT and re.match(r'#\s*type:', new) and not re.match(r'#\s*type:\s*ignore', new):
            new = text(new)
        elif tok.type == tokenize.STRING and (tok.start[0], len(lines[tok.start[0] - 1][:tok.start[1]].encode())) in strings:
            new = text(new)
        if new != tok.string:
            edits.append((tok.start, tok.end, new))
    for (l, c), (l2, c2), new in reversed(edits):
        assert l == l2
        lines[l - 1] = lines[l - 1][:c] + new + lines[l - 1][c2:]
    return ''.join(lines)


def usable(n):
    return n.isidentifier() and n.isascii() and not keyword.iskeyword(n) and n not in reserved() and not n.startswith('__') and n.strip('_')


# ---------------------------------------------------------------- extensions
CONTRACT = {'Requires', 'Ensures', 'Exsures', 'Decreases', 'Invariant'}
NEW = {'function': '@Pure\ndef %s() -> int:\n    return 1\n', 'method': 'def %s() -> int:\n    return 1\n',
       'class': 'class %s:\n    pass\n', 'predicate': '@Predicate\ndef %s() -> bool:\n    return True\n', 'variable': '%s: int = 1\n'}


def identifiers(trees):
    out = set()
    for t in trees:
        for n in ast.walk(t):
            for f in ('name', 'arg', 'id', 'attr', 'asname'):
                v = getattr(n, f, None)
                if isinstance(v, str):
                    out.add(v)
    return out


def extend_globals(src, names, shift=0):
    """src followed by definitions of the given names, of all kinds in turn."""
    kinds = list(NEW)
    out = src.rstrip('\n') + '\n\nfrom nagini_contracts.contracts import Pure, Predicate\n'
    return out + '\n'.join(NEW[kinds[(i + shift) % len(kinds)]] % n for i, n in enumerate(names))


def insert(src, at):
    """src with the given lines {line number: [text]} inserted after the lines."""
    out = []
    for i, l in enumerate(src.splitlines(True), 1):
        out.append(l if l.endswith('\n') else l + '\n')
        out += [x + '\n' for x in at.get(i, ())]
    return ''.join(out)


def extend_members(src, names):
    """Every class gets a method r for every given name C_r that is not an element of it."""
    at = {}
    for c in parse(src).body:
        if not isinstance(c, ast.ClassDef) or any(isinstance(b, ast.Name) and b.id in ('NamedTuple', 'Enum', 'IntEnum', 'ADT') or
                                                  isinstance(b, ast.Call) for b in c.bases) or c.decorator_list:
            continue
        mine = identifiers([c])
        new = [n[len(c.name) + 1:] for n in names if n.startswith(c.name + '_')]
        new = [r for r in new if usable(r) and r not in mine]
        if new and c.body[-1].lineno > c.lineno:
            ind = ' ' * c.body[-1].col_offset
            at[c.end_lineno] = [ind + x for r in new for x in ('def %s(self) -> int:' % r, '    return 1')]
    return insert(src, at) if at else None


def extend_locals(src, names):
    """Every method gets local variables of the given names."""
    at = {}
    for f in ast.walk(parse(src)):
        if not isinstance(f, ast.FunctionDef) or f.decorator_list and any(
                not isinstance(d, ast.Name) or d.id not in ('classmethod', 'staticmethod', 'property', 'Inline') for d in f.decorator_list):
            continue
        if any(isinstance(x, (ast.FunctionDef, ast.Yield, ast.Global)) for x in ast.walk(f) if x is not f):
            continue
        k = 0
        for i, s in enumerate(f.body):
            if any(isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Call)) and
                   (c.func.id if isinstance(c.func, ast.Name) else getattr(c.func.func, 'id', None)) in CONTRACT | {'IOExists'} | {'IOExists%d' % j for j in range(1, 10)}
                   for c in ast.walk(s)) and isinstance(s, (ast.Expr, ast.Return)):
                k = i + 1
        if k == len(f.body) or isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and f.body[0].value.value is Ellipsis:
            continue
        own = {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
        new = [n for n in names if n not in own]
        if new and f.body[k].lineno > f.lineno:
            at.setdefault(f.body[k].lineno - 1, []).extend(' ' * f.body[k].col_offset + '%s = 1' % n for n in new)
    return insert(src, at) if at else None


def added_locals(src, names):
    """(function, number of the given names it assigns 1 to) of the functions of src,
    methods as C_f."""
    out, names = [], set(names)
    for c in [None] + [n for n in parse(src).body if isinstance(n, ast.ClassDef)]:
        for f in (c or parse(src)).body:
            if isinstance(f, ast.FunctionDef):
                got = {s.targets[0].id for s in f.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)} & names
                if got:
                    out.append(((c.name + '_' if c else '') + f.name, len(got)))
    return out
