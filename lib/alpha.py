"""Equality of two recorded Viper programs up to the names in them.

Two translations of programs that differ by an injective renaming must differ by
an injective renaming. Members are matched by kind and source line; members
whose trees have different shapes are left out (order of sets may differ)."""
import collections
from wfnames import items, kind, exps_of

GLOBAL = {'FuncApp': 'funcname', 'DomainFuncApp': 'funcname', 'MethodCall': 'methodName', 'PredicateAccess': 'predicateName',
          'Field': 'name', 'Method': 'name', 'Function': 'name', 'Predicate': 'name'}
LOCAL = {'LocalVar': 'name', 'LocalVarDecl': 'name', 'Label': 'name', 'Goto': 'target', 'LabelledOld': 'oldLabel'}


def flat(n, shape, names):
    k = kind(n)
    shape.append(k)
    if k in GLOBAL:
        names.append(('g', n.f(GLOBAL[k])))
    elif k in LOCAL:
        names.append(('l', n.f(LOCAL[k])))
    for f in n.FIELDS:
        v = n.f(f)
        if f == 'scopedSeqnDeclarations':
            continue                    # the order of declarations means nothing
        if hasattr(v, 'walk'):
            flat(v, shape, names)
        elif isinstance(v, (list, tuple)):
            for x in v:
                if hasattr(x, 'walk'):
                    flat(x, shape, names)
        elif hasattr(v, 'nonEmpty') and hasattr(v, 'items'):
            shape.append('[%d' % len(v.items))
            for x in v.items:
                if hasattr(x, 'walk'):
                    flat(x, shape, names)
        elif hasattr(v, 'x') and hasattr(v.x, 'walk'):
            flat(v.x, shape, names)


def inner(m):
    out = set()
    for x in m.walk():
        line = getattr(x.pos(), 'line', None)
        if line and kind(x) != 'Field':
            out.add((str(x.pos().file()), line()))
    return tuple(sorted(out))


def members(prog):
    out = collections.defaultdict(list)
    for k in ('methods', 'functions', 'predicates'):
        for m in items(getattr(prog, k)()):
            line = getattr(m.pos(), 'line', None)
            if line:
                out[k, str(m.pos().file()), line()].append(m)
            elif k == 'methods' and inner(m):       # generated checks, by the lines they refer to
                out[k, inner(m)].append(m)
    return out


def bind(fwd, bwd, a, b):
    if fwd.setdefault(a, b) != b or bwd.setdefault(b, a) != a:
        return '%s / %s, but also %s / %s' % (a, b, a if fwd[a] != b else bwd[b], fwd[a] if fwd[a] != b else b)


def differences(p, q, fixed=None, changed=None):
    """(problems, members compared, members left out). `fixed(a, b)`: whether the
    names a and b of two globals may correspond to each other."""
    out, n, skipped = [], 0, 0
    gf, gb = {}, {}
    mp, mq = members(p), members(q)
    for key, ms in mp.items():
        ns = mq.get(key, [])
        if len(ms) != len(ns):
            skipped += len(ms)
            if changed is not None:
                changed.append(ms[0].name())
            continue
        for a, b in zip(ms, ns):
            sa, na, sb, nb = [], [], [], []
            flat(a, sa, na)
            flat(b, sb, nb)
            if sa != sb:
                skipped += 1
                if changed is not None and collections.Counter(sa) != collections.Counter(sb):
                    changed.append(a.name())
                continue
            n += 1
            lf, lb = {}, {}
            for (ka, x), (kb, y) in zip(na, nb):
                bad = bind(gf, gb, x, y) if ka == 'g' else bind(lf, lb, x, y)
                if bad:
                    out.append(('names do not correspond', bad, '%s %s' % (kind(a), a.name())))
                    break
    return out, n, skipped
