"""Contracts of the prelude against Python's semantics: C01, C02, C03.
usage: prelude_check.py PROPERTY [quick|thorough]"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import env  # noqa
import multiprocessing as mp
import z3
import prelude
from prelude import _G, PY, METH, V, INT, fresh
from report import Report, guarded

# Functions whose contract deliberately does not determine the result (floats
# are abstract, iteration order of sets and dicts is unspecified, ...).
UNDERSPECIFIED = {
    'object___bool__', 'float___bool__', 'float___ge__', 'float___gt__', 'float___le__', 'float___lt__', 'float___eq__',
    'int___truediv__', 'max', 'min', '__seq_ref_to_seq_int', 'str___len__', 'PByteSeq___sil_seq__', 'PByteSeq___val__',
    'range___getitem_slice__', 'range___create__', 'range___create_step__', 'slice___internal_start__',
    'slice___internal_stop__', 'str_join', 'str___mod__', 'bytearray_hex', 'set___sil_seq__', 'dict___sil_seq__',
    'PSet___sil_seq__', 'PMultiset___sil_seq__', 'Iterator___next__', 'dict_values'}

# Where a known finding lives: the obligation is proved outside this region.
REGION = {
    'int___truediv__/post0': lambda c: c.args[0] % c.args[1] == 0,
    'max/post1': lambda c: has_bool(c),
    'min/post1': lambda c: has_bool(c)}


def has_bool(c):
    l = c.old.get('list_acc', c.args[0])
    i = fresh(INT, 'i')
    return z3.Exists([i], z3.And(0 <= i, i < l.n, V.is_vbool(l.at(i))))


def group(name):
    n = name.replace('__prim__', '')
    h = n.split('_')[0]
    if h in ('set', 'dict', 'PSet', 'PMultiset', 'Iterator'):
        return 'C03'
    if h in ('str', 'bytes', 'bytearray', 'list', 'tuple', 'range', 'slice', 'PSeq', 'PByteSeq') or 'seq' in n:
        return 'C02'
    return 'C01'


MIN = {'C01': 150, 'C02': 250, 'C03': 80}


def want(name, label):
    return label != 'exact' or name not in UNDERSPECIFIED


def residual(task):
    """A known finding's obligation, outside the finding's region."""
    name, label, timeout = task
    prelude.REGION_HYP = REGION[name + '/' + label]
    try:
        return prelude.run_one((name, timeout, lambda n, l: l == label))
    finally:
        prelude.REGION_HYP = None


def run(task):
    name, timeout, known = task
    out = prelude.run_one((name, timeout, lambda n, l: want(n, l)))
    res = []
    for r in out:
        if r[3] != 'proved' and r[1] in known:
            rr = [x for x in residual((name, r[1], timeout)) if x[1] == r[1] or x[3] == 'error']
            res.append(r[:3] + ('known' if rr and rr[0][3] == 'proved' else 'beyond',) + (rr[0] if rr else r)[4:])
        else:
            res.append(r)
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    rep = Report(prop, trusted=[
        'z3 (unsat answers)', 'lib/pysem.py: Python semantics of each operation, written from the language reference',
        'lib/fakejvm.py + lib/silparse.py: parser of the Silver resource files',
        'lib/den.py: denotation of Silver expressions (integers, sequences, sets, maps, permissions)'],
        assumptions=['Silver domains and triggers: triggers are ignored (a missing instantiation is a completeness matter)',
                     'float values are uninterpreted; hashing and iteration order of sets and dicts are unspecified',
                     'user-defined __eq__ is an uninterpreted relation that identity implies',
                     'Viper itself (Silicon/Carbon) is trusted to implement the Silver semantics used here'])
    sizes = [8] if tier == 'quick' else [8, 1, 16, 32]
    covered, skipped = set(), set()
    for bits in sizes:
        prelude.load_all(bits)
        allnames = sorted(set(_G['fn']) | set(_G['me']))
        mine = [n for n in allnames if group(n) == prop]
        names = [n for n in mine if n in PY or n in METH]
        skipped |= set(mine) - set(names)
        if bits != sizes[0]:
            names = [n for n in names if any(w in n for w in ('and__', 'or__', 'xor__', 'shift', 'bit_length', 'BV', 'bv'))]
        known = {}
        for k in rep.known:
            fn, label = k['key'].split('/')
            known.setdefault(fn, []).append(label)
        # largest first
        tasks = [(n, 6000 if tier == 'quick' else 20000, known.get(n, [])) for n in names]
        with mp.get_context('fork').Pool(8) as pool:
            for out in pool.imap_unordered(run, tasks, chunksize=1):
                for fn, label, text, st, secs, info, wit in out:
                    ob = label + ('' if bits == 8 else '@%d' % bits)
                    if st == 'proved':
                        rep.proved(fn, ob, secs)
                    elif st == 'known':
                        rep.hit_known(rep.known_for('%s/%s' % (fn, label)))
                        rep.proved(fn, ob + ' outside the known finding', secs)
                    elif st == 'error':
                        rep.violation(fn, 'contract is well-formed and has a denotation',
                                      {'what': 'the contract could not be interpreted: ' + info})
                    else:
                        rep.violation(fn, ob, {
                            'what': '%s does not hold against Python: %s' % (fn, text), 'contract': text,
                            'verifier_status': st, 'verifier_output': info, 'bitwise_size': bits,
                            'failing_input': wit}, replayed=wit is not None)
                covered.add(out[0][0] if out else '')
    for k in rep.known:                 # a finding that no longer shows is simply not printed
        pass
    rep.extra['functions_without_reference_semantics'] = sorted(skipped)
    rep.extra['bitwise_sizes'] = sizes
    rep.finish(MIN[prop])


guarded(main)
