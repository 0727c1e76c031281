"""Outcome of a check run: obligations, violations, known findings, evidence.

Exit status: 0 every obligation discharged (known findings are printed),
1 with VIOLATION lines, 2 when the run could not decide (tool error).
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    with open(os.path.join(VERIF, 'known-findings.json')) as f:
        return json.load(f)['findings']


class Report:
    def __init__(self, prop, level='proof', checker='z3 %s', trusted=(), assumptions=()):
        import z3
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obs = []            # (function, obligation, status, seconds, backend)
        self.bounded = []        # bounded stand-ins (not proofs)
        self.violations = []
        self.undecided = []
        self.errors = []
        self.trusted = list(trusted)
        self.assumptions = list(assumptions)
        self.extra = {}
        self.functions = set()
        self.known = [k for k in known_findings() if k['property'] == prop and k.get('status') != 'fixed']
        self.known_hit = []
        self.backend = 'z3 ' + z3.get_version_string()
        self.checker = 'z3 %s through its Python API, one query per obligation' % z3.get_version_string()

    def known_for(self, key):
        for k in self.known:
            if k['key'] == key:
                return k
        return None

    def proved(self, fn, ob, secs=0.0, backend=None):
        self.functions.add(fn)
        self.obs.append((fn, ob, 'discharged', secs, backend or self.backend))

    def bounded_ok(self, fn, ob, bound, n):
        self.bounded.append((fn, ob, bound, n))

    def hit_known(self, k):
        if k not in self.known_hit:
            self.known_hit.append(k)
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)

    def violation(self, fn, ob, detail, replayed=False):
        """detail: dict written to the replay file."""
        self.functions.add(fn)
        self.obs.append((fn, ob, 'FAILED', 0.0, self.backend))
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        safe = ''.join(c if c.isalnum() or c in '._-' else '_' for c in '%s-%s-%s' % (self.prop, fn, ob))[:120]
        path = os.path.join(d, safe + '.json')
        detail = dict(detail, property=self.prop, function=fn, obligation=ob, replayed_on_real_code=bool(replayed))
        with open(path, 'w') as f:
            json.dump(detail, f, indent=1, default=str)
        self.violations.append((fn, ob, path, replayed))
        print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if replayed else ' no-failing-input-found'),
              flush=True)
        print('  %s: obligation %s fails: %s' % (fn, ob, str(detail.get('what', ''))[:300]), flush=True)

    def error(self, what):
        self.errors.append(what)
        print('ERROR property=%s %s' % (self.prop, what), flush=True)

    def finish(self, min_obligations=1):
        disch = sum(1 for o in self.obs if o[2] == 'discharged')
        if not self.violations and disch < min_obligations:
            self.error('only %d obligations were generated (at least %d expected)' % (disch, min_obligations))
        slow = sorted(self.obs, key=lambda o: -o[3])[:5]
        by = {}
        for o in self.obs:
            by[o[4]] = by.get(o[4], 0) + (o[2] == 'discharged')
        cov = {'obligations': len(self.obs), 'discharged': disch, 'checker_cmd': self.checker,
               'trusted_base': self.trusted or ['z3'],
               'functions_under_contract': sorted(self.functions),
               'discharged_by': by,
               'solver_seconds': round(sum(o[3] for o in self.obs), 2),
               'slowest': [[o[0], o[1], round(o[3], 2)] for o in slow],
               'bounded_stand_ins': [{'function': b[0], 'obligation': b[1], 'bound': b[2], 'cases': b[3]} for b in self.bounded],
               'known_findings': [k['key'] for k in self.known_hit],
               'failed': [[v[0], v[1]] for v in self.violations], 'errors': self.errors}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d violations, %d known findings, %.1fs' % (
            self.prop, len(self.obs), disch, len(self.violations), len(self.known_hit), time.time() - self.t0), flush=True)
        if self.violations:
            sys.exit(1)
        if self.errors:
            sys.exit(2)
        sys.exit(0)


def guarded(main):
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
