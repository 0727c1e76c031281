"""Contracts of real Python functions: checks/contract_check.py PROP [quick|thorough]"""
import importlib
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import env  # noqa
sys.path.insert(0, os.path.join(env.VERIF, 'harness'))
import report
import px


def main():
    prop = sys.argv[1]
    thorough = len(sys.argv) > 2 and sys.argv[2] == 'thorough'
    px.SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('h_' + prop.lower())
    rep = report.Report(prop, level=getattr(mod, 'LEVEL', 'proof'), trusted=mod.TRUSTED, assumptions=mod.ASSUMPTIONS)
    rep.tier = 'thorough' if thorough else 'quick'
    mod.run(rep, thorough)
    rep.finish(getattr(mod, 'MIN', 1))


if __name__ == '__main__':
    report.guarded(main)
