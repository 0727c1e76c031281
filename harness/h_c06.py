"""C06: contracts are enforced exactly as written."""
import rundiff

LEVEL = 'translation_validation'
TRUSTED = rundiff.TRUSTED
ASSUMPTIONS = rundiff.ASSUMPTIONS
MIN = 100


def run(rep, thorough):
    rundiff.check(rep, ['contracts.py', 'specs.py', 'specs2.py'], thorough)
