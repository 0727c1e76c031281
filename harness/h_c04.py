"""C04: translated expressions have the value Python gives them."""
import rundiff

LEVEL = 'translation_validation'
TRUSTED = rundiff.TRUSTED
ASSUMPTIONS = rundiff.ASSUMPTIONS
MIN = 100


def run(rep, thorough):
    rundiff.check(rep, ['expr.py', 'calls.py'], thorough)
