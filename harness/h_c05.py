"""C05: translated statements follow Python control flow and state."""
import rundiff

LEVEL = 'translation_validation'
TRUSTED = rundiff.TRUSTED
ASSUMPTIONS = rundiff.ASSUMPTIONS
MIN = 100


def run(rep, thorough):
    rundiff.check(rep, ['flow.py', 'tries.py', 'match.py'], thorough)
