"""C07: permissions and predicates are accounted for exactly."""
import rundiff

LEVEL = 'translation_validation'
TRUSTED = rundiff.TRUSTED
ASSUMPTIONS = rundiff.ASSUMPTIONS
MIN = 60


def run(rep, thorough):
    rundiff.check(rep, ['perms.py'], thorough)
