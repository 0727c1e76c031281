"""C08: class types and the subtype relation mirror the Python class hierarchy."""
import os
import rundiff
import typedom

LEVEL = 'translation_validation'
TRUSTED = rundiff.TRUSTED
ASSUMPTIONS = rundiff.ASSUMPTIONS + ['the type domain: questions about the classes of the corpus, some built-in ones, generic instances and unions of them; that the '
                                     'axioms are not contradictory is bounded to these']
MIN = 100


def run(rep, thorough):
    rundiff.check(rep, ['classes.py'], thorough)
    typedom.check(rep, os.path.join(rundiff.CORPUS, 'classes.py'), thorough)
