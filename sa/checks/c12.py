"""Knot vectors: span search, insertion, removal, multiplicities."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of the KnotVector operations on an arbitrary nondecreasing knot sequence of arbitrary '
               'length and an arbitrary parameter: closed forms of the results are compared with the mathematical '
               'definitions (half-open span, sorted insertion, removal of one occurrence, multiplicity count, ...).')
RULE = 'closed form of each operation == its definition, for every length, knot and parameter'
ASSUMPTIONS = ['knots are nondecreasing', 'parameters lie in the knot range',
               'a parameter is the last knot or at least 1e-9 away from it (span search identifies parameters within 10 '
               'machine epsilons of the last knot with it)', 'real arithmetic instead of floating point']


def run(res, tier):
    speccheck.run(res, 'c12.cc', tier)
