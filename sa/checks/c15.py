"""Vector and control point arithmetic."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of VectorUtils and of the ControlPoint operations for vectors of arbitrary length and '
               'arbitrary entries: closed forms of the results (sums over the symbolic length) are compared with the definitions.')
RULE = 'closed form of each operation == its definition, for every length and entries'
ASSUMPTIONS = ['the operands have the same length >= 1 (3 for CrossProduct and Transform)', 'real arithmetic instead of floating point']


def run(res, tier):
    speccheck.run(res, 'c15.cc', tier)
