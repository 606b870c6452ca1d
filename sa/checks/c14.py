"""Degree elevation and reduction of single segments."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of ElevateDegreeForDimension and ReduceDegreeForDimension for single-segment splines with '
               'arbitrary knots, control points, weights, point dimension and tolerance; loops over the degree (1 to 3) and over '
               'the other direction are unrolled. The resulting net is compared with the elevation formula, and elevation '
               'followed by reduction with the identity.')
RULE = 'Q_i == i/(p+1) P_{i-1} + (1 - i/(p+1)) P_i in homogeneous coordinates; Reduce(Elevate(s)) == s; refused reduction: nothing changes'
ASSUMPTIONS = ['one segment, different knots at least 1e-9 apart', 'degrees 1 to 3; 2 or 3 control points in the other direction of surfaces',
               'positive weights']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier, select=lambda n: 'spec_raw' in n)
    speccheck.run(res, 'c14.cc', tier)
