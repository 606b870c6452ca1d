"""Knot removal: all or nothing."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of RemoveKnot (B-splines and NURBS) for arbitrary control nets, knots and tolerances, '
               'for degrees 1 to 3: the branch on the removability test is kept symbolic, so that what the refusing and the '
               'accepting path leave behind is compared with the spline before, for every outcome of the test.')
RULE = ('removal refused: every degree, knot, control point and weight as before; accepted: one knot and one layer of control '
        'points fewer, those outside the support of the knot unchanged')
ASSUMPTIONS = ['the knot is an interior knot at least 1e-9 before the last one, of multiplicity 1', 'degrees 1 to 3 (loops over the degree are unrolled)',
               'the new control points inside the support are not judged (they solve an overdetermined system within the tolerance)']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier, select=lambda n: 'spec_raw' in n)
    speccheck.run(res, 'c05.cc', tier)
