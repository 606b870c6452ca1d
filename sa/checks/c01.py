"""Evaluation outside the knot range is refused."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of Evaluate and EvaluateDerivative of BSpline and NURBS (1 to 4 parametric '
               'dimensions) on an arbitrary spline and an arbitrary parameter: the condition under which the call ends in '
               'an exception, in closed form, is compared with "some coordinate is below the first or above the last knot '
               'of its own direction".')
RULE = 'throw-condition(call) == exists d: u[d] < knots[d].front or u[d] > knots[d].back'
ASSUMPTIONS = ['knots are stored in nondecreasing order, at least two per direction']


def run(res, tier):
    speccheck.run(res, 'c01.cc', tier)
