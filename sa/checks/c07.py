"""Ill-formed input is refused at construction."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of the constructors of ParameterSpace, BSpline, NURBS and their generators (1 to 4 '
               'parametric dimensions) on arbitrary knot vectors, degrees, control points and weights of arbitrary sizes: '
               'the closed form of the throw condition is compared with the stated well-formedness condition.')
RULE = 'throw-condition(constructor) == not well-formed(input)'
ASSUMPTIONS = ['degrees are nonnegative, at least one control point is given', 'knots are nondecreasing']


def run(res, tier):
    speccheck.run(res, 'c07.cc', tier)
