"""Equality of splines considers every component."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of BSpline::AreEqual and NURBS::AreEqual (1 to 4 parametric dimensions) on two '
               'arbitrary well-formed splines of arbitrary sizes and an arbitrary tolerance: the closed form of the result '
               'is shown to imply equality of every degree, knot, control point coordinate, weight and net size, and to be '
               'true for a copy.')
RULE = 'AreEqual(a, b, t) implies no component of a and b differs by t or more; AreEqual(a, copy of a, t)'
ASSUMPTIONS = ['splines are well formed (C07): n_d + p_d + 1 knots, dimension * prod n_d coordinates, prod n_d weights',
               '0 < tolerance < 0.25']


def run(res, tier):
    speccheck.run(res, 'c06.cc', tier)
