"""Surfaces from curves, the square, element lists."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of SurfaceGenerator (two curves), SquareGenerator and ElementGenerator for arbitrary '
               'curves, degrees, numbers of knots and splines: degrees, knots, control points, weights and elements are compared '
               'with closed formulas.')
RULE = ('joined: P_ij == T_i + C_j, w_ij == t_i c_j, knots and degrees of the curves; square: uniform clamped knots, uniform grid '
        'over [-1,1]^2; elements: the spans of positive length in order')
ASSUMPTIONS = ['curves and splines are well-formed (C07) and curves have equal point dimension', 'degree >= 1 for the square',
               'real arithmetic instead of floating point']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier, select=lambda n: 'spec_raw' in n)
    speccheck.run(res, 'c16.cc', tier)
