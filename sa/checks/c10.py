"""Evaluation: (rational) combination of control points and basis functions; derivatives."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of Spline::Evaluate and EvaluateDerivative (B-splines and NURBS) for arbitrary knots, '
               'degrees, control nets, weights and parameters. The loop over the local basis functions is summarised as a sum '
               'over all multi-indices and compared with the sum of the definition; derivatives of NURBS are decided per order '
               'by the product rule. Values of single basis functions stay uninterpreted (C09 decides those), and so do the steps '
               'of the multi-index, whose contract is decided here too.')
RULE = 'Evaluate(u)[c] == sum_k N_k(u) w_k P_k[c] / sum_k N_k(u) w_k; EvaluateDerivative by the product rule'
ASSUMPTIONS = ['the parameter lies in the knot range of each direction', 'the sum of the weighted basis functions is positive',
               'the span of a parameter is decided by C12, the basis functions by C09']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier, select=lambda n: 'spec_raw' in n)
    speccheck.run(res, 'c10.cc', tier)
