"""Knot insertion: Boehm's combinations of the control net."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of AdjustControlPoints and InsertKnot (B-splines and NURBS) for arbitrary control nets, '
               'knots, degrees and parameters. The loop that rewrites the grown net in place from the last point downwards is '
               'summarised: every read of another element is shown to precede its overwriting (or to be the element itself), '
               'so that the new net is a closed form over the old one, which is compared with Boehm\'s formula.')
RULE = 'Q_k == a_k P_k + (1 - a_k) P_{k-1} in homogeneous coordinates, a_k from the knots; knots, degrees and net sizes grow accordingly'
ASSUMPTIONS = ['the parameter lies in the knot range, at least 1e-9 before the last knot', 'new weights are positive',
               'multiplicities below the degree before the insertion']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier, select=lambda n: 'spec_raw' in n)
    speccheck.run(res, 'c13.cc', tier)
