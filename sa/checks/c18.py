"""Containers: no subscript outside."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of the reading, writing, constructing, copying and evaluating operations on arbitrary '
               'well-formed splines in which every subscript of a container is a branch: inside the container, or a violation. '
               'Loops are summarised in closed form, so the condition under which any iteration leaves its container is a term '
               'over the sizes, degrees and indices of the input; it is shown to be false, or a size is reported for which it '
               'is true. The recursion that creates basis functions is treated by induction on the degree.')
RULE = '0 <= index < size for every subscript (operator[], at) executed by the operation, in every iteration'
ASSUMPTIONS = ['the knot span of a parameter inside the range has p+1 basis functions (C12)',
               'digits of the multi-index counter stay below their lengths (C11)',
               'iterators are not checked, only subscripts']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier, select=lambda n: 'spec_raw' in n)
    speccheck.run(res, 'c18.cc', tier)
