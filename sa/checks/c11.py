"""Multi-index numbering and control-net storage."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of MultiIndexHandler (1 to 4 dimensions) and of the control point and weight accessors on '
               'arbitrary lengths and indices: the closed form of each result is compared with the mixed-radix definition '
               '(first direction fastest), and reads after writes with the written value.')
RULE = 'value(code) == value(definition) for all lengths, indices and coordinates'
ASSUMPTIONS = ['every direction has at least one entry', 'indices are inside the net']


def run(res, tier):
    speccheck.run(res, 'c11.cc', tier)
