"""Basis functions follow the Cox-de Boor recursion and belong to the current knots and degrees."""
from .. import speccheck

EXPLANATION = ('Abstract interpretation of the basis function classes and of ParameterSpace. Basis functions of arbitrary degree '
               'are decided by induction: the recursive construction and evaluation are entered once and their recursive uses '
               'are represented by the (uninterpreted) function of lower degree, for which only the support hypothesis is '
               'assumed. Parameter spaces are built, copied and changed with arbitrary knots and degrees, and each basis '
               'function is compared with the one of its direction\'s current knots and degree.')
RULE = 'value(basis function of degree p) == recursion over degree p-1; basis_functions_[d][i] == N(knots[d], i, degree[d]) after every operation'
ASSUMPTIONS = ['distinct knots differ by at least 1e-9 (the library identifies closer ones with the last knot)',
               'knots are nondecreasing']


def run(res, tier):
    speccheck.run(res, 'c09.cc', tier)
