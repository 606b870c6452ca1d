"""Splines that are copied, assigned, subdivided or built from the same data share no storage."""
from .. import prog as PR, effects
from ..report import INST, rel

EXPLANATION = ('Interprocedural sharing analysis (points-to regions with heap objects per allocation site, fixpoint over '
               'the call graph). Obligations: after copy construction and copy assignment of every spline, parameter '
               'space and control point container, after construction of a spline from knot vectors, degrees and '
               'control points, and for the two splines returned by a subdivision, no storage of the new object is '
               'reachable from the old one.')
RULE = 'reach(result) is disjoint from reach(source)'
ASSUMPTIONS = ['construction from a generator object hands the generator\'s spaces over by design and is not covered']

COPY = ['baf::KnotVector', 'baf::ControlPoint', 'spl::ParameterSpace', 'spl::PhysicalSpace', 'spl::WeightedPhysicalSpace',
        'spl::Spline', 'spl::BSpline', 'spl::NURBS']
BUILD = ['spl::Spline', 'spl::BSpline', 'spl::NURBS']


def run(res, tier):
    prog = PR.load([INST])
    E = effects.Effects(prog)
    res.analysed['functions summarised'] = len(prog.fns)
    nc = na = nb = ns = 0
    for f in sorted(prog.fns.values(), key=lambda f: (f['n'], f['id'])):
        cls = PR.strip_targs(f.get('cls') or '')
        s = E.sums[f['id']]
        where = '%s:%s %s' % (rel(f.get('file')), f.get('l'), f['n'])
        if cls in COPY and f.get('copyctor'):
            nc += 1
            shared(res, E, f, s, where, 'copy construction')
        elif cls in COPY and f.get('copyassign'):
            na += 1
            shared(res, E, f, s, where, 'copy assignment')
        elif cls in BUILD and f.get('ctor') and not f.get('movector') and f['params'] and f.get('access', 0) == 0:
            ts = [PR.base_t(p['t']) for p in f['params']]
            if any('Generator<' in t for t in ts) or any(PR.targs(t)[0] == 'std::shared_ptr' for t in ts):
                continue
            nb += 1
            shared(res, E, f, s, where, 'construction from given data')
        elif cls in ('spl::BSpline', 'spl::NURBS') and f.get('access', 0) == 0 and \
                any(k in PR.base_t(f.get('rt', '')) for k in ('shared_ptr<spl::BSpline', 'shared_ptr<spl::NURBS')):
            ns += 1
            bad = [r for r in s.ret_pts | s.fresh if r[0] in 'TPG']
            if bad:
                res.violated('derived spline shares storage with the spline it was derived from', where,
                             'result reaches %s' % sorted(bad))
            else:
                res.held('derived splines are independent', where)
    res.need(nc, 20, 'copy constructors')
    res.need(na, 16, 'copy assignments')
    res.need(nb, 8, 'constructors from data')
    res.need(ns, 4, 'subdivisions')


def shared(res, E, f, s, where, what):
    bad = {k: w for k, w in s.stores.items() if k[0] in ('T0', 'T*') and k[1][0] in 'PG' and
           not f['params'][int(k[1][1:-1])]['t'].rstrip().endswith('&&')} if s.stores else {}
    bad.update({k: w for k, w in s.stores.items() if k[0][0] == 'P' and k[1][0] == 'T'})
    if not bad:
        res.held('%s shares no storage with its source' % what, where)
    for (d, src), (fn, file, line) in sorted(bad.items()):
        res.violated('%s shares storage with its source' % what, where,
                     '%s becomes reachable from the new object (in %s at %s:%s)' %
                     ('storage of argument %d' % (int(src[1:-1]) + 1) if src[0] == 'P' else 'the new object', fn, rel(file), line))
