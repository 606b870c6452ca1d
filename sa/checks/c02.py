"""Queries modify nothing that outlives the call."""
import re
from .. import prog as PR, effects
from ..report import INST, rel

EXPLANATION = ('Interprocedural effect analysis over the whole type-checked program (points-to regions receiver / '
               'reachable from receiver / parameter / global, fixpoint over the call graph, virtual calls joined over '
               'overriders). Every public query of the library is an obligation: its may-write set must not contain '
               'the receiver, anything reachable from it, anything reachable from its arguments, nor any global or '
               'function-local static. const-correctness alone does not give this, because the spline classes hold '
               'their knot vectors, basis functions and control points through shared_ptr.')
RULE = 'may-write set of a query contains only storage created during the call'
ASSUMPTIONS = ['models of standard library effects in sa/effects.py']

CLASSES = ['baf::KnotVector', 'baf::BasisFunction', 'baf::BSplineBasisFunction', 'baf::ZeroDegBSplBasFnc',
           'baf::ControlPoint', 'spl::Spline', 'spl::BSpline', 'spl::NURBS', 'spl::ParameterSpace', 'spl::PhysicalSpace',
           'spl::WeightedPhysicalSpace', 'spl::Projection', 'util::MultiIndexHandler', 'util::ElementGenerator',
           'util::Element', 'util::VectorUtils', 'util::NumericSettings', 'util::NamedType', 'util::AnyCasts',
           'baf::BasisFunctionFactory']
WRITERS = ['io::IGESWriter', 'io::IRITWriter', 'io::XMLWriter', 'io::VTKWriter']
QUERY = re.compile(r'^(Get|Evaluate|Are|Is|Compute|Projection|Extract|begin$|end$|get$|operator(==|<|>|<=|>=|\[\])$|'
                   r'ThrowIf|CrossProduct|Scale)')


def run(res, tier):
    prog = PR.load([INST])
    E = effects.Effects(prog)
    res.analysed['translation units'] = len(prog.tus)
    res.analysed['functions summarised'] = len(prog.fns)
    nq = nw = nc = 0
    for f in sorted(prog.fns.values(), key=lambda f: (f['n'], f['id'])):
        cls = PR.strip_targs(f.get('cls') or '')
        s = E.sums[f['id']]
        where = '%s:%s %s' % (rel(f.get('file')), f.get('l'), f['n'])
        if cls in CLASSES and not f.get('ctor') and not f['sn'].startswith('~'):
            is_query = f.get('access', 0) == 0 and (f.get('const') or QUERY.match(f['sn'])) and not f.get('implicit')
            # operator[] and begin()/end() of non-const objects hand out references, they do not write
            if not is_query or f['sn'].startswith('operator=') and not f['sn'] == 'operator==':
                continue
            nq += 1
            bad = {r: w for r, w in s.writes.items() if bad_region(r, f)}
            report(res, f, where, bad, 'query')
        elif cls in WRITERS and f['sn'] == 'WriteFile' and f.get('access', 0) == 0:
            nw += 1
            bad = {r: w for r, w in s.writes.items() if r.endswith('*') or r == 'T0' or r == 'P00'}
            report(res, f, where, bad, 'writing splines to a file')
        elif cls in CLASSES + ['spl::SurfaceGenerator'] and f.get('ctor') and not f.get('movector') and f.get('access', 0) == 0:
            nc += 1
            bad = {}
            for r, w in s.writes.items():
                if r[0] == 'P':
                    i = int(r[1:-1])
                    t = f['params'][i]['t']
                    if r.endswith('0') and t.rstrip().endswith('&&'):
                        continue
                    bad[r] = w
                if r == 'G':
                    bad[r] = w
            report(res, f, where, bad, 'construction from existing objects')
    res.need(nq, 200, 'queries')
    res.need(nw, 4, 'writer entry points')
    res.need(nc, 30, 'constructors')


def bad_region(r, f):
    if r in ('T0', 'T*', 'G'):
        return True
    i = int(r[1:-1])
    t = f['params'][i]['t'].strip()
    if r.endswith('0'):
        return re.match(r'const\b', t) is not None      # a non-const reference parameter is an explicit output
    if re.search(r'\*$', t) and not t.startswith('const '):
        return False                                      # a raw out pointer
    return True


NAMES = {'T0': 'the receiver', 'T*': 'storage reachable from the receiver', 'G': 'global or static storage'}


def name(r, f):
    if r in NAMES:
        return NAMES[r]
    i = int(r[1:-1])
    return ('argument %d' if r.endswith('0') else 'storage reachable from argument %d') % (i + 1)


def report(res, f, where, bad, what):
    if not bad:
        res.held('%s leaves its operands unmodified' % what, where)
        return
    for r, (fn, file, line, how) in sorted(bad.items()):
        res.violated('%s may modify %s' % (what, name(r, f)), where,
                     'modified in %s at %s:%s by %s' % (fn, rel(file), line, how))
