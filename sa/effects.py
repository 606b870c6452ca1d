"""Interprocedural effect and sharing analysis (flow-insensitive points-to with per-function summaries).

For every function of the type-checked program it computes, by a fixpoint over the call graph,
  writes   which storage that outlives the call it may modify: the receiver's own storage (T0), storage reachable from
           the receiver through pointers (T*), the object bound to reference parameter i (Pi0), storage reachable from
           parameter i (Pi*), globals and function-local statics (G);
  stores   which storage becomes reachable from which other storage (dst, src);
  ret      what a returned reference designates and what a returned value can reach.
Containers own their elements (value semantics); shared_ptr, unique_ptr, raw pointers and iterators point.
Virtual calls join over all overriders.  Nothing is executed.
"""
import re
from . import prog as PR

PURE_STD = {
    'std::find', 'std::find_if', 'std::count', 'std::count_if', 'std::equal', 'std::accumulate', 'std::distance',
    'std::lower_bound', 'std::upper_bound', 'std::binary_search', 'std::equal_range', 'std::all_of', 'std::any_of',
    'std::none_of', 'std::max_element', 'std::min_element', 'std::is_sorted', 'std::inner_product', 'std::adjacent_find',
    'std::next', 'std::prev', 'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::mismatch', 'std::search',
    'std::max', 'std::min', 'std::clamp', 'std::move', 'std::forward', 'std::abs', 'std::to_string', 'std::stoi',
    'std::stod', 'std::get', 'std::size', 'std::rbegin', 'std::rend', 'std::lexicographical_compare', 'std::as_const',
    'std::addressof', 'std::any_cast', 'std::dynamic_pointer_cast', 'std::static_pointer_cast',
    'std::const_pointer_cast', 'std::make_pair', 'std::make_tuple', 'std::bind', 'std::ref', 'std::cref', 'std::tie',
    'std::operator==', 'std::operator!=', 'std::operator<', 'std::operator+', 'std::operator-', 'std::hypot',
    '__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator-', '__gnu_cxx::operator<',
    'std::reduce', 'std::transform_reduce', 'std::for_each', 'std::make_reverse_iterator', 'std::partition_point',
}
# algorithms that write through some of their iterator arguments: positions of the written iterators
WRITES_STD = {
    'std::transform': 'out', 'std::copy': 'out', 'std::copy_n': 'out', 'std::copy_if': 'out', 'std::unique_copy': 'out',
    'std::move_backward': 'out', 'std::copy_backward': 'out', 'std::fill': 'all', 'std::fill_n': 'all',
    'std::generate': 'all', 'std::iota': 'all', 'std::sort': 'all', 'std::stable_sort': 'all', 'std::reverse': 'all',
    'std::rotate': 'all', 'std::unique': 'all', 'std::remove': 'all', 'std::remove_if': 'all', 'std::replace': 'all',
    'std::partial_sum': 'out', 'std::adjacent_difference': 'out', 'std::partition': 'all', 'std::swap_ranges': 'all',
    'std::iter_swap': 'all', 'std::inplace_merge': 'all', 'std::nth_element': 'all', 'std::reverse_copy': 'out',
    'std::generate_n': 'all', 'std::shuffle': 'all', 'std::merge': 'out', 'std::set_difference': 'out',
    'std::set_union': 'out', 'std::set_intersection': 'out',
}
# non-const members that do not modify the object they are called on
NOMUT = {'begin', 'end', 'rbegin', 'rend', 'operator[]', 'at', 'front', 'back', 'data', 'operator*', 'operator->', 'get',
         'cbegin', 'cend', 'size', 'empty', 'c_str', 'find', 'count', 'str', 'operator bool', 'is_open', 'good',
         'lock', 'fail', 'eof', 'lower_bound', 'upper_bound', 'equal_range', 'base', 'value', 'has_value', 'first_child',
         'child', 'attribute', 'children', 'next_sibling', 'text', 'as_int', 'as_double', 'select_node'}
LOCATING = {'operator[]', 'at', 'front', 'back', 'value'}
POINTING = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'data', 'find', 'lower_bound', 'upper_bound', 'c_str',
            'erase', 'insert', 'emplace'}
STREAM = ('std::basic_ostream', 'std::basic_istream', 'std::basic_iostream', 'std::basic_ofstream', 'std::basic_ifstream',
          'std::basic_fstream', 'std::basic_ios', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::ios_base')


class Sum:
    __slots__ = ('writes', 'stores', 'ret_loc', 'ret_pts', 'fresh', 'allocs')

    def __init__(self):
        self.writes = {}
        self.stores = {}
        self.ret_loc = frozenset()
        self.ret_pts = frozenset()
        self.fresh = frozenset()

    def key(self):
        return (frozenset(self.writes), frozenset(self.stores), self.ret_loc, self.ret_pts, self.fresh)


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.sums = {}
        self._ptr = {}
        self.unresolved = {}
        for f in prog.fns.values():
            self.sums[f['id']] = Sum()
        self.lambda_of = {}
        todo = True
        n = 0
        order = list(prog.fns.values())
        callers = {}
        for f in order:
            for c in self.callees(f):
                callers.setdefault(c, set()).add(f['id'])
        work = [f['id'] for f in order]
        inq = set(work)
        while work:
            fid = work.pop()
            inq.discard(fid)
            s = FnAn(self, prog.fns[fid]).run()
            n += 1
            if s.key() != self.sums[fid].key():
                self.sums[fid] = s
                for c in callers.get(fid, ()):
                    if c not in inq:
                        inq.add(c)
                        work.insert(0, c)
            else:
                self.sums[fid] = s
        self.rounds = n

    def callees(self, f):
        out = set()

        def walk(x):
            if isinstance(x, dict):
                fn = x.get('fn')
                if isinstance(fn, dict) and 'id' in fn:
                    out.update(self.targets(fn, x.get('nonvirt')))
                    if fn.get('n', '').startswith('std::make_shared') or fn.get('n', '').startswith('std::make_unique'):
                        for c in self.ctors_of(x):
                            out.add(c)
                    if fn.get('n', '').rsplit('::', 1)[-1] in ('emplace_back', 'push_back'):
                        for c in self.ctors_of(x):
                            out.add(c)
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(f.get('body'))
        walk(f.get('inits'))
        return out

    def made(self, e):
        """class constructed in place by make_shared/make_unique/emplace_back"""
        t = e.get('t', '')
        n = e['fn']['n']
        if 'make_shared' in n or 'make_unique' in n:
            a = PR.targs(t)[1]
            return PR.strip_cv(a[0]) if a else None
        c = e['fn'].get('cls', '')
        a = PR.targs(c)[1]
        return PR.strip_cv(a[0]) if a else None

    def ctors_of(self, e):
        c = self.made(e)
        r = self.prog.recs.get(c) if c else None
        if not r:
            return []
        nargs = len(e['args'])
        out = []
        for m in r['methods']:
            f = self.prog.fns.get(m['id'])
            if not f or not f.get('ctor'):
                continue
            if f.get('movector'):
                continue
            np_ = len(f['params'])
            if np_ != nargs:
                if not (np_ > nargs and all('def' in q or True for q in f['params'][nargs:])):
                    continue
                continue
            if nargs == 1:
                at = PR.base_t(e['args'][0].get('t', ''))
                same = at in self.prog.subclasses(c) or at == c
                if same != bool(f.get('copyctor')):
                    continue
            out.append(m['id'])
        return out

    def targets(self, fn, nonvirt=False):
        out = [fn['id']]
        if fn.get('virt') and not nonvirt:
            seen = set(out)
            todo = [fn['id']]
            while todo:
                m = todo.pop()
                for _, o in self.prog.overriders.get(m, ()):
                    if o not in seen:
                        seen.add(o)
                        out.append(o)
                        todo.append(o)
        return [o for o in out if o in self.prog.fns]

    def has_ptr(self, t):
        """can an object of this type hold a pointer to other storage?"""
        t = PR.strip_cv(t or '')
        if PR.is_ref(t):
            t = PR.base_t(t)
        if t in self._ptr:
            return self._ptr[t]
        self._ptr[t] = False
        r = self._has_ptr(t)
        self._ptr[t] = r
        return r

    def _has_ptr(self, t):
        k = PR.kind(t)
        if k in ('int', 'real', 'bool', 'string'):
            return False
        if k in ('rawptr', 'ptr', 'iter'):
            return True
        n, a = PR.targs(t)
        if n in PR.SEQ_T or n in ('std::pair', 'std::tuple', 'std::map', 'std::set', 'std::unordered_map',
                                  'std::optional', 'std::reverse_iterator'):
            if n == 'std::reverse_iterator':
                return True
            return any(self.has_ptr(x) for x in a if not re.fullmatch(r'\d+U?L?', x) and
                       not x.startswith('std::allocator'))
        if t.endswith('[]') or re.search(r'\[\d+\]$', t):
            return self.has_ptr(re.sub(r'\[\d*\]$', '', t))
        r = self.prog.recs.get(t)
        if r:
            return any(self.has_ptr(f['t']) or PR.is_ref(f['t']) for f in r['fields']) or \
                any(self.has_ptr(b) for b in r['bases'])
        if n.startswith(STREAM) or n in ('std::allocator', 'void', 'std::plus', 'std::minus', 'std::multiplies',
                                         'std::tm', 'tm', 'std::runtime_error', 'std::range_error', ''):
            return False
        if t.startswith('pugi::') or t.startswith('std::random') or t.startswith('std::mersenne') or \
           t.startswith('std::uniform') or t.startswith('std::chrono'):
            return False
        return True


EMPTY = frozenset()


class FnAn:
    def __init__(self, E, f):
        self.E = E
        self.f = f
        self.env = {}          # object -> pts
        self.vloc = {}         # var id -> loc set for references
        self.sum = Sum()
        self.changed = False
        self.lam = {}
        self.params = {p['id']: i for i, p in enumerate(f['params'])}
        self.ptypes = [p['t'] for p in f['params']]

    # ---- regions
    def pts(self, r):
        if r in self.env:
            return self.env[r]
        if r == 'T0' or r == 'T*':
            return frozenset(('T*',))
        if r == 'G':
            return frozenset('G')
        if r[0] == 'P':
            return frozenset((r[:-1] + '*',))
        return EMPTY

    def ptsof(self, locs):
        out = set()
        for r in locs:
            out |= self.pts(r)
        return frozenset(out)

    def closure(self, regs):
        out = set()
        todo = list(regs)
        while todo:
            r = todo.pop()
            if r in out:
                continue
            out.add(r)
            todo += list(self.pts(r))
        return frozenset(out)

    def addpts(self, locs, ps, line=0):
        if not ps:
            return
        for r in locs:
            o = self.pts(r)
            if r[0] in 'TPG':
                for s in ps:
                    if s[0] in 'TPG':
                        k = (r, s)
                        if s[0] == r[0] == 'T':
                            continue
                        if k not in self.sum.stores:
                            self.sum.stores[k] = (self.f['n'], self.f.get('file'), line)
            n = o | ps
            if n != o:
                self.env[r] = n
                self.changed = True

    def write(self, locs, line, what):
        for r in locs:
            if r[0] in 'TPG' and r not in self.sum.writes:
                self.sum.writes[r] = (self.f['n'], self.f.get('file'), line, what)
                self.changed = True

    # ---- driver
    def run(self):
        f = self.f
        for i, p in enumerate(f['params']):
            if PR.is_ref(p['t']):
                self.vloc[p['id']] = frozenset(('P%d0' % i,))
            else:
                self.vloc[p['id']] = frozenset(('V%s' % p['id'],))
                if self.E.has_ptr(p['t']):
                    self.env['V%s' % p['id']] = frozenset(('P%d*' % i,))
        if f.get('ctor'):
            self.env['T0'] = EMPTY
        for it in range(30):
            self.changed = False
            for ini in f.get('inits') or []:
                if ini.get('e') is None:
                    continue
                t = ini.get('ft', '')
                loc, ps = self.ev(ini['e'], target=frozenset(('T0',)))
                if ini.get('f') is not None:
                    if PR.is_ref(t):
                        self.addpts(('T0',), loc, ini['e'].get('l', 0))
                    elif self.E.has_ptr(t):
                        self.addpts(('T0',), ps, ini['e'].get('l', 0))
            if f.get('body'):
                self.st(f['body'])
            if not self.changed:
                break
        s = self.sum
        # localise: drop writes into by-value parameters / constructed object
        if f.get('ctor'):
            s.writes.pop('T0', None)
            # objects reachable from the new object
            tp = self.closure(self.env.get('T0', EMPTY))
            for r in tp:
                if r[0] in 'PG':
                    s.stores.setdefault(('T0', r), (f['n'], f.get('file'), f.get('l', 0)))
        return s

    # ---- statements
    def st(self, s):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.st(x)
            return
        k = s.get('s')
        if k == 'block':
            for x in s['b']:
                self.st(x)
        elif k == 'decl':
            for v in s['vars']:
                self.decl(v)
        elif k == 'expr':
            self.ev(s['e'])
        elif k == 'ret':
            if s.get('e') is not None:
                loc, ps = self.ev(s['e'])
                rt = self.f.get('rt', '')
                sm = self.sum
                if PR.is_ref(rt):
                    nl = sm.ret_loc | frozenset(r for r in loc if r[0] in 'TPG')
                    if nl != sm.ret_loc:
                        sm.ret_loc = nl
                        self.changed = True
                if self.E.has_ptr(rt):
                    direct = frozenset(r if r[0] in 'TPG' else 'F' for r in ps)
                    fr = self.closure([r for r in ps if r[0] not in 'TPG'])
                    fresh = frozenset(r for r in fr if r[0] in 'TPG')
                    if direct - sm.ret_pts or fresh - sm.fresh:
                        sm.ret_pts |= direct
                        sm.fresh |= fresh
                        self.changed = True
        elif k == 'rfor':
            loc, ps = self.ev(s['range'])
            v = s['var']
            ids = v if isinstance(v, list) else [v]
            for d in ids:
                if PR.is_ref(d.get('t', '')):
                    self.bindref(d['id'], loc | ps if not loc else loc)
                else:
                    self.vloc[d['id']] = frozenset(('V%s' % d['id'],))
                    if self.E.has_ptr(d.get('t', '')):
                        self.addpts(('V%s' % d['id'],), ps | self.ptsof(loc))
            self.st(s['b'])
        else:
            for key, v in s.items():
                if key in ('s', 'l'):
                    continue
                self.any(v)

    def any(self, v):
        if isinstance(v, dict):
            if 's' in v:
                self.st(v)
            elif 'k' in v:
                self.ev(v)
            elif 'id' in v and 't' in v:
                self.decl(v)
            else:
                for x in v.values():
                    self.any(x)
        elif isinstance(v, list):
            for x in v:
                self.any(x)

    def call_data(self, e):
        if isinstance(e, dict):
            if e.get('k') == 'lambda':
                return False
            if e.get('k') == 'this' or e.get('k') == 'var' and e.get('vk') in ('param', 'local'):
                return not e.get('cv') and e.get('cf') is None or e.get('k') == 'this'
            return any(self.call_data(x) for x in e.values())
        if isinstance(e, list):
            return any(self.call_data(x) for x in e)
        return False

    def bindref(self, vid, loc):
        o = self.vloc.get(vid, EMPTY)
        n = o | loc
        if n != o:
            self.vloc[vid] = n
            self.changed = True

    def decl(self, v):
        vid = v['id']
        t = v.get('t', '')
        e = v.get('init', v.get('e'))
        if v.get('static') or v.get('vk') == 'static':
            self.vloc[vid] = frozenset('G')
            if e is not None:
                self.ev(e, target=frozenset('G'))
                # initialisation of a constant static is not an observable write; non-const statics are
                if self.call_data(e):
                    # a static initialised from one call's data carries that data into later calls
                    self.write(frozenset('G'), e.get('l', v.get('l', 0)), 'static initialised from the data of one call')
            return
        if PR.is_ref(t):
            if e is not None:
                loc, ps = self.ev(e)
                if not loc:
                    h = 'V%s' % vid
                    self.addpts((h,), ps)
                    loc = frozenset((h,))
                self.bindref(vid, loc)
            return
        h = 'V%s' % vid
        self.vloc[vid] = frozenset((h,))
        if e is not None:
            if e.get('k') == 'lambda':
                self.lam[vid] = e
            loc, ps = self.ev(e, target=frozenset((h,)))
            if self.E.has_ptr(t):
                self.addpts((h,), ps)

    # ---- expressions: (loc, pts)
    def ev(self, e, target=None):
        if e is None:
            return EMPTY, EMPTY
        if isinstance(e, list):
            for x in e:
                self.ev(x)
            return EMPTY, EMPTY
        k = e.get('k')
        m = getattr(self, 'e_' + k, None) if k else None
        if m is None:
            for key, v in e.items():
                if key not in ('k', 'l', 't', 'fn', 'n'):
                    self.any(v)
            return EMPTY, EMPTY
        return m(e, target)

    def val(self, e, target=None):
        loc, ps = self.ev(e, target)
        return loc, ps

    def e_this(self, e, t):
        return EMPTY, frozenset(('T0',))

    def e_var(self, e, t):
        vk = e.get('vk')
        if vk in ('global', 'static'):
            loc = frozenset('G')
            if e.get('id') in self.vloc and vk != 'global':
                loc = self.vloc[e['id']]
            return loc, frozenset('G')
        loc = self.vloc.get(e['id'])
        if loc is None:
            loc = self.vloc[e['id']] = frozenset(('V%s' % e['id'],))
        return loc, self.ptsof(loc)

    def e_mem(self, e, t):
        if e.get('base') is None:
            return frozenset('G'), frozenset('G')
        loc, ps = self.ev(e['base'])
        if e.get('arrow'):
            loc = ps
            ps = self.ptsof(loc)
        if PR.is_ref(e.get('t', '')):
            pass
        if not loc:
            return loc, ps
        return loc, self.ptsof(loc)

    def e_cast(self, e, t):
        return self.ev(e['e'], t)

    def e_un(self, e, t):
        loc, ps = self.ev(e['e'])
        op = e.get('op')
        if op == '*':
            return ps, self.ptsof(ps)
        if op == '&':
            return EMPTY, loc
        if op in ('++', '--'):
            self.write(loc, e.get('l', 0), op)
            return loc, ps
        return EMPTY, EMPTY

    def e_bin(self, e, t):
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        if e.get('op') == ',':
            return b
        if self.E.has_ptr(e.get('t', '')):
            return EMPTY, a[1] | b[1]
        return EMPTY, EMPTY

    def e_asg(self, e, t):
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        self.write(a[0], e.get('l', 0), 'assignment')
        if self.E.has_ptr(e.get('t', '')):
            self.addpts(a[0], b[1], e.get('l', 0))
        return a[0], self.ptsof(a[0])

    def e_cond(self, e, t):
        self.ev(e.get('c'))
        a = self.ev(e.get('a'), t)
        b = self.ev(e.get('b'), t)
        return a[0] | b[0], a[1] | b[1]

    def e_sub(self, e, t):
        loc, ps = self.ev(e.get('a', e.get('base')))
        self.ev(e.get('b', e.get('i')))
        if PR.kind((e.get('a') or e.get('base') or {}).get('t', '')) == 'rawptr':
            return ps, self.ptsof(ps)
        return loc, ps

    def e_lambda(self, e, t):
        key = e.get('fid') or id(e)
        self.E.lambda_of[key] = e
        self.lam[key] = e
        if not e.get('_active'):
            self.run_lambda(e, None)
        # captured pointers
        return EMPTY, EMPTY

    def run_lambda(self, e, elems):
        bodies = []
        if e.get('body') is not None:
            bodies.append((e.get('params', []), e['body']))
        for ins in e.get('insts') or []:
            bodies.append((ins.get('params', []), ins.get('body')))
        if getattr(self, '_depth', 0) > 6:
            return
        self._depth = getattr(self, '_depth', 0) + 1
        for ps, b in bodies:
            for i, p in enumerate(ps):
                if elems is None:
                    loc, pp = EMPTY, EMPTY
                elif isinstance(elems, list):
                    loc, pp = elems[i] if i < len(elems) else (EMPTY, EMPTY)
                else:
                    loc, pp = elems
                h = 'V%s' % p['id']
                if PR.is_ref(p['t']):
                    self.bindref(p['id'], loc if loc else frozenset((h,)))
                    if not loc:
                        self.addpts((h,), pp)
                else:
                    self.vloc[p['id']] = frozenset((h,))
                    if self.E.has_ptr(p['t']):
                        self.addpts((h,), pp)
            # a lambda's return statements are not the function's
            saved = self.f.get('rt')
            sm = (self.sum.ret_loc, self.sum.ret_pts, self.sum.fresh)
            self.st(b)
            self.sum.ret_loc, self.sum.ret_pts, self.sum.fresh = sm
        self._depth -= 1

    def e_throw(self, e, t):
        self.ev(e.get('e'))
        return EMPTY, EMPTY

    def e_new(self, e, t):
        h = 'H%s' % id(e)
        for key in ('e', 'init', 'ctor', 'args', 'size'):
            if key in e and e[key] is not None:
                loc, ps = self.ev(e[key], frozenset((h,)))
                self.addpts((h,), ps)
        return EMPTY, frozenset((h,))

    def e_delete(self, e, t):
        loc, ps = self.ev(e.get('e'))
        self.write(ps, e.get('l', 0), 'delete')
        return EMPTY, EMPTY

    def e_init(self, e, t):
        out = EMPTY
        for a in e.get('args') or []:
            loc, ps = self.ev(a)
            out |= ps
        for key in ('fill', 'nb'):
            if isinstance(e.get(key), dict):
                out |= self.ev(e[key])[1]
        if not self.E.has_ptr(e.get('t', '')):
            out = EMPTY
        return EMPTY, out

    def e_ctor(self, e, target):
        cls = e.get('cls', '')
        args = [self.ev(a) for a in e.get('args') or []]
        fn = e.get('fn') or {}
        if fn.get('id') in self.E.prog.fns:
            h = 'H%s' % id(e)
            self.apply(self.E.sums[fn['id']], self.E.prog.fns[fn['id']], frozenset((h,)), EMPTY, args, e, ctor=True)
            return EMPTY, self.pts(h)
        if not self.E.has_ptr(cls or e.get('t', '')):
            return EMPTY, EMPTY
        out = EMPTY
        k = PR.kind(cls)
        for a, ae in zip(args, e.get('args') or []):
            if k == 'seq' or k == 'ptr' or k == 'iter' or True:
                if PR.kind(ae.get('t', '')) == 'iter' and k == 'seq':
                    # range construction copies the elements
                    out |= self.ptsof(a[1])
                else:
                    out |= a[1]
        return EMPTY, out

    # ---- calls
    def apply(self, s, f, tloc, tps, args, e, ctor=False):
        """instantiate a callee summary at a call site; returns (loc, pts)"""
        line = e.get('l', 0)
        m = {}

        def mp(r):
            if r in m:
                return m[r]
            if r == 'T0':
                v = tloc
            elif r == 'T*':
                v = self.closure(self.ptsof(tloc))
            elif r == 'G':
                v = frozenset('G')
            elif r == 'F':
                v = frozenset(('H%s' % id(e),))
            elif r[0] == 'P':
                i = int(r[1:-1])
                if i >= len(args):
                    v = EMPTY
                elif r.endswith('0'):
                    v = args[i][0]
                    if not v:
                        h = 'A%s_%d' % (id(e), i)
                        self.addpts((h,), args[i][1])
                        v = frozenset((h,))
                else:
                    v = self.closure(args[i][1] | self.ptsof(args[i][0]))
            else:
                v = EMPTY
            m[r] = v
            return v
        for r, w in s.writes.items():
            for q in mp(r):
                if q[0] in 'TPG' and q not in self.sum.writes:
                    self.sum.writes[q] = w
                    self.changed = True
        for (d, src), w in s.stores.items():
            ds, ss = mp(d), mp(src)
            if ds and ss:
                for q in ds:
                    if q[0] in 'TPG':
                        for z in ss:
                            if z[0] == q[0] == 'T' or z[0] not in 'TPG':
                                continue
                            self.sum.stores.setdefault((q, z), w)
                    o = self.pts(q)
                    if ss - o:
                        self.env[q] = o | ss
                        self.changed = True
        if ctor:
            if s.fresh or True:
                fr = frozenset(x for r in s.fresh for x in mp(r))
                for q in tloc:
                    o = self.pts(q)
                    nw = o | frozenset(('H%s' % id(e),)) if False else o | fr
                    if nw != o:
                        self.env[q] = nw
                        self.changed = True
            return EMPTY, EMPTY
        loc = frozenset(x for r in s.ret_loc for x in mp(r))
        ps = frozenset(x for r in s.ret_pts for x in mp(r))
        h = 'H%s' % id(e)
        if 'F' in s.ret_pts:
            fr = frozenset(x for r in s.fresh for x in mp(r))
            o = self.pts(h)
            if fr - o:
                self.env[h] = o | fr
                self.changed = True
        if PR.is_ref(f.get('rt', '')):
            return loc, self.ptsof(loc)
        return EMPTY, ps

    def e_call(self, e, target):
        fn = e.get('fn')
        args_e = e.get('args') or []
        obj = e.get('obj')
        line = e.get('l', 0)
        ol = op_ = EMPTY
        if obj is not None:
            ol, op_ = self.ev(obj)
            if e.get('arrow') or PR.kind(obj.get('t', '')) == 'rawptr' and fn and fn.get('cls') and \
                    obj.get('k') != 'lambda' and not PR.strip_cv(obj.get('t', '')) == fn.get('cls'):
                ol, op_ = op_, self.ptsof(op_)
            if not ol:
                h = 'O%s' % id(e)
                self.addpts((h,), op_)
                ol = frozenset((h,))
        args = [self.ev(a) for a in args_e]
        if fn is None:
            if e.get('callee') is not None:
                self.ev(e['callee'])
                c = e['callee']
                while c.get('k') == 'cast' or (c.get('k') == 'un' and c.get('op') in '*&'):
                    c = c['e']
                if c.get('k') == 'var' and c.get('id') in self.lam:
                    self.run_lambda(self.lam[c['id']], args)
                else:
                    # unknown callee: may write through pointers and non-const references it is given
                    for a in args:
                        self.write(a[1], line, 'call through pointer')
            return EMPTY, EMPTY
        tg = self.E.targets(fn, e.get('nonvirt'))
        if tg:
            loc = ps = EMPTY
            for t in tg:
                f = self.E.prog.fns[t]
                l2, p2 = self.apply(self.E.sums[t], f, ol, op_, args, e)
                loc |= l2
                ps |= p2
            return loc, ps
        if fn['id'] in self.E.lambda_of or fn['n'].endswith('operator()') and '(lambda' in (fn.get('cls') or '') + fn['n']:
            lam = self.E.lambda_of.get(fn['id'])
            if lam is None and obj is not None and obj.get('k') == 'var':
                lam = self.lam.get(obj['id'])
            if lam is not None:
                self.run_lambda(lam, args)
                return EMPTY, EMPTY
        return self.external(e, fn, obj, ol, op_, args_e, args)

    def external(self, e, fn, obj, ol, op_, args_e, args):
        line = e.get('l', 0)
        n = PR.strip_targs(fn['n'])
        short = n.rsplit('::', 1)[-1] if 'operator' not in n else n[n.index('operator'):]
        rt = fn.get('rt', '')
        if fn.get('repo') and fn['id'] not in self.E.prog.fns:
            # pure virtual or undefined: overriders joined elsewhere
            if not fn.get('virt'):
                self.E.unresolved.setdefault(fn['n'], (self.f['n'], line))
            return EMPTY, EMPTY
        if 'make_shared' in n or 'make_unique' in n:
            h = 'H%s' % id(e)
            cs = self.E.ctors_of(e)
            for c in cs:
                self.apply(self.E.sums[c], self.E.prog.fns[c], frozenset((h,)), EMPTY, args, e, ctor=True)
            made = self.E.made(e)
            if not cs and made and self.E.has_ptr(made):
                for a in args:
                    self.addpts((h,), a[1])
            return EMPTY, frozenset((h,))
        # lambdas handed to algorithms see the elements designated by the iterator arguments
        for ae, a in zip(args_e, args):
            x = ae
            while x.get('k') in ('cast', 'ctor') and (x.get('e') or x.get('args')):
                x = x.get('e') or x['args'][0]
            if x.get('k') == 'var' and x.get('id') in self.lam:
                x = self.lam[x['id']]
            if x.get('k') == 'lambda':
                el = EMPTY
                for b, be in zip(args, args_e):
                    if PR.kind(be.get('t', '')) in ('iter', 'rawptr') or 'iterator' in be.get('t', ''):
                        el |= b[1]
                self.run_lambda(x, (el, self.ptsof(el)))
        if obj is not None:
            stream = PR.strip_targs(fn.get('cls', '')).startswith(STREAM)
            iterator = PR.kind(fn.get('cls', '')) == 'iter'
            mut = not fn.get('const') and not fn.get('static') and short not in NOMUT
            if short in ('operator++', 'operator--', 'operator+=', 'operator-=') and iterator:
                self.write(ol, line, n)
                return ol, op_
            if mut:
                self.write(ol, line, n)
                for a, ae in zip(args, args_e):
                    if short in ('emplace_back', 'emplace', 'push_back', 'insert'):
                        cs = self.E.ctors_of(e) if short == 'emplace_back' else []
                        if cs:
                            continue
                    holder = fn.get('cls', '')
                    if self.E.has_ptr(holder):
                        if PR.kind(ae.get('t', '')) == 'iter' and PR.kind(holder) == 'seq':
                            if short in ('insert', 'assign') and len(args) >= 3:
                                self.addpts(ol, self.ptsof(a[1]), line)
                        else:
                            self.addpts(ol, a[1], line)
                if short == 'emplace_back':
                    for c in self.E.ctors_of(e):
                        h = 'H%s' % id(e)
                        self.apply(self.E.sums[c], self.E.prog.fns[c], frozenset((h,)), EMPTY, args, e, ctor=True)
                        self.addpts(ol, self.pts(h), line)
            if short in ('operator=',):
                return ol, self.ptsof(ol)
            if short in ('operator*', 'operator->', 'get') and PR.kind(fn.get('cls', '')) in ('ptr', 'iter') or \
                    n.startswith('std::__shared_ptr_access'):
                if short == 'operator*':
                    return op_, self.ptsof(op_)
                return EMPTY, op_
            if short == 'operator[]' and iterator:
                return op_, self.ptsof(op_)
            if short == 'operator[]' and PR.kind(fn.get('cls', '')) == 'ptr':
                return op_, self.ptsof(op_)
            if short in LOCATING or PR.is_ref(rt) and not iterator:
                return ol, self.ptsof(ol)
            if short in POINTING:
                return EMPTY, ol | (op_ if iterator else EMPTY)
            if iterator:
                return EMPTY, op_
            if self.E.has_ptr(e.get('t', '')):
                return EMPTY, op_
            return EMPTY, EMPTY
        # free function
        if n in WRITES_STD:
            its = [i for i, ae in enumerate(args_e)
                   if PR.kind(ae.get('t', '')) in ('iter', 'rawptr') or 'iterator' in ae.get('t', '')]
            if WRITES_STD[n] == 'out' and its:
                its = its[-1:]
            for i in its:
                self.write(args[i][1], line, n)
            out = EMPTY
            for i in its:
                out |= args[i][1]
            # copied elements may carry pointers
            src = EMPTY
            for i, ae in enumerate(args_e):
                if PR.kind(ae.get('t', '')) in ('iter', 'rawptr'):
                    src |= self.ptsof(args[i][1])
                else:
                    src |= args[i][1]
            for i in its:
                self.addpts(args[i][1], src, line)
            return EMPTY, out if self.E.has_ptr(e.get('t', '')) else EMPTY
        pt = fn.get('pt') or []
        if n not in PURE_STD:
            for i, a in enumerate(args):
                t = pt[i] if i < len(pt) else ''
                if PR.is_ref(t) and not re.match(r'const\b', t) and not t.rstrip().endswith('&&'):
                    self.write(a[0], line, n)
                elif PR.kind(args_e[i].get('t', '')) == 'rawptr' and t and not t.startswith('const '):
                    self.write(a[1], line, n)
            if n.startswith('std::swap') and len(args) == 2:
                self.addpts(args[0][0], args[1][1], line)
                self.addpts(args[1][0], args[0][1], line)
        out = EMPTY
        loc = EMPTY
        for a in args:
            out |= a[1]
            loc |= a[0]
        if PR.is_ref(rt):
            return (args[0][0] if args else EMPTY), out
        if not self.E.has_ptr(e.get('t', '')):
            return EMPTY, EMPTY
        return EMPTY, out
