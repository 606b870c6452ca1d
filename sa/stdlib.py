"""Abstract semantics of the standard-library operations the library uses, and the multi-index contract."""
from fractions import Fraction as Fr
import math
from .terms import *
from . import terms
from .values import *
from .dom import entails, decide
from .prog import *
from .texts import Texts


def strip(n):
    return strip_targs(n)


class Std:
    def __init__(self, I):
        self.I = I
        self.texts = Texts(self)
        self.contract_classes = {r for r in I.prog.recs if r.startswith('util::MultiIndexHandler<')}

    # ------------------------------------------------------------ small helpers
    def strlit(self, s):
        return node('str', s)

    def store(self, s, i, v):
        return store(s, i, v, self.I.facts())

    def objp(self, e):
        """location of the object a member function is called on"""
        o = e['obj']
        I = self.I
        if e.get('arrow'):
            return I.frames[-1].this if o['k'] == 'this' else I.as_ptr(I.ev(o))
        return I.lv(o)

    def unk(self, e, why):
        return self.I.unkof(e.get('t', '') or e['fn'].get('rt', ''), why)

    def evall(self, e):
        return [self.I.ev(a) for a in e['args']]

    # ------------------------------------------------------------ constructors
    def ctor(self, e, cls):
        I = self.I
        n, a = targs(cls)
        args = e['args']
        if e.get('copy') or e.get('move'):
            return I.ev(args[0])
        if n == 'std::vector':
            return self.vec_ctor(e, a[0], args)
        if n == 'std::array':
            return I.zero(cls) if e.get('zero') else I.uninit(cls)
        if n == 'std::initializer_list':
            return I.ev(args[0]) if args else EMPTY
        if n in ('std::shared_ptr', 'std::unique_ptr'):
            if not args:
                return NULL
            v = I.ev(args[0])
            if isinstance(v, N) and v.k in ('ptr', 'null', 'optr', 'site', 'unkv'):
                return v
            return unkv('pointer constructor', cls)
        if n.startswith('__gnu_cxx::__normal_iterator'):
            return I.ev(args[0]) if args else unkv('iterator')
        if n in ('std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::less', 'std::greater',
                 'std::equal_to', 'std::not_equal_to', 'std::less_equal', 'std::greater_equal', 'std::negate'):
            return node('fobj', n[5:])
        if n == 'std::any':
            return self.construct_any(args)
        if n == 'pugi::xml_document':
            return self.texts.document()
        if n.startswith('pugi::'):
            return I.ev(args[0]) if args else NULL
        if n in STREAMS:
            if args and n == 'std::basic_ofstream':
                I.ev(args[0])
            return EMPTY
        if n == 'std::function':
            return I.ev(args[0]) if args else NULL
        if n in ('std::pair', 'std::tuple'):
            return slist([I.ev(x) for x in args])
        if n == 'std::basic_string':
            return self.texts.string_ctor(args)
        for x in args:
            I.ev(x)
        return unkv('object of ' + n, cls)

    def vec_ctor(self, e, et, args):
        I = self.I
        pt = [base_t(t) for t in e['fn'].get('pt', [])]
        args = [x for x in args if not base_t(x.get('t', '')).startswith('std::allocator')]
        if not args:
            return EMPTY
        if len(args) == 1:
            t0 = args[0].get('t', '')
            if kind(t0) == 'int':
                n = I.num(I.ev(args[0]))
                k = fresh_bv()
                return comp(k, n, I.zero(et))
            v = I.ev(args[0])
            if isinstance(v, N) and is_seq(v):
                return v
            return unkv('vector')
        v0 = I.ev(args[0])
        v1 = I.ev(args[1])
        if self.isit(v0) and self.isit(v1):
            return self.range(v0, v1)
        if isinstance(v0, P):
            k = fresh_bv()
            return comp(k, v0, I.conv(v1, et))
        return unkv('vector')

    def isit(self, v):
        return isinstance(v, N) and v.k == 'iter'

    def range(self, a, b):
        """sequence value between two iterators"""
        I = self.I
        if a.args[0] is not b.args[0]:
            return unkv('iterators of different ranges')
        s = I.read(a.args[0])
        if not (isinstance(s, N) and is_seq(s)):
            return unkv('range of non-sequence')
        return mkslice(s, a.args[2], b.args[2], I.facts())

    # ------------------------------------------------------------ calls
    def call(self, e, name):
        I = self.I
        parts = name.split('::')
        f = parts[-1]
        cls = '::'.join(parts[:-1])
        if e.get('obj') is not None:
            m = None
            if cls == 'std::vector':
                m = getattr(self, 'v_' + f.replace('operator', 'op').replace('[]', 'idx').replace('=', 'asg').replace(' ', ''), None)
            elif cls == 'std::array':
                m = getattr(self, 'v_' + f.replace('operator', 'op').replace('[]', 'idx').replace('=', 'asg'), None)
            elif cls in ('std::initializer_list',):
                m = getattr(self, 'v_' + f, None)
            elif cls == '__gnu_cxx::__normal_iterator':
                return self.iter_op(e, f)
            elif cls in ('std::__shared_ptr_access', 'std::__shared_ptr', 'std::shared_ptr', 'std::unique_ptr'):
                return self.sptr(e, f)
            elif cls in ('std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::less', 'std::greater',
                         'std::equal_to', 'std::not_equal_to', 'std::less_equal', 'std::greater_equal', 'std::negate') \
                    and f == 'operator()':
                return self.functor(node('fobj', cls[5:]), self.evall(e))
            elif cls == 'std::function' and f == 'operator()':
                return I.call_value(I.ev(e['obj']), e)
            if m:
                return m(e)
            return self.other_member(e, cls, f)
        if name in ('__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<', '__gnu_cxx::operator<=',
                    '__gnu_cxx::operator>', '__gnu_cxx::operator>=', '__gnu_cxx::operator-', '__gnu_cxx::operator+'):
            a, b = self.evall(e)
            if name.endswith('operator+'):
                a, b = b, a
            return I.binop(name.split('operator')[1], a, b, e.get('t', ''))
        if name == 'std::operator<<':
            return self.texts.put(e)
        if name == 'std::operator+' and any(kind(x.get('t', '')) == 'string' for x in e['args']):
            a, b = self.evall(e)
            return self.texts.join(EMPTY if isinstance(a, P) else a, EMPTY if isinstance(b, P) else b)
        m = getattr(self, 'f_' + f.replace('operator', 'op').replace('==', 'eq').replace('!=', 'ne'), None) \
            if cls in ('std', '') or cls.startswith('std') else None
        if m:
            return m(e)
        if 'numeric_limits' in name:
            if f == 'epsilon':
                return num(Fr(2) ** -52)
            if f == 'max':
                return num(2 ** 31 - 1) if kind(e.get('t', '')) == 'int' else topoly(atom('sym', ('HUGE',), 'r'))
            if f in ('min', 'lowest'):
                return num(-2 ** 31) if kind(e.get('t', '')) == 'int' else topoly(atom('sym', ('TINY',), 'r'))
            if f in ('infinity', 'quiet_NaN'):
                return topoly(atom('sym', (f,), 'r'))
        return self.unresolved(e, name)

    def unresolved(self, e, name):
        I = self.I
        I.note('standard operation not modelled: ' + name)
        for a in e['args']:
            v = I.ev(a)
            self.havoc_arg(a, v)
        if e.get('obj') is not None and not e['fn'].get('const'):
            p = self.objp(e)
            if p.k == 'ptr':
                I.write(p, unkv('modified by ' + name))
        return self.unk(e, 'call ' + name)

    def havoc_arg(self, a, v):
        if isinstance(v, N) and v.k in ('iter', 'backins') and not a.get('t', '').count('const'):
            p = v.args[0]
            if p.k == 'ptr':
                self.I.write(p, unkv('modified by algorithm'))

    def other_member(self, e, cls, f):
        I = self.I
        if cls == 'std::any':
            p = self.objp(e)
            if f in ('operator=', 'emplace') and e['args']:
                I.write(p, self.construct_any(e['args']) if f == 'operator=' else self.f_make_any(e))
                return p
            if f == 'has_value':
                v = I.read(p)
                return TRUE if isinstance(v, N) and v.k == 'any' else FALSE if v is NULL else bunk('has_value')
            if f == 'reset':
                I.write(p, NULL)
                return VOID
        if cls == 'std::basic_string':
            r = self.texts.string_member(e, f)
            if r is not None:
                return r
        if cls.startswith('std::basic_') and cls.endswith('stream') or cls in STREAMS or cls == 'std::basic_ios' or cls == 'std::ios_base':
            r = self.texts.stream_member(e, cls, f)
            if r is not None:
                return r
        if cls.startswith('pugi::'):
            r = self.texts.xml(e, cls, f)
            if r is not None:
                return r
        return self.unresolved(e, cls + '::' + f)

    # ------------------------------------------------------------ sequences
    def seq_of(self, p):
        s = self.I.read(p)
        if isinstance(s, N) and is_seq(s):
            return s
        return None

    def v_opidx(self, e):
        I = self.I
        p = self.objp(e)
        i = I.num(I.ev(e['args'][0]))
        if I.checked:
            self.within(p, i, 'subscript', e)
        return I.sub(p, ('i', i))

    def v_at(self, e):
        I = self.I
        p = self.objp(e)
        i = I.num(I.ev(e['args'][0]))
        self.within(p, i, 'std::out_of_range', e)
        return I.sub(p, ('i', i))

    def within(self, p, i, exc, e):
        """leaves the function with exc when i is no position of the sequence at p"""
        I = self.I
        s = self.seq_of(p)
        if s is not None:
            ok = and_(ge(i, 0), lt(i, length(s)))
            d = I.decide(ok)
            if d is not True and exc == 'subscript' and I.prover(ok):
                I.assume(ok)
                d = True
            if d is not True:
                st = I.st.copy()
                st.path.append(not_(ok))
                I.throws.append((st, exc, e.get('l')))
                I.assume(ok)
                if d is False:
                    from .interp import Dead
                    raise Dead()
        elif exc == 'subscript':
            I.throws.append((I.st.copy(), 'unknown', e.get('l')))

    def v_opasg(self, e):
        I = self.I
        v = I.ev(e['args'][0])
        p = self.objp(e)
        I.write(p, v)
        return p

    def v_assign(self, e):
        I = self.I
        p = self.objp(e)
        a = self.evall(e)
        if len(a) == 2 and self.isit(a[0]):
            I.write(p, self.range(a[0], a[1]))
        elif len(a) == 2:
            I.write(p, comp(fresh_bv(), I.num(a[0]), a[1]))
        else:
            I.write(p, a[0])
        return VOID

    def v_size(self, e):
        s = self.seq_of(self.objp(e))
        return length(s) if s is not None else unk('size', 'i')

    def v_empty(self, e):
        s = self.seq_of(self.objp(e))
        return eq(length(s), num(0)) if s is not None else bunk('empty')

    def v_begin(self, e):
        return node('iter', self.objp(e), '', num(0))

    v_cbegin = v_begin

    def v_data(self, e):
        return node('iter', self.objp(e), '', num(0))

    def v_end(self, e):
        p = self.objp(e)
        s = self.seq_of(p)
        return node('iter', p, '', length(s) if s is not None else unk('size', 'i'))

    v_cend = v_end

    def v_front(self, e):
        return self.I.sub(self.objp(e), ('i', num(0)))

    def v_back(self, e):
        p = self.objp(e)
        s = self.seq_of(p)
        return self.I.sub(p, ('i', (length(s) if s is not None else unk('size', 'i')) - 1))

    def v_clear(self, e):
        self.I.write(self.objp(e), EMPTY)
        return VOID

    def v_reserve(self, e):
        self.evall(e)
        return VOID

    v_shrink_to_fit = v_reserve

    def append(self, p, v):
        I = self.I
        s = self.seq_of(p)
        I.write(p, cat(s, slist([v])) if s is not None else unkv('append'))

    def elemt(self, e):
        o = e['obj']
        t = o.get('t', '')
        if e.get('arrow'):
            t = base_t(t)[:-1]
        n, a = targs(t)
        return a[0] if a else ''

    def v_push_back(self, e):
        I = self.I
        v = I.conv(I.ev(e['args'][0]), self.elemt(e))
        self.append(self.objp(e), v)
        return VOID

    def v_emplace_back(self, e):
        I = self.I
        et = self.elemt(e)
        v = self.make(et, e['args'])
        p = self.objp(e)
        self.append(p, v)
        s = self.seq_of(p)
        return I.sub(p, ('i', (length(s) if s is not None else unk('size', 'i')) - 1))

    def v_pop_back(self, e):
        I = self.I
        p = self.objp(e)
        s = self.seq_of(p)
        I.write(p, mkslice(s, num(0), length(s) - 1, I.facts()) if s is not None else unkv('pop'))
        return VOID

    def v_fill(self, e):
        I = self.I
        v = I.ev(e['args'][0])
        p = self.objp(e)
        s = self.seq_of(p)
        if s is None:
            I.write(p, unkv('fill'))
        else:
            I.write(p, comp(fresh_bv(), length(s), v))
        return VOID

    def v_resize(self, e):
        I = self.I
        n = I.num(I.ev(e['args'][0]))
        fill = I.ev(e['args'][1]) if len(e['args']) > 1 else I.zero(self.elemt(e))
        p = self.objp(e)
        s = self.seq_of(p)
        if s is None:
            I.write(p, unkv('resize'))
            return VOID
        ln = length(s)

        def grow():
            I.write(p, cat(s, comp(fresh_bv(), n - ln, fill)))

        def shrink():
            I.write(p, mkslice(s, num(0), n, I.facts()))
        if peq(ln, n):
            return VOID
        I.branch(ge(n, ln), lambda: grow(), lambda: shrink())
        return VOID

    def v_erase(self, e):
        I = self.I
        a = self.evall(e)
        p = self.objp(e)
        s = self.seq_of(p)
        if s is None or not self.isit(a[0]) or a[0].args[0] is not p and not self.same(a[0].args[0], p):
            I.write(p, unkv('erase'))
            return unkv('erase')
        i = a[0].args[2]
        j = a[1].args[2] if len(a) > 1 else i + 1
        F = I.facts()
        I.write(p, cat(mkslice(s, num(0), i, F), mkslice(s, j, length(s), F)))
        return node('iter', p, '', i)

    def same(self, a, b):
        return a is b

    def v_insert(self, e):
        I = self.I
        et = self.elemt(e)
        a = self.evall(e)
        p = self.objp(e)
        s = self.seq_of(p)
        if s is None or not self.isit(a[0]):
            I.write(p, unkv('insert'))
            return unkv('insert')
        i = a[0].args[2]
        F = I.facts()
        if len(a) == 2:
            mid = slist([I.conv(a[1], et)]) if not (isinstance(a[1], N) and is_seq(a[1]) and kind(et) != 'seq') else a[1]
        elif self.isit(a[1]):
            mid = self.range(a[1], a[2])
        else:
            mid = comp(fresh_bv(), I.num(a[1]), I.conv(a[2], et))
        if not is_seq(mid):
            I.write(p, unkv('insert'))
            return unkv('insert')
        I.write(p, cat(mkslice(s, num(0), i, F), mid, mkslice(s, i, length(s), F)))
        return node('iter', p, '', i)

    v_emplace = v_insert

    # ------------------------------------------------------------ construction of T from arguments
    def make(self, t, args):
        I = self.I
        k = kind(t)
        if k in ('int', 'real', 'bool'):
            return I.conv(I.ev(args[0]), t) if args else I.zero(t)
        if k == 'string':
            return self.texts.string_ctor(args)
        if k in ('ptr', 'rawptr') or k == 'iter':
            return I.ev(args[0]) if args else (NULL if k != 'string' else EMPTY)
        if k == 'seq':
            if not args:
                return EMPTY if targs(t)[0] != 'std::array' else I.uninit(t)
            if len(args) == 1 and kind(args[0].get('t', '')) == 'seq':
                return I.ev(args[0])
            return self.vec_ctor({'fn': {}}, targs(t)[1][0], args)
        cls = base_t(t)
        if len(args) == 1 and base_t(args[0].get('t', '')) == cls:
            c = [f for f in I.prog.fns.values() if f.get('cls') == cls and f.get('copyctor')]
            if c and c[0].get('body') is not None and not c[0].get('implicit'):
                return self.run_ctor(c[0], cls, args)
            return I.slice_to(I.ev(args[0]), cls)
        if len(args) == 1 and cls in I.prog.bases(base_t(args[0].get('t', ''))):
            c = [f for f in I.prog.fns.values() if f.get('cls') == cls and f.get('copyctor')]
            if c and c[0].get('body') is not None and not c[0].get('implicit'):
                return self.run_ctor(c[0], cls, args)
            return I.slice_to(I.ev(args[0]), cls)
        if cls in self.contract_classes:
            r = self.mih_ctor(cls, None, [I.ev(a) for a in args])
            if r is not None:
                return r
        best, bs = None, -1
        for f in I.prog.fns.values():
            if f.get('cls') != cls or not f.get('ctor') or f.get('copyctor') or f.get('movector'):
                continue
            if len(f['params']) != len(args):
                continue
            sc = 0
            for p, a in zip(f['params'], args):
                pb, ab = base_t(p['t']), base_t(a.get('t', ''))
                if pb == ab:
                    sc += 4 + (1 if p['t'].rstrip().endswith('&&') == (a.get('vc') != 'l') else 0)
                elif kind(pb) == kind(ab) and kind(pb) in ('int', 'real'):
                    sc += 2
                elif {kind(pb), kind(ab)} <= {'int', 'real', 'bool'}:
                    sc += 1
                elif kind(pb) == 'ptr' and kind(ab) == 'ptr':
                    sc += 2
                elif pb in I.prog.bases(ab):
                    sc += 2
                else:
                    sc = -100
            if sc > bs:
                best, bs = f, sc
        if best is None or best.get('body') is None and not best.get('inits'):
            if not args:
                return I.defval(cls, True)
            for a in args:
                I.ev(a)
            return unkv('constructor of ' + cls, cls)
        return self.run_ctor(best, cls, args)

    def run_ctor(self, f, cls, args):
        I = self.I
        p = I.alloc(I.uninit(cls), 'obj', cls)
        I.invoke_ctor(f, p, I.bind_args(f['params'], args))
        return I.read(p)

    # ------------------------------------------------------------ iterators
    def iter_op(self, e, f):
        I = self.I
        if f in ('operator++', 'operator--', 'operator+=', 'operator-='):
            p = I.lv(e['obj'])
            old = I.read(p)
            d = num(1)
            if f in ('operator+=', 'operator-='):
                d = I.num(I.ev(e['args'][0]))
            if f in ('operator--', 'operator-='):
                d = -d
            new = I.binop('+', old, d, '') if isinstance(old, N) else unkv('iterator')
            I.write(p, new)
            if f in ('operator++', 'operator--') and e['args']:
                return old
            return p
        it = I.ev(e['obj'])
        if f in ('operator*', 'operator->'):
            return I.as_ptr(it)
        if f in ('operator+', 'operator-'):
            return I.binop(f[-1], it, I.ev(e['args'][0]), e.get('t', ''))
        if f == 'operator[]':
            return I.as_ptr(I.binop('+', it, I.ev(e['args'][0]), ''))
        if f == 'operator=':
            v = I.ev(e['args'][0])
            p = I.lv(e['obj'])
            I.write(p, v)
            return p
        if f == 'base':
            return it
        return self.unresolved(e, 'iterator ' + f)

    # ------------------------------------------------------------ smart pointers
    def sptr(self, e, f):
        I = self.I
        if f in ('operator->', 'operator*', 'get'):
            v = I.ev(e['obj'])
            return v if isinstance(v, N) and v.k != 'unkv' else unkv('pointer')
        if f == 'operator bool':
            return I.bool(I.ev(e['obj']))
        if f in ('operator=', 'reset'):
            v = I.ev(e['args'][0]) if e['args'] else NULL
            p = self.objp(e)
            I.write(p, v)
            return p if f == 'operator=' else VOID
        if f in ('release',):
            p = self.objp(e)
            v = I.read(p)
            I.write(p, NULL)
            return v
        if f == 'use_count':
            return unk('use_count', 'i')
        return self.unresolved(e, 'pointer ' + f)

    # ------------------------------------------------------------ free functions
    def f_make_shared(self, e):
        I = self.I
        t = targs(e.get('t', '') or e['fn']['rt'])[1][0]
        v = self.make(t, e['args'])
        return I.alloc(v, 'heap', t, local=False)

    f_make_unique = f_make_shared

    def f_move(self, e):
        if len(e['args']) != 1:
            return self.unresolved(e, 'std::move algorithm')
        return self.I.lv(e['args'][0])

    f_forward = f_move
    f_as_const = f_move

    def f_ref(self, e):
        return self.unresolved(e, 'std::ref')

    def construct_any(self, args):
        if not args:
            return NULL
        v = self.I.ev(args[0])
        if base_t(args[0].get('t', '')) == 'std::any':
            return v
        return node('any', v, base_t(args[0].get('t', '')))

    def f_make_any(self, e):
        ta = e.get('ta') or e['fn'].get('ta') or ['']
        return node('any', self.make(ta[0], e['args']) if ta[0] else self.I.ev(e['args'][0]), base_t(ta[0])) if e['args'] else unkv('any')

    def f_any_cast(self, e):
        v = self.I.ev(e['args'][0])
        if isinstance(v, N) and v.k == 'ptr':
            v = self.I.read(v)
        if isinstance(v, N) and v.k == 'any':
            ta = e.get('ta') or e['fn'].get('ta')
            if ta and v.args[1] and base_t(ta[0]) != v.args[1]:
                from .interp import Dead
                self.I.throws.append((self.I.st, 'std::bad_any_cast', e.get('l')))
                raise Dead()
            return v.args[0]
        return self.unk(e, 'any_cast')

    def f_make_pair(self, e):
        return slist(self.evall(e))

    f_make_tuple = f_make_pair

    def f_get(self, e):
        p = self.I.lv(e['args'][0])
        ta = e.get('ta') or []
        try:
            return self.I.sub(p, ('i', num(int(ta[0]))))
        except (ValueError, IndexError, TypeError):
            return self.unk(e, 'std::get')

    def f_dynamic_pointer_cast(self, e):
        I = self.I
        v = I.ev(e['args'][0])
        t = targs(e.get('t', ''))[1][0]

        def go(x):
            if x.k == 'site':
                return vite(x.args[0], go(x.args[1]), go(x.args[2]))
            if x.k == 'ptr':
                o = I.read(x)
                if isinstance(o, N) and o.k == 'struct':
                    return x if base_t(t) in I.prog.bases(o.args[0]) else NULL
            if x.k == 'null':
                return NULL
            return unkv('dynamic_pointer_cast')
        return go(v) if isinstance(v, N) else unkv('dynamic_pointer_cast')

    def f_static_pointer_cast(self, e):
        return self.I.ev(e['args'][0])

    def f_min(self, e):
        return self.minmax(e, lt)

    def f_max(self, e):
        return self.minmax(e, gt)

    def minmax(self, e, rel):
        """std::min(a, b): (b < a) ? b : a"""
        I = self.I
        if len(e['args']) == 1:
            s = I.ev(e['args'][0])
            if isinstance(s, N) and s.k == 'list' and s.args[0]:
                r = s.args[0][0]
                for x in s.args[0][1:]:
                    r = ite(rel(I.num(x), I.num(r)), I.num(x), I.num(r))
                return r
            return self.unk(e, 'min')
        if len(e['args']) > 2:
            return self.unresolved(e, 'min with comparator')
        pa, pb = I.lv(e['args'][0]), I.lv(e['args'][1])
        a, b = I.read(pa), I.read(pb)
        if isinstance(a, P) and isinstance(b, P):
            v = ite(rel(b, a), b, a)
        else:
            c = self.less(b, a, '<' if rel is lt else '>')
            v = vite(c, b, a)
        return I.alloc(v, 'minmax', e.get('t', ''))

    def f_clamp(self, e):
        I = self.I
        v, lo, hi = [I.num(I.ev(a)) for a in e['args'][:3]]
        return I.alloc(ite(lt(v, lo), lo, ite(lt(hi, v), hi, v)), 'clamp', e.get('t', ''))

    def f_abs(self, e):
        return fabs(self.I.num(self.I.ev(e['args'][0])))

    f_fabs = f_abs

    def f_pow(self, e):
        I = self.I
        a, b = [I.num(I.ev(x)) for x in e['args']]
        c = cint(b)
        if c is not None and 0 <= c <= 8:
            r = num(1)
            for _ in range(c):
                r = I.mul(r, a)
            return r
        ca = const(a)
        if ca is not None and ca == 0 or ca == 1:
            return ite(eq(b, num(0)), num(1), num(ca))
        return pure('pow', a, b)

    def f_sqrt(self, e):
        return pure('sqrt', self.I.num(self.I.ev(e['args'][0])))

    def _round(self, e, nm, fn):
        v = self.I.num(self.I.ev(e['args'][0]))
        if isint(v):
            return v
        c = const(v)
        if c is not None:
            return num(fn(c))
        return pure(nm, v, sort='i')

    def f_ceil(self, e):
        return self._round(e, 'ceil', math.ceil)

    def f_floor(self, e):
        return self._round(e, 'floor', math.floor)

    def f_isnan(self, e):
        self.evall(e)
        return FALSE

    def f_swap(self, e):
        I = self.I
        pa, pb = I.lv(e['args'][0]), I.lv(e['args'][1])
        a, b = I.read(pa), I.read(pb)
        I.write(pa, b)
        I.write(pb, a)
        return VOID

    def f_distance(self, e):
        a, b = self.evall(e)
        if self.isit(a) and self.isit(b) and a.args[0] is b.args[0]:
            return b.args[2] - a.args[2]
        return unk('distance', 'i')

    def f_next(self, e):
        a = self.evall(e)
        return self.I.binop('+', a[0], self.I.num(a[1]) if len(a) > 1 else num(1), '')

    def f_prev(self, e):
        a = self.evall(e)
        return self.I.binop('-', a[0], self.I.num(a[1]) if len(a) > 1 else num(1), '')

    def f_advance(self, e):
        I = self.I
        p = I.lv(e['args'][0])
        I.write(p, I.binop('+', I.read(p), I.num(I.ev(e['args'][1])), ''))
        return VOID

    def f_begin(self, e):
        return node('iter', self.I.lv(e['args'][0]), '', num(0))

    f_cbegin = f_begin

    def f_end(self, e):
        p = self.I.lv(e['args'][0])
        s = self.seq_of(p)
        return node('iter', p, '', length(s) if s is not None else unk('size', 'i'))

    f_cend = f_end

    def f_size(self, e):
        s = self.I.ev(e['args'][0])
        return length(s) if isinstance(s, N) and is_seq(s) else unk('size', 'i')

    def f_back_inserter(self, e):
        return node('backins', self.I.lv(e['args'][0]))

    def f_bind(self, e):
        a = self.evall(e)
        return node('bind', a[0], tuple(a[1:]))

    def f_to_string(self, e):
        return self.texts.shown(self.I.ev(e['args'][0]), e)

    def f_stoi(self, e):
        return self.texts.to_number(e)

    f_stod = f_stol = f_stof = f_stoi

    def f_getline(self, e):
        return self.unresolved(e, 'std::getline')

    def f_opeq(self, e):
        a, b = self.evall(e)
        if any(kind(x.get('t', '')) == 'string' for x in e['args']) and not (isinstance(a, N) and isinstance(b, N) and a.k == b.k == 'str'):
            return bunk('comparison of texts')
        return self.equal_values(a, b)

    def f_opne(self, e):
        return not_(self.I.bool(self.f_opeq(e)))

    def equal_values(self, a, b):
        I = self.I
        if isinstance(a, N) and isinstance(b, N):
            if is_seq(a) and is_seq(b):
                la, lb = length(a), length(b)
                if a.k == 'list' and b.k == 'list':
                    if len(a.args[0]) != len(b.args[0]):
                        return FALSE
                    return and_(*[self.equal_values(x, y) for x, y in zip(a.args[0], b.args[0])])
                k = fresh_bv()
                kp = topoly(k)
                F = list(I.facts()) + [ge(kp, 0), lt(kp, la)]
                return and_(eq(la, lb), forall_(k, la, self.equal_values(elem(a, kp, F), elem(b, kp, F))))
            if a.k == 'str' and b.k == 'str':
                return boolc(a.args[0] == b.args[0])
            if a.k == 'struct' and b.k == 'struct':
                return self.less(a, b, '==')
            return I.refeq(a, b)
        if isinstance(a, (P, B)) and isinstance(b, (P, B)):
            return I.binop('==', a, b, 'bool')
        return bunk('comparison')

    def less(self, a, b, op='<'):
        """user or built-in comparison of two values"""
        I = self.I
        if isinstance(a, (P, B)) and isinstance(b, (P, B)):
            return I.bool(I.binop(op, a, b, 'bool'))
        if isinstance(a, N) and a.k == 'site':
            return ite_b(a.args[0], self.less(a.args[1], b, op), self.less(a.args[2], b, op))
        if isinstance(b, N) and b.k == 'site':
            return ite_b(b.args[0], self.less(a, b.args[1], op), self.less(a, b.args[2], op))
        if isinstance(a, N) and a.k == 'struct':
            for c in I.prog.bases(a.args[0]):
                for f in self.ops(c, 'operator' + op):
                    pa, pb = I.alloc(a, 'lhs', a.args[0]), I.alloc(b, 'rhs', a.args[0])
                    return I.bool(I.run(f, pa, [pb]))
            for f in I.prog.fns.values():
                if f['sn'] == 'operator' + op and not f.get('cls') and len(f['params']) == 2 and \
                        base_t(f['params'][0]['t']) == a.args[0] and f.get('body') is not None:
                    pa, pb = I.alloc(a, 'lhs', a.args[0]), I.alloc(b, 'rhs', a.args[0])
                    return I.bool(I.run(f, None, [pa, pb]))
        if op == '==':
            if isinstance(a, N) and isinstance(b, N) and is_seq(a):
                return self.equal_values(a, b)
            if isinstance(a, N) and isinstance(b, N):
                return I.refeq(a, b)
        return bunk('comparison')

    def ops(self, cls, name):
        I = self.I
        r = I.prog.recs.get(cls)
        out = []
        for m in (r['methods'] if r else ()):
            f = I.prog.fns.get(m['id'])
            if f and f['sn'] == name and f.get('body') is not None and len(f['params']) == 1:
                out.append(f)
        return out

    # ------------------------------------------------------------ algorithms (as loops)
    def algo_loop(self, n, body):
        """for (i = 0; i < n; ++i) body(i)"""
        I = self.I
        ip = I.alloc(num(0), 'algo_i', 'int')
        from .interp import Out, Dead

        def b(st):
            I.st = st
            body(I.read(ip))
            return Out(I.st)

        def bb(st):
            try:
                return b(st)
            except Dead:
                return Out(None)
        o = I.loops.loop(lambda: lt(I.read(ip), n), lambda: I.write(ip, I.read(ip) + 1), bb, None)
        if o.norm is None:
            raise Dead()
        I.st = o.norm

    def loc(self, it, i):
        """location of element it+i"""
        I = self.I
        return node('loc', I.iter_ptr(node('iter', it.args[0], '', it.args[2] + i)))

    def out(self, it, i, v):
        I = self.I
        if it.k == 'backins':
            self.append(it.args[0], v)
        elif it.k == 'iter':
            I.write(I.iter_ptr(node('iter', it.args[0], '', it.args[2] + i)), v)
        else:
            I.note('output iterator not modelled')

    def rng(self, a, b):
        return self.isit(a) and self.isit(b) and a.args[0] is b.args[0]

    def f_transform(self, e):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return self.bad_algo(e, a)
        n = a[1].args[2] - a[0].args[2]
        if len(a) == 4:
            self.algo_loop(n, lambda i: self.out(a[2], i, self.val(I.call_value(a[3], None, [self.loc(a[0], i)]))))
        else:
            self.algo_loop(n, lambda i: self.out(a[3], i, self.val(
                I.call_value(a[4], None, [self.loc(a[0], i), self.loc(a[2], i)]))))
        return a[2] if len(a) == 4 else a[3]

    def val(self, v):
        return v

    def bad_algo(self, e, a):
        for x, v in zip(e['args'], a):
            self.havoc_arg(x, v)
        self.I.note('algorithm over unresolved range')
        return self.unk(e, 'algorithm')

    def f_for_each(self, e):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return self.bad_algo(e, a)
        self.algo_loop(a[1].args[2] - a[0].args[2], lambda i: I.call_value(a[2], None, [self.loc(a[0], i)]))
        return a[2]

    def f_accumulate(self, e):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return self.bad_algo(e, a)
        t = e.get('t', '')
        acc = I.alloc(I.conv(a[2], t), 'acc', t)
        op = a[3] if len(a) > 3 else node('fobj', 'plus')

        def body(i):
            v = I.call_value(op, None, [node('loc', acc), self.loc(a[0], i)])
            I.write(acc, I.conv(v, t))
        self.algo_loop(a[1].args[2] - a[0].args[2], body)
        return I.read(acc)

    def f_inner_product(self, e):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]) or len(a) != 4:
            return self.bad_algo(e, a)
        t = e.get('t', '')
        acc = I.alloc(I.conv(a[3], t), 'acc', t)

        def body(i):
            x, y = I.read(self.loc(a[0], i).args[0]), I.read(self.loc(a[2], i).args[0])
            I.write(acc, I.conv(I.binop('+', I.read(acc), I.binop('*', x, y, t), t), t))
        self.algo_loop(a[1].args[2] - a[0].args[2], body)
        return I.read(acc)

    def f_fill(self, e):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return self.bad_algo(e, a)
        self.algo_loop(a[1].args[2] - a[0].args[2], lambda i: self.out(a[0], i, a[2]))
        return VOID

    def f_fill_n(self, e):
        I = self.I
        a = self.evall(e)
        self.algo_loop(I.num(a[1]), lambda i: self.out(a[0], i, a[2]))
        return VOID

    def f_copy(self, e):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return self.bad_algo(e, a)
        n = a[1].args[2] - a[0].args[2]
        if a[2].k == 'backins':
            s = self.seq_of(a[2].args[0])
            r = self.range(a[0], a[1])
            I.write(a[2].args[0], cat(s, r) if s is not None and is_seq(r) else unkv('copy'))
            return a[2]
        self.algo_loop(n, lambda i: self.out(a[2], i, I.read(self.loc(a[0], i).args[0])))
        return I.binop('+', a[2], n, '')

    def pure_at(self, n, f):
        """predicate f(k) for a generic 0 <= k < n evaluated without effect; None when it may throw or write"""
        I = self.I
        k = fresh_bv()
        kp = topoly(k)
        s0, nt = I.st, len(I.throws)
        I.st = s0.copy()
        I.st.path = list(I.st.path) + [ge(kp, 0), lt(kp, n)]
        from .interp import Dead
        try:
            v = f(kp)
            ok = len(I.throws) == nt and all(I.st.mem.get(o) is x for o, x in s0.mem.items())
        except Dead:
            v, ok = None, False
        lost = I.checked and len(I.throws) > nt
        del I.throws[nt:]
        I.st = s0
        if lost:
            I.throws.append((s0.copy(), 'unknown', None))
        return (k, v) if ok else None

    def first(self, n, f):
        """least k in [0,n) with f(k), else n"""
        from .loops import mk_first
        r = self.pure_at(n, f)
        if r is None:
            return None
        k, c = r
        c = self.I.bool(c)
        if c is FALSE:
            return n
        cn = cint(n)
        if cn is not None and cn <= 12:
            v = num(cn)
            cs = []
            for i in range(cn):
                ci = subst(c, {k: num(i)})
                d = decide(self.I.facts(), ci)
                if d is False:
                    continue
                cs.append((i, ci))
                if d is True:
                    v = num(i)
                    break
            if cn <= 6 or len(cs) <= 3:
                for i, ci in reversed(cs):
                    v = ite(ci, num(i), v)
                return v
        return mk_first(k, n, c)

    def f_equal(self, e):
        I = self.I
        a = self.evall(e)
        fn = None
        if len(a) in (4, 5) and self.isit(a[3]) if len(a) > 3 else False:
            fn = a[4] if len(a) == 5 else None
            n2 = a[3].args[2] - a[2].args[2] if self.rng(a[2], a[3]) else None
        else:
            fn = a[3] if len(a) == 4 else None
            n2 = 'same'
        if not self.rng(a[0], a[1]) or n2 is None or not self.isit(a[2]):
            return bunk('equal')
        n = a[1].args[2] - a[0].args[2]

        def at(i):
            if fn is None:
                x = I.read(self.loc(a[0], i).args[0])
                y = I.read(self.loc(a[2], i).args[0])
                return self.less(x, y, '==')
            return I.bool(I.call_value(fn, None, [self.loc(a[0], i), self.loc(a[2], i)]))
        ln = TRUE if n2 == 'same' else eq(n, n2)
        cn = cint(n)
        if cn is not None:
            if ln is FALSE:
                return FALSE
            return and_(ln, *[at(num(i)) for i in range(cn)])
        r = self.pure_at(n, at)
        if r is None:
            return bunk('equal')
        return and_(ln, forall_(r[0], n, r[1]))

    def quant(self, e, how):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return bunk('algorithm')
        n = a[1].args[2] - a[0].args[2]
        at = lambda i: I.bool(I.call_value(a[2], None, [self.loc(a[0], i)]))
        cn = cint(n)
        if cn is not None and cn <= 8:
            vs = [at(num(i)) for i in range(cn)]
            return {'all': and_(*vs), 'any': or_(*vs), 'none': not_(or_(*vs))}[how]
        r = self.pure_at(n, at)
        if r is None:
            return bunk('algorithm')
        k, c = r
        return {'all': lambda: forall_(k, n, c), 'any': lambda: exists_(k, n, c), 'none': lambda: forall_(k, n, not_(c))}[how]()

    def f_all_of(self, e):
        return self.quant(e, 'all')

    def f_any_of(self, e):
        return self.quant(e, 'any')

    def f_none_of(self, e):
        return self.quant(e, 'none')

    def find_by(self, e, a, pred):
        if not self.rng(a[0], a[1]):
            return unkv('find')
        n = a[1].args[2] - a[0].args[2]
        f = self.first(n, pred)
        if f is None:
            return unkv('find')
        return node('iter', a[0].args[0], '', a[0].args[2] + f)

    def f_find(self, e):
        a = self.evall(e)
        return self.find_by(e, a, lambda i: self.less(self.I.read(self.loc(a[0], i).args[0]), a[2], '=='))

    def f_find_if(self, e):
        a = self.evall(e)
        return self.find_by(e, a, lambda i: self.I.bool(self.I.call_value(a[2], None, [self.loc(a[0], i)])))

    def f_find_if_not(self, e):
        a = self.evall(e)
        return self.find_by(e, a, lambda i: not_(self.I.bool(self.I.call_value(a[2], None, [self.loc(a[0], i)]))))

    def f_count_if(self, e):
        I = self.I
        a = self.evall(e)
        return self.count_by(a, lambda i: I.bool(I.call_value(a[2], None, [self.loc(a[0], i)])))

    def f_count(self, e):
        a = self.evall(e)
        return self.count_by(a, lambda i: self.less(self.I.read(self.loc(a[0], i).args[0]), a[2], '=='))

    def count_by(self, a, at):
        if not self.rng(a[0], a[1]):
            return unk('count', 'i')
        n = a[1].args[2] - a[0].args[2]
        r = self.pure_at(n, at)
        if r is None:
            return unk('count', 'i')
        k, c = r
        return sum_(k, n, b2i(self.I.bool(c)))

    def bound(self, e, upper):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return unkv('bound')
        n = a[1].args[2] - a[0].args[2]
        cmpf = (lambda x, y: I.bool(I.call_value(a[3], None, [x, y]))) if len(a) > 3 else (lambda x, y: self.less(x, y))

        def at(i):
            x = I.read(self.loc(a[0], i).args[0])
            return cmpf(a[2], x) if upper else not_(cmpf(x, a[2]))
        s = I.read(a[0].args[0])
        v = a[2]
        while isinstance(v, N) and v.k == 'struct' and len(v.args[1]) == 1:
            v = v.args[1][0][1]
        if isinstance(s, N) and s.k == 'sseq' and not s.args[1] and isinstance(v, P) and \
                cint(a[0].args[2]) == 0 and peq(n, length(s)) and len(a) == 3:
            # an ordinary comparison on the stored numbers?
            r = self.pure_at(n, at)
            if r is not None:
                k, c = r
                el = topoly(atom('elem', (s.args[0], topoly(k)), 'r'))
                want = lt(v, el) if upper else not_(lt(el, v))
                if c is want:
                    return node('iter', a[0].args[0], '', topoly(atom('ub' if upper else 'lb', (s.args[0], v, n), 'i')))
        f = self.first(n, at)
        if f is None:
            return unkv('bound')
        return node('iter', a[0].args[0], '', a[0].args[2] + f)

    def f_lower_bound(self, e):
        return self.bound(e, False)

    def f_upper_bound(self, e):
        return self.bound(e, True)

    def f_reverse(self, e):
        I = self.I
        a = self.evall(e)
        if not self.rng(a[0], a[1]):
            return self.bad_algo(e, a)
        s = self.range(a[0], a[1])
        n = length(s)
        full = I.read(a[0].args[0])
        if cint(a[0].args[2]) == 0 and peq(length(full), n):
            if full.k == 'list':
                I.write(a[0].args[0], slist(list(reversed(full.args[0]))))
            else:
                k = fresh_bv()
                kp = topoly(k)
                I.write(a[0].args[0], comp(k, n, elem(full, n - 1 - kp, list(I.facts()) + [ge(kp, 0), lt(kp, n)])))
            return VOID
        return self.bad_algo(e, a)

    def f_unique_copy(self, e):
        I = self.I
        a = self.evall(e)
        if len(a) != 3 or not self.rng(a[0], a[1]) or not (isinstance(a[2], N) and a[2].k == 'iter'):
            return self.bad_algo(e, a)
        s = self.range(a[0], a[1])
        n = length(s)
        full = I.read(a[2].args[0])
        if not (isinstance(full, N) and is_seq(full)) or cint(a[2].args[2]) != 0 or not entails(I.facts(), ge(n, 1)):
            return self.bad_algo(e, a)
        at = lambda i: I.read(self.loc(a[0], i).args[0])
        r = self.pure_at(n - 1, lambda i: self.less(at(i), at(i + 1), '=='))
        v = self.pure_at(n - 1, lambda i: at(i + 1))
        if r is None or v is None:
            return self.bad_algo(e, a)
        k, c = r
        kp = topoly(k)
        x = subst(v[1], {v[0]: kp})
        u = cat(slist([at(num(0))]), flat(k, n - 1, vite(I.bool(c), EMPTY, slist([x]))))
        cnt = length(u)
        if not entails(I.facts(), eq(length(full), cnt)):
            return self.bad_algo(e, a)
        I.write(a[2].args[0], u)
        return I.binop('+', a[2], cnt, '')

    # ------------------------------------------------------------ function objects
    def functor(self, v, av):
        I = self.I
        if v.k == 'bind':
            f, bound = v.args
            out = []
            for b in bound:
                if isinstance(b, N) and b.k == 'ph':
                    out.append(av[b.args[0] - 1])
                else:
                    out.append(b)
            return I.call_value(f, None, out)
        name = v.args[0]
        x = [I.read(a.args[0]) if isinstance(a, N) and a.k == 'loc' else a for a in av]
        op = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'less': '<', 'greater': '>',
              'equal_to': '==', 'not_equal_to': '!=', 'less_equal': '<=', 'greater_equal': '>='}.get(name)
        if name == 'negate':
            return -I.num(x[0])
        if op is None:
            return unkv('functor ' + name)
        if isinstance(x[0], N) and x[0].k == 'struct':
            if op in ('<', '>', '==', '!=', '<=', '>='):
                return self.less(x[0], x[1], op)
            for c in I.prog.bases(x[0].args[0]):
                for f in self.ops(c, 'operator' + op):
                    pa, pb = I.alloc(x[0], 'lhs', x[0].args[0]), I.alloc(x[1], 'rhs')
                    return I.run(f, pa, [pb])
        t = 'double'
        if op == '/' and all(isinstance(y, P) and isint(y) for y in x):
            return unk('integer or real division', 'r')
        return I.binop(op, x[0], x[1], t)

    # ------------------------------------------------------------ multi index contract (decided separately by C11)
    def mih_ctor(self, cls, e, av):
        d = int(targs(cls)[1][0])
        if e is not None and (e.get('copy') or e.get('move')):
            return av[0]
        if len(av) == 1 and isinstance(av[0], N) and av[0].k == 'mih':
            return av[0]
        if len(av) == 1 and isinstance(av[0], N) and av[0].k == 'list' and len(av[0].args[0]) == d and \
                all(isinstance(x, P) for x in av[0].args[0]):
            return node('mih', tuple(av[0].args[0]), tuple(num(0) for _ in range(d)), '', num(0))
        if not av:
            return unkv('default multi index', cls)
        return unkv('multi index', cls)

    def one(self, lens, idx):
        r = num(0)
        st = num(1)
        for l, i in zip(lens, idx):
            r = r + self.I.mul(st, i)
            st = self.I.mul(st, l)
        return r

    def tot(self, lens):
        r = num(1)
        for l in lens:
            r = self.I.mul(r, l)
        return r

    def idx(self, m, d):
        lens, base, _, off = m.args
        if not off.m:
            return base[d]
        return digit(d, self.one(lens, base) + off, lens)

    def mih_call(self, e, this=None):
        I = self.I
        fn = e['fn']
        f = fn['n'].split('::')[-1]
        if fn.get('static'):
            return None
        if this is None:
            this = self.objp(e)
        m = I.read(this)
        if f == 'operator=':
            v = I.ev(e['args'][0])
            I.write(this, v)
            return this
        if not (isinstance(m, N) and m.k == 'mih'):
            if isinstance(m, N) and m.k == 'site':
                return None
            for a in e['args']:
                I.ev(a)
            if not fn.get('const'):
                I.write(this, unkv('multi index'))
            if is_ref(fn['rt']):
                return this
            return I.unkof(fn['rt'], 'multi index')
        lens, base, _, off = m.args
        D = len(lens)
        av = [I.ev(a) for a in e['args']]

        def lst(v):
            return v.args[0] if isinstance(v, N) and v.k == 'list' and len(v.args[0]) == D else None

        def setoff(o):
            I.write(this, node('mih', lens, base, '', o))
        if f == 'operator[]':
            i = cint(I.num(av[0]))
            if i is not None and 0 <= i < D:
                return self.idx(m, i)
            if i is not None:
                return unk('index', 'i')
            return elem(slist([self.idx(m, j) for j in range(D)]), I.num(av[0]), I.facts())
        if f == 'operator++':
            setoff(off + 1)
            return m if e['args'] else this
        if f == 'operator--':
            setoff(off - 1)
            return m if e['args'] else this
        if f in ('operator+', 'operator-') and is_ref(fn['rt']):
            i = I.num(av[0])
            if I.decide(ge(i, 0)) is not True:
                i = ite(ge(i, 0), i, num(0))
            setoff(off + i if f == 'operator+' else off - i)
            return this
        if f == 'SetIndices':
            l = lst(av[0])
            if l is None:
                I.write(this, unkv('multi index'))
            else:
                I.write(this, node('mih', lens, tuple(I.num(x) for x in l), '', num(0)))
            return VOID
        if f == 'Set1DIndex':
            I.write(this, node('mih', lens, tuple(num(0) for _ in range(D)), '', I.num(av[0])))
            return VOID
        if f == 'GetIndices':
            return slist([self.idx(m, j) for j in range(D)])
        if f == 'GetDifferenceIndices':
            return slist([lens[j] - self.idx(m, j) - 1 for j in range(D)])
        if f == 'Get1DLength':
            return self.tot(lens)
        if f == 'Get1DIndex':
            if not av:
                r = self.one(lens, base) + off
                if not off.m:
                    return r
                L = self.tot(lens)
                if I.decide(and_(ge(r, 0), lt(r, L))) is True:
                    return r
                return imod(r, L, I.ent)
            ls = lens if len(av) == 1 else lst(av[0])
            ix = lst(av[-1])
            if ls is None or ix is None:
                return unk('1d index', 'i')
            return self.one(ls, [I.num(x) for x in ix])
        if f == 'ExtractDimension':
            d = cint(I.num(av[0]))
            if d is None or not 0 <= d < D:
                return unk('extract', 'i')
            keep = [j for j in range(D) if j != d]
            return self.one([lens[j] for j in keep], [self.idx(m, j) for j in keep])
        if not fn.get('const'):
            I.write(this, unkv('multi index ' + f))
        return I.unkof(fn['rt'], 'multi index ' + f)
