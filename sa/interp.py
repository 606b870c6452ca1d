"""Abstract interpreter: one merged pass over the type-checked program with symbolic sizes and summarised loops.

The state maps abstract objects to values (sa.values) and carries the guards known to hold.  Branches are joined with
gated values, loops are replaced by closed forms of their recurrences (sa.loops); nothing is enumerated per path and
nothing of the library is executed.  Whatever cannot be expressed becomes an `unk` value, which can prove nothing and
refute nothing.
"""
from fractions import Fraction as Fr
from .terms import *
from . import terms
from .terms import _flat
from .values import *
from . import values
from .dom import entails, decide, unsat, Ctx
from .prog import *
from . import prog as progm


class Dead(Exception):
    """no execution continues"""


class Limit(Exception):
    pass


class State:
    __slots__ = ('mem', 'path')

    def __init__(self, mem, path):
        self.mem = mem
        self.path = path

    def copy(self):
        return State(dict(self.mem), list(self.path))


class Frame:
    __slots__ = ('fn', 'env', 'this', 'locals', 'base', 'lamenv')

    def __init__(self, fn, this=None):
        self.fn = fn
        self.env = {}
        self.this = this
        self.locals = []
        self.base = 0


class Out:
    __slots__ = ('norm', 'rets', 'brks', 'conts')

    def __init__(self, norm=None):
        self.norm = norm
        self.rets = []
        self.brks = []
        self.conts = []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts


class Obligation:
    def __init__(self, ident, status, where, detail=''):
        self.ident, self.status, self.where, self.detail = ident, status, where, detail


def ptr(root, path=()):
    return node('ptr', root, tuple(path))


def isptr(v):
    return isinstance(v, N) and v.k in ('ptr', 'site', 'optr', 'null', 'iter')


class Interp:
    MAXDEPTH = 60
    MAXSTEPS = 400000

    def __init__(self, prog):
        self.prog = prog
        values.PROG[0] = prog
        self.n = 0
        self.st = State({}, [])
        self.frames = []
        self.throws = []
        self.types = {}
        self.obl = []
        self.steps = 0
        self.notes = []
        self.loops_summarised = 0
        self.fns_seen = set()
        self.closures = {}
        self.spec_root = VERIF + '/spec'
        self.statics = {}
        self.scc = self._scc()
        self.intrinsics = {}
        self.contracts = {}
        self.watch_alloc = None
        self.known = {}
        from . import stdlib, loops
        loops._late()
        self.quiet = False
        self.std = stdlib.Std(self)
        self.loops = loops.Loops(self)

    # ------------------------------------------------------------ program facts
    def _scc(self):
        import networkx as nx
        g = nx.DiGraph()
        self.subscripting = set()
        def walk(x, src):
            if isinstance(x, dict):
                fn = x.get('fn')
                if isinstance(fn, dict) and fn.get('repo'):
                    g.add_edge(src, fn['id'])
                elif isinstance(fn, dict) and fn['n'].split('::')[-1] in ('operator[]', 'at') or x.get('k') == 'sub':
                    self.subscripting.add(src)
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        walk(v, src)
            elif isinstance(x, list):
                for v in x:
                    walk(v, src)
        for f in self.prog.fns.values():
            if f['file'].startswith(VERIF):
                continue
            g.add_node(f['id'])
            walk(f.get('body'), f['id'])
            walk(f.get('inits'), f['id'])
            for o in f.get('overrides') or ():
                g.add_edge(o, f['id'])
        self.callgraph = g
        out = {}
        for i, c in enumerate(nx.strongly_connected_components(g)):
            if len(c) > 1 or g.has_edge(*(list(c) * 2)):
                for x in c:
                    out[x] = i
        return out

    def skipped(self, mid, vals=(), line=None):
        """a call that is represented by its value: the subscripts used inside it are not seen"""
        if not self.checked:
            return
        f = self.prog.fns.get(mid)
        if f is not None and f['n'] == 'baf::BasisFunctionFactory::CreateDynamic' and len(vals) >= 3:
            # the knots start .. start + degree + 1 are used (decided for this function by induction, c18.cc)
            def plain(v):
                while isinstance(v, N) and (v.k == 'obj' or v.k == 'struct' and len(fields(v)) == 1 and not is_seq(next(iter(fields(v).values())))):
                    v = v.args[0] if v.k == 'obj' else next(iter(fields(v).values()))
                return v
            kv, start, deg = (plain(v) for v in vals[-3:])
            seqs = [x for x in fields(kv).values() if isinstance(x, N) and is_seq(x)] if isinstance(kv, N) and kv.k == 'struct' else []
            i, d = start, deg
            if len(seqs) == 1 and isinstance(i, P) and isinstance(d, P):
                ok = and_(ge(i, 0), ge(d, 0), lt(i + d + 1, length(seqs[0])))
                if self.decide(ok) is not True:
                    st = self.st.copy()
                    st.path.append(not_(ok))
                    self.throws.append((st, 'subscript', line))
                    self.assume(ok)
                return
        c = self.__dict__.setdefault('_skipped', {})
        if mid not in c:
            import networkx as nx
            c[mid] = mid not in self.callgraph or bool(self.subscripting & (nx.descendants(self.callgraph, mid) | {mid}))
        if c[mid]:
            self.throws.append((self.st.copy(), 'unknown', line))

    # ------------------------------------------------------------ memory
    def alloc(self, v, tag, t='', local=True):
        self.n += 1
        o = '%s#%d' % (tag, self.n)
        self.st.mem[o] = v
        self.types[o] = t
        if local and self.frames:
            self.frames[-1].locals.append(o)
        return ptr(o)

    def facts(self):
        return self.st.path

    def assume(self, b):
        if b is TRUE:
            return
        if b.op == 'and':
            for x in b.args:
                self.assume(x)
            return
        if b not in self.st.path:
            self.st.path.append(b)
        if b is FALSE:
            raise Dead()

    def read(self, p):
        if p.k == 'site':
            return vite(p.args[0], self.read(p.args[1]), self.read(p.args[2]))
        if p.k == 'iter':
            return self.read(self.iter_ptr(p))
        if p.k == 'optr':
            return node('oobj', p)
        if p.k != 'ptr':
            return unkv('read through ' + p.k)
        root, path = p.args
        v = self.root_value(root)
        for st in path:
            v = self.step(v, st)
        return v

    def root_value(self, root):
        if isinstance(root, str):
            v = self.st.mem.get(root)
            if v is None:
                return unkv('dangling ' + root)
            return v
        # lazily materialised object family ('obj:name', idx)
        return unkv('object family %s' % (root,))

    def step(self, v, st):
        if st[0] == 'f':
            return self.field(v, st[1])
        if isinstance(v, N) and is_seq(v):
            return self.simp(elem(v, st[1], self.facts()))
        return unkv('element of non-sequence')

    def field(self, v, key):
        if isinstance(v, N):
            if v.k == 'struct':
                f = fields(v)
                if key in f:
                    return f[key]
                nm = key.split('::')[-1]
                return unkv('field ' + nm)
            if v.k == 'site':
                return vite(v.args[0], self.field(v.args[1], key), self.field(v.args[2], key))
        return unkv('field of non-struct')

    def write(self, p, v, c=TRUE):
        if p.k == 'site':
            self.write(p.args[1], v, and_(c, p.args[0]))
            self.write(p.args[2], v, and_(c, not_(p.args[0])))
            return
        if p.k == 'iter':
            p = self.iter_ptr(p)
        if p.k != 'ptr':
            self.note('write through unresolved pointer (%s)' % p.k)
            return
        root, path = p.args
        if not isinstance(root, str):
            self.note('write to object family')
            return
        old = self.root_value(root)
        new = self.upd(old, path, v, c)
        self.st.mem[root] = new

    def upd(self, old, path, v, c):
        if not path:
            return vite(c, v, old)
        st = path[0]
        if st[0] == 'f':
            if isinstance(old, N) and old.k == 'struct':
                f = fields(old)
                f[st[1]] = self.upd(f.get(st[1], unkv('uninit')), path[1:], v, c)
                return struct(old.args[0], f)
            if isinstance(old, N) and old.k == 'site':
                return vite(old.args[0], self.upd(old.args[1], path, v, c), self.upd(old.args[2], path, v, c))
            return unkv('update of non-struct')
        if isinstance(old, N) and is_seq(old):
            e = elem(old, st[1], self.facts())
            e = self.simp(e)
            return self.std.store(old, st[1], self.upd(e, path[1:], v, c))
        return unkv('update of non-sequence')

    def iter_ptr(self, it):
        base, _, i = it.args
        if base.k == 'site':
            return vite(base.args[0], self.iter_ptr(node('iter', base.args[1], '', i)),
                        self.iter_ptr(node('iter', base.args[2], '', i)))
        if base.k != 'ptr':
            return base
        return ptr(base.args[0], base.args[1] + (('i', i),))

    def sub(self, p, st):
        """pointer to a component"""
        if p.k == 'ptr':
            return ptr(p.args[0], p.args[1] + (st,))
        if p.k == 'site':
            return vite(p.args[0], self.sub(p.args[1], st), self.sub(p.args[2], st))
        if p.k == 'iter':
            return self.sub(self.iter_ptr(p), st)
        if p.k == 'optr':
            return node('optr', 'sub', (p, st))
        # unresolved: give it an unknown temporary
        return self.alloc(unkv('component of ' + p.k), 'unres')

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def simp(self, v):
        return v

    # ------------------------------------------------------------ branching
    def fork(self):
        return self.st.copy()

    def conds_since(self, st, base):
        return and_(*st.path[base:]) if len(st.path) > base else TRUE

    def merge(self, items, base):
        """items: list of (State, value|None); returns merged (State, value); states share path[:base].

        The guards recorded after `base` form a decision tree; values are gated by its branch conditions only."""
        items = [x for x in items if x is not None]
        if not items:
            return None
        if len(items) == 1:
            return items[0]
        groups = {}
        order = []
        for it in items:
            p = it[0].path
            k = p[base] if len(p) > base else None
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(it)
        if len(order) == 1 and order[0] is not None:
            return self.merge(items, base + 1)
        if None in groups and len(order) > 1:
            # one state ended at base (no guard): treat the rest as refinements; fall back
            return self.merge_flat(items, base)
        if len(order) == 1:
            return self.merge_flat(items, base)
        if len(order) == 2 and order[0] is not_(order[1]):
            c = order[0]
            A = self.merge(groups[c], base + 1)
            Bm = self.merge(groups[order[1]], base + 1)
            return self.join2(c, A, Bm, base)
        # several groups: find one whose complement covers the others is not known -> generic
        return self.merge_flat(items, base)

    def join2(self, c, A, Bm, base):
        (sa, va), (sb, vb) = A, Bm
        mem = {}
        for k, x in sa.mem.items():
            y = sb.mem.get(k)
            mem[k] = x if y is None or y is x else vite(c, x, y)
        for k, y in sb.mem.items():
            if k not in mem:
                mem[k] = y
        if va is vb:
            v = va
        elif va is None or vb is None:
            v = None
        else:
            v = vite(c, va, vb)
        path = list(sa.path[:base])
        ra, rb = sa.path[base + 1:], sb.path[base + 1:]
        sbr = set(rb)
        for f in ra:
            g = f if f in sbr else or_(not_(c), f)
            if g is not TRUE and g not in path:
                path.append(g)
        sar = set(ra)
        for f in rb:
            if f in sar:
                continue
            g = or_(c, f)
            if g is not TRUE and g not in path:
                path.append(g)
        return State(mem, path), v

    def merge_flat(self, items, base):
        conds = [self.conds_since(s, base) for s, _ in items]
        last = items[-1]
        acc = last
        cond_acc = conds[-1]
        for (it, c) in zip(reversed(items[:-1]), reversed(conds[:-1])):
            sa, va = it
            sb, vb = acc
            mem = {}
            for k, x in sa.mem.items():
                y = sb.mem.get(k)
                mem[k] = x if y is None or y is x else vite(c, x, y)
            for k, y in sb.mem.items():
                if k not in mem:
                    mem[k] = y
            v = va if va is vb else (None if va is None or vb is None else vite(c, va, vb))
            acc = (State(mem, []), v)
        d = or_(*conds)
        path = list(items[0][0].path[:base])
        if d is not TRUE and d not in path:
            path.append(d)
        return State(acc[0].mem, path), acc[1]

    def branch(self, c, fa, fb):
        """evaluate fa under c and fb under not c, merge; fa/fb return values"""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        base = len(self.st.path)
        s0 = self.st
        res = []
        for cond, f in ((c, fa), (not_(c), fb)):
            self.st = s0.copy()
            try:
                self.st.path.append(cond)
                v = f()
                res.append((self.st, v))
            except Dead:
                pass
        m = self.merge(res, base)
        if m is None:
            raise Dead()
        self.st = m[0]
        return m[1]

    def decide(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return decide(self.facts(), c)

    # ------------------------------------------------------------ default values
    def uninit(self, t, why='uninit'):
        k = kind(t)
        if k == 'int':
            return unk(why, 'i')
        if k == 'real':
            return unk(why, 'r')
        if k == 'bool':
            return bunk(why)
        if k == 'seq':
            n, a = targs(t)
            if n == 'std::array':
                return slist([self.uninit(a[0], why) for _ in range(int(a[1]))])
            return EMPTY
        if k == 'string':
            return EMPTY
        if k == 'ptr':
            return NULL
        if k == 'rawptr':
            return unkv(why, t)
        b = base_t(t)
        if b == 'pugi::xml_document':
            return self.std.texts.document()
        if targs(b)[0] in progm.STREAMS:
            return EMPTY
        if b in self.prog.recs:
            return struct(b, {r + '::' + f: self.uninit(ft, why) for r, f, ft in self.prog.all_fields(b)})
        return unkv(why, t)

    def zero(self, t):
        k = kind(t)
        if k in ('int', 'real'):
            return num(0)
        if k == 'bool':
            return FALSE
        if k == 'seq':
            n, a = targs(t)
            if n == 'std::array':
                return slist([self.zero(a[0]) for _ in range(int(a[1]))])
            return EMPTY
        if k == 'string':
            return EMPTY
        if k in ('ptr', 'rawptr'):
            return NULL
        b = base_t(t)
        if b in self.prog.recs:
            return struct(b, {r + '::' + f: self.zero(ft) for r, f, ft in self.prog.all_fields(b)})
        return unkv('zero', t)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        """value of expression e"""
        if e is None:
            return VOID
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Limit('step budget')
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(e)
        return unkv('expr ' + k + ' ' + str(e.get('cls')))

    def lv(self, e):
        """pointer to the object denoted by e (temporaries are materialised)"""
        k = e['k']
        if k == 'var':
            p = self.var_ptr(e)
            if p is not None:
                return p
        elif k == 'mem':
            b = self.base_ptr(e)
            return self.sub(b, ('f', e['rec'] + '::' + e['f']))
        elif k == 'un' and e['op'] == '*':
            v = self.ev(e['e'])
            return self.as_ptr(v)
        elif k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e)
            return self.lv(e['e'])
        elif k == 'asg':
            self.ev(e)
            return self.lv(e['a'])
        elif k == 'sub':
            i = self.num(self.ev(e['idx']))
            b = e['base']
            if kind(b.get('t', '')) == 'rawptr':
                p = self.ev(b)
                if isinstance(p, N) and p.k == 'iter':
                    return self.iter_ptr(node('iter', p.args[0], '', p.args[2] + i))
                return self.sub(self.as_ptr(p), ('i', i))
            return self.sub(self.lv(b), ('i', i))
        elif k == 'cast':
            ck = e['ck']
            if ck in ('DerivedToBase', 'BaseToDerived', 'ConstCast') or (ck == 'Dynamic' and not e['t'].rstrip().endswith('*')):
                return self.lv(e['e'])
        elif k == 'cond':
            c = self.cond(e['c'])
            return self.branch(c, lambda: self.lv(e['a']), lambda: self.lv(e['b']))
        elif k == 'call':
            r = self.call(e, want_lv=True)
            if self.returns_ref(e):
                if isinstance(r, N) and isptr(r):
                    return r
                return self.alloc(r, 'ref', e.get('t', ''))
            return self.alloc(r, 'tmp', e.get('t', ''))
        elif k == 'this':
            return self.frames[-1].this
        elif k == 'bin' and e['op'] == ',':
            self.ev(e['a'])
            return self.lv(e['b'])
        elif k == 'binding':
            p = self.frames[-1].env.get(e['id'])
            if p is not None:
                return p
        v = self.ev(e)
        return self.alloc(v, 'tmp', e.get('t', ''))

    def returns_ref(self, e):
        fn = e.get('fn')
        if fn:
            return is_ref(fn['rt'])
        cal = e.get('callee')
        return False

    def as_ptr(self, v):
        if isinstance(v, N) and v.k == 'iter':
            return self.iter_ptr(v)
        if isinstance(v, N) and v.k in ('ptr', 'site', 'optr'):
            return v
        return self.alloc(unkv('deref of %s' % (v.k if isinstance(v, N) else type(v).__name__)), 'unres')

    def base_ptr(self, e):
        b = e['base']
        if e.get('arrow'):
            if b['k'] == 'this':
                return self.frames[-1].this
            return self.as_ptr(self.ev(b))
        return self.lv(b)

    def var_ptr(self, e):
        vk = e.get('vk')
        if vk in ('local', 'param'):
            for fr in (self.frames[-1],):
                p = fr.env.get(e['id'])
                if p is not None:
                    return p
            return None
        if vk == 'static':
            p = self.frames[-1].env.get(e['id'])
            if p is None:
                p = self.statics.get(e['id'])
            return p
        if vk == 'global':
            if 'cv' in e or 'cf' in e:
                return None
            g = self.prog.globals.get(e['n'])
            key = 'g:' + e['n']
            if key not in self.st.mem:
                v = None
                if g is not None and g.get('init') is not None:
                    try:
                        v = self.conv(self.ev(g['init']), e.get('t', ''))
                    except Dead:
                        v = None
                if v is None:
                    if e['n'].startswith('std::placeholders::_'):
                        v = node('ph', int(e['n'][len('std::placeholders::_'):]))
                    else:
                        v = node('unkv', -2, e['n'], e.get('t', ''))
                self.st.mem[key] = v
                self.types[key] = e.get('t', '')
            return ptr(key)
        return None

    def num(self, v):
        if isinstance(v, P):
            return v
        if isinstance(v, B):
            return b2i(v)
        if isinstance(v, N) and v.k == 'site':
            return ite(v.args[0], self.num(v.args[1]), self.num(v.args[2]))
        return unk('number from ' + (v.k if isinstance(v, N) else str(type(v))), 'i')

    def bool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, P):
            return ne(v, num(0))
        if isinstance(v, N):
            if v.k == 'null':
                return FALSE
            if v.k in ('ptr', 'optr', 'fnptr', 'closure'):
                return TRUE
            if v.k == 'site':
                return ite_b(v.args[0], self.bool(v.args[1]), self.bool(v.args[2]))
        if isinstance(v, N) and v.k in ('closure', 'fnptr'):
            return TRUE
        return bunk('truth of ' + (v.k if isinstance(v, N) else '?'))

    def cond(self, e):
        return self.bool(self.ev(e))

    def e_int(self, e):
        return num(e['v'])

    def e_char(self, e):
        return num(e['v'])

    def e_enum(self, e):
        return num(e['v'])

    def e_float(self, e):
        s = e.get('src') or e['v']
        s = s.rstrip('fFlL')
        try:
            return num(Fr(s))
        except (ValueError, ZeroDivisionError):
            return num(Fr(e['v']))

    def e_bool(self, e):
        return boolc(e['v'])

    def e_str(self, e):
        return self.std.strlit(e['v'])

    def e_null(self, e):
        return NULL

    def e_this(self, e):
        return self.frames[-1].this

    def e_var(self, e):
        if 'cv' in e:
            return num(e['cv'])
        if 'cf' in e:
            return num(Fr(e['cf']))
        p = self.var_ptr(e)
        if p is None:
            return unkv('variable ' + e['n'], e.get('t', ''))
        return self.read(p)

    def e_binding(self, e):
        return self.read(self.lv(e))

    def e_fn(self, e):
        return node('fnptr', e['fn']['id'])

    def e_mem(self, e):
        b = e['base']
        if not e.get('arrow') and b['k'] not in ('var', 'mem', 'un', 'sub', 'this'):
            if b['k'] == 'call' and not self.returns_ref(b):
                return self.field(self.ev(b), e['rec'] + '::' + e['f'])
        return self.read(self.lv(e))

    def e_sub(self, e):
        return self.read(self.lv(e))

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.cond(e['a'])
            return self.branch(a, lambda: self.cond(e['b']), lambda: FALSE)
        if op == '||':
            a = self.cond(e['a'])
            return self.branch(a, lambda: TRUE, lambda: self.cond(e['b']))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        return self.binop(op, a, b, e.get('t', ''))

    def binop(self, op, a, b, t):
        if isinstance(a, N) and a.k == 'site':
            return vite(a.args[0], self.binop(op, a.args[1], b, t), self.binop(op, a.args[2], b, t))
        if isinstance(b, N) and b.k == 'site':
            return vite(b.args[0], self.binop(op, a, b.args[1], t), self.binop(op, a, b.args[2], t))
        if isinstance(a, N) and a.k == 'iter':
            if op in ('+', '-') and not isinstance(b, N):
                d = self.num(b)
                return node('iter', a.args[0], '', a.args[2] + d if op == '+' else a.args[2] - d)
            if isinstance(b, N) and b.k == 'iter':
                if a.args[0] is b.args[0]:
                    if op == '-':
                        return a.args[2] - b.args[2]
                    return self.cmpop(op, a.args[2], b.args[2])
        if isinstance(a, N) or isinstance(b, N):
            if op in ('==', '!='):
                r = self.refeq(a, b)
                return r if op == '==' else not_(r)
            return self.unkof(t, 'operator ' + op)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if op in ('==', '!=') and isinstance(a, B) and isinstance(b, B):
                r = or_(and_(a, b), and_(not_(a), not_(b)))
                return r if op == '==' else not_(r)
            return self.cmpop(op, self.num(a), self.num(b))
        a, b = self.num(a), self.num(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return self.mul(a, b)
        if op == '/':
            if kind(t) == 'int':
                return self.idiv(a, b)
            return pmul(a, pinv(b))
        if op == '%':
            return self.imod(a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            ca, cb = cint(a), cint(b)
            if ca is not None and cb is not None:
                return num({'&': ca & cb, '|': ca | cb, '^': ca ^ cb, '<<': ca << cb, '>>': ca >> cb}[op])
            return self.unkof(t, 'operator ' + op)
        return self.unkof(t, 'operator ' + op)

    def mul(self, a, b):
        try:
            return pmul(a, b)
        except Blowup:
            return unk('product', 'i' if isint(a) and isint(b) else 'r')

    def ent(self, g):
        return entails(self.facts(), g)

    def idiv(self, a, b):
        return idiv(a, b, self.ent)

    def imod(self, a, b):
        return imod(a, b, self.ent)

    def cmpop(self, op, a, b):
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return ne(a, b)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return gt(a, b)
        if op == '<=':
            return le(a, b)
        return ge(a, b)

    def refeq(self, a, b):
        if a is b:
            return TRUE
        if isinstance(a, N) and isinstance(b, N):
            if a.k == 'iter' and b.k == 'iter' and a.args[0] is b.args[0]:
                return eq(a.args[2], b.args[2])
            if 'null' in (a.k, b.k) and {a.k, b.k} & {'ptr', 'optr', 'fnptr', 'closure'}:
                return FALSE
            if a.k == 'ptr' and b.k == 'ptr' and a.exact and b.exact:
                if a.args[0] != b.args[0]:
                    return FALSE
        return bunk('comparison')

    def unkof(self, t, why):
        k = kind(t)
        if k == 'int':
            return unk(why, 'i')
        if k == 'real':
            return unk(why, 'r')
        if k == 'bool':
            return bunk(why)
        return unkv(why, t)

    def e_un(self, e):
        op = e['op']
        if op == '&':
            return self.lv(e['e'])
        if op == '*':
            return self.read(self.as_ptr(self.ev(e['e'])))
        if op in ('++', '--'):
            p = self.lv(e['e'])
            old = self.read(p)
            new = self.bump(old, 1 if op == '++' else -1)
            self.write(p, new)
            return old if e.get('post') else new
        v = self.ev(e['e'])
        if op == '!':
            return not_(self.bool(v))
        if op == '-':
            return -self.num(v)
        if op == '+':
            return self.num(v)
        return self.unkof(e.get('t', ''), 'unary ' + op)

    def bump(self, v, d):
        if isinstance(v, P):
            return v + d
        if isinstance(v, N) and v.k == 'iter':
            return node('iter', v.args[0], '', v.args[2] + d)
        if isinstance(v, N) and v.k == 'site':
            return vite(v.args[0], self.bump(v.args[1], d), self.bump(v.args[2], d))
        return unk('increment', 'i')

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            v = self.ev(e['b'])
            p = self.lv(e['a'])
            v = self.conv(v, e['a'].get('t') or e.get('t', ''))
            self.write(p, v)
            return v
        p = self.lv(e['a'])
        b = self.ev(e['b'])
        a = self.read(p)
        ct = e.get('ct') or e.get('t', '')
        v = self.binop(op[:-1], a, b, ct)
        if kind(e.get('t', '')) == 'int' and isinstance(v, P) and not isint(v):
            v = self.trunc(v)
        self.write(p, v)
        return v

    def trunc(self, v):
        if isint(v):
            return v
        c = const(v)
        if c is not None:
            import math
            return num(math.trunc(c))
        return pure('trunc', v, sort='i')

    def conv(self, v, t):
        k = kind(t)
        if k == 'int' and isinstance(v, P) and not isint(v):
            return self.trunc(v)
        if k in ('int', 'real') and isinstance(v, B):
            return b2i(v)
        if k == 'bool' and not isinstance(v, B):
            return self.bool(v)
        return v

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'DerivedToBase' or ck == 'ConstCast' or ck == 'BaseToDerived':
            return self.ev(e['e'])
        v = self.ev(e['e'])
        if ck == 'FloatingToIntegral':
            return self.trunc(self.num(v))
        if ck in ('IntegralToFloating', 'IntegralCast', 'FloatingCast'):
            return self.num(v)
        if ck.endswith('ToBoolean'):
            return self.bool(v)
        if ck == 'ToVoid':
            return VOID
        if ck == 'Dynamic':
            if isinstance(v, N) and v.k == 'ptr':
                tgt = base_t(e['t'].rstrip()[:-1]) if e['t'].rstrip().endswith('*') else base_t(e['t'])
                o = self.read(v)
                if isinstance(o, N) and o.k == 'struct':
                    return v if tgt in self.prog.bases(o.args[0]) else NULL
            return unkv('dynamic_cast')
        return v

    def e_cond(self, e):
        c = self.cond(e['c'])
        return self.branch(c, lambda: self.conv(self.ev(e['a']), e.get('t', '')),
                           lambda: self.conv(self.ev(e['b']), e.get('t', '')))

    def e_zero(self, e):
        return self.zero(e['t'])

    def e_init(self, e):
        t = e['t']
        k = kind(t)
        args = e['args']
        if k == 'seq' and targs(t)[0] == 'std::array':
            et, n = targs(t)[1][0], int(targs(t)[1][1])
            if len(args) == 1 and args[0]['k'] in ('init', 'zero'):
                return self.ev_arr(args[0], et, n)
            if not args:
                return slist([self.zero(et) for _ in range(n)])
            return self.ev(args[0])
        if 'n' in e or k == 'carray':
            et = re_elem(t)
            return self.ev_arr(e, et, e.get('n', len(args)))
        b = base_t(t)
        if b in self.prog.recs:
            fs = {r + '::' + f: self.zero(ft) for r, f, ft in self.prog.all_fields(b)}
            own = self.prog.recs[b]['fields']
            nb = e.get('nb', 0)
            for i, a in enumerate(args):
                if i < nb:
                    bv_ = self.ev(a)
                    if isinstance(bv_, N) and bv_.k == 'struct':
                        fs.update(fields(bv_))
                elif i - nb < len(own):
                    fs[b + '::' + own[i - nb]['n']] = self.conv(self.ev(a), own[i - nb]['t'])
            return struct(b, fs)
        if len(args) == 1:
            return self.conv(self.ev(args[0]), t)
        if not args:
            return self.zero(t)
        return slist([self.ev(a) for a in args])

    def ev_arr(self, e, et, n):
        if e['k'] == 'zero':
            return slist([self.zero(et) for _ in range(n)])
        out = [self.conv(self.ev(a), et) for a in e['args']]
        while len(out) < n:
            f = e.get('fill')
            out.append(self.conv(self.ev(f), et) if f else self.zero(et))
        return slist(out)

    def e_lambda(self, e):
        caps = []
        fr = self.frames[-1]
        for c in e['caps']:
            if c.get('this'):
                caps.append(('this', 'r', fr.this))
            elif c.get('init'):
                caps.append((c['id'], 'v', self.ev(c['init'])))
            elif c.get('id') is not None:
                p = fr.env.get(c['id'])
                if p is None:
                    continue
                caps.append((c['id'], 'r', p) if c.get('byref') else (c['id'], 'v', self.read(p)))
        self.closures[e['fid']] = e
        return node('closure', e['fid'], tuple(caps))

    def e_throw(self, e):
        t = e.get('t', '')
        if e.get('e') is not None:
            try:
                v = self.ev(e['e'])
            except Dead:
                raise
        self.throws.append((self.st, t, e.get('l')))
        raise Dead()

    def e_new(self, e):
        t = e['t']
        if e.get('array'):
            return unkv('new[]')
        v = self.ev(e['init']) if e.get('init') else self.uninit(t)
        p = self.alloc(v, 'heap', t, local=False)
        return p

    def e_delete(self, e):
        self.ev(e['e'])
        return VOID

    def e_other(self, e):
        for c in e.get('ch', ()):
            try:
                self.ev(c)
            except Dead:
                raise
        return self.unkof(e.get('t', ''), 'expr ' + str(e.get('cls')))

    def e_ctor(self, e):
        return self.construct(e['t'], e)

    def e_call(self, e):
        r = self.call(e)
        if self.returns_ref(e) and isinstance(r, N) and isptr(r) and r.k in ('ptr', 'site', 'iter', 'optr'):
            return self.read(r)
        return r

    # ------------------------------------------------------------ construction
    def construct(self, t, e):
        cls = base_t(t)
        args = e['args']
        fn = e['fn']
        if not fn.get('repo'):
            return self.std.ctor(e, cls)
        if cls in self.contracts_cls():
            r = self.std.mih_ctor(cls, e, [self.ev(a) for a in args])
            if r is not None:
                return r
        if not args and e.get('implicit') and fn['id'] not in self.prog.fns:
            return self.defval(cls, e.get('zero'))
        f = self.prog.fns.get(fn['id'])
        if f is None or (f.get('body') is None and not f.get('inits')):
            if e.get('copy') or e.get('move'):
                v = self.ev(args[0])
                return self.slice_to(v, cls)
            if not args:
                return self.defval(cls, e.get('zero'))
            return unkv('constructor of ' + cls)
        if (e.get('copy') or e.get('move')) and f.get('implicit'):
            v = self.ev(args[0])
            return self.slice_to(v, cls)
        p = self.alloc(self.uninit(cls), 'obj', cls)
        self.invoke_ctor(f, p, self.bind_args(f['params'], args))
        return self.read(p)

    def contracts_cls(self):
        return self.std.contract_classes

    def defval(self, cls, z=False):
        r = self.prog.recs.get(cls)
        fs = {}
        for rn, f, ft in self.prog.all_fields(cls):
            fs[rn + '::' + f] = self.zero(ft) if z else self.uninit(ft, 'uninit ' + f)
        return struct(cls, fs)

    def slice_to(self, v, cls):
        if isinstance(v, N) and v.k == 'struct' and v.args[0] != cls:
            keep = {r + '::' + f for r, f, _ in self.prog.all_fields(cls)}
            return struct(cls, {k: x for k, x in fields(v).items() if k in keep})
        return v

    def bind_args(self, params, args):
        """[(param, ptr)] : evaluated arguments"""
        out = []
        for p, a in zip(params, args):
            if is_ref(p['t']):
                out.append(self.lv(a))
            else:
                v = self.conv(self.ev(a), p['t'])
                out.append(self.alloc(v, p['n'] or 'arg', p['t']))
        return out

    def invoke_ctor(self, f, this, argptrs):
        """run constructor f on the object at `this`"""
        def body():
            fr = self.frames[-1]
            cls = f['cls']
            done = set()
            for i in f.get('inits') or ():
                if i.get('deleg') is not None:
                    self.init_into(this, i['deleg'] if isinstance(i['deleg'], dict) else i['e'])
                elif i.get('base'):
                    self.init_base(this, i['base'], i['e'])
                elif i.get('f'):
                    key = cls + '::' + i['f']
                    done.add(i['f'])
                    v = self.conv(self.ev(i['e']), i.get('ft', '')) if i.get('e') else self.uninit(i.get('ft', ''))
                    if is_ref(i.get('ft', '')):
                        v = self.lv(i['e'])
                    self.write(self.sub(this, ('f', key)), v)
            return f.get('body')
        self.run(f, this, argptrs, pre=body)

    def init_base(self, this, base, e):
        """construct the base subobject in place"""
        if e is None:
            return
        if e['k'] == 'ctor':
            fn = self.prog.fns.get(e['fn']['id'])
            if e['fn'].get('repo') and fn is not None and (fn.get('body') is not None or fn.get('inits')):
                ap = self.bind_args(fn['params'], e['args'])
                self.invoke_ctor(fn, this, ap)
                return
            if not e['args']:
                return
        v = self.ev(e)
        if isinstance(v, N) and v.k == 'struct':
            for k, x in fields(v).items():
                self.write(self.sub(this, ('f', k)), x)

    def init_into(self, this, e):
        self.init_base(this, None, e)

    # ------------------------------------------------------------ calls
    def call(self, e, want_lv=False):
        fn = e.get('fn')
        if fn is None:
            return self.call_value(self.ev(e['callee']), e)
        name = fn['n']
        if fn['id'] in self.intrinsics or name in self.intrinsics:
            return (self.intrinsics.get(fn['id']) or self.intrinsics[name])(e)
        if not fn.get('repo'):
            return self.std.call(e, strip_targs(name))
        if fn.get('cls') in self.contracts_cls():
            r = self.std.mih_call(e)
            if r is not None:
                return r
        obj = e.get('obj')
        if obj is not None and not fn.get('static'):
            if fn['n'].endswith('operator()') and self.closure_of(obj) is not None:
                return self.call_value(self.closure_of(obj), e)
            if 'operator ' in fn['n'] and not e['args'] and self.closure_of(obj) is not None:
                return self.closure_of(obj)
            if e.get('arrow'):
                this = self.frames[-1].this if obj['k'] == 'this' else self.as_ptr(self.ev(obj))
            else:
                this = self.lv(obj)
            return self.call_method(fn, this, e)
        f = self.prog.fns.get(fn['id'])
        if f is None or f.get('body') is None:
            self.note('no body for ' + name)
            for a in e['args']:
                self.ev(a)
            return self.unkof(fn['rt'], 'call ' + name)
        return self.invoke(f, None, e['args'])

    def closure_of(self, obj):
        try:
            t = obj.get('t', '')
        except AttributeError:
            return None
        if 'lambda' in t or '(anonymous' in t:
            v = self.ev(obj)
            if isinstance(v, N) and v.k == 'closure':
                return v
        return None

    def call_method(self, fn, this, e):
        if this.k == 'site':
            c = this.args[0]
            return self.branch(c, lambda: self.call_method(fn, this.args[1], e),
                               lambda: self.call_method(fn, this.args[2], e))
        if this.k == 'iter':
            this = self.iter_ptr(this)
        if this.k == 'optr':
            return self.ocall(fn, this, [self.ev(a) for a in e['args']])
        mid = fn['id']
        o = self.read(this)
        if isinstance(o, N) and o.k == 'site' and this.k == 'ptr' and not is_seq(o):
            # object value itself conditional: only matters for dispatch
            alts = [o.args[1], o.args[2]]
            cls = {x.args[0] for x in alts if isinstance(x, N) and x.k == 'struct'}
            if len(cls) == 1:
                o = [x for x in alts if isinstance(x, N) and x.k == 'struct'][0]
        if isinstance(o, N) and o.k == 'optr':
            return self.ocall(fn, o, [self.ev(a) for a in e['args']])
        if isinstance(o, N) and o.k == 'oobj':
            return self.ocall(fn, o.args[0], [self.ev(a) for a in e['args']])
        if isinstance(o, N) and o.k == 'mih':
            r = self.std.mih_call(e, this)
            if r is not None:
                return r
        if fn.get('virt') and not e.get('nonvirt') and isinstance(o, N) and o.k == 'struct':
            mid = self.prog.final_overrider(o.args[0], mid)
        elif fn.get('virt') and not e.get('nonvirt') and self.prog.overridden(mid):
            mid = None
        f = self.prog.fns.get(mid)
        if f is None or f.get('body') is None:
            if fn['n'].split('::')[-1] == 'operator=' and len(e['args']) == 1:
                v = self.ev(e['args'][0])
                cls = fn.get('cls')
                v = self.slice_to(v, cls)
                if isinstance(v, N) and v.k == 'struct' and isinstance(o, N) and o.k == 'struct' and o.args[0] != cls:
                    for k, x in fields(v).items():
                        self.write(self.sub(this, ('f', k)), x)
                else:
                    self.write(this, v)
                return this
            if not (isinstance(o, N) and o.k == 'struct'):
                self.note('virtual call on unknown object: ' + fn['n'])
            for a in e['args']:
                self.ev(a)
            self.skipped(fn.get('id'))
            return self.unkof(fn['rt'], 'call ' + fn['n'])
        return self.invoke(f, this, e['args'])

    def ocall(self, fn, obj, args):
        """method of an opaque immutable object: an uninterpreted function of the object and the argument values"""
        self.skipped(fn.get('id'))
        a = tuple(self.deep(x) for x in args)
        name = fn['n']
        t = fn['rt']
        if name.endswith('BasisFunction::EvaluateDerivative') and len(a) == 2 and self.known_ints(a[1]) == (0,):
            # C09: the derivative of order zero is the value
            name, a = name[:-len('Derivative')], a[:1]
        return self.opaque(t, ('ocall', name, self.deep(obj)) + a)

    def opaque(self, t, key):
        k = kind(t)
        if k == 'int':
            return topoly(atom('ocall', key[1:], 'i'))
        if k == 'real':
            return topoly(atom('ocall', key[1:], 'r'))
        if k == 'bool':
            return batom('ocall', *key[1:])
        if k in ('ptr', 'rawptr'):
            return node('optr', key[1], tuple(key[2:]))
        if k == 'rec' and base_t(t) in self.prog.recs:
            b = base_t(t)
            fs = self.prog.all_fields(b)
            return struct(b, {r + '::' + f: self.opaque(ft, ('ocall', key[1] + '.' + f) + tuple(key[2:]))
                              for r, f, ft in fs})
        return unkv('opaque call ' + str(key[1]), t)

    def deep(self, v, n=0):
        if not isinstance(v, N) or n > 8:
            return v
        if v.k == 'ptr':
            return node('obj', self.deep(self.read(v), n + 1))
        if v.k == 'struct':
            return struct(v.args[0], {k: self.deep(x, n + 1) for k, x in fields(v).items()})
        if v.k == 'list':
            return slist([self.deep(x, n + 1) for x in v.args[0]])
        if v.k == 'site':
            return vite(v.args[0], self.deep(v.args[1], n + 1), self.deep(v.args[2], n + 1))
        return v

    def descends(self, f, args):
        """a recursion over known integers is unfolded"""
        outer = [fr for fr in self.frames if fr.fn.get('id') == f['id']]
        if len(outer) > 10:
            return False
        for p, a in zip(f['params'], args):
            if 'int' not in p['t'] and 'long' not in p['t'] and 'NamedType' not in p['t'] and 'Degree' not in p['t']:
                continue
            new = self.known_ints(self.read(self.lv(a)) if is_ref(p['t']) else self.ev(a))
            old = [self.known_ints(self.read(fr.env[p['id']])) for fr in outer if p['id'] in fr.env]
            if new is not None and all(o is not None for o in old) and new not in old:
                return True
        return False

    def known_ints(self, v):
        if isinstance(v, P):
            c = cint(v)
            return None if c is None else (c,)
        if isinstance(v, N) and v.k == 'list':
            r = [self.known_ints(x) for x in v.args[0]]
            return None if None in r else tuple(r)
        if isinstance(v, N) and v.k == 'struct' and len(fields(v)) == 1:
            return self.known_ints(next(iter(fields(v).values())))
        return None

    def recursive(self, f, this, args):
        """is this call to be represented by its value (induction) instead of being entered?  A recursive group is entered
        once, from the specification, and each of its functions at most once"""
        if self.abstractly:
            return True
        if self.frames[-1].fn['file'].startswith(VERIF):
            return False
        c = self.scc[f['id']]
        entered = False
        for a, b in zip(self.frames, self.frames[1:]):
            if b.fn.get('id') == f['id']:
                return not self.descends(f, args)
            if self.scc.get(b.fn.get('id')) == c and a.fn['file'].startswith(VERIF):
                entered = True
        return not entered and this is None

    abstractly = False
    checked = False     # subscripts outside a sequence leave the function

    def invoke(self, f, this, args):
        if f['id'] in self.scc and f['rt'] != 'void' and not f.get('ctor') and self.frames and self.recursive(f, this, args):
            vals = []
            for p, a in zip(f['params'], args):
                vals.append(self.deep(self.lv(a) if is_ref(p['t']) else self.ev(a)))
            if this is not None:
                vals.insert(0, self.deep(this))
            self.note('recursive function treated as pure: ' + f['n'])
            self.skipped(f['id'], vals)
            return self.opaque(f['rt'], ('ocall', f['n']) + tuple(vals))
        # arguments are evaluated in the caller's frame
        ap = self.bind_args(f['params'], args)
        return self.run(f, this, ap)

    def run(self, f, this, argptrs, pre=None, env=None, body=None):
        if len(self.frames) > self.MAXDEPTH:
            raise Limit('call depth in ' + f['n'])
        if f.get('id'):
            self.fns_seen.add(f['id'])
        fr = Frame(f, this)
        if env:
            fr.env.update(env)
        for p, a in zip(f['params'], argptrs):
            fr.env[p['id']] = a
        base = len(self.st.path)
        fr.base = base
        self.frames.append(fr)
        try:
            if pre is not None:
                body = pre()
            else:
                body = body or f.get('body')
            out = self.exec(body, self.st) if body else Out(self.st)
        finally:
            self.frames.pop()
        items = list(out.rets)
        if out.norm is not None:
            items.append((out.norm, VOID))
        m = self.merge(items, base)
        if m is None:
            raise Dead()
        self.st = m[0]
        rv = m[1]
        if rv is None:
            rv = unkv('merged return')
        if self.known:
            if isinstance(rv, P):
                rv = subst_top(rv, self.known)
            elif isinstance(rv, N) and rv.k == 'struct':
                rv = subst(rv, self.known)
        for o in fr.locals:
            # objects whose address is returned stay alive (dangling otherwise)
            if isinstance(rv, N) and rv.k == 'ptr' and rv.args[0] == o:
                if self.frames:
                    self.frames[-1].locals.append(o)
                continue
            self.st.mem.pop(o, None)
        return rv

    def call_value(self, v, e, argvals=None):
        """call a closure / function pointer / functor value; e gives argument expressions, or argvals values"""
        if isinstance(v, N):
            if v.k == 'site':
                return self.branch(v.args[0], lambda: self.call_value(v.args[1], e, argvals),
                                   lambda: self.call_value(v.args[2], e, argvals))
            if v.k == 'closure':
                lam = self.closures[v.args[0]]
                body, params, rt = lam.get('body'), lam['params'], lam.get('rt', '')
                if lam.get('insts'):
                    inst = lam['insts'][0]
                    if e is not None and e.get('fn'):
                        for i in lam['insts']:
                            if i['fid'] == e['fn']['id']:
                                inst = i
                    body, params, rt = inst['body'], inst['params'], inst.get('rt', '')
                env = {}
                this = None
                for cid, how, x in v.args[1]:
                    if cid == 'this':
                        this = x
                    elif how == 'r':
                        env[cid] = x
                    else:
                        env[cid] = self.alloc(x, 'cap')
                ap = self.bind_args(params, e['args']) if argvals is None else self.bind_vals(params, argvals)
                f = {'n': 'lambda', 'params': params, 'file': self.frames[-1].fn['file'] if self.frames else '', 'rt': rt,
                     'id': None}
                return self.run(f, this, ap, env=env, body=body)
            if v.k == 'fnptr':
                f = self.prog.fns.get(v.args[0])
                if f and f.get('body') is not None:
                    if argvals is None:
                        return self.invoke(f, None, e['args'])
                    ap = self.bind_vals(f['params'], argvals)
                    r = self.run(f, None, ap)
                    return r
            if v.k in ('fobj', 'bind'):
                av = argvals if argvals is not None else [self.ev(a) for a in e['args']]
                return self.std.functor(v, av)
            if v.k == 'struct':
                # object with operator()
                for c in self.prog.bases(v.args[0]):
                    r = self.prog.recs.get(c)
                    for m in (r['methods'] if r else ()):
                        f = self.prog.fns.get(m['id'])
                        if f and f['sn'] == 'operator()':
                            p = self.alloc(v, 'functor', v.args[0])
                            if argvals is None:
                                return self.invoke(f, p, e['args'])
                            ap = self.bind_vals(f['params'], argvals)
                            return self.run(f, p, ap)
        for a in (e['args'] if e is not None and argvals is None else ()):
            self.ev(a)
        self.note('call of unresolved function value')
        return self.unkof(e.get('t', '') if e else '', 'call of unknown function')

    def bind_vals(self, params, argvals):
        out = []
        for p, a in zip(params, argvals):
            loc = isinstance(a, N) and a.k == 'loc'
            if is_ref(p['t']) and loc:
                out.append(a.args[0])
            else:
                v = self.read(a.args[0]) if loc else a
                out.append(self.alloc(self.conv(v, deref_t(p['t'])), p['n'] or 'arg', deref_t(p['t'])))
        return out

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        self.st = st
        if s is None:
            return Out(st)
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Limit('step budget')
        try:
            return getattr(self, 's_' + s['s'])(s)
        except Dead:
            return Out(None)

    def s_null(self, s):
        return Out(self.st)

    def s_other(self, s):
        self.note('statement ' + str(s.get('cls')))
        return Out(self.st)

    def s_block(self, s):
        out = Out(self.st)
        for x in s['b']:
            if out.norm is None:
                break
            o = self.exec(x, out.norm)
            out.norm = o.norm
            out.absorb(o)
        return out

    def s_expr(self, s):
        self.ev(s['e'])
        return Out(self.st)

    def s_decl(self, s):
        fr = self.frames[-1]
        for v in s['vars']:
            self.declare(v)
        return Out(self.st)

    def declare(self, v):
        fr = self.frames[-1]
        t = v['t']
        if v.get('static'):
            key = v['id']
            p = self.statics.get(key)
            if p is None:
                val = self.conv(self.ev(v['init']), t) if v.get('init') else self.zero(t)
                o = 'static:%s' % v['n']
                self.st.mem[o] = val
                self.types[o] = t
                p = ptr(o)
                self.statics[key] = p
            elif p.args[0] not in self.st.mem:
                self.st.mem[p.args[0]] = unkv('static')
            fr.env[key] = p
            return
        if is_ref(t) and v.get('init') is not None:
            fr.env[v['id']] = self.lv(v['init'])
        else:
            if v.get('init') is not None:
                val = self.conv(self.ev(v['init']), t)
            else:
                val = self.uninit(t, 'uninit ' + v['n'])
            fr.env[v['id']] = self.alloc(val, v['n'], t)
        for i, b in enumerate(v.get('bindings') or ()):
            p = fr.env[v['id']]
            o = self.read(p)
            if b.get('e') is not None and b['e'].get('k') == 'mem':
                fr.env[b['id']] = self.sub(p, ('f', b['e']['rec'] + '::' + b['e']['f']))
            elif isinstance(o, N) and is_seq(o):
                fr.env[b['id']] = self.sub(p, ('i', num(i)))
            elif isinstance(o, N) and o.k == 'struct':
                fs = self.prog.all_fields(o.args[0])
                if i < len(fs):
                    fr.env[b['id']] = self.sub(p, ('f', fs[i][0] + '::' + fs[i][1]))
            else:
                fr.env[b['id']] = self.alloc(unkv('binding'), b['n'])

    def s_if(self, s):
        out = Out()
        if s.get('init'):
            o = self.exec(s['init'], self.st)
            out.absorb(o)
            if o.norm is None:
                return out
            self.st = o.norm
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.cond(s['c'])
        d = self.decide(c)
        s0 = self.st
        if d is True:
            o = self.exec(s['t'], s0)
            out.absorb(o)
            out.norm = o.norm
            return out
        if d is False:
            if s.get('e'):
                o = self.exec(s['e'], s0)
                out.absorb(o)
                out.norm = o.norm
            else:
                out.norm = s0
            return out
        base = len(s0.path)
        env0 = dict(self.frames[-1].env)
        norms = []
        for cond, br in ((c, s['t']), (not_(c), s.get('e'))):
            st = s0.copy()
            st.path.append(cond)
            o = self.exec(br, st)
            out.absorb(o)
            if o.norm is not None:
                norms.append((o.norm, None))
        m = self.merge(norms, base)
        out.norm = m[0] if m else None
        return out

    def s_ret(self, s):
        out = Out(None)
        fn = self.frames[-1].fn
        if s.get('e') is None:
            out.rets.append((self.st, VOID))
        else:
            rt = fn.get('rt', '')
            if is_ref(rt):
                v = self.lv(s['e'])
            else:
                v = self.conv(self.ev(s['e']), rt)
            out.rets.append((self.st, v))
        return out

    def s_break(self, s):
        o = Out(None)
        o.brks.append(self.st)
        return o

    def s_continue(self, s):
        o = Out(None)
        o.conts.append(self.st)
        return o

    def s_try(self, s):
        saved = self.throws
        self.throws = []
        base = len(self.st.path)
        o = self.exec(s['b'], self.st)
        mine, self.throws = self.throws, saved
        out = Out()
        out.absorb(o)
        norms = [(o.norm, None)] if o.norm is not None else []
        for st, t, l in mine:
            caught = False
            for h in s['h']:
                if h['t'] == '...' or self.exc_match(t, h['t']):
                    self.st = st.copy()
                    if h.get('var'):
                        self.frames[-1].env[h['var']['id']] = self.alloc(unkv('exception'), 'exc', h['t'])
                    ho = self.exec(h['b'], self.st)
                    out.absorb(ho)
                    if ho.norm is not None:
                        norms.append((ho.norm, None))
                    caught = True
                    break
            if not caught:
                self.throws.append((st, t, l))
        m = self.merge(norms, base)
        out.norm = m[0] if m else None
        return out

    def exc_match(self, t, h):
        b = base_t(h)
        t = base_t(t)
        if b == t or b == 'std::exception':
            return True
        if b == 'std::runtime_error' and t in ('std::range_error', 'std::overflow_error', 'std::underflow_error'):
            return True
        if b == 'std::logic_error' and t in ('std::invalid_argument', 'std::out_of_range', 'std::domain_error', 'std::length_error'):
            return True
        return b in self.prog.bases(t)

    def s_switch(self, s):
        v = self.num(self.ev(s['c']))
        body = s['b']
        items = body['b'] if body and body['s'] == 'block' else [body]
        # flatten case labels
        seq = []
        def add(x):
            if x['s'] in ('case', 'default'):
                seq.append(('lab', x))
                add(x['b'])
            else:
                seq.append(('st', x))
        for x in items:
            if x:
                add(x)
        out = Out()
        s0 = self.st
        base = len(s0.path)
        norms = []
        seen = []
        has_default = False
        for i, (kd, x) in enumerate(seq):
            if kd != 'lab':
                continue
            if x['s'] == 'default':
                has_default = True
                c = and_(*[ne(v, self.num(self.ev(y['v']))) for k2, y in seq if k2 == 'lab' and y['s'] == 'case'])
            else:
                c = eq(v, self.num(self.ev(x['v'])))
                seen.append(c)
            st = s0.copy()
            if decide(st.path, c) is False:
                continue
            self.st = st
            try:
                self.assume(c)
            except Dead:
                continue
            cur = self.st
            for k2, y in seq[i:]:
                if k2 == 'lab':
                    continue
                if cur is None:
                    break
                o = self.exec(y, cur)
                out.rets += o.rets
                out.conts += o.conts
                norms += [(b, None) for b in o.brks]
                cur = o.norm
            if cur is not None:
                norms.append((cur, None))
        if not has_default:
            st = s0.copy()
            self.st = st
            try:
                self.assume(and_(*[not_(c) for c in seen]))
                norms.append((self.st, None))
            except Dead:
                pass
        m = self.merge(norms, base)
        out.norm = m[0] if m else None
        return out

    def s_case(self, s):
        return self.exec(s['b'], self.st)

    s_default = s_case

    def s_for(self, s):
        out = Out()
        if s.get('i'):
            o = self.exec(s['i'], self.st)
            if o.norm is None:
                return o
            self.st = o.norm
        r = self.loops.run(s.get('c'), s.get('inc'), s.get('b'), s.get('l'))
        out.absorb(r)
        out.norm = r.norm
        return out

    def s_while(self, s):
        r = self.loops.run(s['c'], None, s['b'], s.get('l'))
        return r

    def s_do(self, s):
        base = len(self.st.path)
        o = self.exec(s['b'], self.st)
        out = Out()
        out.rets += o.rets
        norms = [(x, None) for x in o.conts]
        if o.norm is not None:
            norms.append((o.norm, None))
        exits = [(b, None) for b in o.brks]
        m = self.merge(norms, base)
        if m is not None:
            self.st = m[0]
            r = self.loops.run(s['c'], None, s['b'], s.get('l'))
            out.rets += r.rets
            if r.norm is not None:
                exits.append((r.norm, None))
        m = self.merge(exits, base)
        out.norm = m[0] if m else None
        return out

    def s_rfor(self, s):
        return self.loops.run_range(s)


def re_elem(t):
    import re
    m = re.match(r'(.*?)\s*\[\d+\]$', base_t(t))
    return m.group(1) if m else t
