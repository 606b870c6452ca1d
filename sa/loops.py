"""Loop summaries: closed forms of the recurrences a loop body defines on the abstract state."""
from .terms import *
from . import terms
from .terms import _mk, _flat, _ids
from .values import *
from .dom import entails, decide, unsat
from .prog import *


def mk_lastw(k, n, c, v, default):
    """value v(k) for the last k < n with c(k), else default"""
    if c is FALSE:
        return default
    cn = cint(n)
    if cn is not None and cn <= 4:
        r = default
        for i in range(max(cn, 0)):
            r = ite(subst(c, {k: num(i)}), subst(v, {k: num(i)}), r)
        return r
    d = max(c.depth, v.depth) + 1
    kb = topoly(bv(d))
    return topoly(atom('lastw', (n, default, d, (subst(c, {k: kb}), subst(v, {k: kb}))),
                       'i' if isint(v) and isint(default) else 'r'))


def mk_first(k, n, c):
    d = c.depth + 1
    return topoly(atom('first', (n, d, subst(c, {k: topoly(bv(d))})), 'i'))


def mk_whl(k, c):
    """least k >= 0 with c(k)"""
    d = c.depth + 1
    return topoly(atom('whl', (d, subst(c, {k: topoly(bv(d))})), 'i'))


FOLDX = topoly(atom('sym', ('fold!x',), 'r'))
FOLDXI = topoly(atom('sym', ('fold!xi',), 'i'))


class Leaf:
    __slots__ = ('root', 'path', 'init', 'sym', 'name', 't', 'F', 'closed', 'kk', 'final')


class Loops:
    UNROLL = 40

    def __init__(self, interp):
        self.I = interp
        self.n = 0

    # ------------------------------------------------------------ entry points
    def run(self, cond, inc, body, line):
        I = self.I
        c = (lambda: I.cond(cond)) if cond else (lambda: TRUE)
        i = (lambda: I.ev(inc)) if inc else (lambda: None)
        b = lambda st: I.exec(body, st)
        return self.loop(c, i, b, line, forever=cond is None or cond.get('k') == 'bool')

    def run_range(self, s):
        I = self.I
        v = s['var']
        p = I.lv(s['range'])
        cont = I.read(p)
        fr = I.frames[-1]

        def bind(i):
            ep = I.sub(p, ('i', i))
            if is_ref(v['t']):
                fr.env[v['id']] = ep
            else:
                fr.env[v['id']] = I.alloc(I.read(ep), v['n'], v['t'])
            for i, b in enumerate(v.get('bindings') or ()):
                fr.env[b['id']] = I.alloc(unkv('binding'), b['n'])
        if isinstance(cont, N) and cont.k == 'struct':
            # a class with begin()/end(): use its begin iterator
            cont, p = self.iter_range(cont, p)
        if not (isinstance(cont, N) and is_seq(cont)):
            I.note('range-for over unresolved container')
            cont = sseq('unk!r%d' % self.fresh(), (), 'int', unk('len', 'i'))
            p = I.alloc(cont, 'rng')
        if cont.k == 'list':
            out = Out_()
            base = len(I.st.path)
            cur = I.st
            brks = []
            for j in range(len(cont.args[0])):
                I.st = cur
                bind(num(j))
                o = I.exec(s['b'], I.st)
                out.rets += o.rets
                brks += o.brks
                norms = [(x, None) for x in o.conts]
                if o.norm is not None:
                    norms.append((o.norm, None))
                m = I.merge(norms, base)
                if m is None:
                    cur = None
                    break
                cur = m[0]
            exits = [(b, None) for b in brks]
            if cur is not None:
                exits.append((cur, None))
            m = I.merge(exits, base)
            out.norm = m[0] if m else None
            return out
        n = length(cont)
        ip = I.alloc(num(0), 'range_i', 'int')

        def body(st):
            I.st = st
            bind(I.read(ip))
            return I.exec(s['b'], I.st)
        return self.loop(lambda: lt(I.read(ip), n), lambda: I.write(ip, I.read(ip) + 1), body, s.get('l'))

    def iter_range(self, cont, p):
        I = self.I
        cls = cont.args[0]
        for c in I.prog.bases(cls):
            for f in I.prog.fns.values():
                if f.get('cls') == c and f['sn'] == 'begin' and f.get('body') is not None:
                    r = I.run(f, p, [])
                    if isinstance(r, N) and r.k == 'iter' and cint(r.args[2]) == 0:
                        q = r.args[0]
                        return I.read(q), q
        return cont, p

    def fresh(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------ driver
    def loop(self, cond, inc, body, line, forever=False):
        I = self.I
        s0 = I.st.copy()
        nthrow, nobl = len(I.throws), len(I.obl)
        base = len(I.st.path)
        if not forever:
            out = Out_()
            brks = []
            it = 0
            ok = True
            dead = few = False
            while True:
                try:
                    c = cond()
                except DeadExc:
                    dead = True
                    break
                d = True if c is TRUE else False if c is FALSE else None
                if d is None and it == 0:
                    known = decide(I.st.path, c)
                    if known is False:
                        d = False
                    elif known and c.op == 'cmp' and c.args[0] == 'ge' and entails(I.st.path, lt(c.args[1], 6)):
                        if unsat(I.st.path):
                            raise DeadExc()
                        d = few = True      # the facts bound the number of iterations
                if d is None and it > 0 and (few or len(I.st.path) != len(s0.path)):
                    d = decide(I.st.path, c)
                if d is None or it > self.UNROLL:
                    ok = False
                    break
                if d is False:
                    break
                o = body(I.st)
                out.rets += o.rets
                brks += o.brks
                norms = [(x, None) for x in o.conts]
                if o.norm is not None:
                    norms.append((o.norm, None))
                m = I.merge(norms, base)
                if m is None:
                    dead = True
                    break
                I.st = m[0]
                try:
                    inc()
                except DeadExc:
                    dead = True
                    break
                it += 1
            if ok:
                exits = [(b, None) for b in brks]
                if not dead:
                    exits.append((I.st, None))
                m = I.merge(exits, base)
                out.norm = m[0] if m else None
                return out
            del I.throws[nthrow:]
            del I.obl[nobl:]
            I.st = s0.copy()
        return self.summarise(s0, cond, inc, body, line)

    def iterate(self, st, cond, inc, body, pre):
        """one generic iteration from st; pre(c) gets the loop condition and returns guards to assume.
        returns (cond, after-state|None, rets, brks, throws, pathbase)"""
        I = self.I
        I.st = st
        thr0 = len(I.throws)
        c = cond()
        pb = len(I.st.path)
        for g in pre(c):
            if g is not TRUE:
                I.st.path.append(g)
        pb2 = len(I.st.path)
        o = body(I.st)
        norms = [(x, None) for x in o.conts]
        if o.norm is not None:
            norms.append((o.norm, None))
        m = I.merge(norms, pb2)
        after = None
        if m is not None:
            I.st = m[0]
            try:
                inc()
                after = I.st
            except DeadExc:
                after = None
        thr = I.throws[thr0:]
        del I.throws[thr0:]
        return c, after, o.rets, o.brks, thr, pb2

    # ------------------------------------------------------------ carried locations
    def type_at(self, root, path):
        I = self.I
        t = I.types.get(root, '')
        for st in path:
            b = base_t(t)
            if st[0] == 'f':
                rec, f = st[1].rsplit('::', 1)
                r = I.prog.recs.get(rec)
                t = ''
                if r:
                    for x in r['fields']:
                        if x['n'] == f:
                            t = x['t']
            else:
                n, a = targs(b)
                t = a[0] if a else ''
        return t

    def diff(self, root, a, b, path, out):
        if a is b:
            return
        if isinstance(a, N) and isinstance(b, N):
            if a.k == 'struct' and b.k == 'struct' and a.args[0] == b.args[0]:
                fa, fb = fields(a), fields(b)
                if set(fa) == set(fb):
                    for k in fa:
                        self.diff(root, fa[k], fb[k], path + (('f', k),), out)
                    return
            if a.k == 'list' and b.k == 'list' and len(a.args[0]) == len(b.args[0]):
                for i, (x, y) in enumerate(zip(a.args[0], b.args[0])):
                    self.diff(root, x, y, path + (('i', num(i)),), out)
                return
        out.append((root, path))

    def mksym(self, leaf):
        v = leaf.init
        nm = 'c!%d' % self.fresh()
        leaf.name = nm
        t = leaf.t
        if isinstance(v, P):
            k = kind(t) if t else ('int' if isint(v) else 'real')
            leaf.sym = topoly(atom('sym', (nm,), 'i' if k == 'int' else 'r'))
        elif isinstance(v, B):
            leaf.sym = batom('bsym', nm)
        elif isinstance(v, N):
            if v.k == 'iter':
                leaf.sym = node('iter', v.args[0], '', topoly(atom('sym', (nm,), 'i')))
            elif v.k == 'mih':
                leaf.sym = node('mih', v.args[0], v.args[1], v.args[2], topoly(atom('sym', (nm,), 'i')))
            elif is_seq(v):
                et = ''
                if kind(t) == 'seq':
                    et = targs(t)[1][0]
                elif kind(t) == 'string':
                    et = 'piece'
                if et == '' and v.k == 'list' and v.args[0] and isinstance(v.args[0][0], P):
                    et = 'double'
                leaf.sym = sseq(nm, (), et, topoly(atom('len', (nm,), 'i')))
            else:
                leaf.sym = None
        else:
            leaf.sym = None
        if leaf.sym is None:
            leaf.sym = node('unkv', -1000 - self.n, 'carried', t)

    def put(self, st, leaf, v):
        """place v at the leaf location of st (path consists of fields / constant indices)"""
        st.mem[leaf.root] = self.putv(st.mem[leaf.root], leaf.path, v)

    def putv(self, old, path, v):
        if not path:
            return v
        s = path[0]
        if s[0] == 'f':
            f = fields(old)
            f[s[1]] = self.putv(f[s[1]], path[1:], v)
            return struct(old.args[0], f)
        i = cint(s[1])
        items = old.args[0]
        return slist(items[:i] + (self.putv(items[i], path[1:], v),) + items[i + 1:])

    def get(self, mem, leaf):
        v = mem.get(leaf.root)
        for s in leaf.path:
            if not isinstance(v, N):
                return None
            if s[0] == 'f':
                if v.k != 'struct':
                    return None
                v = fields(v).get(s[1])
            else:
                if v.k != 'list':
                    return None
                v = v.args[0][cint(s[1])]
        return v

    # ------------------------------------------------------------ summary
    def summarise(self, s0, cond, inc, body, line):
        I = self.I
        I.loops_summarised += 1
        nobl = len(I.obl)
        steps_in = I.steps
        self.depth = getattr(self, 'depth', 0) + 1
        try:
            return self._summarise(s0, cond, inc, body, line)
        finally:
            self.depth -= 1

    def _summarise(self, s0, cond, inc, body, line):
        I = self.I
        base = len(s0.path)
        k = fresh_bv()
        kp = topoly(k)
        leaves = []
        closed = {}          # leaf index -> value at start of iteration k
        thr_keep = len(I.throws)
        quiet = I.quiet
        # --- discovery and counters
        rounds = 0
        c = after = None
        while True:
            rounds += 1
            H = s0.copy()
            for lf in leaves:
                self.put(H, lf, lf.sym)
            I.quiet = True
            try:
                c, after, rets, brks, thr, pb = self.iterate(H, cond, inc, body, lambda c: [ge(kp, 0), c])
            except DeadExc:
                I.quiet = quiet
                I.st = s0
                # condition evaluation never completes
                raise
            I.quiet = quiet
            if after is None:
                break
            ch = []
            H0 = s0.copy()
            for lf in leaves:
                self.put(H0, lf, lf.sym)
            for o, v in H0.mem.items():
                w = after.mem.get(o)
                if w is not None and w is not v:
                    self.diff(o, v, w, (), ch)
            have = {(lf.root, lf.path) for lf in leaves}
            new = []
            for root, path in ch:
                if (root, path) in have:
                    continue
                # finer than an existing leaf?
                if any(lf.root == root and path[:len(lf.path)] == lf.path for lf in leaves):
                    continue
                new.append((root, path))
            if not new:
                break
            for root, path in new:
                leaves = [lf for lf in leaves if not (lf.root == root and lf.path[:len(path)] == path)]
                lf = Leaf()
                lf.root, lf.path = root, path
                lf.init = self.get(s0.mem, lf)
                lf.t = self.type_at(root, path)
                lf.F = lf.closed = lf.final = None
                self.mksym(lf)
                leaves.append(lf)
            if rounds > 12:
                break
        # drop leaves that turn out unchanged
        if after is not None:
            for lf in leaves:
                lf.F = self.get(after.mem, lf)
        # --- first pass: counters
        unsolved = set(id(lf) for lf in leaves)
        rep = {}
        self.cur_facts = list(s0.path) + [ge(kp, 0)]
        if after is not None:
            self.solve_counters(leaves, unsolved, rep, k)
        n, excond = self.trip(c, rep, k, s0.path, leaves, unsolved)
        # --- second pass with counters in closed form
        if after is not None and (unsolved or rets or brks or thr):
            H = s0.copy()
            for lf in leaves:
                self.put(H, lf, lf.closed if id(lf) not in unsolved else lf.sym)
            I.quiet = True
            g2 = [ge(kp, 0)] + ([lt(kp, n)] if n is not None else [])
            try:
                c2, after2, rets, brks, thr, pb = self.iterate(H, cond, inc, body, lambda c: g2 + [c])
            finally:
                I.quiet = quiet
            if after2 is not None:
                after = after2
                for lf in leaves:
                    if id(lf) in unsolved:
                        lf.F = self.get(after.mem, lf)
                c = c2
            self.cur_facts = list(s0.path) + g2
            self.solve_all(leaves, unsolved, rep, k, n)
            if n is None:
                n, excond = self.trip(c, rep, k, s0.path, leaves, unsolved)
        for lf in leaves:
            if id(lf) in unsolved:
                lf.closed = self.havoc(lf, kp, s0)
                self.addrep(rep, lf)
                unsolved.discard(id(lf))
                I.note('line %s: carried value not summarised' % line)
        rep = self.close_rep(leaves, k)
        if n is None:
            n, excond = self.trip(c, rep, k, s0.path, leaves, unsolved, final=True)
        n = subst(n, rep)
        # --- exits
        def sb(x):
            return subst(x, rep)
        exits = []       # (kind, state, val, conds)
        for st, v in rets:
            exits.append(('ret', st, v))
        for st in brks:
            exits.append(('brk', st, None))
        for st, t, l in thr:
            exits.append(('thr', st, (t, l)))
        out = Out_()
        econds = []
        for kd, st, v in exits:
            ec = sb(and_(*st.path[pb:]))
            econds.append(self.strip_range(ec, kp, n))
        ecx = sb(excond) if excond is not None else FALSE      # extra exit condition from the loop guard
        E = or_(*(econds + ([ecx] if ecx is not FALSE else [])))
        frozen = State_({}, list(s0.path))
        if after is None and not exits:
            # body never completes normally and has no exit: infinite or dead
            if n is not None:
                I.st = s0
                I.assume(le(n, 0))
                out.norm = I.st
            return out
        # normal completion
        end_states = []
        npos = ge(n, 0)
        if after is None:
            # every iteration exits: loop runs at most once
            normal = s0.copy()
            normal.path.append(le(n, 0) if ecx is FALSE else or_(le(n, 0), subst(ecx, {k: num(0)})))
            if normal.path[-1] is not FALSE:
                end_states.append((normal, None))
            if exits:
                kk = num(0)
                for (kd, st, v), ec in zip(exits, econds):
                    self.emit(out, kd, st, v, s0, base, pb, gt(n, 0), rep, k, kk, leaves, end_states)
            m = I.merge(end_states, base)
            out.norm = m[0] if m else None
            return out
        fin = s0.copy()
        if E is not FALSE:
            allE = exists_(k, n, E)
            fin.path.append(not_(allE))
        for g in self.trip_facts(n):
            if g is not TRUE and g not in fin.path:
                fin.path.append(g)
        for lf in leaves:
            self.put(fin, lf, self.at(lf, k, n))
        if not (fin.path and any(x is FALSE for x in fin.path)):
            end_states.append((fin, None))
        if E is not FALSE:
            f = mk_first(k, n, E)
            if ecx is not FALSE:
                st = s0.copy()
                st.path.append(exists_(k, n, E))
                st.path.append(subst(ecx, {k: f}))
                self.first_facts(st, f, n, k, E)
                for lf in leaves:
                    self.put(st, lf, self.at(lf, k, f))
                end_states.append((st, None))
            for (kd, st, v), ec in zip(exits, econds):
                if ec is FALSE:
                    continue
                self.emit(out, kd, st, v, s0, base, pb, exists_(k, n, E), rep, k, f, leaves, end_states,
                          extra=(f, n, k, E), ec=ec)
        m = I.merge(end_states, base)
        out.norm = m[0] if m else None
        return out

    def strip_range(self, c, kp, n):
        parts = c.args if c.op == 'and' else (c,)
        drop = {ge(kp, 0), lt(kp, n)}
        return and_(*[p for p in parts if p not in drop])

    def first_facts(self, st, f, n, k, E):
        for g in (ge(f, 0), lt(f, n)):
            if g not in st.path:
                st.path.append(g)
        q = forall_(k, f, not_(E))
        if q is not TRUE:
            st.path.append(q)

    def emit(self, out, kd, st, v, s0, base, pb, guard, rep, k, kk, leaves, end_states, extra=None, ec=None):
        I = self.I
        ns = s0.copy()
        if guard is not TRUE:
            ns.path.append(guard)
        sub_k = {k: kk}
        memo = {}
        def val(x):
            return subst(subst(x, rep), sub_k)
        single = ec is not None and not mentions(ec, k)
        for g in st.path[pb:]:
            h = val(g)
            if h is not TRUE and h not in ns.path:
                ns.path.append(h)
        if extra is not None:
            f, n, k_, E = extra
            self.first_facts(ns, f, n, k_, E)
        for o in s0.mem:
            w = st.mem.get(o)
            if w is not None:
                ns.mem[o] = val(w) if isinstance(w, (P, B, N)) else w
        for o, w in st.mem.items():
            if o not in s0.mem:
                ns.mem[o] = val(w) if isinstance(w, (P, B, N)) else w
        if kd == 'ret':
            out.rets.append((ns, val(v) if isinstance(v, (P, B, N)) else v))
        elif kd == 'brk':
            end_states.append((ns, None))
        else:
            I.throws.append((ns, v[0], v[1]))

    def trip_facts(self, n):
        out = [ge(n, 0)]
        a = as_atom(n)
        if a is not None and a.op == 'whl':
            d, body = a.args
            out.append(subst(body, {bv(d): n}))
            q = fresh_bv()
            out.append(forall_(q, n, not_(subst(body, {bv(d): topoly(q)}))))
        return out

    def at(self, lf, k, val):
        """value of the leaf after `val` iterations"""
        return subst(lf.closed, {k: val})

    # ------------------------------------------------------------ trip count
    def trip(self, c, rep, k, facts, leaves, unsolved, final=False):
        """(N, extra exit condition) or (None, None)"""
        kp = topoly(k)
        if c is None or c is TRUE:
            if final or c is TRUE:
                # forever loop: iterations bounded only by exits
                return topoly(atom('sym', ('INF',), 'i')), None
            return None, None
        cc = subst(c, rep)
        parts = cc.args if cc.op == 'and' else (cc,)
        open_ = {lf.name for lf in leaves if id(lf) in unsolved}
        best = None
        rest = []
        for p in parts:
            t = None
            if best is None and not self.mentions_open(p, leaves, unsolved):
                t = self.trip1(p, k, facts)
            if t is not None:
                best = t
            else:
                rest.append(p)
        if best is not None:
            if any(self.mentions_open(p, leaves, unsolved) for p in rest) and not final:
                # the extra condition is expressed later through rep
                pass
            return best, (not_(and_(*[self.unrep(p) for p in rest])) if rest else None)
        if self.mentions_open(cc, leaves, unsolved) and not final:
            return None, None
        if final or not self.mentions_open(cc, leaves, unsolved):
            if not cc.exact:
                return unk('trip count', 'i'), None
            if not mentions(cc, k):
                # condition does not change: zero or infinitely many iterations
                return ite(cc, topoly(atom('sym', ('INF',), 'i')), num(0)), None
            return mk_whl(k, not_(cc)), None
        return None, None

    def unrep(self, p):
        return p

    def mentions_open(self, x, leaves, unsolved):
        s = syms(x)
        for lf in leaves:
            if id(lf) in unsolved and self.sym_in(lf, s):
                return True
        return False

    def sym_in(self, lf, s):
        for y in s:
            if isinstance(y, str):
                if y == lf.name or y.startswith(lf.name + '.'):
                    return True
            elif y.op in ('sym', 'bsym') and y.args[0] == lf.name:
                return True
        return False

    def trip1(self, p, k, facts):
        neq = False
        if p.op == 'not' and p.args[0].op == 'cmp' and p.args[0].args[0] == 'eq':
            q = p.args[0].args[1]
            neq = True
        elif p.op == 'cmp' and p.args[0] in ('ge', 'gt'):
            q = p.args[1]
        else:
            return None
        c1, rest = self.lin(q, k)
        if c1 is None:
            return None
        co = const(c1)
        if co is None or co == 0:
            return None
        if neq:
            if abs(co) != 1:
                return None
            a = pscale(rest, Fr(-1) / co)
            return self.nonneg(a, facts)
        if co > 0:
            return None
        if p.args[0] == 'gt':
            if not (isint(rest)):
                return None
            rest = rest - 1
        if not isint(rest):
            return None
        m = -co
        if m.denominator != 1:
            return None
        if m == 1:
            return self.nonneg(rest + 1, facts)
        return self.nonneg(idiv(rest + num(m), num(m), lambda g: entails(facts, g)), facts)

    def nonneg(self, a, facts):
        c = const(a)
        if c is not None:
            return num(max(c, 0))
        if entails(facts, ge(a, 0)):
            return a
        return ite(ge(a, 0), a, num(0))

    def lin(self, q, k):
        """q = c1*k + rest"""
        c1, rest = num(0), num(0)
        for mono, c in q.m:
            d = dict(mono)
            pw = d.pop(k.id, 0)
            m = _mk({tuple(sorted(d.items())): c})
            if pw > 1 or mentions(m, k):
                return None, None
            if pw:
                c1 = c1 + m
            else:
                rest = rest + m
        return c1, rest

    # ------------------------------------------------------------ recurrences
    def scalar(self, v):
        """the numeric component carried by iter / handler values"""
        if isinstance(v, P):
            return v
        if isinstance(v, N) and v.k == 'iter':
            return v.args[2]
        if isinstance(v, N) and v.k == 'mih':
            return v.args[3]
        return None

    def rewrap(self, like, x):
        if isinstance(like, P):
            return x
        if like.k == 'iter':
            return node('iter', like.args[0], '', x)
        return node('mih', like.args[0], like.args[1], like.args[2], x)

    def addrep(self, rep, lf):
        s = lf.sym
        if isinstance(s, P):
            rep[as_atom(s)] = lf.closed if isinstance(lf.closed, P) else unk('carried', 'i')
        elif isinstance(s, B):
            rep[s.args[0]] = lf.closed if isinstance(lf.closed, B) else bunk('carried')
        elif s.k in ('iter', 'mih'):
            x = self.scalar(lf.closed)
            rep[as_atom(self.scalar(s))] = x if x is not None else unk('carried', 'i')
        elif s.k == 'sseq':
            rep[lf.name] = lf.closed if isinstance(lf.closed, N) and is_seq(lf.closed) else unkv('carried')

    def close_rep(self, leaves, k):
        rep = {}
        for lf in leaves:
            self.addrep(rep, lf)
        return rep

    def solve_counters(self, leaves, unsolved, rep, k):
        kp = topoly(k)
        for lf in leaves:
            F = lf.F
            if F is lf.sym:
                lf.closed = lf.init
                unsolved.discard(id(lf))
                self.addrep(rep, lf)
                continue
            x, y = self.scalar(lf.sym), self.scalar(F) if F is not None else None
            if x is None or y is None:
                continue
            if not self.same_frame(lf.sym, F):
                continue
            d = y - x
            if const(d) is not None or (not self.mentions_any(d, leaves) and d.exact):
                lf.closed = self.rewrap(lf.sym, self.scalar(lf.init) + kp * d)
                unsolved.discard(id(lf))
                self.addrep(rep, lf)

    def same_frame(self, a, b):
        if isinstance(a, P):
            return isinstance(b, P)
        if not isinstance(b, N) or a.k != b.k:
            return False
        if a.k == 'iter':
            return a.args[0] is b.args[0]
        return a.args[:3] == b.args[:3]

    def mentions_any(self, x, leaves):
        s = syms(x)
        return any(self.sym_in(lf, s) for lf in leaves)

    def solve_all(self, leaves, unsolved, rep, k, n):
        """solve remaining leaves, respecting dependencies"""
        self.N = n
        self.k_ = k
        progress = True
        while progress and unsolved:
            progress = False
            for lf in leaves:
                if id(lf) not in unsolved:
                    continue
                if lf.F is None:
                    continue
                F = subst(lf.F, rep)
                others = [o for o in leaves if o is not lf and id(o) in unsolved]
                s = syms(F) if isinstance(F, (P, B, N)) else frozenset()
                if any(self.sym_in(o, s) for o in others):
                    continue
                if lf.F is lf.sym:
                    lf.closed = lf.init
                else:
                    lf.closed = self.solve(lf, F, k)
                if lf.closed is not None:
                    unsolved.discard(id(lf))
                    self.addrep(rep, lf)
                    progress = True
        # values simply recomputed each iteration from other unsolved ones stay unsolved

    def solve(self, lf, F, k):
        x = lf.sym
        kp = topoly(k)
        if isinstance(x, P) and isinstance(F, P):
            return self.solve_num(F, as_atom(x), lf.init, k)
        if isinstance(x, B) and isinstance(F, B):
            return self.solve_bool(F, x, lf.init, k)
        if isinstance(x, N) and x.k in ('iter', 'mih'):
            if self.same_frame(x, F):
                r = self.solve_num(self.scalar(F), as_atom(self.scalar(x)), self.scalar(lf.init), k)
                return self.rewrap(x, r) if r is not None else None
            if x.k == 'iter' and isinstance(F, N) and F.k == 'iter' and not self.sym_in(lf, syms(F)):
                return None
            if x.k == 'mih' and isinstance(F, N) and F.k == 'mih' and not self.sym_in(lf, syms(F)):
                return self.prev(F, lf.init, k)
            return None
        if isinstance(x, N) and x.k == 'sseq' and isinstance(F, N) and is_seq(F):
            return self.solve_seq(lf, F, k)
        if isinstance(F, (P, B, N)) and not self.sym_in(lf, syms(F)):
            return self.prev(F, lf.init, k)
        return None

    def prev(self, F, init, k):
        """value assigned by the previous iteration"""
        kp = topoly(k)
        G = subst(F, {k: kp - 1})
        if G is init:
            return init
        if isinstance(G, N) and not G.exact and not mentions(G, k):
            pass
        return vite(eq(kp, 0), init, G)

    def solve_num(self, F, x, init, k):
        kp = topoly(k)
        if not isinstance(init, P):
            return None
        if not mentions(F, x):
            return self.prev(F, init, k)
        if not F.exact:
            return None
        q = fresh_bv()
        qp = topoly(q)
        d = F - topoly(x)
        if not mentions(d, x):
            return init + sum_(q, kp, subst(d, {k: qp}))
        # multiplicative
        m = pdiv_exact(F, topoly(x))
        if m is not None and not mentions(m, x):
            return init * prod_(q, kp, subst(m, {k: qp}))
        # guarded assignment
        w = self.guarded(F, x)
        if w is not None:
            c, v = w
            if not mentions(c, x) and not mentions(v, x):
                return self.last_write(c, v, init, k, kp)
        # general fold
        so = x.sort
        fx = FOLDXI if so == 'i' else FOLDX
        bd = subst(F, {x: fx})
        dd = bd.depth + 1
        bd = subst(bd, {k: topoly(bv(dd))})
        return topoly(atom('fold', (kp, init, 'i' if so == 'i' else 'r', dd, bd), so))

    def guarded(self, F, x):
        """F = ite(c, v, x) as a decision tree: (written condition, written value) or None"""
        xp = topoly(x)
        if F is xp:
            return FALSE, num(0)
        if not mentions(F, x):
            return TRUE, F
        a = as_atom(F)
        if a is not None and a.op == 'ite':
            c, u, v = a.args
            if mentions(c, x):
                return None
            # a value computed from the old one counts as written
            g1 = self.guarded(u, x) or (TRUE, u)
            g2 = self.guarded(v, x) or (TRUE, v)
            w = or_(and_(c, g1[0]), and_(not_(c), g2[0]))
            if g1[0] is FALSE:
                val = g2[1]
            elif g2[0] is FALSE:
                val = g1[1]
            else:
                val = ite(c, g1[1], g2[1])
            return w, val
        # x + ite(c, u - x, 0) normal form
        for at in atoms_of(F):
            if at.op == 'ite' and mentions(at, x):
                c, u, v = at.args
                if mentions(c, x):
                    return None
                fu = subst_top(F, {at: u})
                fv = subst_top(F, {at: v})
                g1, g2 = self.guarded(fu, x), self.guarded(fv, x)
                if g1 is None or g2 is None:
                    return None
                w = or_(and_(c, g1[0]), and_(not_(c), g2[0]))
                if g1[0] is FALSE:
                    val = g2[1]
                elif g2[0] is FALSE:
                    val = g1[1]
                else:
                    val = ite(c, g1[1], g2[1])
                return w, val
        for at in atoms_of(F):
            if at.op == 'ite' and at is not None:
                # condition may split the additive form
                c, u, v = at.args
                if mentions(c, x):
                    continue
                fu = subst_top(F, {at: u})
                fv = subst_top(F, {at: v})
                if fu is topoly(x) or fv is topoly(x) or not mentions(fu, x) or not mentions(fv, x):
                    g1, g2 = self.guarded(fu, x), self.guarded(fv, x)
                    if g1 is None or g2 is None:
                        return None
                    w = or_(and_(c, g1[0]), and_(not_(c), g2[0]))
                    val = g2[1] if g1[0] is FALSE else g1[1] if g2[0] is FALSE else ite(c, g1[1], g2[1])
                    return w, val
        return None

    def last_write(self, c, v, init, k, kp, pos=None):
        """closed form after kp iterations of: if c(k) then x = v(k)"""
        if c is FALSE:
            return init
        if not mentions(c, k) and not mentions(v, k):
            return ite(and_(ge(kp, 1), c), v, init)
        if c is TRUE or not mentions(c, k):
            r = ite(ge(kp, 1), subst(v, {k: kp - 1}), init)
            return ite(c, r, init)
        q = fresh_bv()
        qp = topoly(q)
        ks = self.unique_k(c, k, pos)
        for o in getattr(self, 'outer', ()):
            if ks is None and o is not pos and o in syms(c):
                ks = self.unique_k(c, k, o)
        if ks is not None:
            g = and_(ge(ks, 0), lt(ks, kp), subst(c, {k: ks}))
            return ite(g, subst(v, {k: ks}), init)
        ds = self.disjuncts(c)
        if ds is not None and 1 < len(ds) <= 4:
            ws = []
            for d in ds:
                ks = self.unique_k(d, k, pos)
                if ks is None:
                    break
                ws.append((ks, and_(ge(ks, 0), lt(ks, kp), subst(d, {k: ks}))))
            else:
                # the valid write of the largest k wins
                r = init
                for i, (ks, g) in enumerate(ws):
                    later = [and_(g2, gt(k2, ks)) for j, (k2, g2) in enumerate(ws) if j != i]
                    r = ite(and_(g, *[not_(x) for x in later]), subst(v, {k: ks}), r)
                return r
        return mk_lastw(q, kp, subst(c, {k: qp}), subst(v, {k: qp}), init)

    def disjuncts(self, c):
        if c.op == 'or':
            out = []
            for x in c.args:
                d = self.disjuncts(x)
                if d is None:
                    return None
                out += d
            return out if len(out) <= 4 else None
        if c.op == 'and':
            for x in c.args:
                if x.op == 'or':
                    o = [y for y in c.args if y is not x]
                    return self.disjuncts(or_(*[and_(z, *o) for z in x.args])) if len(x.args) <= 4 else None
        return [c]

    def unique_k(self, c, k, pos=None):
        """the only k that can satisfy c, as a polynomial"""
        if c.op == 'or':
            r = None
            for x in c.args:
                y = self.unique_k(x, k, pos)
                if y is None:
                    return None
                if r is None:
                    r = y
                elif not peq(r, y):
                    return None
            return r
        parts = list(c.args) if c.op == 'and' else [c]
        # one level of disjunction inside the conjunction
        for p in parts:
            if p.op == 'cmp' and p.args[0] == 'eq':
                c1, rest = self.lin(p.args[1], k)
                if c1 is None or not c1.m:
                    continue
                co = const(c1)
                if co is not None and abs(co) == 1 and isint(rest):
                    return pscale(rest, Fr(-1) / co)
        facts = self.cur_facts + parts
        for p in parts:
            if p.op != 'cmp':
                continue
            c1, rest = self.lin(p.args[1], k)
            if c1 is None or not c1.m:
                continue
            r = self.block(c1, rest, k, facts, pos)
            if r is not None:
                return r
        for p in parts:
            if p.op == 'or':
                o = [x for x in parts if x is not p]
                r = self.unique_k(or_(*[and_(x, *o) for x in p.args]), k, pos)
                if r is not None:
                    return r
        return None

    def block(self, c1, rest, k, facts, pos):
        """constraint involves c1*k + rest; find T = pos + m*(s*k + q) with 0 <= T < m entailed"""
        kp = topoly(k)
        cands = []
        pa = None
        # orient so that pos occurs with +1
        if pos is not None:
            co = dict(rest.m).get(((pos.id, 1),))
            if co is None:
                return None
            if abs(co) != 1:
                return None
            c1 = pscale(c1, Fr(1) / co)
            rest = pscale(rest, Fr(1) / co)
            pa = topoly(pos)
        else:
            return None
        lead = const(c1)
        for s in (1, -1):
            m = pscale(c1, Fr(s))
            other = rest - pa
            qs = [num(0)]
            for part in (other, other - num(dict(other.m).get((), 0))):
                d = pdiv_exact(part, m) if part.m else None
                if d is not None and isint(d) and not mentions(d, pos):
                    qs.append(d)
            for q in qs:
                T = pa + m * (kp * s + q)
                if entails(facts, ge(T, 0)) and entails(facts, lt(T, m)):
                    # s*k + q = -(pos div m)
                    r = idiv(pa, m, lambda g: entails(self.cur_facts, g))
                    return pscale(-(r + q), Fr(s))
        return None

    def solve_bool(self, F, x, init, k):
        a = x.args[0]
        kp = topoly(k)
        if not mentions(F, a):
            return self.prev(F, init, k)
        q = fresh_bv()
        qp = topoly(q)
        t = subst(F, {a: TRUE})
        f = subst(F, {a: FALSE})
        if f is FALSE:
            return and_(init, forall_(q, kp, subst(t, {k: qp})))
        if t is TRUE:
            return or_(init, exists_(q, kp, subst(f, {k: qp})))
        return None

    # ------------------------------------------------------------ sequences
    def solve_seq(self, lf, F, k):
        x = lf.sym
        init = lf.init
        kp = topoly(k)
        if not self.sym_in(lf, syms(F)):
            return self.prev(F, init, k)
        r = self.appended(F, x)
        q = fresh_bv()
        qp = topoly(q)
        if r is not None:
            tail = r
            if tail is EMPTY:
                return init
            if self.sym_in(lf, syms(tail)):
                # only the current length may occur
                ln = atom('len', (lf.name,), 'i')
                tl = length(tail)
                if not self.sym_in(lf, syms(tl)):
                    cur = length(init) + sum_(q, kp, subst(tl, {k: qp}))
                    tail = self.subst_len(tail, lf.name, cur)
                if self.sym_in(lf, syms(tail)):
                    return None
            return cat(init, flat(q, kp, subst(tail, {k: qp})))
        # pointwise
        lx = length(x)
        if not peq(length(F), lx):
            return None
        F = self.subst_len(F, lf.name, length(init))
        return self.pointwise(lf, F, init, k, (), length(init))

    def subst_len(self, v, name, ln):
        """replace the length of the carried sequence by a value (elements are left alone)"""
        a = atom('len', (name,), 'i')
        return _subst_lenatom(v, a, ln, name)

    def appended(self, F, x):
        if F is x:
            return EMPTY
        if F.k == 'cat' and F.args[0][0] is x:
            return cat(*F.args[0][1:])
        if F.k == 'site':
            a, b = self.appended(F.args[1], x), self.appended(F.args[2], x)
            if a is None or b is None:
                return None
            if a is b:
                return a
            return vite(F.args[0], a, b)
        return None

    def pointwise(self, lf, F, init, k, idx, ln):
        """F, init: sequences of length ln; carried elements are lf.name at idx + (p,)"""
        kp = topoly(k)
        p = fresh_bv()
        pp = topoly(p)
        facts = self.cur_facts + [ge(pp, 0), lt(pp, ln)]
        old = self.cur_facts
        self.cur_facts = facts
        try:
            Fe = elem(F, pp, facts)
            Ie = elem(init, pp, facts)
            Fe = self.fold_digits(Fe)
            r = self.pw_value(lf, Fe, Ie, k, idx + (pp,), p)
        finally:
            self.cur_facts = old
        if r is None:
            return None
        return comp(p, ln, r)

    def fold_digits(self, F):
        """conditions over the place of a multi-index: the digits of r, put together again, are r"""
        memo = {}

        def rank(q):
            groups = {}
            for a in atoms_of(q):
                if a.op == 'digit':
                    groups.setdefault((a.args[1], a.args[2]), []).append(a)
            for (r, lens), ats in groups.items():
                key = (r, lens)
                if key not in memo:
                    n = num(1)
                    for x in lens:
                        n = n * x
                    fs = self.cur_facts + ([lt(topoly(self.k_), self.N)] if self.N is not None else [])
                    memo[key] = entails(fs, ge(r, 0)) and entails(fs, lt(r, n))
                if not memo[key]:
                    continue
                st, rest = lens[0], r
                for d in range(1, len(lens)):
                    rest = rest - st * topoly(atom('digit', (d, r, lens), 'i'))
                    st = st * lens[d]
                q2 = subst_top(q, {atom('digit', (0, r, lens), 'i'): rest})
                if len(q2.m) < len(q.m) or not any(a.op == 'digit' and a.args[1:] == key for a in atoms_of(q2)):
                    q = q2
            return q

        def fb(b):
            if b.op == 'cmp':
                q = fp(rank(b.args[1]))
                return b if q is b.args[1] else cmp_(b.args[0], q)
            if b.op == 'not':
                return not_(fb(b.args[0]))
            if b.op in ('and', 'or'):
                return (and_ if b.op == 'and' else or_)(*[fb(x) for x in b.args])
            return b

        def fp(q):
            rep = {}
            for a in atoms_of(q):
                if a.op == 'ite':
                    rep[a] = ite(fb(a.args[0]), fp(a.args[1]), fp(a.args[2]))
                elif a.op == 'elem' and isinstance(a.args[0], str):
                    z = tuple(rank(x) if isinstance(x, P) else x for x in a.args[1:])
                    if z != a.args[1:]:
                        rep[a] = topoly(atom('elem', (a.args[0],) + z, a.sort))
            return subst_top(q, rep) if rep else q
        if isinstance(F, P):
            return fp(F)
        if isinstance(F, N) and F.k == 'struct':
            return struct(F.args[0], {kk: self.fold_digits(v) for kk, v in fields(F).items()})
        return F

    def pw_value(self, lf, F, init, k, idx, p):
        if isinstance(F, P):
            if not isinstance(init, P):
                return None
            x = atom('elem', (lf.name,) + idx, F_sort(lf))
            y = atom('sym', ('y!%d' % self.fresh(),), x.sort)
            G = replace_atom(F, x, topoly(y))
            if G is None:
                return None
            G1 = self.resolve_reads(lf, G, y, init, k, idx, p)
            if G1 is None or self.sym_in(lf, syms(G1)):
                r = self.recurrence(lf, G, y, init, k, idx, p)
                if r is not None:
                    return r
                return self.piecewise(lf, G, y, init, k, idx, p)
            self.outer = [as_atom(x) for x in idx if isinstance(x, P) and as_atom(x) is not None]
            try:
                r = self.solve_elem(G1, y, init, k, p)
            finally:
                self.outer = ()
            if r is not None and isinstance(r, P) and any(a.op == 'lastw' for a in atoms_of(r)):
                r = self.piecewise(lf, G, y, init, k, idx, p) or r
            return r
        if isinstance(F, N) and F.k == 'struct':
            if not (isinstance(init, N) and init.k == 'struct'):
                return None
            fF, fI = fields(F), fields(init)
            if len(fF) != 1:
                return None      # only single-field wrappers keep the family name
            out = {}
            for kk, v in fF.items():
                r = self.pw_value(lf, v, fI.get(kk), k, idx, p)
                if r is None:
                    return None
                out[kk] = r
            return struct(F.args[0], out)
        if isinstance(F, N) and is_seq(F):
            if not (isinstance(init, N) and is_seq(init)):
                return None
            a = atom('len', (lf.name,) + idx, 'i')
            F2 = _subst_lenatom(F, a, length(init), lf.name)
            if not peq(length(F2), length(init)):
                # lengths agree only under the element's guard
                return self.pw_guarded_seq(lf, F2, init, k, idx, p)
            return self.pointwise(lf, F2, init, k, idx, length(init))
        if isinstance(F, N) and F.k == 'site':
            return None
        return None

    def pw_guarded_seq(self, lf, F, init, k, idx, p):
        # F = site(c, v, x):  whole-element assignment
        x = None
        if F.k == 'site':
            tree = self.site_tree(F, lf)
            if tree is None:
                return None
            w, v = tree
            if self.sym_in(lf, syms(w)):
                return None
            if self.sym_in(lf, syms(v)):
                return None
            ks = self.unique_k(w, k, p)
            kp = topoly(k)
            if ks is not None:
                g = and_(ge(ks, 0), lt(ks, kp), subst(w, {k: ks}))
                return vite(g, subst(v, {k: ks}), init)
        return None

    def site_tree(self, F, lf):
        if F.k == 'sseq' and F.args[0] == lf.name:
            return FALSE, F
        if F.k == 'site':
            a, b = self.site_tree(F.args[1], lf), self.site_tree(F.args[2], lf)
            if a is None or b is None:
                return None
            c = F.args[0]
            w = or_(and_(c, a[0]), and_(not_(c), b[0]))
            v = b[1] if a[0] is FALSE else a[1] if b[0] is FALSE else vite(c, a[1], b[1])
            return w, v
        if self.sym_in(lf, syms(F)):
            return None
        return TRUE, F

    def solve_elem(self, G, y, init, k, p):
        kp = topoly(k)
        if not mentions(G, y):
            # overwritten in every iteration regardless of position
            return self.prev(G, init, k)
        if not G.exact:
            return None
        q = fresh_bv()
        qp = topoly(q)
        d = G - topoly(y)
        if not mentions(d, y):
            return init + sum_(q, kp, subst(d, {k: qp}))
        w = self.guarded(G, y)
        if w is not None:
            c, v = w
            if not mentions(v, y):
                return self.last_write(c, v, init, k, kp, pos=p)
            # read-modify-write of the same element at a single iteration
            ks = self.unique_k(c, k, p)
            if ks is not None:
                g = and_(ge(ks, 0), lt(ks, kp), subst(c, {k: ks}))
                return ite(g, subst(subst(v, {k: ks}), {y: init}), init)
        m = pdiv_exact(G, topoly(y))
        if m is not None and not mentions(m, y):
            return init * prod_(q, kp, subst(m, {k: qp}))
        so = y.sort
        fx = FOLDXI if so == 'i' else FOLDX
        bd = subst(G, {y: fx})
        dd = bd.depth + 1
        bd = subst(bd, {k: topoly(bv(dd))})
        return topoly(atom('fold', (kp, init, so, dd, bd), so))

    def recurrence(self, lf, G, y, init, k, idx, p):
        """x[k + a] = x[k + a - 1] + d(k), once per iteration: a running sum"""
        w = self.guarded(G, y)
        if w is None or len(idx) != 1:
            return None
        c, v = w
        if c.op != 'cmp' or c.args[0] != 'eq' or not isinstance(v, P):
            return None
        ks = self.unique_k(c, k, p)
        if ks is None:
            return None
        a = topoly(p) - ks
        if mentions(a, k) or mentions(a, p) or self.sym_in(lf, syms(a)):
            return None
        kp = topoly(k)
        if c is not eq(topoly(p), kp + a) and c is not eq(kp + a, topoly(p)):
            return None
        reads = set()
        collect_elems(v, lf.name, reads)
        if len(reads) != 1:
            return None
        r = next(iter(reads))
        if r.hasbv or len(r.args) != 2 or not peq(r.args[1], kp + a - 1):
            return None
        d = v - topoly(r)
        if self.sym_in(lf, syms(d)) or y in syms(d) or mentions(d, p):
            return None
        z = self.elem_of(lf.init, a - 1)
        if not isinstance(z, P):
            return None
        q = fresh_bv()
        run = sum_(q, ks + 1, subst(d, {k: topoly(q)}))
        return ite(and_(ge(ks, 0), lt(ks, kp)), z + run, init)

    def piecewise(self, lf, G, y, init, k, idx, p):
        """split the iterations into the regions that the conditions on k alone distinguish; in each region the element is
        written at most once, by a known iteration"""
        if len(idx) != 1 or not G.exact:
            return None
        conds = []
        seen = set()

        def collect(x):
            if id(x) in seen:
                return
            seen.add(id(x))
            if isinstance(x, P):
                for a in atoms_of(x):
                    collect(a)
            elif isinstance(x, B):
                if x.op == 'cmp' and mentions(x, k) and not mentions(x, y) and not mentions(x, p):
                    if not any(a.op == 'ite' for a in atoms_of(x.args[1])):
                        conds.append(x)
                        return
                for z in x.args:
                    collect(z)
            elif isinstance(x, Atom):
                if x.op == 'ite':
                    for z in x.args:
                        collect(z)
                elif x.op == 'elem':
                    for z in x.args[1:]:
                        collect(z)
        collect(G)
        conds.sort(key=lambda b: b.id)
        if not conds or len(conds) > 10:
            return None
        kp = topoly(k)
        facts = self.cur_facts + [ge(kp, 0)]
        if self.N is not None:
            facts = facts + [lt(kp, self.N)]
        regions = []

        def split(i, R, tbl):
            if len(regions) > 8:
                return
            if i == len(conds):
                regions.append((R, dict(tbl)))
                return
            for b, v in ((conds[i], TRUE), (not_(conds[i]), FALSE)):
                if v is FALSE and entails(facts + R, conds[i]) or v is TRUE and entails(facts + R, not_(conds[i])):
                    continue
                tbl[conds[i]] = v
                split(i + 1, R + [b], tbl)
                del tbl[conds[i]]
        split(0, [], {})
        if not regions or len(regions) > 8:
            return None
        writes = []
        for R, tbl in regions:
            Gi = with_conds(G, tbl)
            w = self.guarded(Gi, y)
            if w is None:
                if Gi is topoly(y):
                    continue
                w = (TRUE, Gi)
            c, v = w
            if c is FALSE:
                continue
            if self.sym_in(lf, syms(c)):
                return None
            c = with_conds(c, tbl)
            cr = and_(c, *R)
            ks = self.unique_k(cr, k, p)
            if ks is None:
                return None
            if peq_elem(v, lf.name, ks, k, p):
                continue            # stores the element's own value
            writes.append([R, cr, v, ks])
        rep = {}
        k2 = fresh_bv()
        k2p = topoly(k2)
        for R, cr, v, ks in writes:
            reads = set()
            collect_elems(v, lf.name, reads)
            for r in sorted(reads, key=lambda r: r.id):
                if r.hasbv or len(r.args) != 2:
                    return None
                h = r.args[1]
                if subst(h, {k: ks}) is topoly(p):
                    z = topoly(y)
                else:
                    fs = facts + [cr, ge(k2p, 0), lt(k2p, kp)]
                    fs = fs + self.products(cr, fs, k, k2p, topoly(p) - h)
                    for _, c2, _, _ in writes:
                        if not entails(fs, not_(subst(subst(c2, {k: k2p}), {p: h}))):
                            return None
                    z = self.elem_of(lf.init, h)
                    if not isinstance(z, P):
                        return None
                if rep.setdefault(r, z) is not z:
                    return None
        ws = []
        for R, cr, v, ks in writes:
            v = replace_atoms(v, rep)
            v = subst(subst(v, {k: ks}), {y: init})
            if self.sym_in(lf, syms(v)):
                return None
            ws.append((ks, and_(ge(ks, 0), lt(ks, kp), subst(cr, {k: ks})), v, cr))
        r = init
        for i, (ks, g, v, cr) in enumerate(ws):
            later = []
            for j, (k3, g2, _, c2) in enumerate(ws):
                if j == i:
                    continue
                if y in syms(v):
                    return None
                # both valid: the later one wins
                later.append(and_(g2, gt(k3, ks)))
            r = ite(and_(g, *[not_(x) for x in later]), v, r)
        return r

    def resolve_reads(self, lf, G, y, init, k, idx, p):
        """reads of other elements of the carried sequence: allowed when not written in an earlier iteration"""
        s = syms(G)
        if not self.sym_in(lf, s):
            return G
        w = self.guarded(G, y)
        if w is None:
            return None
        c, v = w
        if self.sym_in(lf, syms(c)):
            return None
        kp = topoly(k)
        rep = {}
        k2 = fresh_bv()
        k2p = topoly(k2)
        for ci in (c.args if c.op == 'or' else (c,)):
            vi = v
            if c.op == 'or':
                for x in (ci.args if ci.op == 'and' else (ci,)):
                    vi = assume_in(vi, x)
            reads = set()
            collect_elems(vi, lf.name, reads)
            ks = None
            for r in sorted(reads, key=lambda r: r.id):
                if r.hasbv or len(r.args) != len(idx) + 1:
                    return None
                if len(idx) != 1:
                    return None
                h = r.args[1]
                if ks is None:
                    ks = self.unique_k(ci, k, p) or False
                if ks is not False and subst(h, {k: ks}) is topoly(p):
                    z = topoly(y)      # the element itself, at its iteration
                else:
                    # position h at iteration k must not have been written at k2 < k
                    w2 = subst(subst(c, {k: k2p}), {p: h})
                    facts = self.cur_facts + [ci, ge(k2p, 0), lt(k2p, kp)]
                    if self.N is not None:
                        facts = facts + [lt(kp, self.N)]
                    cn = not_(w2)
                    if not entails(facts, cn) and not entails(facts + self.products(ci, facts, k, k2p, topoly(p) - h), cn):
                        if not self.block_disjoint(facts, w2, h):
                            return None
                    z = self.elem_of(lf.init, h)
                    if not isinstance(z, P):
                        return None
                if rep.setdefault(r, z) is not z:
                    return None
        reads = set()
        collect_elems(G, lf.name, reads)
        if any(r not in rep for r in reads):
            return None
        return replace_atoms(G, rep)

    def products(self, c, facts, k, k2p, diff):
        """products of facts that linear reasoning about places needs"""
        out = []
        for b in (c.args if c.op == 'and' else (c,)):
            if b.op != 'cmp':
                continue
            m, _ = self.lin(b.args[1], k)
            if m is None or not m.m:
                continue
            for m in (m, -m):
                if entails(self.cur_facts, ge(m, 0)):
                    out.append(ge(m * (topoly(k) - k2p - 1), 0))
        for mono, _c in diff.m:
            if len(mono) > 1 and all(entails(facts, ge(topoly(_ids[aid]), 0)) for aid, _ in mono):
                out.append(ge(_mk({mono: Fr(1)}), 0))
        return out

    def block_disjoint(self, facts, w2, h):
        return False

    def elem_of(self, seq, i):
        v = elem(seq, i, self.cur_facts)
        while isinstance(v, N) and v.k == 'struct' and len(v.args[1]) == 1:
            v = v.args[1][0][1]
        return v

    # ------------------------------------------------------------ give up on one location
    def havoc(self, lf, kp, s0):
        v = lf.sym
        nm = self.fresh()
        if isinstance(v, P):
            return topoly(atom('unk', (-nm, 'loop-carried', kp), as_atom(v).sort))
        if isinstance(v, B):
            return batom('bunk', -nm, 'loop-carried', kp)
        if v.k == 'iter':
            return node('iter', v.args[0], '', topoly(atom('unk', (-nm, 'loop-carried', kp), 'i')))
        if v.k == 'mih':
            return node('mih', v.args[0], v.args[1], v.args[2], topoly(atom('unk', (-nm, 'loop-carried', kp), 'i')))
        if v.k == 'sseq':
            F = lf.F
            ln = topoly(atom('unk', (-nm, 'loop-carried length', kp), 'i'))
            try:
                if F is not None and peq(length(F), length(lf.sym)) and isinstance(lf.init, N):
                    ln = length(lf.init)
            except Exception:
                pass
            return sseq('unk!%d' % nm, (kp,), v.args[2], ln)
        return unkv('loop-carried', lf.t)


def F_sort(lf):
    et = lf.sym.args[2]
    while kind(et) == 'seq':
        et = targs(et)[1][0]
    if kind(et) == 'int':
        return 'i'
    if kind(et) == 'rec':
        r = PROG[0].all_fields(base_t(et)) if PROG[0] else []
        if len(r) == 1:
            t = r[0][2]
            while kind(t) == 'seq':
                t = targs(t)[1][0]
            return 'i' if kind(t) == 'int' else 'r'
    return 'r'


def collect_elems(x, name, acc, seen=None):
    if seen is None:
        seen = set()
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, Atom):
        if x.op == 'elem' and x.args[0] == name:
            acc.add(x)
        for y in _flat(x.args):
            if isinstance(y, (P, B, Atom, N)):
                collect_elems(y, name, acc, seen)
    elif isinstance(x, P):
        for mono, _ in x.m:
            for aid, _p in mono:
                collect_elems(terms._ids[aid], name, acc, seen)
    elif isinstance(x, (B, N)):
        for y in _flat(x.args):
            if isinstance(y, (P, B, Atom, N)):
                collect_elems(y, name, acc, seen)


def with_conds(x, tbl):
    """x under the truth values tbl of some conditions"""
    memo = {}

    def fb(b):
        v = tbl.get(b)
        if v is not None:
            return v
        v = tbl.get(not_(b))
        if v is not None:
            return not_(v)
        if b.op == 'cmp':
            q = fp(b.args[1])
            return b if q is b.args[1] else cmp_(b.args[0], q)
        if b.op == 'not':
            return not_(fb(b.args[0]))
        if b.op in ('and', 'or'):
            return (and_ if b.op == 'and' else or_)(*[fb(z) for z in b.args])
        return b

    def fp(q):
        if q in memo:
            return memo[q]
        rep = {}
        for a in atoms_of(q):
            if a.op == 'ite':
                rep[a] = ite(fb(a.args[0]), fp(a.args[1]), fp(a.args[2]))
            elif a.op == 'elem' and isinstance(a.args[0], str):
                z = tuple(fp(t) if isinstance(t, P) else t for t in a.args[1:])
                if z != a.args[1:]:
                    rep[a] = topoly(atom('elem', (a.args[0],) + z, a.sort))
            elif a.op == 'recip':
                pass
        memo[q] = subst_top(q, rep) if rep else q
        return memo[q]
    return fp(x) if isinstance(x, P) else fb(x)


def peq_elem(v, name, ks, k, p):
    """v is element p of the sequence itself (at iteration ks)"""
    if len(v.m) != 1 or v.m[0][1] != 1 or len(v.m[0][0]) != 1 or v.m[0][0][0][1] != 1:
        return False
    a = terms._ids[v.m[0][0][0][0]]
    return a.op == 'elem' and a.args[0] == name and len(a.args) == 2 and subst(a.args[1], {k: ks}) is topoly(p)


def replace_atom(x, a, v):
    return replace_atoms(x, {a: v})


def replace_atoms(x, rep):
    """replace arbitrary atoms (not only symbols)"""
    return subst(x, rep)


def _subst_lenatom(v, a, ln, name):
    return subst(v, {a: ln})


# late imports to avoid a cycle
def _late():
    global Out_, DeadExc, State_
    from .interp import Out, Dead, State
    Out_, DeadExc, State_ = Out, Dead, State


Out_ = DeadExc = State_ = None
