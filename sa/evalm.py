"""Evaluates summary terms at a chosen assignment of the free symbols.

Used only to show that two closed forms differ: an assignment under which every recorded guard is true and the stated
relation is false.  Terms are evaluated, not programs; a term containing anything not exactly modelled is never used.
"""
from fractions import Fraction as Fr
import math, random, time
from .terms import *
from . import terms
from .terms import _ids, _flat
from .values import is_seq, fields, length, elem
from .dom import Ctx, deep_atoms


class Stop(Exception):
    """cannot be evaluated at this assignment"""


class Model:
    def __init__(self, rnd, defs, consts=()):
        self.r = rnd
        self.consts = consts
        self.v = {}
        self.seqs = {}
        self.lens = {}
        self.defs = defs
        self.busy = set()
        self.env = []
        self.fuel = 60000

    # ---------------------------------------------------------------- free symbols
    def int_(self):
        return Fr(self.r.choice((0, 1, 1, 2, 2, 2, 3, 3, 4, 5)))

    def real(self):
        return Fr(self.r.choice((-3, -2, -1, 0, 1, 2, 3, 4, 5)), self.r.choice((1, 1, 2, 3)))

    def sym(self, a):
        if a in self.v:
            return self.v[a]
        if a in self.defs and a not in self.busy:
            self.busy.add(a)
            try:
                x = self.p(self.defs[a])
            finally:
                self.busy.discard(a)
            self.v[a] = x
            return x
        if a.op == 'len':
            self.v[a] = Fr(self.r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)))
        elif a.sort == 'i':
            self.v[a] = self.int_()
        else:
            # reals often coincide with stored elements
            pool = [x for s in self.seqs.values() for x in s]
            x = self.r.choice(pool) if pool and self.r.random() < .6 else self.real()
            if self.consts and self.r.random() < .3:
                x = x + self.r.choice(self.consts) * self.r.choice((1, -1, Fr(1, 2), Fr(-1, 2), 2))
            self.v[a] = x
        return self.v[a]

    def element(self, name, idx, sort):
        if name in Ctx.sorted_seqs and len(idx) == 1:
            s = self.seqs.get(name)
            if s is None:
                la = atom('len', (name,), 'i')
                n = int(self.sym(la))
                s = self.sorted(n)
                self.seqs[name] = s
            i = int(idx[0])
            if 0 <= i < len(s):
                return s[i]
            raise Stop('element outside')
        la = terms._intern.get(('A', 'len', (name,), 'i'))
        if len(idx) == 1 and la is not None and la in self.v and not 0 <= idx[0] < self.v[la]:
            raise Stop('element outside')
        key = ('e', name, idx)
        if key not in self.v:
            self.v[key] = self.int_() if sort == 'i' else self.real()
        return self.v[key]

    def sorted(self, n):
        mode = self.r.random()
        base = self.real()
        if mode < .7 and n >= 4:
            p = self.r.randrange(0, n // 2)
            inner = sorted(Fr(self.r.randrange(1, 12), 4) for _ in range(n - 2 * (p + 1)))
            s = [base] * (p + 1) + [base + x for x in inner] + [base + 3] * (p + 1)
        else:
            s = sorted(base + Fr(self.r.randrange(0, 8), 2) for _ in range(n))
        if self.consts and n and self.r.random() < .25:
            i = self.r.randrange(0, n)
            s[i] = s[i] + self.r.choice(self.consts) * self.r.choice((1, -1, Fr(1, 2), Fr(-1, 2)))
            s.sort()
        return s

    # ---------------------------------------------------------------- terms
    def p(self, x):
        t = Fr(0)
        for mono, c in x.m:
            f = c
            for aid, pw in mono:
                a = self.a(_ids[aid])
                f = f * a ** pw
            t = t + f
        return t

    def ival(self, x):
        v = self.p(x)
        if isinstance(v, float) or v.denominator != 1:
            raise Stop('non-integer')
        return int(v)

    def look(self, d):
        for k, v in reversed(self.env):
            if k == d:
                return v
        raise Stop('unbound')

    def a(self, a):
        self.fuel -= 1
        if self.fuel < 0:
            raise Stop('fuel')
        op, g = a.op, a.args
        if op == 'bv':
            return self.look(g[0])
        if op == 'sym':
            if g[0] in ('fold!x', 'fold!xi'):
                return self.look('fold')
            return self.sym(a)
        if not a.exact:
            raise Stop('inexact')
        if op == 'len':
            if len(g) > 1:
                key = ('l', g[0], tuple(self.p(x) if isinstance(x, P) else x for x in g[1:]))
                if key not in self.v:
                    self.v[key] = Fr(self.r.randrange(0, 5))
                return self.v[key]
            return self.sym(a)
        if op == 'elem':
            if not isinstance(g[0], str):
                raise Stop('elem')
            idx = tuple(self.p(x) if isinstance(x, P) else x for x in g[1:])
            return self.element(g[0], idx, a.sort)
        if op == 'ite':
            return self.p(g[1]) if self.b(g[0]) else self.p(g[2])
        if op == 'b2i':
            return Fr(1 if self.b(g[0]) else 0)
        if op == 'inv':
            v = self.p(g[0])
            if v == 0:
                raise Stop('division by zero')
            return Fr(1) / v
        if op == 'abs':
            return abs(self.p(g[0]))
        if op in ('idiv', 'imod'):
            x, y = self.ival(g[0]), self.ival(g[1])
            if y == 0:
                raise Stop('division by zero')
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1)
            return Fr(q if op == 'idiv' else x - q * y)
        if op == 'digit':
            d, r, lens = g
            r = self.ival(r)
            ls = [self.ival(x) for x in lens]
            tot = 1
            for x in ls:
                tot *= x
            if tot <= 0:
                raise Stop('empty multi index')
            r %= tot
            for j in range(d):
                r //= ls[j]
            return Fr(r % ls[d])
        if op in ('sum', 'prod'):
            n, d, body = g
            t = Fr(0) if op == 'sum' else Fr(1)
            for i in range(self.bound(n)):
                self.env.append((d, Fr(i)))
                try:
                    y = self.p(body)
                finally:
                    self.env.pop()
                t = t + y if op == 'sum' else t * y
            return t
        if op == 'first':
            n, d, c = g
            n = self.bound(n)
            for i in range(n):
                if self.at(d, i, lambda: self.b(c)):
                    return Fr(i)
            return Fr(n)
        if op == 'whl':
            d, c = g
            for i in range(200):
                if self.at(d, i, lambda: self.b(c)):
                    return Fr(i)
            raise Stop('unbounded')
        if op == 'lastw':
            n, dflt, d, (c, v) = g
            for i in range(self.bound(n) - 1, -1, -1):
                if self.at(d, i, lambda: self.b(c)):
                    return self.at(d, i, lambda: self.p(v))
            return self.p(dflt)
        if op == 'fold':
            n, init, so, d, body = g
            x = self.p(init)
            for i in range(self.bound(n)):
                self.env.append((d, Fr(i)))
                self.env.append(('fold', x))
                try:
                    x = self.p(body)
                finally:
                    self.env.pop()
                    self.env.pop()
            return x
        if op in ('ub', 'lb'):
            s, v, n = g
            v = self.p(v)
            n = self.bound(n)
            for i in range(n):
                e = self.element(s, (Fr(i),), 'r')
                if (v < e) if op == 'ub' else not e < v:
                    return Fr(i)
            return Fr(n)
        if op == 'fn':
            name = g[0]
            v = [self.p(x) for x in g[1:]]
            if name == 'sqrt':
                if v[0] < 0:
                    raise Stop('sqrt')
                s = math.isqrt(int(v[0])) if v[0] == int(v[0]) else None
                if s is not None and s * s == v[0]:
                    return Fr(s)
                return math.sqrt(v[0])
            if name == 'trunc':
                return Fr(math.trunc(v[0]))
            if name == 'ceil':
                return Fr(math.ceil(v[0]))
            if name == 'floor':
                return Fr(math.floor(v[0]))
            if name == 'pow':
                if v[1].denominator == 1 and abs(v[1]) < 20 and not (v[0] == 0 and v[1] < 0):
                    return v[0] ** int(v[1])
                raise Stop('pow')
            return self.uf(a, ('fn', name) + tuple(v))
        if op in ('ocall',):
            return self.uf(a, ('oc',) + tuple(self.key(x) for x in g))
        raise Stop('term ' + op)

    def uf(self, a, key):
        if key not in self.v:
            if a.sort == 'b':
                self.v[key] = self.r.random() < .5
            else:
                self.v[key] = self.int_() if a.sort == 'i' else self.real()
        return self.v[key]

    def at(self, d, i, f):
        self.env.append((d, Fr(i)))
        try:
            return f()
        finally:
            self.env.pop()

    def bound(self, n):
        n = self.ival(n)
        if n > 400:
            raise Stop('large')
        return n

    def key(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, B):
            return self.b(x)
        if isinstance(x, Atom):
            return self.a(x)
        if isinstance(x, N):
            if x.k == 'unkv':
                raise Stop('inexact')
            if is_seq(x):
                n = self.bound(length(x))
                return ('seq',) + tuple(self.key(elem(x, num(i))) for i in range(n))
            if x.k == 'site':
                return self.key(x.args[1]) if self.b(x.args[0]) else self.key(x.args[2])
            return (x.k,) + tuple(self.key(y) for y in x.args)
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def b(self, b):
        op = b.op
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if op == 'cmp':
            rel, p = b.args
            v = self.p(p)
            if isinstance(v, float):
                if abs(v) < 1e-9:
                    raise Stop('rounding')
            return v >= 0 if rel == 'ge' else v > 0 if rel == 'gt' else v == 0
        if op == 'not':
            return not self.b(b.args[0])
        if op in ('and', 'or'):
            stop = None
            for x in b.args:
                try:
                    if self.b(x) == (op == 'or'):
                        return op == 'or'
                except Stop as e:
                    if str(e) in ('fuel', 'inexact'):
                        raise
                    stop = e
            if stop is not None:
                raise stop
            return op == 'and'
        if op == 'atom':
            a = b.args[0]
            if a.op in ('forall', 'exists'):
                n, d, body = a.args
                r = (self.at(d, i, lambda: self.b(body)) for i in range(self.bound(n)))
                return all(r) if a.op == 'forall' else any(r)
            if not a.exact:
                raise Stop('inexact')
            if a.op in ('bsym', 'belem'):
                key = ('b',) + tuple(self.key(x) for x in a.args)
                return self.uf(a, key)
            if a.op == 'ocall':
                return self.uf(a, ('oc',) + tuple(self.key(x) for x in a.args))
            raise Stop('bool ' + a.op)
        raise Stop('bool ' + op)


def definitions(facts):
    """orient equalities over integers as definitions of free symbols"""
    defs = {}
    for f in facts:
        if f.op == 'cmp' and f.args[0] == 'eq':
            p = f.args[1]
            best = None
            for mono, c in p.m:
                if len(mono) == 1 and mono[0][1] == 1:
                    a = _ids[mono[0][0]]
                    if a.op in ('sym', 'len') and a not in defs and (a.op != 'len' or len(a.args) == 1):
                        rest = p - terms._mk({mono: c})
                        if a in deep_atoms(rest):
                            continue
                        d = pscale(rest, Fr(-1) / c)
                        if cyc(a, d, defs):
                            continue
                        rank = 0 if a.op == 'len' else 1
                        if best is None or rank < best[0]:
                            best = (rank, a, d)
            if best:
                defs[best[1]] = best[2]
    return defs


def constants(xs):
    """small constants a comparison may hinge on (tolerances)"""
    out, seen = set(), set()
    todo = list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if not isinstance(x, (P, B, Atom, N)) or x in seen:
            continue
        seen.add(x)
        if isinstance(x, P):
            cs = [abs(c) for _, c in x.m if c]
            lo = [abs(c) for m, c in x.m if m == ()]
            for c in lo:
                big = max(cs)
                if 0 < c < Fr(1, 10):
                    out.add(c)
                elif len(cs) > 1:
                    for o in cs:
                        if o and 0 < Fr(c) / o < Fr(1, 10):
                            out.add(Fr(c) / o)
            for m, _ in x.m:
                for aid, _p in m:
                    todo.append(_ids[aid])
        else:
            todo.extend(x.args)
    return out


def cyc(a, d, defs, seen=None):
    seen = seen or set()
    for x in deep_atoms(d):
        if x is a:
            return True
        if x in defs and x not in seen:
            seen.add(x)
            if cyc(a, defs[x], defs, seen):
                return True
    return False


class Repair(Model):
    """local search: starts anywhere and changes free symbols until every guard is true and the relation false"""

    def __init__(self, rnd, defs, consts=()):
        super().__init__(rnd, defs, consts)
        self.dv = {}
        self.unary = {}

    def sym(self, a):
        if a in self.defs:
            if a in self.dv:
                return self.dv[a]
            if a in self.busy:
                raise Stop('cyclic')
            self.busy.add(a)
            try:
                x = self.p(self.defs[a])
            finally:
                self.busy.discard(a)
            self.dv[a] = x
            return x
        if a in self.v:
            return self.v[a]
        if a.op == 'len':
            self.v[a] = Fr(self.r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8)))
            return self.v[a]
        return super().sym(a)

    def element(self, name, idx, sort):
        if any(isinstance(x, float) or x.denominator != 1 for x in idx if not isinstance(x, str)):
            raise Stop('index')
        la = atom('len', (name,), 'i')
        n = None
        if len(idx) == 1 and (la in self.v or la in self.defs):
            n = int(self.sym(la))
        if name in Ctx.sorted_seqs and len(idx) == 1:
            if n is None:
                n = int(self.sym(la))
            s = self.seqs.get(name)
            if s is None:
                if n > 60:
                    raise Stop('large')
                s = self.seqs[name] = self.sorted(max(n, 0))
            while len(s) < n and n <= 60:
                s.append((s[-1] if s else Fr(0)) + self.r.choice((0, 0, 1)))
            i = int(idx[0])
            if 0 <= i < min(n, len(s)):
                return s[i]
            raise Stop('element outside')
        if n is not None and not 0 <= idx[0] < n:
            raise Stop('element outside')
        key = ('e', name, idx)
        if key not in self.v:
            self.v[key] = self.int_() if sort == 'i' else self.real()
        return self.v[key]

    def changed(self):
        self.dv = {}

    def set_elem(self, name, idx, sort, val):
        if sort == 'i' and val.denominator != 1:
            return False
        self.element(name, idx, sort)
        if name in Ctx.sorted_seqs and len(idx) == 1:
            s, i = self.seqs[name], int(idx[0])
            s[i] = val
            for j in range(i):
                s[j] = min(s[j], val)
            for j in range(i + 1, len(s)):
                s[j] = max(s[j], val)
        else:
            self.v[('e', name, idx)] = val
        self.changed()
        return True

    def set_atom(self, a, val, depth):
        if depth > 12 or isinstance(val, float):
            return False
        op, g = a.op, a.args
        if op == 'sym' or (op == 'len' and len(g) == 1):
            if op == 'sym' and g[0] in ('fold!x', 'fold!xi'):
                return False
            if a.sort == 'i' and (val.denominator != 1 or abs(val) > 40):
                return False
            if op == 'len' and val < 0:
                return False
            if a in self.defs:
                return self.set_poly(self.defs[a], val, depth + 1)
            old = self.v.get(a)
            self.v[a] = val
            for f in self.unary.get(a, ()):
                if not self.b(f):
                    if old is None:
                        self.v.pop(a)
                    else:
                        self.v[a] = old
                    return False
            self.changed()
            return True
        if op == 'elem' and isinstance(g[0], str):
            idx = tuple(self.p(x) if isinstance(x, P) else x for x in g[1:])
            return self.set_elem(g[0], idx, a.sort, val)
        if op == 'abs':
            return val >= 0 and self.set_poly(g[0], val * self.r.choice((1, -1)), depth + 1)
        if op == 'ite':
            return self.set_poly(g[1] if self.b(g[0]) else g[2], val, depth + 1)
        if op == 'idiv':
            if val.denominator != 1:
                return False
            return self.set_poly(g[0], val * self.p(g[1]), depth + 1)
        if op == 'imod':
            return self.set_poly(g[0], self.p(g[0]) - self.a(a) + val, depth + 1)
        if op == 'inv':
            return val != 0 and self.set_poly(g[0], 1 / Fr(val), depth + 1)
        if op == 'sum':
            n, d, body = g
            n = self.bound(n)
            if n <= 0:
                return False
            i = self.r.randrange(n)
            delta = val - self.a(a)
            return self.at(d, i, lambda: self.set_poly(body, self.p(body) + delta, depth + 1))
        return False

    def set_poly(self, p, target, depth=0):
        v = self.p(p)
        if isinstance(v, float):
            return False
        delta = target - v
        if delta == 0:
            return True
        cand = {}
        for mono, c in p.m:
            for aid, pw in mono:
                cand.setdefault(aid, []).append((mono, c, pw))
        ids = list(cand)
        self.r.shuffle(ids)
        for aid in ids:
            if any(pw != 1 for _, _, pw in cand[aid]):
                continue
            co = Fr(0)
            for mono, c, _ in cand[aid]:
                f = c
                for a2, pw in mono:
                    if a2 != aid:
                        f = f * self.a(_ids[a2]) ** pw
                co = co + f
            if co == 0 or isinstance(co, float):
                continue
            a = _ids[aid]
            if self.set_atom(a, self.a(a) + delta / co, depth + 1):
                return True
        return False

    def repair(self, b, want, depth=0):
        if depth > 12:
            return False
        op = b.op
        if op == 'not':
            return self.repair(b.args[0], not want, depth)
        if op in ('and', 'or'):
            if (op == 'and') == want:
                ok = True
                for x in b.args:
                    try:
                        if self.b(x) != want:
                            ok = self.repair(x, want, depth + 1) and ok
                    except Stop:
                        ok = self.repair(x, want, depth + 1) and ok
                return ok
            xs = list(b.args)
            self.r.shuffle(xs)
            for x in xs[:4]:
                if self.repair(x, want, depth + 1):
                    return True
            return False
        if op == 'cmp':
            rel, p = b.args
            steps = [Fr(1), Fr(2)] if isint(p) else [Fr(1), Fr(1, 2), Fr(1, 8), Fr(3), Fr(1, 64)] + self.r.sample(self.consts, min(2, len(self.consts)))
            self.r.shuffle(steps)
            if rel == 'eq':
                ts = [Fr(0)] if want else [x * self.r.choice((1, -1)) for x in steps]
            elif rel == 'ge':
                ts = ([Fr(0)] + steps) if want else [-x for x in steps]
            else:
                ts = steps if want else [Fr(0)] + [-x for x in steps]
            for t in ts[:5]:
                if self.set_poly(p, t):
                    return True
            return False
        if op == 'atom':
            a = b.args[0]
            if a.op in ('forall', 'exists'):
                n, d, body = a.args
                nn = self.bound(n)
                if (a.op == 'forall') == want:
                    ok = True
                    for i in range(nn):
                        def one():
                            try:
                                if self.b(body) == want:
                                    return True
                            except Stop:
                                pass
                            return self.repair(body, want, depth + 1)
                        ok = self.at(d, i, one) and ok
                    return ok
                if nn <= 0:
                    if not self.set_poly(n, Fr(self.r.choice((1, 2, 3)))):
                        return False
                    nn = self.bound(n)
                if nn <= 0:
                    return False
                i = self.r.randrange(nn)
                return self.at(d, i, lambda: self.repair(body, want, depth + 1))
            if a.op in ('bsym', 'belem'):
                self.v[('b',) + tuple(self.key(x) for x in a.args)] = want
                return True
            if a.op == 'ocall':
                self.v[('oc',) + tuple(self.key(x) for x in a.args)] = want
                return True
        return False


def repair_search(facts, goal, defs, consts, rnd, secs, steps=10 ** 9):
    t0 = time.process_time()
    todo = [(f, True) for f in facts] + [(g, False) for g in (goal.args if goal.op == 'or' else (goal,))]
    n = 0
    why = {}
    unary = {}
    for f in facts:
        if f.op == 'cmp' and len(syms(f)) == 1:
            for a in syms(f):
                if isinstance(a, Atom):
                    unary.setdefault(a, []).append(f)
    while time.process_time() - t0 < secs:
        n += 1
        m = Repair(rnd, defs, consts)
        m.unary = unary
        for step in range(12 + 8 * (n % 4)):
            if time.process_time() - t0 > secs:
                break
            steps -= 1
            if steps < 0:
                return None, {'restarts': n}
            m.fuel = 60000
            bad = []
            for x in todo:
                try:
                    if m.b(x[0]) != x[1]:
                        bad.append(x)
                except Stop as e:
                    why[str(e)] = why.get(str(e), 0) + 1
                    bad.append(x)
                except (OverflowError, ZeroDivisionError, RecursionError):
                    bad.append(x)
            if not bad:
                return m, {'restarts': n}
            x = rnd.choice(bad[:4])
            m.fuel = 60000
            try:
                ok = m.repair(*x)
            except Stop as e:
                ok = False
            except (OverflowError, ZeroDivisionError, RecursionError):
                ok = False
            m.env = []
            if not ok and rnd.random() < .5:
                ks = [k for k in m.v if isinstance(k, Atom)]
                if ks:
                    k = rnd.choice(ks)
                    m.v.pop(k)
                    m.changed()
    return None, {'restarts': n, 'why': dict(sorted(why.items(), key=lambda z: -z[1])[:4])}


def witness(facts, goal, trials=4000, secs=6.0, seed=1):
    """an assignment making every fact true and the goal false, or None"""
    if not goal.exact:
        return None
    facts = [f for f in facts if f is not TRUE]
    if any(not f.exact for f in facts):
        return None
    defs = definitions(facts)
    rnd = random.Random(seed)
    t0 = time.process_time()
    stats = {'ok': 0, 'stop': 0, 'skip': 0, 'why': {}}
    consts = sorted(constants(facts + [goal]))[:12]
    facts = sorted(facts, key=lambda f: (not (f.op == 'cmp'), f.depth))
    for _ in range(trials):
        if time.process_time() - t0 > secs * .35:
            break
        m = Model(rnd, defs, consts)
        try:
            if not all(m.b(f) for f in facts):
                stats['skip'] += 1
                continue
            if m.b(goal) is False:
                return m, stats
            stats['ok'] += 1
        except Stop as e:
            stats['stop'] += 1
            stats['why'][str(e)] = stats['why'].get(str(e), 0) + 1
        except (OverflowError, ZeroDivisionError, RecursionError):
            stats['stop'] += 1
    m, st = repair_search(facts, goal, defs, consts, rnd, max(secs - (time.process_time() - t0), .5))
    stats.update(st)
    return m, stats


def show_model(m):
    out = []
    for k, v in m.v.items():
        if isinstance(k, Atom):
            out.append('%r=%s' % (k, v))
        elif isinstance(k, tuple) and k[0] == 'e':
            out.append('%s[%s]=%s' % (k[1], ','.join(map(str, k[2])), v))
    for k, s in m.seqs.items():
        out.append('%s=(%s)' % (k, ' '.join(map(str, s))))
    return ', '.join(sorted(out))[:600]
