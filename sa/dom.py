"""Linear-inequality domain: entailment between guards.

`unsat(fs)` decides (incompletely, but soundly for True) that a conjunction of guards is contradictory, by case analysis
over its boolean structure and Fourier-Motzkin elimination over the monomials.  It never looks at program text.
"""
from .terms import *
from .terms import _ids, _mk, _flat, _b
from fractions import Fraction as Fr
import time

LIMIT_CASES = 260
LIMIT_ROWS = 420
LIMIT_SECS = 8.0


STATS = {'budget': 0}


class Budget(Exception):
    pass


class Ctx:
    """axiom providers registered by the interpreter"""
    seq_axioms = []      # functions atoms -> list of B
    sorted_seqs = set()


def deep_atoms(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, Atom):
        if x in acc or x.hasbv:
            return acc
        acc.add(x)
        if x.op in BINDERS:
            for y in _flat(x.args[:1]):
                deep_atoms(y, acc)
            return acc
        for y in _flat(x.args):
            deep_atoms(y, acc)
    elif isinstance(x, P):
        for mono, _ in x.m:
            for aid, _p in mono:
                deep_atoms(_ids[aid], acc)
    elif isinstance(x, B):
        for y in _flat(x.args):
            deep_atoms(y, acc)
    return acc


def axioms(atoms):
    out = []
    elems = {}
    for a in atoms:
        if a.hasbv:
            continue
        t = topoly(a)
        if a.op == 'len':
            out.append(ge(t, 0))
        elif a.op == 'abs':
            q = a.args[0]
            out.append(ge(t, 0))
            out.append(ge(t, q))
            out.append(ge(t, -q))
            out.append(or_(and_(ge(q, 0), eq(t, q)), and_(lt(q, 0), eq(t, -q))))
        elif a.op == 'imod':
            x, y = a.args
            out.append(implies(and_(ge(x, 0), ge(y, 1)), and_(ge(t, 0), lt(t, y))))
        elif a.op == 'idiv':
            x, y = a.args
            out.append(implies(and_(ge(x, 0), ge(y, 1)), and_(ge(t, 0), ge(x, t * y), lt(x, t * y + y))))
        elif a.op == 'digit':
            d, r, lens = a.args
            out.append(implies(ge(lens[d], 1), and_(ge(t, 0), lt(t, lens[d]))))
        elif a.op == 'first':
            n = a.args[0]
            out.append(ge(t, 0))
            out.append(implies(ge(n, 0), le(t, n)))
        elif a.op == 'fn' and a.args[0] in ('sqrt', 'norm'):
            out.append(ge(t, 0))
        elif a.op == 'ub' or a.op == 'lb':
            s, v, n = a.args
            out.append(ge(t, 0))
            out.append(le(t, n))
            rel = (lambda x, y: le(x, y)) if a.op == 'ub' else (lambda x, y: lt(x, y))
            for b in atoms:
                if b.op == 'elem' and b.args[0] == s and len(b.args) == 2 and isinstance(b.args[1], P):
                    i = b.args[1]
                    out.append(implies(and_(ge(i, 0), lt(i, t)), rel(topoly(b), v)))
                    out.append(implies(and_(ge(i, t), lt(i, n)), not_(rel(topoly(b), v))))
        elif a.op == 'cnt':
            s, v, n = a.args
            out.append(ge(t, 0))
            out.append(le(t, n))
        elif a.op == 'ite':
            c, x, y = a.args
            # written out: eq() would turn a choice between constants back into its condition
            out.append(or_(and_(c, _b('cmp', ('eq', t - x))), and_(not_(c), _b('cmp', ('eq', t - y)))))
        if a.op == 'elem' and len(a.args) == 2 and isinstance(a.args[0], str) and a.args[0] in Ctx.sorted_seqs:
            elems.setdefault(a.args[0], []).append(a)
    for s, es in elems.items():
        for i in range(len(es)):
            for j in range(i + 1, len(es)):
                x, y = es[i], es[j]
                d = y.args[1] - x.args[1]
                c = const(d)
                if c is not None:
                    if c >= 0:
                        out.append(le(topoly(x), topoly(y)))
                    if c <= 0:
                        out.append(le(topoly(y), topoly(x)))
                else:
                    out.append(implies(ge(d, 0), le(topoly(x), topoly(y))))
                    out.append(implies(le(d, 0), le(topoly(y), topoly(x))))
    for f in Ctx.seq_axioms:
        out.extend(f(atoms))
    return [x for x in out if x is not TRUE]


# ---------------------------------------------------------------- linear part
def _rows_of(cmps):
    rows = []
    for rel, p in cmps:
        d = {}
        c0 = 0
        for mono, c in p.m:
            if mono == ():
                c0 = c
            else:
                d[mono] = c
        rows.append((rel, d, c0))
    return rows


_elim_cache = {}
_lin_cache = {}


def _nonzero(a, cmps):
    """atom a is kept away from zero by one of the comparisons"""
    for rel, p in cmps:
        if rel == 'eq' or len(p.m) > 2:
            continue
        c0, co = 0, None
        for mono, c in p.m:
            if mono == ():
                c0 = c
            elif len(mono) == 1 and mono[0] == (a.id, 1):
                co = c
            else:
                co = None
                break
        if co is None:
            continue
        # co*a + c0 >= 0
        if (c0 < 0 or (c0 == 0 and rel == 'gt')):
            return True
    ineqs = [(rel == 'gt', d, c0) for rel, d, c0 in _rows_of([x for x in cmps if x[0] != 'eq'])
             if all(len(m) == 1 and m[0][1] == 1 for m in d)]
    m = ((a.id, 1),)
    return _fm(ineqs + [(False, {m: -1}, 0)]) or _fm(ineqs + [(False, {m: 1}, 0)])


def _elim(cmps):
    """eliminate equalities: (contradiction?, [(atom, poly)], remaining comparisons)"""
    key = tuple(cmps)
    r = _elim_cache.get(key)
    if r is None:
        if len(_elim_cache) > 20000:
            _elim_cache.clear()
        r = _elim_cache[key] = _elim0(list(cmps))
    return r


def _elim0(cmps):
    subs = []
    cancelled = False
    for _ in range(60):
        sub = None
        nl = {aid for rel, p in cmps for mono, _ in p.m if len(mono) > 1 or (mono and mono[0][1] > 1) for aid, _ in mono}
        for idx, (rel, p) in enumerate(cmps):
            if rel != 'eq':
                continue
            c = const(p)
            if c is not None:
                if c != 0:
                    return True, subs, cmps
                continue
            cand = None
            pint = None
            for mono, co in p.m:
                if len(mono) == 1 and mono[0][1] == 1:
                    a = _ids[mono[0][0]]
                    # a must not occur elsewhere in p
                    if any(any(aid == a.id for aid, _ in m2) for m2, _c in p.m if m2 != mono):
                        continue
                    if pint is None:
                        pint = isint(p)
                    if pint and abs(co) != 1:
                        continue
                    rest = _mk({m2: c2 for m2, c2 in p.m if m2 != mono})
                    if a.op in ('sym',) and mentions(rest, a):
                        continue
                    pr = (a.id in nl, 0 if a.op == 'sym' else 1)
                    if cand is None or pr < cand[0]:
                        cand = (pr, a, pscale(rest, Fr(-1) / co))
            if cand:
                sub = (idx, cand[1], cand[2])
                break
        if not sub:
            # p >= 0 and -p >= 0
            ges = {p for rel, p in cmps if rel == 'ge'}
            eqs = [p for p in ges if len(p.m) <= 4 and pscale(p, -1) in ges]
            if eqs:
                e = eqs[0]
                n = pscale(e, -1)
                cmps = [('eq', e)] + [x for x in cmps if x[0] != 'ge' or (x[1] is not e and x[1] is not n)]
                continue
            # cancel common factors that cannot vanish:  x*p = 0, x /= 0  |-  p = 0
            for idx, (rel, p) in enumerate(cmps):
                if rel != 'eq' or len(p.m) < 2:
                    continue
                com = dict(p.m[0][0])
                for mono, _c in p.m[1:]:
                    dm = dict(mono)
                    com = {k: min(v, dm[k]) for k, v in com.items() if k in dm}
                    if not com:
                        break
                com = {k: v for k, v in com.items() if _nonzero(_ids[k], cmps)}
                if com:
                    d = {}
                    for mono, c in p.m:
                        m2 = tuple((k, v - com.get(k, 0)) for k, v in mono if v - com.get(k, 0))
                        d[m2] = c
                    cmps = cmps[:idx] + [('eq', _mk(d))] + cmps[idx + 1:]
                    break
            else:
                break
            continue
        idx, a, q = sub
        subs = subs + [(a, q)]
        new = []
        for j, (rel, p) in enumerate(cmps):
            if j == idx:
                continue
            p2 = _apply1(p, a, q)
            c = const(p2)
            if c is not None:
                if (rel == 'ge' and c < 0) or (rel == 'gt' and c <= 0) or (rel == 'eq' and c != 0):
                    return True, subs, cmps
                continue
            new.append((rel, p2))
        cmps = new
    return False, subs, cmps


def _apply1(p, a, q):
    try:
        if a.op == 'sym':
            return subst(p, {a: q})
        return subst_top(p, {a: q})
    except Blowup:
        return p


def lin_unsat(cmps, extra=()):
    """cmps: list of (rel, P) meaning P rel 0.  True if rationally infeasible."""
    key = (frozenset(cmps), tuple(extra))
    r = _lin_cache.get(key)
    if r is None:
        if len(_lin_cache) > 100000:
            _lin_cache.clear()
        r = _lin_cache[key] = _lin_unsat(cmps, extra)
    return r


def _lin_unsat(cmps, extra):
    bad, subs, rest = _elim(cmps)
    if bad:
        return True
    again = False
    ex = []
    for rel, p in extra:
        for a, q in subs:
            p = _apply1(p, a, q)
        c = const(p)
        if c is not None:
            if (rel == 'ge' and c < 0) or (rel == 'gt' and c <= 0) or (rel == 'eq' and c != 0):
                return True
            continue
        again = again or rel == 'eq'
        ex.append((rel, p))
    cmps = rest + ex
    if again:
        bad, _s, cmps = _elim(cmps)
        if bad:
            return True
    # congruence on elem atoms made syntactically equal by the substitution is automatic (hash consing)
    rows = []
    for rel, d, c0 in _rows_of(cmps):
        if rel == 'eq':
            rows.append((False, d, c0))
            rows.append((False, {k: -v for k, v in d.items()}, -c0))
        else:
            rows.append((rel == 'gt', d, c0))
    return _fm(rows)


def _norm(row):
    s, d, c = row
    if not d:
        return row
    m = max(abs(v) for v in d.values())
    if m == 1:
        return row
    return (s, {k: _q(v, m) for k, v in d.items()}, _q(c, m))


def _q(v, m):
    if type(v) is int and type(m) is int:
        if v % m == 0:
            return v // m
        return Fr(v, m)
    return Fr(v) / m


def _fm(rows):
    def dedupe(rs):
        best = {}
        for s, d, c in rs:
            if not d:
                if c < 0 or (s and c <= 0):
                    return None
                continue
            s, d, c = _norm((s, d, c))
            k = tuple(sorted(d.items()))
            o = best.get(k)
            if o is None or (c, not s) < (o[2], not o[0]):
                best[k] = (s, d, c)
        return list(best.values())
    rows = dedupe(rows)
    if rows is None:
        return True
    while rows:
        cnt = {}
        for s, d, c in rows:
            for k, v in d.items():
                e = cnt.setdefault(k, [0, 0])
                e[0 if v > 0 else 1] += 1
        # drop variables with one sign only
        free = {k for k, e in cnt.items() if e[0] == 0 or e[1] == 0}
        if free:
            rows = [r for r in rows if not any(k in free for k in r[1])]
            continue
        k = min(cnt, key=lambda q: cnt[q][0] * cnt[q][1] - cnt[q][0] - cnt[q][1])
        if cnt[k][0] * cnt[k][1] + len(rows) > LIMIT_ROWS:
            return False
        pos = [r for r in rows if r[1].get(k, 0) > 0]
        neg = [r for r in rows if r[1].get(k, 0) < 0]
        rest = [r for r in rows if k not in r[1]]
        for s1, d1, c1 in pos:
            for s2, d2, c2 in neg:
                a, b = d1[k], -d2[k]
                d = {}
                for q in set(d1) | set(d2):
                    if q == k:
                        continue
                    v = d1.get(q, 0) * b + d2.get(q, 0) * a
                    if v:
                        d[q] = v
                rest.append((s1 or s2, d, c1 * b + c2 * a))
        rows = dedupe(rest)
        if rows is None:
            return True
    return False


# ---------------------------------------------------------------- boolean part
_cache = {}


def unsat(fs, budget=None):
    fs = [f for f in fs if f is not TRUE]
    if any(f is FALSE for f in fs):
        return True
    key = frozenset(fs)
    r = _cache.get(key)
    b = (budget or LIMIT_CASES, LIMIT_SECS)
    if r is not None and (r or _spent.get(key, b) >= b):
        return r
    _spent.pop(key, None)
    try:
        r = _Search(b[0]).run(list(fs))
    except Budget:
        r = False
        _spent[key] = b
        STATS['budget'] += 1
    except Blowup:
        r = False
    _cache[key] = r
    return r


_spent = {}   # budget with which a query was given up


_pat_cache = {}


def _bound_elems(x, dep, out, bad):
    b = bv(dep)
    if isinstance(x, Atom):
        if b not in syms(x) and x is not b:
            return
        if x.op in ('elem', 'len') and len(x.args) > 1 and isinstance(x.args[1], P) and isinstance(x.args[0], str):
            q = x.args[1]
            co, rest = 0, {}
            for mono, c in q.m:
                if any(_ids[aid] is b or b in syms(_ids[aid]) for aid, _ in mono):
                    if mono == ((b.id, 1),):
                        co = c
                    else:
                        co = None
                        break
                else:
                    rest[mono] = c
            if co in (1, -1):
                r = _mk(rest)
                if not any(isinstance(y, Atom) and y.op == 'bv' for y in syms(r)):
                    out.add((x.args[0], co, r))
            else:
                bad.append(1)
            return
        for y in _flat(x.args):
            _bound_elems(y, dep, out, bad)
    elif isinstance(x, P):
        for mono, _ in x.m:
            for aid, _p in mono:
                _bound_elems(_ids[aid], dep, out, bad)
    elif isinstance(x, B):
        for y in _flat(x.args):
            _bound_elems(y, dep, out, bad)


def _patterns(dep, body):
    """sequence accesses of a quantified body from which instances can be read off; False if there are none"""
    out, bad = set(), []
    _bound_elems(body, dep, out, bad)
    return sorted(out, key=repr) if out and not bad else False


class _Search:
    def __init__(self, budget):
        self.n = budget
        self.end = time.process_time() + LIMIT_SECS

    def run(self, fs):
        return self.go(fs, 0)

    def tick(self):
        self.n -= 1
        if self.n < 0 or time.process_time() > self.end:
            raise Budget()

    def go(self, fs, depth):
        """True iff contradictory"""
        self.tick()
        lits, ors, foralls, exs = set(), [], [], []
        work = list(fs)
        while work:
            f = work.pop()
            if f is FALSE:
                return True
            if f is TRUE:
                continue
            if f.op == 'and':
                work.extend(f.args)
            elif f.op == 'or':
                ors.append(f)
            elif f.op == 'atom' and f.args[0].op == 'forall':
                foralls.append(f)
            elif f.op == 'atom' and f.args[0].op == 'exists':
                exs.append(f)
            else:
                lits.add(f)
        for l in lits:
            if not_(l) in lits:
                return True
        # skolemise
        if exs:
            new = []
            for f in exs:
                n, dep, body = f.args[0].args
                k = fresh_bv()
                new += [ge(topoly(k), 0), lt(topoly(k), n), subst(body, {bv(dep): topoly(k)})]
            return self.go(list(lits) + ors + foralls + new, depth)
        cm = [l.args for l in lits if l.op == 'cmp']
        neqs = [l for l in lits if l.op == 'not' and l.args[0].op == 'cmp']
        if lin_unsat(cm):
            return True
        for l in neqs:
            if self.eq_entailed(cm, l.args[0].args[1]):
                return True
        # unit-simplify ors
        extra = self.products(cm, ors) if ors or neqs else []
        if extra:
            cm = cm + extra
            if lin_unsat(cm):
                return True
            for l in neqs:
                if self.eq_entailed(cm, l.args[0].args[1]):
                    return True
        known = lits
        nors = []
        units = []
        for o in ors:
            rest = []
            sat = False
            for x in o.args:
                if x in known:
                    sat = True
                    break
                if not_(x) in known:
                    continue
                if x.op == 'cmp' and lin_unsat(cm, [x.args]):
                    continue
                if x.op == 'and' and self.conj_unsat(cm, x, known):
                    continue
                rest.append(x)
            if sat:
                continue
            if not rest:
                return True
            if len(rest) == 1:
                units.append(rest[0])
            else:
                nors.append(or_(*rest))
        if units:
            return self.go(list(lits) + nors + foralls + units, depth)
        # instantiate foralls once per level (bounded)
        if foralls and depth < 3:
            idx, byseq = set(), {}
            for l in list(lits) + nors:
                for a in deep_atoms(l):
                    if a.op in ('elem', 'len') and len(a.args) > 1 and isinstance(a.args[1], P) and not a.hasbv:
                        byseq.setdefault(a.args[0], set()).add(a.args[1])
                    if a.op in ('elem', 'fnelem') and not a.hasbv:
                        for y in a.args[1:]:
                            if isinstance(y, P):
                                idx.add(y)
                    if a.op == 'sym' and (str(a.args[0]).startswith('k!') or str(a.args[0]).startswith('w_')):
                        idx.add(topoly(a))
            new = []
            for f in foralls:
                n, dep, body = f.args[0].args
                for i in list(self.instances(dep, body, byseq, idx))[:24]:
                    inst = subst(body, {bv(dep): i})
                    g = implies(and_(ge(i, 0), lt(i, n)), inst)
                    if g is not TRUE and g not in known and g not in nors:
                        new.append(g)
                # non-empty range: also index 0
            fresh = [g for g in new if g not in getattr(self, 'inst', set())]
            if fresh:
                self.inst = getattr(self, 'inst', set()) | set(fresh)
                r = self.go(list(lits) + nors + foralls + fresh, depth + 1)
                self.inst -= set(fresh)
                return r
        # axioms for atoms present
        if not getattr(self, 'noax', False):
            ats = set()
            for l in list(lits) + nors:
                deep_atoms(l, ats)
            ax = [a for a in axioms(ats) if a not in known and a not in nors]
            done = getattr(self, 'axdone', frozenset())
            ax = [a for a in ax if a not in done]
            if ax:
                old = done
                self.axdone = done | set(ax)
                r = self.go(list(lits) + nors + foralls + ax, depth)
                self.axdone = old
                return r
        # disequalities that matter: split
        if not nors:
            for l in neqs:
                p = l.args[0].args[1]
                base = [x for x in lits if x is not l]
                if lin_unsat(cm, [('gt', p)]) :
                    if lin_unsat(cm, [('gt', -p)]):
                        return True
                    b = cmp_('gt', -p)
                    if b not in known:
                        return self.go(base + foralls + [b], depth)
                elif lin_unsat(cm, [('gt', -p)]):
                    b = cmp_('gt', p)
                    if b not in known:
                        return self.go(base + foralls + [b], depth)
            # products for non-linear goals
            extra = self.products(cm)
            if extra and lin_unsat(cm, extra):
                return True
            if extra and len(neqs) <= 3:
                for l in neqs:
                    p = l.args[0].args[1]
                    if not isint(p):
                        continue
                    base = [x for x in lits if x is not l]
                    if all(self.go(base + foralls + [cmp_('gt', q)], depth) for q in (p, -p)):
                        return True
                    break
            if extra and getattr(self, 'nlsplit', 0) < 3:
                d = self.digit_pair(cm)
                if d is not None:
                    self.nlsplit = getattr(self, 'nlsplit', 0) + 1
                    base = list(lits) + foralls
                    r = all(self.go(base + [x], depth) for x in (cmp_('gt', d), cmp_('gt', -d), cmp_('eq', d)))
                    self.nlsplit -= 1
                    return r
            if getattr(self, 'congr', 0) < 2:
                r = self.congruent(lits, foralls)
                if r is not None:
                    self.congr = getattr(self, 'congr', 0) + 1
                    r = self.go(r, depth)
                    self.congr -= 1
                    return r
            return False
        nors.sort(key=lambda o: (len(o.args), o.depth))
        o = nors[0]
        rest = list(lits) + nors[1:] + foralls
        neg = []
        for x in o.args:
            if not self.go(rest + [x] + neg, depth):
                return False
            nx = not_(x)
            if nx.op in ('cmp', 'atom', 'not'):
                neg = neg + [nx]
        return True

    def congruent(self, lits, foralls):
        """apply an equality  x = e  inside the arguments of other terms"""
        for l in lits:
            if l.op != 'cmp' or l.args[0] != 'eq' or not isint(l.args[1]):
                continue
            p = l.args[1]
            for mono, co in p.m:
                if len(mono) != 1 or mono[0][1] != 1 or abs(co) != 1:
                    continue
                a = _ids[mono[0][0]]
                if a.op != 'sym':
                    continue
                rest = _mk({m2: c2 for m2, c2 in p.m if m2 != mono})
                if mentions(rest, a):
                    continue
                hit = False
                for f in lits:
                    if f is l:
                        continue
                    for t in deep_atoms(f):
                        if t.op == 'elem' and mentions(topoly(t), a):
                            hit = True
                            break
                    if hit:
                        break
                if not hit:
                    continue
                m = {a: pscale(rest, Fr(-1) / co)}
                return [l] + [subst(f, m) for f in list(lits) + foralls if f is not l]
        return None

    def digit_pair(self, cm):
        """a - b for monomials c*M*a and -c*M*b of one comparison, with a ? b still open"""
        best = None
        for rel, p in cm:
            nl = [(dict(m), c) for m, c in p.m if len(m) > 1 and all(pw == 1 for _, pw in m)]
            if len(nl) < 2 or len(nl) > 8 or not isint(p):
                continue
            for i in range(len(nl)):
                for j in range(i + 1, len(nl)):
                    if nl[i][1] != -nl[j][1]:
                        continue
                    a, b = set(nl[i][0]) - set(nl[j][0]), set(nl[j][0]) - set(nl[i][0])
                    if len(a) == 1 and len(b) == 1:
                        d = topoly(_ids[a.pop()]) - topoly(_ids[b.pop()])
                        rank = (rel != 'eq', -len(nl[i][0]))
                        if best is not None and best[0] <= rank:
                            continue
                        if any(r2 != 'ge' and r2 != 'gt' and q in (d, -d) for r2, q in cm):
                            continue
                        if lin_unsat(cm, [('gt', d)]) or lin_unsat(cm, [('gt', -d)]):
                            continue
                        best = (rank, d)
        return best[1] if best else None

    def instances(self, dep, body, byseq, idx):
        key = (dep, body)
        pats = _pat_cache.get(key)
        if pats is None:
            pats = _pat_cache[key] = _patterns(dep, body)
        if pats is False:
            return idx
        out = {}
        for sk, sgn, r in pats:
            for i in byseq.get(sk, ()):
                out[(i - r) if sgn > 0 else (r - i)] = 1
        return out

    def conj_unsat(self, cm, x, known):
        c2 = []
        for y in x.args:
            if not_(y) in known:
                return True
            if y.op == 'cmp':
                c2.append(y.args)
        return bool(c2) and lin_unsat(cm, c2)

    def eq_entailed(self, cm, p):
        if is_zero(p):
            return True
        return lin_unsat(cm, [('gt', p)]) and lin_unsat(cm, [('gt', -p)])

    def products(self, cm, ors=()):
        """known non-negative linear facts times monomials of non-negative factors, within the monomials present
        (and their divisors): row/column index arithmetic"""
        key = (frozenset(cm), frozenset(ors))
        r = _prod_cache.get(key)
        if r is None:
            if len(_prod_cache) > 5000:
                _prod_cache.clear()
            r = _prod_cache[key] = _products(cm, ors)
        return r


_prod_cache = {}


def _cmps_in(b, out):
    if b.op == 'cmp':
        out.append(b.args)
    elif b.op in ('and', 'or', 'not'):
        for y in b.args:
            _cmps_in(y, out)


def _divisors(mono):
    out = [()]
    for aid, pw in mono:
        out = [m + ((aid, k),) if k else m for m in out for k in range(pw + 1)]
    return out


def _products(cm, ors):
    pool = list(cm)
    for o in ors:
        _cmps_in(o, pool)
    nl = set()
    for rel, p in pool:
        for mono, _ in p.m:
            n = sum(pw for _a, pw in mono)
            if 1 < n <= 6:
                nl.add(mono)
    if not nl or len(nl) > 60:
        return []
    allowed = set()
    for m in nl:
        allowed.update(_divisors(m))
    if len(allowed) > 400:
        return []
    nla = {aid for mono in nl for aid, _ in mono}
    lin = [(rel == 'gt', d, c0) for rel, d, c0 in _rows_of([x for x in cm if x[0] != 'eq'])
           if all(len(m) == 1 and m[0][1] == 1 for m in d)]
    nonneg = {aid for aid in nla if _fm(lin + [(True, {((aid, 1),): -1}, 0)])}
    mults = [m for m in allowed if m and all(aid in nonneg for aid, _ in m)]
    base = []
    for rel, p in cm:
        if rel in ('ge', 'eq') and len(p.m) <= 4 and any(aid in nla for m, _ in p.m for aid, _ in m):
            base.append((rel, p))
    out = []
    for rel, p in base[:40]:
        for m in mults:
            q = pmul(p, _mk({m: 1}))
            if all(k in allowed or len(k) <= 1 and (not k or k[0][1] == 1) for k, _ in q.m):
                out.append((rel, q))
        if len(out) > 250:
            break
    # squares and mixed products of linear facts
    sm = [p for rel, p in base if rel == 'ge' and all(len(m) <= 1 for m, _ in p.m)][:14]
    for i in range(len(sm)):
        for j in range(i, len(sm)):
            q = pmul(sm[i], sm[j])
            if all(len(m) <= 1 and (not m or m[0][1] == 1) or m in nl for m, _ in q.m):
                out.append(('ge', q))
    return out


def entails(facts, goal):
    if goal is TRUE:
        return True
    if goal is FALSE:
        return unsat(facts)
    if goal in facts:
        return True
    if goal.op == 'and':
        return all(entails(facts, g) for g in goal.args)
    goal = neqs(facts, goal)
    if goal is TRUE:
        return True
    return unsat(relevant(facts, goal) + [not_(goal)])


def neqs(facts, goal):
    """the goal with the equations decided that a fact denies"""
    ne = {f.args[0]: FALSE for f in facts if f.op == 'not' and f.args[0].op == 'cmp'}
    if not ne or goal.op == 'not' and goal.args[0] in ne:
        return goal
    seen = set()

    def has(x):
        if id(x) in seen:
            return False
        seen.add(id(x))
        if x in ne:
            return True
        if isinstance(x, P):
            return any(has(_ids[aid]) for mono, _ in x.m for aid, _p in mono)
        return isinstance(x, (B, Atom, N)) and any(has(z) for z in _flat(x.args) if isinstance(z, (P, B, Atom, N)))
    return subst(goal, ne) if has(goal) else goal


_sizes = {}


def size(x):
    """size of a term written out (capped)"""
    r = _sizes.get(x)
    if r is None:
        r = 1
        if isinstance(x, P):
            for mono, _ in x.m:
                for aid, _p in mono:
                    r += size(_ids[aid])
        elif isinstance(x, (B, Atom, N)):
            for z in _flat(x.args):
                if isinstance(z, (P, B, Atom, N)):
                    r += size(z)
        r = _sizes[x] = min(r, 10 ** 9)
    return r


HUGE = 4000


def relevant(facts, goal):
    """cone of influence of the goal"""
    m = max(HUGE, 3 * size(goal))
    facts = [f for f in facts if size(f) <= m]      # fewer facts prove less, never more
    if len(facts) <= 6:
        return facts
    want = _vars(goal)
    left = list(facts)
    out = []
    changed = True
    while changed and left:
        changed = False
        rest = []
        for f in left:
            v = _vars(f)
            if v & want:
                out.append(f)
                want = want | v
                changed = True
            else:
                rest.append(f)
        left = rest
    return out


_vcache = {}


def _vars(b):
    r = _vcache.get(b)
    if r is None:
        r = frozenset(syms(b))
        _vcache[b] = r
    return r


_sat_cache = {}


def satisfiable(facts, secs=3.0, steps=60):
    """True when an assignment was found (so the conjunction is not contradictory); None otherwise"""
    from . import evalm
    import random
    key = frozenset(facts)
    r = _sat_cache.get(key, 0)
    if r == 0:
        fs = [f for f in facts if f is not TRUE]
        try:
            m, _ = evalm.repair_search(fs, FALSE, evalm.definitions(fs), sorted(evalm.constants(fs))[:6],
                                       random.Random(7), secs, steps)
        except RecursionError:
            m = None
        r = _sat_cache[key] = True if m is not None else None
    return r


def refutable(facts, goal):
    """quick attempt to show that goal does not follow"""
    if not goal.exact:
        return False
    return bool(satisfiable([f for f in relevant(facts, goal) if f.exact] + [not_(goal)]))


def quick_entails(facts, goal):
    global LIMIT_SECS, LIMIT_CASES
    if goal.op == 'and':
        return all(quick_entails(facts, g) for g in goal.args)
    fs = relevant(facts, goal) + [not_(goal)]
    if frozenset(fs) in _cache:
        return _cache[frozenset(fs)]
    old = LIMIT_SECS
    LIMIT_SECS = 4.0
    try:
        r = _Search(20).run([f for f in fs if f is not TRUE])
    except (Budget, Blowup):
        r = False
    LIMIT_SECS = old
    if r:
        _cache[frozenset(fs)] = True
    return r


def decide(facts, goal):
    """True / False / None"""
    if goal is TRUE:
        return True
    if goal is FALSE:
        return False
    fs = set(facts)
    if goal in fs:
        return True
    if not_(goal) in fs:
        return False
    if quick_entails(facts, goal):
        return True
    if quick_entails(facts, not_(goal)):
        return False
    if not refutable(facts, goal) and entails(facts, goal):
        return True
    if not refutable(facts, not_(goal)) and entails(facts, not_(goal)):
        return False
    return None


def _divs(x, out):
    seen = set()
    work = [x]
    while work:
        y = work.pop()
        if id(y) in seen or not isinstance(y, (P, B, Atom, N)):
            continue
        seen.add(id(y))
        if isinstance(y, P):
            for mono, _ in y.m:
                work.extend(_ids[aid] for aid, _p in mono)
            continue
        if isinstance(y, Atom) and y.op in ('idiv', 'digit') and not y.hasbv:
            out.add(y)
        work.extend(_flat(y.args))


def resolve(x, facts):
    """x with the quotients and digits that the facts determine"""
    from . import values
    prove = lambda g: entails(facts, g)
    for _ in range(8):
        out = set()
        _divs(x, out)
        rep = {}
        for a in sorted(out, key=lambda a: a.id):
            if a.op == 'idiv':
                r = idiv(a.args[0], a.args[1], prove)
            else:
                d, r, lens = a.args
                for j in range(d + 1):
                    q, rest = pdivmod_split(r, lens[j])
                    if not (q.m or j == d) or not prove(ge(rest, 0)) or not prove(lt(rest, lens[j])):
                        rest = None
                        break
                    r = q
                r = rest
            if r is not None and r is not topoly(a):
                rep = {a: r}
                break
        if not rep:
            break
        x = subst(x, rep)
    return x


def under(x, facts, budget=60):
    """x with the choices that the facts decide taken"""
    n = [budget]
    memo = {}

    def choices(y, out, seen):
        if id(y) in seen:
            return
        seen.add(id(y))
        if isinstance(y, P):
            for mono, _ in y.m:
                for aid, _p in mono:
                    choices(_ids[aid], out, seen)
            return
        if not isinstance(y, (B, Atom, N)):
            return
        if isinstance(y, Atom) and y.op == 'ite' and not y.hasbv:
            out.append(y)
        for z in _flat(y.args):
            choices(z, out, seen)

    while n[0] > 0:
        out = []
        choices(x, out, set())
        rep = {}
        for a in sorted(out, key=lambda a: a.id):
            if a in memo:
                continue
            n[0] -= 1
            if n[0] < 0:
                break
            memo[a] = True
            c = a.args[0]
            if entails(facts, c):
                rep[a] = a.args[1]
            elif entails(facts, not_(c)):
                rep[a] = a.args[2]
            if rep:
                break
        if not rep:
            break
        x = subst(x, rep)
    return x


def _skeleton(x, depth=0):
    """size of a term without the conditions of its choices"""
    r = 1
    if isinstance(x, P):
        for mono, _ in x.m:
            for aid, _p in mono:
                r += _skeleton(_ids[aid])
    elif isinstance(x, Atom) and x.op == 'ite':
        r += _skeleton(x.args[1]) + _skeleton(x.args[2])
    else:
        r = size(x)
    return r


def opaque(facts, goal, big=300):
    """facts and goal with large closed comparisons as mere propositions (weaker, so sound for proofs)"""
    out, seen = {}, set()

    def walk(y):
        if id(y) in seen or size(y) <= big:
            return
        seen.add(id(y))
        if isinstance(y, P):
            for mono, _ in y.m:
                for aid, _p in mono:
                    walk(_ids[aid])
            return
        if isinstance(y, B) and y.op == 'cmp' and not y.hasbv and _skeleton(y.args[1]) > big:
            if y not in out and not_(y) not in out:
                out[y] = batom('bsym', 'opaque!%d' % y.id)
                n = not_(y)
                if n.op == 'cmp':
                    out[n] = not_(out[y])
            return
        if isinstance(y, (B, Atom, N)):
            for z in _flat(y.args):
                walk(z)

    for f in list(facts) + [goal]:
        walk(f)
    if not out:
        return facts, goal
    memo = {}
    return [f for f in (subst(f, out, memo) for f in facts) if f is not TRUE], subst(goal, out, memo)


def _split(x, facts, depth, budget):
    """x with the choices decided by facts taken, the others split while that makes the arms equal or smaller"""
    x = under(x, facts, 40)
    if depth == 0 or budget[0] <= 0:
        return x
    best = None
    seen = set()
    work = [x]
    while work:
        y = work.pop()
        if id(y) in seen:
            continue
        seen.add(id(y))
        if isinstance(y, P):
            work.extend(_ids[aid] for mono, _ in y.m for aid, _p in mono)
        elif isinstance(y, Atom) and y.op == 'ite' and not y.hasbv:
            c = y.args[0]
            if best is None or (size(c), c.id) < (size(best), best.id):
                best = c
            work.extend(y.args[1:])
        elif isinstance(y, (Atom, B, N)) and not (isinstance(y, Atom) and y.op in ('sum', 'prod')):
            work.extend(_flat(y.args))
    if best is None:
        return x
    budget[0] -= 1
    t = _split(x, facts + [best], depth - 1, budget)
    f = _split(x, facts + [not_(best)], depth - 1, budget)
    if t is f or isinstance(t, P) and peq(t, f):
        return t
    return ite(best, t, f) if isinstance(x, P) else x


def simp_sums(xs, facts):
    """xs with the bodies of closed sums simplified under their range"""
    small = [f for f in facts if size(f) <= 60]
    for _ in range(3):
        out, seen = {}, set()

        def walk(y):
            if id(y) in seen:
                return
            seen.add(id(y))
            if isinstance(y, P):
                for mono, _ in y.m:
                    for aid, _p in mono:
                        walk(_ids[aid])
                return
            if not isinstance(y, (B, Atom, N)):
                return
            if isinstance(y, Atom) and y.op == 'sum' and not y.hasbv and y not in out:
                n, dep, body = y.args
                if size(body) > 12:
                    k = fresh_bv()
                    q = subst(body, {bv(dep): topoly(k)})
                    kp = topoly(k)
                    r = _split(q, small + [ge(kp, num(0)), ge(n - 1, kp)], 4, [24])
                    if r is not q:
                        out[y] = sum_(k, n, r)
                return
            for z in _flat(y.args):
                walk(z)

        for x in xs:
            walk(x)
        if not out:
            break
        memo = {}
        xs = [subst(x, out, memo) for x in xs]
    return xs
