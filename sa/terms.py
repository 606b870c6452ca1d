"""Term algebra of the abstract interpreter.

Numbers are polynomials (rational coefficients) over atoms; atoms are hash-consed, alpha-normalised terms.  Booleans are
formulas over polynomial comparisons and opaque boolean atoms.  Everything is immutable; equality is identity of the
normal form (`is`-comparison after interning) or polynomial difference zero.
"""
from fractions import Fraction as Fr
from functools import lru_cache

_intern = {}
_ids = {}


class Atom:
    """op, args: args are hashable (P, B, Atom, str, int, tuple of these, or values with .key)."""
    __slots__ = ('op', 'args', 'sort', 'id', 'depth', 'exact', '_syms')

    def __hash__(self):  # creation order, not addresses: runs are reproducible
        return self.id

    def __repr__(self):
        return show_atom(self)

    @property
    def hasbv(self):
        return any(isinstance(y, Atom) and y.op == 'bv' for y in syms(self))


def atom(op, args, sort='r'):
    k = ('A', op, args, sort)
    a = _intern.get(k)
    if a is None:
        a = Atom()
        a.op, a.args, a.sort = op, args, sort
        a.id = len(_intern)
        d, ex = 0, op not in ('unk', 'bunk')
        if op == 'elem' and isinstance(args[0], str) and args[0].startswith('unk!'):
            ex = False
        for x in _flat(args):
            if isinstance(x, (Atom, P, B, N)):
                d = max(d, x.depth)
                ex = ex and x.exact
        if op in BINDERS:
            d += 1
        a.depth, a.exact = d, ex
        a._syms = None
        _intern[k] = a
        _ids[a.id] = a
    return a


# binder atoms: index of the argument holding the bound-variable depth; the body is the last argument
BINDERS = {'sum': 1, 'prod': 1, 'forall': 1, 'exists': 1, 'first': 1, 'fold': 3, 'whl': 0, 'lastw': 2}

FREE = ('sym', 'bv', 'unk', 'bunk', 'bsym')


def _flat(args):
    for x in args:
        if isinstance(x, tuple):
            yield from _flat(x)
        else:
            yield x


class P:
    """polynomial: m = sorted tuple of (mono, coef); mono = tuple of (atom_id, power) sorted"""
    __slots__ = ('m', 'depth', 'exact', 'id')

    def __hash__(self):
        return self.id

    @property
    def hasbv(self):
        return any(isinstance(y, Atom) and y.op == 'bv' for y in syms(self))

    def __repr__(self):
        return show(self)

    # arithmetic sugar
    def __add__(self, o):
        return padd(self, topoly(o))
    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(topoly(o), Fr(-1)))

    def __rsub__(self, o):
        return padd(topoly(o), pscale(self, Fr(-1)))

    def __mul__(self, o):
        return pmul(self, topoly(o))
    __rmul__ = __mul__

    def __neg__(self):
        return pscale(self, Fr(-1))


def _mk(d):
    items = []
    for k, v in d.items():
        if v:
            if type(v) is not int:
                if v.denominator == 1:
                    v = int(v)
            items.append((k, v))
    items.sort()
    items = tuple(items)
    k = ('P', items)
    p = _intern.get(k)
    if p is None:
        p = P()
        p.id = len(_intern)
        p.m = items
        dep, ex = 0, True
        for mono, _ in items:
            for aid, _p in mono:
                a = _ids[aid]
                dep = max(dep, a.depth)
                ex = ex and a.exact
        p.depth, p.exact = dep, ex
        _intern[k] = p
    return p


_topoly = {}
_num = {}


def num(c):
    r = _num.get(c)
    if r is None:
        r = _num[c] = _mk({(): c if type(c) is int else Fr(c)})
    return r


def topoly(x):
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        r = _topoly.get(x)
        if r is None:
            r = _topoly[x] = _mk({((x.id, 1),): 1})
        return r
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, (int, Fr)):
        return num(x)
    raise TypeError('topoly %r' % (x,))


def var(op, *args, sort='r'):
    return topoly(atom(op, tuple(args), sort))


def padd(a, b):
    d = dict(a.m)
    for k, v in b.m:
        d[k] = d.get(k, 0) + v
    return _mk(d)


def pscale(a, c):
    return _mk({k: v * c for k, v in a.m})


def _mmul(x, y):
    d = dict(x)
    for k, v in y:
        d[k] = d.get(k, 0) + v
    # cancel inv(p)*p where p is a single atom
    for aid in list(d):
        a = _ids[aid]
        if a.op == 'inv' and d.get(aid):
            q = a.args[0]
            if len(q.m) == 1 and q.m[0][1] == 1 and len(q.m[0][0]) == 1 and q.m[0][0][0][1] == 1:
                t = q.m[0][0][0][0]
                while d.get(t, 0) > 0 and d.get(aid, 0) > 0:
                    d[t] -= 1
                    d[aid] -= 1
    return tuple(sorted((k, v) for k, v in d.items() if v))


def pmul(a, b):
    if len(a.m) > 400 or len(b.m) > 400 or len(a.m) * len(b.m) > 20000:
        raise Blowup('polynomial product too large')
    # cancel p * inv(p) for multi-term p
    d = {}
    for k1, v1 in a.m:
        for k2, v2 in b.m:
            k = _mmul(k1, k2)
            d[k] = d.get(k, 0) + v1 * v2
    return _mk(d)


class Blowup(Exception):
    pass


def const(p):
    """Fraction if p is a constant, else None"""
    if not p.m:
        return Fr(0)
    if len(p.m) == 1 and p.m[0][0] == ():
        return p.m[0][1]
    return None


def cint(p):
    c = const(p) if isinstance(p, P) else None
    if c is not None and c.denominator == 1:
        return int(c)
    return None


def atoms_of(p):
    s = set()
    for mono, _ in p.m:
        for aid, _pw in mono:
            s.add(_ids[aid])
    return s


def as_atom(p):
    if len(p.m) == 1 and p.m[0][1] == 1 and len(p.m[0][0]) == 1 and p.m[0][0][0][1] == 1:
        return _ids[p.m[0][0][0][0]]
    return None


def isint(p):
    for mono, c in p.m:
        if c.denominator != 1:
            return False
        for aid, _ in mono:
            if _ids[aid].sort != 'i':
                return False
    return True


def pinv(p):
    c = const(p)
    if c is not None:
        if c == 0:
            return topoly(atom('inv', (num(0),), 'r'))
        return num(Fr(1) / c)
    if len(p.m) == 1:   # monomial
        mono, c = p.m[0]
        r = num(Fr(1) / c)
        for aid, pw in mono:
            a = _ids[aid]
            f = topoly(a.args[0]) if a.op == 'inv' else topoly(atom('inv', (topoly(a),), 'r'))
            for _ in range(pw):
                r = pmul(r, f)
        return r
    lead = p.m[0][1]
    q = pscale(p, Fr(1) / lead)
    return pscale(topoly(atom('inv', (q,), 'r')), Fr(1) / lead)


def pdiv_exact(a, b):
    """exact polynomial quotient a / b, or None"""
    if not b.m:
        return None
    cb = const(b)
    if cb is not None:
        return pscale(a, Fr(1) / cb)
    q = {}
    r = a
    lb, cbb = b.m[-1]
    n = 0
    while r.m:
        n += 1
        if n > 200:
            return None
        done = False
        for lr, cr in reversed(r.m):
            dq = _mdiv(lr, lb)
            if dq is not None:
                c = Fr(cr) / cbb
                q[dq] = q.get(dq, 0) + c
                r = padd(r, pscale(pmul(_mk({dq: Fr(1)}), b), -c))
                done = True
                break
        if not done:
            return None
    return _mk(q)


def _mdiv(x, y):
    d = dict(x)
    for k, v in y:
        if d.get(k, 0) < v:
            return None
        d[k] -= v
    return tuple(sorted((k, v) for k, v in d.items() if v))


def pdivmod_split(a, b):
    """a = q*b + r where the monomials of a divisible by monomial b (single-monomial b) go to q"""
    if not b.m:
        return num(0), a
    if len(b.m) != 1:
        q = pdiv_exact(a, b)
        if q is not None:
            return q, num(0)
        # division by the leading (highest degree) monomial
        lb, cb = max(b.m, key=lambda t: (sum(w for _, w in t[0]), t[0]))
        q, r = num(0), a
        for _ in range(6):
            z = {}
            for mono, c in r.m:
                dq = _mdiv(mono, lb)
                if dq is not None and (Fr(c) / cb).denominator == 1:
                    z[dq] = Fr(c) / cb
            z = _mk(z)
            if not z.m:
                return q, r
            q, r = q + z, r - z * b
        return num(0), a
    lb, cb = b.m[0]
    q, r = {}, {}
    for mono, c in a.m:
        dq = _mdiv(mono, lb)
        if dq is not None and (Fr(c) / cb).denominator == 1:
            q[dq] = q.get(dq, 0) + Fr(c) / cb
        else:
            r[mono] = c
    return _mk(q), _mk(r)


def is_zero(p):
    """p == 0 as rational function (clears inverse atoms)"""
    for _ in range(40):
        if not p.m:
            return True
        invs = sorted((a for a in atoms_of(p) if a.op == 'inv'), key=lambda a: (-a.depth, a.id))
        if not invs:
            return False
        a = invs[0]
        mx = 0
        for mono, _c in p.m:
            for aid, pw in mono:
                if aid == a.id:
                    mx = max(mx, pw)
        q = a.args[0]
        d = num(0)
        pows = [num(1)]
        for _i in range(mx):
            pows.append(pmul(pows[-1], q))
        for mono, c in p.m:
            e = 0
            rest = []
            for aid, pw in mono:
                if aid == a.id:
                    e = pw
                else:
                    rest.append((aid, pw))
            d = padd(d, pmul(_mk({tuple(rest): c}), pows[mx - e]))
        p = d
    return False


def peq(a, b):
    return a is b or is_zero(a - b)


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ('op', 'args', 'depth', 'exact', 'id')

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show_b(self)

    @property
    def hasbv(self):
        return any(isinstance(y, Atom) and y.op == 'bv' for y in syms(self))


def _b(op, args):
    k = ('B', op, args)
    b = _intern.get(k)
    if b is None:
        b = B()
        b.id = len(_intern)
        b.op, b.args = op, args
        d, ex = 0, True
        for x in _flat(args):
            if isinstance(x, (P, B, Atom)):
                d = max(d, x.depth)
                ex = ex and x.exact
        b.depth, b.exact = d, ex
        _intern[k] = b
    return b


# ------------------------------------------------------------------ structured values
class N:
    """interned structured value (struct, sequence, pointer, ...): kind and args"""
    __slots__ = ('k', 'args', 'depth', 'exact', 'id')

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show_n(self)


NBINDERS = {'comp': (1, (2,)), 'flat': (1, (2,)), 'storeloop': (2, (3, 4, 5))}


def node(k, *args):
    key = ('N', k, args)
    n = _intern.get(key)
    if n is None:
        n = N()
        n.id = len(_intern)
        n.k, n.args = k, args
        d, ex = 0, k not in ('unkv',)
        if k == 'sseq' and args[0].startswith('unk!'):
            ex = False
        for x in _flat(args):
            if isinstance(x, (P, B, Atom, N)):
                d = max(d, x.depth)
                ex = ex and x.exact
        if k in NBINDERS:
            d += 1
        n.depth, n.exact = d, ex
        _intern[key] = n
    return n


def show_n(n):
    if n.k == 'struct':
        return '%s{%s}' % (n.args[0].split('::')[-1], ', '.join('%s=%s' % (k.split('::')[-1], v) for k, v in n.args[1]))
    if n.k == 'list':
        return '[%s]' % ', '.join(map(str, n.args[0]))
    if n.k == 'sseq':
        return '<%s%s>' % (n.args[0], list(n.args[1]) or '')
    if n.k == 'ptr':
        return '&%s%s' % (n.args[0], ''.join('.' + str(p[1]) for p in n.args[1]))
    return '%s(%s)' % (n.k, ', '.join(map(str, n.args)))


TRUE = _b('true', ())
FALSE = _b('false', ())


def boolc(x):
    return TRUE if x else FALSE


def _lincoef_norm(p):
    """divide by positive content"""
    if not p.m:
        return p
    from math import gcd
    g = 0
    l = 1
    for _, c in p.m:
        l = l * c.denominator // gcd(l, c.denominator)
    for _, c in p.m:
        g = gcd(g, abs(int(c * l)))
    return pscale(p, Fr(l, g))


def _bool_eq(p):
    """equality of two truth values written with indicators"""
    cs, k = [], 0
    for mono, c in p.m:
        if mono == ():
            k = c
            continue
        a = _ids[mono[0][0]]
        if len(mono) != 1 or mono[0][1] != 1 or a.op != 'ite' or abs(c) != 1:
            return None
        x, y = const(a.args[1]), const(a.args[2])
        if x is None or y is None or {x, y} != {0, 1}:
            return None
        cs.append((c, a.args[0] if x == 1 else not_(a.args[0])))
    if not 1 <= len(cs) <= 2:
        return None
    out = []
    import itertools
    for vals in itertools.product((0, 1), repeat=len(cs)):
        if sum(c * v for (c, _), v in zip(cs, vals)) + k == 0:
            out.append(and_(*[b if v else not_(b) for (_, b), v in zip(cs, vals)]))
    return or_(*out)


def cmp_(rel, p):
    """rel in ge, gt, eq:  p rel 0"""
    c = const(p)
    if c is not None:
        return boolc(c >= 0 if rel == 'ge' else c > 0 if rel == 'gt' else c == 0)
    ii = isint(p)
    if rel == 'eq' and len(p.m) <= 3:
        r = _bool_eq(p)
        if r is not None:
            return r
    if rel == 'gt' and ii:
        return cmp_('ge', p - 1)
    if rel == 'ge' and ii:
        # content of the non-constant part, floor the constant
        from math import gcd
        g = 0
        for mono, c in p.m:
            if mono != ():
                g = gcd(g, abs(int(c)))
        if g > 1:
            d = {}
            for mono, c in p.m:
                d[mono] = Fr(int(c) // g) if mono == () else Fr(c) / g
            p = _mk(d)
    else:
        p = _lincoef_norm(p)
    if rel == 'eq':
        if p.m[-1][1] < 0:
            p = pscale(p, Fr(-1))
    return _b('cmp', (rel, p))


def ge(a, b):
    return cmp_('ge', topoly(a) - topoly(b))


def gt(a, b):
    return cmp_('gt', topoly(a) - topoly(b))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    d = topoly(a) - topoly(b)
    if is_zero(d):
        return TRUE
    return cmp_('eq', d)


def ne(a, b):
    return not_(eq(a, b))


def batom(op, *args):
    return _b('atom', (atom(op, tuple(args), 'b'),))


_nots = {}


def not_(b):
    r = _nots.get(b)
    if r is None:
        r = _nots[b] = _not(b)
        _nots.setdefault(r, b)
    return r


def _not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'and':
        return or_(*[not_(x) for x in b.args])
    if b.op == 'or':
        return and_(*[not_(x) for x in b.args])
    if b.op == 'cmp':
        rel, p = b.args
        if rel == 'ge':
            return cmp_('gt', -p)
        if rel == 'gt':
            return cmp_('ge', -p)
    if b.op == 'atom':
        a = b.args[0]
        if a.op == 'forall':
            return batom('exists', a.args[0], a.args[1], not_(a.args[2]))
        if a.op == 'exists':
            return batom('forall', a.args[0], a.args[1], not_(a.args[2]))
    return _b('not', (b,))


def _unit(out, seen, op, drop, _z):
    """simplify members of the dual kind by their siblings (unit propagation, absorption)"""
    new, hit = [], False
    for x in out:
        if x.op == op:
            if any(y in seen for y in x.args):
                hit = True      # absorbed
                continue
            keep = [y for y in x.args if not_(y) not in seen]
            if len(keep) < len(x.args):
                hit = True
                new.append((or_ if op == 'or' else and_)(*keep))
                continue
        new.append(x)
    return new if hit else None


def and_(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.args if b.op == 'and' else (b,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if not_(x) in seen:
            return FALSE
    if len(out) > 1:
        new = _unit(out, seen, 'or', TRUE, FALSE)
        if new is not None:
            return and_(*new)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=_bkey)
    return _b('and', tuple(out))


def or_(*bs):
    out = []
    seen = set()
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.args if b.op == 'or' else (b,)):
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if not_(x) in seen:
            return TRUE
    if len(out) > 1:
        new = _unit(out, seen, 'and', FALSE, TRUE)
        if new is not None:
            return or_(*new)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=_bkey)
    return _b('or', tuple(out))


_bk = {}


def _bkey(b):
    k = _bk.get(b)
    if k is None:
        k = _bk[b] = len(_bk)
    return k


_rank = {'cmp': 0, 'atom': 0, 'and': 2, 'or': 3, 'not': 4}


def _okey(b):
    """orientation of a condition against its negation: by form first, so that it does not depend on the names of bound variables"""
    w = 0
    if b.op == 'cmp':
        w = sum(c for mono, c in b.args[1].m if mono)
    return (_rank.get(b.op, 5), -w, _bkey(b))


def implies(a, b):
    return or_(not_(a), b)


def ite_b(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    return or_(and_(c, a), and_(not_(c), b))


def ite(c, a, b, flip=True):
    """numeric if-then-else"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    # orient the condition so that c / not c give the same atom
    if flip and (c.op == 'not' or (c.op in ('cmp', 'or', 'and') and _okey(not_(c)) < _okey(c)) or
                 (c.op == 'atom' and c.args[0].op == 'exists')):
        return ite(not_(c), b, a, False)
    a, b = assume_in(a, c), assume_in(b, not_(c))
    if a is b:
        return a
    # common additive part:  ite(c, x + u, x + v) = x + ite(c, u, v)
    da, db = dict(a.m), dict(b.m)
    common = {m: v for m, v in da.items() if db.get(m) == v}
    if common and (len(common) < len(da) or len(common) < len(db)):
        cp = _mk(common)
        return cp + ite(c, a - cp, b - cp)
    s = 'i' if isint(a) and isint(b) else 'r'
    return topoly(atom('ite', (c, a, b), s))


def assume_in(p, c):
    """simplify nested ite on the same condition"""
    rep = {}
    for at in atoms_of(p):
        if at.op == 'ite':
            if at.args[0] is c:
                rep[at] = at.args[1]
            elif at.args[0] is not_(c):
                rep[at] = at.args[2]
    return subst_top(p, rep) if rep else p


def subst_top(p, rep):
    """replace atoms by polys in p (top level only)"""
    ids = {a.id: f for a, f in rep.items()}
    d, hit = {}, False
    for mono, c in p.m:
        if not any(aid in ids for aid, _ in mono):
            d[mono] = d.get(mono, 0) + c
            continue
        hit = True
        t = _mk({tuple(x for x in mono if x[0] not in ids): c})
        for aid, pw in mono:
            f = ids.get(aid)
            if f is not None:
                for _ in range(pw):
                    t = pmul(t, f)
        for k, v in t.m:
            d[k] = d.get(k, 0) + v
    return _mk(d) if hit else p


def b2i(b):
    """indicator of a boolean"""
    if b is TRUE:
        return num(1)
    if b is FALSE:
        return num(0)
    return ite(b, num(1), num(0))


# ------------------------------------------------------------------ bound variables and binders
_bvn = [0]


def fresh_bv():
    _bvn[0] += 1
    return atom('sym', ('k!%d' % _bvn[0],), 'i')


def bv(depth):
    return atom('bv', (depth,), 'i')


def bind(k, body):
    """abstract atom k out of body (any substitutable); returns body with canonical bound variable"""
    d = body.depth
    return subst(body, {k: topoly(bv(d + 1))}), d + 1


def bind_n(k, *bodies):
    d = max(b.depth for b in bodies) + 1
    return [subst(b, {k: topoly(bv(d))}) for b in bodies], d


def open_(a_depth_body, d, val):
    return subst(a_depth_body, {bv(d): val})


def sum_(k, n, body, canon=True):
    """sum_{k=0}^{n-1} body"""
    n = topoly(n)
    if not body.m:
        return body
    if not mentions(body, k):
        return pmul(n, body)
    c = cint(n)
    if c is not None and c <= 0:
        return num(0)
    if c is not None and c <= 4:
        r = num(0)
        for i in range(c):
            r = r + subst(body, {k: num(i)})
        return r
    body = _in_range(body, k, n)
    r = num(0)
    groups = {}
    for mono, c in body.m:
        inner, outer = [], []
        for aid, pw in mono:
            (inner if mentions(_ids[aid], k) else outer).append((aid, pw))
        groups.setdefault(tuple(outer), {})[tuple(inner)] = c
    for outer, inn in groups.items():
        ip = _mk(inn)
        if not mentions(ip, k):
            s = pmul(n, ip)
        elif ip.m and all(len(mo) <= 1 and all(x == (k.id, 1) for x in mo) for mo, _ in ip.m):
            # linear in k
            d = dict(ip.m)
            a1 = d.get(((k.id, 1),), Fr(0))
            a0 = d.get((), Fr(0))
            s = pscale(pmul(n, n - 1), Fr(a1) / 2) + pscale(n, a0)
        else:
            lead = bind(k, ip)[0].m[0][1]  # the order of the monomials must not depend on the name of k
            q = pscale(ip, Fr(1) / lead)
            s = pscale(_sum_term(k, n, q) if canon else _sum_atom(k, n, q), lead)
        r = r + pmul(_mk({outer: Fr(1)}), s)
    return r


def _digits_of(x, k, out):
    """digit terms over k, wherever they occur in x"""
    seen = set()
    work = [x]
    while work:
        y = work.pop()
        if id(y) in seen or not isinstance(y, (P, B, Atom, N)) or k not in syms(y):
            continue
        seen.add(id(y))
        if isinstance(y, P):
            for mono, _ in y.m:
                work.extend(_ids[aid] for aid, _p in mono)
            continue
        if isinstance(y, Atom) and y.op == 'digit':
            out.add(y)
            continue
        work.extend(_flat(y.args))


def _cmp_in_range(rel, p, k, n):
    """truth of a comparison for all 0 <= k < n, when the range alone decides it"""
    a = 0
    for mono, c in p.m:
        if any(aid == k.id for aid, _ in mono):
            if len(mono) != 1 or mono[0][1] != 1:
                return None
            a = c
        elif any(k in syms(_ids[aid]) for aid, _ in mono):
            return None
    if not a:
        return None
    lo, hi = const(subst(p, {k: num(0)})), const(subst(p, {k: n - 1}))
    if a < 0:
        lo, hi = hi, lo
    if rel == 'eq':
        return False if (lo is not None and lo > 0) or (hi is not None and hi < 0) else None
    strict = rel == 'gt'
    if lo is not None and (lo > 0 or (lo == 0 and not strict)):
        return True
    if hi is not None and (hi < 0 or (hi == 0 and strict)):
        return False
    return None


def _b_in_range(b, k, n):
    if not isinstance(b, B) or k not in syms(b):
        return b
    if b.op == 'cmp':
        r = _cmp_in_range(b.args[0], b.args[1], k, n)
        return b if r is None else (TRUE if r else FALSE)
    if b.op == 'not':
        return not_(_b_in_range(b.args[0], k, n))
    if b.op == 'and':
        return and_(*[_b_in_range(x, k, n) for x in b.args])
    if b.op == 'or':
        return or_(*[_b_in_range(x, k, n) for x in b.args])
    return b


def _in_range(q, k, n):
    """q with the conditions decided by 0 <= k < n resolved"""
    rep = {}
    for mono, _ in q.m:
        for aid, _p in mono:
            a = _ids[aid]
            if a.op == 'ite' and k in syms(a):
                c = _b_in_range(a.args[0], k, n)
                if c is not a.args[0]:
                    rep[a] = _in_range(topoly(ite(c, a.args[1], a.args[2])), k, n)
    return subst(q, rep) if rep else q


def _sum_atom(k, n, q):
    bd, dep = bind(k, q)
    return topoly(atom('sum', (n, dep, bd), 'i' if isint(q) else 'r'))


def _sum_term(k, n, q):
    # a sum over all tuples of a multi-index is a nested sum over its directions
    dg = set()
    _digits_of(q, k, dg)
    if dg:
        keys = {(a.args[1], a.args[2]) for a in dg}
        if len(keys) == 1:
            r, lens = next(iter(keys))
            tot = num(1)
            for x in lens:
                tot = pmul(tot, x)
            if tot is n and (r is topoly(k) or r is n - 1 - topoly(k)):
                vs = [fresh_bv() for _ in lens]
                q2 = subst(q, {a: topoly(vs[a.args[0]]) for a in dg})
                if not mentions(q2, k):
                    for v, x in zip(vs, lens):
                        q2 = sum_(v, x, q2)
                    return q2
    # nested sums over independent ranges: one order for all
    rng = [(k, n)]
    body = q
    while True:
        if len(body.m) != 1:
            break
        ss = [aid for aid, pw in body.m[0][0] if _ids[aid].op == 'sum']
        if len(ss) != 1 or dict(body.m[0][0])[ss[0]] != 1:
            break
        a = _ids[ss[0]]
        if any(mentions(a.args[0], v) for v, _ in rng):
            break
        v = fresh_bv()
        rng.append((v, a.args[0]))
        rest = _mk({tuple(z for z in body.m[0][0] if z[0] != ss[0]): body.m[0][1]})
        body = pmul(rest, subst(a.args[2], {bv(a.args[1]): topoly(v)}))
    if 2 <= len(rng) <= 4:
        import itertools
        best = None
        groups = {}
        for v, x in rng:
            groups.setdefault(x.id, []).append((v, x))
        perms = [sum(map(list, c), []) for c in itertools.product(
            *[list(itertools.permutations(groups[i])) for i in sorted(groups)])]
        if len(perms) == 1:
            t = body
            for v, x in reversed(perms[0]):
                t = sum_(v, x, t, False)
            return t
        for perm in perms:
            t = body
            for v, x in reversed(perm):
                t = _sum_atom(v, x, t)
            i = t.m[0][0][0][0]
            if best is None or i < best[0]:
                best = (i, perm)
        t = body
        for v, x in reversed(best[1]):
            t = sum_(v, x, t, False)
        return t
    return _sum_atom(k, n, q)


def prod_(k, n, body):
    c = cint(topoly(n))
    if c is not None and c <= 4:
        r = num(1)
        for i in range(max(c, 0)):
            r = r * subst(body, {k: num(i)})
        return r
    if body is num(1):
        return body
    bd, dep = bind(k, body)
    return topoly(atom('prod', (topoly(n), dep, bd), 'i' if isint(body) else 'r'))


def forall_(k, n, body):
    n = topoly(n)
    if body is TRUE:
        return TRUE
    c = cint(n)
    if c is not None and c <= 0:
        return TRUE
    if c is not None and c <= 8:
        return and_(*[subst(body, {k: num(i)}) for i in range(c)])
    if not mentions(body, k):
        return or_(le(n, 0), body)
    bd, dep = bind(k, body)
    return batom('forall', n, dep, bd)


def exists_(k, n, body):
    return not_(forall_(k, n, not_(body)))


# ------------------------------------------------------------------ traversal
_mentions_cache = {}


def syms(x):
    """frozenset of free sym/bv atoms and sequence names occurring in x (deep)"""
    key = id(x)
    r = _mentions_cache.get(key)
    if r is not None:
        return r[1]
    if isinstance(x, Atom):
        s = set()
        for y in _flat(x.args):
            if isinstance(y, (P, B, Atom, N)):
                s |= syms(y)
        if x.op in FREE:
            s.add(x)
        elif x.op in ('elem', 'len') and isinstance(x.args[0], str):
            s.add(x.args[0])
        if x.op in BINDERS:
            s.discard(bv(x.args[BINDERS[x.op]]))
        r = frozenset(s)
    elif isinstance(x, P):
        s = set()
        for mono, _ in x.m:
            for aid, _p in mono:
                s |= syms(_ids[aid])
        r = frozenset(s)
    elif isinstance(x, (B, N)):
        s = set()
        for y in _flat(x.args):
            if isinstance(y, (P, B, Atom, N)):
                s |= syms(y)
        if isinstance(x, N):
            if x.k == 'sseq':
                s.add(x.args[0])
            if x.k in NBINDERS:
                s.discard(bv(x.args[NBINDERS[x.k][0]]))
        r = frozenset(s)
    else:
        return frozenset()
    _mentions_cache[key] = (x, r)
    return r


def mentions(x, a):
    return a in syms(x)


def subst(x, rep, memo=None):
    """replace atoms by polynomials (or boolean atoms by booleans, sequence names by sequences) everywhere"""
    if not rep:
        return x
    if memo is None:
        memo = {}
    return _subst(x, rep, memo, frozenset(rep))


def _touch(x, keys):
    s = syms(x)
    for k in keys:
        if isinstance(k, str) or k.op in FREE:
            if k in s:
                return True
        else:
            return True
    return False


def _subst(x, rep, memo, keys):
    if not isinstance(x, (P, B, Atom, N)):
        if isinstance(x, tuple):
            return tuple(_subst(y, rep, memo, keys) for y in x)
        return x
    k = id(x)
    if k in memo:
        return memo[k][1]
    if not _touch(x, keys):
        memo[k] = (x, x)
        return x
    if isinstance(x, P):
        d = {}
        for mono, c in x.m:
            keep, fs = [], []
            for z in mono:
                f = _subst_atom(_ids[z[0]], rep, memo, keys)
                if f is topoly(_ids[z[0]]):
                    keep.append(z)
                else:
                    fs.append((f, z[1]))
            t = _mk({tuple(keep): c})
            for f, pw in fs:
                for _ in range(pw):
                    t = pmul(t, f)
            for k2, v2 in t.m:
                d[k2] = d.get(k2, 0) + v2
        r = _mk(d)
    elif isinstance(x, Atom):
        r = _subst_atom(x, rep, memo, keys)
    elif isinstance(x, B):
        if x in rep:
            r = rep[x]
        elif x.op == 'cmp':
            r = cmp_(x.args[0], _subst(x.args[1], rep, memo, keys))
            if r.op == 'cmp' and x.args[0] == 'eq' and is_zero(r.args[1]):
                r = TRUE
        elif x.op == 'and':
            r = and_(*[_subst(y, rep, memo, keys) for y in x.args])
        elif x.op == 'or':
            r = or_(*[_subst(y, rep, memo, keys) for y in x.args])
        elif x.op == 'not':
            r = not_(_subst(x.args[0], rep, memo, keys))
        elif x.op == 'atom':
            a = x.args[0]
            if a in rep:
                r = rep[a]
            elif a.op in ('forall', 'exists'):
                n, dep, body = a.args
                q = fresh_bv()
                body = _subst(subst(body, {bv(dep): topoly(q)}), rep, {}, keys)
                n = _subst(n, rep, memo, keys)
                r = forall_(q, n, body) if a.op == 'forall' else exists_(q, n, body)
            else:
                args = tuple(_subst(y, rep, memo, keys) for y in a.args)
                h = REBUILD.get(a.op)
                r = h(*args) if h else batom(a.op, *args)
        else:
            r = x
    else:
        r = _subst_node(x, rep, memo, keys)
    memo[k] = (x, r)
    return r


def _subst_node(x, rep, memo, keys):
    if x.k == 'sseq' and x.args[0] in rep:
        return REBUILD['sseq'](rep[x.args[0]], tuple(_subst(y, rep, memo, keys) for y in x.args[1]))
    if x.k in NBINDERS:
        di, bis = NBINDERS[x.k]
        q = fresh_bv()
        args = list(x.args)
        for i in range(len(args)):
            if i == di:
                continue
            if i in bis:
                args[i] = _subst(subst(args[i], {bv(x.args[di]): topoly(q)}), rep, {}, keys)
            else:
                args[i] = _subst(args[i], rep, memo, keys)
        bodies, d = bind_n(q, *[args[i] for i in bis])
        for i, b in zip(bis, bodies):
            args[i] = b
        args[di] = d
        return REBUILD_N.get(x.k, lambda *a: node(x.k, *a))(*args)
    args = tuple(_subst(y, rep, memo, keys) for y in x.args)
    h = REBUILD_N.get(x.k)
    return h(*args) if h else node(x.k, *args)


REBUILD_N = {}


def _subst_atom(a, rep, memo, keys):
    if a in rep:
        return topoly(rep[a])
    if not _touch(a, keys):
        return topoly(a)
    m = memo.get(id(a))
    if m is not None and isinstance(m[1], P):
        return m[1]
    if a.op in ('sum', 'prod'):
        n, dep, body = a.args
        q = fresh_bv()
        body = _subst(subst(body, {bv(dep): topoly(q)}), rep, {}, keys)
        n = _subst(n, rep, memo, keys)
        r = sum_(q, n, body) if a.op == 'sum' else prod_(q, n, body)
    elif a.op in BINDERS:
        di = BINDERS[a.op]
        q = fresh_bv()
        args = list(a.args)
        bi = len(args) - 1
        for i in range(len(args)):
            if i == di:
                continue
            if i == bi:
                args[i] = _subst(subst(args[i], {bv(a.args[di]): topoly(q)}, {}), rep, {}, keys)
            else:
                args[i] = _subst(args[i], rep, memo, keys)
        r = REBUILD_BINDER(a.op, args, di, q, a.sort)
    elif a.op in ('elem', 'len') and a.args[0] in rep:
        r = REBUILD[a.op](rep[a.args[0]], tuple(_subst(y, rep, memo, keys) for y in a.args[1:]), a)
    elif a.op in ('elem', 'len'):
        r = topoly(atom(a.op, tuple(_subst(y, rep, memo, keys) for y in a.args), a.sort))
    else:
        r = rebuild_atom(a.op, tuple(_subst(y, rep, memo, keys) for y in a.args), a.sort)
    memo[id(a)] = (a, r)
    return r


def REBUILD_BINDER(op, args, di, q, sort):
    body = args[-1]
    if isinstance(body, tuple):
        d = max([b.depth for b in body] + [0]) + 1
        args[-1] = tuple(subst(b, {q: topoly(bv(d))}) for b in body)
    else:
        d = body.depth + 1
        args[-1] = subst(body, {q: topoly(bv(d))})
    args[di] = d
    return topoly(atom(op, tuple(args), sort))


REBUILD = {}


def rebuild_atom(op, args, sort):
    if op == 'inv':
        return pinv(args[0])
    if op == 'ite':
        return ite(*args)
    h = REBUILD.get(op)
    if h:
        return h(*args)
    if op == 'fn' and args[0] == 'sqrt':
        return pure(*args, sort=sort)
    return topoly(atom(op, args, sort))


# ------------------------------------------------------------------ arithmetic helpers
def idiv(a, b, entails=None):
    """C++ integer division of (assumed) non-negative ints"""
    ca, cb = const(a), const(b)
    if cb is not None and cb == 1:
        return a
    if ca is not None and cb is not None and cb != 0:
        q = abs(int(ca)) // abs(int(cb))
        return num(q if (ca >= 0) == (cb > 0) else -q)
    q = pdiv_exact(a, b)
    if q is not None and isint(q):
        return q
    q, r = pdivmod_split(a, b)
    if q.m and entails is not None and entails(ge(r, 0)) and entails(lt(r, b)):
        return q
    return topoly(atom('idiv', (a, b), 'i'))


def imod(a, b, entails=None):
    """C++ remainder; kept as a - b*(a/b) so that quotient and remainder share one atom"""
    cb = const(b)
    if cb is not None and cb in (1, -1):
        return num(0)
    return a - b * idiv(a, b, entails)


REBUILD['idiv'] = lambda a, b: idiv(a, b)


def fabs(p):
    c = const(p)
    if c is not None:
        return num(abs(c))
    if p.m[-1][1] < 0:
        p = -p
    return topoly(atom('abs', (p,), 'i' if isint(p) else 'r'))


REBUILD['abs'] = lambda p: fabs(p)


def pure(name, *args, sort='r'):
    if name == 'sqrt':
        import math
        c = const(args[0])
        if c is not None and c >= 0:
            r = Fr(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r == c:
                return num(r)
    return topoly(atom('fn', (name,) + tuple(args), sort))


_unkn = [0]


def unk(why, sort='r', deps=()):
    _unkn[0] += 1
    return topoly(atom('unk', (_unkn[0], why), sort))


def bunk(why):
    _unkn[0] += 1
    return batom('bunk', _unkn[0], why)


# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.op == 'sym':
        return str(a.args[0])
    if a.op == 'bv':
        return '#%d' % a.args[0]
    if a.op == 'elem':
        return '%s[%s]' % (a.args[0], ','.join(map(str, a.args[1:])))
    if a.op == 'inv':
        return '1/(%s)' % (a.args[0],)
    if a.op == 'ite':
        return '(%s ? %s : %s)' % a.args
    if a.op in ('sum', 'prod', 'forall', 'exists'):
        return '%s{#%s<%s}(%s)' % (a.op, a.args[1], a.args[0], a.args[2])
    if a.op == 'unk':
        return '?%s:%s' % a.args[:2]
    return '%s(%s)' % (a.op, ', '.join(map(str, a.args)))


def show(p):
    if not p.m:
        return '0'
    out = []
    for mono, c in p.m:
        f = []
        for aid, pw in mono:
            s = show_atom(_ids[aid])
            f.append(s if pw == 1 else '%s^%d' % (s, pw))
        if not f:
            t = str(c)
        elif c == 1:
            t = '*'.join(f)
        elif c == -1:
            t = '-' + '*'.join(f)
        else:
            t = '%s*%s' % (c, '*'.join(f))
        out.append(t)
    return ' + '.join(out).replace('+ -', '- ')


def show_b(b):
    if b.op == 'cmp':
        rel, p = b.args
        return '%s %s 0' % (p, {'ge': '>=', 'gt': '>', 'eq': '=='}[rel])
    if b.op == 'and':
        return '(' + ' && '.join(map(str, b.args)) + ')'
    if b.op == 'or':
        return '(' + ' || '.join(map(str, b.args)) + ')'
    if b.op == 'not':
        return '!(%s)' % (b.args[0],)
    if b.op == 'atom':
        return show_atom(b.args[0])
    return b.op
