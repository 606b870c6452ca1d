"""Abstract values: structured sequences and their element / length functions."""
from .terms import *
from .terms import _mk, _flat, _ids
from . import terms
from .dom import entails, decide
from .prog import targs, kind, base_t

UNKN = [0]


def struct(cls, fields):
    return node('struct', cls, tuple(sorted(fields.items())))


def fields(s):
    return dict(s.args[1])


def slist(items):
    return node('list', tuple(items))


def sseq(name, prefix, et, ln):
    return node('sseq', name, tuple(prefix), et, ln)


def unkv(why, t=''):
    UNKN[0] += 1
    return node('unkv', UNKN[0], why, t)


VOID = node('void')
NULL = node('null')
EMPTY = slist(())
SEQK = {'list', 'sseq', 'comp', 'cat', 'slice', 'store', 'storeloop', 'flat', 'site'}


def is_seq(v):
    return isinstance(v, N) and v.k in SEQK and (v.k != 'site' or is_seq(v.args[1]))


PROG = [None]


def elemval(t, name, idx):
    """value of type t for an element of a symbolic family `name` at index tuple idx"""
    k = kind(t)
    if k == 'int':
        return topoly(atom('elem', (name,) + tuple(idx), 'i')) if idx else topoly(atom('sym', (name,), 'i'))
    if k == 'real':
        return topoly(atom('elem', (name,) + tuple(idx), 'r')) if idx else topoly(atom('sym', (name,), 'r'))
    if k == 'bool':
        return batom('belem', name, *idx)
    if k == 'seq':
        n, a = targs(t)
        if n == 'std::array':
            return slist([elemval(a[0], '%s.%d' % (name, i), idx) for i in range(int(a[1]))])
        return sseq(name, idx, a[0], topoly(atom('len', (name,) + tuple(idx), 'i')))
    if k == 'ptr' or k == 'rawptr':
        pt = targs(t)[1][0] if k == 'ptr' else base_t(t)[:-1].strip()
        r = PROG[0].recs.get(base_t(pt)) if PROG[0] else None
        if r is not None and r.get('abstract'):
            return node('optr', name, tuple(idx))
        return node('ptr', ('obj:' + name, tuple(idx)), ())   # lazily materialised object
    if k == 'rec':
        n = base_t(t)
        fs = PROG[0].all_fields(n) if PROG[0] else []
        if n in (PROG[0].recs if PROG[0] else {}):
            if len(fs) == 1:
                return struct(n, {fs[0][0] + '::' + fs[0][1]: elemval(fs[0][2], name, idx)})
            return struct(n, {r + '::' + f: elemval(ft, name + '.' + f, idx) for r, f, ft in fs})
    return node('unkv', -1, name, t)


def length(s):
    if s.k == 'list':
        return num(len(s.args[0]))
    if s.k == 'sseq':
        return s.args[3]
    if s.k == 'comp':
        return s.args[0]
    if s.k == 'cat':
        r = num(0)
        for p in s.args[0]:
            r = r + length(p)
        return r
    if s.k == 'slice':
        return s.args[2] - s.args[1]
    if s.k in ('store', 'storeloop'):
        return length(s.args[0])
    if s.k == 'flat':
        n, d, body = s.args
        k = fresh_bv()
        return sum_(k, n, length(subst(body, {bv(d): topoly(k)})))
    if s.k == 'site':
        return ite(s.args[0], length(s.args[1]), length(s.args[2]))
    return unk('len of ' + s.k, 'i')


def vite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isinstance(a, P) and isinstance(b, P):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return ite_b(c, a, b)
    if isinstance(a, N) and isinstance(b, N):
        if a.k == 'struct' and b.k == 'struct' and a.args[0] == b.args[0]:
            fa, fb = fields(a), fields(b)
            if set(fa) == set(fb):
                return struct(a.args[0], {k: vite(c, fa[k], fb[k]) for k in fa})
        if a.k == 'list' and b.k == 'list' and len(a.args[0]) == len(b.args[0]):
            return slist([vite(c, x, y) for x, y in zip(a.args[0], b.args[0])])
        if a.k == 'iter' and b.k == 'iter' and a.args[:2] == b.args[:2]:
            return node('iter', a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
        if a.k == 'unkv' and b.k == 'unkv':
            return a
        nc = not_(c)
        if terms._okey(nc) < terms._okey(c):
            return node('site', nc, b, a)
        return node('site', c, a, b)
    if isinstance(a, N) and a.k == 'unkv' or isinstance(b, N) and b.k == 'unkv':
        return unkv('join')
    return node('site', c, a, b)


def mkstruct_update(s, key, v):
    f = fields(s)
    f[key] = v
    return struct(s.args[0], f)


def elem(s, i, facts=()):
    """element i of sequence s (assumed in range)"""
    ci = cint(i)
    if s.k == 'list':
        items = s.args[0]
        if ci is not None:
            if 0 <= ci < len(items):
                return items[ci]
            return unkv('index %d outside list of %d' % (ci, len(items)))
        if not items:
            return unkv('element of empty list')
        r = None
        cand = []
        for j in range(len(items) - 1, -1, -1):
            d = decide(facts, eq(i, num(j)))
            if d is True:
                return items[j]
            if d is False:
                continue
            cand.append(j)
        if not cand:
            return unkv('no index')
        r = items[cand[0]]
        for j in cand[1:]:
            r = vite(eq(i, num(j)), items[j], r)
        return r
    if s.k == 'sseq':
        name, pre, et, ln = s.args
        return elemval(et, name, tuple(pre) + (i,))
    if s.k == 'comp':
        n, d, body = s.args
        return subst(body, {bv(d): i})
    if s.k == 'cat':
        off = num(0)
        parts = s.args[0]
        conds = []
        for j, p in enumerate(parts):
            ln = length(p)
            last = j == len(parts) - 1
            inside = TRUE if last else lt(i, off + ln)
            d = decide(facts, inside)
            if d is False:
                off = off + ln
                continue
            v = (inside, p, i - off)
            conds.append(v)
            if d is True:
                break
            off = off + ln
        r = elem(conds[-1][1], conds[-1][2], facts)
        for c, p, ix in reversed(conds[:-1]):
            r = vite(c, elem(p, ix, list(facts) + [c]), r)
        return r
    if s.k == 'slice':
        return elem(s.args[0], s.args[1] + i, facts)
    if s.k == 'store':
        base, j, v = s.args
        d = decide(facts, eq(i, j))
        if d is True:
            return v
        b = elem(base, i, facts)
        if d is False:
            return b
        return vite(eq(i, j), v, b)
    if s.k == 'storeloop':
        base, n, d, g, v, gd = s.args
        k = fresh_bv()
        kp = topoly(k)
        g = subst(g, {bv(d): kp})
        v = subst(v, {bv(d): kp})
        gd = subst(gd, {bv(d): kp})
        sol = solve_linear(g, k, i, facts)
        if sol is None:
            return unkv('storeloop index')
        ks, extra = sol
        c = and_(ge(ks, 0), lt(ks, n), extra, subst(gd, {k: ks}))
        dd = decide(facts, c)
        val = subst(v, {k: ks})
        if dd is True:
            return val
        b = elem(base, i, facts)
        if dd is False:
            return b
        return vite(c, val, b)
    if s.k == 'flat':
        n, d, body = s.args
        k = fresh_bv()
        b0 = subst(body, {bv(d): topoly(k)})
        m = length(b0)
        ent = lambda g: entails(facts, g)
        if mentions(m, k):
            # the place is a number of elements before block j
            for a in sorted(atoms_of(i), key=lambda a: a.id):
                if a.op == 'sum':
                    j = a.args[0]
                    q = fresh_bv()
                    r = i - sum_(q, j, subst(m, {k: topoly(q)}))
                    if ent(ge(r, 0)) and ent(lt(r, subst(m, {k: j}))) and ent(ge(j, 0)) and ent(lt(j, n)):
                        return elem(subst(b0, {k: j}), r, facts)
            return unkv('ragged')
        q = idiv(i, m, ent)
        r = imod(i, m, ent)
        return elem(subst(b0, {k: q}), r, facts)
    if s.k == 'site':
        c, a, b = s.args
        d = decide(facts, c)
        if d is True:
            return elem(a, i, facts)
        if d is False:
            return elem(b, i, facts)
        return vite(c, elem(a, i, list(facts) + [c]), elem(b, i, list(facts) + [not_(c)]))
    return unkv('elem of ' + s.k)


def solve_linear(g, k, target, facts):
    """solve g(k) == target for k where g is linear in k: (k*, side condition)"""
    c1, rest = num(0), num(0)
    for mono, c in g.m:
        d = dict(mono)
        pw = d.pop(k.id, 0)
        if pw > 1:
            return None
        m = _mk({tuple(sorted(d.items())): c})
        if mentions(m, k):
            return None
        if pw:
            c1 = c1 + m
        else:
            rest = rest + m
    if not c1.m:
        return None
    diff = target - rest
    q = pdiv_exact(diff, c1)
    if q is not None and isint(q):
        return q, TRUE
    ent = lambda x: entails(facts, x)
    q = idiv(diff, c1, ent)
    return q, eq(q * c1, diff)


def cat(*parts):
    out = []
    for p in parts:
        if p.k == 'cat':
            ps = p.args[0]
        else:
            ps = (p,)
        for q in ps:
            if q.k == 'list' and not q.args[0]:
                continue
            if out and q.k == 'list' and out[-1].k == 'list':
                out[-1] = slist(out[-1].args[0] + q.args[0])
                continue
            if out and q.k == 'slice' and out[-1].k == 'slice' and q.args[0] is out[-1].args[0] \
                    and q.args[1] is out[-1].args[2]:
                out[-1] = mkslice(q.args[0], out[-1].args[1], q.args[2])
                continue
            out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return node('cat', tuple(out))


def mkslice(base, lo, hi, facts=()):
    ln = length(base)
    if peq(lo, num(0)) and peq(hi, ln):
        return base
    if peq(lo, hi):
        return EMPTY
    if base.k == 'slice':
        return mkslice(base.args[0], base.args[1] + lo, base.args[1] + hi)
    if base.k == 'list' and cint(lo) is not None and cint(hi) is not None:
        return slist(base.args[0][cint(lo):cint(hi)])
    if base.k == 'cat':
        # cut along part boundaries when decidable
        off = num(0)
        parts = []
        ok = True
        for p in base.args[0]:
            l = length(p)
            a = decide(facts, le(lo, off))
            b = decide(facts, ge(hi, off + l))
            if a is True and b is True:
                parts.append(p)
            elif decide(facts, le(hi, off)) is True or decide(facts, ge(lo, off + l)) is True:
                pass
            else:
                if a is None or b is None:
                    ok = False
                    break
                x = num(0) if a is True else lo - off
                y = l if b is True else hi - off
                parts.append(mkslice(p, x, y, facts))
            off = off + l
        if ok:
            return cat(*parts)
    if base.k == 'comp':
        n, d, body = base.args
        k = fresh_bv()
        b0 = subst(body, {bv(d): lo + topoly(k)})
        return comp(k, hi - lo, b0)
    return node('slice', base, lo, hi)


def comp(k, n, body):
    c = cint(n)
    if c is not None and c <= 8:
        return slist([subst(body, {k: num(i)}) for i in range(max(c, 0))])
    (b,), d = bind_n(k, body)
    return node('comp', n, d, b)


def flat(k, n, body):
    """concatenation over k<n of sequence body(k)"""
    c = cint(n)
    if c is not None and c <= 8:
        return cat(*[subst(body, {k: num(i)}) for i in range(max(c, 0))])
    if body.k == 'list' and len(body.args[0]) == 1:
        return comp(k, n, body.args[0][0])
    if body.k == 'comp' and not mentions(body, k):
        m, d, b = body.args
        q = fresh_bv()
        b0 = subst(b, {bv(d): topoly(q)})
        if not mentions(b0, q):
            return comp(q, n * m, b0)
    (b,), d = bind_n(k, body)
    return node('flat', n, d, b)


def store(base, i, v, facts=()):
    if base.k == 'list':
        ci = cint(i)
        items = base.args[0]
        if ci is not None:
            if 0 <= ci < len(items):
                return slist(items[:ci] + (v,) + items[ci + 1:])
            return unkv('store outside list')
        return slist([vite(eq(i, num(j)), v, items[j]) for j in range(len(items))])
    if base.k == 'store':
        b, j, w = base.args
        if peq(i, j):
            return store(b, i, v, facts)
    if base.k == 'site':
        return vite(base.args[0], store(base.args[1], i, v, facts), store(base.args[2], i, v, facts))
    return node('store', base, i, v)


# rebuilders used by substitution
def _rb_elem(seq, idx, at):
    v = seq
    for i in idx:
        if not is_seq(v):
            return unk('elem of non-seq', at.sort)
        v = elem(v, i, ())
        while isinstance(v, N) and v.k == 'struct' and len(v.args[1]) == 1:
            v = v.args[1][0][1]
    if isinstance(v, P):
        return v
    return unk('elem', at.sort)


terms.REBUILD['elem'] = _rb_elem
terms.REBUILD['len'] = lambda seq, idx, at: length(_rb_seq(seq, idx)) if is_seq(_rb_seq(seq, idx)) else unk('len', 'i')


def _rb_seq(seq, idx):
    v = seq
    for i in idx:
        v = elem(v, i, ())
        while isinstance(v, N) and v.k == 'struct' and len(v.args[1]) == 1:
            v = v.args[1][0][1]
    return v


terms.REBUILD['sseq'] = _rb_seq
terms.REBUILD_N['site'] = vite
terms.REBUILD_N['cat'] = lambda parts: cat(*parts)
terms.REBUILD_N['list'] = lambda items: slist(items)
terms.REBUILD_N['slice'] = lambda b, lo, hi: mkslice(b, lo, hi)
terms.REBUILD_N['store'] = lambda b, i, v: store(b, i, v)


def _rb_comp(n, d, body):
    c = cint(n)
    if c is not None and c <= 8:
        return slist([subst(body, {bv(d): num(i)}) for i in range(max(c, 0))])
    return node('comp', n, d, body)


terms.REBUILD_N['comp'] = _rb_comp


# ------------------------------------------------------------------ mixed-radix digits (multi-index contract)
def digit(d, r, lens):
    """value of direction d of the multi index with lengths `lens` and one-dimensional number r"""
    L = num(1)
    for x in lens:
        L = L * x
    if not r.m:
        return num(0)
    cl = cint(lens[d])
    if cl is not None and cl == 1:
        return num(0)
    # normalise r modulo L
    q, rest = pdivmod_split(r, L) if L.m and const(L) is None else (None, r)
    if q is not None and q.m:
        # r = q*L + rest ; constant rest 0 -> all zeros, negative rest -1 -> last index
        cr = const(rest)
        if cr is not None and cr == 0:
            return num(0)
        if cr is not None and cr == -1:
            return lens[d] - 1
        if len(q.m) == 1 and const(q) is not None:
            r = rest if not _neg(rest) else rest + L
    cr = cint(r)
    if cr is not None and all(cint(x) is not None for x in lens):
        for j in range(d):
            cr //= cint(lens[j])
        return num(cr % cint(lens[d]))
    return topoly(atom('digit', (d, r, tuple(lens)), 'i'))


def _neg(p):
    c = const(p)
    if c is not None:
        return c < 0
    # leading behaviour unknown; treat as negative when every coefficient is negative
    return all(v < 0 for _, v in p.m)


terms.REBUILD['digit'] = digit
