"""Runs specification units through the abstract interpreter and collects their obligations."""
import os, time
from .terms import *
from . import terms, dom, evalm
from .values import *
from .prog import *
from . import prog as progm
from .interp import *


class Obl:
    def __init__(self, label, status, fn, line, detail, notes):
        self.label, self.status, self.fn, self.line, self.detail, self.notes = label, status, fn, line, detail, notes


class Harness:
    def __init__(self, prog, secs=6.0, prove_secs=40.0):
        self.prove_secs = prove_secs
        self.prog = prog
        self.secs = secs
        self.obls = []
        self.on_obligation = lambda o: None

    def run(self, f, budget=400000):
        """interpret specification function f; returns its obligations"""
        I = Interp(self.prog)
        I.MAXSTEPS = budget
        self.I = I
        if f['sn'].startswith('spec_raw'):      # decides the multi-index contract itself
            I.std.contract_classes = set()
        dom.Ctx.sorted_seqs = set()
        self.names = {}
        self.cur = f
        self.obls = []
        for n in ('any_int', 'any_real', 'any_bool', 'any', 'assume', 'prove', 'note', 'throws', 'throws_a', 'forall',
                  'exists', 'sum', 'each', 'abstractly', 'is', 'numbers', 'written', 'inside'):
            fn = getattr(self, 'i_' + n)
            for g in self.calls_of('v::' + n):
                I.intrinsics[g] = fn
        # contract of the tokeniser: one token per number, whose value is that number
        I.intrinsics['util::StringOperations::split'] = I.std.texts.split
        I.intrinsics['util::StringOperations::StringToDouble'] = I.std.texts.to_number
        I.intrinsics['util::StringOperations::trim'] = lambda e: I.std.texts.text(I.ev(e['args'][0]))
        fr = Frame(f)
        I.frames.append(fr)
        self.failed = None
        try:
            o = I.exec(f['body'], I.st)
        except Limit as e:
            self.failed = 'analysis limit: ' + str(e)
        except terms.Blowup:
            self.failed = 'term growth'
        except RecursionError:
            self.failed = 'recursion'
        self.escaped = [(t, l, st) for st, t, l in I.throws]
        return self.obls

    def calls_of(self, name):
        return [name]

    def text(self, s):
        v = self.I.ev(s)
        if getattr(v, 'k', None) == 'str':
            return v.args[0]
        raise Limit('name is not a literal: %r' % (v,))

    def argname(self, e):
        n = self.text(e['args'][0])
        if len(e['args']) > 1:
            i = cint(self.I.num(self.I.ev(e['args'][1])))
            if i:
                n = '%s_%d' % (n, i)
        return n

    def i_any_int(self, e):
        return topoly(atom('sym', (self.argname(e),), 'i'))

    def i_any_real(self, e):
        return topoly(atom('sym', (self.argname(e),), 'r'))

    def i_any_bool(self, e):
        return batom('bsym', self.argname(e))

    def i_any(self, e):
        t = deref_t(e['fn']['rt'])
        n = self.argname(e)
        return self.I.alloc(self.symval(t, n, ''), 'any_' + n, t, local=False)

    def symval(self, t, name, owner):
        I = self.I
        k = kind(t)
        if k == 'int':
            return topoly(atom('sym', (name,), 'i'))
        if k == 'real':
            return topoly(atom('sym', (name,), 'r'))
        if k == 'bool':
            return batom('bsym', name)
        if k == 'seq':
            n, a = targs(t)
            if n == 'std::array':
                return slist([self.symval(a[0], '%s%d' % (name, i), owner) for i in range(int(a[1]))])
            if owner == 'baf::KnotVector':
                dom.Ctx.sorted_seqs.add(name)
            return sseq(name, (), a[0], topoly(atom('len', (name,), 'i')))
        if k == 'ptr':
            pt = targs(t)[1][0]
            b = base_t(pt)
            r = I.prog.recs.get(b)
            if r is None or r.get('abstract'):
                return node('optr', name, ())
            return I.alloc(self.symval(pt, name, ''), 'heap_' + name, b, local=False)
        if k == 'rec':
            b = base_t(t)
            if b in I.prog.recs:
                fs = {}
                al = I.prog.all_fields(b)
                for r, f, ft in al:
                    fs[r + '::' + f] = self.symval(ft, name if len(al) == 1 else name + '.' + f, b)
                return struct(b, fs)
        return node('unkv', -1, name, t)

    def i_assume(self, e):
        self.I.assume(self.I.cond(e['args'][0]))
        return VOID

    def i_is(self, e):
        I = self.I
        a, b = (terms.topoly(I.ev(x)) for x in e['args'][:2])
        fact = terms.eq(a, b)
        I.assume(fact)
        d = a - b
        cands = []
        for mono, c in a.m:
            if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1:
                at = terms._ids[mono[0][0]]
                if not at.hasbv and dict(d.m).get(mono) == c:
                    cands.append((at.op not in ('sum', 'ub', 'lb', 'idiv'), at.id, at, c))
        if cands and fact is not terms.TRUE:
            _, _, at, c = min(cands)
            v = terms.topoly(at) - terms.pscale(d, terms.Fr(1) / c)
            if at not in terms.atoms_of(v):
                rep = {at: v}
                memo = {}
                I.known = {k: terms.subst(x, rep) for k, x in I.known.items()}
                I.known[at] = v
                I.st.mem = {k: terms.subst(x, rep, memo) for k, x in I.st.mem.items()}
                I.st.path = [fact] + [f for f in (terms.subst(x, rep, memo) for x in I.st.path if x is not fact) if f is not terms.TRUE]
        return VOID

    def i_note(self, e):
        v = self.I.ev(e['args'][0])
        print('NOTE', e['args'][1].get('v'), v, self.I.facts())
        return VOID

    def lab(self, e):
        return self.text(e['args'][1])

    def i_prove(self, e):
        I = self.I
        lab = self.lab(e)
        st0 = I.st.copy()
        try:
            g = I.cond(e['args'][0])
        except Dead:
            g = None
        if g is None:
            st, det = 'undecided', 'statement does not evaluate'
        else:
            st, det = self.judge(I.facts(), g)
        self.obls.append(Obl(lab, st, self.cur['n'], e.get('l'), det, list(I.notes)))
        self.on_obligation(self.obls[-1])
        I.st = st0
        if g is not None and st == 'held' and g.exact:
            I.assume(g)
        return VOID

    def judge(self, facts, g):
        if g is TRUE or g in facts:
            return 'held', ''
        fo, go = dom.opaque(facts, g)
        if (go is not g or fo is not facts) and (go is TRUE or entails(fo, go)):
            return 'held', ''
        g = dom.resolve(g, facts)
        if g is TRUE:
            return 'held', ''
        if g.exact:
            w = evalm.witness(facts, g, trials=300, secs=min(1.5, self.secs))
            if w is not None and w[0] is not None:
                return 'violated', 'fails for ' + evalm.show_model(w[0])
        if entails(facts, g):
            return 'held', ''
        fo, go = dom.opaque(facts, g)
        if go is not g or fo is not facts:
            g2 = go if go is TRUE else dom.under(go, fo)
            if g2 is TRUE or entails(fo, g2):
                return 'held', ''
        g2 = dom.under(g, facts)
        if g2 is not g and (g2 is TRUE or entails(facts, g2)):
            return 'held', ''
        xs = dom.simp_sums([g] + list(facts), facts)
        if any(a is not b for a, b in zip(xs, [g] + list(facts))):
            g3, f3 = xs[0], [f for f in xs[1:] if f is not TRUE]
            if g3 is not TRUE and FALSE not in f3:
                g3 = dom.under(dom.resolve(g3, f3), f3)
            if g3 is TRUE or g3 in f3 or FALSE in f3 or entails(f3, g3):
                return 'held', ''
            f4, g4 = dom.opaque(f3, g3)
            if g4 is TRUE or entails(f4, g4):
                return 'held', ''
        dom.LIMIT_SECS, old = self.prove_secs, dom.LIMIT_SECS
        dom.LIMIT_CASES, oldc = 6000, dom.LIMIT_CASES
        try:
            if entails(facts, g) or g2 is not g and entails(facts, g2) or self.again(facts, g):
                return 'held', ''
        finally:
            dom.LIMIT_SECS, dom.LIMIT_CASES = old, oldc
        if not g.exact:
            return 'undecided', 'summary not exact: ' + show_b(g)
        w = evalm.witness(facts, g, secs=self.secs)
        if w is None:
            return 'undecided', 'a guard is not exactly modelled'
        m, stats = w
        if m is None:
            return 'undecided', 'neither proved nor refuted %s: %s' % (stats, show_b(g))
        return 'violated', 'fails for ' + evalm.show_model(m)

    def again(self, facts, g):
        """the search depends on the order of the facts: try others"""
        if g.op == 'and':
            return all(entails(facts, x) or self.again(facts, x) for x in g.args)
        fs = [f for f in dom.relevant(facts, g) + [not_(g)] if f is not TRUE]
        for o in (fs[::-1], sorted(fs, key=lambda f: f.id), sorted(fs, key=lambda f: -f.depth)):
            try:
                if dom._Search(1500).run(list(o)):
                    return True
            except (dom.Budget, Blowup):
                pass
        return False

    def closure(self, e, i=0):
        return self.I.ev(e['args'][i])

    def thrown(self, e, match):
        I = self.I
        f = self.closure(e)
        saved = I.throws
        I.throws = []
        base = len(I.st.path)
        s0 = I.st
        I.st = s0.copy()
        items = []
        try:
            I.call_value(f, None, [])
            items.append((I.st, FALSE))
        except Dead:
            pass
        mine, I.throws = I.throws, saved
        for st, t, l in mine:
            m = match(t)
            items.append((st, bunk('not known') if m is None else TRUE if m else FALSE))
        if not items:
            I.st = s0
            return bunk('never returns')
        m = I.merge(items, base)
        I.st = m[0]
        return m[1] if m[1] is not None else bunk('throws')

    def i_inside(self, e):
        I = self.I
        old, I.checked = I.checked, True
        seen = {}

        def prover(g):
            facts = I.facts()
            key = (g, tuple(facts))
            if key not in seen:
                h = dom.resolve(g, facts)
                seen[key] = h is TRUE or entails(facts, h) or self.weaker(facts, h)
            return seen[key]
        I.prover = prover
        try:
            r = self.thrown(e, lambda t: None if t == 'unknown' else t == 'subscript')
        finally:
            I.checked = old
        return terms.not_(r)

    def weaker(self, facts, g):
        fo, go = dom.opaque(facts, g)
        if go is TRUE or (go is not g or fo is not facts) and entails(fo, go):
            return True
        g2 = dom.under(g, facts)
        return g2 is TRUE or g2 is not g and entails(facts, g2)

    def i_abstractly(self, e):
        I = self.I
        f = self.closure(e)
        old, I.abstractly = I.abstractly, True
        try:
            return I.call_value(f, None, [])
        finally:
            I.abstractly = old

    def i_numbers(self, e):
        I = self.I
        return I.std.texts.text(I.ev(e['args'][0]))

    def i_written(self, e):
        p = self.I.std.texts.stream
        return self.I.std.texts.text(self.I.read(p[1])) if p is not None else unkv('no file written', 'std::vector<double>')

    def i_throws(self, e):
        return self.thrown(e, lambda t: True)

    def i_throws_a(self, e):
        ta = e.get('ta') or e['fn'].get('ta')
        return self.thrown(e, lambda t: self.I.exc_match(t, ta[0]))

    def quant(self, e):
        I = self.I
        n = I.num(I.ev(e['args'][0]))
        f = self.closure(e, 1)
        return n, I.std.pure_at(n, lambda k: I.call_value(f, None, [k])), f

    def i_forall(self, e):
        n, r, _ = self.quant(e)
        return forall_(r[0], n, self.I.bool(r[1])) if r else bunk('forall')

    def i_exists(self, e):
        n, r, _ = self.quant(e)
        return exists_(r[0], n, self.I.bool(r[1])) if r else bunk('exists')

    def i_sum(self, e):
        n, r, _ = self.quant(e)
        return sum_(r[0], n, self.I.num(r[1])) if r else unk('sum')

    def i_each(self, e):
        I = self.I
        n = I.num(I.ev(e['args'][0]))
        f = self.closure(e, 1)
        cn = cint(n)
        s0, nt = I.st, len(I.throws)
        for j in ([None] if cn is None else range(cn)):
            I.st = s0.copy()
            if j is None:
                k = topoly(fresh_bv())
                I.st.path = list(I.st.path) + [ge(k, 0), lt(k, n)]
            else:
                k = num(j)
            try:
                I.call_value(f, None, [k])
            except Dead:
                pass
        del I.throws[nt:]
        I.st = s0
        return VOID


def load_spec(name):
    return progm.load([os.path.join(VERIF, 'spec', name)])


def spec_fns(prog, prefix='spec_'):
    out = []
    for f in prog.fns.values():
        if f['file'].startswith(VERIF + '/spec') and f['sn'].startswith(prefix) and f.get('body') is not None and not f['params']:
            out.append(f)
    return sorted(out, key=lambda f: (f['file'], f['l'], f['n'], f['id']))


if __name__ == '__main__':
    import sys
    p = load_spec(sys.argv[1])
    for f in spec_fns(p):
        if len(sys.argv) > 2 and sys.argv[2] != '-n' and sys.argv[2] not in f['n']:
            continue
        t = time.time()
        h = Harness(p)
        h.run(f)
        print('==', f['n'], '%.1fs' % (time.time() - t), 'steps', h.I.steps, h.failed or '', 'escaped', [(t, l) for t, l, _ in h.escaped][:5])
        for o in h.obls:
            print('  ', o.status, o.label, o.detail[:6000])
        if '-n' in sys.argv:
            print('   notes', h.I.notes)
