"""Decides the obligations of specification units (spec/*.cc) for a check module."""
import multiprocessing, os, sys, time, traceback
from . import prog as PR, spec
from .report import rel

_P = [None]


def _work(a):
    fid, secs, budget, q = a
    sys.setrecursionlimit(20000)
    h = spec.Harness(_P[0], secs)
    h.on_obligation = lambda o: q.put(('part', fid, (o.label, o.status, o.line, o.detail)))
    t0 = time.time()
    try:
        h.run(_P[0].fns[fid], budget)
        fail = h.failed
    except Exception:
        fail = 'internal: ' + traceback.format_exc()[-400:]
    I = h.I
    seen = sorted({'%s' % _P[0].fns[x]['n'] for x in I.fns_seen if x in _P[0].fns and
                   not _P[0].fns[x]['file'].startswith(PR.VERIF)})
    esc = [(t, l) for t, l, _ in getattr(h, 'escaped', [])]
    q.put((fid, [(o.label, o.status, o.line, o.detail) for o in h.obls], fail, seen, I.loops_summarised, I.steps,
           list(I.notes), time.time() - t0, esc))


def run(res, unit, tier, select=None, limit=None, secs=None, budget=400000):
    """interpret every specification function of `unit`; one obligation per v::prove"""
    sys.setrecursionlimit(20000)
    prog = spec.load_spec(unit)
    _P[0] = prog
    fns = [f for f in spec.spec_fns(prog) if (select is None or select(f['n'])) and
           (tier == 'thorough' or not f['sn'].startswith('spec_deep'))]
    if not fns:
        raise PR.AnalysisBroken('no specification functions in ' + unit)
    limit = limit or (240 if tier == 'quick' else 600)
    secs = secs or (4.0 if tier == 'quick' else 20.0)
    ctx = multiprocessing.get_context('fork')
    todo = list(fns)
    running = []
    got = {}
    part = {}

    def receive(timeout):
        r = q.get(timeout=timeout)
        if r[0] == 'part':
            part.setdefault(r[1], []).append(r[2])
        else:
            got[r[0]] = r
    q = ctx.Queue()
    while todo or running:
        while todo and len(running) < 8:
            f = todo.pop(0)
            p = ctx.Process(target=_work, args=((f['id'], secs, budget, q),))
            p.start()
            running.append((p, f, time.time()))
        while True:
            try:
                receive(.05)
            except Exception:
                break
        still = []
        for p, f, t in running:
            if f['id'] in got:
                p.join()
            elif not p.is_alive():
                p.join()
                try:
                    for _ in range(100):
                        if f['id'] not in got:
                            receive(.5)
                except Exception:
                    pass
                got.setdefault(f['id'], (f['id'], part.get(f['id'], []), 'analysis process ended', [], 0, 0, [], 0, []))
            elif time.time() - t > limit:
                p.kill()
                p.join()
                got[f['id']] = (f['id'], part.get(f['id'], []), 'time limit %d s' % limit, [], 0, 0, [], limit, [])
            else:
                still.append((p, f, t))
        running = still
    if all((got[f['id']][2] or '').startswith(('internal', 'analysis process')) for f in fns):
        raise PR.AnalysisBroken('every analysis of %s failed: %s' % (unit, got[fns[0]['id']][2]))
    allfn = set()
    loops = steps = 0
    for f in fns:
        _, obls, fail, seen, nl, ns, notes, dt, esc = got[f['id']]
        allfn |= set(seen)
        loops += nl
        steps += ns
        h = f['sn'][5:]
        for lab, st, line, det in obls:
            where = '%s (%s:%s)' % (h, unit, line)
            if st == 'held':
                res.held(lab, where)
            elif st == 'violated':
                res.violated(lab, where, det, key='%s|%s' % (lab, h))
            else:
                res.undecided(lab, where, det)
        if fail:
            res.undecided('analysis of ' + h, unit, fail)
        elif not obls:
            res.undecided('analysis of ' + h, unit, 'no obligation reached; escaped exceptions %s' % esc[:3])
        for n in notes:
            if n not in res.notes:
                res.notes.append(n)
    a = res.analysed
    a['specification units'] = a.get('specification units', 0) + len(fns)
    a['library functions interpreted'] = sorted(set(a.get('library functions interpreted', [])) | allfn)
    a['loops summarised'] = a.get('loops summarised', 0) + loops
    a['abstract steps'] = a.get('abstract steps', 0) + steps
    return prog
