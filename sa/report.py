"""Common driver of all checks: load the program, run one property's analysis, write evidence, print the verdict."""
import importlib, json, os, sys, time, traceback
from . import prog as PR

VERIF = PR.VERIF
INST = os.path.join(VERIF, 'spec', 'inst.cc')


class Result:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = []     # dicts: rule, where, status(held|violated|undecided), detail
        self.assumptions = []
        self.notes = []
        self.analysed = {}
        self.rule = ''

    def held(self, rule, where, detail=''):
        self.obligations.append({'rule': rule, 'where': where, 'status': 'held', 'detail': detail})

    def violated(self, rule, where, detail, key=None):
        self.obligations.append({'rule': rule, 'where': where, 'status': 'violated', 'detail': detail,
                                 'key': key or (rule + '|' + where)})

    def undecided(self, rule, where, detail=''):
        self.obligations.append({'rule': rule, 'where': where, 'status': 'undecided', 'detail': detail})

    def need(self, count, minimum, what):
        """a rule that matches fewer instances than confirmed by hand is broken, not passing"""
        self.analysed[what] = count
        if count < minimum:
            raise PR.AnalysisBroken('%s: only %d instances found, at least %d expected' % (what, count, minimum))


def rel(p):
    p = p or ''
    for root in (PR.REPO, VERIF):
        if p.startswith(root + '/'):
            return p[len(root) + 1:]
    return p


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if not ln:
                continue
            d = json.loads(ln)
            if d.get('property') == pid and d.get('status') == 'known':
                out[d['key']] = d
    return out


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('sa.checks.' + pid.lower())
    res = Result(pid)
    try:
        mod.run(res, tier)
    except PR.AnalysisBroken as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    if not res.obligations:
        print('ANALYSIS-BROKEN property=%s no obligations were generated' % pid)
        return 2
    known = known_findings(pid)
    viol = [o for o in res.obligations if o['status'] == 'violated']
    new = [o for o in viol if o['key'] not in known]
    old = [o for o in viol if o['key'] in known]
    held = sum(o['status'] == 'held' for o in res.obligations)
    und = [o for o in res.obligations if o['status'] == 'undecided']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLANATION,
            'rule': getattr(mod, 'RULE', mod.EXPLANATION),
            'obligations': len(res.obligations), 'discharged': held, 'undecided': len(und), 'violated': len(viol),
            'analysed': res.analysed,
            'undecided_list': [{'rule': o['rule'], 'where': o['where'], 'detail': str(o['detail'])[:300]} for o in und][:80],
            'samples': [{'rule': o['rule'], 'where': o['where'], 'status': o['status'],
                         'detail': str(o['detail'])[:300]} for o in res.obligations[:60]],
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
            'trusted_base': ['clang 18 front end (parsing, name and template resolution)', 'the models of the C++ standard library in /verif/sa'],
        },
        'assumptions': res.assumptions + getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    evd = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' %
          (pid, len(res.obligations), held, len(und), len(viol), time.time() - t0))
    for o in und[:int(os.environ.get('SA_SHOW', '10'))]:
        print('  undecided: %s at %s: %s' % (o['rule'], o['where'], str(o['detail'])[:400]))
    seen = set()
    for o in old:
        if o['key'] not in seen:
            seen.add(o['key'])
            print('KNOWN-FINDING: property=%s %s' % (pid, known[o['key']].get('what', o['key'])))
    if new:
        rp = os.path.join(evd, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o in new:
                f.write('rule: %s\nwhere: %s\ndetail: %s\n\n' % (o['rule'], o['where'], o['detail']))
        for o in new[:20]:
            print('  %s: %s' % (o['where'], o['rule']))
            print('      %s' % str(o['detail'])[:600])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
