"""Loads the type-checked program (astdump JSON) of /repo's current tree plus the specification TU."""
import json, os, subprocess, sys, hashlib, concurrent.futures, glob, tempfile, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
FLAGS = ['-std=c++17', '-include', 'cstdint', '-include', 'stdexcept', '-w']


class AnalysisBroken(Exception):
    pass


def resource_dir():
    p = subprocess.run(['clang', '-print-resource-dir'], stdout=subprocess.PIPE, text=True)
    return p.stdout.strip() or '/usr/lib/llvm-18/lib/clang/18'


def includes():
    r = REPO
    inc = [os.path.join(r, 'src', d) for d in ('baf', 'spl', 'util', 'io', 'io/executables')]
    inc.append(os.path.join(r, 'external', 'pugixml'))
    # any further directory below src (new modules)
    for d, _, fs in os.walk(os.path.join(r, 'src')):
        if d not in inc and any(f.endswith('.h') for f in fs):
            inc.append(d)
    return inc


def ensure_tool():
    t = os.path.join(VERIF, 'build', 'astdump')
    p = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(t):
        raise AnalysisBroken('cannot build astdump: ' + p.stdout[-2000:])
    return t


def dump(tu, roots, out, extra=()):
    cmd = [os.path.join(VERIF, 'build', 'astdump'), '-root', ','.join(roots), '-o', out, tu, '--'] + FLAGS + list(extra)
    for i in includes():
        cmd += ['-I', i]
    cmd += ['-resource-dir', resource_dir()]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not os.path.exists(out) or os.path.getsize(out) == 0:
        raise AnalysisBroken('cannot parse %s:\n%s' % (tu, p.stderr[-3000:]))
    with open(out) as f:
        return json.load(f)


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cc') or f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


class Program:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.globals = {}
        self.by_name = {}
        self.tus = []
        self.derived = {}
        self.overriders = {}

    def add(self, d, tu):
        self.tus.append(tu)
        for f in d['functions']:
            if f['id'] not in self.fns:
                f['tu'] = tu
                self.fns[f['id']] = f
                self.by_name.setdefault(f['n'], []).append(f)
        for r in d['records']:
            self.recs.setdefault(r['n'], r)
        for g in d['globals']:
            self.globals.setdefault(g['n'], g)

    def finish(self):
        for r in self.recs.values():
            for b in r['bases']:
                self.derived.setdefault(b, set()).add(r['n'])
        for r in self.recs.values():
            for m in r['methods']:
                for o in m['overrides']:
                    self.overriders.setdefault(o, []).append((r['n'], m['id']))

    def bases(self, cls):
        out = [cls]
        r = self.recs.get(cls)
        if r:
            for b in r['bases']:
                out += self.bases(b)
        return out

    def all_fields(self, cls):
        """[(rec, name, type)] base fields first"""
        r = self.recs.get(cls)
        out = []
        if not r:
            return out
        for b in r['bases']:
            out += self.all_fields(b)
        for f in r['fields']:
            out.append((cls, f['n'], f['t']))
        return out

    def subclasses(self, cls):
        out = {cls}
        for d in self.derived.get(cls, ()):
            out |= self.subclasses(d)
        return out

    def final_overrider(self, cls, mid):
        """method id implementing mid for dynamic class cls"""
        for c in self.bases(cls):
            r = self.recs.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['id'] == mid:
                    return mid
                if self._overrides(m, mid):
                    return m['id']
        return mid

    def overridden(self, mid):
        """some class overrides the method"""
        c = self.__dict__.setdefault('_overridden', {})
        if mid not in c:
            c[mid] = any(m['id'] != mid and self._overrides(m, mid) for r in self.recs.values() for m in r['methods'])
        return c[mid]

    def _overrides(self, m, mid):
        todo = list(m['overrides'])
        while todo:
            o = todo.pop()
            if o == mid:
                return True
            f = self.fns.get(o)
            if f:
                todo += f.get('overrides', [])
            else:
                for r in self.recs.values():
                    for q in r['methods']:
                        if q['id'] == o:
                            todo += q['overrides']
        return False


def load(spec_tus=(), jobs=8, repo_sources=True):
    """parse every source of the repository and the given specification TUs"""
    ensure_tool()
    prog = Program()
    tmp = tempfile.mkdtemp(prefix='sa_', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        work = []
        if repo_sources:
            for s in sources():
                work.append((s, [os.path.join(REPO, 'src')], ()))
        for s in spec_tus:
            work.append((s, [os.path.join(REPO, 'src'), os.path.join(VERIF, 'spec')],
                         ('-fno-access-control', '-I', os.path.join(VERIF, 'spec'))))
        if not work:
            raise AnalysisBroken('no sources')
        def one(iw):
            i, (s, roots, extra) = iw
            return s, dump(s, roots, os.path.join(tmp, '%d.json' % i), extra)
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for s, d in ex.map(one, enumerate(work)):
                prog.add(d, s)
    finally:
        for f in glob.glob(os.path.join(tmp, '*.json')):
            os.unlink(f)
        os.rmdir(tmp)
    prog.finish()
    return prog


# ------------------------------------------------------------------ type strings
def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '):
            t = t[6:]
        if t.startswith('volatile '):
            t = t[9:]
        if t.endswith(' const'):
            t = t[:-6]
        if t.endswith('*const'):
            t = t[:-5]
        t = t.strip()
        if t == o:
            return t


def is_ref(t):
    return t.rstrip().endswith('&')


def deref_t(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def base_t(t):
    return strip_cv(deref_t(t))


def targs(t):
    """('std::vector', ['double', ...])"""
    t = base_t(t)
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    name, inner = t[:i], t[i + 1:-1]
    out, depth, cur = [], 0, ''
    for ch in inner:
        if ch in '<([{':
            depth += 1
        elif ch in '>)]}':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return name, out


INT_T = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
         'unsigned char', 'long long', 'unsigned long long', '__int128', 'unsigned __int128'}
FLT_T = {'double', 'float', 'long double'}
SEQ_T = {'std::vector', 'std::array', 'std::initializer_list', 'std::deque', 'std::list'}
PTR_T = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'}


STREAMS = ('std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_stringstream', 'std::basic_iostream')


def kind(t):
    b = base_t(t)
    if b in INT_T:
        return 'int'
    if b in FLT_T:
        return 'real'
    if b == 'bool':
        return 'bool'
    if b.endswith('*'):
        return 'rawptr'
    n, a = targs(b)
    if n in SEQ_T:
        return 'seq'
    if n in PTR_T:
        return 'ptr'
    if n.startswith('__gnu_cxx::__normal_iterator'):
        return 'iter'
    if n == 'std::basic_string':
        return 'string'
    if re.search(r'\[\d+\]$', b):
        return 'carray'
    return 'rec'


_tmpl = re.compile(r'<[^<>]*>')


def strip_targs(n):
    """std::vector<double>::begin -> std::vector::begin"""
    # protect operator<, operator<<, operator<=, operator->, operator>...
    m = re.search(r'operator\s*(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>)$', n)
    tail = ''
    if m:
        tail = n[m.start():]
        n = n[:m.start()]
    while True:
        o = n
        n = _tmpl.sub('', n)
        if o == n:
            return n + tail
