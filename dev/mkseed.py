"""development aid: mkseed.py ID PROPERTY file 'old' 'new' ... reads a small python spec from stdin
spec: dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=C++ source, srcs=[globs], extra=shell)"""
import os, subprocess, sys, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, property, needs, breaks, edits, demo, srcs='src/baf/*.cc', script=None):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
    try:
        for s in ('a', 'b'):
            shutil.copytree('/repo/src', os.path.join(w, s, 'src'))
        for f, old, new in edits:
            p = os.path.join(w, 'b', f)
            t = open(p).read()
            assert t.count(old) == 1, (id, f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        r = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=w, stdout=subprocess.PIPE, text=True)
        lines = [l for l in r.stdout.splitlines(True) if not l.startswith('diff -ruN')]
        open(os.path.join(d, 'patch.diff'), 'w').write(''.join(
            l.split('\t')[0] + '\n' if l.startswith(('--- ', '+++ ')) else l for l in lines))
    finally:
        shutil.rmtree(w)
    if demo:
        open(os.path.join(d, 'demo.cc'), 'w').write(demo)
    if script is None:
        script = '''#!/bin/bash
# exit 0 when the property holds for this scenario, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -include cstdint -include stdexcept -Isrc/baf -Isrc/spl -Isrc/util -Isrc/io -Isrc/io/executables \\
  -Iexternal/pugixml "$D/demo.cc" %s -o "$T/demo" || exit 9
cd "$T" && ./demo
''' % srcs
    open(os.path.join(d, 'demo.sh'), 'w').write(script)
    json.dump({'property': property, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


if __name__ == '__main__':
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
