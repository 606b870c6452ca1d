"""dev/mut.py FILE OLD NEW [more triples] -- CMD...   run CMD with SA_REPO set to a scratch copy with the replacement"""
import sys, shutil, os, subprocess, tempfile
i = sys.argv.index('--')
trip, cmd = sys.argv[1:i], sys.argv[i + 1:]
d = tempfile.mkdtemp(prefix='mut_')
try:
    shutil.copytree('/repo/src', d + '/src')
    os.symlink('/repo/external', d + '/external')
    for f, o, n in zip(trip[::3], trip[1::3], trip[2::3]):
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(o) < 1:
            sys.exit('pattern not found in ' + f)
        open(p, 'w').write(s.replace(o, n, 1))
    r = subprocess.run(cmd, env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d))
    sys.exit(r.returncode)
finally:
    shutil.rmtree(d)
