#!/usr/bin/env python3
"""Self-test: apply textual mutants to a scratch copy of /repo's sources and see which checks notice.
usage: mut.py MUTANTS.py [name-substring]   (MUTANTS.py defines M = [(name, file, old, new, [checks])])"""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = sys.argv[2] if len(sys.argv) > 2 else ''


def one(m):
    name, f, old, new, checks = m
    d = '/tmp/mut/%s' % name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/eskf_vio_backend', d + '/eskf_vio_backend', ignore=shutil.ignore_patterns('build', 'output'))
    p = d + '/eskf_vio_backend/' + f
    s = open(p).read()
    if s.count(old) < 1:
        return name, 'PATTERN NOT FOUND'
    open(p, 'w').write(s.replace(old, new, 1))
    res = []
    for c in checks:
        r = subprocess.run(['python3', V + '/run.py', c, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        what = [l for l in r.stdout.split('\n') if 'Conf_' in l][:1]
        res.append('%s=%d %s' % (c, r.returncode, what[0][:110] if what else ('' if r.returncode == 0 else r.stdout[-300:])))
    shutil.rmtree(d, ignore_errors=True)
    return name, ' | '.join(res)


with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for n, r in ex.map(one, [m for m in ns['M'] if sel in m[0]]):
        print(n, '->', r, flush=True)
