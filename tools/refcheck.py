#!/usr/bin/env python3
"""Runs the checks on behaviour-preserving edits (refactor/*.diff): they have to stay quiet.
With --seeded: on the planted bugs (seeded/*/patch.diff), which the check of their property should catch.
usage: refcheck.py [--seeded] [-k substring] [-c C04,C05]"""
import subprocess, sys, os, glob, json, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
a = argparse.ArgumentParser(); a.add_argument('--seeded', action='store_true'); a.add_argument('-k', default=''); a.add_argument('-c', default=''); a.add_argument('-v', action='store_true'); a.add_argument('-j', type=int, default=7)
a = a.parse_args()
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
vt = tempfile.mktemp(prefix='vt-refcheck-')
subprocess.run(f'. /opt/vp/env.sh; cd {root}/analyzer && go build -o {vt} .', shell=True, check=True, executable='/bin/bash')
ids = a.c.split(',') if a.c else [c['property'] for c in json.load(open(f'{root}/MANIFEST.json'))['checks']]
def run(job):
    name, diff, checks = job
    d = tempfile.mkdtemp(prefix='refcheck-')
    out = []
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/r'], check=True)
        subprocess.run(['git', 'apply', diff], cwd=d + '/r', check=True)
        for c in checks:
            try:
                p = subprocess.run(['bash', '-c', f'. /opt/vp/env.sh; ulimit -v 12000000; {vt} check {c}'], env=dict(os.environ, REPO=d + '/r', VERIF_OUT=d + '/o'), capture_output=True, text=True, timeout=900)
                out.append((name, c, p.returncode, [l for l in p.stdout.splitlines()[1:] if l.strip()], p.stderr[-300:]))
            except subprocess.TimeoutExpired:
                out.append((name, c, 'timeout', [], ''))
    finally:
        shutil.rmtree(d)
    return out
jobs = []
if a.seeded:
    for m in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
        n = os.path.basename(os.path.dirname(m))
        jobs.append((n, os.path.dirname(m) + '/patch.diff', a.c.split(',') if a.c else [json.load(open(m))['property']]))
else:
    for f in sorted(glob.glob(f'{root}/refactor/*.diff')):
        jobs += [(os.path.basename(f)[:-5], f, [c]) for c in ids]
jobs = [j for j in jobs if a.k in j[0]]
bad = 0
with ThreadPoolExecutor(a.j) as ex:
    for res in ex.map(run, jobs):
        for name, c, rc, lines, err in res:
            want = 1 if a.seeded else 0
            if rc != want: bad += 1
            if rc != want or a.v or a.seeded:
                print(('ok   ' if rc == want else 'BAD  ') + f'{name} {c}: exit {rc} {err}')
                for l in lines[:3]: print('     ', l[:300])
print('unexpected results:', bad)
os.remove(vt)
