#!/usr/bin/env python3
"""Verifies /verif/seeded: seedcheck.py [ids]. Each patch applies, builds, passes
the stable tests, and its demonstration tells the changed tree from the unchanged one."""
import subprocess, sys, os, shutil, json
W = '/tmp/mw/seed'
os.makedirs(W, exist_ok=True)
base = json.load(open('/opt/vp/BASELINE.json'))
def ns(cmd):
    inner = f'mount --bind {W}/repo /repo && mount --bind {W}/seeded /verif && cd /repo && {cmd}'
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', inner], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
subprocess.run(['bash', '-c', f'mkdir -p {W}/repo {W}/seeded {W}/d; cp -au /repo/. {W}/repo/'])
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    subprocess.run(['git', '-C', W + '/repo', 'checkout', '-q', '--', '.'])
    s = f'/verif/seeded/{i}'
    d = f'{W}/seeded/{i}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in os.listdir(s):
        if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(f'{s}/{f}', d)
    r0 = ns(f'bash /verif/{i}/demo.sh')
    p = subprocess.run(['git', '-C', W + '/repo', 'apply', f'{s}/patch.diff'], stderr=subprocess.PIPE, text=True)
    t = ns('bash /opt/vp/build.sh && bash /opt/vp/test.sh /repo/target/o.json')
    try:
        o = json.load(open(W + '/repo/target/o.json'))
    except Exception as e: o = repr(e)
    r1 = ns(f'bash /verif/{i}/demo.sh')
    good = r0.returncode == 0 and p.returncode == 0 and t.returncode == 0 and r1.returncode not in (0, 2)
    print(i, 'OK' if good else 'BAD', 'demo', r0.returncode, r1.returncode, 'apply', p.returncode, 'tests', t.returncode, [l for l in t.stdout.splitlines() if 'FAILED' in l][:4], flush=True)
    if not good:
        print(p.stderr[-300:], r0.stdout[-500:], r1.stdout[-500:])
