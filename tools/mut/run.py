#!/usr/bin/env python3
"""Mutation runs: run.py MUTANTS.py [-j N] [-k only-ids] [--all]

Every mutant runs in a mount namespace of its own, with a mutated copy of /repo
at /repo and a copy of /verif at /verif, so that neither is touched.
MUTANTS.py defines M = [(id, [properties], [(file, old, new), ...]), ...]; an
empty property list means the behaviour is unchanged (all checks must be quiet).
"""
import sys, os, subprocess, json, shutil, threading, queue, time, argparse, importlib.util
ap = argparse.ArgumentParser()
ap.add_argument('file'); ap.add_argument('-j', type=int, default=3)
ap.add_argument('-k', default=''); ap.add_argument('--all', action='store_true')
ap.add_argument('--props', default=''); ap.add_argument('--out', default=os.environ.get('MW', '/tmp/mw') + '/out')
ap.add_argument('--first', action='store_true', help='stop at the first check that catches it'); ap.add_argument('--skip-tests', action='store_true'); ap.add_argument('--tier', default='quick')
a = ap.parse_args()
sys.path.insert(0, os.path.dirname(os.path.abspath(a.file))); spec = importlib.util.spec_from_file_location('m', a.file); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
W = os.environ.get('MW', '/tmp/mw'); os.makedirs(a.out, exist_ok=True)
ALL = ['C%02d' % i for i in range(1, 28)]
SLOW = {'C20', 'C21'}
todo = queue.Queue()
for t in m.M:
    if a.k and t[0] not in a.k.split(','): continue
    todo.put(t)
lock = threading.Lock()
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def prepare(n):
    d = f'{W}/{n}'; os.makedirs(d, exist_ok=True)
    sh(['rsync', '-a', '--delete', '--exclude=.git', '/verif/', d + '/verif/']) if shutil.which('rsync') else sh(['bash', '-c', f'mkdir -p {d}/verif; cp -au /verif/. {d}/verif/'])
    sh(['bash', '-c', f'mkdir -p {d}/repo; cp -au /repo/. {d}/repo/'])
    return d
def ns(d, cmd, timeout):
    inner = f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /repo && {cmd}'
    try:
        return subprocess.run(['unshare', '-Urm', 'bash', '-c', inner], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), None)
def one(d, t):
    mid, props, edits = t
    for sub in ('src',): 
        shutil.rmtree(f'{d}/repo/{sub}', ignore_errors=True); shutil.copytree(f'/repo/{sub}', f'{d}/repo/{sub}')
    for e in edits:
        if len(e) == 4:  # (file, _, lines, n): replaces line n
            f, _, new, ln = e; p = f'{d}/repo/{f}'; ls = open(p).read().split('\n'); ls[ln:ln+1] = new.strip('\n').split('\n') if new.strip('\n') else []
            open(p, 'w').write('\n'.join(ls)); continue
        f, old, new = e
        p = f'{d}/repo/{f}'; s = open(p).read()
        cnt = 1
        if isinstance(old, tuple): old, which = old; parts = s.split(old); assert len(parts) > which + 1, (mid, old); s = old.join(parts[:which+1]) + new + old.join(parts[which+1:])
        elif old == '$': s += new
        else:
            assert s.count(old) == 1, (mid, f, old, s.count(old)); s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh(['git', '-C', d + '/repo', 'diff', '--no-color']).stdout
    open(f'{a.out}/{mid}.diff', 'w').write(diff)
    res = {}
    if not a.skip_tests:
        r = ns(d, 'bash /opt/vp/test.sh /repo/target/o.json', 100)
        log = r.stdout
        bad = [l for l in log.splitlines() if 'FAILED' in l or l.startswith('error')]
        res['tests'] = 'ok' if r.returncode == 0 and not bad else 'FAIL ' + '; '.join(bad[:3])
        if res['tests'] != 'ok':
            open(f'{a.out}/{mid}.test.log','w').write(log)
            if a.first:
                with lock: print(mid, 'fails the tests', flush=True)
                return
    which = a.props.split(',') if a.props else (ALL if (a.all or not props) else props)
    for p in which:
        t0 = time.time()
        r = ns(d, f'bash /verif/check.sh {p} {a.tier}', 1200)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = 'caught' if r.returncode == 1 and any(f'property={p} ' in l + ' ' for l in v) else ('quiet' if r.returncode == 0 else f'RC{r.returncode}')
        res[p] = f'{ok} {time.time()-t0:.0f}s'
        open(f'{a.out}/{mid}.{p}.log', 'w').write(r.stdout)
        if a.first and ok == 'caught': break
    with lock:
        flag = ''
        if props and not any(res.get(p, '').startswith('caught') for p in props): flag = '  <<<< MISSED'
        if not props and any(not v.startswith('quiet') for k, v in res.items() if k != 'tests'): flag = '  <<<< ALARM'
        if any('RC' in v for v in res.values()): flag += ' RC!'
        print(mid, res if not a.all else {k: v for k, v in res.items() if not v.startswith('quiet')}, flag, flush=True)
def work(n):
    d = prepare(n)
    while True:
        try: t = todo.get_nowait()
        except queue.Empty: return
        try: one(d, t)
        except Exception as e:
            with lock: print(t[0], 'ERROR', repr(e)[:300], flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]
