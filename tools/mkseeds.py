#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from the list below and validates each (development tool, never run by a check)

mkseeds.py write                     writes all
mkseeds.py test [ID...]              applies to only original lines, the 11 stable tests pass, the demo shows it
mkseeds.py checks [-n FRACTION] [ID...]   runs the check of the property (and the others until one catches)
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlist import SEEDS, PRE
OUT = '/verif/seeded'
P = 'src/pyRFtk/'
TMP = '/tmp/seedwt'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
SH = '''#!/bin/bash
# cwd is the repository; exit 0: the property holds for this case, 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$(pwd)/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 exec /opt/venv/bin/python "$D/demo.py"
'''


def apply(base, edits):
    for f, old, new in edits:
        p = f'{base}/{P}{f}.py'
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))


def mkcopy(k):
    d = f'{TMP}/{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    return d


def write(s):
    d = mkcopy(s['id'])
    apply(d, s['edits'])
    diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
    o = f'{OUT}/{s["id"]}'
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    open(o + '/demo.sh', 'w').write(SH)
    os.chmod(o + '/demo.sh', 0o755)
    open(o + '/demo.py', 'w').write(PRE + s['demo'].lstrip('\n'))
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
    return d, diff


def test(s):
    d, diff = write(s)
    msg = []
    base = subprocess.run(['git', '-C', d, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
    f = None
    n = 0
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', d, 'blame', '-l', '-s', '-L', f'{n},{n}', 'HEAD', '--', f], capture_output=True, text=True).stdout
            if base[:39] not in b:
                msg.append(f'NOT ORIGINAL {f}:{n} {l}')
            n += 1
        elif l.startswith(' '):
            n += 1
    if not any(l.startswith('-') and not l.startswith('---') for l in diff.split('\n')):
        msg.append('NO REMOVED LINE')
    r0 = subprocess.run(['bash', f'{OUT}/{s["id"]}/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300)
    r1 = subprocess.run(['bash', f'{OUT}/{s["id"]}/demo.sh'], cwd=d, capture_output=True, text=True, timeout=300)
    if r0.returncode != 0:
        msg.append('DEMO FAILS UNPATCHED ' + (r0.stdout + r0.stderr)[-300:])
    if r1.returncode == 0:
        msg.append('DEMO PASSES PATCHED')
    # the stable tests, in the way of /opt/vp/test.sh
    w = d + '_t'
    shutil.rmtree(w, ignore_errors=True)
    t = subprocess.run(['bash', '/verif/tools/stable.sh', d, w], capture_output=True, text=True)
    if t.returncode:
        msg.append('TESTS ' + (t.stdout + t.stderr)[-300:])
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(w, ignore_errors=True)
    return s['id'], msg, (r1.stdout + r1.stderr).strip().split('\n')[-1][:150]


def checks(s, frac, every):
    d = mkcopy(s['id'] + '_c')
    apply(d, s['edits'])
    env = dict(os.environ, VERIF_REPO=d, VERIF_SHARDS='1' if every else '2', OMP_NUM_THREADS='1', VERIF_SEED='1')
    res = []
    order = [s['prop']] + ([c for c in ['C%02d' % k for k in range(1, 31)] if c != s['prop']] if every else [])
    for pid in order:
        src = open(f'/verif/vh/checks/{pid.lower()}.py').read()
        n = int(eval([l for l in src.split('\n') if l.startswith('QUICK')][0].split('=')[1])[0])
        env['VERIF_CASES'] = str(int(n * (frac if pid == s['prop'] or not every else frac / 3)))
        r = subprocess.run(['/opt/venv/bin/python', '/verif/check.py', pid], env=env, capture_output=True, text=True)
        if f'VIOLATION property={pid}' in r.stdout:
            res.append(pid)
        elif r.returncode and 'INCONCLUSIVE' not in r.stdout + r.stderr:
            res.append(pid + '?' + (r.stdout + r.stderr)[-200:])
    shutil.rmtree(d, ignore_errors=True)
    return s['id'], s['prop'], res


if __name__ == '__main__':
    a = sys.argv[1:]
    cmd = a.pop(0)
    frac, every = 1., False
    if a[:1] == ['-n']:
        frac = float(a[1])
        a = a[2:]
    if a[:1] == ['-a']:
        every = True
        a = a[1:]
    sel = [s for s in SEEDS if not a or s['id'] in a]
    with ThreadPoolExecutor(4) as ex:
        if cmd == 'write':
            for s in sel:
                write(s)
        elif cmd == 'test':
            for i, m, o in ex.map(test, sel):
                print(i, 'OK' if not m else m, '|', o, flush=True)
        else:
            for i, p, r in ex.map(lambda s: checks(s, frac, every), sel):
                print(i, p, 'CAUGHT' if p in r else 'MISSED', r, flush=True)
                q = '/verif/tools/seedresults.json'
                d = json.load(open(q)) if os.path.exists(q) else {}
                e = d.setdefault(i, dict(first='yes' if p in r else 'no'))
                e['caught'] = r if every else sorted(set(e.get('caught', []) + r) - ({p} - set(r)))
                json.dump(d, open(q, 'w'), indent=0, sort_keys=True)
