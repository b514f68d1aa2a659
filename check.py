#!/opt/venv/bin/python
"""check.py <property> [--replay FILE]      (tier from VERIF_TIER, seed from VERIF_SEED)

exit 0: held on everything explored; 1: VIOLATION; 2: inconclusive / error of the check
"""
import os, sys, json, time, subprocess, tempfile, shutil, importlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'


def main():
    from vh import core
    if sys.argv[1] == '--setup':          # nothing to build: see that the library can be imported
        tmp = tempfile.mkdtemp(prefix='vhs_')
        try:
            core.load(tmp)
        finally:
            os.chdir(HERE)
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    pid = sys.argv[1].upper()
    if len(sys.argv) > 2 and sys.argv[2] == '--worker':
        a = json.loads(sys.argv[3])
        core.worker(**a)
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        r = json.load(open(sys.argv[3]))
        tier, seed, only = r['tier'], r['seed'], r['index']
    mod = importlib.import_module(f'vh.checks.{pid.lower()}')
    ncases = int(os.environ.get('VERIF_CASES', mod.QUICK if tier == 'quick' else mod.THOROUGH))
    nsh = 1 if only is not None else int(os.environ.get('VERIF_SHARDS', min(8, os.cpu_count() or 1)))
    budget = 240 if tier == 'quick' else 780
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vhr_')
    try:
        procs = []
        for k in range(nsh):
            a = dict(pid=pid, tier=tier, seed=seed, shard=k, nshards=nsh, ncases=ncases,
                     budget=budget, outfile=os.path.join(tmp, f'{k}.json'), only=only)
            log = open(os.path.join(tmp, f'{k}.log'), 'w')
            procs.append((k, subprocess.Popen([sys.executable, os.path.abspath(__file__), pid,
                                            '--worker', json.dumps(a)], stdout=log, stderr=log,
                                            stdin=subprocess.DEVNULL, cwd=tmp)))
        res, errors = [], []
        for k, p in procs:
            try:
                rc = p.wait(timeout=max(1, budget + 130 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 'timeout'
            try:
                res.append(json.load(open(os.path.join(tmp, f'{k}.json'))))
            except Exception:
                errors.append(f'shard {k} rc={rc}: '
                              + open(os.path.join(tmp, f'{k}.log'), errors='replace').read()[-3000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    ev, known, sigs, viol, samples = {}, {}, set(), [], []
    for r in res:
        for k, v in r['events'].items():
            ev[k] = ev.get(k, 0) + v
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
        sigs |= set(r['sigs'])
        viol += r['violations']
        samples += r['samples']
    seen, samp = set(), []
    for s in samples:
        if s['scenario'] not in seen and len(samp) < 6:
            seen.add(s['scenario'])
            samp.append(s)
    cases = sum(r['cases'] for r in res)
    wall = time.time() - t0
    if only is None:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(dict(
                property=pid, tier=tier, seed=seed, level='exploration',
                coverage=dict(evaluations=cases, distinct_nontrivial=len(sigs), rule=mod.RULE,
                              samples=samp, observed=dict(sorted(ev.items())),
                              undecided_cases=sum(r['skipped'] for r in res),
                              worst_error_over_tolerance=max([r['maxerr'] for r in res] or [0]),
                              truncated_by_time=any(r['truncated'] for r in res),
                              known_findings_seen=known, shards=len(res), shard_errors=errors),
                assumptions=getattr(mod, 'ASSUMPTIONS', []),
                wall_s=round(wall, 2), violations=len(viol)), f, indent=1)
    for text in known:
        print(f'KNOWN-FINDING: property={pid} {text}')
    if only is None:
        for fn in glob.glob(os.path.join(HERE, 'replays', pid + '-*.json')):
            os.remove(fn)
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for v in sorted(viol, key=lambda v: v['index'])[:4]:
            path = os.path.join(HERE, 'replays', f"{pid}-{v['tier']}-{v['seed']}-{v['index']}.json")
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print(f"  [{v['scenario']} #{v['index']}] {v['what'][:400]}")
            for k in ('err', 'limit', 'got', 'want', 'trace'):
                if k in v:
                    print(f"      {k}: {str(v[k])[-600:]}")
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        print('ERROR of the check:\n' + '\n'.join(errors))
        return 2
    if only is None:
        need = dict(getattr(mod, 'MIN_EVENTS', {}))
        need.setdefault('oracle_verdicts', 1)
        for n, *_ in mod.SCENARIOS:
            need.setdefault('scenario ' + n, 1)
        lacking = {k: (ev.get(k, 0), v) for k, v in need.items() if ev.get(k, 0) < v}
        if lacking and cases >= mod.QUICK:
            print(f'INCONCLUSIVE: property={pid} monitors observed too little: {lacking}')
            return 2
    print(f'{pid}: held; {cases} cases, {len(sigs)} distinct non-trivial, '
          f"{ev.get('oracle_verdicts', 0)} verdicts, {sum(r['skipped'] for r in res)} undecided, "
          f'{wall:.1f}s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
