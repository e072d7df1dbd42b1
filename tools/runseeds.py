"""Run the quick check of each planted bug's property against a copy of /repo with the bug (all properties with --all)."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
every = '--all' in sys.argv
props = sorted(c['property'] for c in json.load(open(f'{VERIF}/MANIFEST.json'))['checks'])
OUT = f'{VERIF}/tools/seedresults.json'
saved = json.load(open(OUT)) if os.path.exists(OUT) else {}
d = tempfile.mkdtemp(prefix='seedrun.')
try:
    w = os.path.join(d, 'repo')
    shutil.copytree('/repo', w, symlinks=True)
    for s in args or sorted(os.listdir(f'{VERIF}/seeded')):
        meta = json.load(open(f'{VERIF}/seeded/{s}/meta.json'))
        subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
        r = subprocess.run(['git', '-C', w, 'apply', f'{VERIF}/seeded/{s}/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            print(s, 'DOES NOT APPLY', r.stderr[:200])
            continue
        res = []
        for p in (props if every else [meta['property']]):
            if p not in props:
                res.append(f'{p}:none')
                continue
            r = subprocess.run(['bash', f'{VERIF}/check.sh', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w, VERIF_EVIDENCE=d))
            hit = r.returncode == 1 and f'VIOLATION property={p} ' in r.stdout
            e = saved.setdefault(s, {'caught_by': []})
            e['caught_by'] = sorted(set(e['caught_by']) - {p} | ({p} if hit else set()))
            keys = [l.strip()[4:] for l in r.stdout.splitlines() if l.strip().startswith('key=')]
            if not every or r.returncode:
                res.append(f'{p}:{"caught" if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout else "MISSED rc=%d" % r.returncode} {keys[:2]}')
        print(s, '; '.join(res) or 'MISSED by all', flush=True)
        saved = {k: v for k, v in saved.items() if os.path.isdir(f'{VERIF}/seeded/{k}')}
        json.dump(saved, open(OUT, 'w'), indent=1, sort_keys=True)
finally:
    shutil.rmtree(d)
