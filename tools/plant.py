"""Plant a bug: python3 tools/plant.py DEFS.py  - DEFS.py calls plant(...)
Confirms in a scratch copy of /repo that the patch touches original lines only, that the stable tests
pass with it and that the demonstration passes without and fails with it, then stores it under seeded/."""
import json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ROOT = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd=None, **k):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env, timeout=300, **k)


def plant(sid, prop, edits, needs, breaks, demo):
    d = tempfile.mkdtemp(prefix='plant.')
    try:
        w = os.path.join(d, 'repo')
        shutil.copytree('/repo', w, symlinks=True)
        sh('git checkout -q -- .', w)
        for f, old, new in edits:
            p = os.path.join(w, 'onnx_tool', f)
            s = open(p, newline='').read()
            if s.count(old) != 1:
                print(f'{sid}: text occurs {s.count(old)} times: {old[:80]!r}')
                return False
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = sh('git diff', w).stdout
        # changed lines must be of the base commit
        own = orig = 0
        for f in {e[0] for e in edits}:
            blame = sh(f'git blame -s -l HEAD -- onnx_tool/{f}', w).stdout.splitlines()
            fd = sh(f'git diff -U0 -- onnx_tool/{f}', w).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    if blame[k - 1].lstrip('^').startswith(ROOT[:30]):
                        orig += 1
                    else:
                        own += 1
        if not orig or own:
            print(f'{sid}: {orig} original and {own} own lines changed')
            return False
        dd = os.path.join(d, 'demo')
        os.makedirs(dd)
        open(os.path.join(dd, 'demo.py'), 'w').write(demo.lstrip('\n'))
        open(os.path.join(dd, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        r = sh(f'PYTHONPATH={w} {PY} -m pytest -q -p no:cacheprovider --ignore=tests/test_model_profile.py --continue-on-collection-errors -rA tests', w)
        bad = [t for t in STABLE if not re.search('PASSED ' + re.escape(t.replace('.', '/', 1).replace('::', '.py::', 1)), r.stdout)]
        if bad:
            print(f'{sid}: tests fail {bad} {r.stdout[-500:]}')
            return False
        r = sh(f'bash {dd}/demo.sh', w)
        if r.returncode == 0:
            print(f'{sid}: the demonstration passes with the patch')
            return False
        why = (r.stderr.strip().splitlines() or ['?'])[-1]
        sh('git checkout -q -- .', w)
        r = sh(f'bash {dd}/demo.sh', w)
        if r.returncode != 0:
            print(f'{sid}: the demonstration fails without the patch: {r.stderr[-600:]}')
            return False
        t = os.path.join(VERIF, 'seeded', sid)
        if os.path.isdir(t):
            shutil.rmtree(t)
        shutil.copytree(dd, t)
        open(os.path.join(t, 'patch.diff'), 'w', newline='').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(t, 'meta.json'), 'w'), indent=1)
        print(f'{sid}: planted ({why[:100]})')
        return True
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(open(f).read())
