"""plant.py NAME: verify /verif/seeded/NAME in a scratch copy: demo passes before and fails after, the tests still pass,
and report what the property's quick check says.  --notest skips the tests; --check-only runs only the check."""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout

for name in [a for a in sys.argv[1:] if not a.startswith('-')]:
    d = f'{R}/seeded/{name}'
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='plant')
    try:
        shutil.copytree('/repo', w + '/r', symlinks=True)
        r = w + '/r'
        dd = w + '/demo'
        shutil.copytree(d, dd)
        demo = f'bash {dd}/demo.sh'
        res = {}
        if '--check-only' not in sys.argv:
            res['demo before'] = sh(demo, r, 300, {'PYTHONPATH': r})[0]
        rc, out = sh(f'git apply {d}/patch.diff', r)
        if rc: print(name, 'PATCH DOES NOT APPLY', out); continue
        if '--check-only' not in sys.argv:
            rc, out = sh(demo, r, 300, {'PYTHONPATH': r})
            res['demo after'] = (rc, out.strip().splitlines()[-1:] if out.strip() else '')
            if '--notest' not in sys.argv:
                rc, out = sh(f"ulimit -v 8000000; " + f'PYTHONPATH=$PWD PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 HYPOTHESIS_STORAGE_DIRECTORY={w}/h /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 8 --runslow --hypothesis-profile=dev --hypothesis-seed=3 --timeout=180', r, 1500)
                res['tests'] = out.strip().splitlines()[-1]
        if '--nocheck' not in sys.argv:
            rc, out = sh(f'timeout 900 bash {R}/check.sh {meta["property"]} --tier quick', R, 1000, {'CURVER_REPO': r, 'VERIF_EVIDENCE': w})
            res['check'] = (rc, [x[:110] for x in out.splitlines() if x.startswith('# ')][:2], out.count('VIOLATION'))
        print(name, meta['property'], json.dumps(res), flush=True)
    finally:
        shutil.rmtree(w)
