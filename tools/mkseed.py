"""mkseed.mk(name, prop, file, old, new, needs, breaks, demo): write /verif/seeded/NAME from a textual edit."""
import json, os, subprocess, tempfile, shutil
R = '/verif/seeded/'
HEAD = "import sys, os, random\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\nimport curver\nK = curver.kernel\nrng = random.Random(1)\n"
def mk(name, prop, edits, needs, breaks, demo):
    d = R + name
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    shutil.copytree('/repo', w + '/r', symlinks=True)
    for file, old, new in edits:
        p = f'{w}/r/curver/kernel/{file}'
        s = open(p).read()
        assert s.count(old) == 1, (name, file, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run('git diff', shell=True, cwd=w + '/r', stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(HEAD + demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
