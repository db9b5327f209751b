"""Running TLC on the specification."""
import json, os, re, shutil, subprocess, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')


def run(module, cfg=None, env=None, timeout=800, workers=8, extra=(), heap='8g'):
    """Run TLC; returns dict(out, rc, states, distinct, wall)."""
    meta = tempfile.mkdtemp(prefix='cvtlc')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', jars(), 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
           '-metadir', meta, '-config', cfg or module + '.cfg', *extra, module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', out): pass
    return {'out': out, 'rc': rc, 'states': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0, 'wall': time.time() - t0}


_jars = None
def jars():
    """the class path used by the installed tlc command"""
    global _jars
    if _jars is None:
        base = '/opt/veriftools/tla'
        found = []
        for d, _, fs in os.walk(base):
            found += [os.path.join(d, f) for f in fs if f.endswith('.jar')]
        found.sort(key=lambda f: (not f.endswith('tla2tools.jar'), f))
        _jars = ':'.join(found)
    return _jars


LINE = re.compile(r'^"(FAIL|DONE) (\d+)(?: (\d+) (\w+): (.*))?"$')


def validate(sessions, timeout=800, workers=8):
    """Trace validation of recorded sessions.  Returns (fails, done, crashed, stats):
    fails: {id: (pc, op, msg)}."""
    if not sessions: return {}, set(), {}, {'states': 0, 'distinct': 0, 'wall': 0.0}
    d = tempfile.mkdtemp(prefix='cvtrace')
    try:
        f = os.path.join(d, 'log.json')
        with open(f, 'w') as h: json.dump(sessions, h)
        r = run('CurverTrace', env={'CVTRACE': f}, timeout=timeout, workers=workers)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fails, done = {}, set()
    for line in r['out'].splitlines():
        m = LINE.match(line.strip())
        if m:
            if m.group(1) == 'DONE': done.add(int(m.group(2)))
            else: fails[int(m.group(2))] = (int(m.group(3)), m.group(4), m.group(5))
    stats = {k: r[k] for k in ('states', 'distinct', 'wall')}
    rest = [s for s in sessions if s['id'] not in fails and s['id'] not in done]
    crashed = {}
    if rest:
        if r['rc'] == -1:
            for s in rest: crashed[s['id']] = 'timeout'
        elif len(sessions) == 1:
            err = [l for l in r['out'].splitlines() if l.startswith('Error')]
            kind = 'evaluation' if any('evaluat' in l.lower() or 'attempted' in l.lower() for l in r['out'].splitlines()) and 'OutOfMemory' not in r['out'] else 'machinery'
            crashed[sessions[0]['id']] = kind + ': ' + ' | '.join(l.strip() for l in r['out'].splitlines() if 'ttempted' in l or l.startswith('Error'))[:400]
        else:
            # TLC stopped at some session: bisect
            h = len(rest) // 2
            parts = [rest[:h], rest[h:]] if len(rest) > 1 else [rest]
            t1 = time.time()
            for p in parts:
                if not p: continue
                if time.time() - t1 > timeout or len(fails) + len(crashed) >= 3:
                    for s in p: crashed.setdefault(s['id'], 'skipped')
                    continue
                f2, d2, c2, st2 = validate(p, timeout=max(30, timeout - r['wall']), workers=workers)
                fails.update(f2); done |= d2; crashed.update(c2)
                for k in stats: stats[k] += st2[k]
    return fails, done, crashed, stats
