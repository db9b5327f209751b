"""check.py <ID> [--tier quick|thorough]"""
import argparse, json, multiprocessing as mp, os, random, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props, tlc
from rec import Session, Stop

DEADLINE = None


def one(job):
    pid, seed, i, tier = job
    if DEADLINE is not None and time.time() > DEADLINE: return None
    rng = random.Random(f'{pid}/{seed}/{i}')
    s = Session(i)
    size = [0, 0, 1, 1, 1, 2][i % 6] if tier == 'quick' else [0, 1, 1, 2, 2, 2][i % 6]
    try:
        props.PROPS[pid]['prog'](rng, s, size)
    except Stop:
        pass
    except Exception:
        s.ev.append({'op': 'crash', 'why': traceback.format_exc(limit=3)})
    return s.data()


def sessions(pid, seed, n, tier, budget):
    global DEADLINE
    DEADLINE = time.time() + budget
    with mp.get_context('fork').Pool(8) as pool:
        out = [x for x in pool.imap_unordered(one, [(pid, seed, i, tier) for i in range(1, n + 1)], chunksize=2) if x is not None]
    return sorted((s for s in out if s['ev']), key=lambda s: s['id'])


def known(pid):
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k['property'] == pid and k['status'] == 'known']


def matches(k, s, pc, op, msg):
    ev = s['ev'][pc - 1]
    return all(ev.get(a) == b for a, b in k['event'].items()) and msg == k['message'] and all(t in s['T'] for t in k.get('triangulations', []))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--n', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    P = props.PROPS[a.pid]
    n = a.n or P['n'][0 if a.tier == 'quick' else 1]
    S = sessions(a.pid, a.seed, n, a.tier, 250 if a.tier == 'quick' else 3000)
    t1 = time.time()
    fails, done, crashed, st = tlc.validate(S, timeout=500 if a.tier == 'quick' else 6000)
    t2 = time.time()
    byid = {s['id']: s for s in S}
    viol, found, broken = [], [], []
    for i, (pc, op, msg) in sorted(fails.items()):
        k = next((k for k in known(a.pid) if matches(k, byid[i], pc, op, msg)), None)
        (found if k else viol).append((i, pc, f'{op}: {msg}', k))
    for i, why in crashed.items():
        if why.startswith('evaluation'): viol.append((i, len(byid[i]['ev']), 'behaviour outside the specification: ' + why, None))
        else: broken.append((i, why))
    extra = []
    for m in P.get('mc', []):
        extra.append(m(a.tier, a.seed))
    for x in extra: viol += [(0, 0, v, None) for v in x.get('violations', [])]; broken += [(0, b) for b in x.get('broken', [])]
    events = sum(len(s['ev']) for s in S)
    ops = {}
    for s in S:
        for e in s['ev']: ops[e['op']] = ops.get(e['op'], 0) + 1
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for j, (i, pc, what, _) in enumerate(viol[:20]):
        path = os.path.join(rdir, f'{a.pid}-{a.seed}-{i}.json')
        json.dump({'property': a.pid, 'seed': a.seed, 'tier': a.tier, 'session': byid.get(i), 'event': pc, 'what': what}, open(path, 'w'))
        lines.append(f'VIOLATION property={a.pid} replay={path}')
        print(f'# session {i} event {pc}: {what}', file=sys.stderr)
        print(lines[-1])
    for k in {json.dumps(x[3], sort_keys=True): x for x in found}.values():
        print(f'KNOWN-FINDING: property={a.pid} {k[3]["what"]}')
    sample = [{'id': s['id'], 'T': s['T'][:1], 'ev': s['ev'][:4]} for s in S[:2]]
    ev = {'property': a.pid, 'tier': a.tier, 'seed': int(a.seed) if str(a.seed).isdigit() else 1, 'level': P.get('level', 'model_checking'),
          'coverage': {'states': st['distinct'] + sum(x.get('distinct', 0) for x in extra), 'transitions': max(st['states'] - len(S), 0) + sum(x.get('states', 0) for x in extra),
                       'traces_validated_against_impl': len(done) + sum(x.get('traces', 0) for x in extra), 'samples': [json.dumps(x)[:1500] for x in sample] + [y for x in extra for y in x.get('samples', [])],
                       'sessions': len(S), 'events': events, 'events_by_kind': ops},
          'wall_s': round(time.time() - t0, 1), 'violations': len(viol), 'violating': [f'session {i} event {pc}: {w}' for i, pc, w, _ in viol[:20]],
          'assumptions': ['the TLA+ operators in spec/ define the intended meaning']}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', a.pid + '.json'), 'w'), indent=1)
    print(f'{a.pid}: {len(S)} sessions, {events} calls, {len(done)} accepted, {len(viol)} rejected; record {t1 - t0:.0f}s, check {t2 - t1:.0f}s', file=sys.stderr)
    if viol: return 1
    if broken or not done:
        for b in broken[:5]: print('# no verdict:', b, file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
