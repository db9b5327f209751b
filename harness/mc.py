"""The state machine spec/Curver.tla: TLC explores it exhaustively within the bounds of a configuration, checking its
invariants, and prints every transition; the transitions, and walks along them, are then made with the real code."""
import json, multiprocessing as mp, os, random, re, tempfile, traceback
from collections import defaultdict
import tlc
import rec
from rec import curver

EDGE = re.compile(r'^"EDGE (.*)"$')
S11 = [[0, 1, 2], [-1, -2, -3]]
S04 = [[0, 1, 2], [-1, 3, 4], [-2, -5, 5], [-3, -6, -4]]
S03 = [[0, 1, 2], [-1, -3, -2]]
S12 = [[0, 1, 2], [-1, 3, 4], [-2, 5, -4], [-3, -6, -5]]
S03L = [[0, -1, 1], [2, -3, -2]]
S11S03 = [[0, 1, 2], [-1, -2, -3], [3, 4, 5], [-4, -6, -5]]


def tri(t): return curver.create_triangulation([tuple(x) for x in t])


def key(t): return tuple(sorted(tuple(x) for x in t))


def move(T, m):
    op = m['op']
    if op == 'f': return T.encode_flip(m['e'])
    if op == 'm': return T.encode_multiflip(list(m['es']))
    if op == 'r':
        z = len(m['p']) // 2
        return T.encode_relabel_edges({i: m['p'][i + z] for i in range(-z, z)})
    c = T(list(m['w']))
    return c.encode_twist(power=m['k']) if op == 't' else c.encode_halftwist(power=m['k'])


def ints(l): return [int(w) for w in l]


def same_tri(T, t): return sorted(min((tuple(e.label for e in x.edges[i:] + x.edges[:i]) for i in range(3))) for x in T) == sorted(min(tuple(x[i:] + x[:i]) for i in range(3)) for x in t)


def bad(e, what): return f'{what}: {json.dumps(e)}'


def replay(edges):
    out, n = [], 0
    T = None
    lam, enc = {}, {}
    try:
        for e in edges:
            if len(out) >= 5: break
            k = key(e['t'])
            if T is None or k != tk: T, tk, lam, enc = tri(e['t']), k, {}, {}
            mk = json.dumps(e['m'])
            if mk not in enc: enc[mk] = move(T, e['m'])
            f = enc[mk]
            for a, b in (('x', 'u'), ('y', 'v')):
                w = tuple(e[a])
                if w not in lam: lam[w] = T(list(w))
                im = f(lam[w])
                n += 1
                if ints(im) != e[b]: out.append(bad(e, f'image of {a} is {ints(im)}')); break
                if not same_tri(im.triangulation, e['s']): out.append(bad(e, 'triangulation of the image')); break
            else:
                if not same_tri(f.target_triangulation, e['s']): out.append(bad(e, 'target of the move'))
    except BaseException as x:
        if isinstance(x, (KeyboardInterrupt, SystemExit)): raise
        out.append(bad(e, f'raised {type(x).__name__} {x}'))
    return out, n


def states(edges):
    """intersection numbers at the states, both ways round"""
    out, n, seen = [], 0, set()
    for e in edges:
        s = (key(e['t']), tuple(e['x']), tuple(e['y']))
        if s in seen or len(out) >= 5: continue
        seen.add(s)
        try:
            T = tri(e['t'])
            a, b = T(e['x']), T(e['y'])
            n += 1
            if a.intersection(b) != e['i'] or b.intersection(a) != e['i']: out.append(bad(e, f'intersection {a.intersection(b)}, {b.intersection(a)}'))
        except BaseException as x:
            if isinstance(x, (KeyboardInterrupt, SystemExit)): raise
            out.append(bad(e, f'raised {type(x).__name__} {x}'))
    return out, n


def walks(job):
    """products of the moves along walks in the graph, their inverses and slices"""
    edges, seed, count, length = job
    rng = random.Random(seed)
    start = defaultdict(list)
    for e in edges: start[key(e['t']), tuple(e['x']), tuple(e['y'])].append(e)
    keys = sorted(start)
    out, n = [], 0
    for _ in range(count):
        if len(out) >= 5: break
        at, w = rng.choice(keys), []
        while len(w) < length and at in start:
            e = rng.choice(start[at])
            w.append(e)
            at = key(e['s']), tuple(e['u']), tuple(e['v'])
        try:
            T = tri(w[0]['t'])
            fs, S = [], T
            for e in w:
                fs.append(move(S, e['m']))
                S = fs[-1].target_triangulation
            i = rng.randrange(len(fs) + 1)
            lo, hi = T.id_encoding(), (fs[i].source_triangulation if i < len(fs) else S).id_encoding()
            for f in fs[:i]: lo = f * lo
            for f in fs[i:]: hi = f * hi
            h = hi * lo
            g = h.inverse()
            n += 1
            for a, b in (('x', 'u'), ('y', 'v')):
                p, q = T(w[0][a]), S(w[-1][b])
                if ints(h(p)) != w[-1][b] or h(p) != q: out.append(bad([e['m'] for e in w], f'product on {w[0][a]} of {w[0]["t"]}')); break
                if ints(g(q)) != w[0][a] or g(q) != p: out.append(bad([e['m'] for e in w], f'inverse on {w[-1][b]} of {w[-1]["s"]}')); break
            else:
                if not (g * h).is_identity() or not (h * g).is_identity(): out.append(bad([e['m'] for e in w], 'inverse of the product'))
        except BaseException as x:
            if isinstance(x, (KeyboardInterrupt, SystemExit)): raise
            out.append(bad([e['m'] for e in w], f'raised {type(x).__name__} {x}'))
    return out, n


def explore(tier, seed, configs, parts=('replay',), cap=None):
    res = dict(violations=[], broken=[], distinct=0, states=0, traces=0, samples=[])
    for c in configs:
        d = dict(cfg='CurverLight.cfg' if tier == 'quick' else 'Curver.cfg', seed=2, seed2=1, bound=4, depth=99, ops=['f'], pows=[1], emit=True)
        d.update(c)
        f = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
        json.dump(d, f); f.close()
        try: r = tlc.run('Curver', cfg=d.pop('cfg'), env={'CVMC': f.name}, timeout=400 if tier == 'quick' else 3000)
        finally: os.unlink(f.name)
        if 'No error has been found' not in r['out']:
            err = [l for l in r['out'].splitlines() if l.startswith('Error')]
            res['broken'].append('Curver.tla: ' + (err[0] if err else f'rc {r["rc"]}'))
            continue
        res['distinct'] += r['distinct']; res['states'] += r['states']
        edges = [json.loads(json.loads('"' + m.group(1) + '"')) for l in r['out'].splitlines() for m in [EDGE.match(l)] if m]
        edges.sort(key=lambda e: (key(e['t']), json.dumps(e, sort_keys=True)))
        res['samples'].append(json.dumps(edges[len(edges) // 2]) if edges else '')
        if not edges: res['broken'].append('no transitions'); continue
        step = -(-len(edges) // 32)
        chunks = [edges[i:i + step] for i in range(0, len(edges), step)]
        with mp.get_context('fork').Pool(8) as pool:
            jobs = []
            if 'replay' in parts: jobs += [pool.apply_async(replay, (x,)) for x in chunks]
            if 'states' in parts: jobs += [pool.apply_async(states, (x,)) for x in chunks]
            if 'walks' in parts:
                count, length = cap or (400, 8)
                jobs += [pool.apply_async(walks, ((edges, f'{seed}/{i}', count // 8, length),)) for i in range(8)]
            for j in jobs:
                out, n = j.get()
                res['violations'] += out; res['traces'] += n
    return res


def hook(quick, thorough, **kw): return lambda tier, seed: explore(tier, seed, quick if tier == 'quick' else thorough, **kw)
