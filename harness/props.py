"""Programs that exercise each property: prog(rng, session, size) drives one session."""
import random

import gen


def T0(rng, s, size=1, **k):
    t = gen.rand_tri(rng, size, **k)
    return t, s.tri(t)


def wl(rng, t, size=1, kind=None, **k):
    return gen.rand_lam(rng, t, kind, maxweight=[24, 40, 60][size], **k) if rng.random() < 0.85 or kind else gen.small_vector(rng, t)


# C01 -- flips
def c01(rng, s, size):
    t, ti = T0(rng, s, size)
    ls = [s.lam(ti, gen.small_vector(rng, t) if rng.random() < 0.5 else wl(rng, t, size)) for _ in range(3)]
    for _ in range(rng.choice([1, 2, 3])):
        fl = t.flippables()
        if not fl: return
        if rng.random() < 0.45:
            es, sup = [], set()
            rng.shuffle(fl)
            for e in fl:
                a, b = t.tri(e), t.tri(~e)
                if a not in sup and b not in sup:
                    es.append(e)
                    sup |= {a, b}
            es = es[:rng.choice([1, 2, 3, len(es)])]
            e = s.enc(ti, [set(es)], rng.choice(['multiflip', 'encode']))
            for x in es: t = t.flip(x)
        else:
            x = rng.choice(fl)
            e = s.enc(ti, [x], rng.choice(['flip', 'encode']))
            t = t.flip(x)
        ti2 = len(s.T)
        new = [s.app(e, l) for l in ls]
        i = s.inv(e)
        for l in new: s.app(i, l)
        if rng.random() < 0.3: s.triobs(ti2)
        h = s.hom(ti, [rng.randint(-3, 3) for _ in range(t.z)])
        h2 = s.apph(e, h)
        s.apph(i, h2)
        ti, ls = ti2, new


# C02 -- triangulations
def c02(rng, s, size):
    t, ti = T0(rng, s, size)
    s.triobs(ti)
    s.tree(ti)
    s.tree(ti, rng.sample(range(t.z), rng.randint(0, t.z)))
    p = gen.rand_perm(rng, t.z)
    part = {}
    for i in range(t.z):
        k = rng.choice([i, ~i])
        part[k] = p[k]
        if rng.random() < 0.2: part[~k] = p[~k]
    e = s.enc(ti, [part], rng.choice(['relabel', 'encode']))
    s.triobs(len(s.T))
    s.trieq(ti, len(s.T))
    for _ in range(2):
        l = s.app(e, s.lam(ti, wl(rng, t, size)))
    # the same triangulation presented in another order
    ts = t.triples()
    rng.shuffle(ts)
    ts = [a[k:] + a[:k] for a in ts for k in [rng.randrange(3)]]
    u = s.tri(ts)
    s.trieq(ti, u)
    s.trisig(ti)
    # triples that need not use every label once
    for _ in range(3):
        ts = [list(a) for a in t.triples()]
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            a = rng.choice(ts)
            if r < 0.4: a[rng.randrange(3)] = rng.choice(t.labels() + [t.z, ~t.z])
            elif r < 0.6: ts.append([rng.choice(t.labels()) for _ in range(3)])
            elif r < 0.7 and len(ts) > 1: ts.remove(a)
            elif r < 0.8:
                ts = [[0, -1, rng.choice([0, -1, 1, -2])]]
                break
            else:
                b = rng.choice(ts)
                i, j = rng.randrange(3), rng.randrange(3)
                a[i], b[j] = b[j], a[i]
        s.badtri(ts)
    t2, path = gen.rand_flips(rng, t, rng.choice([1, 2, 4]))
    if path:
        s.enc(ti, path)
        s.trieq(ti, len(s.T))
        s.trieq(len(s.T), s.tri(t2))
        s.triobs(len(s.T))


# C06 -- components
def c06(rng, s, size):
    t, ti = T0(rng, s, size)
    for _ in range(4):
        w = wl(rng, t, size)
        l = s.lam(ti, w, rng.choice(['list', 'call', 'dict', 'frac', 'float', 'np']))
        s.dual(l)
        s.comp(l)
        s.weight(l)


# C07 -- intersection numbers
def c07(rng, s, size):
    t, ti = T0(rng, s, size)
    ls = [s.lam(ti, wl(rng, t, size)) for _ in range(4)]
    for a in ls:
        for b in ls:
            if rng.random() < 0.6: s.inter(a, [b])
    s.inter(ls[0], ls[1:])
    s.inter(ls[1], ls + ls[:1])


# C09 -- twists
def c09(rng, s, size):
    t, ti = T0(rng, s, size)
    for _ in range(3):
        l = s.lam(ti, wl(rng, t, size, rng.choice(['c', 'C' + 'c', 'cp', 'p'])))
        if type(s.L[l - 1]).__name__ not in ('Curve', 'MultiCurve'): continue
        k = rng.choice([-3, -2, -1, 0, 1, 2, 3, 7, -12, 40])
        e = s.tw(l, k)
        for _ in range(3):
            m = s.lam(ti, wl(rng, t, 0))
            s.app(e, m)
        if abs(k) <= 3:
            i = s.inv(e)
            s.isid(s.mul(e, i))
            s.enceq(s.tw(l, -k), i)
            s.apph(e, s.hom(ti, [rng.randint(-3, 3) for _ in range(t.z)]))
            s.torelli(e)
        # powers which pass through the range where twists are not linear, from either side of it
        if sum(map(abs, s.L[l - 1])) > 24: continue
        k = rng.choice([3, 4, 5]) * rng.choice([1, -1])
        e, f = s.tw(l, k), s.tw(l, -1 if k > 0 else 1)
        for _ in range(4):
            m = s.lam(ti, wl(rng, t, 0, rng.choice(['a', 'c', 'a', 'Cc', None])))
            for _ in range(rng.choice([1, 2])):
                s.app(e, m)
                m = s.app(f, m)
                if not m or sum(map(abs, s.L[m - 1])) > 60: break
            else: s.app(e, m)


# C03 -- isometries
def c03(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    s.iso(ti, ti)
    p = gen.rand_perm(rng, t.z)
    u = t.relabel(p)
    ui = s.tri(u)
    s.iso(ti, ui)
    v, _ = gen.rand_flips(rng, t, rng.choice([1, 2, 3, 4]))
    vi = s.tri(v)
    s.iso(ti, vi)
    if rng.random() < 0.5: s.iso(vi, s.tri(gen.rand_tri(rng, size)))
    # prescribed partial maps: one label per component, several, none, inconsistent
    comps = t.components()
    lab = t.labels()
    for _ in range(4):
        m = {}
        for c in comps:
            r = rng.random()
            if r < 0.7:
                l = rng.choice(sorted(c))
                m[l] = p[l] if rng.random() < 0.75 else rng.choice(lab)
                if rng.random() < 0.3:
                    k = rng.choice(sorted(c))
                    m[k] = p[k] if rng.random() < 0.8 else rng.choice(lab)
        s.fiso(ti, ui, sorted(m.items()))
    s.fiso(ti, ti, [])
    s.fiso(ti, ti, [(l, rng.choice(lab)) for l in rng.sample(lab, 1)])
    # an isometry used as a move: carries laminations and homology
    e = s.enc(ti, [p], 'encode')
    s.app(e, s.lam(ti, wl(rng, t, size)))
    s.isid(s.mul(s.inv(e), e))


def rand_items(rng, t, k, twists=True, relabel=True):
    """a legal sequence of items in application order, with the resulting triangulation"""
    t0, items = t, []
    for _ in range(k):
        r = rng.random()
        fl = t.flippables()
        if r < 0.5 and fl:
            e = rng.choice(fl)
            items.append(e)
            t = t.flip(e)
        elif r < 0.62 and len(fl) > 1:
            es, sup = [], set()
            for e in rng.sample(fl, len(fl)):
                a, b = t.tri(e), t.tri(~e)
                if not ({a, b} & sup):
                    es.append(e)
                    sup |= {a, b}
            es = es[:rng.choice([1, 2, 3])]
            items.append(set(es))
            for e in es: t = t.flip(e)
        elif r < 0.72 and relabel:
            p = gen.rand_perm(rng, t.z)
            if rng.random() < 0.5: p = {(a if rng.random() < 0.5 else ~a): None for a in range(t.z)}; q = gen.rand_perm(rng, t.z); p = {a: q[a] for a in p}
            full = {**{a: b for a, b in p.items()}, **{~a: ~b for a, b in p.items()}}
            items.append(p)
            t = t.relabel(full)
        elif r < 0.76:
            items.append(None)
        elif twists:
            vl = t.vlookup()
            e = rng.choice(t.labels())
            ok = True
            if vl[e] == vl[~e]:
                c, n = gen.loop_curve(t, e)
                c2, n2 = gen.loop_curve(t, ~e)
                # the curve beside a loop edge must be essential
                ok = n > 1 and sum(c) > 1
            if ok: items.append((e, rng.choice([-2, -1, 1, 2, 3])))
        elif fl:
            e = rng.choice(fl)
            items.append(e)
            t = t.flip(e)
    return items or [None], t


def rand_map(rng, s, t, ti, k=None):
    """a map from triangulation register ti; returns (encoding register, mini target, target register)"""
    items, u = rand_items(rng, t, k if k is not None else rng.choice([1, 2, 3, 4]))
    e = s.enc(ti, items)
    return e, u, len(s.T)


def rand_class(rng, s, t, ti, n=None):
    """a mapping class as a product of twists and half twists about random curves and arcs"""
    out = None
    for _ in range(n or rng.choice([1, 1, 2])):
        for _ in range(10):
            k = rng.choice([-2, -1, 1, 1, 2])
            if rng.random() < 0.5:
                w = gen.rand_lam(rng, t, 'Cc', maxweight=20, depth=rng.choice([0, 1, 2]))
                l = s.lam(ti, w)
                if type(s.L[l - 1]).__name__ not in ('Curve', 'MultiCurve'): continue
                e = s.tw(l, k)
            else:
                w = gen.rand_lam(rng, t, 'Aa', maxweight=20, depth=rng.choice([0, 1, 2, 3]))
                l = s.lam(ti, w)
                if type(s.L[l - 1]).__name__ not in ('Arc', 'MultiArc'): continue
                e = s.ht(l, k)
            if e is None: continue
            out = e if out is None else s.mul(e, out)
            break
    return out or s.enc(ti, [None])


def light(s, e, bound=250):
    """does the map send the edges to arcs of moderate length? (otherwise comparing maps is expensive)"""
    f = s.E[e - 1]
    x, err = s.call(lambda: max(sum(max(int(w), 0) for w in f(x)) for x in f.source_triangulation.edge_arcs()))
    return bool(err) or x <= bound


# C04 -- algebra of maps
def c04(rng, s, size):
    size = min(size, 1)
    t, ti = T0(rng, s, size)
    a, u, ui = rand_map(rng, s, t, ti)
    for k in (None, 2, 1, 0):
        b, v, vi = rand_map(rng, s, u, ui, k)
        if light(s, s.mul(b, a), 60): break
    for k in (2, 2, 1, 0):
        c, x, xi = rand_map(rng, s, v, vi, k)
        if light(s, s.mul(c, s.mul(b, a)), 150): break
    s.app(b, s.lam(ui, wl(rng, u, 0)))
    ba = s.mul(b, a)
    cb = s.mul(c, b)
    l = s.lam(ti, wl(rng, t, 0))
    s.app(ba, l)
    s.app(b, s.app(a, l))
    p, q = s.mul(c, ba), s.mul(cb, a)
    ok = light(s, p) and light(s, s.inv(p))
    if ok: s.enceq(p, q)
    s.app(p, l)
    s.app(q, l)
    i = s.inv(p)
    ip, pi = s.mul(i, p), s.mul(p, s.inv(p, 1))
    ai = s.mul(s.inv(a), s.inv(cb))
    if ok:
        s.isid(ip)
        s.isid(pi)
        s.enceq(i, ai)
    else:
        s.app(ip, s.lam(ti, wl(rng, t, 0)))
        s.app(pi, s.lam(xi, wl(rng, x, 0)))
    s.mul(a, b) if rng.random() < 0.5 else s.mul(a, c)
    s.app(a, s.lam(ui, wl(rng, u, 0)))
    n = len(s.E[p - 1])
    for _ in range(2):
        j = sorted([rng.randint(0, n), rng.randint(0, n)])
        neg = rng.random() < 0.3
        s.slice(p, j[0] - n if neg and j[0] < n else j[0], j[1])
    f = rand_class(rng, s, t, ti)
    g = rand_class(rng, s, t, ti, 1)
    k = rng.choice([-2, -1, 0, 1, 2, 3])
    fk = s.pow(f, k)
    m = s.lam(ti, wl(rng, t, 0))
    s.app(fk, m)
    s.app(f, m, k)
    s.enceq(s.pow(f, -1), s.inv(f))
    s.app(s.conj(f, g), m)


# C05 -- equality of maps
def c05(rng, s, size):
    size = min(size, 1)
    t, ti = T0(rng, s, size)
    es = []
    for _ in range(2): es.append(rand_class(rng, s, t, ti, 1))
    es.append(s.enc(ti, [None]))
    es.append(s.mul(es[0], es[1]))
    es.append(s.mul(es[1], es[0]))
    es.append(s.mul(es[3], s.inv(es[0])))
    es.append(s.conj(es[1], s.inv(es[0])))
    for i in range(len(es)):
        for j in range(i, len(es)):
            if rng.random() < 0.5: s.enceq(es[i], es[j])
        s.isid(es[i])
    # maps to other triangulations, closed up by every isometry back
    a, u, ui = rand_map(rng, s, t, ti)
    for _ in range(2):
        b = s.enc(ti, [x for x in rand_items(rng, t, 2)[0]])
        s.enceq(a, b)
        if rng.random() < 0.4: s.moves(a, b)
    r = s.mul(s.inv(a), a)
    s.isid(r)
    s.enceq(r, es[2])
    auts = [p for p in isos(t, t)]
    rs = [s.enc(ti, [p]) for p in rng.sample(auts, min(3, len(auts)))]
    for x in rs:
        s.isid(x)
        for y in rs: s.enceq(x, y)
        s.enceq(s.mul(a, x), a)
    s.imat(a)
    s.vmap(a)


def isos(t, u):
    """all label bijections t -> u preserving the triangles (connected pieces matched in every way)"""
    comps = t.components()
    def ext(l, m):
        p, st = {}, [(l, m)]
        while st:
            a, b = st.pop()
            if a in p:
                if p[a] != b: return None
                continue
            p[a] = b
            st += [(~a, ~b), (t.nx[a], u.nx[b])]
        return p if len(set(p.values())) == len(p) else None
    outs = [{}]
    for c in comps:
        l = min(c)
        new = []
        for o in outs:
            for m in u.labels():
                if m in o.values(): continue
                p = ext(l, m)
                if p is not None and not (set(p.values()) & set(o.values())): new.append({**o, **p})
        outs = new
    return outs


# C08 -- shortening
def c08(rng, s, size):
    t, ti = T0(rng, s, size)
    for _ in range(3):
        l = s.lam(ti, wl(rng, t, size))
        s.isshort(l)
        e = s.short(l)
        m = len(s.L)
        s.isshort(m)
        s.comp(m)
        if rng.random() < 0.5:
            s.app(e, s.lam(ti, wl(rng, t, 0)))
            i = s.inv(e)
            s.app(i, m)


# C10 -- half twists
def c10(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    for _ in range(3):
        l = s.lam(ti, wl(rng, t, size, rng.choice(['a', 'Aa', 'Aa', 'Aa'])))
        if type(s.L[l - 1]).__name__ not in ('Arc', 'MultiArc'): continue
        s.ends(l)
        k = rng.choice([-3, -2, -1, 0, 1, 2, 3, 5, -8])
        e = s.ht(l, k)
        if e is None: continue
        for _ in range(3): s.app(e, s.lam(ti, wl(rng, t, 0)))
        if abs(k) <= 3:
            i = s.inv(e)
            s.isid(s.mul(e, i))
            s.enceq(s.ht(l, -k), i)
            s.apph(e, s.hom(ti, [rng.randint(-3, 3) for _ in range(t.z)]))
            s.vmap(e)
            if k in (1, 2):
                b = s.bnd(l)
                h = s.ht(l, 2)
                s.enceq(s.tw(b, 1), h)


# C11 -- homology
def c11(rng, s, size):
    t, ti = T0(rng, s, size)
    s.hombasis(ti)
    hs = [s.hom(ti, [rng.randint(-4, 4) for _ in range(t.z)]) for _ in range(2)]
    # add boundaries of triangles: homologous chains
    v = list(s.H[hs[0] - 1].algebraic)
    for a in t.triples():
        n = rng.choice([-2, -1, 0, 0, 1, 2])
        for l in a:
            if l >= 0: v[l] += n
            else: v[~l] -= n
    hs.append(s.hom(ti, v))
    hs.append(s.edgehom(ti, rng.choice(t.labels())))
    hs.append(s.homlin([hs[0], hs[3]], 'add'))
    hs.append(s.homlin([hs[4], hs[3]], 'sub'))
    hs.append(s.homlin([hs[1]], 'neg'))
    hs.append(s.homlin(hs[:3], 'sum'))
    for i in range(len(hs)):
        for j in range(i, len(hs)):
            if rng.random() < 0.5 or (i, j) in ((0, 2), (0, 5)): s.homeq(hs[i], hs[j])
    a, u, ui = rand_map(rng, s, t, ti)
    gs = [s.apph(a, h) for h in hs[:4]]
    for i in range(4):
        if gs[i]: s.homeq(hs[i], gs[i])       # on the same triangulation only if the map returns to it
    o = s.hom(ui, list(s.H[hs[0] - 1].algebraic))
    s.homeq(hs[0], o)
    if rng.random() < 0.5: s.homeq(gs[1] or o, o)
    s.hmat(a)
    s.hombasis(ui)
    b = rand_class(rng, s, t, ti)
    s.hmat(b)
    s.torelli(b)
    s.apph(b, hs[0])


# C12 -- parts of laminations
def c12(rng, s, size):
    t, ti = T0(rng, s, size)
    ls = []
    for _ in range(3):
        l = s.lam(ti, wl(rng, t, size, rng.choice([None, 'acp', 'cp', 'p', 'ac', 'ap'])))
        ls.append(l)
        s.isper(l)
        for what in ('peripheral', 'non_peripheral', 'multiarc', 'multicurve', 'skeleton'):
            m = s.part(l, what)
            if rng.random() < 0.4:
                s.isper(m)
                s.comp(m)
                ls.append(m)
    for _ in range(4): s.nocommon(rng.choice(ls), rng.choice(ls))
    for _ in range(3): s.lameq(rng.choice(ls), rng.choice(ls))
    l = rng.choice(ls)
    if len(s.L[l - 1].components()) <= 3: s.sub(l)


# C13 -- crushing and lifting
def c13(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    for _ in range(2):
        l = s.lam(ti, wl(rng, t, size, rng.choice(['c', 'Cc', 'Cc', 'cp', 'p'])))
        if type(s.L[l - 1]).__name__ not in ('Curve', 'MultiCurve'): continue
        s.sepa(l)
        e = s.crush(l)
        ui = len(s.T)
        u = gen.Tri([[x.label for x in tr] for tr in s.T[ui - 1]])
        xs = [l] + [s.lam(ti, wl(rng, t, size)) for _ in range(3)]
        for x in xs:
            y = s.crapp(e, x)
            if y and rng.random() < 0.3: s.comp(y)
        for x in xs[1:]: s.union(e, l, x)
        f = s.inv(e, op='uncrush')
        for how in ('pickle', 'package'): s.recrush(rng.choice([e, f]), how)
        # twists disjoint from the curves crushed commute with crushing, twists about them are forgotten
        for x in [l, l] + xs[1:]:
            if type(s.L[x - 1]).__name__ not in ('Curve', 'MultiCurve') or sum(map(abs, s.L[x - 1])) > 30 or rng.random() < 0.8: continue
            g = s.mul(e, s.tw(x, rng.choice([-2, -1, 1, 2])))
            s.creq(g, e)
            break
        for _ in range(3):
            y = s.lam(ui, wl(rng, u, size, rng.choice(['c', 'Cc', 'cp', 'p', 'a', 'ac', 'a'])))
            x = s.crapp(f, y)
            if not x: continue
            z = s.crapp(e, x)
            if rng.random() < 0.5: s.lameq(y, z)
            w = rng.choice(xs)
            s.inter(x, [w])


# C14 -- boundaries
def c14(rng, s, size):
    t, ti = T0(rng, s, size)
    for e in rng.sample(t.labels(), 3): s.edgecurve(ti, e)
    for _ in range(3):
        l = s.lam(ti, wl(rng, t, size, rng.choice([None, 'a', 'a', 'ac', 'acp'])))
        b = s.bnd(l)
        s.comp(b)
        s.inter(b, [l])


# C15 -- filling, polygonalisations, triangulations
def c15(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    for _ in range(4):
        if rng.random() < 0.5:
            u, path = gen.rand_flips(rng, t, rng.choice([0, 1, 2, 4]))
            k = rng.choice([t.z, t.z, t.z - 1, t.z - 1, t.z - 2, max(1, t.z // 2), rng.randint(1, t.z)])
            w = [0] * t.z
            for i in rng.sample(range(t.z), max(1, k)): w[i] = -1 if rng.random() < 0.9 else -2
            for e in reversed(path):
                w = u.flipw(~e, w)
                u = u.flip(~e)
        else: w = wl(rng, t, size)
        l = s.lam(ti, w)
        s.fill(l)
        if type(s.L[l - 1]).__name__ in ('Arc', 'MultiArc'):
            s.istri(l)
            s.ends(l)


# C16 -- topological types
def c16(rng, s, size):
    closed = rng.random() < 0.3
    if closed:
        t = gen.Tri(gen.SURF[rng.choice([(1, 1), (2, 1), (2, 1), (3, 1)] if size else [(1, 1), (2, 1)])])
        if rng.random() < 0.25: t = gen.disjoint(t, gen.Tri(gen.SURF[(1, 1)]))
        t, _ = gen.rand_flips(rng, t, rng.choice([0, 3, 8, 15]))
    else: t = gen.rand_tri(rng, min(size, 1))
    ti = s.tri(t)
    ls = []
    if not closed and rng.random() < 0.4:   # a graph of arcs with punctures, and curves around them, in its faces
        vs, vl = t.vertices(), t.vlookup()
        free = set(rng.sample(range(len(vs)), rng.randint(1, max(1, len(vs) - 1))))
        es = [i for i in range(t.z) if vl[i] not in free and vl[~i] not in free]
        es = [i for i in es if rng.random() < 0.7]
        ms = [rng.choice([1, 1, 1, 2]) for _ in es]
        ns = [rng.choice([0, 1, 2]) for _ in free]
        for _ in range(3):
            w = [0] * t.z
            for i, m in zip(es, ms): w[i] = -m
            for v, n in zip(sorted(free), ns): w = gen.add(w, gen.vertex_curve(t, vs[v]), n)
            if t.valid(w) and any(w): ls.append(s.lam(ti, w))
            rng.shuffle(ns)
            if rng.random() < 0.3: rng.shuffle(ms)
    if closed and rng.random() < 0.6:       # curves which are parallel once the puncture is filled in
        v, path = gen.rand_flips(rng, t, rng.choice([0, 1, 2, 3, 5]))
        es = rng.sample(v.labels(), 4) if v.z >= 4 else v.labels()
        pairs = [(gen.loop_curve(v, e), gen.loop_curve(v, ~e)) for e in es]
        pairs = [(a[0], b[0]) for a, b in pairs if a[1] > 1 and b[1] > 1]
        if pairs:
            a, b = rng.choice(pairs)
            for _ in range(3):
                w, u = gen.add(gen.add([0] * t.z, a, rng.choice([0, 1, 1, 2])), b, rng.choice([0, 1, 1, 2])), v
                if not any(w): continue
                for e in reversed(path):
                    w = u.flipw(~e, w)
                    u = u.flip(~e)
                if sum(w) < 90: ls.append(s.lam(ti, w))
    for _ in range(rng.choice([1, 2]) - (len(ls) > 0)):
        l = s.lam(ti, wl(rng, t, 0, rng.choice(['c', 'cp', 'Cc'] if closed and rng.random() < 0.9 else ['a', 'ac', 'acp', 'c', 'cp', 'ap', 'a', 'c'])))
        ls.append(l)
        try: comps = [[int(x) for x in c.geometric] for c in s.L[l - 1].components()]
        except Exception: continue
        for _ in range(2):       # other multiplicities
            w = [0] * t.z
            for c in comps:
                n = rng.choice([1, 1, 2]) if rng.random() < 0.9 else 0
                w = gen.add(w, c, n)
            if any(w) and t.valid(w): ls.append(s.lam(ti, w))
    u, path = gen.rand_flips(rng, t, rng.choice([0, 1, 2, 4, 6]))
    items = path
    if rng.random() < 0.7: items = path + [gen.rand_perm(rng, t.z)]
    if items:
        e = s.enc(ti, items)
        for l in list(ls):
            y = s.app(e, l)
            if rng.random() < 0.8 and sum(max(0, int(x)) for x in s.L[y - 1].geometric) < 70: ls.append(y)
        if rng.random() < 0.5:
            tu = len(s.T)
            u = gen.Tri([[x.label for x in tr] for tr in s.T[tu - 1]])
            ls.append(s.lam(tu, wl(rng, u, 0, rng.choice(['c', 'cp'] if closed else ['a', 'ac', 'c']))))
    s.toptype(ls, closed)


# C20 -- rewriting maps
def c20(rng, s, size):
    size = min(size, 1)
    t, ti = T0(rng, s, size)
    a, u, ui = rand_map(rng, s, t, ti, rng.choice([1, 2, 3, 5]))
    for k in ('simplify', 'flip_mapping', 'combine_isometries'):
        b = s.same(a, k)
        s.enceq(a, b)
        if k == 'flip_mapping': s.same(b, 'combine_isometries')
        s.app(b, s.lam(ti, wl(rng, t, 0)))
    c = rand_class(rng, s, t, ti)
    d = s.same(c, rng.choice(['simplify', 'flip_mapping', 'combine_isometries']))
    s.enceq(c, d)


# C21 -- serialisation
def c21(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    s.trisig(ti)
    a, u, ui = rand_map(rng, s, t, ti, rng.choice([1, 2, 3, 5]))
    s.trisig(ui)
    for k in ('pickle', 'package', rng.choice(['moves', 'parts'])):
        b = s.same(a, k)
        s.enceq(a, b)
        s.app(b, s.lam(ti, wl(rng, t, 0)))
    c = rand_class(rng, s, t, ti)
    for k in ('pickle', 'package'): s.enceq(c, s.same(c, k))
    if rng.random() < 0.4: s.moves(a, c if rng.random() < 0.5 else a)


# C30 -- sums
def c30(rng, s, size):
    t, ti = T0(rng, s, size)
    for _ in range(3):
        u, path = gen.rand_flips(rng, t, rng.choice([0, 1, 2, 4]))
        base = gen.short_lam(rng, u, rng.choice(['ac', 'c', 'a', 'acp', 'cp']))
        if base is None: continue
        # disjoint pieces: sublaminations of one lamination
        ws = [base]
        for e in reversed(path):
            ws = [u.flipw(~e, w) for w in ws]
            u = u.flip(~e)
        if sum(map(abs, ws[0])) > 60: continue
        l = s.lam(ti, ws[0])
        pieces = list(s.L[l - 1].components().items())
        if not pieces: continue
        regs = []
        for c, n in pieces:
            regs.append(s.lam(ti, [int(x) for x in c.geometric]))
        ks = [rng.choice([1, 1, 2, 3]) for _ in regs]
        for how in ('add', 'sumlist', 'sumdict', 'dsumlist', 'dsumdict', 'py'):
            if rng.random() < 0.6:
                m = s.sum(ti, regs, ks, how)
                if rng.random() < 0.5: s.comp(m)
        m = s.sum(ti, [l], [rng.choice([0, 1, 2, 3])], 'mul')
        s.comp(m)
        if m and rng.random() < 0.3 and s.L[regs[0] - 1] != s.L[m - 1]: s.sum(ti, [regs[0], m], rng.choice([[-1, 2], [1, -3], [-2, -1]]), rng.choice(['sumdict', 'dsumdict']))
        s.isper(m)
        if rng.random() < 0.15:        # on another triangulation
            v, p2 = gen.rand_flips(rng, t, 1)
            if p2:
                o = s.lam(s.tri(v), wl(rng, v, 0))
                s.sum(ti, rng.choice([[l, o], [o, l]]), [1, 1], rng.choice(['add', 'sumlist', 'dsumlist', 'sumdict', 'dsumdict']))
        # overlapping multilaminations
        s.sum(ti, [l, rng.choice(regs), l], [1, 1, 1], rng.choice(['add', 'sumlist', 'dsumlist', 'py']))


def app_small(s, e, l, bound=70):
    """apply e to l unless some image along the way is too heavy to trace"""
    def heavy():
        x = s.L[l - 1]
        for move in reversed(s.E[e - 1]):
            x = move(x)
            if sum(abs(int(i)) for i in x) > bound: return True
        return False
    out, err = s.call(heavy)
    if not out: return s.app(e, l)


# C22 -- permutations
def c22(rng, s, size):
    for _ in range(6):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        a, b = list(range(n)), list(range(n))
        rng.shuffle(a)
        rng.shuffle(b)
        if rng.random() < 0.3: b = a[:]
        elif rng.random() < 0.4:      # conjugate of a
            c = list(range(n))
            rng.shuffle(c)
            b = [0] * n
            for i in range(n): b[c[i]] = c[a[i]]
        s.perm(a, b, rng.choice([-7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 12]))
        c = list(range(n + rng.choice([1, 2])))
        rng.shuffle(c)
        s.permx(a, c)


# C23 -- union-find
def c23(rng, s, size):
    for _ in range(4):
        n = rng.choice([1, 2, 3, 5, 8, 12])
        os = []
        for _ in range(rng.choice([1, 3, 6, 10])):
            k = rng.choice([1, 2, 2, 2, 3, 4])
            os.append([rng.randrange(n) for _ in range(k)])
        s.uf(n, os)


# C24 -- straight line programs
def c24(rng, s, size):
    regs, lens = [], []
    def probe(): return [rng.randint(-60, 60) for _ in range(6)] + [rng.randint(-10**9, 10**9) for _ in range(3)]
    def put(how, arg=None, **ev):
        regs.append(s.slp(how, arg, probe=probe(), **ev))
        lens.append(len(s.S[-1]))
    for _ in range(2): put('wrap', rng.choice(['tuple', 'list']), v=[rng.randint(-2, 6) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))])
    m = rng.choice([1, 2, 3, 5])
    g = [[[1, rng.randint(-2, 6)] if i == m - 1 or rng.random() < 0.4 else [0, rng.randint(i + 1, m - 1)] for _ in range(rng.choice([0, 1, 2, 3]) if i else 3)] for i in range(m)]
    put('graph', g=g)
    for _ in range(7):
        k = rng.randrange(len(regs))
        how = rng.choice(['copy', 'cat', 'cat', 'mul', 'mul', 'rev', 'add'])
        if how == 'cat':
            if rng.random() < 0.5:
                a = [k, rng.randrange(len(regs))]
                arg = None
            else:
                a = [rng.randrange(len(regs)) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
                arg = 'sum'
            if sum(lens[i] for i in a) > 10**9: continue
            put('cat', arg, **{'as': [regs[i] for i in a]})
        elif how == 'mul':
            n = rng.choice([0, 1, 2, 3, 5, 6, 7, 13, 100, 1000, 65537])
            if n * lens[k] > 10**9: continue
            put('mul', rng.choice(['r', 'l']), n=n, **{'as': [regs[k]]})
        elif how == 'add': put('add', n=rng.choice([-1, 1, 2]), **{'as': [regs[k]]})
        else: put(how, **{'as': [regs[k]]})


# C25 -- words
NAMES = ['a', 'b', 'ab', 'ba', 'a_0', 'a_1', 'a_10', 'b_0', 'aB', 'x', 'x1', 'x1y', 'aa', 's_1', 's_12']


def rand_word(rng, names, depth=2):
    """a string, mostly well formed"""
    letters = [f(n) for n in names for f in (str, str.swapcase)]
    out = ''
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.55 or depth == 0:
            piece = rng.choice(['', '', '.', '..']).join(rng.choice(letters) for _ in range(rng.choice([1, 1, 1, 2, 3])))
        else: piece = '(' + rand_word(rng, names, depth - 1) + ')'
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            piece += '^' + rng.choice(['2', '-1', '-2', '+2', '0', '1', '3', ' 2', '- 1', '01'])
        out += piece + rng.choice(['', '', '', '.', ' '])
    return out


def mutate(rng, w):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(0, len(w))
        r = rng.random()
        if r < 0.5: w = w[:i] + rng.choice(['(', ')', '^', '^2', '3', '*', '+', '-', '.', 'z', 'q_0', '[', ')(', '_', ',']) + w[i:]
        elif w: w = w[:i] + w[i + 1:]
    return w


def c25(rng, s, size):
    t, ti = T0(rng, s, 0)
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    neg = [n.swapcase() for n in names]
    if set(names) & set(neg): names = names[:1]
    es = []
    for _ in names: es.append(rand_class(rng, s, t, ti, 1))
    S = s.group(ti, es, names)
    if S is None: return
    l = s.lam(ti, wl(rng, t, 0))
    if rng.random() < 0.4:
        other = [rng.choice(es + [rand_class(rng, s, t, ti, 1)]) if rng.random() < 0.5 else e for e in es]
        s.grp(S, ti, es, names, [es, other])
    for _ in range(2):
        kw = {}
        if rng.random() < 0.2: kw['letters'] = rng.sample(names + neg, rng.randint(1, len(names)))
        elif rng.random() < 0.7: kw = {'positive': rng.random() < 0.5, 'negative': rng.random() < 0.6}
        x = s.rword(S, names, rng.choice([0, 1, 2, 3, 8, 30]), **kw)
        if x is not None and len(x) < 4 and rng.random() < 0.3: s.word(S, ti, es, names, x)
    for _ in range(5):
        w = rand_word(rng, names)
        if rng.random() < 0.35: w = mutate(rng, w)
        if rng.random() < 0.2: w = [rng.choice([str, str.swapcase])(rng.choice(names)) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        e = s.word(S, ti, es, names, w)
        if e is not None: app_small(s, e, l)


# C17 -- orders
def based(rng, s, depth, loop):
    """a based triangulation w some flips away from the loop, and the items of the conjugated loop"""
    w, path = gen.rand_flips(rng, loop.t, depth)
    return w, [~e for e in reversed(path)] + loop.items() + path


ROT = {}


def rotation(rng, g, p, n):
    """a loop of order n on the standard surface (search, cached per process)"""
    if (g, p, n) not in ROT:
        r = random.Random(f'{g},{p},{n}')
        found = []
        for _ in range(4000):
            t, _ = gen.rand_flips(r, gen.Tri(gen.SURF[(g, p)]), r.choice([0, 2, 4, 8]))
            x = gen.rand_loop(r, 0, t=t) if r.random() < 0.5 else gen.rand_loop(r, 0, symmetric=True, t=t) if len(gen.isos(t, t)) > 1 else None
            if not x: continue
            if gen_order(x[1]) == n: found.append(x[1])
            if len(found) == 3: break
        ROT[g, p, n] = found
    return rng.choice(ROT[g, p, n]) if ROT[g, p, n] else None


def polygon_rotation(n):
    """the rotation by one step of the double of an n-gon (fan triangulations from one corner)"""
    b = list(range(n))
    d = [None, None] + list(range(n, 2 * n - 3))          # d[k]: from corner 0 to corner k, in front
    c = [None, None] + list(range(2 * n - 3, 3 * n - 6))
    front = [[b[0], b[1], ~d[2]]] + [[d[k], b[k], ~d[k + 1]] for k in range(2, n - 2)] + [[d[n - 2], b[n - 2], b[n - 1]]]
    back = [[c[2], ~b[1], ~b[0]]] + [[c[k + 1], ~b[k], ~c[k]] for k in range(2, n - 2)] + [[~b[n - 1], ~b[n - 2], ~c[n - 2]]]
    t = gen.Tri(front + back)
    u, es = t, d[2:] + c[2:]
    for e in es: u = u.flip(e)
    return next(l for l in (gen.Loop(t, es, p) for p in gen.isos(u, t)) if gen_order(l) == n)


def gen_order(loop, bound=40):
    """order of the loop on the arcs of its triangulation (0: not seen); arcs carry their labels, so orientation is ignored"""
    z = loop.t.z
    es = [[-1 if i == j else 0 for i in range(z)] for j in range(z)]
    ws = [list(w) for w in es]
    for k in range(1, bound + 1):
        ws = [loop(w) for w in ws]
        if ws == es: return k
        if max(max(w) for w in ws) > 10**4: return 0
    return 0


def join(a, b):
    """two loops side by side"""
    z = a.t.z
    up = lambda l: l + z if l >= 0 else l - z
    p = dict(a.p)
    p.update({up(k): up(v) for k, v in b.p.items()})
    return gen.Loop(gen.disjoint(a.t, b.t), a.es + [up(e) for e in b.es], p)


def swap(rng, a):
    """a on one copy followed by exchanging two copies"""
    z = a.t.z
    up = lambda l: l + z if l >= 0 else l - z
    q = rng.choice(gen.isos(a.t, a.t))
    p = {k: up(v) for k, v in a.p.items()}
    p.update({up(k): v for k, v in q.items()})
    return gen.Loop(gen.disjoint(a.t, a.t), list(a.es), p)


def some_loop(rng, size):
    r = rng.random()
    if r < 0.7:
        x = gen.rand_loop(rng, min(size, 1), symmetric=rng.random() < 0.4)
        return x and x[1]
    a = gen.rand_loop(rng, 0, rng.random() < 0.5)
    if not a: return None
    a = a[1]
    if len(a.t.components()) > 1: return a
    if r < 0.85: return swap(rng, a)
    b = gen.rand_loop(rng, 0)
    return join(a, b[1]) if b else a


def c17(rng, s, size):
    r = rng.random()
    if r < 0.05: l = polygon_rotation(rng.choice([4, 5, 6, 7, 9]))
    elif r < 0.08:
        ls = [rotation(rng, 0, 6, 4), rotation(rng, 0, 6, 5), polygon_rotation(6)]
        if None in ls: return
        l = join(join(ls[0], ls[1]), ls[2])
    else:
        l = some_loop(rng, size)
    if l is None or l.heavy(40): return
    w, items = based(rng, s, rng.choice([0, 1, 2, 3, 4]) if l.t.z < 30 else 0, l)
    ti = s.tri(w)
    e = s.enc(ti, items)
    s.order(e)
    if l.t.z > 30: return
    if rng.random() < 0.7:
        i = s.inv(e)
        s.order(i)
    n = gen_order(l)
    for k in rng.sample([0, -2, 2, 3, 4, n], 2):
        if n or abs(k) <= 2: s.order(s.pow(e, k))
    if rng.random() < 0.5:
        c = s.enc(ti, [None])
        s.order(c)


# C18 -- permutations of the punctures
def c18(rng, s, size):
    l = some_loop(rng, size)
    if l is None or l.heavy(3, 60): return
    w, items = based(rng, s, rng.choice([0, 1, 2, 3]), l)
    ti = s.tri(w)
    es = [s.enc(ti, items)]
    if rng.random() < 0.7: es.append(rand_class(rng, s, w, ti, 1))
    q = rng.choice(gen.isos(w, w))
    es.append(s.enc(ti, [q]))
    for e in list(es): s.vperm(e)
    for _ in range(2):
        es.append(s.mul(rng.choice(es), rng.choice(es)))
        s.vperm(es[-1])
    s.vperm(s.inv(rng.choice(es)))


# C19 -- quotients and conjugacy
def c19(rng, s, size):
    r = rng.random()
    if r < 0.25:
        # a group of isometries
        x = None
        for _ in range(30):
            t, _ = gen.rand_flips(rng, gen.rand_tri(rng, min(size, 1)), rng.choice([0, 1]))
            fs = gen.isos(t, t)
            if len(fs) > 2: x = t; break
        if x is None: return
        w, path = gen.rand_flips(rng, t, rng.choice([0, 0, 1, 2]))
        ti = s.tri(w)
        gs = rng.sample(fs[1:] if len(fs) > 3 else fs, 2)
        es = [s.enc(ti, [~e for e in reversed(path)] + [g] + path) for g in gs]
        u, path = gen.rand_flips(rng, w, rng.choice([0, 1, 2, 3]))
        g = s.inv(s.enc(ti, path)) if path else s.enc(ti, [None])
        s.fsub(es, g)
        for e in es: s.orbi(e)
        s.pconj(es[0], es[1])
        return
    ls = []
    for _ in range(60):
        l = some_loop(rng, size)
        if l is not None and gen_order(l, 30) and l.t.z <= 12: ls.append(l)
        if ls: break
    if not ls: return
    l = ls[0]
    w, items = based(rng, s, rng.choice([0, 1, 2, 3]), l)
    ti = s.tri(w)
    es = [s.enc(ti, items)]
    s.orbi(es[0])
    n = gen_order(l, 30) * 2
    # powers
    for k in rng.sample(range(2, max(n, 4)), 1): es.append(s.pow(es[0], k))
    # another class on the same surface
    for _ in range(3):
        u, _ = gen.rand_flips(rng, l.t, rng.choice([0, 1, 3, 6]))
        m = gen.rand_loop(rng, 0, t=u)
        if m and not m[1].heavy(8, 60):
            w2, items2 = based(rng, s, rng.choice([0, 1, 2]), m[1])
            es.append(s.enc(s.tri(w2), items2))
    # the same class relabelled and moved
    q = gen.rand_perm(rng, w.z)
    w2, path = gen.rand_flips(rng, w.relabel(q), rng.choice([0, 1, 2]))
    qi = {v: k for k, v in q.items()}
    es.append(s.enc(s.tri(w2), [~e for e in reversed(path)] + [qi] + items + [q] + path))
    for e in es[1:]:
        s.pconj(es[0], e) if rng.random() < 0.5 else s.pconj(e, es[0])
    s.orbi(rng.choice(es[1:]))


def a_curve(rng, s, t, ti, maxweight=20, tries=12, kinds=('Curve',)):
    for _ in range(tries):
        l = s.lam(ti, gen.rand_lam(rng, t, 'Cc' if kinds == ('Curve',) else rng.choice(['Cc', 'c', 'c', 'cp']), maxweight=maxweight, depth=rng.choice([0, 0, 1, 2, 3])))
        if type(s.L[l - 1]).__name__ in kinds: return l
    return None


# C27 -- linear pieces
def c27(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    kinds = ('Curve', 'MultiCurve')
    c = a_curve(rng, s, t, ti, kinds=kinds)
    if c is None: return
    r = rng.random()
    if r < 0.2: e = s.enc(ti, [x for x in rand_items(rng, t, rng.choice([2, 3, 5]), twists=False)[0]])
    elif r < 0.45:
        path = gen.rand_flips(rng, t, rng.choice([1, 2, 3, 5]))[1]
        items, u = [], t
        for e in path:
            items.append(e)
            u = u.flip(e)
            if rng.random() < 0.2:
                q = gen.rand_perm(rng, t.z)
                items.append(q)
                u = u.relabel(q)
                break
        e = s.enc(ti, items)
    else:
        b = None
        for _ in range(10):
            if rng.random() < 0.7: b = a_curve(rng, s, t, ti, 12, 4); ht = False
            else:
                b = s.lam(ti, gen.rand_lam(rng, t, 'Aa', maxweight=12, depth=rng.choice([0, 1, 2]))); ht = True
                if type(s.L[b - 1]).__name__ not in ('Arc', 'MultiArc'): b = None
            if b is None: continue
            k = rng.choice([-1, 1, 2, -2, 3, -3, 4, 5, -5, 7])
            e = s.ht(b, k) if ht else s.tw(b, k)
            if e is not None: break
        else: return
        # put the curve in special position with respect to the twisting curve
        if not ht and rng.random() < 0.6:
            f = s.tw(b, rng.choice([-4, -3, -2, -1, 1, 2, 3]))
            c2 = app_small(s, f, c, 80)
            if c2: c = c2
    ms = [c]
    for _ in range(6):
        m = a_curve(rng, s, t, ti, kinds=kinds)
        if m: ms.append(m)
    for k in (1, 2, 5):
        m = rng.choice(ms)
        if sum(s.L[m - 1].geometric) < 30: ms.append(s.sum(ti, [c, m], [k, 1], 'sumdict')) if s.L[c - 1] != s.L[m - 1] and s.L[c - 1].intersection(s.L[m - 1]) == 0 else None
    ms.append(s.sum(ti, [c], [3], 'mul'))
    s.pl(e, [c] + [m for m in ms[1:] if type(s.L[m - 1]).__name__ in kinds])
    i = s.inv(e)
    d = app_small(s, e, c, 200)
    if d: s.pl(i, [d])


# C28 -- slopes and relative twisting
def c28(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    for _ in range(3):
        a = a_curve(rng, s, t, ti, 14)
        if a is None: return
        ms = [s.lam(ti, gen.rand_lam(rng, t, rng.choice(['Cc', 'Aa', 'a', 'c', 'ac', 'acp']), maxweight=16, depth=rng.choice([0, 1, 2, 3]), maxn=2)) for _ in range(3)]
        c = s.L[a - 1]
        out, err = s.call(lambda: [c.intersection(s.L[m - 1]) for m in ms])
        if err: s.inter(a, ms)
        lo = rng.choice([-9, -8, -10])
        for m in ms[:2]: s.slope(a, m, range(lo, -lo + 1))
        x, err = s.call(lambda: s.L[ms[0] - 1].intersection(s.L[ms[1] - 1]))
        if x is not None and x <= 5 and max(out) <= 5:
            s.reltw(a, ms[0], ms[1])
            k = rng.choice([-2, -1, 1, 2])
            f = s.tw(a, k)
            m = app_small(s, f, ms[0], 120)
            y = s.call(lambda: s.L[m - 1].intersection(s.L[ms[1] - 1]))[0] if m else None
            if y is not None and y <= 10: s.reltw(a, m, ms[1])
    if rng.random() < 0.3:
        v = rng.choice(t.vertices())
        p = s.lam(ti, gen.vertex_curve(t, v))
        if type(s.L[p - 1]).__name__ == 'Curve':
            s.slope(p, ms[0], range(-1, 2))
            s.reltw(p, ms[0], ms[1])


# C31 -- recognising multitwists
def c31(rng, s, size):
    t, ti = T0(rng, s, min(size, 1))
    c = a_curve(rng, s, t, ti, 14, kinds=('Curve', 'MultiCurve'))
    if c is None: return
    k = rng.choice([1, 1, 1, 2, 3, -1, -2])
    e = s.tw(c, k)
    r = rng.random()
    if r < 0.25: e = s.same(e, rng.choice(['simplify', 'flip_mapping', 'pickle', 'package']))
    elif r < 0.5:                 # one component at a time
        comps, err = s.call(lambda: [([int(x) for x in w], n) for w, n in s.L[c - 1].components().items()])
        f = None
        for w, n in comps or []:
            g = s.tw(s.lam(ti, w), n * k)
            f = g if f is None else s.mul(g, f)
        e = f or e
    elif r < 0.7:                 # conjugate of a twist
        q = rand_class(rng, s, t, ti, 1)
        d = app_small(s, q, c)
        if d:
            e = s.mul(s.mul(q, e), s.inv(q))
            c = d
    s.xtw(e, c, k)
    # other maps, with no presentation known
    small = s.T[ti - 1].zeta <= 6
    f = rand_class(rng, s, t, ti, *([] if small else [1]))
    s.xtw(f, c, 0)
    if small and rng.random() < 0.5: s.xtw(s.mul(f, f), c, 0)
    d = a_curve(rng, s, t, ti, 10) if s.T[ti - 1].zeta <= 9 else None
    if d: s.xtw(s.mul(e, s.tw(d, rng.choice([-1, 1]))), c, 0)


# C26 -- nothing depends on what was asked before
def c26(rng, s, size):
    from rec import QUERIES
    t, ti = T0(rng, s, min(size, 1))
    kind = lambda l: type(s.L[l - 1]).__name__
    light = lambda l: sum(abs(int(x)) for x in s.L[l - 1].geometric) < 70
    tof = {}                              # triangulation register of each lamination register
    def new(l, u):
        if l and light(l): tof[l] = u; ls.append(l)
        return l
    ls, es, hs, ts = [], [], [], [ti]
    for _ in range(2): new(s.lam(ti, wl(rng, t, 0, rng.choice([None, 'a', 'c', 'ac', 'acp', 'Cc', 'Aa']))), ti)
    a, u, ui = rand_map(rng, s, t, ti, rng.choice([1, 2]))
    ts.append(ui)
    es += [(a, ti, ui), (rand_class(rng, s, t, ti, 1), ti, ti)]
    if rng.random() < 0.5:
        auts = isos(t, t)
        es.append((s.enc(ti, [rng.choice(auts)]), ti, ti))
    hs.append((s.hom(ti, [rng.randint(-3, 3) for _ in range(t.z)]), ti))
    def lfs(l, n):
        k = kind(l)
        bad = {'is_triangulation', 'has_distinct_endpoints', 'vertices', 'ht'} if 'Arc' not in k else set()
        if 'Curve' not in k: bad |= {'is_separating', 'tw'}
        if rng.random() < 0.05: bad = set()
        if len(s.L[l - 1].components()) > 4: bad |= {'_subs'}
        return rng.sample(sorted(set(QUERIES['L']) - bad), n)
    def ask():
        r = rng.random()
        if r < 0.5 and ls: l = rng.choice(ls); s.q('L', l, lfs(l, rng.choice([1, 2, 3, 6])))
        elif r < 0.7:
            e, x, y = rng.choice(es)
            fs = sorted(QUERIES['E']) if x == y else ['hash', 'vertex_map', 'intersection_matrix', 'self_image', '_inverse', '_simplify', '_hmat', '_flips', '_package']
            s.q('E', e, rng.sample(fs, rng.choice([1, 2, 4])))
        elif r < 0.85: s.q('T', rng.choice(ts), rng.sample(sorted(QUERIES['T']), rng.choice([1, 2, 4])))
        else: s.q('H', rng.choice(hs)[0], rng.sample(sorted(QUERIES['H']), 2))
    def derive():
        r = rng.random()
        l = rng.choice(ls)
        u = tof[l]
        if r < 0.15 and s.L[l - 1].components(): new(s.pick(l, rng.choice(['comp', 'peek']), rng.randrange(9)), u)
        elif r < 0.25: new(s.part(l, rng.choice(['peripheral', 'non_peripheral', 'multiarc', 'multicurve', 'skeleton'])), u)
        elif r < 0.35: new(s.lam(u, [int(x) for x in s.L[l - 1].geometric]), u)
        elif r < 0.45: new(s.sum(u, [l], [rng.choice([0, 1, 2, 3])], 'mul'), u)
        elif r < 0.5: new(s.bnd(l), u)
        elif r < 0.6:
            e = s.short(l)
            ts.append(len(s.T))
            new(len(s.L), len(s.T))
            es.append((e, u, len(s.T)))
        elif r < 0.75:
            c = [x for x in es if x[1] == u]
            if c:
                e, x, y = rng.choice(c)
                new(app_small(s, e, l), y)
        elif r < 0.85:
            e, x, y = rng.choice(es)
            k = rng.choice(['inv', 'inv', 'pickle', 'package', 'flip_mapping', 'simplify', 'pow'])
            if k == 'inv': es.append((s.inv(e), y, x))
            elif k == 'pow': es.append((s.pow(e, rng.choice([-1, 0, 1, 2])), x, x)) if x == y else None
            else: es.append((s.same(e, k), x, y))
        elif r < 0.9:
            e, x, y = rng.choice(es)
            c = [z for z in es if z[1] == y]
            if c and len(s.E[e - 1]) < 25:
                z = rng.choice(c)
                m = s.mul(z[0], e)
                if m and len(s.E[m - 1]) < 40: es.append((m, x, z[2]))
        else:
            h, x = rng.choice(hs)
            c = [z for z in es if z[1] == x]
            if c:
                z = rng.choice(c)
                hs.append((s.apph(z[0], h), z[2]))
    def check():
        r = rng.random()
        l = rng.choice(ls)
        m = rng.choice([x for x in ls if tof[x] == tof[l]])
        if r < 0.2: s.comp(l)
        elif r < 0.35: s.inter(l, [m] if rng.random() < 0.7 else [m, l])
        elif r < 0.45: s.isper(l)
        elif r < 0.55: s.dual(l)
        elif r < 0.62: s.lameq(l, m)
        elif r < 0.7: s.fill(l)
        elif r < 0.78: s.isshort(l)
        elif r < 0.84: s.nocommon(l, m)
        elif r < 0.9 and 'Arc' in kind(l): s.ends(l)
        else:
            e, x, y = rng.choice(es)
            if x == y: rng.choice([s.order, s.vperm, s.isid, s.torelli])(e)
            else: rng.choice([s.vmap, s.imat])(e)
    for _ in range(rng.choice([8, 12, 18])):
        rng.choice([ask, ask, derive, check])()
    for l in rng.sample(ls, min(4, len(ls))):
        s.q('L', l, lfs(l, 4))
        s.comp(l)


# C29 -- vertex cycles and tight paths
def corners_used(t, w):
    n = 0
    for l in t.labels():
        a, b, c = (max(0, w[gen.idx(x)]) for x in (l, t.nx[l], t.nx[t.nx[l]]))
        n += a + c > b
    return n


def c29(rng, s, size):
    t, ti = T0(rng, s, min(size, 1), connected=True)
    def curve(kind, heavy=24):
        for _ in range(20):
            w = gen.rand_lam(rng, t, kind, maxweight=heavy)
            if min(w) >= 0 and any(w) and corners_used(t, w) <= 26: return s.lam(ti, w)
        return None
    ls = [l for l in (curve(rng.choice(['c', 'c', 'Cc', 'cp']), rng.choice([12, 24, 40])) for _ in range(4)) if l]
    for l in ls: s.vcyc(l)
    cs = [l for l in ls if type(s.L[l - 1]).__name__ == 'Curve']
    for _ in range(3):
        if not ls: return
        l = rng.choice(ls)
        e = s.crush(l)
        r = rng.random()
        if r < 0.15: m = l
        elif r < 0.55:           # disjoint from l, or meeting it in few components only
            u = gen.Tri([[x.label for x in tr] for tr in s.E[e - 1].target_triangulation])
            f = s.inv(e, op='uncrush')
            m = s.crapp(f, s.lam(s_ti(s, e), gen.rand_lam(rng, u, rng.choice(['c', 'cp', 'Cc']), maxweight=20)))
            if m and type(s.L[m - 1]).__name__ not in ('Curve', 'MultiCurve'): m = None
            if m and rng.random() < 0.3: m = s.sum(ti, [m, l], [1, 1], 'disjointlist')
            if m and rng.random() < 0.2: s.tight(e, l, l, 1)
        else: m = rng.choice(ls)
        if not m: continue
        for n in (0, 1, 2): s.tight(e, l, m, n)
        fills, _ = s.call(lambda: s.L[l - 1].fills_with(s.L[m - 1]))
        if fills is False: s.tight(e, l, m, rng.choice([3, 4]))
        s.union(e, l, m)
    for _ in range(2):
        if cs: s.quasi(rng.choice(cs), rng.choice(cs))


def s_ti(s, e):
    """a register of the target triangulation of the map e"""
    T = s.E[e - 1].target_triangulation
    return next(i for i, U in enumerate(s.T, 1) if U is T or U == T)


# C33 -- subdivision
def c33(rng, s, size):
    t, ti = T0(rng, s, size)
    for _ in range(2):
        ms = [m for m in (s.lam(ti, wl(rng, t, size, rng.choice(['c', 'c', 'Cc', 'cp', 'p']))) for _ in range(4)) if type(s.L[m - 1]).__name__ in ('Curve', 'MultiCurve')]
        ls = rng.sample(t.labels(), rng.choice([1, 2, 4])) if rng.random() < 0.75 else t.labels()
        s.pach(ti, ls, ms)


# C34 -- enumerations
def c34(rng, s, size):
    t, ti = T0(rng, s, 0)
    for _ in range(12):
        u, path = gen.rand_flips(rng, t, rng.choice([0, 0, 1, 2, 4]))
        w = [-1 if rng.random() < 0.9 else -2 for _ in range(t.z)]
        for i in rng.sample(range(t.z), min(t.z, rng.choice([0, 1, 2, 2, 3, 3, 4 if size else 3]))): w[i] = 0
        if not any(w): continue
        for e in reversed(path):
            w = u.flipw(~e, w)
            u = u.flip(~e)
        if max(w) > 20: continue
        l = s.lam(ti, w)
        ok, _ = s.call(lambda: s.L[l - 1].is_filling())
        if not ok: continue
        s.disj(s.short(l), l, t.z <= 6)
        if rng.random() < 0.5: s.ball(l, 1 if t.z > 6 or rng.random() < 0.5 else 2)
        break
    s.allenc(ti, 2 if t.z <= 6 else 1)
    names = rng.sample(['a', 'b', 'c', 'x_1'], rng.choice([1, 2, 2, 3]))
    es = [rand_class(rng, s, t, ti, 1) for _ in names]
    letters = [x for n in names for x in ((n, n.swapcase()) if rng.random() < 0.7 else (n,))]
    rng.shuffle(letters)
    s.cayley(ti, es, names, letters, rng.choice([0, 1, 2, 2, 3 if len(letters) <= 3 else 2]))


# C32 -- Nielsen--Thurston type of periodic classes
def c32(rng, s, size):
    for _ in range(5):
        r = rng.random()
        if r < 0.3:          # isometries, often of disconnected surfaces, often trivial on some component
            t, _ = gen.rand_flips(rng, gen.rand_tri(rng, min(size, 1)) if rng.random() < 0.4 else gen.disjoint(gen.rand_tri(rng, 0), gen.rand_tri(rng, 0)), rng.choice([0, 1, 3]))
            if t.z > 12: continue
            fs = gen.isos(t, t)
            l = gen.Loop(t, [], rng.choice(fs))
        elif r < 0.5:
            a, b = gen.rand_loop(rng, 0, rng.random() < 0.5), gen.rand_loop(rng, 0, True)
            if not a or not b or a[1].t.z + b[1].t.z > 12: continue
            l = join(a[1], b[1])
        else: l = some_loop(rng, size)
        if l is None or l.t.z > 12 or l.heavy(12, 300): continue
        w, items = based(rng, s, rng.choice([0, 0, 1, 2]), l)
        ti = s.tri(w)
        e = s.enc(ti, items)
        s.nt(e)
        n = gen_order(l, 30)
        if n > 1 and rng.random() < 0.5: s.nt(s.pow(e, rng.choice([-1, 2, 3, n])))


# C36 -- real weights
def c36(rng, s, size):
    t, ti = T0(rng, s, size)
    ls = [s.lam(ti, wl(rng, t, size)) for _ in range(4)]
    cs = [c for c in (s.lam(ti, wl(rng, t, 0, 'Cc')) for _ in range(3)) if type(s.L[c - 1]).__name__ == 'Curve']
    for l in ls: s.real(l, cs, rng.choice([1, 2, 3, 7, 12]))
    es = [rand_map(rng, s, t, ti)[0]]
    es += [s.tw(c, rng.choice([-5, -2, 2, 3, 9])) for c in cs[:2] if not s.L[c - 1].is_peripheral()]
    es.append(rand_class(rng, s, t, ti))
    for e in es:
        if e is None: continue
        for l in ls: s.appq(e, l, rng.choice([2, 3, 5, 6, 11]))
    # invariant laminations
    t = gen.rand_tri(rng, 0 if size < 2 or rng.random() < 0.6 else 1)
    if t.z > 6 and rng.random() < 0.7: return
    ti = s.tri(t)
    cs = [c for c in (s.lam(ti, gen.rand_lam(rng, t, 'Cc', maxweight=12, depth=rng.choice([0, 1, 2, 3]))) for _ in range(5)) if type(s.L[c - 1]).__name__ == 'Curve' and not s.L[c - 1].is_peripheral()]
    f = None
    if len(cs) > 1 and rng.random() < 0.85:
        a, b = rng.sample(cs, 2)
        f = s.mul(s.tw(a, rng.choice([1, 1, 2])), s.tw(b, -rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.3: f = s.mul(f, s.tw(rng.choice(cs), rng.choice([1, 1, -1])))
    else:
        l = some_loop(rng, 0)
        if l and l.t.z <= 6 and not l.heavy(8, 10**4):
            w, items = based(rng, s, rng.choice([0, 1]), l)
            s.tri(w)
            f = s.enc(len(s.T), items)
    if f: s.pil(f)


# C37 -- tracing
def c37(rng, s, size):
    t, ti = T0(rng, s, size)
    for _ in range(4):
        w = wl(rng, t, size, rng.choice([None, None, 'c', 'Cc', 'cp', 'ac']))
        l = s.lam(ti, w)
        go = [x for x in t.labels() if w[gen.idx(x)] > 0]
        for _ in range(14):
            if not go: break
            e = rng.choice(go)
            s.trace(l, e, rng.randrange(w[gen.idx(e)]), rng.choice([0, 1, 2, 4, 2 * t.z, 2 * t.z, 60, 200]))


# C35 -- example groups
NAMED = {'S_0_4': (0, 4), 'S_1_1': (1, 1), 'S_1_2': (1, 2), 'S_1_2p': (1, 2), 'S_2_1': (2, 1), 'S_3_1': (3, 1), 'S_4_1': (4, 1), 'S_5_1': (5, 1)}


def c35(rng, s, size):
    i = s.id - 1
    pairs = [(g, n) for g in range(5) for n in range(6)] + [(0, k) for k in range(6, 10)]
    more = [(g, n) for g in range(9) for n in range(9) if g > 4 or n > 5]
    old = sorted(NAMED) + [f'SB_{k}' for k in (3, 4, 5, 7)]
    if i < len(pairs):
        g, n = pairs[i]
        S = s.load((g, n), g, n)
    elif i < len(pairs) + len(old):
        x = old[i - len(pairs)]
        if x in NAMED: g, n = NAMED[x]; S = s.load((x,), g, n, std=False)
        else: g, n = 0, int(x[3:]); S = s.load((x,), g, n)
    elif i < len(pairs) + len(old) + 4:
        s.load([('S_2_2',), ('',), ('S_1_1 ',), (-1, 9)][i - len(pairs) - len(old)], 0, 0)
        return
    else:
        i -= len(pairs) + len(old) + 4
        if i >= len(more): return
        g, n = more[i]
        S = s.load((g, n), g, n)
    if S is None or S.zeta > 15: return
    T = S.triangulation
    ti = s.tri([[x.label for x in tr] for tr in T])
    for k in rng.sample(sorted(S.pos_mapping_classes), min(3, len(S.pos_mapping_classes))):
        x = {**S.curves, **S.arcs}[k]
        l = s.lam(ti, [int(v) for v in x])
        s.enceq(s.adopt(ti, lambda: S(k)), s.tw(l, 1) if k in S.curves else s.ht(l, 1))


# C38 -- helper functions
def c38(rng, s, size):
    for _ in range(12):
        f = rng.choice(['maximin', 'maxes', 'maximum', 'slice', 'product', 'b64', 'half', 'alpha', 'edge'])
        xs = [rng.randint(0, 12) for _ in range(rng.choice([1, 2, 3, 5, 8]))]
        ev = {'op': 'util', 'f': f}
        if f == 'maximin': ev['xs'] = [[rng.randint(-5, 9) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(rng.choice([1, 2, 3, 5]))]
        elif f == 'maxes': ev.update(x=rng.choice([xs, xs, xs, []]), m=rng.choice([2, 3, 5, 20]))
        elif f == 'maximum': ev.update(x=xs, m=rng.choice([3, 5, 20]), ub=rng.choice([-1, 1, 2, 4, 8]))
        elif f == 'slice':
            x = rng.sample(range(12), rng.randint(1, 8))
            ev.update(x=x, a=rng.choice(x), b=rng.choice(x + [-1, 12]))
        elif f == 'product':
            n = rng.choice([2, 3, 4])
            q = lambda: rng.sample(range(n), n)
            ev.update(ps=[q() for _ in range(rng.choice([0, 1, 2, 3, 4]))], s=q(), left=rng.random() < 0.5)
        elif f == 'b64': ev['n'] = rng.choice([0, 1, 63, 64, 65, 4095, 4096, rng.randrange(2**31 - 1)])
        elif f == 'half': ev['n'] = rng.randint(-20, 20)
        elif f == 'alpha': ev['ns'] = [list(x) for x in {(rng.randint(1, 3), rng.choice([0, 1, 2, 9, 10, 11, 19, 100])) for _ in range(6)}]
        else:
            ev['a'] = rng.randint(-9, 8)
            ev['b'] = rng.choice([ev['a'], ~ev['a'], rng.randint(-9, 8)])
        s.util(ev)


PROPS = {
    'C38': dict(prog=c38, n=(400, 6000)),
    'C01': dict(prog=c01, n=(360, 5000)),
    'C02': dict(prog=c02, n=(360, 5000)),
    'C03': dict(prog=c03, n=(240, 3000)),
    'C04': dict(prog=c04, n=(160, 2000)),
    'C05': dict(prog=c05, n=(160, 2000)),
    'C06': dict(prog=c06, n=(360, 5000)),
    'C07': dict(prog=c07, n=(300, 4000)),
    'C08': dict(prog=c08, n=(240, 3000)),
    'C09': dict(prog=c09, n=(160, 2000)),
    'C10': dict(prog=c10, n=(160, 2000)),
    'C11': dict(prog=c11, n=(200, 3000)),
    'C12': dict(prog=c12, n=(240, 3000)),
    'C13': dict(prog=c13, n=(200, 3000)),
    'C14': dict(prog=c14, n=(240, 3000)),
    'C15': dict(prog=c15, n=(240, 3000)),
    'C16': dict(prog=c16, n=(200, 3000)),
    'C17': dict(prog=c17, n=(200, 3000)),
    'C18': dict(prog=c18, n=(200, 3000)),
    'C19': dict(prog=c19, n=(160, 2000)),
    'C20': dict(prog=c20, n=(160, 2000)),
    'C21': dict(prog=c21, n=(200, 2000)),
    'C22': dict(prog=c22, n=(300, 5000)),
    'C23': dict(prog=c23, n=(300, 5000)),
    'C24': dict(prog=c24, n=(300, 5000)),
    'C25': dict(prog=c25, n=(240, 3000)),
    'C26': dict(prog=c26, n=(200, 3000)),
    'C27': dict(prog=c27, n=(200, 3000)),
    'C28': dict(prog=c28, n=(200, 3000)),
    'C29': dict(prog=c29, n=(160, 2000)),
    'C33': dict(prog=c33, n=(240, 3000)),
    'C34': dict(prog=c34, n=(160, 2000)),
    'C35': dict(prog=c35, n=(60, 120)),
    'C32': dict(prog=c32, n=(200, 2000)),
    'C36': dict(prog=c36, n=(160, 2000)),
    'C37': dict(prog=c37, n=(300, 4000)),
    'C31': dict(prog=c31, n=(160, 2000)),
    'C30': dict(prog=c30, n=(200, 2000)),
}

# the state machine spec/Curver.tla, explored exhaustively and replayed into the code
import mc
for _p, _h in {
    'C01': mc.hook([dict(ts=mc.S11, bound=3, ops=['f', 'm']), dict(ts=mc.S04, seed=1, seed2=0, bound=3, depth=1, ops=['f', 'm'])],
                   [dict(ts=mc.S11, seed=3, seed2=1, bound=6, ops=['f', 'm']), dict(ts=mc.S04, seed=1, seed2=0, bound=3, depth=2, ops=['f', 'm']),
                    dict(ts=mc.S12, seed=1, seed2=0, bound=3, depth=2, ops=['f', 'm']), dict(ts=mc.S03L, bound=4, ops=['f', 'm']), dict(ts=mc.S11S03, seed=0, seed2=0, depth=2, ops=['f', 'm'])]),
    'C03': mc.hook([dict(ts=t, seed=1, seed2=0, bound=2, ops=['f', 'r']) for t in (mc.S03, mc.S03L)],
                   [dict(ts=t, seed=2, seed2=1, bound=3, ops=['f', 'r']) for t in (mc.S03, mc.S03L, mc.S11)] + [dict(ts=mc.S11S03, seed=0, seed2=0, depth=1, ops=['f', 'r'])]),
    'C04': mc.hook([dict(ts=mc.S11, seed=1, seed2=0, bound=3, ops=['f', 'r', 't'], pows=[1, -2])],
                   [dict(ts=mc.S11, seed=1, seed2=1, bound=5, ops=['f', 'm', 'r', 't'], pows=[1, -1, 2, -3]), dict(ts=mc.S04, seed=1, seed2=0, bound=4, depth=2, ops=['f', 'm', 'h'], pows=[1, -1, 2])], parts=('walks',), cap=(800, 10)),
    'C07': mc.hook([dict(ts=mc.S11, seed=2, seed2=1, bound=3, ops=['f']), dict(ts=mc.S04, seed=1, seed2=0, bound=3, depth=2, ops=['f'])],
                   [dict(ts=mc.S11, seed=4, seed2=2, bound=6, ops=['f']), dict(ts=mc.S04, seed=1, seed2=1, bound=3, depth=3, ops=['f']), dict(ts=mc.S12, seed=1, seed2=1, bound=3, depth=2, ops=['f'])], parts=('states',)),
    'C09': mc.hook([dict(ts=mc.S11, seed=1, seed2=0, bound=4, ops=['f', 't'], pows=[1, -1, 2, -3]), dict(ts=mc.S12, seed=1, seed2=0, bound=6, depth=1, ops=['t'], pows=[1, -1, 2])],
                   [dict(ts=mc.S11, seed=2, seed2=1, bound=8, ops=['f', 't'], pows=[1, -1, 2, -3, 4]), dict(ts=mc.S12, seed=1, seed2=1, bound=9, depth=2, ops=['f', 't'], pows=[1, -1, 2])]),
    'C10': mc.hook([dict(ts=mc.S04, seed=1, seed2=0, bound=12, depth=1, ops=['h'], pows=[1, -1, 2, 3])],
                   [dict(ts=mc.S04, seed=1, seed2=1, bound=9, depth=2, ops=['f', 'h'], pows=[1, -1, 2, 3]), dict(ts=mc.S12, seed=1, seed2=1, bound=9, depth=2, ops=['f', 'h'], pows=[1, -1, 2, 3])]),
}.items(): PROPS[_p]['mc'] = [_h]
