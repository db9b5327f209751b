"""Random triangulations and laminations, independent of the code under test."""
import json, os, random

SURF = {tuple(map(int, k.split(','))): v for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'surfaces.json'))).items()}


def rev(l): return ~l
def idx(l): return l if l >= 0 else ~l


class Tri:
    """nx: label -> next label anticlockwise in its triangle."""
    def __init__(self, triples):
        self.nx = {}
        for a, b, c in triples:
            self.nx[a], self.nx[b], self.nx[c] = b, c, a
        self.z = len(self.nx) // 2

    def copy(self):
        t = Tri([]); t.nx = dict(self.nx); t.z = self.z
        return t

    def pv(self, l): return self.nx[self.nx[l]]
    def labels(self): return list(range(-self.z, self.z))

    def triples(self):
        out, seen = [], set()
        for l in self.labels():
            if l not in seen:
                t = [l, self.nx[l], self.pv(l)]
                seen.update(t)
                out.append(t)
        return out

    def tri(self, l): return frozenset((l, self.nx[l], self.pv(l)))
    def flippable(self, e): return self.tri(e) != self.tri(~e)
    def flippables(self): return [l for l in self.labels() if self.flippable(l)]

    def flip(self, e):
        a, b, c, d = self.nx[e], self.pv(e), self.nx[~e], self.pv(~e)
        i = idx(e)
        t = self.copy()
        t.nx.update({i: d, d: a, a: i, ~i: b, b: c, c: ~i})
        return t

    def relabel(self, p):
        t = self.copy()
        t.nx = {p[l]: p[m] for l, m in self.nx.items()}
        return t

    def vertex(self, l):
        out = [l]
        while True:
            m = ~self.pv(out[-1])
            if m == l: return out
            out.append(m)

    def vertices(self):
        out, seen = [], set()
        for l in self.labels():
            if l not in seen:
                v = self.vertex(l)
                seen.update(v)
                out.append(v)
        return out

    def vlookup(self):
        return {l: i for i, v in enumerate(self.vertices()) for l in v}

    def components(self):
        out, seen = [], set()
        for l in self.labels():
            if l in seen: continue
            comp, st = set(), [l]
            while st:
                x = st.pop()
                if x in comp: continue
                comp.add(x)
                st += [~x, self.nx[x]]
            seen |= comp
            out.append(comp)
        return out

    def surface(self):
        vs = self.vertices()
        out = []
        for c in self.components():
            v = sum(1 for x in vs if x[0] in c)
            out.append(((2 - v + len(c) // 6) // 2, v))
        return sorted(out)

    # weights
    def valid(self, w):
        for a, b, c in self.triples():
            x, y, z = (max(w[idx(l)], 0) for l in (a, b, c))
            if x > y + z or y > x + z or z > x + y: continue
            if (x + y + z) % 2: return False
        return True

    def corner(self, w, l):
        a, b, c = (max(w[idx(x)], 0) for x in (l, self.nx[l], self.pv(l)))
        if b > a + c: return 0
        if a > b + c: return c
        if c > a + b: return a
        return (a + c - b) // 2

    def term(self, w, l):
        a, b, c = (max(w[idx(x)], 0) for x in (l, self.nx[l], self.pv(l)))
        return max(b - a - c, 0)

    def flipw(self, e, w):
        q = [self.nx[e], self.pv(e), self.nx[~e], self.pv(~e)]
        E = max(w[idx(e)], 0)
        N = max(-w[idx(e)], 0)
        lb, la = self.corner(w, e), self.corner(w, q[0])
        rc, rd = self.corner(w, q[2]), self.corner(w, ~e)
        rab, rcd = self.corner(w, q[1]), self.corner(w, q[3])
        bd, ac = max(lb - (E - rd), 0), max(la - (E - rc), 0)
        RS = max(min(E - la, E - rd) - max(lb, rc), 0)
        new = bd + ac + rab + rcd + N + self.term(w, e) + self.term(w, q[0]) + self.term(w, ~e) + self.term(w, q[2])
        w = list(w)
        w[idx(e)] = new if new > 0 else -RS
        return w


# ---------------------------------------------------------------- triangulations
def rand_glue(rng, n, connected=None):
    sides = [(i, j) for i in range(n) for j in range(3)]
    while True:
        s = sides[:]
        rng.shuffle(s)
        lab = {}
        for k in range(0, len(s), 2):
            lab[s[k]], lab[s[k + 1]] = k // 2, ~(k // 2)
        t = Tri([[lab[(i, 0)], lab[(i, 1)], lab[(i, 2)]] for i in range(n)])
        if connected is None or (len(t.components()) == 1) == connected:
            return t


def rand_perm(rng, z):
    p = list(range(z))
    rng.shuffle(p)
    out = {}
    for i in range(z):
        j = p[i] if rng.random() < 0.5 else ~p[i]
        out[i], out[~i] = j, ~j
    return out


def rand_flips(rng, t, k):
    path = []
    for _ in range(k):
        f = t.flippables()
        if not f: break
        e = rng.choice(f)
        path.append(e)
        t = t.flip(e)
    return t, path


def disjoint(t, u):
    z, out = t.z, []
    for a in u.triples():
        out.append([x + z if x >= 0 else x - z for x in a])
    return Tri(t.triples() + out)


SMALL = [(0, 3), (0, 4), (0, 5), (1, 1), (1, 2)]
MEDIUM = [(0, 4), (0, 5), (0, 6), (1, 1), (1, 2), (1, 3), (2, 1)]
LARGE = [(0, 6), (0, 7), (1, 3), (1, 4), (2, 1), (2, 2), (3, 1)]


def rand_tri(rng, size=1, connected=None, shuffle=True):
    """size 0: z <= 6; 1: z <= 9; 2: z <= 15."""
    r = rng.random()
    if r < 0.35:
        t = rand_glue(rng, rng.choice([[2, 4], [2, 4, 4, 6], [4, 6, 8]][size]), connected)
    elif r < 0.9 or connected:
        t = Tri(SURF[rng.choice([SMALL, MEDIUM, LARGE][size])])
    else:
        pool = [(0, 3), (1, 1), (0, 4), (1, 2)] if size else [(0, 3), (1, 1)]
        t = disjoint(Tri(SURF[rng.choice(pool)]), Tri(SURF[rng.choice(pool[:3])]))
    if shuffle:
        t, _ = rand_flips(rng, t, rng.choice([0, 1, 2, 3, 5, 8]))
        if rng.random() < 0.5:
            t = t.relabel(rand_perm(rng, t.z))
    return t


# ---------------------------------------------------------------- laminations
def loop_curve(t, e):
    v = t.vertex(e)
    k = v.index(~e)
    w = [0] * t.z
    for l in v[1:k]: w[idx(l)] += 1
    return w, k - 1


def vertex_curve(t, v):
    w = [0] * t.z
    for l in v: w[idx(l)] += 1
    return w


def add(u, w, n=1): return [a + n * b for a, b in zip(u, w)]


def short_lam(rng, t, kind, maxn=3):
    """kind: subset of 'a' (arcs), 'c' (essential-looking curves), 'p' (peripheral)."""
    z = t.z
    for _ in range(60):
        w = [0] * z
        arcs = []
        if 'a' in kind:
            k = rng.choice([1, 1, 2, 3, z]) if 'A' not in kind else 1
            arcs = rng.sample(range(z), min(k, z))
            if 'c' in kind or 'p' in kind: arcs = arcs[:rng.choice([0, 1, 1, 2])]
        vl = t.vlookup()
        used = {vl[l] for a in arcs for l in (a, ~a)}
        if 'c' in kind:
            for _ in range(rng.choice([1, 1, 2, 3]) if 'C' not in kind else 1):
                cand = []
                for e in t.labels():
                    if vl[e] == vl[~e]:
                        c, n = loop_curve(t, e)
                        if n > 1 and all(c[a] == 0 for a in arcs): cand.append(c)
                    elif not ({vl[e], vl[~e]} & used):   # boundary of an edge joining distinct punctures
                        pass
                if cand: w = add(w, rng.choice(cand), rng.choice([1, 1, 1, 2, maxn]) if 'C' not in kind else 1)
        if 'p' in kind:
            for i, v in enumerate(t.vertices()):
                if i not in used and rng.random() < 0.4: w = add(w, vertex_curve(t, v), rng.choice([1, 1, 2]))
        for a in arcs:
            if w[a]: break
            w[a] = -(rng.choice([1, 1, 1, 2, maxn]) if 'A' not in kind else 1)
        else:
            if any(w) and t.valid(w): return w
    return None


def along(t, path, w):
    """carry w forward along the flips in path (labels), returning (t, w)."""
    for e in path:
        w = t.flipw(e, w)
        t = t.flip(e)
    return t, w


def rand_lam(rng, t, kind=None, maxweight=60, depth=None, maxn=3):
    """weights on t of a random lamination: short on a flipped triangulation, flipped back."""
    for _ in range(40):
        k = kind or rng.choice(['a', 'A' + 'a', 'c', 'C' + 'c', 'ac', 'acp', 'cp', 'p', 'ap'])
        d = rng.choice([0, 1, 2, 3, 4, 6, 8, 11]) if depth is None else depth
        u, path = rand_flips(rng, t, d)
        w = short_lam(rng, u, k, maxn)
        if w is None: continue
        # undo the flips: flipping ~e undoes e
        for e in reversed(path):
            w = u.flipw(~e, w)
            u = u.flip(~e)
            if sum(max(x, 0) for x in w) > 4 * maxweight: break
        else:
            if u.nx == t.nx and sum(max(x, 0) for x in w) <= maxweight: return w
    return short_lam(rng, t, 'a', maxn) or [-1] + [0] * (t.z - 1)


def small_vector(rng, t, hi=4):
    """a valid vector found by rejection: small entries, all kinds of components."""
    for _ in range(400):
        w = [rng.choice([0, 0, 0, 1, 1, 2, 2, 3, hi, -1, -2]) for _ in range(t.z)]
        if t.valid(w) and any(w): return w
    return rand_lam(rng, t)


# ---------------------------------------------------------------- isometries and periodic classes
def _extend(t, u, l, m):
    f, st = {l: m}, [(l, m)]
    while st:
        x, y = st.pop()
        for p, q in ((~x, ~y), (t.nx[x], u.nx[y])):
            if p in f:
                if f[p] != q: return None
            else:
                f[p] = q
                st.append((p, q))
    return f if len(set(f.values())) == len(f) else None


def isos(t, u, limit=4000):
    """all label maps carrying t to u"""
    acc = [{}]
    for C in t.components():
        l = min(C)
        ext = [f for f in (_extend(t, u, l, m) for m in u.labels()) if f]
        acc = [{**g, **f} for g in acc for f in ext if not set(g.values()) & set(f.values())][:limit]
    return acc


def relabelw(p, w):
    out = [0] * len(w)
    for i, x in enumerate(w): out[idx(p[i])] = x
    return out


class Loop:
    """flips es (in order) from t to u, then the relabelling p of u back to t"""
    def __init__(self, t, es, p): self.t, self.es, self.p = t, es, p

    def __call__(self, w):
        t = self.t
        for e in self.es: w, t = t.flipw(e, w), t.flip(e)
        return relabelw(self.p, w)

    def items(self): return list(self.es) + [dict(self.p)]

    def heavy(self, rounds, bound=10**7):
        """do the iterates of the triangulation get too heavy before they come back?"""
        w = a = [-1] * self.t.z
        for _ in range(rounds):
            w = self(w)
            if w == a: return False
            if max(w) > bound: return True
        return False


def conj_items(path, items):
    """items on the end of path, as a loop at its start"""
    return list(path) + items + [~e for e in reversed(path)]


def rand_loop(rng, size, symmetric=False, t=None):
    """a triangulation with a random loop of few flips closed up by an isometry"""
    for _ in range(400):
        s = t or rand_tri(rng, size)
        u, es = rand_flips(rng, s, 0 if symmetric else rng.choice([0, 0, 1, 1, 2, 3]))
        fs = isos(u, s)
        if symmetric and len(fs) == 1: continue
        if not fs: continue
        return s, Loop(s, es, rng.choice(fs))
    return None
