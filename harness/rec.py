"""Drives the real code through its public API, recording every call with its result."""
import hashlib, os, pickle, signal, sys
from fractions import Fraction

sys.path.insert(0, os.environ.get('CURVER_REPO', '/repo'))
import numbers
import numpy as np
import curver
from curver import kernel as K

BIG = 2147483647
OPTIME = int(os.environ.get('CV_OPTIME', '60'))


class Timeout(BaseException): pass
class Stop(Exception):
    """The session cannot go on: the last recorded event failed."""


def _alarm(*_): raise Timeout()


def num(x):
    try:
        if isinstance(x, (bool, np.bool_)): return int(x)
        if not isinstance(x, numbers.Number): return -BIG
        if x != int(x): return -BIG
        x = int(x)
        return x if -BIG < x < BIG else (BIG if x > 0 else -BIG)
    except Exception:
        return -BIG


def boo(x):
    if x is True or x is False: return x
    if isinstance(x, np.bool_): return bool(x)
    raise TypeError('not a truth value')


class Session:
    def __init__(self, sid):
        self.id, self.ev, self.ttab, self._tidx = sid, [], [], {}
        self.T, self.L, self.E, self.H, self.S = [], [], [], [], []
        self.bad = None

    def data(self): return {'id': self.id, 'T': self.ttab, 'ev': self.ev}

    # -- plumbing
    def call(self, fn):
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(OPTIME)
        try:
            return fn(), None
        except Timeout:
            return None, 'Timeout'
        except Stop:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            return None, type(e).__name__
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def do(self, ev, fn, enc, may_fail=False):
        """run fn, record ev with r = enc(result); returns (result, ok)."""
        def both():
            x = fn()
            return x, enc(x)
        out, err = self.call(both)
        if err is not None:
            ev['r'] = {'err': err}
            self.ev.append(ev)
            if not may_fail: raise Stop()
            return None, False
        ev['r'] = out[1]
        self.ev.append(ev)
        return out[0], True

    def tref(self, T):
        tt = [[num(e.label) for e in t] for t in T]
        k = repr(tt)
        if k not in self._tidx:
            self.ttab.append(tt)
            self._tidx[k] = len(self.ttab)
        return self._tidx[k]

    def lamr(self, l):
        return {'w': [num(x) for x in l.geometric], 'c': type(l).__name__, 't': self.tref(l.triangulation)}

    def encr(self, e):
        return {'s': self.tref(e.source_triangulation), 't': self.tref(e.target_triangulation), 'c': type(e).__name__}

    def item(self, it, zeta):
        if it is None: return {'op': 'id'}
        if isinstance(it, set): return {'op': 'm', 'es': sorted(num(x) for x in it)}
        if isinstance(it, dict): return {'op': 'r', 'p': [num(it[l]) for l in range(-zeta, zeta)]}
        if isinstance(it, tuple) and isinstance(it[0], str):
            if isinstance(it[1], list): return {'op': '?'}
            return {'op': 'lift', 'e': num(it[1]), 't': self.tref(K.Triangulation.from_sig(it[0]))}
        lab = lambda x: num(getattr(x, 'label', x))
        if isinstance(it, tuple): return {'op': 'e', 'e': lab(it[0]), 'k': num(it[1])} if num(it[1]) != 0 else {'op': 'crush', 'e': lab(it[0])}
        return {'op': 'f', 'e': lab(it)}

    def pkgr(self, e):
        zeta = e.zeta
        return [self.item(it, zeta) for it in reversed(e.package())]

    def encp(self, e):
        r = self.encr(e)
        r['pkg'] = self.pkgr(e)
        return r

    def add(self, reg, x):
        reg.append(x)
        return len(reg)

    # -- triangulations
    def tri(self, t):
        ts = t.triples() if hasattr(t, 'triples') else t
        x, ok = self.do({'op': 'tri', 'ts': ts}, lambda: curver.create_triangulation([tuple(a) for a in ts]), lambda x: {'t': self.tref(x)})
        return self.add(self.T, x)

    def badtri(self, ts):
        """triples which need not use every label exactly once"""
        self.do({'op': 'badtri', 'ts': ts}, lambda: curver.create_triangulation([tuple(a) for a in ts]), lambda x: {'z': num(x.zeta)}, may_fail=True)

    def triobs(self, t):
        T = self.T[t - 1]
        def enc(_):
            surf = T.surface()
            edges = [K.Edge(l) for l in range(-T.zeta, T.zeta)]
            return {'tri': [[num(e.label) for e in tr] for tr in T], 'z': num(T.zeta), 'nt': num(T.num_triangles), 'chi': num(T.euler_characteristic),
                    'nv': num(T.num_vertices), 'verts': [[num(e.label) for e in v] for v in T.vertices],
                    'comps': [sorted(num(e.label) for e in c) for c in T.components()], 'conn': boo(T.is_connected()),
                    'surf': [{'c': sorted(num(e.label) for e in c), 'g': num(s.g), 'p': num(s.p), 'chi': num(s.chi)} for c, s in surf.items()],
                    'flip': [e.label for e in edges if T.is_flippable(e)],
                    'sq': [[num(x.label) for x in T.square(e)] for e in edges if T.is_flippable(e)],
                    'corner': [[num(x.label) for x in T.corner_lookup[e]] for e in edges],
                    'vl': [[num(x.label) for x in T.vertex_lookup[e]] for e in edges]}
        self.do({'op': 'triobs', 't': t}, lambda: None, enc)

    def trieq(self, t, u):
        T, U = self.T[t - 1], self.T[u - 1]
        self.do({'op': 'trieq', 't': t, 'u': u}, lambda: None, lambda _: {'b': boo(T == U), 'h': hash(T) == hash(U), 's': T.sig() == U.sig()})

    def trisig(self, t):
        """signature, pickle and package all rebuild the same triangulation"""
        T = self.T[t - 1]
        def enc(_):
            us = [K.Triangulation.from_sig(T.sig()), pickle.loads(pickle.dumps(T)), K.triangulation.create_triangulation(T.__class__, *T.package())]
            return {'ts': [self.tref(u) for u in us], 'eq': [boo(u == T) for u in us]}
        self.do({'op': 'trisig', 't': t}, lambda: None, enc)

    def tree(self, t, avoid=()):
        T = self.T[t - 1]
        self.do({'op': 'tree', 't': t, 'av': sorted(avoid)}, lambda: T.dual_tree(avoid=set(avoid)) if avoid else T.dual_tree(), lambda x: {'x': sorted(num(i) for i in x)})

    def iso(self, t, u):
        T, U = self.T[t - 1], self.T[u - 1]
        z = T.zeta
        self.do({'op': 'iso', 't': t, 'u': u}, lambda: list(T.isometries_to(U)),
                lambda xs: {'ps': [[num(x.label_map[l]) for l in range(-z, z)] for x in xs], 'b': boo(T.is_isometric_to(U))})

    def fiso(self, t, u, pairs):
        T, U = self.T[t - 1], self.T[u - 1]
        z = T.zeta
        self.do({'op': 'fiso', 't': t, 'u': u, 'm': [list(p) for p in pairs]}, lambda: T.find_isometry(U, dict(pairs)),
                lambda x: {'p': [num(x.label_map[l]) for l in range(-z, z)]}, may_fail=True)

    # -- laminations
    def lam(self, t, w, how='list'):
        T = self.T[t - 1]
        if how == 'dict': arg = {i: x for i, x in enumerate(w) if x}
        elif how == 'frac': arg = [Fraction(x) for x in w]
        elif how == 'float': arg = [float(x) for x in w]
        elif how == 'np': arg = [x for x in np.array(w, dtype=object)]
        else: arg = list(w)
        x, _ = self.do({'op': 'lam', 't': t, 'w': list(w)}, lambda: T.lamination(arg) if how != 'call' else T(arg), self.lamr)
        return self.add(self.L, x)

    def comp(self, l):
        x = self.L[l - 1]
        self.do({'op': 'comp', 'l': l}, lambda: x.components(),
                lambda c: {'ms': [{'w': [num(i) for i in k], 'n': num(n), 'c': type(k).__name__, 't': self.tref(k.triangulation)} for k, n in c.items()], 'n': num(x.num_components())})

    def inter(self, l, ms):
        x = self.L[l - 1]
        self.do({'op': 'int', 'l': l, 'ms': ms}, lambda: x.intersection(*[self.L[m - 1] for m in ms]), lambda r: {'x': num(r)})

    def part(self, l, what):
        x = self.L[l - 1]
        y, _ = self.do({'op': 'part', 'l': l, 'what': what}, lambda: getattr(x, what)(), self.lamr)
        return self.add(self.L, y)

    def isper(self, l):
        x = self.L[l - 1]
        self.do({'op': 'isper', 'l': l}, lambda: None, lambda _: {'p': boo(x.is_peripheral()), 'np': boo(x.is_non_peripheral()), 'e': boo(x.is_empty()), 'nz': bool(x)})

    def nocommon(self, l, m):
        self.do({'op': 'nocommon', 'l': l, 'm': m}, lambda: self.L[l - 1].no_common_component(self.L[m - 1]), lambda b: {'b': boo(b)})

    def dual(self, l):
        x = self.L[l - 1]
        z = x.triangulation.zeta
        self.do({'op': 'dual', 'l': l}, lambda: None, lambda _: {k: [num(f(e)) for e in range(-z, z)] for k, f in (('d', x.dual_weight), ('lw', x.left_weight), ('rw', x.right_weight))})

    def weight(self, l):
        self.do({'op': 'weight', 'l': l}, lambda: self.L[l - 1].weight(), lambda x: {'x': num(x)})

    def lameq(self, l, m):
        x, y = self.L[l - 1], self.L[m - 1]
        self.do({'op': 'lameq', 'l': l, 'm': m}, lambda: None, lambda _: {'b': boo(x == y), 'h': hash(x) == hash(y), 'ne': boo(x != y)})

    def sum(self, t, ls, ks, how):
        T = self.T[t - 1]
        xs = [self.L[i - 1] for i in ls]
        def fn():
            if how == 'add':
                out = xs[0] * ks[0] if ks[0] != 1 else xs[0]
                for x, k in zip(xs[1:], ks[1:]): out = out + (k * x if k != 1 else x)
                return out
            if how == 'mul': return ks[0] * xs[0]
            if how == 'py': return sum([x for x, k in zip(xs, ks) for _ in range(k)], T.empty_lamination())
            f = T.sum if how.startswith('sum') else T.disjoint_sum
            if how.endswith('list'): return f([x for x, k in zip(xs, ks) for _ in range(k)])
            return f(dict(zip(xs, ks)))
        y, ok = self.do({'op': 'sum', 't': t, 'ls': ls, 'ks': ks, 'how': how}, fn, self.lamr, may_fail=min(ks) < 0 or any(x.triangulation is not T for x in xs))
        return self.add(self.L, y) if ok else None

    def sub(self, l):
        self.do({'op': 'sub', 'l': l}, lambda: self.L[l - 1].sublaminations(), lambda xs: {'ws': [[num(i) for i in x] for x in xs]})

    def bnd(self, l):
        y, _ = self.do({'op': 'bnd', 'l': l}, lambda: self.L[l - 1].boundary(), self.lamr)
        return self.add(self.L, y)

    def fill(self, l):
        x = self.L[l - 1]
        self.do({'op': 'fill', 'l': l}, lambda: None, lambda _: {'f': boo(x.is_filling()), 'p': boo(x.is_polygonalisation())})

    def istri(self, l):
        self.do({'op': 'istri', 'l': l}, lambda: self.L[l - 1].is_triangulation(), lambda b: {'b': boo(b)})

    def ends(self, l):
        x = self.L[l - 1]
        self.do({'op': 'ends', 'l': l}, lambda: None, lambda _: {'b': boo(x.has_distinct_endpoints()), 'vs': [num(v[0].label) for v in x.vertices()]})

    def edgecurve(self, t, e):
        T = self.T[t - 1]
        self.do({'op': 'edgecurve', 't': t, 'e': e}, lambda: None, lambda _: {'w': [num(x) for x in T.edge_curve(e)], 'w2': [num(x) for x in T.edge_curve(~e)]})

    # -- maps
    def _enc(self, ev, fn, may_fail=False, pkg=False):
        x, ok = self.do(ev, fn, self.encp if pkg else self.encr, may_fail)
        return x, ok

    def enc(self, t, items, api='encode'):
        """items in application order: int | set | dict | (e, k) | None"""
        T = self.T[t - 1]
        z = T.zeta
        rec = []
        for it in items:
            if isinstance(it, dict):
                full = all(i in it or ~i in it for i in range(z))
                rec.append({'op': 'pr' if full else 'pi', 'm': [[a, b] for a, b in it.items()]})
            else: rec.append(self.item(it, z))
        def fn():
            if api == 'flip': return T.encode_flip(items[0])
            if api == 'multiflip': return T.encode_multiflip(items[0])
            if api == 'relabel': return T.encode_relabel_edges(items[0])
            return T.encode([it if not isinstance(it, dict) else dict(it) for it in reversed(items)])
        x, _ = self._enc({'op': 'enc', 't': t, 'items': rec}, fn)
        self.T.append(x.target_triangulation)
        return self.add(self.E, x)

    def tw(self, l, k, op='tw'):
        c = self.L[l - 1]
        x, ok = self._enc({'op': op, 'l': l, 'k': k}, lambda: c.encode_twist(power=k) if op == 'tw' else c.encode_halftwist(power=k), may_fail=op == 'ht')
        return self.add(self.E, x) if ok else None

    def ht(self, l, k): return self.tw(l, k, 'ht')

    def mul(self, a, b):
        x, ok = self._enc({'op': 'mul', 'a': a, 'b': b}, lambda: self.E[a - 1] * self.E[b - 1], may_fail=True)
        return self.add(self.E, x) if ok else None

    def inv(self, a, how=0, op='inv'):
        x, _ = self._enc({'op': op, 'a': a}, lambda: ~self.E[a - 1] if how else self.E[a - 1].inverse())
        return self.add(self.E, x)

    def pow(self, a, k):
        x, _ = self._enc({'op': 'pow', 'a': a, 'k': k}, lambda: self.E[a - 1] ** k)
        return self.add(self.E, x)

    def conj(self, a, b):
        x, _ = self._enc({'op': 'conj', 'a': a, 'b': b}, lambda: self.E[a - 1].conjugate_by(self.E[b - 1]))
        return self.add(self.E, x)

    def adopt(self, t, fn):
        """an encoding obtained from the real code, known to the specification through its package"""
        x, _ = self._enc({'op': 'adopt', 't': t}, fn, pkg=True)
        self.T.append(x.target_triangulation)
        return self.add(self.E, x)

    def same(self, a, kind):
        e = self.E[a - 1]
        def fn():
            if kind == 'pickle': return pickle.loads(pickle.dumps(e))
            if kind == 'package': return e.source_triangulation.encode(e.package())
            if kind == 'self': return e
            if kind == 'moves': return e.source_triangulation.encode(list(e))
            if kind == 'parts':
                i = len(e) // 2
                return e.source_triangulation.encode([p for p in (e[:i], e[i:]) if len(p)])
            return getattr(e, kind)()
        x, _ = self._enc({'op': 'same', 'a': a, 'kind': kind}, fn, pkg=True)
        return self.add(self.E, x)

    def slice(self, a, i, j):
        e = self.E[a - 1]
        def enc(_):
            p1, p2, p3 = e[:i], e[i:j], e[j:]
            f = p1 * p2 * p3
            out = {'eq': boo(f == e)}
            for n, p in (('1', p1), ('2', p2), ('3', p3)):
                out['p' + n] = self.pkgr(p)
                out['s' + n], out['t' + n] = self.tref(p.source_triangulation), self.tref(p.target_triangulation)
            return out
        self.do({'op': 'slice', 'a': a, 'i': i, 'j': j, 'n': len(e)}, lambda: None, enc)

    def app(self, a, l, pw=None):
        e, x = self.E[a - 1], self.L[l - 1]
        ev = {'op': 'app', 'a': a, 'l': l}
        if pw is not None: ev['pw'] = pw
        y, ok = self.do(ev, lambda: e(x) if pw is None else e(x, power=pw), self.lamr, may_fail=True)
        if not ok and ev['r'].get('err') != 'ValueError': raise Stop()
        return self.add(self.L, y) if ok else None

    def enceq(self, a, b):
        x, y = self.E[a - 1], self.E[b - 1]
        self.do({'op': 'enceq', 'a': a, 'b': b}, lambda: None, lambda _: {'b': boo(x == y), 'ne': boo(x != y), 'h': hash(x) == hash(y)})

    def isid(self, a):
        self.do({'op': 'isid', 'a': a}, lambda: self.E[a - 1].is_identity(), lambda b: {'b': boo(b)})

    def vmap(self, a):
        self.do({'op': 'vmap', 'a': a}, lambda: self.E[a - 1].vertex_map(), lambda m: {'m': [[[num(e.label) for e in x], [num(e.label) for e in y]] for x, y in m.items()]})

    def imat(self, a):
        self.do({'op': 'imat', 'a': a}, lambda: self.E[a - 1].intersection_matrix(), lambda m: {'m': [[num(x) for x in r] for r in m.tolist()]})

    def short(self, l):
        x = self.L[l - 1]
        def enc(r):
            s, c = r
            out = self.encp(c)
            out['s0'] = out.pop('s'); out['t0'] = out.pop('t')
            out['s'] = self.lamr(s)
            out['b'] = boo(s.is_short())
            return out
        (s, c), _ = self.do({'op': 'short', 'l': l}, lambda: x.shorten(), enc)
        self.T.append(c.target_triangulation)
        self.L.append(s)
        return self.add(self.E, c)

    def isshort(self, l):
        self.do({'op': 'isshort', 'l': l}, lambda: self.L[l - 1].is_short(), lambda b: {'b': boo(b)})

    def toptype(self, ls, closed=False):
        def enc(_):
            seen, cls = [], []
            for l in ls:
                try: x = self.L[l - 1].topological_type(closed=closed) if closed else self.L[l - 1].topological_type()
                except ValueError: cls.append(0); continue
                if x not in seen: seen.append(x)
                cls.append(seen.index(x) + 1)
            return {'cls': cls}
        self.do({'op': 'toptype', 'ls': list(ls), 'closed': closed}, lambda: None, enc)

    # -- groups
    def order(self, a):
        e = self.E[a - 1]
        self.do({'op': 'order', 'a': a}, lambda: None, lambda _: {'n': num(e.order()), 'per': boo(e.is_periodic()), 'id': boo(e.is_identity())})

    def vperm(self, a):
        self.do({'op': 'vperm', 'a': a}, lambda: self.E[a - 1].vertex_permutation(), lambda p: {'p': [num(i) for i in p]})

    def sigr(self, sig, pos):
        return [{'num': num(o.euler_characteristic.numerator), 'den': num(o.euler_characteristic.denominator), 'm': num(o.preimages),
                 'cones': [{'p': boo(c.punctured), 'c': num(c.order), 'h': sorted(pos[x] for x in c.holonomy), 'n': num(c.preimages)} for c in o.cone_points]} for o in sig]

    def orbi(self, a):
        e = self.E[a - 1]
        def enc(_):
            H = e.subgroup()
            n = len(H)
            return {'pw': [num(x) for x in H.invariant_polygonalisation()], 'n': num(n), 'sig': self.sigr(H.quotient_orbifold_signature(), {i: i + 1 for i in range(n)})}
        self.do({'op': 'orbi', 'a': a}, lambda: None, enc, may_fail=True)

    def nt(self, a):
        e = self.E[a - 1]
        def enc(_):
            if not boo(e.is_periodic()): return {'per': False}
            return {'per': True, 'red': boo(e.is_reducible()), 'pa': boo(e.is_pseudo_anosov()), 'ty': str(e.nielsen_thurston_type()), 'pw': [num(x) for x in e.subgroup().invariant_polygonalisation()]}
        self.do({'op': 'nt', 'a': a}, lambda: None, enc, may_fail=True)

    def fsub(self, es, g):
        names = 'abcd'[:len(es)]
        def enc(_):
            H = K.FiniteSubgroup.from_generators({n: self.E[e - 1] for n, e in zip(names, es)})
            G = K.FiniteSubgroup.from_generators({n: self.E[e - 1].conjugate_by(self.E[g - 1]) for n, e in zip(names, es)})
            ws = sorted(H, key=lambda w: (len(w), w))
            return {'conj': boo(H.is_conjugate_to(G)), 'ws': [[names.index(c) + 1 for c in w] for w in ws], 'pw': [num(x) for x in H.invariant_polygonalisation()],
                    'sig': self.sigr(H.quotient_orbifold_signature(), {w: i for i, w in enumerate(ws, 1)})}
        self.do({'op': 'fsub', 'es': es, 'g': g}, lambda: None, enc)

    def pconj(self, a, b):
        x, y = self.E[a - 1], self.E[b - 1]
        def enc(_):
            poly = lambda f: [num(v) for v in f.subgroup().invariant_polygonalisation()] if f.is_periodic() else []
            pa, pb = poly(x), poly(y)
            return {'b': boo(x.is_conjugate_to(y)) if pa or pb else False, 'pa': pa, 'pb': pb}
        self.do({'op': 'pconj', 'a': a, 'b': b}, lambda: None, enc)

    # -- repeated questions
    def q(self, k, i, fs):
        """ask the queries fs about register i of kind k, recording a digest of each answer; and look at the object again"""
        x = {'L': self.L, 'E': self.E, 'T': self.T, 'H': self.H}[k][i - 1]
        rec = []
        for f in fs:
            out, err = self.call(lambda: QUERIES[k][f](x))
            rec.append({'f': f, 'own': f.startswith('_'), 'v': digest(out) if err is None else 'raised ' + err})
        def look(_):
            if k == 'L': return {'w': [num(v) for v in x.geometric], 't': self.tref(x.triangulation)}
            if k == 'E': return {'s': self.tref(x.source_triangulation), 't': self.tref(x.target_triangulation)}
            if k == 'H': return {'w': [num(v) for v in x.algebraic], 't': self.tref(x.triangulation)}
            return {'t': self.tref(x)}
        self.do({'op': 'q', 'k': k, 'i': i, 'a': rec}, lambda: None, look)

    def pick(self, l, how, n):
        """a component of l, the very object that components() returns"""
        x = self.L[l - 1]
        fn = {'comp': lambda: sorted(x.components(), key=lambda c: [int(v) for v in c])[n % len(x.components())], 'peek': x.peek_component}[how]
        y, _ = self.do({'op': 'pick', 'l': l}, fn, self.lamr)
        return self.add(self.L, y)

    # -- twisting
    def slope(self, l, m, ks):
        c, x = self.L[l - 1], self.L[m - 1]
        def enc(_):
            out = []
            for k in ks:
                q = c.slope(c.encode_twist(power=k)(x) if k else x)
                out.append([num(q.numerator), num(q.denominator)])
            return {'q': out}
        self.do({'op': 'slope', 'l': l, 'm': m, 'ks': list(ks)}, lambda: None, enc, may_fail=True)

    def trace(self, l, e, i, n):
        x = self.L[l - 1]
        self.do({'op': 'trace', 'l': l, 'e': e, 'i': i, 'n': n}, lambda: x.trace_curve(e, i, n), self.lamr, may_fail=True)

    def scaled(self, l, N):
        x = self.L[l - 1]
        return x.triangulation([Fraction(w, N) for w in x])

    def real(self, l, cs, N):
        x = self.L[l - 1]
        z = x.triangulation.zeta
        def enc(_):
            y = self.scaled(l, N)
            sl = []
            for c in cs:
                q = []
                for v in (x, y):
                    u, err = self.call(lambda: self.L[c - 1].slope(v))
                    if err not in (None, 'ValueError'): raise TypeError(err)
                    q += [] if err else [num(u.numerator), num(u.denominator)]
                sl.append(q)
            return {'w': [num(N * v) for v in y], 'd': [num(N * y.dual_weight(e)) for e in range(-z, z)], 'wt': num(N * y.weight()), 'per': [num(N * v) for v in y.peripheral()],
                    'int': [num(N * self.L[c - 1].intersection(y)) for c in cs], 'sl': sl}
        self.do({'op': 'real', 'l': l, 'cs': list(cs), 'N': N}, lambda: None, enc)

    def appq(self, a, l, N):
        e = self.E[a - 1]
        self.do({'op': 'appq', 'a': a, 'l': l, 'N': N}, lambda: e(self.scaled(l, N)), lambda y: {'w': [num(N * v) for v in y], 't': self.tref(y.triangulation)})

    def pil(self, a):
        e = self.E[a - 1]
        def enc(x):
            d, L = x
            tot = sum(max(float(v), 0) for v in L)
            return {'eq': boo(bool(e(L) == d * L)), 'gt': boo(bool(d > 1)), 'd': num(round(100 * float(d))), 'w': [num(2 * round(10000 * float(v) / tot)) for v in L]}
        pkg, err = self.call(lambda: self.pkgr(e.flip_mapping()))
        self.do({'op': 'pil', 'a': a, 'pkg': pkg if err is None else []}, lambda: e.projective_invariant_lamination(), enc, may_fail=True)

    def reltw(self, l, b, c):
        a, x, y = self.L[l - 1], self.L[b - 1], self.L[c - 1]
        self.do({'op': 'reltw', 'l': l, 'b': b, 'c': c}, lambda: a.relative_twisting(x, y), lambda q: {'q': [num(q.numerator), num(q.denominator)]}, may_fail=True)

    def xtw(self, a, l, k):
        e = self.E[a - 1]
        self.do({'op': 'xtw', 'a': a, 'l': l, 'k': k}, lambda: e.extract_twisting_multicurve(), lambda c: {'w': [num(x) for x in c], 'm': boo(e.is_multitwist()) and type(c).__name__ in ('Curve', 'MultiCurve')}, may_fail=True)

    def pl(self, a, ms):
        e, xs = self.E[a - 1], [self.L[m - 1] for m in ms]
        def enc(F):
            out = []
            for x in xs:
                g = list(x.geometric)
                y, err = self.call(lambda: F(g))
                out.append({'b': boo(g in F), 'w': [num(i) for i in y] if err is None else [], 'err': err or ''})
            return {'x': out}
        self.do({'op': 'pl', 'a': a, 'ms': ms}, lambda: e.pl_action(xs[0]), enc)

    # -- crushing
    def crush(self, l):
        x, _ = self._enc({'op': 'crush', 'l': l}, lambda: self.L[l - 1].crush(), pkg=True)
        self.T.append(x.target_triangulation)
        return self.add(self.E, x)

    def crapp(self, a, l):
        y, ok = self.do({'op': 'crapp', 'a': a, 'l': l}, lambda: self.E[a - 1](self.L[l - 1]), self.lamr, may_fail=True)
        return self.add(self.L, y) if ok else None

    def recrush(self, a, how):
        """a crush or a lift rebuilt from its pickle or package"""
        e = self.E[a - 1]
        fn = (lambda: pickle.loads(pickle.dumps(e))) if how == 'pickle' else (lambda: e.source_triangulation.encode(e.package()))
        self._enc({'op': 'recrush', 'a': a, 'how': how}, fn, pkg=True)

    def creq(self, a, b):
        """equality of maps that crush or lift"""
        x, y = self.E[a - 1], self.E[b - 1]
        self.do({'op': 'creq', 'a': a, 'b': b}, lambda: None, lambda _: {'b': boo(x == y), 'h': hash(x) == hash(y)})

    def sepa(self, l):
        self.do({'op': 'sepa', 'l': l}, lambda: self.L[l - 1].is_separating(), lambda b: {'b': boo(b)})

    def union(self, a, l, m):
        x, y = self.L[l - 1], self.L[m - 1]
        self.do({'op': 'union', 'a': a, 'l': l, 'm': m}, lambda: None, lambda _: {'u': self.lamr(x.boundary_union(y)), 'f': boo(x.fills_with(y))})

    # -- enumerations
    def wsr(self, xs): return [[num(v) for v in x] for x in xs]

    def disj(self, a, l, multi):
        x = self.L[l - 1]
        def enc(_):
            arcs = list(x.all_disjoint_arcs())
            return {'arcs': self.wsr(arcs), 'c': sorted({type(y).__name__ for y in arcs}), 'tris': self.wsr(x.all_disjoint_triangulations()),
                    'multi': self.wsr(x.all_disjoint_multiarcs()) if multi else []}
        self.do({'op': 'disj', 'a': a, 'l': l}, lambda: None, enc)

    def ball(self, m, n):
        """the ball around the triangulation that the multiarc m extends to"""
        x = self.L[m - 1]
        t = next(i for i, T in enumerate(self.T, 1) if T is x.triangulation or T == x.triangulation)
        out, err = self.call(lambda: list(x.explore_ball(0)))
        w = [num(v) for v in out[0]] if err is None and len(out) == 1 else [-1] * x.zeta
        l = self.lam(t, w)
        a = self.short(l)
        for k in (0, n): self.do({'op': 'ball', 'l': l, 'a': a, 'm': m, 'n': k}, lambda: x.explore_ball(k), lambda xs: {'ws': self.wsr(xs)})

    def allenc(self, t, n):
        self.do({'op': 'allenc', 't': t, 'n': n}, lambda: list(self.T[t - 1].all_encodings(n)), lambda xs: {'es': [self.encp(x) for x in xs]})

    def cayley(self, t, es, names, letters, n):
        ix = {x: [k, 1] for k, x in enumerate(names)}
        ix.update({x.swapcase(): [k, -1] for k, x in enumerate(names)})
        pos = {x: i for i, x in enumerate(letters, 1)}
        S = self.group(t, es, names)
        self.do({'op': 'cayley', 't': t, 'gs': [[es[ix[x][0]], ix[x][1]] for x in letters], 'n': n}, lambda: list(S.cayley(letters, n)), lambda xs: {'ws': [[pos[c] for c in w] for w in xs]})

    def vcyc(self, l):
        x = self.L[l - 1]
        self.do({'op': 'vcyc', 'l': l}, lambda: None, lambda _: {'vs': [self.lamr(v) for v in set(x.vertex_cycles())], 'one': self.lamr(x.vertex_cycle())})

    def quasi(self, l, m):
        x, y = self.L[l - 1], self.L[m - 1]
        self.do({'op': 'quasi', 'l': l, 'm': m}, lambda: K.CurveGraph(x.triangulation).quasiconvex(x, y), lambda xs: {'vs': [self.lamr(v) for v in xs]})

    def tight(self, a, l, m, n):
        x, y = self.L[l - 1], self.L[m - 1]
        self.do({'op': 'tight', 'a': a, 'l': l, 'm': m, 'n': n}, lambda: K.CurveGraph(x.triangulation).tight_paths(x, y, n), lambda ps: {'ps': [self.wsr(p) for p in ps]})

    def pach(self, t, ls, ms):
        T = self.T[t - 1]
        def enc(_):
            tris = [tr for tr in T if any(e.label in ls for e in tr)]
            f = T.encode_pachner_1_3(tris) if len(tris) < T.num_triangles else T.encode_pachner_1_3()
            xs = [f(self.L[m - 1]) for m in ms]
            g = f.inverse()
            return {'t': self.tref(f.target_triangulation), 'xs': [self.lamr(x) for x in xs], 'ys': [self.lamr(g(x)) for x in xs]}
        self.do({'op': 'pach', 't': t, 'ls': ls, 'ms': ms}, lambda: None, enc)

    def load(self, args, g, n, std=True, pure=True):
        """an example group"""
        def split(k): return (k.split('_') + ['0'])[:2] if std else [k, '0']
        def one(k, x):
            a, b = split(k)
            return {'name': a, 'i': int(b) if b.isdigit() else -1, 'w': [num(v) for v in x], 'key': k}
        S, ok = self.do({'op': 'load', 'args': [str(x) for x in args], 'g': g, 'n': n, 'std': std, 'pure': pure}, lambda: curver.load(*args),
                        lambda S: {'t': self.tref(S.triangulation), 'cs': [one(k, x) for k, x in sorted(S.curves.items())], 'as': [one(k, x) for k, x in sorted(S.arcs.items())]}, may_fail=True)
        return S

    # -- homology
    def homr(self, h): return {'v': [num(x) for x in h.algebraic], 't': self.tref(h.triangulation)}

    def hom(self, t, v):
        T = self.T[t - 1]
        x, _ = self.do({'op': 'hom', 't': t, 'v': list(v)}, lambda: K.HomologyClass(T, list(v)), self.homr)
        return self.add(self.H, x)

    def edgehom(self, t, e):
        T = self.T[t - 1]
        x, _ = self.do({'op': 'edgehom', 't': t, 'e': e}, lambda: T.edge_homology(e), self.homr)
        return self.add(self.H, x)

    def homlin(self, hs, how):
        xs = [self.H[h - 1] for h in hs]
        ks = {'add': [1] * len(hs), 'sub': [1, -1], 'neg': [-1], 'sum': [1] * len(hs)}[how]
        def fn():
            if how == 'add':
                out = xs[0]
                for x in xs[1:]: out = out + x
                return out
            if how == 'sum': return sum(xs)
            if how == 'sub': return xs[0] - xs[1]
            return -xs[0]
        y, ok = self.do({'op': 'homlin', 'hs': hs, 'ks': ks, 'how': how}, fn, self.homr, may_fail=any(x.triangulation is not xs[0].triangulation for x in xs))
        return self.add(self.H, y) if ok else None

    def homeq(self, a, b):
        x, y = self.H[a - 1], self.H[b - 1]
        def enc(_):
            cx, cy = x.canonical(), y.canonical()
            return {'b': boo(x == y), 'h': hash(x) == hash(y), 'ca': [num(i) for i in cx], 'cb': [num(i) for i in cy], 'ic': [boo(cx.is_canonical()), boo(cy.is_canonical())]}
        self.do({'op': 'homeq', 'a': a, 'b': b}, lambda: None, enc)

    def hombasis(self, t):
        T = self.T[t - 1]
        def enc(_):
            bs = T.homology_basis()
            H = T.homology_matrix()
            es = T.edge_homologies()
            cs = []
            for e in es:
                c = e.canonical()
                # coordinates on the basis: basis element i is canonical with its own edge as pivot
                cs.append([num(sum(x * y for x, y in zip(c, b))) for b in bs])
            return {'bs': [[num(x) for x in b] for b in bs], 'cs': cs}
        self.do({'op': 'hombasis', 't': t}, lambda: None, enc)

    def apph(self, a, h):
        e, x = self.E[a - 1], self.H[h - 1]
        y, _ = self.do({'op': 'apph', 'a': a, 'h': h}, lambda: e(x), self.homr)
        return self.add(self.H, y)

    def hmat(self, a):
        e = self.E[a - 1]
        def enc(m):
            return {'m': [[num(x) for x in r] for r in m.tolist()], 'sb': [[num(x) for x in b] for b in e.source_triangulation.homology_basis()],
                    'tb': [[num(x) for x in b] for b in e.target_triangulation.homology_basis()]}
        self.do({'op': 'hmat', 'a': a}, lambda: e.homology_matrix(), enc)

    def torelli(self, a):
        self.do({'op': 'torelli', 'a': a}, lambda: self.E[a - 1].is_in_torelli(), lambda b: {'b': boo(b)})

    # -- algebraic data structures
    def perm(self, a, b, k):
        P = K.Permutation
        def enc(_):
            p, q = P(list(a)), P(list(b))
            n = len(a)
            x = rng_names(n)
            return {'inv': [num(i) for i in p.inverse()], 'inv2': [num(i) for i in ~p], 'mul': [num(i) for i in p * q], 'pow': [num(i) for i in p**k],
                    'order': num(p.order()), 'index': num(p.index()), 'from': [num(i) for i in P.from_index(n, p.index())],
                    'matrix': [[num(i) for i in r] for r in p.matrix()], 'even': boo(p.is_even()), 'cyc': [num(i) for i in p.cycle_lengths()],
                    'conj': boo(p.is_conjugate_to(q)), 'eq': boo(p == q), 'h': hash(p) == hash(q),
                    'dict': [num(i) for i in P.from_dict({x[i]: x[a[i]] for i in range(n)}, ordering=x)]}
        self.do({'op': 'perm', 'a': list(a), 'b': list(b), 'k': k}, lambda: None, enc)

    def permx(self, a, b):
        p, q = K.Permutation(list(a)), K.Permutation(list(b))
        self.do({'op': 'permx', 'a': list(a), 'b': list(b)}, lambda: None,
                lambda _: {'mul': self.call(lambda: p * q)[1] or '', 'eq': self.call(lambda: p == q)[1] or '', 'conj': boo(p.is_conjugate_to(q))})

    def uf(self, n, os):
        def enc(_):
            names = rng_names(n)
            u = K.UnionFind(names)
            st = []
            def snap():
                ix = {x: i for i, x in enumerate(names)}
                st.append({'n': num(len(u)), 'g': [[ix[x] for x in g] for g in u], 'r': [ix[u(x)] for x in names]})
            snap()
            for o in os:
                if len(o) == 2 and sum(o) % 2: u.union2(names[o[0]], names[o[1]])
                else: u.union(*[names[i] for i in o])
                snap()
            return {'st': st}
        self.do({'op': 'uf', 'n': n, 'os': os}, lambda: None, enc)

    def slp(self, how, arg=None, **ev):
        P = K.structures.StraightLineProgram
        T = K.structures.Terminal
        xs = [self.S[i - 1] for i in ev.get('as', [])]
        n = ev.get('n')
        def fn():
            if how == 'wrap': return P(list(ev['v'])) if arg != 'tuple' else P(tuple(ev['v']))
            if how == 'graph': return P([[T(v) if k else v for k, v in node] for node in ev['g']])
            if how == 'copy': return P(xs[0])
            if how == 'cat':
                if arg == 'sum': return P.sum(xs)
                return xs[0] + xs[1]
            if how == 'mul': return n * xs[0] if arg == 'r' else xs[0] * n
            if how == 'rev': return xs[0].reverse()
            if how == 'add': return xs[0].map(lambda v: v + n)
        def enc(x):
            m = len(x)
            small = m <= 40
            at = sorted({i for i in ev['probe'] if -m <= i < m} | ({0, m - 1, -1, -m, m // 2} if m else set()))
            return {'n': num(m), 'small': small, 'l': [num(i) for i in x] if small else [], 'rv': [num(i) for i in reversed(x)] if small else [],
                    'at': [[i, num(x[i])] for i in at], 'oob': [self.call(lambda: x[i])[1] or '' for i in (m, -m - 1, m + 5)],
                    'has': [[v, boo(v in x)] for v in range(-3, 8)]}
        x, _ = self.do(dict({'op': 'slp', 'how': how}, **ev), fn, enc)
        return self.add(self.S, x)

    def group(self, t, es, names):
        """the group of the named classes in registers es"""
        out, _ = self.call(lambda: curver.kernel.MappingClassGroup({n: self.E[e - 1] for n, e in zip(names, es)}))
        return out

    def grp(self, S, t, es, names, others):
        """the group as a collection of named classes; equality with groups of the classes in others"""
        ix = {n: [k, 1] for k, n in enumerate(names, 1)}
        ix.update({n.swapcase(): [k, -1] for k, n in enumerate(names, 1)})
        G = curver.kernel.MappingClassGroup
        def enc(_):
            got = list(S)
            return {'it': [ix.get(n, [0, 0]) for n in got], 'n': num(len(S)) if hasattr(S, '__len__') else len(got),
                    'get': [{'k': ix[n], **self.encp(S[n])} for n in sorted(ix)],
                    'eq': [boo(G({n: self.E[e - 1] for n, e in reversed(list(zip(names, o)))}) == S) for o in others], 'lam': [num(x) for x in S.lamination([2] * S.zeta)]}
        self.do({'op': 'grp', 't': t, 'es': es, 'os': others, 'n': len(names)}, lambda: None, enc)

    def rword(self, S, names, n, **kw):
        ix = {n: [k, 1] for k, n in enumerate(names, 1)}
        ix.update({n.swapcase(): [k, -1] for k, n in enumerate(names, 1)})
        kws = dict(kw)
        if 'letters' in kws: kws['letters'] = [l for l in kws['letters']]
        ev = {'op': 'rword', 'n': n, 'k': len(names), 'pos': kw.get('positive', True), 'neg': kw.get('negative', True), 'ls': [ix[l] for l in kw['letters']] if 'letters' in kw else []}
        x, ok = self.do(ev, lambda: S.random_word(n, **kws), lambda w: {'w': [ix.get(l, [0, 0]) for l in w]}, may_fail=not (ev['pos'] or ev['neg'] or ev['ls']))
        return x if ok else None

    def moves(self, a, b):
        """equality of the moves of a, of a copy of it, and of b"""
        x, y = self.E[a - 1], self.E[b - 1]
        def enc(_):
            ms = list(x) + list(pickle.loads(pickle.dumps(x))) + list(y)
            return {'ms': [{'s': self.tref(m.source_triangulation), 't': self.tref(m.target_triangulation), 'i': self.item(m.package(), x.zeta)} for m in ms],
                    'eq': [[i, j] for i, m in enumerate(ms, 1) for j, n in enumerate(ms, 1) if boo(m == n)]}
        self.do({'op': 'moves', 'a': a, 'b': b}, lambda: None, enc)

    def util(self, ev):
        U = K.utilities
        A = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-'
        f = ev['f']
        def fn():
            if f == 'maximin': return num(U.maximin(*[iter(x) for x in ev['xs']]))
            if f == 'maxes': return [num(x) for x in U.maxes(ev['x'], key=lambda v: v % ev['m'])]
            if f == 'maximum': return num(U.maximum(ev['x'], key=lambda v: v % ev['m'], upper_bound=ev['ub'] if ev['ub'] >= 0 else None))
            if f == 'slice': return [num(x) for x in U.cyclic_slice(ev['x'], ev['a'], ev['b'] if ev['b'] >= 0 else None)]
            if f == 'product': return [num(i) for i in U.product([K.Permutation(list(p)) for p in ev['ps']], start=K.Permutation(list(ev['s'])), left=ev['left'])]
            if f == 'b64':
                w = U.b64encode(ev['n'])
                return {'d': [A.index(c) for c in w], 'n': num(U.b64decode(w))}
            if f == 'half': return num(U.half(ev['n']))
            if f == 'alpha':
                ns = [f'{"abc"[p - 1]}{k}' for p, k in ev['ns']]
                return [ns.index(n) + 1 for n in sorted(ns, key=U.alphanum_key)]
            if f == 'edge':
                E, F = K.Edge(ev['a']), K.Edge(ev['b'])
                return {'inv': num((~E).label), 'i': num(E.index), 's': num(E.sign()), 'eq': [boo(E == F), boo(E == ev['b'])], 'lt': [boo(E < F), boo(E < ev['b'])], 'h': hash(E) == hash(F)}
        self.do(ev, fn, lambda x: {'x': x}, may_fail=True)

    def word(self, S, t, es, names, w):
        ev = {'op': 'word', 't': t, 'es': es, 'names': [list(n) for n in names]}
        if isinstance(w, str): ev.update(how='str', cs=list(w), ls=[])
        else:
            ix = {n: [k, 1] for k, n in enumerate(names, 1)}
            ix.update({n.swapcase(): [k, -1] for k, n in enumerate(names, 1)})
            ev.update(how='list', cs=[], ls=[ix[n] for n in w])
        x, ok = self._enc(ev, lambda: S(w) if len(w) % 2 else S.mapping_class(w), may_fail=True)
        return self.add(self.E, x) if ok else None


def canon(x):
    if isinstance(x, (K.Lamination, K.HomologyClass)): return [type(x).__name__, x.triangulation.sig(), [int(v) for v in x]]
    if isinstance(x, K.Encoding): return [x.source_triangulation.sig(), canon(x.package())]
    if isinstance(x, (bool, np.bool_)): return bool(x)
    if isinstance(x, numbers.Integral): return int(x)
    if isinstance(x, dict): return ['D'] + sorted(([canon(a), canon(b)] for a, b in x.items()), key=repr)
    if isinstance(x, (set, frozenset)): return ['S'] + sorted((canon(a) for a in x), key=repr)
    if isinstance(x, np.ndarray): return canon(x.tolist())
    if isinstance(x, (list, tuple)) and not isinstance(x, K.triangulation.Triangle): return [canon(a) for a in x]
    return repr(x)


def digest(x): return hashlib.md5(repr(canon(x)).encode()).hexdigest()[:12]


def meth(*names): return {n: (lambda x, n=n: getattr(x, n)()) for n in names}


# names starting with an underscore: answers that may depend on how the object was built, so only compared on one object
QUERIES = {
    'L': dict(meth('weight', 'components', 'num_components', 'skeleton', 'multiarc', 'multicurve', 'boundary', 'is_filling', 'is_polygonalisation', 'is_peripheral', 'is_non_peripheral',
                   'is_empty', 'peripheral', 'non_peripheral', 'is_short', 'is_integral', 'topological_type', 'is_triangulation', 'has_distinct_endpoints', 'vertices', 'is_separating'),
              hash=hash, parallel=lambda x: {c: n for c, (n, _) in x.parallel_components().items()}, around=lambda x: {c: n for c, (n, _) in x.peripheral_components().items()},
              dual=lambda x: [x.dual_weight(e) for e in x.triangulation.edges], left=lambda x: [x.left_weight(e) for e in x.triangulation.edges],
              left2=lambda x: [x.left_weight(e, double=True) for e in x.triangulation.edges], right=lambda x: [x.right_weight(e) for e in x.triangulation.edges],
              self=lambda x: x.intersection(x), dual2=lambda x: [x.dual_weight(e.label) for e in x.triangulation.edges], promote=lambda x: x.promote(),
              ht=lambda x: x.encode_halftwist()(x), tw=lambda x: x.encode_twist()(x),
              **{'_shorten': lambda x: x.shorten(), '_mosher': lambda x: x.shorten(drop=0), '_mosher2': lambda x: x.shorten(0), '_peek': lambda x: x.peek_component(), '_subs': lambda x: x.sublaminations()}),
    'E': dict(meth('order', 'is_periodic', 'is_identity', 'vertex_map', 'vertex_permutation', 'intersection_matrix', 'self_image', 'is_in_torelli'), hash=hash,
              **{'_inverse': lambda x: x.inverse(), '_simplify': lambda x: x.simplify(), '_hmat': lambda x: x.homology_matrix(), '_flips': lambda x: x.flip_mapping(), '_comb': lambda x: x.combine_isometries(),
                 '_package': lambda x: x.package(), '_poly': lambda x: x.subgroup().invariant_polygonalisation(), '_sig': lambda x: x.subgroup().quotient_orbifold_signature()}),
    'T': dict(meth('sig', 'max_order', 'is_connected'), hash=hash, surface=lambda x: sorted((s.g, s.p, s.chi) for s in x.surface().values()), nv=lambda x: [x.num_vertices, x.zeta, x.euler_characteristic],
              iso=lambda x: len(x.self_isometries()), lam=lambda x: x.as_lamination(), empty=lambda x: x.empty_lamination(), arcs=lambda x: x.edge_arcs(), curves=lambda x: set(x.edge_curves()),
              **{'_tree': lambda x: x.dual_tree(), '_basis': lambda x: x.homology_basis(), '_hmat': lambda x: x.homology_matrix(), '_isos': lambda x: [i.label_map for i in x.self_isometries()]}),
    'H': {'hash': hash, 'canonical': lambda x: x.canonical(), 'is_canonical': lambda x: x.is_canonical(), 'neg': lambda x: (-x).canonical(), 'zero': lambda x: (x - x).canonical()},
}


def rng_names(n): return [('x%d' % i, i)[i % 2] for i in range(n)]
