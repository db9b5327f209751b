"""Mutation campaign (development aid, no check runs it): systematic small changes to curver/kernel are recorded by the same
programs as the checks; sessions whose recording differs from the one of the unchanged tree are given to TLC.
mutate.py base DIR        record the unchanged tree: coverage by property and digests of sessions
mutate.py list DIR        list the mutants
mutate.py run DIR K/N     run every N-th mutant from the K-th on, appending to DIR/res.K
mutate.py one DIR ID      internal"""
import ast, hashlib, json, os, random, shutil, subprocess, sys, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/harness')
os.environ.setdefault('CV_OPTIME', '6')
FILES = ['load.py'] + ['kernel/' + f for f in ('PL', 'arc', 'create', 'crush', 'curve', 'curvegraph', 'encoding', 'finite', 'homology', 'lamination', 'mappingclassgroup', 'moves', 'permutation', 'structures', 'triangulation', 'twist', 'utilities', 'decorators')]
FILES = [f if f.endswith('.py') else f + '.py' for f in FILES]
NS = 40

CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Mod: ['*'], ast.Div: ['*'], ast.Pow: ['*']}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []
    def rep(n, new, why): out.append((*pos(n), new, n.lineno, why))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): skip.add(n.body[0].value)
        if isinstance(n, ast.Assert) or isinstance(n, ast.Raise):
            for m in ast.walk(n): skip.add(m)
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n): skip.add(m)
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__', '_repr_', 'draw', 'plot'):
            for m in ast.walk(n): skip.add(m)
    for n in ast.walk(tree):
        if n in skip: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]: rep(n, f'({seg(n.left)} {o} {seg(n.comparators[0])})', 'cmp')
        elif isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for o in CMP[type(op)][:1]:
                    parts = [n.left] + n.comparators
                    s = seg(parts[0])
                    for j, q in enumerate(n.ops):
                        a, c = pos(parts[j])[1], pos(parts[j + 1])[0]
                        s += (f' {o} ' if j == i else b[a:c].decode()) + seg(parts[j + 1])
                    rep(n, f'({s})', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for o in BIN[type(n.op)]: rep(n, f'({seg(n.left)} {o} {seg(n.right)})', 'bin')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join(f'({seg(v)})' for v in n.values) + ')', 'bool')
            for v in n.values: rep(v, 'True' if isinstance(n.op, ast.And) else 'False', 'drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)): rep(n, f'({seg(n.operand)})', 'un')
        elif isinstance(n, ast.Constant) and type(n.value) is int: rep(n, f'{n.value + 1}', 'const')
        elif isinstance(n, ast.Constant) and type(n.value) is bool: rep(n, str(not n.value), 'const')
        elif isinstance(n, (ast.If, ast.While)): rep(n.test, f'(not ({seg(n.test)}))', 'neg')
        elif isinstance(n, ast.IfExp):
            rep(n.test, f'(not ({seg(n.test)}))', 'neg')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs: rep(c, 'True', 'drop'); rep(c, f'(not ({seg(c)}))', 'neg')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all', 'sorted', 'reversed', 'abs'):
            f = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'reversed': 'list', 'abs': ''}[n.func.id]
            rep(n.func, f, 'call')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n not in skip and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield, ast.YieldFrom)): rep(n, 'pass', 'del')
            if isinstance(n, ast.AugAssign): rep(n, 'pass', 'del')
        elif isinstance(n, (ast.Break, ast.Continue)): rep(n, 'pass', 'del')
    return out


def listing():
    L = []
    for f in FILES:
        for m in mutants(open(f'/repo/curver/{f}').read()): L.append((f, *m))
    return L


def record(pid, i):
    import main
    main.DEADLINE = None
    return main.one((pid, '1', i, 'quick'))


def dig(d): return hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()


def basejob(pid):
    import props  # noqa
    cov = {}
    cur = set()
    pre = os.path.realpath(os.environ.get('CURVER_REPO', '/repo')) + '/curver/'
    mon = sys.monitoring
    mon.use_tool_id(3, 'm')
    def line(code, no):
        if code.co_filename.startswith(pre): cur.add((code.co_filename[len(pre):], no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    D = []
    t = time.time()
    for i in range(1, NS + 1):
        D.append(dig(record(pid, i)))
        if time.time() - t > 240: break
    return pid, D, sorted(cur), time.time() - t


if __name__ == '__main__':
    cmd, d = sys.argv[1:3]
    if cmd == 'base':
        import multiprocessing as mp, props
        with mp.get_context('spawn').Pool(6, maxtasksperchild=1) as p:
            out = {a: dict(D=D, cov=c, t=t) for a, D, c, t in p.imap_unordered(basejob, sorted(props.PROPS), chunksize=1)}
        json.dump(out, open(d + '/base.json' + (sys.argv[3] if len(sys.argv) > 3 else ''), 'w'))
        print({k: (len(v['D']), round(v['t'], 1)) for k, v in out.items()})
    elif cmd == 'list':
        L = listing()
        json.dump(L, open(d + '/list.json', 'w'))
        print(len(L))
    elif cmd == 'run':
        k, n = map(int, sys.argv[3].split('/'))
        L = json.load(open(d + '/list.json'))
        done = set()
        if os.path.exists(f'{d}/res.{k}'): done = {json.loads(x)['id'] for x in open(f'{d}/res.{k}')}
        w = f'{d}/w{k}'
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs', 'tests'))
        order = list(range(len(L)))
        random.Random(5).shuffle(order)
        for j in order[k::n]:
            if j in done: continue
            f, a, b, new, no, why = L[j]
            src = open(f'/repo/curver/{f}', 'rb').read()
            open(f'{w}/curver/{f}', 'wb').write(src[:a] + new.encode() + src[b:])
            t = time.time()
            try:
                p = subprocess.run([sys.executable, __file__, 'one', d, str(j)], env=dict(os.environ, CURVER_REPO=w, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
                last = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else '?'
                res = json.loads(last) if last.startswith('{') else {'v': 'broken', 'out': last[:300]}
            except subprocess.TimeoutExpired: res = {'v': 'timeout'}
            open(f'{w}/curver/{f}', 'wb').write(src)
            res.update(id=j, f=f, no=no, why=why, old=src[a:b].decode()[:80], new=new[:80], t=round(time.time() - t, 1))
            with open(f'{d}/res.{k}', 'a') as h: h.write(json.dumps(res) + '\n')
        shutil.rmtree(w, ignore_errors=True)
    elif cmd == 'one':
        import tlc
        j = int(sys.argv[3])
        f, a, b, new, no, why = json.load(open(d + '/list.json'))[j]
        B = json.load(open(d + '/base.json'))
        size = {p: len(v['cov']) for p, v in B.items()}
        # the properties whose programs reach the line, cheap and specific ones first
        P = [p for p in B if any(x[0] == f and x[1] == no for x in B[p]['cov'])]
        if not P: print(json.dumps({'v': 'uncovered'})); sys.exit()
        P.sort(key=lambda p: (B[p]['t'] / len(B[p]['D'])) * (1 + size[p] / 500))
        t0 = time.time()
        acc, ndiff = [], 0
        for rnd in ((0, 12), (12, NS)):
            for p in P:
                diffs = []
                for i in range(rnd[0], min(rnd[1], len(B[p]['D']))):
                    if time.time() - t0 > 240: break
                    try: s = record(p, i + 1)
                    except SystemExit: continue
                    if dig(s) != B[p]['D'][i]:
                        if s['ev']: diffs.append(s)
                        if len(diffs) >= 4: break
                if diffs:
                    ndiff += len(diffs)
                    fails, done, crashed, st = tlc.validate(diffs, timeout=120, workers=1)
                    if fails or any(w.startswith('evaluation') for w in crashed.values()):
                        print(json.dumps({'v': 'killed', 'by': p, 'what': [list(v) for v in fails.values()][:1], 'sess': sorted(fails)[:1]})); sys.exit()
                    acc.append(p)
                if time.time() - t0 > 240: break
        print(json.dumps({'v': 'accepted' if ndiff else 'same', 'acc': acc, 'props': P, 'n': ndiff, 'full': time.time() - t0 <= 240}))
