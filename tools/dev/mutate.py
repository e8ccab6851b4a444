"""Mutation testing of the checks.

mutate.py gen OUT.jsonl           all mutants of pygsp
mutate.py tests IN OUT JOBS [N]   those which pass the repository's tests (a random N of them)
mutate.py cover OUT.json          which tasks execute which functions
mutate.py checks IN COVER OUT JOBS [SECS]   which of them the harnesses detect
"""
import ast, copy, glob, json, os, random, shutil, subprocess, sys, time
PY = '/opt/venv/bin/python'
SKIP = ('tests', 'airfoil', 'bunny', 'logo', 'minnesota', 'data')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell', QT_QPA_PLATFORM='offscreen', PYTHONHASHSEED='0')
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Pow: ast.Mult}
NAMES = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'any': 'all', 'all': 'any',
         'zeros': 'ones', 'ones': 'zeros', 'floor': 'ceil', 'ceil': 'floor', 'sources': 'targets', 'targets': 'sources',
         'W': 'A', 'd': 'dw', 'dw': 'd', 'N': 'Ne', 'Ne': 'N', 'n_vertices': 'n_edges', 'n_edges': 'n_vertices',
         'vstack': 'hstack', 'hstack': 'vstack', 'tril': 'triu', 'triu': 'tril', 'maximum': 'minimum',
         'minimum': 'maximum', 'round': 'floor', 'tocsr': 'tocsc', 'tocsc': 'tocsr', 'append': 'extend',
         'sum': 'max', 'mean': 'max', 'sin': 'cos', 'cos': 'sin', 'asanyarray': 'array', 'asarray': 'array',
         'empty': 'zeros', 'unique': 'sort', 'nonzero': 'flatnonzero', 'lmax': 'N', 'rows': 'cols', 'cols': 'rows'}


def sites(tree):
    """(function, path of the node, mutated node) of every mutation."""
    out = []

    def add(fn, path, node, what):
        out.append((fn, list(path), node, what))

    def walk(node, fn, path):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [node.name]
        q = '.<locals>.'.join(fn)
        infn = bool(fn)
        if isinstance(node, ast.FunctionDef):
            if node.name in ('__repr__', '_get_extra_repr') or node.name.startswith('_import'):
                return
        c = lambda: copy.deepcopy(node)
        if infn:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                for o in CMP.get(type(node.ops[0]), []):
                    m = c(); m.ops = [o()]; add(fn, path, m, 'compare')
            elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.Constant) | \
                    isinstance(getattr(node.left, 'value', None), str):
                m = c(); m.op = BIN[type(node.op)](); add(fn, path, m, 'operator')
            elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
                m = c(); m.op = BIN[type(node.op)](); add(fn, path, m, 'augmented')
                add(fn, path, ast.Pass(), 'delete')
            elif isinstance(node, ast.Constant) and type(node.value) in (int, float, bool):
                if type(node.value) is bool:
                    vs = [not node.value]
                elif type(node.value) is int:
                    vs = [node.value + 1] + ([node.value - 1] if node.value > 0 else [])
                else:
                    vs = [node.value * 1.5 if node.value else 1.0]
                for v in vs:
                    add(fn, path, ast.Constant(v), 'constant')
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
                add(fn, path, copy.deepcopy(node.operand), 'unary')
            elif isinstance(node, ast.BoolOp):
                m = c(); m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); add(fn, path, m, 'and/or')
                for k in range(len(node.values)):
                    m = c(); del m.values[k]
                    add(fn, path, m.values[0] if len(m.values) == 1 else m, 'operand')
            elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                add(fn, path, ast.Pass(), 'delete')
            elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
                add(fn, path, ast.Pass(), 'delete')
            elif isinstance(node, ast.If):
                for v in (True, False):
                    m = c(); m.test = ast.Constant(v); add(fn, path, m, f'if {v}')
            elif isinstance(node, ast.IfExp):
                add(fn, path, copy.deepcopy(node.body), 'ifexp')
                add(fn, path, copy.deepcopy(node.orelse), 'ifexp')
            elif isinstance(node, ast.Call):
                for k in range(len(node.keywords)):
                    m = c(); del m.keywords[k]; add(fn, path, m, 'keyword')
                if len(node.args) == 1 and not node.keywords:
                    add(fn, path, copy.deepcopy(node.args[0]), 'argument')
                if not node.args and not node.keywords and isinstance(node.func, ast.Attribute):
                    add(fn, path, copy.deepcopy(node.func.value), 'receiver')
                if len(node.args) == 2:
                    m = c(); m.args = m.args[::-1]; add(fn, path, m, 'swap')
            elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
                add(fn, path, copy.deepcopy(node.value), 'slice')
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                if node.attr in NAMES:
                    m = c(); m.attr = NAMES[node.attr]; add(fn, path, m, 'name')
                if node.attr == 'T':
                    add(fn, path, copy.deepcopy(node.value), 'transpose')
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in NAMES:
                m = c(); m.id = NAMES[node.id]; add(fn, path, m, 'name')
        for field, val in ast.iter_fields(node):
            if field in ('decorator_list', 'annotation', 'returns'):
                continue
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                            continue
                        if isinstance(x, ast.Raise) or isinstance(x, ast.Expr) and '_logger' in ast.unparse(x) or \
                                isinstance(x, ast.Expr) and 'warn' in ast.unparse(x):
                            continue
                        walk(x, fn, path + [(field, i)])
            elif isinstance(val, ast.AST):
                walk(val, fn, path + [(field, None)])
    walk(tree, [], [])
    return out


def mutated(src, path, node):
    tree = ast.parse(src)
    cur, last = tree, None
    for f, i in path[:-1]:
        cur = getattr(cur, f) if i is None else getattr(cur, f)[i]
    f, i = path[-1]
    if i is None:
        old = getattr(cur, f); setattr(cur, f, node)
    else:
        old = getattr(cur, f)[i]; getattr(cur, f)[i] = node
    return ast.unparse(ast.fix_missing_locations(tree)), old


def gen(out, repo='/repo'):
    n = 0
    with open(out, 'w') as o:
        for p in sorted(glob.glob(repo + '/pygsp/**/*.py', recursive=True)):
            rel = os.path.relpath(p, repo)
            if any(s in rel for s in SKIP) or rel.endswith('__init__.py'):
                continue
            src = open(p).read()
            base = ast.unparse(ast.parse(src))
            for fn, path, node, what in sites(ast.parse(src)):
                try:
                    new, old = mutated(src, path, node)
                    compile(new, rel, 'exec')
                except Exception as e:
                    continue
                if new == base:
                    continue
                a, b = ast.unparse(old).splitlines(), ast.unparse(node).splitlines()
                o.write(json.dumps(dict(id=n, file=rel, fn=fn, what=what, line=getattr(old, 'lineno', 0),
                                        old=a[0][:150], new=(b or ['pass'])[0][:150], src=new)) + '\n')
                n += 1
    print(n, 'mutants')


def pool(items, jobs, start, done):
    run, items = {}, list(items)
    free = list(range(jobs))
    while items or run:
        while items and free:
            k = free.pop(); it = items.pop(0)
            run[k] = (start(k, it), it, time.time())
        for k in list(run):
            p, it, t = run[k]
            if p.poll() is not None or time.time() - t > 400:
                if p.poll() is None:
                    p.kill(); p.wait()
                done(k, it, p, time.time() - t)
                del run[k]; free.append(k)
        time.sleep(0.05)


def tests(inp, out, jobs, n=None, seed=1):
    ms = [json.loads(l) for l in open(inp)]
    random.Random(seed).shuffle(ms)
    by = {}      # round robin over the functions
    for m in ms:
        f = (m['file'], tuple(m['fn'][:2]))
        m['rank'] = by[f] = by.get(f, 0) + 1
    ms.sort(key=lambda m: m['rank'])
    seen = set()
    if os.path.exists(out):
        seen = {json.loads(l)['id'] for l in open(out)}
    ms = [m for m in ms if m['id'] not in seen][:n]
    for k in range(jobs):
        shutil.rmtree(f'/tmp/mut/t{k}', ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', f'/tmp/mut/t{k}'], check=True)

    def start(k, m):
        W = f'/tmp/mut/t{k}'
        m['orig'] = open(f"{W}/{m['file']}").read()
        open(f"{W}/{m['file']}", 'w').write(m['src'])
        f = m['file']
        first = 'graphs' if '/graphs/' in f else 'filters' if '/filters/' in f else \
            os.path.basename(f)[:-3] if os.path.exists(f'{W}/pygsp/tests/test_{os.path.basename(f)}') else 'graphs'
        order = [f'pygsp/tests/test_{first}.py'] + [t for t in sorted(os.listdir(W + '/pygsp/tests'))
                                                    if t.startswith('test_') and t != f'test_{first}.py']
        order = [order[0]] + [f'pygsp/tests/{t}' for t in order[1:]]
        return subprocess.Popen([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'no:xdist',
                                 '--timeout=60', f'--basetemp=/tmp/mut/b{k}', *order], cwd=W, env=ENV,
                                stdout=open(f'/tmp/mut/o{k}', 'w'), stderr=subprocess.STDOUT)

    def done(k, m, p, t):
        W = f'/tmp/mut/t{k}'
        open(f"{W}/{m['file']}", 'w').write(m.pop('orig'))
        m['tests'] = p.returncode
        m['t'] = round(t, 1)
        if p.returncode:
            m.pop('src')
        with open(out, 'a') as o:
            o.write(json.dumps(m) + '\n')
    pool(ms, jobs, start, done)


def cover(out):
    sys.path.insert(0, '/verif')
    from symx import run
    run.setup()
    hs = run.load_harnesses()
    tasks = []
    for h in hs:
        if h.tier == 'quick':
            h.paths = min(h.paths, 12); h.replays = 1
            tasks += [(h, c, 8) for c in h.cfgs]
    ev = run.run_tasks(tasks, 8, 1, 5000)
    json.dump([dict(prop=e['prop'], harness=e['harness'], cfg=e['cfg'], wall=e['wall'], functions=e.get('functions', []))
               for e in ev if e['ev'] == 'done'], open(out, 'w'))


def one(mfile, cov, secs, out):
    """Worker: the tasks that execute the mutated function, the most specific first, until one fails."""
    m = json.load(open(mfile))
    sys.path.insert(0, '/verif')
    from symx import run
    run.setup()
    import signal, zlib
    hs = {(h.prop, h.name): h for h in run.load_harnesses()}
    cov = json.load(open(cov))
    fn = m['fn']
    names = set()
    for sep in ('.', '.<locals>.'):
        names.add(sep.join(fn))
    # methods: Class.method(.<locals>.inner)
    names |= {'.'.join(fn[:2]) + ''.join('.<locals>.' + x for x in fn[2:]), fn[0] + ''.join('.<locals>.' + x for x in fn[1:])}
    def hits(t):
        return any(f == m['file'] and q in names for f, q in t['functions'])
    ts = [t for t in cov if hits(t)]
    rng = random.Random(m['id'])
    rng.shuffle(ts)
    # the most specific tasks of every harness first, round robin over harnesses
    by = {}
    for t in sorted(ts, key=lambda t: len(t['functions'])):
        by.setdefault(t['harness'], []).append(t)
    order = []
    k = 0
    while any(by.values()):
        for h in sorted(by, key=lambda h: len(by[h][0]['functions']) if by[h] else 0):
            if by[h]:
                order.append(by[h].pop(0))
    t0 = time.time()
    res, n = None, 0
    signal.signal(signal.SIGALRM, run.on_alarm)
    for t in order:
        if time.time() - t0 > secs:
            break
        h = hs[t['prop'], t['harness']]
        o = f'{out}.ev'
        if os.path.exists(o):
            os.unlink(o)
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                run.explore(h, t['cfg'], min(h.budget, 25), 7919 + zlib.crc32((h.name + json.dumps(t['cfg'], sort_keys=True, default=str)).encode()) % 100000, o)
            finally:
                os._exit(0)
        lim = time.time() + 70
        hit = None
        while True:
            if os.path.exists(o):
                for line in open(o):
                    if '"ev": "violation"' in line:
                        try: hit = json.loads(line)
                        except ValueError: pass
                        break
            p, _ = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if hit or time.time() > lim:
                os.kill(pid, 9); os.waitpid(pid, 0)
                break
            time.sleep(0.05)
        n += 1
        if not hit and os.path.exists(o):
            for line in open(o):
                if '"ev": "violation"' in line:
                    hit = json.loads(line); break
        if hit:
            res = [t['prop'], t['harness'], hit['fails'][0][0][:60]]
            break
    json.dump(dict(res=res, tried=n, of=len(order), secs=round(time.time() - t0)), open(out, 'w'))
    os._exit(0)


def checks(inp, cov, out, jobs, secs=200):
    seen = {json.loads(l)['id'] for l in open(out)} if os.path.exists(out) else set()
    for k in range(jobs):
        shutil.rmtree(f'/tmp/mut/c{k}', ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', f'/tmp/mut/c{k}'], check=True)

    def start(k, m):
        W = f'/tmp/mut/c{k}'
        m['orig'] = open(f"{W}/{m['file']}").read()
        open(f"{W}/{m['file']}", 'w').write(m['src'])
        json.dump({k: v for k, v in m.items() if k not in ('orig', 'src')}, open(f'/tmp/mut/m{k}.json', 'w'))
        if os.path.exists(f'/tmp/mut/r{k}.json'):
            os.unlink(f'/tmp/mut/r{k}.json')
        return subprocess.Popen([PY, '/verif/tools/dev/mutate.py', 'one', f'/tmp/mut/m{k}.json', cov, str(secs),
                                 f'/tmp/mut/r{k}.json'], env=dict(ENV, SYMX_REPO=W), cwd='/verif',
                                stdout=open(f'/tmp/mut/co{k}', 'w'), stderr=subprocess.STDOUT)

    def done(k, m, p, t):
        W = f'/tmp/mut/c{k}'
        open(f"{W}/{m['file']}", 'w').write(m.pop('orig'))
        try:
            r = json.load(open(f'/tmp/mut/r{k}.json'))
        except Exception:
            r = dict(res=None, error=open(f'/tmp/mut/co{k}').read()[-300:])
        m.pop('src', None)
        m.update(r)
        with open(out, 'a') as o:
            o.write(json.dumps(m) + '\n')
    while True:
        ms = [json.loads(l) for l in open(inp)]
        ms = [m for m in ms if m['tests'] == 0 and m['id'] not in seen]
        if not ms:
            break
        seen |= {m['id'] for m in ms}
        pool(ms, jobs, start, done)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'gen': gen(a[1])
    elif a[0] == 'tests': tests(a[1], a[2], int(a[3]), int(a[4]) if len(a) > 4 else None)
    elif a[0] == 'cover': cover(a[1])
    elif a[0] == 'one': one(a[1], a[2], int(a[3]), a[4])
    elif a[0] == 'checks': checks(a[1], a[2], a[3], int(a[4]), int(a[5]) if len(a) > 5 else 200)
