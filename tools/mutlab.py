#!/usr/bin/env python3
"""Development aid: small mechanical changes of /repo's code against the checks.

mutlab.py OUT.jsonl [--files a.py,b.py] [--per-file N] [--seed S] [--jobs J]
Each mutant is bind-mounted over its file in a private mount namespace together
with a private copy of /verif; the checks whose monitors execute the changed line
(line coverage /tmp/w/cov_Cxx.json) are run until one reports a violation.
/repo itself is never touched.  Survivors are for reading: a gap or an equivalent.
"""
import ast, json, os, random, subprocess, sys, shutil, concurrent.futures as cf, threading, time

SRC = '/repo/src/pyhipp/'
LAB = os.environ.get('LAB', '/tmp/mut')
SLOW = {'C27': 200, 'C28': 5, 'C26': 30}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '+', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.MatMult: '*'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs, o = [], 0
    for l in lines:
        offs.append(o)
        o += len(l.encode()) + 1
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def put(n, new, what):
        s, e = pos(n)
        out.append((n.lineno, s, e, new, what))
    doc, ann = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0]); doc.add(n.body[0].value)
        for f in ('annotation', 'returns'):
            if getattr(n, f, None) is not None:
                ann.update(ast.walk(getattr(n, f)))
        if isinstance(n, ast.JoinedStr):
            ann.update(ast.walk(n))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in txt(n.test):
            ann.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in ann or n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = txt(n.left), txt(n.comparators[0])
            put(n, f'({l} {CMP[type(n.ops[0])]} {r})', 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, f'({txt(n.left)} {BIN[type(n.op)]} {txt(n.right)})', 'binop')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            put(n, f'{txt(n.target)} {BIN[type(n.op)]}= {txt(n.value)}', 'aug')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + j.join(txt(v) for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            put(n, '(' + txt(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), 'const')
            elif isinstance(v, int):
                put(n, str(v + 1), 'const')
                if v > 1:
                    put(n, str(v - 1), 'const')
            elif isinstance(v, float):
                put(n, repr(v * 1.02 + (v == 0) * .5), 'const')
            elif isinstance(v, str) and 0 < len(v) < 30 and not txt(n).startswith(("f", "'''", '"""')):
                put(n, repr(v + 'X'), 'str')
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    s, e = pos(n)
                    ks, ke = pos(k)
                    t = b[s:ks].decode().rstrip().rstrip(',') + b[ke:e].decode()
                    t = t.replace('(,', '(')
                    out.append((k.lineno, s, e, t, 'dropkw'))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                s = pos(n.args[0])[0]
                e = pos(n.args[1])[1]
                mid = b[pos(n.args[0])[1]:pos(n.args[1])[0]].decode()
                out.append((n.lineno, s, e, txt(n.args[1]) + mid + txt(n.args[0]), 'swap'))
        elif isinstance(n, ast.If):
            put(n.test, 'True', 'iftrue')
            put(n.test, 'False', 'iffalse')
        elif isinstance(n, ast.IfExp):
            put(n, f'({txt(n.body)})', 'ifexp')
            put(n, f'({txt(n.orelse)})', 'ifexp')
        elif isinstance(n, (ast.Expr, ast.Assert, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            put(n, 'pass', 'del')
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            put(n, 'pass', 'del')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, 'return None', 'retnone')
    res = []
    seen = set()
    for ln, s, e, new, what in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m in seen:
            continue
        seen.add(m)
        try:
            compile(m, 'm', 'exec')
        except SyntaxError:
            continue
        res.append((ln, what, b[s:e].decode(), new, m))
    return res


def main():
    a = sys.argv
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    outp = a[1]
    per, seed, jobs = int(opt('--per-file', '1000')), int(opt('--seed', '0')), int(opt('--jobs', '6'))
    files = opt('--files', '')
    if files:
        files = files.split(',')
    else:
        files = sorted(os.path.relpath(os.path.join(d, f), SRC) for d, _, fs in os.walk(SRC) for f in fs if f.endswith('.py'))
    cov = {}
    for i in range(1, 31):
        p = f'C{i:02d}'
        if os.path.exists(f'/tmp/w/cov_{p}.json'):
            cov[p] = {k[len(SRC):]: set(v) for k, v in json.load(open(f'/tmp/w/cov_{p}.json')).items()}
    tot = {p: sum(map(len, c.values())) for p, c in cov.items()}
    done = set()
    if os.path.exists(outp):
        for l in open(outp):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['old'], r['new']))
    redo = None
    if opt('--redo', ''):       # only the survivors of an earlier run
        redo = {(r['file'], r['line'], r['old'], r['new']) for r in map(json.loads, open(opt('--redo', ''))) if not r['killed']}
    force = [p for p in opt('--force', '').split(',') if p]
    todo = []
    g = random.Random(seed)
    for f in files:
        src = open(SRC + f).read()
        ms = mutants(src)
        g.shuffle(ms)
        for ln, what, old, new, m in ms[:per]:
            if (f, ln, old, new) in done or redo is not None and (f, ln, old, new) not in redo:
                continue
            share = {p: len(c.get(f, ())) / tot[p] for p, c in cov.items() if f in c}
            near = {p for p in share if any(k in cov[p][f] for k in range(ln - 2, ln + 3))}
            # the properties for which this file is a large part of what they execute come first
            props = sorted(share, key=lambda p: -share[p] / SLOW.get(p, 1) * (1 if p in near else .05))[:int(opt('--props', '2'))]
            props = force or props
            todo.append((f, ln, what, old, new, m, props))
    g.shuffle(todo)
    print(len(todo), 'mutants', flush=True)
    lock, ids = threading.Lock(), list(range(jobs))
    os.makedirs(LAB, exist_ok=True)

    def one(t):
        f, ln, what, old, new, m, props = t
        with lock:
            w = ids.pop()
        d = f'{LAB}/{w}'
        try:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d + '/verif')
            for n in ('run.py', 'vh', 'known_findings.json', 'properties.jsonl'):
                subprocess.run(['cp', '-a', f'/verif/{n}', f'{d}/verif/'], check=True)
            open(f'{d}/m.py', 'w').write(m)
            r = dict(file=f, line=ln, what=what, old=old, new=new, props=props, killed=None)
            for p in props:
                sh = f'mount --bind {d}/m.py {SRC}{f} && mount --bind {d}/verif /verif && cd /verif && VH_FAILFAST=1 VH_JOBS=2 timeout 400 python3 run.py {p}'
                x = subprocess.run(['unshare', '-m', 'bash', '-c', sh], capture_output=True, text=True, env={**os.environ, 'TMPDIR': d})
                if x.returncode == 1:
                    r['killed'] = p
                    r['how'] = next((l[:200] for l in x.stdout.splitlines() if l.startswith('[')), x.stdout[-200:])
                    break
                if x.returncode != 0:
                    r.setdefault('odd', []).append((p, x.returncode, (x.stdout + x.stderr)[-300:]))
            with lock:
                open(outp, 'a').write(json.dumps(r) + '\n')
        finally:
            with lock:
                ids.append(w)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for x in ex.map(one, todo):
            pass


main()
