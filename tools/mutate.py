"""mutate.py PID FILE[:REGEX] ... [-n N] [-s SEED] [-r RUNS] : mutation survey of one check (a development tool, not a check).

Samples small changes of the named files (functions whose qualified name matches REGEX), runs the check's search on a
scratch copy of /repo with each, eight at a time, and prints the changes that no run noticed."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def segs(src):
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    return off


def mutants(path, rx):
    src = open(path).read()
    raw = src.encode()
    off = segs(src)
    tree = ast.parse(src)
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def add(a, b, new, what, line):
        out.append((path, a, b, new, what, line))

    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
           ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '+'}

    def visit(n, qual):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            qual = qual + '.' + n.name if qual else n.name
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for c in body:
                visit(c, qual)
            return
        if re.search(rx, qual or '<module>'):
            mut(n)
        for c in ast.iter_child_nodes(n):
            visit(c, qual)

    def mut(n):
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            a, b = pos(n)
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.search(rb'LOGGER|warn|print|flush', raw[a:b]):
                return
            add(a, b, 'pass', 'delete', n.lineno)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            t = raw[a:b].decode()
            new = CMP[type(n.ops[0])]
            m = re.match(r'^(\s*\)*\s*)([^\s()]+(?:\s+(?:not|in))?)(\s*\(*\s*)$', t)
            if m:
                add(a, b, m.group(1) + ' ' + new + ' ' + m.group(3), 'compare', n.lineno)
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            a, b = pos(n.test)
            add(a, b, 'not (' + raw[a:b].decode() + ')', 'negate', n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, b = pos(n.values[0])[1], pos(n.values[1])[0]
            t = raw[a:b].decode()
            add(a, b, re.sub(r'\b(and|or)\b', lambda m: {'and': 'or', 'or': 'and'}[m.group()], t), 'boolop', n.lineno)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = pos(n.left)[1], pos(n.right)[0]
            t = raw[a:b].decode()
            m = re.match(r'^(\s*\)*\s*)([-+*/%]+)(\s*\(*\s*)$', t)
            if m and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or m and isinstance(getattr(n.left, 'value', 0), (int, float)):
                add(a, b, m.group(1) + BIN[type(n.op)] + m.group(3), 'arith', n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = pos(n)
            add(a, b, str(n.value + 1), 'const', n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = pos(n)
            add(a, b, str(not n.value), 'const', n.lineno)
        elif isinstance(n, ast.With):
            a = pos(n)[0]
            b = pos(n.body[0])[0]
            t = raw[a:b].decode()
            if ' as ' not in t:
                add(a, b, 'if True:' + t[t.rindex(':') + 1:], 'nolock', n.lineno)
        elif isinstance(n, ast.ExceptHandler):
            a, b = pos(n.body[0])[0], pos(n.body[-1])[1]
            if raw[a:b] != b'raise':
                add(a, b, 'raise', 'reraise', n.lineno)
            if raw[a:b] != b'pass':
                add(a, b, 'pass', 'swallow', n.lineno)
        elif isinstance(n, ast.Break):
            a, b = pos(n)
            add(a, b, 'continue', 'break', n.lineno)
        elif isinstance(n, ast.Continue):
            a, b = pos(n)
            add(a, b, 'pass', 'continue', n.lineno)
        elif isinstance(n, ast.Return) and n.value is not None:
            a, b = pos(n)
            add(a, b, 'return None', 'return', n.lineno)
    visit(tree, '')
    ok = []
    for m in out:
        new = raw[:m[1]] + m[3].encode() + raw[m[2]:]
        if new == raw:
            continue
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        ok.append(m)
    return ok


def one(args):
    pid, m, k, runs, slots, env, root = args
    path, a, b, new, what, line = m
    slot = slots.pop()
    try:
        rel = os.path.relpath(path, root)
        cp = '/tmp/mut/r%d' % slot
        dst = os.path.join(cp, rel)
        raw = open(path, 'rb').read()
        open(dst, 'wb').write(raw[:a] + new.encode() + raw[b:])
        e = dict(os.environ, LSL_SIM_REPO=cp, **env)
        try:
            p = subprocess.run([PY, '-W', 'ignore', os.path.abspath(__file__), '--one', pid, str(runs)], env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            out = p.stdout.decode('utf-8', 'replace').strip().split('\n')[-1]
        except subprocess.TimeoutExpired:
            out = 'TIMEOUT'
        shutil.copyfile(path, dst)
        old = raw[a:b].decode()
        return (out, '%s:%d %s: %s -> %s' % (rel, line, what, ' '.join(old.split())[:90], ' '.join(new.split())[:90]))
    finally:
        slots.append(slot)


def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    n, seed, runs, env = 60, 1, 0, {}
    files = []
    while a:
        x = a.pop(0)
        if x == '-n':
            n = int(a.pop(0))
        elif x == '-s':
            seed = int(a.pop(0))
        elif x == '-r':
            runs = int(a.pop(0))
        elif x == '-e':
            k, v = a.pop(0).split('=')
            env[k] = v
        else:
            files.append(x)
    root = '/tmp/mut/base'
    for k in ['base'] + ['r%d' % i for i in range(8)]:
        p = '/tmp/mut/' + k
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs(p)
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % p, shell=True)
        subprocess.call('cp /repo/lsl/version.py %s/lsl/ 2>/dev/null' % p, shell=True)
    ms = []
    for f in files:
        f, _, rx = f.partition(':')
        ms += mutants(os.path.join(root, f), rx or '.')
    random.Random(seed).shuffle(ms)
    print(len(ms), 'mutants')
    ms = ms[:n]
    slots = list(range(8))
    cnt = {}
    with ThreadPoolExecutor(8) as ex:
        for out, txt in ex.map(one, [(pid, m, k, runs, slots, env, root) for k, m in enumerate(ms)]):
            w = out.split()[0] if out else '?'
            cnt[w] = cnt.get(w, 0) + 1
            if w != 'KILLED':
                print(out[:150], '|', txt, flush=True)
    print(cnt)


def run_one(pid, runs):
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ['TZ'] = 'UTC'
    sys.path.insert(0, VERIF)
    from sim import harness
    chk = harness.load_check(pid)
    scratch = os.environ['SIM_SCRATCH'] = tempfile.mkdtemp(prefix='lslmut-')
    try:
        if hasattr(chk, 'prepare'):
            try:
                chk.prepare(scratch)
            except Exception as e:
                print('BUILDFAIL', e)
                return
        conf = chk.TIERS['quick']
        n = runs or conf['runs']
        done = 0
        step = max(20, n // 12)
        while done < n:
            k = min(step, n - done)
            agg, viols, errors = harness.search(chk, 1, 'quick', k, 1, scratch, 300, lo=done)
            done += k
            if viols:
                print('KILLED', viols[0]['violation'][0]['kind'])
                return
            if errors:
                print('ERROR', errors[0].replace('\n', ' | ')[-140:])
                return
        print('SURVIVED')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if sys.argv[1] == '--one':
    run_one(sys.argv[2], int(sys.argv[3]))
else:
    main()
