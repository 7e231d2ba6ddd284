"""mutation testing of the checks: mut.py OUT PROP N [SEED] [-j J]: N random small mutants of the files of PROP; prints survivors"""
import ast, os, sys, json, random, shutil, subprocess, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPF = ('argparse', 'filter_args', 'filter_eval', 'filter_train', 'plot', '__cmp__', '__repr__', '__str__', 'test', 'filter_')
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '//', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}

def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    out = []
    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()
    def sub(n, new, kind, fn):
        s, e = pos(n)
        out.append((s, e, new, kind, fn, n.lineno))
    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if any(x in n.name for x in SKIPF):
                return
            if isinstance(n, ast.FunctionDef):
                fn = n.name
        if isinstance(n, ast.If) and '__main__' in seg(n.test):
            return
        if isinstance(n, ast.Assert) or isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and seg(n.value.func).split('.')[0] in ('print', 'logging', 'parser', 'plt', 'warnings'):
            return
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                sub(n, '(%s %s %s)' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp', fn)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                sub(n, '(%s %s %s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin', fn)
            elif isinstance(n, ast.BoolOp):
                op = ' and ' if isinstance(n.op, ast.Or) else ' or '
                sub(n, '(' + op.join(seg(v) for v in n.values) + ')', 'bool', fn)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                sub(n, '(%s)' % seg(n.operand), 'not', fn)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                sub(n, '(%s)' % seg(n.operand), 'neg', fn)
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                sub(n, str(not n.value), 'const', fn)
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                sub(n, {0: '1', 1: '0', 2: '1'}.get(n.value, str(n.value + 1)), 'const', fn)
            elif isinstance(n, ast.Constant) and isinstance(n.value, float):
                sub(n, repr(n.value * 2 if n.value else 1.0), 'const', fn)
            elif isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
                sub(n, seg(n.value), 'T', fn)
            elif isinstance(n, (ast.AugAssign,)):
                sub(n, 'pass', 'delete', fn)
            elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                sub(n, 'pass', 'delete', fn)
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in seg(n.value):
                sub(n, 'pass', 'delete', fn)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                sub(n, 'pass', 'delete', fn)
            elif isinstance(n, ast.Slice) and n.lower and n.upper:
                s, e = pos(n)
                sub(n, seg(n.lower) + ':', 'slice', fn)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'ravel', 'astype') and not n.keywords:
                sub(n, seg(n.func.value), 'call', fn)
            elif isinstance(n, ast.Call) and n.keywords and len(n.args) + len(n.keywords) > 1 and 0:
                pass
            elif isinstance(n, ast.If):
                sub(n.test, '(%s) and False' % seg(n.test), 'if0', fn)
                sub(n.test, '(%s) or True' % seg(n.test), 'if1', fn)
            elif isinstance(n, ast.IfExp):
                sub(n, '(%s)' % seg(n.body), 'ifexp', fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.FunctionDef) and c in n.decorator_list:
                continue
            walk(c, fn)
    walk(tree, None)
    return b, out

def main():
    out, prop, N = sys.argv[1], sys.argv[2], int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    J = os.environ.get('MUTJ', '4')
    only = os.environ.get('MUTF')
    files = None
    for l in open(ROOT + '/properties.jsonl'):
        p = json.loads(l)
        if p['id'] == prop:
            files = p['anchors']['files'] if 'anchors' in p else p['files']
    if only:
        files = only.split(',')
    ms = []
    for f in files:
        if f == 'hyperion/hyp_model.py' and not only:
            continue
        b, o = mutants(open('/repo/' + f).read())
        for m in o:
            ms.append((f, b) + m)
    r = random.Random(seed * 1000 + int(prop[1:]))
    r.shuffle(ms)
    tot = len(ms)
    ms = ms[:N]
    copy = tempfile.mkdtemp(prefix='mut.', dir='/dev/shm' if os.path.isdir('/dev/shm') else '/tmp')
    log = open(out, 'a')
    def say(s):
        log.write(s + '\n'); log.flush()
    try:
        shutil.copytree('/repo/hyperion', copy + '/hyperion')
        shutil.copytree('/repo/tests', copy + '/tests', ignore=shutil.ignore_patterns('data_out'))
        k = 0
        for f, b, s, e, new, kind, fn, ln in ms:
            t0 = time.time()
            nb = b[:s] + new.encode() + b[e:]
            try:
                compile(nb, f, 'exec')
            except SyntaxError:
                continue
            open(copy + '/' + f, 'wb').write(nb)
            env = dict(os.environ, VERIF_REPO=copy, SYMX_FIRST='1', SYMX_EVIDENCE=copy + '/ev', VERIF_TIER='quick')
            try:
                c = subprocess.run([ROOT + '/run.sh', 'check', prop, '-j', J], cwd=ROOT, env=env, capture_output=True, text=True, timeout=600)
                txt, rc = c.stdout, c.returncode
            except subprocess.TimeoutExpired:
                txt, rc = 'TIMEOUT', 9
            open(copy + '/' + f, 'wb').write(b)
            k += 1
            ok = rc == 1 and 'VIOLATION' in txt
            if not ok:
                say('SURVIVED %s %s:%d %s [%s] %s -> %s   (%s)' % (prop, f.replace('hyperion/', ''), ln, fn, kind, b[s:e].decode()[:90].replace('\n', ' '), new[:90].replace('\n', ' '),
                    'exit %d ' % rc + ('' if rc != 0 else ' '.join(l[:160] for l in txt.splitlines() if l.startswith(('INCONC', 'JOB-ERR', 'ENCOD')))[:300])))
        say('DONE %s %d of %d mutants' % (prop, k, tot))
    finally:
        shutil.rmtree(copy, ignore_errors=True)
main()
