"""Development aid: small syntactic changes to one source file, and which of the named checks notice them.
python3 tools/mutate.py FILE(relative to src/nempy) FUNC_REGEX CHECK[,CHECK] [MAX] [SEED]"""
import ast, copy, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get('NEMSA_SRC', '/repo/src/nempy')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def sites(tree, rx):
    """(description, mutator) pairs"""
    out = []

    def visit(node, fn):
        for f in ast.iter_child_nodes(node):
            name = fn
            if isinstance(f, (ast.FunctionDef, ast.ClassDef)):
                name = (fn + '.' if fn else '') + f.name
            visit(f, name)
        if not fn or not re.search(rx, fn):
            return
        ln = getattr(node, 'lineno', 0)
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            def m(n=node):
                n.ops[0] = CMP[type(n.ops[0])]()
            out.append((ln, fn, 'compare', m))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, (ast.List, ast.Constant)) \
                and not isinstance(node.right, ast.List):
            def m(n=node):
                n.op = BIN[type(n.op)]()
            out.append((ln, fn, 'binop', m))
        elif isinstance(node, ast.BoolOp):
            def m(n=node):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append((ln, fn, 'boolop', m))
        elif isinstance(node, ast.Call):
            fname = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
            if fname == 'where' and len(node.args) == 3:
                def m(n=node):
                    n.args[1], n.args[2] = n.args[2], n.args[1]
                out.append((ln, fn, 'where swap', m))
            for kw in node.keywords:
                if kw.arg == 'how' and isinstance(kw.value, ast.Constant):
                    def m(k=kw):
                        k.value = ast.Constant('left' if k.value.value == 'inner' else 'inner')
                    out.append((ln, fn, 'how', m))
                if isinstance(kw.value, ast.Constant) and isinstance(kw.value.value, bool):
                    def m(k=kw):
                        k.value = ast.Constant(not k.value.value)
                    out.append((ln, fn, 'kw %s' % kw.arg, m))
            if fname in ('min', 'max', 'minimum', 'maximum', 'first', 'last', 'any', 'all') and isinstance(node.func, ast.Attribute):
                def m(n=node):
                    a = n.func.attr
                    n.func.attr = {'min': 'max', 'max': 'min', 'minimum': 'maximum', 'maximum': 'minimum', 'first': 'last',
                                   'last': 'first', 'any': 'all', 'all': 'any'}[a]
                out.append((ln, fn, fname, m))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            def m(n=node):
                n.value = n.value + 1 if n.value >= 0 else n.value - 1
            out.append((ln, fn, 'const %r' % node.value, m))
        elif isinstance(node, ast.List) and len(node.elts) > 1 and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in node.elts):
            for k in range(len(node.elts)):
                def m(n=node, k=k):
                    del n.elts[k]
                out.append((ln, fn, 'drop %r' % node.elts[k].value, m))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Invert, ast.Not)):
            def m(n=node):
                n.op = ast.UAdd()
            out.append((ln, fn, 'drop ~', m))
        for field in ('body', 'orelse'):
            b = getattr(node, field, None)
            if isinstance(b, list) and len(b) > 1 and not isinstance(node, (ast.Module, ast.ClassDef)):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def m(b=b, s=s):
                            b[b.index(s)] = ast.copy_location(ast.Pass(), s)
                        out.append((s.lineno, fn, 'delete statement', m))
    visit(tree, '')
    return out


def main():
    f, rx, checks = sys.argv[1:4]
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 40
    rng = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
    src = open(os.path.join(SRC, f)).read()
    n = len(sites(ast.parse(src), rx))
    idx = sorted(rng.sample(range(n), min(mx, n)))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def one(i):
        t = ast.parse(src)
        s = sites(t, rx)[i]
        s[3]()
        d = tempfile.mkdtemp(prefix='mut')
        try:
            shutil.copytree(SRC, d + '/nempy', ignore=shutil.ignore_patterns('__pycache__'))
            # keep line numbers roughly: replace only the text
            open(os.path.join(d, 'nempy', f), 'w').write(ast.unparse(ast.fix_missing_locations(t)))
            res = []
            for c in checks.split(','):
                env = dict(os.environ, NEMSA_SRC=d + '/nempy', NEMSA_EVIDENCE=d, VERIF_TIER='quick')
                p = subprocess.run([sys.executable, '-m', 'nemsa.check', c], cwd=here, env=env, capture_output=True, text=True, timeout=1500)
                und = p.stdout.count('UNDETERMINED')
                res.append((c, p.returncode, und, p.stderr.strip().splitlines()[-1][:100] if p.returncode not in (0, 1) and p.stderr.strip() else ''))
            return i, s[:3], res
        finally:
            shutil.rmtree(d)
    line = src.splitlines()
    caught = 0
    with ThreadPoolExecutor(8) as ex:
        for i, s, res in ex.map(one, idx):
            if any(r[1] == 1 for r in res):
                caught += 1
            else:
                print('SURVIVED', s, line[s[0] - 1].strip()[:110], res, flush=True)
    print('caught %d of %d (of %d sites)' % (caught, len(idx), n))


main()
