"""Mechanical changes of the library, to find out what no check notices.

    mutate.py list                      number of changes per file and kind
    mutate.py tests OUT.json [-j N]     which of them pass the repository's tests
    mutate.py sim OUT.json RES.json [-j N] [-n RUNS]   simulates the surviving ones with a few runs of every profile
    mutate.py show RES.json             those which nothing noticed
"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
FILES = ['_base', '_diffgeom', '_geomalg', '_intersect', '_interpolate', '_smooth', '_distance', '_numeric', '_utils', 'plot']
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')


class Edits(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.starts = [0]
        for l in src.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(l) + 1)
        self.b = src.encode()
        self.out = []
        self.doc = set()

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, n, new, kind):
        a, b = self.span(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno))

    def sub(self, n, new, kind):
        if isinstance(new, ast.AST):
            new = ast.unparse(new)
        self.put(n, '(%s)' % new if not isinstance(n, (ast.Call, ast.Constant, ast.Name, ast.stmt)) else new, kind)

    def visit(self, n):
        for f in ('body',):
            body = getattr(n, f, None)
            if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                    and isinstance(body[0].value.value, str):
                self.doc.add(id(body[0]))
        if isinstance(n, ast.AnnAssign) or isinstance(n, ast.arg):
            if getattr(n, 'value', None) is not None:
                self.visit(n.value)
            return
        m = getattr(self, 'v_' + type(n).__name__, None)
        if m:
            m(n)
        for name, val in ast.iter_fields(n):
            if name in ('annotation', 'returns'):
                continue
            for c in val if isinstance(val, list) else [val]:
                if isinstance(c, ast.AST):
                    self.visit(c)

    def v_Compare(self, n):
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
              ast.Is: ast.Eq, ast.IsNot: ast.NotEq, ast.In: ast.NotIn, ast.NotIn: ast.In}
        for i, o in enumerate(n.ops):
            if type(o) in sw:
                if isinstance(o, (ast.Is, ast.IsNot)) and isinstance(n.comparators[i], ast.Constant):
                    continue
                c = copy.deepcopy(n)
                c.ops[i] = sw[type(o)]()
                self.sub(n, c, 'compare')

    def v_BinOp(self, n):
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: None, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
        o = sw.get(type(n.op))
        if o:
            c = copy.deepcopy(n)
            c.op = o()
            self.sub(n, c, 'binop')

    def v_UnaryOp(self, n):
        self.sub(n, n.operand, 'unary')

    def v_BoolOp(self, n):
        for i in range(len(n.values)):
            c = copy.deepcopy(n)
            del c.values[i]
            self.sub(n, c.values[0] if len(c.values) == 1 else c, 'boolop')

    def v_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), 'bool')
        elif isinstance(v, int):
            for k in (v + 1, v - 1):
                self.put(n, str(k), 'int')
        elif isinstance(v, float):
            self.put(n, repr(v * 100 + 0.0), 'float')

    def v_Call(self, n):
        f = ast.unparse(n.func)
        if f in ('np.array',) and n.args:
            c = copy.deepcopy(n)
            c.func = ast.parse('np.asarray', mode='eval').body
            c.keywords = [k for k in c.keywords if k.arg in ('dtype', 'order')]
            self.sub(n, c, 'asarray')
        if f in ('readonly', '_readonly', 'list', 'tuple', 'np.abs', 'abs', 'np.ravel', 'np.asarray', 'np.array', 'int', 'float', 'frozenset') and len(n.args) >= 1:
            self.sub(n, '(%s)' % ast.unparse(n.args[0]), 'unwrap')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'ravel', 'flatten', 'squeeze', 'view') :
            self.sub(n, n.func.value, 'unwrap')
        if f in ('np.zeros', 'np.ones', 'np.zeros_like', 'np.full'):
            c = copy.deepcopy(n)
            c.func = ast.parse(f.replace('zeros', 'empty').replace('ones', 'empty').replace('full', 'empty'), mode='eval').body
            if f == 'np.full':
                c.args = c.args[:1]
            self.sub(n, c, 'empty')
        for i, k in enumerate(n.keywords):
            c = copy.deepcopy(n)
            del c.keywords[i]
            self.sub(n, c, 'keyword')
        if len(n.args) == 2 and ast.unparse(n.args[0]) != ast.unparse(n.args[1]) and not f.startswith(('isinstance', 'warnings', 'getattr', 'hasattr', 'issubclass')):
            c = copy.deepcopy(n)
            c.args = c.args[::-1]
            self.sub(n, c, 'swap')

    def v_If(self, n):
        self.put(n.test, '(%s) and False' % self.text(n.test), 'iffalse')
        self.put(n.test, '(%s) or True' % self.text(n.test), 'iftrue')

    def v_IfExp(self, n):
        self.sub(n, n.body, 'ifexp')
        self.sub(n, n.orelse, 'ifexp')

    def v_Raise(self, n):
        self.put(n, 'pass', 'noraise')
        if n.exc is not None and isinstance(n.exc, ast.Call) and isinstance(n.exc.func, ast.Name):
            self.put(n.exc.func, 'RuntimeError' if n.exc.func.id != 'RuntimeError' else 'ValueError', 'errtype')
        if n.cause is not None:
            c = copy.deepcopy(n)
            c.cause = ast.Constant(None)
            self.sub(n, c, 'cause')

    def v_ExceptHandler(self, n):
        if n.type is not None:
            for t in ('Exception', 'BaseException'):
                if ast.unparse(n.type) != t:
                    self.put(n.type, t, 'except')
            if isinstance(n.type, ast.Tuple):
                for e in n.type.elts:
                    self.put(n.type, ast.unparse(e), 'except')
            if ast.unparse(n.type) == 'Exception':
                for t in ('ValueError', 'ArithmeticError', '(ValueError, TypeError, ArithmeticError, LookupError)'):
                    self.put(n.type, t, 'except')

    def v_Expr(self, n):
        if id(n) not in self.doc and not isinstance(n.value, ast.Constant):
            self.put(n, 'pass', 'delete')

    def v_AugAssign(self, n):
        self.put(n, 'pass', 'delete')

    def v_Assign(self, n):
        t = n.targets[0]
        if isinstance(t, (ast.Subscript,)):
            self.put(n, 'pass', 'delete')

    def v_FunctionDef(self, n):
        for d in n.decorator_list:
            s = ast.unparse(d)
            if s in ('cached_property',) or 'synchronized' in s or 'cached' in s or 'readonly' in s:
                a, b = self.span(d)
                if s == 'cached_property':
                    self.put(d, 'property', 'decorator')
                else:
                    self.out.append((a - 1, b, '', 'decorator', d.lineno))

    def v_With(self, n):
        for it in n.items:
            a, b = self.span(it.context_expr)
            if 'lock' in ast.unparse(it.context_expr):
                self.put(it.context_expr, '__import__("contextlib").nullcontext()', 'nolock')

    def v_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            for f in ('lower', 'upper', 'step'):
                if getattr(n.slice, f) is not None:
                    c = copy.deepcopy(n)
                    setattr(c.slice, f, None)
                    self.sub(n, c, 'slice')

    def v_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            pass


def edits():
    out = []
    for f in FILES:
        p = '/repo/skcurve/%s.py' % f
        e = Edits(open(p).read())
        e.visit(ast.parse(e.src))
        seen = set()
        for a, b, new, kind, line in e.out:
            if (a, b, new) in seen:
                continue
            seen.add((a, b, new))
            out.append({'file': f, 'a': a, 'b': b, 'old': e.b[a:b].decode(), 'new': new, 'kind': kind, 'line': line})
    for i, m in enumerate(out):
        m['id'] = i
    return out


def apply(m, repo):
    p = '%s/skcurve/%s.py' % (repo, m['file'])
    s = open('/repo/skcurve/%s.py' % m['file'], 'rb').read()
    open(p, 'wb').write(s[:m['a']] + m['new'].encode() + s[m['b']:])


def copies(n, tag):
    out = []
    for i in range(n):
        w = '/tmp/mut/%s%d' % (tag, i)
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree('/repo', w)
        out.append(w)
    return out


def sweep(todo, j, tag, fn, save):
    pool = copies(j, tag)
    t0 = time.time()
    done = [0]

    def one(m):
        w = pool.pop()
        try:
            apply(m, w)
            fn(m, w)
        finally:
            shutil.copy('/repo/skcurve/%s.py' % m['file'], '%s/skcurve/%s.py' % (w, m['file']))
            pool.append(w)
        done[0] += 1
        if done[0] % 50 == 0:
            save()
            print(done[0], len(todo), int(time.time() - t0), flush=True)
    with ThreadPoolExecutor(j) as ex:
        list(ex.map(one, todo))
    save()
    for w in pool:
        shutil.rmtree(w, ignore_errors=True)


def tests(m, w):
    try:
        r = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=w, env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60)
        m['pass'] = r.returncode == 0
    except subprocess.TimeoutExpired:
        m['pass'] = False


def sim(n):
    def f(m, w):
        try:
            r = subprocess.run([PY, '/verif/tools/mutsim.py', str(n)], cwd='/tmp', env=dict(ENV, DST_REPO=w), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=400)
            o = r.stdout.decode().strip().split('\n')
            m['found'] = [l for l in o if l.startswith('FOUND')][:2]
            if not m['found'] and not any(l.startswith('NOTHING') for l in o):
                m['found'] = ['DIED ' + o[-1][:200]]
        except subprocess.TimeoutExpired:
            m['found'] = ['TIMEOUT']
    return f


def main(argv):
    opt = dict(zip(argv, argv[1:]))
    j = int(opt.get('-j', 8))
    if argv[0] == 'list':
        import collections
        c = collections.Counter((m['file'], m['kind']) for m in edits())
        for k, v in sorted(c.items()):
            print(k, v)
        print(sum(c.values()))
    elif argv[0] == 'tests':
        all_ = edits()
        random.Random(5).shuffle(all_)
        sweep(all_, j, 't', tests, lambda: json.dump([m for m in all_ if m.get('pass')], open(argv[1], 'w'), indent=0))
    elif argv[0] == 'sim':
        all_ = json.load(open(argv[1]))
        sweep(all_, j, 's', sim(int(opt.get('-n', 30))), lambda: json.dump(all_, open(argv[2], 'w'), indent=0))
    elif argv[0] == 'show':
        for m in json.load(open(argv[1])):
            if m.get('found') == []:
                print('%4d %s:%d %s | %s  ->  %s' % (m['id'], m['file'], m['line'], m['kind'], m['old'].replace('\n', ' ')[:150], m['new'].replace('\n', ' ')[:150]))


main(sys.argv[1:])
