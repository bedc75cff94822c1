"""Integer constants the program compares or computes with: behaviour may change
around them, so the contexts are extended to lengths on either side of each."""
import ast, glob, os
import pyx

CAP = 12        # constants considered


def nodes(n):
    seen = set(); todo = [n]
    while todo:
        x = todo.pop()
        if id(x) in seen: continue
        seen.add(id(x))
        if isinstance(x, (list, tuple)): todo.extend(x); continue
        if not isinstance(x, ast.AST) or isinstance(x, ast.Dict): continue      # tables
        yield x
        todo.extend(v for k, v in vars(x).items() if k not in ('ctx', 'decorator_list', 'annotation', 'defaults', 'kw_defaults'))


def value(n):
    """the integer a constant expression denotes"""
    if isinstance(n, ast.Constant) and type(n.value) is int: return n.value
    if isinstance(n, ast.Constant) and type(n.value) is float and n.value == int(n.value) and abs(n.value) < 1e9: return int(n.value)
    if isinstance(n, ast.BinOp):
        a, b = value(n.left), value(n.right)
        if a is None or b is None: return None
        try:
            if isinstance(n.op, ast.Mult): return a * b
            if isinstance(n.op, ast.Add): return a + b
            if isinstance(n.op, ast.Sub): return a - b
            if isinstance(n.op, ast.LShift) and 0 <= b < 64: return a << b
            if isinstance(n.op, ast.Pow) and 0 <= b < 64 and abs(a) < 100: return a ** b
        except Exception: return None
    return None


def constants(repo, lo=4, hi=70000):
    out = {}
    for f in sorted(glob.glob(repo + '/pywt/*.py') + glob.glob(repo + '/pywt/_extensions/*.pyx')):
        b = os.path.basename(f)
        if b in ('_pytest.py', '_pytesttester.py', '_doc_utils.py', 'conftest.py', 'version.py'): continue
        try: t = ast.parse(open(f).read()) if f.endswith('.py') else pyx.parse(f)
        except Exception: continue
        for n in nodes(t):
            v = value(n)
            if v is not None and lo <= abs(v) <= hi: out.setdefault(abs(v), set()).add('%s:%s' % (b, getattr(n, 'lineno', '?')))
    return out


if __name__ == '__main__':
    for k, v in sorted(constants(os.environ.get('VERIF_REPO', '/repo')).items()): print(k, sorted(v))
