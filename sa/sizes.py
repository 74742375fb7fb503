"""Numbers written in the source that a number of cylinders, rows or turbines might be compared with: a law
that holds for small sizes is examined beyond each of them as well."""
import ast, os, warnings

def beyond(repo, module, lo, hi):
    """sizes just above every whole number compared with something, or limiting something, in the module (lo < size <= hi)"""
    path = os.path.join(repo, *module.split('.')) + '.py'
    out = set()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); tree = ast.parse(open(path).read())
    for n in ast.walk(tree):
        if not (isinstance(n, (ast.Compare, ast.Slice)) or isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('min', 'max', 'minimum', 'maximum', 'clip', 'islice')): continue
        for c in ast.walk(n):
            if isinstance(c, ast.Constant) and isinstance(c.value, (int, float)) and not isinstance(c.value, bool) and lo <= c.value < hi and c.value == int(c.value):
                out.add(int(c.value) + 1)
    return sorted(out)
