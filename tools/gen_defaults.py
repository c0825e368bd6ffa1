"""Write vlib/defaults.json: the parameters of the public functions and their literal default values (run by hand)."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/repo/src/tools21cm/'
out = {}
for p in sorted(glob.glob(S + '*.py')):
    t = ast.parse(open(p).read())
    for n in t.body:
        if not isinstance(n, ast.FunctionDef) or n.name.startswith('_') or n.args.kwonlyargs:
            continue
        a = n.args.args
        dflt = [None] * (len(a) - len(n.args.defaults)) + n.args.defaults
        par = []
        for x, d in zip(a, dflt):
            e = dict(name=x.arg)
            if d is not None:
                try:
                    v = eval(compile(ast.Expression(d), '', 'eval'), {'__builtins__': {}})
                except Exception:
                    v = d = None
                    par.append(e)
                    continue
                if isinstance(v, (int, float, str, bool, type(None))):
                    e['default'] = v
            par.append(e)
        if any('default' in e for e in par):
            out['%s.%s' % (os.path.basename(p)[:-3], n.name)] = par
json.dump(out, open(os.path.join(V, 'vlib', 'defaults.json'), 'w'), indent=0, sort_keys=True)
print(len(out), sum('default' in e for v in out.values() for e in v))
