# Runs under the python2.7 that runs la: parses the real source files and dumps
# their ASTs as JSON, so that the verifier sees exactly what that interpreter
# compiles.  Usage: dump_ast.py OUT.json NAME=PATH ...
import ast, json, sys

def conv(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in n._fields:
            d[f] = conv(getattr(n, f, None))
        if hasattr(n, 'lineno'):
            d['@'] = n.lineno
        return d
    if isinstance(n, list):
        return [conv(z) for z in n]
    if isinstance(n, str):
        return {'_s': n.decode('latin-1')}
    if isinstance(n, unicode):
        return {'_s': n}
    if isinstance(n, bool) or n is None:
        return n
    if isinstance(n, (int, long)):
        return {'_i': str(n)}
    if isinstance(n, float):
        return {'_f': repr(n)}
    if isinstance(n, complex):
        return {'_c': repr(n)}
    raise TypeError(type(n))

out = {}
for a in sys.argv[2:]:
    name, path = a.split('=', 1)
    out[name] = conv(ast.parse(open(path).read() + '\n', path))
json.dump(out, open(sys.argv[1], 'w'))
