"""neutral.py DIR: rewrites GPyOpt/*.py in DIR preserving behaviour"""
import ast, os, sys, itertools
root = sys.argv[1]; which = set(sys.argv[2].split(",")) if len(sys.argv) > 2 else None
cnt = itertools.count()
N = lambda s, c: ast.Name(id=s, ctx=c)
def on(t): return which is None or t in which
class T(ast.NodeTransformer):
    def block(self, body):
        out = []
        for s in body:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out
    def stmt(self, s):
        self.generic_visit_blocks(s)
        infn = self.depth > 0
        if isinstance(s, ast.Return) and s.value is not None and infn and on("ret"):
            n = "result_%d" % next(cnt)
            return [ast.Assign(targets=[N(n, ast.Store())], value=s.value), ast.Return(value=N(n, ast.Load()))]
        if isinstance(s, ast.Assign) and infn and on("tmp") and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)) and len(s.targets) == 1:
            n = "value_%d" % next(cnt)
            return [ast.Assign(targets=[N(n, ast.Store())], value=s.value), ast.Assign(targets=s.targets, value=N(n, ast.Load()))]
        if isinstance(s, ast.For) and infn and on("for") and not s.orelse:
            n = "items_%d" % next(cnt)
            init = ast.Assign(targets=[N(n, ast.Store())], value=ast.Call(func=N("iter", ast.Load()), args=[s.iter], keywords=[]))
            tr = ast.Try(body=[ast.Assign(targets=[s.target], value=ast.Call(func=N("next", ast.Load()), args=[N(n, ast.Load())], keywords=[]))],
                         handlers=[ast.ExceptHandler(type=N("StopIteration", ast.Load()), name=None, body=[ast.Break()])], orelse=[], finalbody=[])
            return [init, ast.While(test=ast.Constant(True), body=[tr] + s.body, orelse=[])]
        if isinstance(s, ast.If) and s.orelse and infn and on("if") :
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=s.orelse, orelse=s.body)
        return s
    depth = 0
    def generic_visit_blocks(self, s):
        d = isinstance(s, (ast.FunctionDef,))
        self.depth += d
        if d and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)):
            self.depth -= d
            return
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list):
                setattr(s, f, self.block(b))
        for h in getattr(s, "handlers", []):
            h.body = self.block(h.body)
        self.depth -= d
n = 0
for d, _, fs in os.walk(os.path.join(root, "GPyOpt")):
    if "testing" in d: continue
    for f in fs:
        if f.endswith(".py"):
            p = os.path.join(d, f); t = ast.parse(open(p).read()); v = T(); v.depth = 0
            t.body = v.block(t.body)
            ast.fix_missing_locations(t)
            open(p, "w").write(ast.unparse(t) + "\n"); n += 1
print(n)
