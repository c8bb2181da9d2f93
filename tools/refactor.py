"""Quietness test by hand: applies behaviour-preserving rewrites to a scratch copy of /repo's package and runs
every check on it.   python3 tools/refactor.py [REWRITE ...] [-p C07,C09]"""
import warnings; warnings.filterwarnings("ignore")
import ast, os, shutil, subprocess, sys, copy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/refactor_scratch"
counter = [0]
def fresh(b):
    counter[0] += 1
    return f"{b}_{counter[0]}_"

class Plain(ast.NodeTransformer):
    pass

class Rename(ast.NodeTransformer):
    """Rename all locals that are not parameters / globals / captured."""
    def visit_FunctionDef(self, f):
        inner = [n for n in ast.walk(f) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not f]
        if inner or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            return f
        a = f.args
        ps = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | (
            {a.kwarg.arg} if a.kwarg else set())
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - ps
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_new"
        return f

class Ret(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)):
            return n
        v = fresh("answer")
        return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]

class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n

class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1 else 0
        f.body.insert(i, ast.Assign([ast.Name(fresh("unused"), ast.Store())], ast.Constant(None)))
        f.body.insert(i + 1, ast.Expr(ast.Constant(0)))
        return f

def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

class Nest(ast.NodeTransformer):
    """if A: return x; rest  ->  if A: return x else: rest"""
    def fix(self, body):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and ends(st.body) and not st.orelse and i + 1 < len(body):
                st.orelse = self.fix(body[i + 1:])
                return body[: i + 1]
        return body
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.fix(f.body)
        return f

class Flatten(ast.NodeTransformer):
    """if A: return x else: rest -> if A: return x; rest"""
    def fix(self, body):
        out = []
        for st in body:
            for a in ("body", "orelse"):
                if isinstance(getattr(st, a, None), list):
                    setattr(st, a, self.fix(getattr(st, a)))
            if isinstance(st, ast.If) and ends(st.body) and st.orelse:
                r, st.orelse = st.orelse, []
                out.append(st); out.extend(r)
            else:
                out.append(st)
        return out
    def visit_FunctionDef(self, f):
        f.body = self.fix(f.body)
        return f

class Temps(ast.NodeTransformer):
    """First argument of simple call statements into a temporary."""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.Call) and n.value.args and isinstance(n.value.args[0], (ast.BinOp, ast.Call)) and not any(
                isinstance(x, (ast.NamedExpr, ast.Yield)) for x in ast.walk(n.value)) and isinstance(n.value.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(n.value.func)):
            v = fresh("arg")
            a = n.value.args[0]
            n.value.args[0] = ast.Name(v, ast.Load())
            return [ast.Assign([ast.Name(v, ast.Store())], a), n]
        return n

class Ternary(ast.NodeTransformer):
    """if c: x = a else: x = b -> x = a if c else b"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 == len(n.orelse) and all(isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) for b in (n.body[0], n.orelse[0])) and n.body[0].targets[0].id == n.orelse[0].targets[0].id:
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n

class Walrus(ast.NodeTransformer):
    """if not (x := e): ... -> x = e; if not x: ..."""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
        u = t.operand if neg else t
        if isinstance(u, ast.NamedExpr):
            load = ast.Name(u.target.id, ast.Load())
            n.test = ast.UnaryOp(ast.Not(), load) if neg else load
            return [ast.Assign([ast.Name(u.target.id, ast.Store())], u.value), n]
        return n

class Comp(ast.NodeTransformer):
    """x = [e for a in b if c] -> loop with append"""
    def visit_Assign(self, n):
        if isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            g = n.value.generators[0]
            if any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                return n
            b = ast.Expr(ast.Call(ast.Attribute(ast.Name(n.targets[0].id, ast.Load()), "append", ast.Load()), [n.value.elt], []))
            body = [b]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign(n.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return n

class Aug(ast.NodeTransformer):
    """scalar-looking x += const -> x = x + const"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n

class Kw(ast.NodeTransformer):
    """position=... keyword of query calls made positional"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if n.keywords and not n.args and n.keywords[0].arg == "position" and isinstance(n.func, ast.Attribute):
            n.args, n.keywords = [n.keywords[0].value], n.keywords[1:]
        return n

class Helper(ast.NodeTransformer):
    """Extract a straight tail of a method into a helper method when it only reads locals."""
    def visit_ClassDef(self, c):
        out = []
        for m in c.body:
            out.append(m)
            if not isinstance(m, ast.FunctionDef) or m.decorator_list or m.name.startswith("__") or not m.args.args:
                continue
            if len(m.body) < 4 or any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Yield, ast.Nonlocal)) or (isinstance(x, ast.Name) and x.id == "super") for s in m.body for x in ast.walk(s)):
                continue
            k = len(m.body) // 2
            tail = m.body[k:]
            if not isinstance(tail[-1], ast.Return):
                continue
            a = m.args
            ps = [x.arg for x in a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
            # names certainly bound in the head
            bound = list(ps)
            for s in m.body[:k]:
                if isinstance(s, ast.Assign):
                    bound += [n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
            headnames = {n.id for s in m.body[:k] for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            used = {n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name)}
            if any(x in used and x not in bound for x in headnames):
                continue
            if any(isinstance(x, ast.NamedExpr) for s in tail for x in ast.walk(s)) and False:
                continue
            need = [x for x in dict.fromkeys(bound) if x in used and x != ps[0]]
            h = fresh("_rest_of_" + m.name.strip("_"))
            fn = ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(ps[0])] + [ast.arg(x) for x in need], kwonlyargs=[], kw_defaults=[], defaults=[]), body=tail, decorator_list=[])
            m.body = m.body[:k] + [ast.Return(ast.Call(ast.Attribute(ast.Name(ps[0], ast.Load()), h, ast.Load()), [ast.Name(x, ast.Load()) for x in need], []))]
            out.append(fn)
        c.body = out
        return c

class Swap(ast.NodeTransformer):
    """swap two neighbouring independent simple assignments (names only, pure calls assumed for constants)"""
    def fix(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and not any(isinstance(y, (ast.Call, ast.NamedExpr, ast.Attribute)) for y in ast.walk(x.value)) for x in (a, b)):
                na = {y.id for y in ast.walk(a.value) if isinstance(y, ast.Name)}
                nb = {y.id for y in ast.walk(b.value) if isinstance(y, ast.Name)}
                if a.targets[0].id not in nb and b.targets[0].id not in na and a.targets[0].id != b.targets[0].id:
                    body[i], body[i + 1] = b, a
                    i += 1
            i += 1
        for st in body:
            for x in ("body", "orelse"):
                if isinstance(getattr(st, x, None), list):
                    self.fix(getattr(st, x))
        return body
    def visit_FunctionDef(self, f):
        self.fix(f.body)
        return f

ALL = dict(plain=Plain, rename=Rename, ret=Ret, invert=Invert, noop=Noop, nest=Nest, flatten=Flatten, temps=Temps, ternary=Ternary,
           walrus=Walrus, comp=Comp, aug=Aug, kw=Kw, helper=Helper, swap=Swap)

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    props = next((a[2:].split(",") for a in sys.argv[1:] if a.startswith("-p") and len(a) > 2), None)
    props = props or sorted(f[:-3].upper() for f in os.listdir(V + "/sa/rules") if f.startswith("c") and f[1:-3].isdigit())
    bad = 0
    for name in args or ALL:
        shutil.rmtree(SCR, ignore_errors=True)
        os.makedirs(SCR)
        subprocess.run(["cp", "-a", "/repo/nonlinear_avoidance", SCR], check=True)
        for d, _, fs in os.walk(SCR):
            for f in fs:
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    t = ast.parse(open(p).read())
                    t = ast.fix_missing_locations(ALL[name]().visit(t))
                    s = ast.unparse(t)
                    compile(s, p, "exec")
                    open(p, "w").write(s)
        ps = [(c, subprocess.Popen([sys.executable, "-W", "ignore", V + "/check.py", c, "--repo", SCR], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in props]
        for c, q in ps:
            out = q.communicate()[0]
            if q.returncode:
                bad += 1
                print(name, c, q.returncode, "\n    ".join([l for l in out.splitlines() if not l.startswith("KNOWN")][:9]))
    print("not quiet:", bad)
    if "-k" not in sys.argv:
        shutil.rmtree(SCR, ignore_errors=True)
main()
