"""C17: results can be reproduced.

Nothing that differs from run to run (random numbers, clocks, addresses, the order of a set, undefined memory), no
module-level state and no order in which nodes were added enters a result.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..index import Func, Program, walk_own
from ..report import Result
from ..scope import core_funcs, is_legacy

RANDOM = ("random.", "numpy.random.", "secrets.", "uuid.", "scipy.stats.")
SEEDED = {"random.Random", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator",
          "numpy.random.SeedSequence"}
CLOCK = {"time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.time_ns", "time.perf_counter_ns",
         "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today"}
PROCESS = {"os.getpid", "os.urandom", "os.getenv", "os.getcwd", "os.environ.get", "platform.node", "os.listdir", "glob.glob",
           "concurrent.futures.as_completed", "threading.get_ident", "os.cpu_count", "socket.gethostname"}
SETTERS = {"numpy.random.seed", "random.seed", "numpy.seterr", "numpy.set_printoptions", "os.chdir", "os.putenv",
           "sys.setrecursionlimit", "numpy.random.set_state", "random.setstate", "locale.setlocale"}
MUT = {"append", "extend", "insert", "add", "update", "setdefault", "pop", "popitem", "clear", "remove", "discard", "appendleft"}
CALM = {"sorted", "len", "min", "max", "any", "all", "set", "frozenset", "bool", "isinstance", "sum", "print", "repr", "str"}
DRAW = ("plot", "draw", "animate", "visualize", "_plot", "_draw", "print", "_print", "save", "show")


def considered(p: Program):
    for f in core_funcs(p):
        g = f
        while g.parent is not None:
            g = g.parent
        if is_legacy(f.module) or g.name.startswith(DRAW) or g.name.startswith(("test_", "main", "example")):
            continue
        yield f


def parents(f: Func):
    out = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


# --- sets ----------------------------------------------------------------------------------------------
class Sets:
    """which expressions are sets"""

    def __init__(self, p, calls):
        self.p, self.calls = p, calls
        self.attrs, self.funcs = {}, {}
        for c in p.classes.values():
            for a, sites in c.instance_attrs.items():
                for g, v in sites:
                    if isinstance(v, ast.expr) and self.plain(v):
                        self.attrs.setdefault(c.key, set()).add(a)
        for _ in range(3):
            for f in p.iter_funcs():
                if not self.funcs.get(f.uid) and any(
                        isinstance(n, ast.Return) and n.value is not None and self.is_set(n.value, f) for n in walk_own(f.node)):
                    self.funcs[f.uid] = True

    @staticmethod
    def plain(e):
        return isinstance(e, (ast.Set, ast.SetComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id in ("set", "frozenset")

    def is_set(self, e, f: Func, depth=0):
        if self.plain(e):
            return True
        if depth > 5:
            return False
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self.is_set(e.left, f, depth + 1) or isinstance(e.op, ast.BitOr) and self.is_set(e.right, f, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.is_set(e.body, f, depth + 1) or self.is_set(e.orelse, f, depth + 1)
        if isinstance(e, ast.NamedExpr):
            return self.is_set(e.value, f, depth + 1)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ("union", "intersection", "difference",
                                                                      "symmetric_difference", "copy"):
                return self.is_set(e.func.value, f, depth + 1)
            if isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "iter", "list", "tuple"):
                return False
            return any(t.func is not None and self.funcs.get(t.func.uid) for t in self.calls.targets(e, f, f.module))
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                vs = [s.value for s in walk_own(g.node) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None
                      and any(isinstance(t, ast.Name) and t.id == e.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]
                if vs:
                    return any(v is not e and self.is_set(v, g, depth + 1) for v in vs)
                if e.id in g.pos + g.kwonly:
                    return False
                g = g.parent
            return False
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            g = f
            while g is not None and g.cls is None:
                g = g.parent
            if g is not None and e.value.id == g.self_name:
                return any(e.attr in self.attrs.get(k.key, ()) for k in self.p.mro(g.cls))
        return False


def calm_use(e, par, f, depth=0):
    """the order in which e yields its elements does not matter"""
    n = par.get(e)
    if isinstance(n, ast.Call):
        if e in n.args or any(k.value is e for k in n.keywords):
            if isinstance(n.func, ast.Name) and n.func.id in CALM:
                return True
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "enumerate", "iter", "zip", "map", "filter"):
                return n.func.id in ("list", "tuple", "iter", "filter") and calm_use(n, par, f, depth + 1)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("union", "intersection", "difference", "issubset",
                                                                      "issuperset", "update", "isdisjoint", "symmetric_difference"):
                return True
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("array", "asarray", "fromiter", "join", "extend", "stack",
                                                                      "hstack", "vstack", "concatenate", "deque"):
                return False
            return True                       # handed on as a whole
        return True
    if isinstance(n, ast.Compare) or isinstance(n, ast.BinOp) or isinstance(n, (ast.If, ast.While, ast.BoolOp, ast.UnaryOp)):
        return True
    if isinstance(n, ast.Attribute):
        return n.attr != "pop" or not (isinstance(par.get(n), ast.Call) and not par[n].args)
    if isinstance(n, ast.comprehension):
        c = par[n]
        if isinstance(c, (ast.SetComp, ast.DictComp)):
            return isinstance(c, ast.SetComp)
        return calm_use(c, par, f, depth + 1)
    if isinstance(n, (ast.For, ast.AsyncFor)):
        return all(calm_stmt(s) for s in n.body)
    if isinstance(n, ast.Starred):
        return isinstance(par.get(n), ast.Set)
    if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(e, (ast.ListComp, ast.Call)) and depth:
        # a list of the elements of a set under a name of its own
        t = n.targets[0] if isinstance(n, ast.Assign) else n.target
        if not isinstance(t, ast.Name):
            return False
        uses = [m for m in walk_own(f.node) if isinstance(m, ast.Name) and m.id == t.id and isinstance(m.ctx, ast.Load)]
        if any(isinstance(par.get(u), ast.Attribute) and par[u].attr == "sort" for u in uses):
            return True
        return bool(uses) and depth < 4 and all(calm_use(u, par, f, depth + 1) for u in uses
                                                if not isinstance(par.get(u), (ast.Return, ast.Subscript))) and \
            not any(isinstance(par.get(u), (ast.Return, ast.Subscript)) for u in uses)
    if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
        return True
    return depth == 0                          # stored, returned as a set


def calm_stmt(s):
    if isinstance(s, (ast.Raise, ast.Assert, ast.Pass, ast.Continue)):
        return True
    if isinstance(s, ast.If):
        return all(calm_stmt(x) for x in s.body + s.orelse)
    if isinstance(s, ast.Expr):
        v = s.value
        return isinstance(v, ast.Constant) or isinstance(v, ast.Call) and (
            isinstance(v.func, ast.Attribute) and v.func.attr in ("add", "discard") or
            isinstance(v.func, ast.Name) and v.func.id == "print")
    if isinstance(s, ast.Return):
        return isinstance(s.value, ast.Constant)
    if isinstance(s, ast.Assign):
        return isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets)
    if isinstance(s, ast.AugAssign):
        return isinstance(s.value, ast.Constant) and isinstance(s.op, ast.Add)
    return False


def set_order(p, calls, res):
    sets = Sets(p, calls)
    for f in considered(p):
        par = None
        for n in walk_own(f.node):
            if not isinstance(n, ast.expr) or isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del)):
                continue
            if not isinstance(n, (ast.Set, ast.SetComp, ast.Call, ast.BinOp, ast.Name, ast.Attribute)):
                continue
            if not sets.is_set(n, f):
                continue
            par = par or parents(f)
            res.count("uses of a set")
            res.oblige(f"{f.qual}: use of a set")
            if not calm_use(n, par, f):
                res.add("set-order", f"{f.qual}", f"{f.module.path}:{n.lineno}",
                        "the elements of a set are used in the order of their hash values; sort them first")


# --- sources that differ from run to run ------------------------------------------------------------------
def sources(p, calls, res):
    for f in considered(p):
        for n in walk_own(f.node):
            if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in n.ops):
                for x in [n.left] + n.comparators:
                    if isinstance(x, ast.Constant) and isinstance(x.value, (int, float, str, bytes)) and not isinstance(x.value, bool) \
                            or isinstance(x, (ast.Tuple, ast.List, ast.Dict, ast.Set)) or \
                            isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant):
                        res.add("identity-of-a-value", f.qual, f"{f.module.path}:{n.lineno}",
                                f"'{ast.unparse(n)}' compares the identity of a value, which depends on the interpreter")
            if isinstance(n, ast.Subscript) and ast.unparse(n.value) == "os.environ":
                res.add("differs-between-runs", f"{f.qual}:os.environ", f"{f.module.path}:{n.lineno}", "the environment enters the result")
            if not isinstance(n, ast.Call):
                continue
            res.count("calls")
            exts = {t.ext for t in calls.targets(n, f, f.module) if t.ext}
            for x in sorted(exts):
                x = x[len("builtins."):] if x.startswith("builtins.") else x
                if x in SETTERS or x.startswith("warnings.") and x.endswith(("filterwarnings", "simplefilter", "resetwarnings")) and \
                        not in_catch(f, n):
                    res.add("module-state", f"{f.qual}:{x}", f"{f.module.path}:{n.lineno}",
                            f"{x} changes the settings of the whole process")
                    continue
                if x in SEEDED and (n.args or n.keywords) and not any(isinstance(a, ast.Constant) and a.value is None for a in n.args):
                    continue
                why = None
                if x.startswith(RANDOM) and (x in SEEDED or x.split(".")[-1] not in ("norm", "multivariate_normal", "chi2", "Generator")
                                             or x.endswith(".rvs")):
                    if not x.startswith("scipy.stats.") or x.endswith(".rvs"):
                        why = "random numbers enter"
                elif x in CLOCK:
                    why = "the clock enters"
                elif x in PROCESS:
                    why = "the process or machine enters"
                elif x in ("id", "hash") and isinstance(n.func, ast.Name):
                    why = "addresses or hash values enter"
                elif x.startswith("?.") and x[2:] in ("rvs",):
                    why = "random numbers enter"
                if why:
                    res.add("differs-between-runs", f"{f.qual}:{x}", f"{f.module.path}:{n.lineno}", f"{why} ({x}); two runs differ")


def in_catch(f, n):
    for w in walk_own(f.node):
        if isinstance(w, ast.With) and any("catch_warnings" in ast.unparse(i.context_expr) for i in w.items):
            if any(x is n for x in ast.walk(w)):
                return True
    return False


# --- module-level state ------------------------------------------------------------------------------------
def module_state(p, calls, res):
    for f in considered(p):
        for d in f.decorators:
            if d.split(".")[-1] in ("lru_cache", "cache"):
                res.add("module-state", f"{f.qual}:{d}", f.where, f"@{d} keeps answers (and their arrays) for the whole process")
        declared = {x for n in walk_own(f.node) if isinstance(n, (ast.Global,)) for x in n.names}
        own = set(f.pos + f.kwonly) | {f.vararg, f.kwarg}
        g = f
        while g is not None:
            own |= set(g.pos + g.kwonly)
            own |= {n.id for n in ast.walk(g.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            own |= {h.name for h in ast.walk(g.node) if isinstance(h, ast.ExceptHandler) and h.name}
            g = g.parent
        own -= declared

        def outside(e):
            """module-level name an expression is reached from"""
            while isinstance(e, (ast.Subscript, ast.Attribute)):
                e = e.value
            if isinstance(e, ast.Name) and e.id not in own:
                ent = p.resolve_name(f.module, e.id)
                return e.id if ent is not None else None
            return None
        for n in walk_own(f.node):
            hit = None
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in declared:
                hit = n.id
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                hit = outside(n)
                if hit is None and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                    if f.is_classmethod and f.pos and n.value.id == f.pos[0]:
                        hit = f"{f.cls.name}.{n.attr}"
                if hit is None and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and \
                        ast.unparse(n.value.func) == "type":
                    hit = ast.unparse(n)
                if hit is None and isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == "__class__":
                    hit = ast.unparse(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                e = n.func.value
                name = outside(e)
                if name is not None and is_container(p, f.module, e):
                    hit = name
            if hit:
                res.add("module-state", f"{f.qual}:{hit}", f"{f.module.path}:{n.lineno}",
                        f"'{hit}' belongs to the module or class and is changed by a call; later calls see it")
        res.count("functions")


def is_container(p, module, e):
    """a list / dict / set display or constructor bound at module or class level"""
    root = e
    while isinstance(root, (ast.Subscript, ast.Attribute)):
        root = root.value
    ent = p.resolve_name(module, root.id)
    if ent is None:
        return False
    if ent[0] in ("mod", "module", "ext", "external"):
        # sys.path and the like
        return isinstance(e, ast.Attribute) and ast.unparse(e) in ("sys.path", "os.environ", "plt.rcParams", "matplotlib.rcParams")
    return True


# --- undefined memory ----------------------------------------------------------------------------------------
def dims_of(call, f):
    name = ast.unparse(call.func).split(".")[-1]
    if not call.args and not call.keywords:
        return None
    sh = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "shape"), None)
    if sh is None:
        return None
    if name == "empty_like":
        b = ast.unparse(sh)
        return [{f"{b}.shape[{i}]"} | ({f"len({b})"} if i == 0 else set()) for i in range(8)]
    if isinstance(sh, (ast.Tuple, ast.List)):
        return [{ast.unparse(x)} for x in sh.elts]
    s = ast.unparse(sh)
    if s.endswith(".shape"):
        b = s[:-len(".shape")]
        return [{f"{b}.shape[{i}]"} | ({f"len({b})"} if i == 0 else set()) for i in range(8)]
    return [{s}]


def covers(s, x, dims, bound):
    """the statement certainly writes every entry of x"""
    if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
            if ast.unparse(t) == x:
                return not any(ast.unparse(q) == x for q in ast.walk(s.value) if isinstance(q, ast.expr))
            if isinstance(t, ast.Subscript) and ast.unparse(t.value) == x:
                ix = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                ok = True
                for i, e in enumerate(ix):
                    if isinstance(e, ast.Slice) and e.lower is None and e.upper is None and e.step is None:
                        continue
                    if isinstance(e, ast.Constant) and e.value is Ellipsis:
                        continue
                    j = i - len(ix) if any(isinstance(q, ast.Constant) and q.value is Ellipsis for q in ix[:i]) else i
                    if isinstance(e, ast.Name) and e.id in bound and -len(dims) <= j < len(dims) and bound[e.id] & dims[j]:
                        continue
                    ok = False
                if ok:
                    return True
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        fn = ast.unparse(s.value.func)
        if fn == f"{x}.fill" or fn.endswith(".copyto") and s.value.args and ast.unparse(s.value.args[0]) == x:
            return True
    if isinstance(s, ast.If) and s.orelse:
        return any(covers(q, x, dims, bound) for q in s.body) and any(covers(q, x, dims, bound) for q in s.orelse)
    if isinstance(s, ast.For):
        b = dict(bound)
        it = s.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "range" and len(it.args) == 1 and isinstance(s.target, ast.Name):
                b[s.target.id] = {ast.unparse(it.args[0])}
            if it.func.id == "enumerate" and len(it.args) == 1 and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
                y = ast.unparse(it.args[0])
                b[s.target.elts[0].id] = {f"len({y})", f"{y}.shape[0]"}
        for q in s.body:
            if covers(q, x, dims, b):
                return True
            if any(isinstance(w, (ast.Continue, ast.Break)) for w in ast.walk(q)):
                return False
    if isinstance(s, ast.With):
        return any(covers(q, x, dims, bound) for q in s.body)
    return False


def reads(s, x):
    """the statement uses x other than to store into it"""
    stored = {id(q.value) for q in ast.walk(s) if isinstance(q, ast.Subscript) and isinstance(q.ctx, ast.Store)}
    if any(isinstance(q, ast.AugAssign) and ast.unparse(q.target).startswith(x) for q in ast.walk(s)):
        return True
    return any(isinstance(q, (ast.Name, ast.Attribute)) and isinstance(q.ctx, ast.Load) and id(q) not in stored
               and ast.unparse(q) == x for q in ast.walk(s))


def undefined(p, calls, res):
    for f in considered(p):
        par = None
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            exts = {t.ext for t in calls.targets(n, f, f.module) if t.ext}
            if not exts & {"numpy.empty", "numpy.empty_like", "numpy.ndarray"}:
                continue
            res.count("arrays of undefined memory")
            res.oblige(f"{f.qual}: array of undefined memory")
            par = par or parents(f)
            dims = dims_of(n, f)
            if dims is not None and any("0" in d for d in dims):
                continue
            st, m = par.get(n), n
            ok = False
            if isinstance(st, (ast.Assign, ast.AnnAssign)):
                t = st.targets[0] if isinstance(st, ast.Assign) else st.target
                x = ast.unparse(t)
                block = next((b for b in (getattr(par[st], k, None) for k in ("body", "orelse", "finalbody"))
                              if isinstance(b, list) and st in b), [])
                for s in block[block.index(st) + 1:] if st in block else []:
                    if dims is not None and covers(s, x, dims, {}):
                        ok = True
                        break
                    if reads(s, x):
                        break
            if not ok:
                res.add("undefined-entries", f.qual, f"{f.module.path}:{n.lineno}",
                        "entries of an array made without values are not certainly written before the array is used")


# --- order of the nodes -------------------------------------------------------------------------------------
FLIP = {"asc": "desc", "desc": "asc"}
NEXT = {"successors": "down", "predecessors": "up", "get_children": "down", "get_parent": "up", "adj": "down", "neighbors": "down"}


class Order:
    def __init__(self, p, calls):
        self.p, self.calls = p, calls
        self.callers = {}
        for f in p.iter_funcs():
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    for t in calls.targets(n, f, f.module):
                        if t.func is not None:
                            self.callers.setdefault(t.func.uid, []).append((f, n))

    def join(self, xs):
        xs = set(xs) - {None}
        if "none" in xs:
            return "none"
        if not xs or "unknown" in xs or len(xs) > 1:
            return "unknown"
        return xs.pop()

    def of(self, e, f, depth=0):
        if depth > 8:
            return "unknown"
        d = depth + 1
        if isinstance(e, ast.Constant) and e.value is None:
            return None
        if isinstance(e, ast.Attribute):
            if e.attr == "nodes" or e.attr in ("_graph", "graph") and depth == 0:
                return "none"
            return "unknown"
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                o = self.of(e.value, f, d)
                step = e.slice.step
                if isinstance(step, ast.UnaryOp) and isinstance(step.op, ast.USub):
                    return FLIP.get(o, o)
                return o
            return "unknown"
        if isinstance(e, ast.IfExp):
            return self.join([self.of(e.body, f, d), self.of(e.orelse, f, d)])
        if isinstance(e, ast.BoolOp):
            return self.join([self.of(v, f, d) for v in e.values])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            g = e.generators[0]
            return self.of(g.iter, f, d)
        if isinstance(e, ast.Call):
            name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
            if name == "reversed" and e.args:
                o = self.of(e.args[0], f, d)
                return FLIP.get(o, o)
            if name == "sorted" and e.args:
                key = next((ast.unparse(k.value) for k in e.keywords if k.arg == "key"), None)
                rev = next((ast.unparse(k.value) for k in e.keywords if k.arg == "reverse"), "False")
                if key is not None and "level" in key:
                    return "desc" if rev == "True" or "-" in key else "asc"
                return "none" if key is None else "unknown"
            if name == "argsort" and (e.args or isinstance(e.func, ast.Attribute)):
                a = e.args[0] if e.args else e.func.value
                return "desc" if isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.USub) else "asc"
            if name in ("list", "tuple", "iter") and e.args:
                return self.of(e.args[0], f, depth if isinstance(e.args[0], ast.Attribute) else d)
            if name in ("nodes", "keys") and isinstance(e.func, ast.Attribute):
                return "none" if name == "nodes" else self.of(e.func.value, f, d)
            if name in ("topological_sort", "bfs_tree", "lexicographical_topological_sort"):
                return "asc"
            fs = [t.func for t in self.calls.targets(e, f, f.module) if t.func is not None]
            if fs:
                return self.join([self.of(r.value, g, d) for g in fs for r in walk_own(g.node)
                                  if isinstance(r, ast.Return) and r.value is not None])
            return "unknown"
        if isinstance(e, ast.Name):
            vs = [s.value for s in walk_own(f.node) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and s.value is not None
                  and any(isinstance(t, ast.Name) and t.id == e.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]
            out = [self.of(v, f, d) for v in vs]
            muts = [n.func.attr for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id]
            if "reverse" in muts or "sort" in muts:
                return "unknown"
            if e.id in f.pos + f.kwonly:
                for g, c in self.callers.get(f.uid, []):
                    a = arg_of(c, f, e.id)
                    if a is None:
                        a = f.defaults.get(e.id)
                    if a is not None and not (g is f and isinstance(a, ast.Name) and a.id == e.id):
                        out.append(self.of(a, g, d))
            return self.join(out)
        return "unknown"


def arg_of(call, f, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    pos = f.params if f.has_self else f.pos
    if name in pos and pos.index(name) < len(call.args):
        return call.args[pos.index(name)]
    return None


def node_order(p, calls, res):
    order = Order(p, calls)
    for f in considered(p):
        for loop in walk_own(f.node):
            if not isinstance(loop, ast.For) or not isinstance(loop.target, ast.Name):
                continue
            n = loop.target.id
            rel = {}                       # name -> how it is reached from n
            alias = {}                     # name -> node name whose fields it holds
            for q in ast.walk(loop):
                it, tgt = None, None
                if isinstance(q, (ast.For, ast.comprehension)) and q is not loop:
                    it, tgt = q.iter, q.target
                elif isinstance(q, (ast.Assign, ast.NamedExpr)):
                    it, tgt = q.value, q.targets[0] if isinstance(q, ast.Assign) else q.target
                if it is None or not isinstance(tgt, ast.Name):
                    continue
                for c in ast.walk(it):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in NEXT and c.args and \
                            isinstance(c.args[0], ast.Name) and c.args[0].id == n:
                        rel[tgt.id] = NEXT[c.func.attr]
                if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Name) and is_nodes(it.value):
                    alias[tgt.id] = it.slice.id
            if not rel:
                continue
            reads, writes = {}, {}
            for q in ast.walk(loop):
                if isinstance(q, ast.Subscript) and isinstance(q.slice, ast.Constant) and isinstance(q.slice.value, str):
                    who = None
                    v = q.value
                    if isinstance(v, ast.Subscript) and is_nodes(v.value):
                        if isinstance(v.slice, ast.Name):
                            who = v.slice.id
                        else:
                            for c in ast.walk(v.slice):
                                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in NEXT:
                                    who = "." + NEXT[c.func.attr]
                                    rel.setdefault(who, NEXT[c.func.attr])
                    elif isinstance(v, ast.Name) and v.id in alias:
                        who = alias[v.id]
                    if who is None:
                        continue
                    if isinstance(q.ctx, ast.Load):
                        reads.setdefault(q.slice.value, set()).add(who)
                    else:
                        writes.setdefault(q.slice.value, set()).add(who)
            for k in sorted(set(reads) & set(writes)):
                for w in sorted(writes[k]):
                    for r in sorted(reads[k]):
                        if w == r or n not in (w, r):
                            continue
                        other = w if r == n else r
                        if other not in rel:
                            continue
                        # information flows from r to w
                        flow = rel[other] if w == other else {"down": "up", "up": "down"}[rel[other]]
                        need = "asc" if flow == "down" else "desc"
                        have = order.of(loop.iter, f)
                        res.count("walks that hand values along the edges")
                        res.oblige(f"{f.qual}: '{k}' handed {flow} the tree, nodes {have}")
                        if have != "unknown" and have != need:
                            res.add("node-order", f"{f.qual}:{k}", f"{f.module.path}:{loop.lineno}",
                                    f"'{k}' is handed {flow} the tree, the nodes are walked "
                                    + ("in the order in which they were added" if have == "none" else "in the opposite order"))


def is_nodes(e):
    return isinstance(e, ast.Attribute) and e.attr == "nodes"


def run(p: Program, tier: str) -> Result:
    res = Result("Query over the syntax tree with resolved calls: sources that differ from run to run, uses of sets whose order "
                 "matters, module-level state, arrays of undefined memory, and walks over a tree that hand values along its edges.")
    res.rules = ["no random numbers, clock, process data, addresses or identity of values",
                 "the order of a set does not enter", "module- and class-level state and process-wide settings are not changed",
                 "every entry of an array made without values is written first",
                 "values handed down a tree: parents first; handed up: children first; not in the order of addition"]
    res.assumptions = ["Learners of external libraries may draw random numbers while fitting (scikit-learn k-means without random_state).",
                       "Drawing functions and the legacy learner package are not considered."]
    calls = Calls(p)
    sources(p, calls, res)
    set_order(p, calls, res)
    module_state(p, calls, res)
    undefined(p, calls, res)
    node_order(p, calls, res)
    res.obligations += res.counts.get("calls", 0)
    res.floor("functions", 250)
    res.floor("calls", 1500)
    return res
