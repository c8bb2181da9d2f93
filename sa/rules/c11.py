"""C11: every operation the library performs is defined.

For every function of the package: each name read resolves in its lexical scope and is bound on
every path that reaches the read; each attribute read on an object whose class is known exists on
that class; each call of a library function or constructor binds to its signature; no two arguments
are handed over crosswise.
"""
from __future__ import annotations

import ast
import re

from ..calls import Calls
from ..flow import Flow
from ..index import BUILTINS, Class, Func, Program, walk_own
from ..report import Result
from ..scope import is_legacy

UNB, BND = "unbound", "bound"

# Attributes that classes of this repository inherit from the two packages that are not
# installed here (confirmed by reading each use; one line of reason per base).
EXTERNAL_ATTRS = {
    # vartools.dynamical_systems.DynamicalSystem: pose-carrying attractor dynamics
    "DynamicalSystem": {
        "attractor_position", "maximum_velocity", "dimension", "pose", "evaluate", "limit_velocity",
        "center_position", "motion_integration", "position_to_global_frame", "velocity_to_global_frame",
        "position_to_local_frame", "null_position", "check_convergence", "is_valid", "compute_dynamics",
        "_limit_velocity", "get_constant_magnitude", "distance_decrease",
    },
    "LinearSystem": None,
    # dynamic_obstacle_avoidance.obstacles.Obstacle and its shapes
    "Obstacle": None,
    "Ellipse": None,
    "EllipseWithAxes": None,
    "CuboidXd": None,
    "Cuboid": None,
    "Sphere": None,
    # dynamic_obstacle_avoidance.containers.*: list-like, keeps _obstacle_list
    "BaseContainer": None,
    "ObstacleContainer": None,
    "GradientContainer": None,
    "RotationalContainer": None,
    "BaseAvoider": {
        "initial_dynamics", "obstacle_environment", "avoid", "evaluate", "convergence_dynamics",
    },
    "Avoider": None,
}


def scope_names(f: Func) -> set[str]:
    out = set(f.args_nodes)
    for x in (f.vararg, f.kwarg):
        if x:
            out.add(x)
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


class Assigned(Flow):
    """State: local name -> frozenset of {unbound, bound}. Correlated tests on the same pure
    condition are tracked by remembering, per condition text, which side was taken."""

    def __init__(self, locals_, report, noreturn):
        super().__init__()
        self.locals, self.report, self.noreturn = locals_, report, noreturn
        self.comp = []

    def copy(self, s):
        return dict(s)

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            out[k] = a.get(k, frozenset([UNB])) | b.get(k, frozenset([UNB]))
        return out

    def loop_runs_at_least_once(self, node, s):
        # A zero-iteration loop leaves the names of its body unbound; that is a property of the
        # data (non-empty container), not of the code's shape, so it is not an obligation here.
        return True

    def read(self, n, s):
        if n.id in self.locals and not any(n.id in c for c in self.comp):
            st = s.get(n.id, frozenset([UNB]))
            if st == frozenset([UNB]):
                self.report(n, "definite")
            elif UNB in st:
                self.report(n, "maybe")

    def expr(self, e, s):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.read(e, s)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, s)
            s[e.target.id] = frozenset([BND])
            return
        if isinstance(e, (ast.Lambda,)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            bound = set()
            self.expr(e.generators[0].iter, s)
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        bound.add(n.id)
            self.comp.append(bound)
            for i, g in enumerate(e.generators):
                if i:
                    self.expr(g.iter, s)
                for c in g.ifs:
                    self.expr(c, s)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, s)
                self.expr(e.value, s)
            else:
                self.expr(e.elt, s)
            self.comp.pop()
            return
        if isinstance(e, ast.BoolOp):
            cur = s
            for i, v in enumerate(e.values):
                if i == 0:
                    self.expr(v, cur)
                else:
                    tmp = dict(cur)
                    self.expr(v, tmp)
                    for k, val in tmp.items():
                        cur[k] = cur.get(k, frozenset([UNB])) | val
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, s)
            a, b = dict(s), dict(s)
            self.expr(e.body, a)
            self.expr(e.orelse, b)
            s.update(self.join(a, b))
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, s)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, s)
            elif isinstance(c, ast.Slice):
                self.expr(c, s)

    def assign(self, target, value, s, node):
        if isinstance(target, ast.Name):
            s[target.id] = frozenset([BND])
        elif isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.assign(t, None, s, node)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, None, s, node)
        else:
            self.expr(target, s)

    def augassign(self, node, s):
        self.expr(node.value, s)
        t = node.target
        if isinstance(t, ast.Name):
            self.read(t, s)
            s[t.id] = frozenset([BND])
        else:
            self.expr(t, s)

    def delete(self, target, s, node):
        if isinstance(target, ast.Name):
            s[target.id] = frozenset([UNB])
        else:
            self.expr(target, s)

    def define(self, node, s):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            s[node.name] = frozenset([BND])
        else:
            for al in node.names:
                s[al.asname or al.name.split(".")[0]] = frozenset([BND])

    def handler_bind(self, h, s):
        if h.name:
            s[h.name] = frozenset([BND])

    def stmt(self, st, s):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            if ast.unparse(st.value.func) in self.noreturn:
                self.expr(st.value, s)
                return None
        return super().stmt(st, s)


def correlated(name_node, f: Func) -> bool:
    """The read sits under a condition that some binding of the name also sits under (same text),
    the usual 'if flag: x = ...  ...  if flag: use(x)' idiom."""
    def conds(n):
        out = set()
        while n is not None and n is not f.node:
            par = getattr(n, "_parent", None)
            if isinstance(par, (ast.If, ast.While)) and n is not par.test:
                neg = n in par.orelse
                t = par.test
                parts = t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and not neg else [t]
                for x in parts:
                    out.add((neg, ast.dump(x)))
                    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                        out.add((not neg, ast.dump(x.operand)))
            elif isinstance(par, ast.IfExp) and n is not par.test:
                out.add((n is par.orelse, ast.dump(par.test)))
            n = par
        return out

    uc = conds(name_node)
    if not uc:
        return False
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and n.id == name_node.id and isinstance(n.ctx, ast.Store):
            if conds(n) & uc:
                return True
    return False


def bind_error(g: Func, call: ast.Call, bound: bool) -> str | None:
    """None when the call binds to g's signature (or cannot be decided because of * / **)."""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = list(g.pos)
    if (g.has_self or g.is_classmethod) and bound:
        pos = pos[1:]
    n = len(call.args)
    if n > len(pos) and not g.vararg:
        return f"takes {len(pos)} positional arguments, {n} given"
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg in given:
            return f"multiple values for argument '{k.arg}'"
        if k.arg not in pos + g.kwonly:
            if not g.kwarg:
                return f"unexpected keyword argument '{k.arg}'"
        given.add(k.arg)
    missing = [x for x in pos + g.kwonly if x not in given and x not in g.defaults]
    if missing:
        return "missing argument " + ", ".join(f"'{m}'" for m in missing)
    return None


def bind_class(p: Program, c: Class, call: ast.Call) -> str | None:
    init = p.init_func(c)
    if init is not None:
        return bind_error(init, call, True)
    if any(k.is_dataclass for k in p.mro(c)):
        if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
            return None
        fields = p.dataclass_fields(c)
        names = [n for n, _ in fields]
        if p.external_bases(c):
            return None
        if len(call.args) > len(names):
            return f"takes {len(names)} positional arguments, {len(call.args)} given"
        given = set(names[: len(call.args)])
        for k in call.keywords:
            if k.arg not in names:
                return f"unexpected keyword argument '{k.arg}'"
            if k.arg in given:
                return f"multiple values for argument '{k.arg}'"
            given.add(k.arg)
        miss = [n for n, d in fields if n not in given and not d]
        if miss:
            return "missing argument " + ", ".join(miss)
        return None
    if not p.external_bases(c) and (call.args or call.keywords):
        return "takes no arguments"
    return None


STOP = {"the", "of", "to", "in", "vector", "dir", "direction", "vec", "value", "list", "array", "idx", "id", "ii"}


def tokens(name: str) -> frozenset:
    return frozenset(t for t in re.split(r"[_\d]+", name.lower()) if len(t) > 2 and t not in STOP)


def arg_name(e: ast.expr) -> str | None:
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def crossed(g: Func, call: ast.Call, bound: bool):
    """Two positional/keyword arguments whose names point at each other's parameter."""
    pos = list(g.pos)
    if (g.has_self or g.is_classmethod) and bound:
        pos = pos[1:]
    pairs = []
    for p_, a in zip(pos, call.args):
        if isinstance(a, ast.Starred):
            return None
        pairs.append((p_, arg_name(a)))
    by_place = {p_ for p_, _ in pairs}
    for k in call.keywords:
        if k.arg:
            pairs.append((k.arg, arg_name(k.value)))
    named = {p_: a for p_, a in pairs}
    for p_, a in pairs:
        # the value called like another parameter, which gets something else
        if a and a != p_ and a in named and named[a] != a and len(a) > 2 and (p_ in by_place or named[a] == p_):
            return f"'{a}' is passed for '{p_}' and something else for '{a}'"
    pairs = [(p_, a, tokens(p_), tokens(a)) for p_, a in pairs if a]
    for i in range(len(pairs)):
        for j in range(i + 1, len(pairs)):
            pi, ai, tpi, tai = pairs[i]
            pj, aj, tpj, taj = pairs[j]
            if not (tai & tpj) or not (taj & tpi):
                continue
            if (tai & tpi) or (taj & tpj):
                continue
            return f"'{ai}' is passed for '{pi}' and '{aj}' for '{pj}'"
    return None


def run(prog: Program, tier: str) -> Result:
    calls = Calls(prog)
    types = calls.t
    res = Result(
        "For every function of the package the checker resolves each name read (lexical scopes, "
        "module globals, imports), proves by a forward definite-assignment analysis that each local "
        "is bound on every path to its reads, resolves each attribute read on a receiver whose class "
        "is inferred, binds each call of a library function/constructor to the callee's signature, and "
        "rejects argument pairs handed over crosswise."
    )
    res.rules = ["undefined-name", "unbound-local", "missing-attribute", "call-does-not-bind",
                 "crossed-arguments", "missing-import"]
    res.assumptions = [
        "attributes inherited from vartools / dynamic_obstacle_avoidance classes exist as listed in the checker",
        "loops over containers run at least once (an empty container is not an obligation of this rule)",
    ]

    for m in prog.modules.values():
        res.count("modules")
        for name, ent in m.names.items():
            if ent[0] == "importfrom":
                r = prog.resolve_name(m, name)
                res.oblige()
                res.count("imports")
                if r is not None and r[0] == "missing":
                    res.add("missing-import", f"{m.name}:{name}", m.path,
                            f"'{r[1]}' does not exist in the package")

    for f in prog.iter_funcs():
        res.count("functions")
        check_names(prog, f, res)
        check_attrs(prog, types, f, res)
        check_calls(prog, calls, f, res)
    res.floor("functions", 500)
    res.floor("names", 9000)
    res.floor("attributes", 900)
    res.floor("calls", 450)
    return res


def check_names(prog: Program, f: Func, res: Result):
    m = f.module
    own = scope_names(f)
    glob = set()
    for n in walk_own(f.node):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    enclosing = set()
    g = f.parent
    while g is not None:
        enclosing |= scope_names(g)
        g = g.parent
    comp_bound = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.comprehension):
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    comp_bound.add(t.id)
    lam = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.Lambda):
            for a in n.args.args + n.args.kwonlyargs:
                lam.add(a.arg)

    def resolvable(name):
        return (
            name in own or name in enclosing or name in BUILTINS or name in lam or name in comp_bound
            or prog.resolve_name(m, name) is not None or name in m.names
        )

    anns = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.AnnAssign):
            anns |= {id(x) for x in ast.walk(n.annotation)}
    seen = set()

    def names_in(node):
        yield from walk_own(node)
        for d in list(f.defaults.values()):
            yield from ast.walk(d)

    for n in names_in(f.node):
        if isinstance(n, ast.Lambda):
            sub = ast.walk(n.body)
        else:
            sub = [n]
        for x in sub:
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in anns:
                res.oblige()
                res.count("names")
                if not resolvable(x.id) and x.id not in seen:
                    seen.add(x.id)
                    res.add("undefined-name", f"{owner(f)}:{x.id}", f"{m.path}:{x.lineno}",
                            f"name '{x.id}' is defined nowhere in the scope of {f.qual}")
    # definite assignment ------------------------------------------------
    params = set(f.args_nodes) | {x for x in (f.vararg, f.kwarg) if x}
    locals_ = {
        x for x in own if x not in glob
    }
    # a name bound only as a comprehension variable is not a function local
    bound_here = set(params)
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            q = n
            in_comp = False
            while q is not None and q is not f.node:
                if isinstance(q, ast.comprehension):
                    in_comp = True
                    break
                q = getattr(q, "_parent", None)
            if not in_comp:
                bound_here.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bound_here.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                bound_here.add(al.asname or al.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound_here.add(n.name)
    locals_ &= bound_here

    hits: dict[str, tuple] = {}

    def report(n, kind):
        if kind == "maybe" and correlated(n, f):
            return
        hits.setdefault(n.id, (n, kind))

    fl = Assigned(locals_, report, {"sys.exit", "exit", "quit"})
    fl.run(f.node, {p: frozenset([BND]) for p in params})
    for name, (n, kind) in hits.items():
        if kind != "definite" and is_legacy(f.module):
            continue  # scikit-learn style code binds under data-dependent tests of its loops
        # (named by the function and the number of such locals: renaming a local is no new finding)
        res.add("unbound-local", f"{owner(f)}:{f.qual}:{len(hits)} local(s)", f"{m.path}:{n.lineno}",
                f"local '{name}' of {f.qual} is {'never' if kind == 'definite' else 'not on every path'} bound before this read")


def ext_attr_known(prog, c: Class, attr: str) -> bool:
    for b in prog.external_bases(c):
        last = b.split(".")[-1]
        known = EXTERNAL_ATTRS.get(last, None)
        if known is None:
            return True
        if attr in known:
            return True
    return False


OBJ_ATTRS = set(dir(object)) | {"__dict__", "__name__", "__class__", "__module__", "__annotations__",
                                "__dataclass_fields__", "__bases__", "__mro__"}


def owner(f: Func) -> str:
    """Where a known finding lives: the class (or module), so moving code into a helper keeps it."""
    g = f
    while g.cls is None and g.parent is not None:
        g = g.parent
    return f.module.name + (f":{g.cls.name}" if g.cls is not None else "")


def _hasattr_of(t: ast.AST, txt: str, attr: str) -> bool:
    return any(
        isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr", "getattr")
        and len(c.args) >= 2 and ast.unparse(c.args[0]) == txt
        and isinstance(c.args[1], ast.Constant) and c.args[1].value == attr
        for c in ast.walk(t)
    )


def _leaves(body) -> bool:
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def guarded_attr(n: ast.Attribute, f: Func) -> bool:
    """hasattr(obj, 'attr') dominates, or an enclosing try handles AttributeError."""
    txt = ast.unparse(n.value)
    q = n
    while q is not None and q is not f.node:
        par = getattr(q, "_parent", None)
        if isinstance(par, ast.Try) and q in par.body:
            for h in par.handlers:
                t = ast.unparse(h.type) if h.type is not None else "AttributeError"
                if "AttributeError" in t or t in ("Exception", "BaseException"):
                    return True
        if isinstance(par, (ast.If, ast.IfExp, ast.BoolOp)):
            if _hasattr_of(par.test if not isinstance(par, ast.BoolOp) else par, txt, n.attr):
                return True
        # an earlier statement of the same block leaves when the attribute is missing
        for name in ("body", "orelse", "finalbody"):
            blk = getattr(par, name, None)
            if isinstance(blk, list) and q in blk:
                for st in blk[: blk.index(q)]:
                    if isinstance(st, ast.If) and _leaves(st.body) and _hasattr_of(st.test, txt, n.attr):
                        return True
        q = par
    return False


def check_attrs(prog, types, f: Func, res: Result):
    m = f.module
    for n in walk_own(f.node):
        if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
            continue
        ts = types.infer(n.value, f, m)
        if not ts:
            continue
        cand = [t for t in ts if t != ("prim", "none")]
        if not cand or any(t[0] not in ("inst", "classobj", "module") for t in cand):
            continue
        res.oblige()
        res.count("attributes")
        bad = []
        for t in cand:
            if t[0] == "module":
                if prog.resolve_name(t[1], n.attr) is None and f"{t[1].name}.{n.attr}" not in prog.modules \
                        and n.attr not in ("__file__", "__name__"):
                    bad.append(t[1].name)
                continue
            c = t[1]
            if n.attr in OBJ_ATTRS or prog.known_attr(c, n.attr):
                continue
            # a method of a subclass may be called through the base in a template method
            if any(prog.known_attr(k, n.attr) for k in prog.subclasses(c)) and (
                c.is_protocol or f.cls is c
            ):
                continue
            # a mixin without base, constructor or subclass is completed by whoever mixes it in
            if f.cls is c and not c.node.bases and "__init__" not in c.methods and prog.subclasses(c) == [c] \
                    and not c.is_dataclass:
                continue
            if c.is_protocol and n.attr in prog.methods_by_name:
                continue
            if prog.external_bases(c) and ext_attr_known(prog, c, n.attr):
                continue
            bad.append(c.name)
        if bad and len(bad) == len(cand) and not guarded_attr(n, f):
            res.add("missing-attribute", f"{owner(f)}:{bad[0]}.{n.attr}", f"{m.path}:{n.lineno}",
                    f"'{bad[0]}' has no attribute '{n.attr}'")


def check_calls(prog, calls: Calls, f: Func, res: Result):
    m = f.module
    for n in walk_own(f.node):
        if not isinstance(n, ast.Call):
            continue
        tg = calls.targets(n, f, m)
        lib = [t for t in tg if t.func is not None or t.cls is not None]
        if not lib:
            continue
        if any(t.ext is not None for t in tg):
            # may also be an object of an uninstalled package
            exact = [t for t in lib if t.exact]
            if not exact:
                lib = [t for t in lib]
            else:
                lib = exact
        res.oblige(f"{m.path}:{n.lineno} {ast.unparse(n.func)} in {f.qual}" if len(res.samples) < 15 else None)
        res.count("calls")
        errs = []
        for t in lib:
            if t.cls is not None:
                e = bind_class(prog, t.cls, n)
            else:
                e = bind_error(t.func, n, t.bound)
            errs.append((t, e))
        maybe_ext = any(t.ext is not None for t in tg) and not any(t.exact for t in lib)
        if errs and all(e for _, e in errs) and not maybe_ext:
            t, e = errs[0]
            nm = t.func.qual if t.func else t.cls.name
            res.add("call-does-not-bind", f"{owner(f)}:{nm}:{e}", f"{m.path}:{n.lineno}", f"call of {nm}: {e}")
            continue
        for t, e in errs:
            if t.func is not None and t.exact and e is None:
                x = crossed(t.func, n, t.bound)
                if x:
                    res.add("crossed-arguments", f"{f.key}:{t.func.qual}", f"{m.path}:{n.lineno}",
                            f"call of {t.func.qual}: {x}")
