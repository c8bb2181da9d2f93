"""C18: every argument, setting and computed value takes effect.

A forward dataflow follows which definitions (parameters and computed values) reach something that matters: an
answer, a branch, a call, a stored attribute, an error.  What reaches nothing has no effect.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..flow import Flow
from ..index import Func, Program, real_body, walk_own
from ..interval import outside_names
from ..report import Result
from ..scope import core_funcs, is_legacy, is_offline
from .c12 import is_drawing
from .effects_common import solved

SINK = "!"
ALLOC = {"zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like", "full", "full_like", "eye", "list", "dict",
         "set", "identity", "array", "deque", "defaultdict"}
GROW = {"append", "extend", "insert", "add", "update"}
# setting of an object that a function of the same parameter name does not depend on (reviewed)
REVIEWED = {
    # the rotation weight fades over the half circle around the normal, whatever radius the tangents converge to
    ("get_rotation_weight", "convergence_radius"),
}
VIEWS = {"reshape", "ravel", "squeeze", "asarray", "atleast_1d", "T"}


def fresh(value) -> bool:
    """A new local container, so that writing into it is seen only through this name."""
    if isinstance(value, (ast.List, ast.Dict, ast.Set, ast.Tuple, ast.ListComp, ast.BinOp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(value, ast.Call):
        n = value.func.attr if isinstance(value.func, ast.Attribute) else getattr(value.func, "id", "")
        return n in ALLOC or n in ("copy", "deepcopy", "copysign", "tile", "repeat", "vstack", "hstack")
    return False


def idle_statement(b) -> bool:
    return isinstance(b, ast.Pass) or isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant)


class Slice(Flow):
    def __init__(self, f: Func):
        super().__init__()
        self.f = f
        self.uses: dict = {}      # definition -> consumers
        self.defs: dict = {}      # definition -> (node, value)
        self.to = SINK
        self.locals = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name)
                       and isinstance(n.ctx, (ast.Store, ast.Del))} | set(f.params)
        inner = set()
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                inner |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Load)}
        self.inner = inner

    def join(self, a, b):
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in set(a) | set(b)}

    def use(self, name, s):
        for d in s.get(name, ()):
            self.uses.setdefault(d, set()).add(self.to)

    def into(self, consumer, e, s):
        old, self.to = self.to, consumer
        self.walk(e, s)
        self.to = old

    def walk(self, e, s):
        if e is None:
            return
        if isinstance(e, ast.NamedExpr):
            d = (e.target.id, e.lineno, e.col_offset)
            self.defs.setdefault(d, (e, e.value, "walrus"))
            # the value is used where it stands, too
            self.walk(e.value, s)
            self.into(d, e.value, s)
            s[e.target.id] = frozenset([d])
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                self.use(e.id, s)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            s2 = dict(s)
            for g in e.generators:
                self.walk(g.iter, s2)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        s2.pop(n.id, None)
                for c in g.ifs:
                    self.walk(c, s2)
            for fld in ("elt", "key", "value"):
                if hasattr(e, fld):
                    self.walk(getattr(e, fld), s2)
            return
        if isinstance(e, ast.Lambda):
            for n in ast.walk(e.body):
                if isinstance(n, ast.Name):
                    old, self.to = self.to, SINK
                    self.use(n.id, s)
                    self.to = old
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.Slice)):
                self.walk(c, s)

    def expr(self, e, s):
        # growing a local container is a write into it
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in GROW and isinstance(
                e.func.value, ast.Name) and self.own(e.func.value.id, s):
            for d in s.get(e.func.value.id, ()):
                for a in e.args + [k.value for k in e.keywords]:
                    self.into(d, a, s)
            return
        self.into(SINK, e, s)

    def own(self, name, s):
        ds = s.get(name)
        return bool(ds) and all(d in self.defs and self.defs[d][2] == "fresh" for d in ds)

    def stmt(self, st, s):
        if isinstance(st, ast.If) and all(idle_statement(b) for b in st.body + st.orelse):
            return s  # decides nothing
        # the value of a plain assignment flows to its target only
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                self.bind(t, st.value, s, st)
            return s
        return super().stmt(st, s)

    def bind(self, t, value, s, node):
        if isinstance(t, ast.Name):
            d = (t.id, node.lineno, t.col_offset)
            kind = "fresh" if fresh(value) else "value"
            self.defs.setdefault(d, (node, value, kind))
            self.into(d, value, s)
            if t.id in self.inner:
                self.uses.setdefault(d, set()).add(SINK)
            s[t.id] = frozenset([d])
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                old = dict(s)
                for a, b in zip(t.elts, value.elts):
                    tmp = dict(old)
                    self.bind(a, b, tmp, node)
                    for n in ast.walk(a):
                        if isinstance(n, ast.Name) and n.id in tmp:
                            s[n.id] = tmp[n.id]
                return
            for x in t.elts:
                x = x.value if isinstance(x, ast.Starred) else x
                if isinstance(x, ast.Name):
                    d = (x.id, node.lineno, x.col_offset)
                    self.defs.setdefault(d, (node, value, "part"))
                    self.into(d, value, s)
                    s[x.id] = frozenset([d])
                else:
                    self.bind(x, value, s, node)
            return
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and self.own(t.value.id, s):
            for d in s[t.value.id]:
                self.into(d, t.slice, s)
                self.into(d, value, s)
            return
        self.into(SINK, value, s)
        self.into(SINK, t.value if isinstance(t, (ast.Attribute, ast.Subscript, ast.Starred)) else t, s)
        if isinstance(t, ast.Subscript):
            self.into(SINK, t.slice, s)

    def augassign(self, node, s):
        t = node.target
        if isinstance(t, ast.Name):
            d = (t.id, node.lineno, node.col_offset)
            old = s.get(t.id, frozenset())
            k = "fresh" if old and all(x in self.defs and self.defs[x][2] == "fresh" for x in old) else "value"
            self.defs.setdefault(d, (node, node.value, k))
            for o in old:
                self.uses.setdefault(o, set()).add(d)
            self.into(d, node.value, s)
            if k != "fresh" and any(o[1] == "param" for o in old):
                self.uses.setdefault(d, set()).add(SINK)  # may change the caller's array (another property)
            s[t.id] = frozenset([d])
            return
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and self.own(t.value.id, s):
            for d in s[t.value.id]:
                self.into(d, t.slice, s)
                self.into(d, node.value, s)
            return
        self.into(SINK, node.value, s)
        self.into(SINK, t.value, s)
        if isinstance(t, ast.Subscript):
            self.into(SINK, t.slice, s)

    def assign(self, target, value, s, node):
        # with / for / match targets
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s[n.id] = frozenset()
            elif isinstance(n, ast.Name):
                self.use(n.id, s)

    def for_bind(self, target, it, s, node):
        for n in ast.walk(target):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                d = (n.id, node.lineno, n.col_offset)
                self.defs.setdefault(d, (node, it, "loop"))
                s[n.id] = frozenset([d])

    def define(self, node, s):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
                self.into(SINK, d, s)

    def dead(self):
        """Definitions whose value reaches nothing that matters."""
        good = {d for d, c in self.uses.items() if SINK in c}
        while True:
            more = {d for d, c in self.uses.items() if d not in good and any(x in good for x in c)}
            if not more:
                break
            good |= more
        return {d for d in self.defs if d not in good}, good


def worth(node, value) -> bool:
    """A value somebody computed (not a constant, a container start or another name for a thing)."""
    if value is None or isinstance(value, (ast.Constant, ast.Name, ast.Attribute, ast.List, ast.Tuple, ast.Dict,
                                           ast.Set, ast.JoinedStr, ast.Lambda)):
        return False
    if isinstance(value, ast.Call):
        n = value.func.attr if isinstance(value.func, ast.Attribute) else getattr(value.func, "id", "")
        if n in ALLOC or n in ("subplots", "figure", "copy", "len", "print"):
            return False
    if isinstance(node, ast.AugAssign) and isinstance(value, ast.Constant):
        return False
    return any(isinstance(n, ast.Name) for n in ast.walk(value))


PURE_EXT = ("numpy.", "math.", "scipy.")
WRITES_EXT = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "seed", "seterr", "shuffle",
              "set_printoptions", "add_newdoc", "save", "savetxt", "savez", "testing", "at", "sort", "fill", "resize"}


def dropped(e, f: Func, calls: Calls, eff) -> str | None:
    """An expression statement that only computes something."""
    if isinstance(e, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Constant, ast.Name, ast.Attribute)):
        return None
    if any(isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for n in ast.walk(e)):
        return None
    if not isinstance(e, ast.Call):
        if not any(isinstance(n, ast.Name) for n in ast.walk(e)):
            return None
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and dropped(n, f, calls, eff) is None:
                return None  # one of the calls in it may do something
        return "the value of the expression"
    ts = calls.targets(e, f, f.module)
    if not ts:
        return None
    for t in ts:
        if t.func is not None:
            g = t.func
            if isinstance(g.node, ast.Lambda) or not t.exact and len(ts) > 3:
                return None
            sm = eff.sum.get(g.uid)
            if sm is None or sm.mut or g.is_abstract:
                return None
            if not any(isinstance(n, ast.Return) and n.value is not None and not (
                    isinstance(n.value, ast.Constant) and n.value.value is None) for n in walk_own(g.node)):
                return None
            if g.name.startswith(("plot", "draw", "print", "log", "check", "_check", "assert", "validate", "_validate")):
                return None
        elif t.ext is not None:
            last = t.ext.split(".")[-1]
            if not t.ext.startswith(PURE_EXT) or last in WRITES_EXT or ".random." in t.ext or last.startswith("assert"):
                return None
            if any(k.arg == "out" for k in e.keywords):
                return None
        else:
            return None
    # numpy's universal functions take their output as a further positional argument
    if ts[0].ext and ts[0].ext.startswith("numpy") and len(e.args) >= 3 and not ts[0].ext.endswith(("where", "clip")):
        return None
    return f"what {ast.unparse(e.func)} returns"


def kin(p: Program, a, b) -> bool:
    """The two classes are used for one another: a common ancestor, or a protocol / base that names the method."""
    ma, mb = {c.key for c in p.mro(a)}, {c.key for c in p.mro(b)}
    if ma & mb or b.is_protocol or a.is_protocol:
        return True
    # the same interface without saying so
    def face(c):
        return {(n, tuple(x for x in g.pos if x != g.self_name)) for k in p.mro(c) for n, g in k.methods.items()
                if not g.is_property and not n.startswith("_")}
    return len(face(a) & face(b)) >= 3


def same_question_elsewhere(p: Program, f: Func, q: str) -> bool:
    """Another class answers the same question and does take the parameter into account."""
    if f.cls is None:
        return False
    if p.external_bases(f.cls) and f.name not in ("__init__",):
        return True
    for g in p.methods_by_name.get(f.name, []):
        if g.cls is not f.cls and q in g.params and g.name != "__init__" and kin(p, f.cls, g.cls):
            if g.is_abstract or g.cls.is_protocol or any(
                    isinstance(n, ast.Name) and n.id == q and isinstance(n.ctx, ast.Load) for n in ast.walk(g.node)):
                return True
    return False


def run(p: Program, tier: str) -> Result:
    res = Result("Which parameters and computed values reach an answer, a branch, a call, a stored attribute or an "
                 "error; which settings a call passes on; which stored settings anybody reads.")
    res.rules = [
        "every parameter takes effect on some path (unless the signature is shared with another class that uses it)",
        "every computed value is used before it is overwritten or the function ends",
        "a parameter is passed on to a package function that takes the same setting",
        "a stored setting is read somewhere",
    ]
    res.assumptions = ["A call, a branch and an attribute store have an effect."]
    calls, eff = solved(p)
    used_outside = outside_names(p)
    idle: dict = {}
    wasted: dict = {}
    for f in core_funcs(p):
        if isinstance(f.node, ast.Lambda) or is_legacy(f.module) or is_drawing(f):
            continue
        body = real_body(f.node)
        stub = f.is_abstract or (f.cls is not None and f.cls.is_protocol) or not body or all(
            isinstance(b, (ast.Raise, ast.Pass)) for b in body)
        if stub:
            continue
        res.count("functions")
        names = {n.func.id for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        if names & {"locals", "eval", "exec", "vars"}:
            continue
        sl = Slice(f)
        init = {}
        for q in list(f.params) + [x for x in (f.vararg, f.kwarg) if x]:
            init[q] = frozenset([(q, "param", 0)])
            if q in sl.inner:
                sl.uses.setdefault((q, "param", 0), set()).add(SINK)
        sl.run(f.node, init)
        dead, good = sl.dead()
        gone = []
        for d in sorted(dead, key=str):
            node, value, kind = sl.defs[d]
            if kind in ("walrus", "loop", "part") or d[0].startswith("_") or not worth(node, value):
                continue
            gone.append((d, node, value))
        reported = {d for d, _, _ in gone}
        for q in f.params:
            if q == f.self_name or q == "cls" or q.startswith("_"):
                continue
            res.count("parameters")
            res.oblige(f"{f.qual}: parameter {q}")
            if (q, "param", 0) in good:
                continue
            if any(d in reported for d in sl.uses.get((q, "param", 0), ())):
                continue  # it goes into a value that is dropped, which is what gets reported
            if f.name.startswith("_") and not f.name.startswith("__") and any(d[0] == q for d in sl.defs):
                continue  # a helper that starts by giving the name a new value: its callers' values are followed
            if same_question_elsewhere(p, f, q):
                continue
            idle[f.module.name, q] = idle.get((f.module.name, q), 0) + 1
            k = idle[f.module.name, q]
            res.add("parameter-without-effect", f"{f.module.name}:{q}" + (f"#{k}" if k > 1 else ""), f.where,
                    f"nothing {f.qual} does depends on its parameter '{q}'")
        res.count("computed values", len(sl.defs))
        for d, node, value in gone:
            wasted.setdefault(f.module.name, []).append((f, d[0], node))
        for n in walk_own(f.node):
            if isinstance(n, ast.Expr):
                res.count("expression statements")
                what = dropped(n.value, f, calls, eff)
                if what:
                    res.add("result-dropped", f"{f.key}:{ast.unparse(n.value)[:60]}", f"{f.module.path}:{n.lineno}",
                            f"{f.qual} drops {what}: '{ast.unparse(n)[:90]}'")
        # settings that are not passed on
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call):
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            ts = [t for t in calls.targets(n, f, f.module) if t.func is not None and t.exact]
            if len(ts) != 1:
                continue
            g = ts[0].func
            ps = [x for x in g.pos if not (g.has_self and x == g.self_name) and x != "cls"]
            given = set(ps[: len(n.args)]) | {k.arg for k in n.keywords}
            held = set()
            if f.cls is not None:
                for c in p.mro(f.cls):
                    held |= set(c.instance_attrs)
            for q in g.params:
                if q in held and q not in f.params and q in g.defaults and q != g.self_name:
                    d = g.defaults[q]
                    if isinstance(d, ast.Constant) and d.value is None:
                        continue  # None: the callee decides
                    if (g.name, q) in REVIEWED:
                        continue
                    res.count("settings of the object passed on")
                    res.oblige(f"{f.qual} passes its {q} on to {g.qual}")
                    if q not in given:
                        res.add("setting-not-passed-on", f"{f.key}:{g.qual}:{q}", f"{f.module.path}:{n.lineno}",
                                f"{f.qual} has the setting self.{q} but calls {g.qual} without it (the default "
                                f"applies): '{ast.unparse(n)[:80]}'")
                if q in f.params and q in g.defaults and q != g.self_name and q != f.self_name:
                    res.count("settings passed on")
                    res.oblige(f"{f.qual} passes {q} on to {g.qual}")
                    if q not in given:
                        res.add("setting-not-passed-on", f"{f.key}:{g.qual}:{q}", f"{f.module.path}:{n.lineno}",
                                f"{f.qual} takes '{q}' but calls {g.qual} without it: '{ast.unparse(n)[:80]}'")
    # how many per module, so that a renamed or extracted function does not count twice
    for m, rows in sorted(wasted.items()):
        for k, (f, name, node) in enumerate(rows, 1):
            res.add("value-without-effect", f"{m}#{k}", f"{f.module.path}:{node.lineno}",
                    f"{f.qual} computes '{name}' and never uses it: '{ast.unparse(node)[:80]}' (value {k} of "
                    f"{len(rows)} such values here: " + ", ".join(f"{g.name}.{x}" for g, x, _ in rows) + ")")
    # stored settings
    reads = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                reads.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                reads.add(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                pass
    for c in p.classes.values():
        if is_offline(c.module) or is_legacy(c.module) or c.is_protocol:
            continue
        for a in sorted(c.instance_attrs):
            res.count("stored attributes")
            if a in reads or a in used_outside or a.endswith("_"):
                continue
            if any(a in (k.methods) for k in p.mro(c)):
                continue
            if p.external_bases(c):
                continue
            res.add("stored-and-never-read", f"{c.key}:{a}", f"{c.module.path}:{c.node.lineno}",
                    f"{c.name} stores '{a}' and nothing reads it")
    res.floor("parameters", 600)
    res.floor("computed values", 1200)
    res.floor("stored attributes", 120)
    return res
