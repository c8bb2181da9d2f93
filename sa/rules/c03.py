"""C03: the answer to a query does not depend on which queries ran before.

(a) An attribute that a query writes is working storage: every query that reads it has written it first
    (interprocedural must-write-before-read over the methods of the object).
(b) A query does not edit the objects it holds (obstacles, dynamics, poses).
(c) An answer is not a live reference into the evaluator's own arrays.
(d) No clock, random number, process-global variable, cache or shared mutable default feeds a query.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..flow import Flow
from ..index import Class, Func, Program, walk_own, real_body
from ..report import Result
from ..scope import core_funcs, is_legacy, is_offline
from .effects_common import is_query, self_rooted_query_sites, solved

DEPTH = 7
NONDET = ("random.", "numpy.random.", "time.", "datetime.", "uuid.", "secrets.", "os.environ", "os.getenv",
          "os.urandom", "builtins.id", "builtins.hash", "builtins.input")
CACHES = ("lru_cache", "functools.lru_cache", "cache", "functools.cache", "cached_property",
          "functools.cached_property")
TREE_ALL = {"all", "some"}


class Inst:
    """Must-written attributes of one object while one query runs."""

    def __init__(self, p, calls, eff, cls: Class, tracked: set, keys: set):
        self.p, self.calls, self.eff, self.cls = p, calls, eff, cls
        self.tracked, self.keys = tracked, keys
        self.bad: dict[tuple, tuple] = {}
        self.memo: dict = {}
        self.chain: list[Func] = []

    def method(self, name):
        return self.p.find_method(self.cls, name)

    def run(self, f: Func, state: frozenset, full=frozenset(), depth=0):
        """-> must-written set at normal exit (None: never exits normally)."""
        key = (f.uid, state, full)
        if key in self.memo:
            return self.memo[key]
        if depth > DEPTH or f in self.chain:
            return state
        self.chain.append(f)
        self.memo[key] = state
        fl = Must(self, f, depth, full)
        end = fl.run(f.node, {"w": state})
        outs = [s["w"] for _, s in fl.returns] + ([end["w"]] if end is not None else [])
        out = None
        for o in outs:
            out = o if out is None else out & o
        self.chain.pop()
        self.memo[key] = out if out is not None else state
        return self.memo[key]


class Must(Flow):
    def __init__(self, inst: Inst, f: Func, depth, full):
        super().__init__()
        self.i, self.f, self.depth = inst, f, depth
        self.sn = f.self_name
        self.full_names = set(full)  # names that list every node of the tree

    def copy(self, s):
        return dict(s)

    def join(self, a, b):
        return {"w": a["w"] & b["w"]}

    # ------------------------------------------------------------- cells
    def attr_of(self, e):
        """'A' for self.A"""
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == self.sn:
            return e.attr
        return None

    def key_of(self, e):
        """'weight' for self._graph.nodes[x]['weight']"""
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            if self.is_node(e.value):
                return e.slice.value
        return None

    def is_node(self, v) -> bool:
        if isinstance(v, ast.Subscript):
            u = v.value
            if isinstance(u, ast.Call):
                u = u.func
            return isinstance(u, ast.Attribute) and u.attr == "nodes"
        return isinstance(v, ast.Name) and v.id in self.node_aliases()

    def asks_for(self, e):
        """'weight' for nodes[x].get('weight') and 'weight' in nodes[x]"""
        k = None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.args and e.func.attr in (
                "get", "setdefault", "pop") and self.is_node(e.func.value):
            k = e.args[0]
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)) and \
                self.is_node(e.comparators[0]):
            k = e.left
        if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value in self.i.keys:
            return k.value
        return None

    def node_aliases(self):
        if not hasattr(self, "_al"):
            self._al = set()
            for n in walk_own(self.f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Subscript):
                    u = n.value.value
                    if isinstance(u, ast.Attribute) and u.attr == "nodes":
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                self._al.add(t.id)
        return self._al

    def read(self, cell, node, s):
        if cell in s["w"] or ("all", cell) in s["w"]:
            return
        k = (self.i.chain[0].qual if self.i.chain else self.f.qual, cell)
        self.i.bad.setdefault(k, (self.f, getattr(node, "lineno", self.f.node.lineno)))

    def wrote(self, cell, s):
        s["w"] = s["w"] | {cell}

    # ------------------------------------------------------------- hooks
    def stmt(self, st, s):
        cell = self.memo_guard(st)
        if cell is not None:
            self.wrote(cell, s)
        return super().stmt(st, s)

    def memo_guard(self, st):
        """``if <cell> is None: fill it`` where the fill does not depend on the question asked."""
        if not (isinstance(st, ast.If) and isinstance(st.test, ast.Compare) and len(st.test.ops) == 1
                and isinstance(st.test.ops[0], ast.Is) and isinstance(st.test.comparators[0], ast.Constant)
                and st.test.comparators[0].value is None):
            return None
        a, k = self.attr_of(st.test.left), self.key_of(st.test.left)
        if (a is None or a not in self.i.tracked) and (k is None or k not in self.i.keys):
            return None
        asked = self.asked()
        for x in st.body:
            if any(isinstance(n, ast.Name) and n.id in asked for n in ast.walk(x)):
                return None
        return a if a is not None else f"['{k}']"

    def asked(self):
        """Names that carry (part of) the question."""
        if not hasattr(self, "_asked"):
            out = {q for q in self.f.params}
            for _ in range(4):
                for n in walk_own(self.f.node):
                    if isinstance(n, (ast.Assign, ast.AugAssign)) and n.value is not None and any(
                            isinstance(m, ast.Name) and m.id in out for m in ast.walk(n.value)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            out |= {m.id for m in ast.walk(t) if isinstance(m, ast.Name)
                                    and isinstance(m.ctx, ast.Store)}
            self._asked = out - {self.sn}
        return self._asked

    def expr(self, e, s):
        if e is None:
            return
        if isinstance(e, (ast.Lambda,)):
            return
        k = self.asks_for(e)
        if k is not None:
            self.read(f"['{k}']", e, s)
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], s)
            cur = self.copy(s)
            for v in e.values[1:]:
                self.expr(v, cur)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, s)
            a, b = self.copy(s), self.copy(s)
            self.expr(e.body, a)
            self.expr(e.orelse, b)
            s["w"] = a["w"] & b["w"]
            return
        if isinstance(e, ast.Call):
            fn = e.func
            sup = isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == "super"
            if isinstance(fn, ast.Attribute) and not sup:
                growing = self.attr_of(fn.value) and fn.attr in ("append", "extend", "insert", "add", "clear")
                if growing:
                    if fn.attr == "clear":
                        self.wrote(self.attr_of(fn.value), s)
                elif not (self.attr_of(fn) and self.i.method(fn.attr)):
                    self.expr(fn.value, s)
                    if self.attr_of(fn):
                        self.expr_attr(fn, s)
            elif not isinstance(fn, ast.Attribute):
                self.expr(fn, s)
            for a in e.args:
                self.expr(a.value if isinstance(a, ast.Starred) else a, s)
            for k in e.keywords:
                self.expr(k.value, s)
            g = None
            if isinstance(fn, ast.Attribute) and self.attr_of(fn):
                g = self.i.method(fn.attr)
            elif sup:
                top = self.f
                for k in self.i.p.mro(top.cls)[1:] if top.cls else []:
                    if fn.attr in k.methods:
                        g = k.methods[fn.attr]
                        break
            if g is not None and not g.is_static:
                full = set()
                pos = g.params
                for q, a in list(zip(pos, e.args)) + [(k.arg, k.value) for k in e.keywords]:
                    if self.lists_all_nodes(a):
                        full.add(q)
                out = self.i.run(g, s["w"], frozenset(full), self.depth + 1)
                if out is not None:
                    s["w"] = out
            return
        if isinstance(e, ast.Attribute):
            if self.attr_of(e):
                if isinstance(e.ctx, ast.Load):
                    self.expr_attr(e, s)
            else:
                self.expr(e.value, s)
            return
        k = self.key_of(e)
        if k is not None and k in self.i.keys and isinstance(e.ctx, ast.Load):
            self.expr(e.value, s)
            self.read(f"['{k}']", e, s)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                self.expr(g.iter, s)
                for c in g.ifs:
                    self.expr(c, s)
            for fld in ("elt", "key", "value"):
                if hasattr(e, fld):
                    self.expr(getattr(e, fld), s)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, s)

    def expr_attr(self, e, s):
        m = self.i.method(e.attr)
        if m is not None and m.is_property:
            out = self.i.run(m, s["w"], frozenset(), self.depth + 1)
            if out is not None:
                s["w"] = out
            return
        if e.attr in self.i.tracked:
            self.read(e.attr, e, s)

    def assign(self, target, value, s, node):
        if isinstance(target, ast.Starred):
            target = target.value
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.assign(t, None, s, node)
            return
        if isinstance(target, ast.Name):
            if value is not None and self.lists_all_nodes(value):
                self.full_names.add(target.id)
            return
        a = self.attr_of(target)
        if a is not None:
            st = self.i.p.find_setter(self.i.cls, a)
            if st is not None:
                out = self.i.run(st, s["w"], frozenset(), self.depth + 1)
                if out is not None:
                    s["w"] = out
            elif a in self.i.tracked:
                self.wrote(a, s)
            return
        k = self.key_of(target)
        if k is not None and k in self.i.keys:
            cell = f"['{k}']"
            if k in ACCUMULATED:
                if self.total_loop(target):
                    self.wrote(cell, s)
            else:
                self.wrote(cell, s)
            return
        # a write into something read through self
        self.expr(target.value, s)
        if isinstance(target, ast.Subscript):
            self.expr(target.slice, s)

    def augassign(self, node, s):
        self.expr(node.value, s)
        t = node.target
        a = self.attr_of(t)
        if a is not None:
            if a in self.i.tracked:
                self.read(a, node, s)
            return
        k = self.key_of(t)
        if k is not None and k in self.i.keys:
            self.read(f"['{k}']", node, s)
            return
        if not isinstance(t, ast.Name):
            self.expr(t.value, s)

    def lists_all_nodes(self, e) -> bool:
        """Every node of the tree: graph.nodes, graph.nodes(), get_nodes_ascending(), reversed(..) of such."""
        if isinstance(e, ast.Name):
            return e.id in self.full_names
        if isinstance(e, ast.Attribute):
            return e.attr == "nodes" or e.attr in ("_graph", "graph")
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute):
                if e.func.attr == "nodes":
                    return not e.args
                if e.func.attr.startswith("get_nodes") or e.func.attr == "keys":
                    return True
            if isinstance(e.func, ast.Name) and e.func.id in ("reversed", "list", "sorted", "tuple") and e.args:
                return self.lists_all_nodes(e.args[0])
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            return self.lists_all_nodes(e.generators[0].iter)
        return False

    def total_loop(self, target):
        """The write sits unconditionally in a loop over all nodes, indexed by the loop variable."""
        idx = target.value.slice if isinstance(target.value, ast.Subscript) else None
        n = target
        while n is not None and not isinstance(n, (ast.For, ast.FunctionDef)):
            if isinstance(n, (ast.If, ast.While, ast.Try)):
                return False
            n = n._parent
        if not isinstance(n, ast.For):
            return False
        if idx is not None and not (isinstance(idx, ast.Name) and isinstance(n.target, ast.Name)
                                    and idx.id == n.target.id):
            return False
        return self.lists_all_nodes(n.iter)

    def loop_runs_at_least_once(self, node, s):
        # hierarchies and obstacle lists are not empty where working values are read afterwards
        return True

    def for_bind(self, target, it, s, node):
        pass


# node values that are added up during a query: they must be reset for every node first
ACCUMULATED = {"weight"}


def public_queries(p: Program, c: Class):
    out = []
    seen = set()
    for k in p.mro(c):
        for f in k.methods.values():
            if f.name in seen:
                continue
            seen.add(f.name)
            if is_query(f) and not f.is_static and not f.is_classmethod and f.self_name:
                out.append(f)
    return out


def run(p: Program, tier: str) -> Result:
    res = Result("Effect summaries give the attributes each class's queries write; a must-write-before-read "
                 "dataflow (inlining the object's own methods) then follows every public query, plus "
                 "alias facts on the returned values and who-may-call rules for sources of hidden state.")
    res.rules = [
        "working storage is written before it is read within every public query",
        "a query writes no object it holds, and no process-global state",
        "an answer is not a live reference into the evaluator's own arrays",
        "no clock / random source / cache / shared mutable default is used by a query",
    ]
    res.assumptions = ["Obstacle lists and hierarchies are non-empty when their working values are read.",
                       "External obstacles and dynamics answer without history."]
    calls, eff = solved(p)
    own = self_rooted_query_sites(p, eff)
    for c in p.classes.values():
        if is_offline(c.module) or c.is_protocol:
            continue
        qs = public_queries(p, c)
        if not qs:
            continue
        res.count("classes")
        tracked: dict[str, list] = {}
        keys: set = set()
        for f in qs:
            for (q, path), sites in eff.sum[f.uid].mut.items():
                if q != f.self_name or not path:
                    continue
                mine = []
                own_storage = all(x == "[]" or x.startswith("['") for x in path[1:])
                for x in sites:
                    if x in own and not (own_storage and same_hierarchy(p, c, x)):
                        continue  # working storage of a held object: judged at that object's class
                    if not own_storage and any(x in m for m in argument_sites(p, eff)):
                        continue  # an edited argument: C01
                    mine.append(x)
                if not mine:
                    continue
                ks = [x[2:-2] for x in path if x.startswith("['")]
                if ks and len(path) >= 2 and path[0].endswith("graph"):
                    keys.add(ks[0])
                    continue
                tracked.setdefault(path[0], []).extend(mine)
        inst = Inst(p, calls, eff, c, set(tracked), keys)
        # queries that another query of the object uses as a step are judged inside that query
        steps, todo, seen = set(), list(qs), set()
        while todo:
            f = todo.pop()
            if f.uid in seen:
                continue
            seen.add(f.uid)
            for n, g in self_calls(p, c, f):
                if g is not f:
                    steps.add(g.uid)
                    todo.append(g)
        for f in qs:
            res.count("queries")
            res.oblige(f"{c.name}.{f.name}: working storage {sorted(tracked) or '-'}"
                       if tracked else None)
            if f.is_property or accessor_of(f, tracked) or f.uid in steps:
                continue
            inst.memo = {}
            inst.run(f, frozenset())
        per_cell: dict[str, tuple] = {}
        for (qual, cell), (g, line) in inst.bad.items():
            per_cell.setdefault(cell, (qual, g, line))
        for cell, (qual, g, line) in sorted(per_cell.items()):
            wr = sorted({f"{x.func.qual}:{x.line}" for x in tracked.get(cell, [])})[:3]
            res.add("stale-state", f"{c.name}:{cell}", f"{g.module.path}:{line}",
                    f"{qual} reads '{cell}' of {c.name} before writing it, but a query writes it"
                    f" ({', '.join(wr)})")
    live_references(p, eff, res)
    hidden_state(p, calls, eff, res)
    res.floor("queries", 200)
    res.floor("classes", 30)
    return res


def same_hierarchy(p, c, site):
    g = site.func
    while g.parent is not None:
        g = g.parent
    return g.cls is not None and (g.cls in p.mro(c) or c in p.mro(g.cls))


def argument_sites(p, eff):
    """Sites that edit an argument of a public query: C01 decides those."""
    if id(eff) not in _arg_sites:
        _arg_sites.clear()
        out = set()
        for f in core_funcs(p):
            if is_query(f):
                for (q, _), ss in eff.sum[f.uid].mut.items():
                    if q != f.self_name:
                        out |= ss
        _arg_sites[id(eff)] = out
    return [_arg_sites[id(eff)]]


_arg_sites: dict = {}


def self_calls(p, c, f):
    """(call, method) for every call of f on its own object."""
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Name) and n.func.value.id == f.self_name:
            g = p.find_method(c, n.func.attr)
            if g is not None:
                yield n, g


def accessor_of(f: Func, tracked) -> bool:
    """A plain getter (one return of stored state)."""
    body = real_body(f.node)
    return len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(
        body[0].value, (ast.Attribute, ast.Subscript))


def live_references(p, eff, res):
    for f in core_funcs(p):
        if f.cls is None or not f.self_name or not is_query(f) or f.is_property:
            continue
        if f.name.startswith(("get_", "__", "is_", "has_")):
            continue
        sm = eff.sum[f.uid]
        res.count("answers checked for live references")
        res.oblige()
        if sm.ret_k in ("imm", "obj"):
            continue
        for o in sm.ret_o:
            if o[0] == "P" and o[1] == f.self_name and len(o[2]) == 1:
                if array_attr(p, f.cls, o[2][0]):
                    res.add("live-reference", f"{f.qual}:{o[2][0]}", f.where,
                            f"{f.qual} hands out its own array 'self.{o[2][0]}': a caller that changes the "
                            "answer changes every later answer")


def array_attr(p, c, a):
    from ..types import Types
    from ..effects import ARR, SEQ, kind_of

    global _types
    try:
        t = _types[id(p)]
    except (NameError, KeyError):
        _types = {id(p): Types(p)}
        t = _types[id(p)]
    k = kind_of(t.attr_types(c, a))
    if k in (ARR, SEQ):
        return True
    if k != "unk":
        return False
    # unknown kind: is it used like an array anywhere in the class?
    for kls in p.mro(c):
        for m in list(kls.methods.values()):
            for n in walk_own(m.node):
                if isinstance(n, ast.Attribute) and n.attr == a:
                    par = n._parent
                    if isinstance(par, ast.Attribute) and par.attr in ("shape", "T", "copy"):
                        return True
                    if isinstance(par, ast.Subscript) and par.value is n:
                        return True
                    if isinstance(par, ast.Call) and n in par.args and ast.unparse(par.func).split(".")[-1] in (
                        "norm", "dot", "copy", "get_orthogonal_basis"):
                        return True
    # or was it handed to the constructor as a vector?
    init = p.init_func(c)
    if init is not None:
        for n in walk_own(init.node):
            if isinstance(n, ast.Assign) and any(isinstance(t_, ast.Attribute) and t_.attr == a for t_ in n.targets):
                if isinstance(n.value, ast.Name) and n.value.id in init.args_nodes:
                    an = init.args_nodes[n.value.id].annotation
                    if an is not None and any(x in ast.unparse(an) for x in ("ndarray", "Vector", "ArrayLike")):
                        return True
    for kls in p.mro(c):
        if kls.is_dataclass and a in kls.annotations and any(
            x in ast.unparse(kls.annotations[a]) for x in ("ndarray", "Vector", "ArrayLike")):
            return True
    return False


def hidden_state(p, calls: Calls, eff, res):
    roots = [f for f in core_funcs(p) if is_query(f) and not is_legacy(f.module)]
    seen = calls.reachable(roots)
    res.count("functions reachable from a query", len(seen))
    for uid, (f, _) in seen.items():
        if is_offline(f.module) or is_legacy(f.module) or drawing(f) or by_name_only(f):
            continue
        for n in walk_own(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                if isinstance(n, ast.Global):
                    res.add("hidden-state", f"{f.qual}:global {','.join(n.names)}",
                            f"{f.module.path}:{n.lineno}", "a query writes a process-global variable")
            elif isinstance(n, ast.Call):
                res.oblige()
                for t in calls.targets(n, f, f.module):
                    if t.ext and t.ext.startswith(NONDET) and not t.ext.startswith(("time.perf", "time.time_ns_")):
                        if seeded(n):
                            continue
                        res.add("hidden-state", f"{f.qual}:{t.ext}", f"{f.module.path}:{n.lineno}",
                                f"a query reads {t.ext}, so equal questions get different answers")
        for d in f.decorators:
            if d in CACHES:
                res.add("hidden-state", f"{f.qual}:@{d}", f.where,
                        "the answer is cached although the object it depends on can change")
        sm = eff.sum.get(uid)
        if sm:
            for (q, path), sites in sm.mut.items():
                if q.startswith("global "):
                    for x in sites:
                        if x.func is f:
                            res.add("hidden-state", f"{f.qual}:{q}", f"{f.module.path}:{x.line}",
                                    f"a query writes the shared object '{q[7:]}'")
    # mutable defaults and class-level containers that a method changes or an object keeps
    for f in core_funcs(p):
        if is_legacy(f.module):
            continue
        for name, d in f.defaults.items():
            mutable = isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp)) or (
                isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in (
                    "list", "dict", "set", "array", "zeros", "ones", "deque", "defaultdict", "Pose", "Twist"))
            if not mutable:
                continue
            res.count("mutable defaults")
            res.oblige()
            sm = eff.sum.get(f.uid)
            written = [x for (q, _), ss in sm.mut.items() if q == name for x in ss]
            kept = any(o[0] == "P" and o[1] == name for d2 in sm.heap.values() for os in d2.values() for o in os)
            if written or kept:
                res.add("shared-default", f"{f.qual}:{name}", f.where,
                        f"the default object of '{name}' is {'changed' if written else 'kept by the object'}: "
                        "all later calls share it")
    for c in p.classes.values():
        if is_offline(c.module) or is_legacy(c.module) or c.is_dataclass:
            continue
        for a, v in c.class_attrs.items():
            if not isinstance(v, (ast.List, ast.Dict, ast.Set)):
                continue
            init = p.init_func(c)
            rebinds = init is not None and any(
                isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store)
                for n in walk_own(init.node))
            if rebinds:
                continue
            for m in c.methods.values():
                sm = eff.sum[m.uid]
                if any(q == m.self_name and path and path[0] == a and len(path) > 1 for (q, path) in sm.mut):
                    res.add("shared-default", f"{c.name}:{a}", m.where,
                            f"the class-level container '{a}' is changed through one object, so all share it")
                    break


def by_name_only(f):
    return False


def drawing(f):
    g = f
    while g is not None:
        if g.name.startswith(("plot", "_plot", "draw", "test_", "animate", "main")):
            return True
        g = g.parent
    return False


def seeded(call):
    """numpy Generators / estimators given an explicit seed."""
    return any(isinstance(a, ast.Constant) and isinstance(a.value, int) for a in call.args) and ast.unparse(
        call.func).split(".")[-1] in ("default_rng", "RandomState", "seed")
