"""Interprocedural alias and mutation analysis (points-to sets with function summaries).

Origins of a value
  ('P', param, path)   the object a parameter refers to (``self`` included), path = field names / '[]'
  ('N', site)          an object created in this function (or by a call at that site)

A value is a frozenset of origins plus a kind ('imm', 'arr', 'seq', 'obj', 'unk').  Views of an array
(slices, reshape, .T ..) keep its origin; copies and arithmetic create a new one.
"""
from __future__ import annotations

import ast
import re

from .calls import Calls
from .flow import Flow
from .index import AnalysisBroken, Func, Program, walk_own

MAXPATH = 3
# slots of the node tables that hold arrays
ARRAY_KEYS = {"['direction']", "['part_direction']", "['local_attractor']", "['intersection']"}
IMM, ARR, SEQ, OBJ, UNK = "imm", "arr", "seq", "obj", "unk"

# numpy functions whose result may share memory with their first argument
NP_VIEW = {"reshape", "ravel", "asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze",
           "transpose", "swapaxes", "moveaxis", "rollaxis", "expand_dims", "broadcast_to", "diagonal",
           "real", "imag", "flip", "fliplr", "flipud", "rot90", "ascontiguousarray", "asfarray",
           "array_split", "split", "hsplit", "vsplit", "diag", "nditer", "broadcast_arrays"}
NP_INPLACE = {"fill_diagonal": 0, "put": 0, "copyto": 0, "place": 0, "putmask": 0, "put_along_axis": 0,
              "shuffle": 0}
# ufunc-like: this many inputs, a further positional argument is written to
NP_UFUNC = {**{k: 2 for k in ("add", "subtract", "multiply", "divide", "true_divide", "logical_and",
                              "logical_or", "logical_xor", "maximum", "minimum", "power", "mod", "arctan2",
                              "hypot", "fmax", "fmin", "greater", "less", "equal", "cross_")},
            **{k: 1 for k in ("sqrt", "abs", "absolute", "exp", "log", "sin", "cos", "tan", "arccos", "arcsin",
                              "arctan", "negative", "logical_not", "isnan", "square", "floor", "ceil",
                              "sign")}}
METHOD_VIEW = {"reshape", "ravel", "squeeze", "transpose", "swapaxes", "view", "diagonal", "values", "items",
               "keys", "get", "setdefault"}
METHOD_INPLACE = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "fill", "put",
                  "itemset", "resize", "update", "setdefault", "popitem", "add", "discard", "popleft",
                  "appendleft", "partition", "setflags", "byteswap", "__setitem__", "__delitem__", "__setattr__",
                  "add_node", "add_edge", "add_nodes_from", "add_edges_from", "remove_node", "remove_edge",
                  "remove_nodes_from", "remove_edges_from", "intersection_update", "difference_update",
                  "extendleft", "rotate_inplace"}
# in-place names that a non-container receiver may also carry with another meaning
GROWING = {"append": 0, "extend": None, "insert": 1, "add": 0, "appendleft": 0, "setdefault": 1}
ATTR_VIEW = {"T", "real", "imag", "flat", "base_", "data"}
ATTR_IMM = {"shape", "ndim", "size", "dtype", "name", "__name__"}
SHALLOW = {"list", "tuple", "set", "dict", "sorted", "reversed", "enumerate", "zip", "iter", "filter", "map",
           "frozenset"}
ARR_HINT_NP = {"norm", "dot", "cross", "matmul", "linalg", "arctan2", "reshape", "mean", "copy", "sum"}


class Value:
    __slots__ = ("o", "k")

    def __init__(self, o=frozenset(), k=UNK):
        self.o, self.k = frozenset(o), k

    def __repr__(self):
        return f"<{set(self.o)} {self.k}>"


def jk(a, b):
    if a == b:
        return a
    if a == IMM:
        return b
    if b == IMM:
        return a
    if UNK in (a, b):
        return a if b == UNK else b
    return UNK


def join(a: Value, b: Value) -> Value:
    return Value(a.o | b.o, jk(a.k, b.k))


class Site:
    """One statement that writes into an existing object."""

    __slots__ = ("func", "text", "line", "path")

    def __init__(self, func, text, line, path=()):
        self.func, self.text, self.line, self.path = func, text, line, path

    @property
    def key(self):
        return (self.func.uid, self.text)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return self.key == other.key


class Summary:
    def __init__(self):
        self.mut: dict[tuple, set] = {}       # (param, path) -> {Site}
        self.ret_o: frozenset = frozenset()   # origins over params and ('N', site)
        self.ret_k = None
        self.heap: dict = {}                  # ('N', site) / ('P', ..) -> {field: frozenset(origin)}
        self.arr_params: set = set()
        self.strong: dict = {}                # (param origin, field) -> origins it surely refers to at exit

    def grow(self, old: "Summary"):
        for k, v in old.mut.items():
            self.mut.setdefault(k, set()).update(v)
        self.ret_o = frozenset(self.ret_o | old.ret_o)
        if old.ret_k is not None:
            self.ret_k = old.ret_k if self.ret_k is None else jk(self.ret_k, old.ret_k)
        for o, d in old.heap.items():
            e = self.heap.setdefault(o, {})
            for f, x in d.items():
                e[f] = frozenset(e.get(f, frozenset()) | x)
        self.arr_params |= old.arr_params
        for k in list(self.strong):
            if k in old.strong:
                self.strong[k] = frozenset(self.strong[k] | old.strong[k])

    def signature(self):
        return (
            frozenset((k, frozenset(s.key for s in v)) for k, v in self.mut.items()),
            self.ret_o, self.ret_k,
            frozenset((k, f, o) for k, d in self.heap.items() for f, o in d.items()),
            frozenset(self.arr_params),
            frozenset(self.strong.items()),
        )


def ext(o, field):
    """Origin of field of o."""
    if o[0] == "P":
        path = o[2]
        if len(path) >= MAXPATH:
            return o if path[-1] == "*" else ("P", o[1], path[:-1] + ("*",))
        if path and path[-1] == "[]" and field == "[]":
            return o
        return ("P", o[1], path + (field,))
    return None


class Effects:
    def __init__(self, p: Program, calls: Calls):
        self.p, self.calls, self.t = p, calls, calls.t
        self.sum: dict[str, Summary] = {}
        self.trace: dict[str, "FuncFlow"] = {}

    def solve(self, rounds=8):
        funcs = [f for f in self.p.iter_funcs() if not isinstance(f.node, ast.Lambda)]
        for f in funcs:
            self.sum[f.uid] = Summary()
        # Callees first, one strongly connected component of the call graph after the other. Inside a
        # component the summaries only grow, so the result does not depend on the order.
        succ: dict[str, list] = {}
        for f in funcs:
            out = succ.setdefault(f.uid, [])
            for _, g in self.calls.callees(f):
                if g.uid in self.sum and g.uid not in out:
                    out.append(g.uid)
        n = {}
        for comp in components([f.uid for f in funcs], succ):
            inside = set(comp)
            callers: dict[str, set] = {}
            for u in comp:
                for v in succ[u]:
                    if v in inside:
                        callers.setdefault(v, set()).add(u)
            rank = {u: i for i, u in enumerate(comp)}
            todo, rnd = list(comp), 0
            while todo:
                again = set()
                for u in todo:
                    n[u] = n.get(u, 0) + 1
                    s = FuncFlow(self, self.p.funcs[u]).analyse()
                    if rnd >= 3:
                        s.grow(self.sum[u])
                    if s.signature() != self.sum[u].signature():
                        self.sum[u] = s
                        again |= callers.get(u, set())
                todo = sorted(again, key=rank.get) if rnd >= 3 else (list(comp) if again else [])
                rnd += 1
                if rnd > 200:
                    raise AnalysisBroken("the effect summaries do not settle")
        self.sizes = n
        self.passes = sum(n.values())
        return self


def components(nodes, succ):
    """Tarjan, iterative: strongly connected components, callees first; members in program order."""
    index, low, onst, st, out = {}, {}, set(), [], []
    order = {u: i for i, u in enumerate(nodes)}
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ.get(root, ())))]
        index[root] = low[root] = len(index)
        st.append(root)
        onst.add(root)
        while work:
            u, it = work[-1]
            nxt = next(it, None)
            if nxt is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        v = st.pop()
                        onst.discard(v)
                        comp.append(v)
                        if v == u:
                            break
                    out.append(sorted(comp, key=order.get))
            elif nxt not in index:
                index[nxt] = low[nxt] = len(index)
                st.append(nxt)
                onst.add(nxt)
                work.append((nxt, iter(succ.get(nxt, ()))))
            elif nxt in onst:
                low[u] = min(low[u], index[nxt])
    return out


class FuncFlow(Flow):
    def __init__(self, eff: Effects, f: Func):
        super().__init__()
        self.e, self.f = eff, f
        self.s = Summary()
        self.hints = eff_hints(f)
        self.heap: dict = {}
        self.cur = None
        self.ret = None
        self.selfless = f.name == "__init__"
        self._globals = {x for n in walk_own(f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}

    # ------------------------------------------------------------- domain
    def copy(self, s):
        return dict(s)

    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            if k in out:
                out[k] = join(out[k], v)
            elif not isinstance(k, tuple):
                out[k] = v
        for k in a:
            if isinstance(k, tuple) and k not in b:
                del out[k]
        return out

    def same(self, a, b):
        return {k: (v.o, v.k) for k, v in a.items()} == {k: (v.o, v.k) for k, v in b.items()}

    # ------------------------------------------------------------ running
    def analyse(self) -> Summary:
        f = self.f
        env = {}
        names = list(f.args_nodes)
        if f.vararg:
            names.append(f.vararg)
        if f.kwarg:
            names.append(f.kwarg)
        for n in names:
            env[n] = Value({("P", n, ())}, self.param_kind(n))
        # closure variables of an enclosing function
        g = f.parent
        while g is not None:
            for n in list(g.args_nodes):
                env.setdefault(n, Value({("P", n, ())}, UNK))
            g = g.parent
        for _ in range(20):
            before = sum(len(x) for d in self.heap.values() for x in d.values())
            self.returns, self.raises = [], []
            end = self.run(f.node, dict(env))
            if sum(len(x) for d in self.heap.values() for x in d.values()) == before:
                break
        if self.ret is not None:
            self.s.ret_o, self.s.ret_k = self.trim(self.ret.o), self.ret.k
        reach = set(self.s.ret_o)
        todo = list(reach)
        while todo:
            o = todo.pop()
            for fld, os in self.heap.get(o, {}).items():
                for x in os:
                    if x not in reach:
                        reach.add(x)
                        todo.append(x)
        for o, d in self.heap.items():
            if o[0] == "P" and len(o[2]) <= 1 or o in reach:
                self.s.heap[o] = {k: frozenset(v) for k, v in d.items()}
        exits = [x for _, x in self.returns] + ([end] if end is not None else [])
        if exits and not isinstance(f.node, ast.Lambda):
            for k in exits[0]:
                if isinstance(k, tuple) and k[0][0] == "P" and all(k in x for x in exits):
                    self.s.strong[k] = frozenset(o for x in exits for o in x[k].o)
                    for o in self.s.strong[k]:
                        if o in self.heap:
                            self.s.heap[o] = {q: frozenset(v) for q, v in self.heap[o].items()}
        self.s.mut = shorten(self.s.mut)
        self.s.arr_params = {n for n in names if self.param_kind(n) == ARR or n in self.arr_seen}
        return self.s

    def trim(self, os):
        return frozenset(os)

    @property
    def arr_seen(self):
        return self.hints

    def param_kind(self, n):
        f = self.f
        if n == f.self_name:
            return OBJ
        a = f.args_nodes.get(n)
        if n == f.vararg or n == f.kwarg:
            return SEQ
        ts = self.e.t.ann(a.annotation, f.module, f.cls) if a is not None else frozenset()
        k = kind_of(ts)
        if k == UNK and n in self.hints:
            k = ARR
        if k == UNK:
            d = f.defaults.get(n)
            if isinstance(d, ast.Constant) and d.value is not None:
                k = IMM
        return k

    # --------------------------------------------------------------- heap
    def store(self, base: Value, field: str, val: Value):
        if val.k == IMM or not val.o:
            return
        for o in base.o:
            self.heap.setdefault(o, {}).setdefault(field, set()).update(val.o)

    def set_strong(self, base: Value, field: str, val: Value, s):
        """base.field = val, when base is one definite object: later loads see exactly val."""
        if s is None or not isinstance(s, dict):
            return
        for k in [k for k in s if isinstance(k, tuple) and k[1] == field and k[0] in base.o]:
            del s[k]
        if len(base.o) == 1:
            o = next(iter(base.o))
            if o[0] == "P" and "[]" not in o[2] and "*" not in o[2]:
                s[(o, field)] = Value(val.o, val.k)
                for k in [k for k in s if isinstance(k, tuple) and k[0][1] == o[1]
                          and k[0][2][:len(o[2]) + 1] == o[2] + (field,)]:
                    del s[k]

    def load(self, base: Value, field: str) -> frozenset:
        out = set()
        if self.cur is not None and len(base.o) == 1:
            o = next(iter(base.o))
            if (o, field) in self.cur:
                return frozenset(self.cur[(o, field)].o)
        if field == "[]":  # an unknown key: every keyed entry as well
            for o in base.o:
                for f, x in list(self.heap.get(o, {}).items()):
                    if f.startswith("['"):
                        out |= set(x)
        elif field.startswith("['"):
            for o in base.o:
                out |= set(self.heap.get(o, {}).get("[]", ()))
        for o in base.o:
            x = ext(o, field)
            if x is not None:
                out.add(x)
            d = self.heap.get(o, {})
            out |= set(d.get(field, ()))
            out |= set(d.get("*", ()))
            for src in d.get("**", ()):  # shallow copy
                y = ext(src, field)
                if y is not None:
                    out.add(y)
                out |= set(self.heap.get(src, {}).get(field, ()))
        return frozenset(out)

    def new(self, node, k=UNK, tag=0):
        return Value({("N", (self.f.uid, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag))}, k)

    def mutate(self, v: Value, field, node, text=None):
        """A write into v (field: name or '[]')."""
        site = Site(self.f, text or ast.unparse(node)[:80], getattr(node, "lineno", self.f.node.lineno))
        for o in v.o:
            if o[0] == "P":
                self.s.mut.setdefault((o[1], o[2] + (field,) if field else o[2]), set()).add(site)

    # --------------------------------------------------------- expressions
    def expr(self, e, s):
        self.ev(e, s)

    def ev(self, e, s) -> Value:
        self.cur = s
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            return Value((), IMM)
        if isinstance(e, ast.Name):
            if e.id in s:
                return s[e.id]
            ent = self.e.p.resolve_name(self.f.module, e.id)
            if ent is not None and ent[0] == "var" and ent[3] is not None and isinstance(
                ent[3], (ast.List, ast.Dict, ast.Call, ast.Set, ast.ListComp)
            ):
                return Value({("P", f"global {e.id}", ())}, UNK)
            return Value((), UNK)
        if isinstance(e, ast.Attribute):
            return self.ev_attr(e, s)
        if isinstance(e, ast.Subscript):
            return self.ev_sub(e, s)
        if isinstance(e, ast.Call):
            return self.ev_call(e, s)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, s)
            s[e.target.id] = v
            return v
        if isinstance(e, ast.IfExp):
            self.ev(e.test, s)
            return join(self.ev(e.body, s), self.ev(e.orelse, s))
        if isinstance(e, ast.BoolOp):
            v = self.ev(e.values[0], s)
            for x in e.values[1:]:
                v = join(v, self.ev(x, s))
            return v
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            n = self.new(e, SEQ)
            for x in e.elts:
                v = self.ev(x.value if isinstance(x, ast.Starred) else x, s)
                if isinstance(x, ast.Starred):
                    v = Value(self.load(v, "[]"), UNK)
                self.store(n, "[]", v)
            return n
        if isinstance(e, ast.Dict):
            n = self.new(e, SEQ)
            for k, x in zip(e.keys, e.values):
                if k is not None:
                    self.ev(k, s)
                self.store(n, "[]", self.ev(x, s))
            return n
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = dict(s)
            for g in e.generators:
                self.for_bind(g.target, g.iter, cur, e)
                for c in g.ifs:
                    self.ev(c, cur)
            n = self.new(e, SEQ)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, cur)
                self.store(n, "[]", self.ev(e.value, cur))
            else:
                self.store(n, "[]", self.ev(e.elt, cur))
            return n
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, s), self.ev(e.right, s)
            k = ARR if ARR in (a.k, b.k) else IMM if a.k == b.k == IMM else SEQ if SEQ in (a.k, b.k) else UNK
            n = self.new(e, k)
            if isinstance(e.op, ast.Add) and (k == SEQ or ARR not in (a.k, b.k)):
                # list concatenation keeps the elements
                if SEQ in (a.k, b.k):
                    for v in (a, b):
                        el = self.load(v, "[]")
                        self.store(n, "[]", Value(el))
            return n
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                self.ev(x, s)
            return self.new(e, IMM)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, s)
            return self.new(e, v.k)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, s)
        if isinstance(e, ast.Lambda):
            return self.new(e, OBJ)
        if isinstance(e, (ast.Yield, ast.Await, ast.YieldFrom)):
            v = self.ev(e.value, s) if e.value is not None else Value((), IMM)
            if isinstance(e, ast.Yield):
                n = self.new(e, SEQ)
                self.store(n, "[]", v)
                self.ret = n if self.ret is None else join(self.ret, n)
            return v
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, s)
            return Value((), IMM)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return Value()

    def type_kind(self, e):
        return kind_of(self.e.t.infer(e, self.f, self.f.module))

    def ev_attr(self, e, s):
        props = self.e.calls.property_targets(e, self.f, self.f.module)
        base = self.ev(e.value, s)
        if e.attr in ATTR_IMM:
            return Value((), IMM)
        if e.attr in ATTR_VIEW:
            return Value(base.o, base.k)
        if e.attr == "nodes" and not props:  # node attribute table of a graph
            return Value(base.o, OBJ)
        k = self.type_kind(e)
        out = set()
        if props:
            exact = any(t[0] == "inst" for t in self.e.t.infer(e.value, self.f, self.f.module))
            for g in props:
                v = self.apply(g, e, [(g.self_name, base)] if g.self_name else [], s, tag=g.uid)
                out |= v.o
                if k == UNK and v.k:
                    k = v.k
            if not exact:
                out |= self.load(base, e.attr)
        else:
            out |= self.load(base, e.attr)
        if not base.o and not out:
            # attribute of a module / unknown
            return Value((), k)
        return Value(out, k)

    def is_copy_index(self, sl, s):
        """Fancy indexing gives a copy, basic indexing a view."""
        if isinstance(sl, ast.Tuple):
            return any(self.is_copy_index(x, s) for x in sl.elts)
        if isinstance(sl, ast.Slice) or isinstance(sl, ast.Constant):
            return False
        if isinstance(sl, (ast.Compare, ast.BoolOp, ast.List, ast.ListComp)):
            return True
        if isinstance(sl, ast.UnaryOp):
            if isinstance(sl.op, ast.USub):
                return False
            return True
        ts = self.e.t.infer(sl, self.f, self.f.module)
        if any(t[0] == "prim" and t[1] in ("ndarray", "boolarr", "arraylike") or t[0] == "list" for t in ts):
            return True
        if isinstance(sl, ast.Call):
            fn = ast.unparse(sl.func).split(".")[-1]
            if fn in ("nonzero", "where", "argsort", "logical_and", "logical_or", "logical_not", "arange", "flatnonzero"):
                return True
        return False

    def ev_sub(self, e, s):
        b = self.ev(e.value, s)
        self.ev(e.slice, s)
        # __getitem__ of a project class
        ts = self.e.t.infer(e.value, self.f, self.f.module)
        out = set()
        got = False
        for t in ts:
            if t[0] == "inst":
                m = self.e.p.find_method(t[1], "__getitem__")
                if m:
                    out |= self.apply(m, e, [(m.self_name, b)], s).o
                    got = True
        k = self.type_kind(e)
        if b.k == ARR or any(t == ("prim", "ndarray") for t in ts):
            if self.is_copy_index(e.slice, s):
                return self.new(e, ARR)
            has_slice = isinstance(e.slice, ast.Slice) or isinstance(e.slice, ast.Tuple) and any(
                isinstance(x, ast.Slice) for x in e.slice.elts)
            return Value({x for o in b.o for x in [ext(o, "[]") if o[0] == "P" else o] if x}, ARR if has_slice else UNK)
        if isinstance(e.slice, ast.Slice):
            if b.k == SEQ or any(t[0] == "list" for t in ts):
                n = self.new(e, SEQ)
                for o in b.o:
                    self.heap.setdefault(next(iter(n.o)), {}).setdefault("**", set()).add(o)
                return n
            # unknown: may be an array view
            return Value(b.o, b.k)
        if not got:
            out |= self.load(b, sub_field(e.slice))
            if b.k == UNK:
                out |= {o for o in b.o if o[0] == "N"}
        if self.is_copy_index(e.slice, s) and b.k != SEQ:
            return self.new(e, ARR)
        return Value(out, k)

    # ----------------------------------------------------------------- calls
    def ev_call(self, e, s):
        fn = e.func
        base = None
        if isinstance(fn, ast.Attribute):
            if not (isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name)
                    and fn.value.func.id == "super"):
                base = self.ev(fn.value, s)
            else:
                g = self.f
                while g is not None and not g.self_name:
                    g = g.parent
                if g is not None and g.self_name in s:
                    base = s[g.self_name]
        elif isinstance(fn, ast.Name):
            pass
        else:
            self.ev(fn, s)
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, s) for a in e.args]
        kws = {k.arg: self.ev(k.value, s) for k in e.keywords}
        starred = any(isinstance(a, ast.Starred) for a in e.args)
        ts = self.e.calls.targets(e, self.f, self.f.module)
        out = None
        any_proj = False
        for i, t in enumerate(ts):
            if t.func is not None:
                any_proj = True
                v = self.call_func(e, t, base, args, kws, starred, s, i)
            elif t.cls is not None:
                any_proj = True
                v = self.call_ctor(e, t.cls, args, kws, starred, s)
            else:
                v = self.call_ext(e, t.ext or "?", base, args, kws, s, any_proj or len(ts) > 1)
            out = v if out is None else join(out, v)
        return out if out is not None else self.new(e)

    def bind_args(self, g: Func, receiver, args, kws, starred):
        pos = list(g.pos)
        pairs = []
        if receiver is not None and pos and g.has_self:
            pairs.append((pos[0], receiver))
            pos = pos[1:]
        elif g.has_self and receiver is None and False:
            pass
        if starred:
            allv = Value()
            for a in args:
                allv = join(allv, Value(a.o | self.load(a, "[]"), UNK))
            for q in pos:
                pairs.append((q, allv))
        else:
            for q, a in zip(pos, args):
                pairs.append((q, a))
            if g.vararg and len(args) > len(pos):
                rest = Value()
                for a in args[len(pos):]:
                    rest = join(rest, a)
                pairs.append((g.vararg, rest))
        for k, v in kws.items():
            if k is None:
                continue
            if k in g.args_nodes:
                pairs.append((k, v))
            elif g.kwarg:
                pairs.append((g.kwarg, v))
        return pairs

    def call_func(self, e, t, base, args, kws, starred, s, i):
        g = t.func
        recv = None
        if g.has_self:
            if g.is_classmethod:
                recv = Value((), OBJ)
            elif t.bound and base is not None and isinstance(e.func, ast.Attribute):
                recv = base
            elif t.bound and base is None:
                recv = Value((), OBJ)
        return self.apply(g, e, self.bind_args(g, recv, args, kws, starred), s, tag=i, exact=t.exact)

    def call_ctor(self, e, cls, args, kws, starred, s):
        n = self.new(e, OBJ)
        g = self.e.p.init_func(cls)
        if g is not None:
            self.apply(g, e, self.bind_args(g, n, args, kws, starred), s)
        elif cls.is_dataclass:
            flds = [x for x, _ in self.e.p.dataclass_fields(cls)]
            for x, a in zip(flds, args):
                self.store(n, x, a)
            for k, v in kws.items():
                if k:
                    self.store(n, k, v)
            pi = self.e.p.find_method(cls, "__post_init__")
            if pi:
                self.apply(pi, e, [(pi.self_name, n)], s)
        else:
            for a in list(args) + list(kws.values()):
                self.store(n, "*", a)
        return n

    def apply(self, g: Func, node, pairs, s, tag=0, exact=True) -> Value:
        """Instantiate the summary of g."""
        sm = self.e.sum.get(g.uid)
        if sm is None:
            return self.new(node, UNK, tag)
        bind: dict[str, Value] = {}
        for q, v in pairs:
            bind[q] = join(bind[q], v) if q in bind else v
        # closures: parameters of the enclosing function keep their meaning
        h = g.parent
        while h is not None:
            for q in h.args_nodes:
                if q in s and q not in bind:
                    bind[q] = s[q]
            h = h.parent
        memo = {}

        def inst(o):
            if o in memo:
                return memo[o]
            if o[0] == "N":
                r = {("N", (self.f.uid, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), (tag, "r")))}
                memo[o] = r
                return r
            q, path = o[1], o[2]
            if q.startswith("global "):
                return {o}
            cur = bind.get(q)
            if cur is None:
                memo[o] = set()
                return set()
            for fld in path:
                cur = Value(self.load(cur, fld) if fld != "*" else cur.o | self.load(cur, "[]"))
            memo[o] = set(cur.o)
            return memo[o]

        touched = set()
        for (q, path), sites in sm.mut.items():
            if q.startswith("global "):
                for x in sites:
                    self.s.mut.setdefault((q, path), set()).add(x)
                continue
            v = bind.get(q)
            if v is None:
                continue
            if not path:
                targets, last = v, None
            else:
                targets = v
                for fld in path[:-1]:
                    targets = Value(self.load(targets, fld) if fld != "*" else targets.o)
                last = path[-1]
                touched |= {(last, o) for o in targets.o}
            for o in targets.o:
                if o[0] == "P":
                    pth = o[2]
                    if last is not None:
                        pth = (pth + (last,)) if not (pth and pth[-1] == last == "[]") else pth
                        pth = pth[:MAXPATH + 1]
                    self.s.mut.setdefault((o[1], pth), set()).update(sites)
        for o, d in (sm.heap.items() if exact else ()):
            bases = inst(o)
            for fld, os in d.items():
                vals = set()
                for x in os:
                    vals |= inst(x)
                for b in bases:
                    if vals:
                        self.heap.setdefault(b, {}).setdefault(fld, set()).update(vals)
        for k in [k for k in s if isinstance(k, tuple) and (k[1], k[0]) in touched]:
            del s[k]
        if exact:
            for (o, fld), os in sm.strong.items():
                bases = inst(o)
                vals = {x for y in os for x in inst(y)}
                self.set_strong(Value(bases), fld, Value(vals), s)
        out = set()
        for o in sm.ret_o:
            out |= inst(o)
        if not sm.ret_o:
            return self.new(node, sm.ret_k or UNK, tag)
        return Value(out, sm.ret_k or UNK)

    def call_ext(self, e, name, base, args, kws, s, maybe_project):
        last = name.split(".")[-1]
        if "out" in kws and kws["out"].o:
            self.mutate(kws["out"], "[]", e)
            return kws["out"]
        if name.startswith("numpy") or name.startswith("scipy"):
            if last in NP_INPLACE and args:
                self.mutate(args[0], "[]", e)
                return Value((), IMM)
            if last in NP_UFUNC and len(args) > NP_UFUNC[last]:
                self.mutate(args[NP_UFUNC[last]], "[]", e)
                return args[NP_UFUNC[last]]
            if last in NP_VIEW and args:
                if args[0].k == SEQ:
                    return self.new(e, ARR)
                return Value(args[0].o, ARR)
            if last == "array":
                for k in e.keywords:
                    if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                        return Value(args[0].o, ARR)
            if last == "nan_to_num":
                for k in e.keywords:
                    if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                        self.mutate(args[0], "[]", e)
                        return Value(args[0].o, ARR)
            return self.new(e, kind_of(self.e.t.infer(e, self.f, self.f.module)) if not last == "copy" else ARR)
        if name in ("copy.deepcopy",):
            return self.new(e, args[0].k if args else UNK)
        if name in ("copy.copy",) and args:
            n = self.new(e, args[0].k)
            if args[0].k != ARR:
                for o in args[0].o:
                    self.heap.setdefault(next(iter(n.o)), {}).setdefault("**", set()).add(o)
            return n
        if name.startswith("builtins."):
            if last == "setattr" and args:
                fld = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "*"
                self.mutate(args[0], fld, e)
                if len(args) > 2:
                    self.store(args[0], fld, args[2])
                return Value((), IMM)
            if last == "delattr" and args:
                self.mutate(args[0], "*", e)
                return Value((), IMM)
            if last == "getattr" and args:
                fld = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "*"
                v = Value(self.load(args[0], fld), UNK)
                for x in args[2:]:
                    v = join(v, x)
                return v
            if last in SHALLOW:
                n = self.new(e, SEQ)
                for a in args:
                    for o in a.o:
                        self.heap.setdefault(next(iter(n.o)), {}).setdefault("**", set()).add(o)
                return n
            if last == "next" and args:
                v = Value(self.load(args[0], "[]"))
                for x in args[1:]:
                    v = join(v, x)
                return v
            if last in ("min", "max", "sum") and args:
                v = Value()
                for a in args:
                    v = join(v, Value(self.load(a, "[]") if len(args) == 1 else a.o))
                return v if last != "sum" else self.new(e)
            return Value((), IMM) if last in ("len", "int", "float", "bool", "str", "isinstance", "hasattr",
                                              "range", "abs", "round", "print", "any", "all", "id", "type",
                                              "repr") else self.new(e)
        if base is not None:
            is_arr = base.k == ARR
            if last in METHOD_INPLACE and not is_pure_receiver(e, self):
                if not (last == "update" and maybe_project) and not (
                    last in ("add", "update", "pop", "insert", "remove", "clear", "reverse", "put") and maybe_project
                    and base.k not in (SEQ, ARR)
                ):
                    self.mutate(base, "[]", e)
                    if last in GROWING:
                        for i, a in enumerate(args):
                            if last == "extend":
                                self.store(base, "[]", Value(self.load(a, "[]"), UNK))
                            else:
                                self.store(base, "[]", a)
                    elif last in ("add_node", "add_edge"):
                        node_attrs = Value({x for o in base.o for x in [ext(o, "[]") or o]})
                        for k, v in kws.items():
                            if k:
                                self.store(node_attrs, f"['{k}']", v)
                    if last in ("pop", "popleft", "popitem", "setdefault"):
                        return Value(self.load(base, "[]"))
                    return Value((), IMM)
            if last in METHOD_VIEW:
                if last in ("values", "items", "keys"):
                    n = self.new(e, SEQ)
                    for o in base.o:
                        self.heap.setdefault(next(iter(n.o)), {}).setdefault("**", set()).add(o)
                    return n
                if last in ("get", "setdefault"):
                    v = Value(self.load(base, "[]"))
                    for a in args[1:]:
                        v = join(v, a)
                    return v
                return Value(base.o, ARR)
            if last == "astype":
                for k in e.keywords:
                    if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                        return Value(base.o, ARR)
            if last == "copy":
                n = self.new(e, base.k)
                if base.k == SEQ:
                    for o in base.o:
                        self.heap.setdefault(next(iter(n.o)), {}).setdefault("**", set()).add(o)
                return n
            if last == "nodes":
                return Value(base.o, OBJ)
            if last in ("successors", "predecessors", "neighbors", "edges"):
                return self.new(e, SEQ)
        # constructors of external classes keep what they are given
        n = self.new(e, kind_of(self.e.t.infer(e, self.f, self.f.module)))
        if last[:1].isupper():
            for a in args:
                self.store(n, "*", a)
            for k, v in kws.items():
                if k:
                    self.store(n, k, v)
        return n

    # ------------------------------------------------------------- statements
    def stmt(self, st, s):
        if isinstance(st, ast.Assign) and not isinstance(st.targets[0], (ast.Tuple, ast.List)):
            v = self.ev(st.value, s)
            for t in st.targets:
                self.bind(t, v, s, st)
            return s
        if isinstance(st, ast.Assign):
            for t in st.targets:
                self.assign(t, st.value, s, st)
            return s
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, st.value, s, st)
            return s
        if isinstance(st, ast.Return):
            self.on_return(st, s)
            self.returns.append((st, s))
            return None
        return super().stmt(st, s)

    def assign(self, target, value, s, node):
        if isinstance(target, ast.Starred):
            target = target.value
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
                vals = [self.ev(v, s) for v in value.elts]
                for t, v in zip(target.elts, vals):
                    self.bind(t, v, s, node)
            else:
                v = self.ev(value, s) if value is not None else Value()
                el = Value(self.load(v, "[]"), UNK)
                if v.k == ARR:
                    el = Value({x for o in v.o for x in [ext(o, "[]") or o]}, UNK)
                for t in target.elts:
                    self.bind(t, el, s, node)
            return
        self.bind(target, self.ev(value, s) if value is not None else Value(), s, node)

    def bind(self, t, v, s, node):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Name):
            if v.k == UNK and t.id in self.hints:
                v = Value(v.o, ARR)
            if self.is_global(t.id):
                self.s.mut.setdefault((f"global {t.id}", ()), set()).add(
                    Site(self.f, ast.unparse(node)[:80], node.lineno))
            s[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            el = Value(self.load(v, "[]"), UNK)
            for x in t.elts:
                self.bind(x, el, s, node)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, s)
            setters = []
            for ty in self.e.t.infer(t.value, self.f, self.f.module):
                if ty[0] == "inst":
                    g = self.e.p.find_setter(ty[1], t.attr)
                    if g:
                        setters.append(g)
            if setters:
                for g in setters:
                    self.apply(g, node, [(g.pos[0], base), (g.pos[1], v)], s)
            else:
                ent = self.e.p.resolve_name(self.f.module, t.value.id) if isinstance(t.value, ast.Name) \
                    and t.value.id not in s else None
                if ent is not None and ent[0] in ("class", "module"):
                    self.s.mut.setdefault((f"global {t.value.id}", (t.attr,)), set()).add(
                        Site(self.f, ast.unparse(node)[:80], node.lineno))
                self.mutate(base, t.attr, node)
                self.store(base, t.attr, v)
                self.set_strong(base, t.attr, v, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, s)
            self.ev(t.slice, s)
            done = False
            for ty in self.e.t.infer(t.value, self.f, self.f.module):
                if ty[0] == "inst":
                    m = self.e.p.find_method(ty[1], "__setitem__")
                    if m and len(m.pos) >= 3:
                        self.apply(m, node, [(m.pos[0], base), (m.pos[2], v)], s)
                        done = True
            if not done:
                self.mutate(base, sub_field(t.slice), node)
                if base.k != ARR:
                    self.store(base, sub_field(t.slice), v)

    def is_global(self, name):
        return name in self._globals

    def augassign(self, node, s):
        v = self.ev(node.value, s)
        t = node.target
        if isinstance(t, ast.Name):
            cur = s.get(t.id, Value())
            if self.is_global(t.id):
                self.bind(t, v, s, node)
                return
            if cur.k in (ARR, SEQ) or (cur.k == UNK and v.k == ARR and False):
                self.mutate(cur, "[]", node)
                if cur.k == SEQ:
                    self.store(cur, "[]", Value(self.load(v, "[]")))
            elif cur.k == UNK and t.id in self.hints:
                self.mutate(cur, "[]", node)
            else:
                s[t.id] = self.new(node, cur.k)
            return
        if isinstance(t, ast.Attribute):
            base = self.ev(t.value, s)
            cur = self.ev_attr(ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t), s)
            self.mutate(base, t.attr, node)
            if cur.k in (ARR, SEQ):
                self.mutate(cur, "[]", node)
            return
        if isinstance(t, ast.Subscript):
            base = self.ev(t.value, s)
            self.ev(t.slice, s)
            fld = sub_field(t.slice)
            self.mutate(base, fld, node)
            if fld in ARRAY_KEYS:  # an array kept in a slot is changed in place
                self.mutate(Value(self.load(base, fld)), "[]", node)
            return

    def delete(self, target, s, node):
        if isinstance(target, ast.Subscript):
            base = self.ev(target.value, s)
            self.mutate(base, "[]", node)
        elif isinstance(target, ast.Attribute):
            self.mutate(self.ev(target.value, s), target.attr, node)

    def for_bind(self, target, it, s, node):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "zip") \
                and isinstance(target, ast.Tuple) and it.args:
            if it.func.id == "enumerate" and len(target.elts) == 2:
                self.bind(target.elts[0], Value((), IMM), s, node)
                self.bind(target.elts[1], self.elements(it.args[0], s), s, node)
                return
            if it.func.id == "zip" and len(target.elts) == len(it.args):
                for t, a in zip(target.elts, it.args):
                    self.bind(t, self.elements(a, s), s, node)
                return
        self.bind(target, self.elements(it, s), s, node)

    def elements(self, it, s):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in (
            "reversed", "sorted", "list", "tuple", "iter"
        ) and it.args:
            return self.elements(it.args[0], s)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range":
            for a in it.args:
                self.ev(a, s)
            return Value((), IMM)
        v = self.ev(it, s)
        ts = self.e.t.infer(it, self.f, self.f.module)
        for t in ts:
            if t[0] == "inst":
                m = self.e.p.find_method(t[1], "__iter__")
                if m:
                    r = self.apply(m, it, [(m.self_name, v)], s)
                    return Value(self.load(r, "[]") | self.load(v, "[]"), OBJ)
        k = UNK
        el = self.e.t.elem_types(it, self.f, self.f.module, 0)
        k = kind_of(el)
        return Value(self.load(v, "[]") if v.k != ARR else {
            x for o in v.o for x in [ext(o, "[]") or o]}, k)

    def define(self, node, s):
        if isinstance(node, ast.FunctionDef):
            s[node.name] = self.new(node, OBJ)
            g = getattr(node, "_func", None)
            # effects of nested functions on closure variables are applied where they are defined
            if g is not None:
                sm = self.e.sum.get(g.uid)
                if sm:
                    for (q, path), sites in sm.mut.items():
                        if q not in g.args_nodes and q in s:
                            for o in s[q].o:
                                if o[0] == "P":
                                    self.s.mut.setdefault((o[1], o[2] + path), set()).update(sites)

    def on_return(self, node, s):
        v = self.ev(node.value, s) if node.value is not None else Value((), IMM)
        self.ret = v if self.ret is None else join(self.ret, v)


def sub_field(sl) -> str:
    if isinstance(sl, ast.Constant) and isinstance(sl.value, str):
        return f"['{sl.value}']"
    return "[]"


def shorten(mut):
    out: dict = {}
    for (q, path), sites in mut.items():
        n = 3 if len(path) > 2 and path[2].startswith("['") else 2
        out.setdefault((q, path[:n]), set()).update(sites)
    return out


def is_pure_receiver(e, ff):
    """np.add(..)-style calls are not methods of a container; neither are plain module functions."""
    v = e.func.value
    ts = ff.e.t.infer(v, ff.f, ff.f.module)
    return any(t[0] in ("module", "extobj") for t in ts)


def kind_of(ts) -> str:
    out = None
    for t in ts:
        if t[0] == "prim":
            if t[1] in ("ndarray", "arraylike", "boolarr"):
                k = ARR
            elif t[1] in ("list", "tuple", "dict", "set"):
                k = SEQ
            elif t[1] in ("none",):
                continue
            elif t[1] == "arrelem":
                k = UNK
            else:
                k = IMM
        elif t[0] in ("list", "tuple"):
            k = SEQ
        elif t[0] in ("inst", "ext"):
            k = OBJ
        else:
            k = UNK
        out = k if out is None else jk(out, k)
    return out or UNK


VECTOR_NAME = re.compile(r"(^|_)(positions?|directions?|velocity|velocities|vectors?|vec|normals?|points?|attractor|weights|gammas)$")


def eff_hints(f: Func) -> set:
    """Names used the way only arrays are used, or called like a vector."""
    out = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and VECTOR_NAME.search(n.id)}
    out |= {x for x in f.args_nodes if VECTOR_NAME.search(x)}
    calls = {n.func.id for n in walk_own(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    out -= calls
    for n in walk_own(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
            if isinstance(n.slice, (ast.Slice, ast.Tuple)):
                out.add(n.value.id)
        elif isinstance(n, ast.Attribute) and n.attr in ("shape", "T", "ndim") and isinstance(n.value, ast.Name):
            out.add(n.value.id)
        elif isinstance(n, ast.Call):
            nm = ast.unparse(n.func)
            last = nm.split(".")[-1]
            if (nm.startswith(("np.", "LA.", "numpy.", "linalg.")) and last in (
                "norm", "dot", "cross", "matmul", "copy", "any", "all", "mean", "allclose", "isnan")):
                for a in n.args[:2]:
                    if isinstance(a, ast.Name):
                        out.add(a.id)
            elif last in ("dot", "flatten") and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
    return out
