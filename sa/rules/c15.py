"""C15: every query answers on every path, and an answer that can be "nothing" is tested before use.

Nullness dataflow over every function of the package, with interprocedural summaries:
``may_none`` (the function can return None) and ``needs`` (parameters it dereferences untested).
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..flow import Flow
from ..index import Func, Program, walk_own, real_body
from ..interval import outside_names
from ..optional import Optionals
from ..report import Result
from ..scope import is_offline
from .c12 import is_drawing

NONE, MAYBE, OK = "none", "maybe", "ok"
SET = "#set"  # paths (self.x, child.parent, self._list[i]) known to hold something here
DEREF_BUILTINS = {"len", "enumerate", "zip", "iter", "sorted", "reversed", "sum", "min", "max", "abs",
                  "float", "int", "any", "all", "tuple", "list", "set", "next", "round", "range"}
# numpy functions that give a (wrong) answer or raise when handed None; the few that tolerate it are out
NP_TOLERANT = {"array_equal", "ndim", "isscalar", "shape", "size", "array", "asarray", "save", "savez"}


def jn(a, b):
    if a == b:
        return a
    return MAYBE


class Null(Flow):
    def __init__(self, rule: "Nullness", f: Func):
        super().__init__()
        self.rule, self.f = rule, f
        self.events = []  # (node, name, why)
        self.why: dict[str, str] = {}
        self.ret = None

    def copy(self, s):
        return dict(s)

    def join(self, a, b):
        out = {}
        ok = a.get(SET, frozenset()) & b.get(SET, frozenset())
        if ok:
            out[SET] = ok
        for k in set(a) | set(b):
            if k == SET:
                continue
            v = jn(a.get(k, OK), b.get(k, OK))
            if v != OK:
                out[k] = v
        return out

    # ------------------------------------------------------------ evaluate
    def val(self, e, s):
        if isinstance(e, ast.Constant):
            return NONE if e.value is None else OK
        if isinstance(e, ast.Name):
            return s.get(e.id, OK)
        if isinstance(e, ast.NamedExpr):
            return self.val(e.value, s)
        if isinstance(e, ast.IfExp):
            t = self.assume(e.test, True, self.copy(s))
            f = self.assume(e.test, False, self.copy(s))
            return jn(self.val(e.body, t), self.val(e.orelse, f))
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            return self.val(e.values[-1], s)
        if isinstance(e, ast.Call):
            return self.rule.call_none(e, self.f)
        if isinstance(e, (ast.Attribute, ast.Subscript)) and isinstance(e.ctx, ast.Load) \
                and self.rule.opt is not None and ast.unparse(e) not in s.get(SET, ()) \
                and self.rule.opt.optional(e, self.f):
            return MAYBE
        return OK

    def known(self, e, s, truth=True):
        """The path e holds something (or nothing is known any more)."""
        k = ast.unparse(e)
        cur = s.get(SET, frozenset())
        s[SET] = cur | {k} if truth else cur - {k}

    def forget(self, name, s):
        """The name (or self.attr) was given another value: what was known below it is gone."""
        cur = s.get(SET)
        if cur:
            s[SET] = frozenset(k for k in cur if not mentions(k, name))

    def explain(self, e, s):
        if isinstance(e, ast.Name):
            return self.why.get(e.id, f"'{e.id}' can be None here")
        if isinstance(e, ast.Call):
            return f"{ast.unparse(e.func)}(..) can return None"
        return f"{ast.unparse(e)} can be None"

    def deref(self, e, s, node, how):
        v = self.val(e, s)
        if v == OK or (isinstance(e, ast.Constant)):
            return
        self.events.append((node, e, how, self.explain(e, s), v))
        if isinstance(e, ast.Name):
            s.pop(e.id, None)  # report once per path
        elif isinstance(e, (ast.Attribute, ast.Subscript)):
            self.known(e, s)

    # --------------------------------------------------------------- hooks
    def expr(self, e, s):
        if e is None:
            return
        if isinstance(e, ast.BoolOp):
            cur = self.copy(s)
            for v in e.values:
                self.expr(v, cur)
                cur = self.assume(v, isinstance(e.op, ast.And), cur)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, s)
            self.expr(e.body, self.assume(e.test, True, self.copy(s)))
            self.expr(e.orelse, self.assume(e.test, False, self.copy(s)))
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, s)
            self.assign(e.target, e.value, s, e)
            return
        if isinstance(e, (ast.Lambda,)):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = self.copy(s)
            for g in e.generators:
                self.expr(g.iter, cur)
                self.deref(g.iter, cur, g.iter, "iterated")
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        cur.pop(n.id, None)
                for c in g.ifs:
                    self.expr(c, cur)
                    cur = self.assume(c, True, cur)
            for fld in ("elt", "key", "value"):
                if hasattr(e, fld):
                    self.expr(getattr(e, fld), cur)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.expr(c, s)
            elif isinstance(c, ast.keyword):
                self.expr(c.value, s)
        if isinstance(e, ast.Attribute):
            self.deref(e.value, s, e, f"read .{e.attr}")
        elif isinstance(e, ast.Subscript):
            self.deref(e.value, s, e, "indexed")
            self.index_none(e, s)
        elif isinstance(e, ast.BinOp):
            self.deref(e.left, s, e, "used in arithmetic")
            self.deref(e.right, s, e, "used in arithmetic")
        elif isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not):
            self.deref(e.operand, s, e, "used in arithmetic")
        elif isinstance(e, ast.Starred):
            self.deref(e.value, s, e, "unpacked")
        elif isinstance(e, ast.Compare):
            xs = [e.left] + e.comparators
            for i, op in enumerate(e.ops):
                if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    self.deref(xs[i], s, e, "compared")
                    self.deref(xs[i + 1], s, e, "compared")
                elif isinstance(op, (ast.In, ast.NotIn)):
                    self.deref(xs[i + 1], s, e, "searched")
        elif isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                self.deref(e.func, s, e, "called")
            self.call_args(e, s)

    def index_none(self, e, s):
        """x[None] on a list: an optional index used untested."""
        if isinstance(e.slice, (ast.Name, ast.Attribute, ast.Subscript)) and self.rule.opt is not None:
            why = self.why.get(e.slice.id, "") if isinstance(e.slice, ast.Name) else "can be None"
            if "can be None" not in why or " if " in why:
                return  # (an optional index parameter chosen by another one)
            self.deref(e.slice, s, e, "used as an index")

    def call_args(self, e, s):
        ts = self.rule.calls.targets(e, self.f, self.f.module)
        for t in ts:
            if t.func is not None and t.func.uid in self.rule.helpers:
                self.rule.sites.setdefault(t.func.uid, {})[self.f.uid, e.lineno, e.col_offset] = self.handed(t, e, s)
        for t in ts:
            if t.ext is not None:
                last = t.ext.split(".")[-1]
                if t.ext.startswith("builtins.") and last in DEREF_BUILTINS or (
                    t.ext.startswith(("numpy.", "math.")) and last not in NP_TOLERANT
                ):
                    for a in e.args[:1] if not t.ext.startswith("builtins.") else e.args:
                        self.deref(a, s, e, f"handed to {last}()")
            elif (t.func is not None or t.cls is not None) and t.exact:
                g = t.func or self.rule.p.init_func(t.cls)
                if g is None:
                    continue
                need = self.rule.needs.get(g.uid, set())
                if not need:
                    continue
                pos = g.pos[1:] if g.has_self and (t.cls is not None or t.bound or g.is_classmethod) else g.pos
                for i, a in enumerate(e.args):
                    if isinstance(a, ast.Starred):
                        break
                    if i < len(pos) and pos[i] in need:
                        self.deref(a, s, e, f"handed to {g.qual}() as '{pos[i]}', which uses it untested,")
                for k in e.keywords:
                    if k.arg in need:
                        self.deref(k.value, s, e, f"handed to {g.qual}() as '{k.arg}', which uses it untested,")

    def handed(self, t, e, s):
        """What is known at the call, in the names of the helper."""
        g, cur = t.func, s.get(SET, frozenset())
        names = {}
        pos = list(g.pos)
        if g.has_self and not g.is_static and isinstance(e.func, ast.Attribute):
            if pos:
                names[ast.unparse(e.func.value)] = pos[0]
            pos = pos[1:]
        for q, a in zip(pos, e.args):
            names[ast.unparse(a)] = q
        for k in e.keywords:
            if k.arg:
                names[ast.unparse(k.value)] = k.arg
        out = set()
        for k in cur:
            for a, q in names.items():
                if k.startswith(a + ".") or k.startswith(a + "["):
                    rest = k[len(a):]
                    m = rest
                    for b, r in names.items():  # an index handed over under another name
                        m = m.replace(f"[{b}]", f"[{r}]")
                    out.add(q + m)
        return frozenset(out)

    def assign(self, target, value, s, node):
        if isinstance(target, ast.Starred):
            target = target.value
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
                vals = [self.val(v, s) for v in value.elts]
                for t, v, x in zip(target.elts, value.elts, vals):
                    self._bind(t, v, x, s)
            else:
                if value is not None:
                    self.deref(value, s, node, "unpacked")
                for t in target.elts:
                    self.assign(t, None, s, node)
            return
        if isinstance(target, ast.Name):
            self._bind(target, value, self.val(value, s) if value is not None else OK, s)
        elif isinstance(target, ast.Attribute):
            self.expr(target.value, s)
            self.deref(target.value, s, target, f"given .{target.attr}")
            self.forget(ast.unparse(target), s)
            if value is not None and self.val(value, s) == OK:
                self.known(target, s)
        elif isinstance(target, ast.Subscript):
            self.expr(target.value, s)
            self.expr(target.slice, s)
            self.deref(target.value, s, target, "indexed")
            self.index_none(target, s)
            self.forget(ast.unparse(target), s)
            if value is not None and self.val(value, s) == OK:
                self.known(target, s)

    def _bind(self, t, value, v, s):
        if not isinstance(t, ast.Name):
            return
        self.forget(t.id, s)
        if v == OK:
            s.pop(t.id, None)
        else:
            s[t.id] = v
            self.why[t.id] = self.explain(value, s) if value is not None and not (
                isinstance(value, ast.Constant)) else f"'{t.id}' can still be None here"

    def augassign(self, node, s):
        self.expr(node.value, s)
        self.deref(node.value, s, node, "used in arithmetic")
        if isinstance(node.target, ast.Name):
            self.deref(node.target, s, node, "used in arithmetic")
            s.pop(node.target.id, None)
        else:
            self.assign(node.target, None, s, node)

    def for_bind(self, target, it, s, node):
        self.deref(it, s, it, "iterated")
        self.assign(target, None, s, node)

    def cond(self, test, s):
        if isinstance(test, ast.NamedExpr):
            self.expr(test, s)
            return self.assume(test, True, self.copy(s)), self.assume(test, False, self.copy(s))
        return super().cond(test, s)

    def assume(self, test, truth, s):
        s = self.copy(s)
        e = test
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not truth, s)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) and truth or isinstance(e.op, ast.Or) and not truth:
                for v in e.values:
                    s = self.assume(v, truth, s)
            return s
        if isinstance(e, ast.NamedExpr):
            nm = e.target.id
            if truth:
                s.pop(nm, None)
            return s
        if isinstance(e, ast.Name):
            if truth:
                s.pop(e.id, None)
            return s
        if isinstance(e, (ast.Attribute, ast.Subscript)):
            if truth:
                self.known(e, s)
            return s
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            if isinstance(l, ast.Constant) and l.value is None:
                l, r = r, l
            if isinstance(l, ast.NamedExpr):
                l = l.target
            if isinstance(r, ast.Constant) and r.value is None and isinstance(l, ast.Name):
                isnone = isinstance(op, (ast.Is, ast.Eq)) == truth
                if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    if isnone:
                        s[l.id] = NONE
                    else:
                        s.pop(l.id, None)
                return s
            if isinstance(r, ast.Constant) and r.value is None and isinstance(l, (ast.Attribute, ast.Subscript)):
                if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)):
                    self.known(l, s, isinstance(op, (ast.Is, ast.Eq)) != truth)
                return s
            if isinstance(l, ast.Name) and truth and isinstance(op, (ast.Eq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                if not (isinstance(r, ast.Constant) and r.value is None):
                    s.pop(l.id, None)
            return s
        if isinstance(e, ast.Call) and truth:
            if isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr", "callable", "len") \
                    and e.args and isinstance(e.args[0], ast.Name):
                s.pop(e.args[0].id, None)
        return s

    def on_return(self, node, s):
        v = NONE if node.value is None else self.val(node.value, s)
        self.ret = v if self.ret is None else jn(self.ret, v)


def mentions(path: str, name: str) -> bool:
    i = path.find(name)
    while i >= 0:
        before = path[i - 1] if i else ""
        after = path[i + len(name):i + len(name) + 1]
        if not (before.isalnum() or before == "_" or (before == "." )) and not (after.isalnum() or after == "_"):
            return True
        i = path.find(name, i + 1)
    return False


class Nullness:
    opt = None

    def __init__(self, p: Program, calls: Calls):
        self.p, self.calls = p, calls
        self.opt = Optionals(p, calls)
        used = outside_names(p)
        self.helpers = {f.uid for f in p.iter_funcs() if not f.name.startswith("__") and not f.is_property and (
            f.name.startswith("_") or f.name not in used)}
        self.sites: dict = {}
        self.given: dict = {}
        self.may_none: set[str] = set()
        self.needs: dict[str, set] = {}
        self.result: dict[str, Null] = {}
        self.ends: dict[str, bool] = {}

    def call_none(self, e: ast.Call, f):
        for t in self.calls.targets(e, f, f.module):
            if t.func is not None and t.func.uid in self.may_none and (t.exact or self.by_name(e)):
                return MAYBE
            if t.ext and t.ext.endswith(".get") and t.ext.startswith("<dict") and len(e.args) == 1:
                return MAYBE
        return OK

    def by_name(self, e):
        """An unresolved receiver: believe the name only when every implementation can say 'nothing'."""
        if not isinstance(e.func, ast.Attribute):
            return False
        ms = [m for m in self.p.methods_by_name.get(e.func.attr, []) if not stub(m)]
        return bool(ms) and all(m.uid in self.may_none for m in ms)

    def analyse(self, f: Func, entry):
        fl = Null(self, f)
        end = fl.run(f.node, dict(entry))
        return fl, end is not None

    def entry(self, f: Func):
        s = {}
        for n, d in f.defaults.items():
            if isinstance(d, ast.Constant) and d.value is None:
                s[n] = MAYBE
        if self.given.get(f.uid):
            s[SET] = self.given[f.uid]
        return s

    def solve(self):
        funcs = [f for f in self.p.iter_funcs() if not isinstance(f.node, ast.Lambda)]
        for rnd in range(8):
            before = (set(self.may_none), {k: set(v) for k, v in self.needs.items()}, dict(self.given))
            self.sites = {}
            for f in funcs:
                if stub(f):
                    continue
                s = self.entry(f)
                fl, falls = self.analyse(f, s)
                self.result[f.uid], self.ends[f.uid] = fl, falls
                # has value returns?
                if not f.is_generator:
                    vals = [r for r, _ in fl.returns if r.value is not None]
                    if vals and (fl.ret in (NONE, MAYBE) or falls) and not all(
                        isinstance(r.value, ast.Constant) and r.value.value is None for r in vals
                    ):
                        self.may_none.add(f.uid)
                # needs: run with every parameter possibly None
                s2 = {q: MAYBE for q in f.params}
                keep, self.sites = self.sites, {}
                fl2, _ = self.analyse(f, s2)
                self.sites = keep
                need = set()
                for node, e, how, why, v in fl2.events:
                    if isinstance(e, ast.Name) and e.id in f.params and not rebinds_before(f, e.id):
                        need.add(e.id)
                self.needs[f.uid] = need
            self.given = {u: frozenset.intersection(*d.values()) for u, d in self.sites.items() if d}
            if before == (self.may_none, self.needs, self.given):
                break


def rebinds_before(f, name):
    """The parameter is given another value somewhere: its need is not a need of the argument."""
    return any(
        isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
        for n in walk_own(f.node)
    )


def stub(f: Func) -> bool:
    body = real_body(f.node)
    if f.is_abstract or (f.cls is not None and f.cls.is_protocol):
        return True
    return not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def says_nothing_is_possible(f: Func) -> bool:
    r = f.node.returns
    if r is None:
        return False
    t = ast.unparse(r)
    return "None" in t or "Optional" in t


PURE_DISCARD = (ast.BinOp, ast.Compare, ast.BoolOp, ast.Subscript, ast.Attribute, ast.Name, ast.UnaryOp,
                ast.List, ast.Tuple)


QUERY = ("get_", "evaluate", "compute_", "is_", "predict", "_get_", "_evaluate", "_compute_", "_predict",
         "has_", "transform_", "project", "rotate", "inverse_", "create_", "reduce_")


def run(p: Program, tier: str) -> Result:
    res = Result("Interprocedural nullness dataflow over every function: return completeness on all "
                 "paths, tested-before-use for every value that can be None.")
    res.rules = [
        "a function that returns a value on one path returns (or raises) on every path",
        "a query computes an answer and hands it out (no result left as a bare expression)",
        "a None-able result / optional argument is tested before it is dereferenced",
    ]
    res.assumptions = ["External packages return a value (their None results are not modelled)."]
    calls = Calls(p)
    nl = Nullness(p, calls)
    nl.solve()
    for f in p.iter_funcs():
        if stub(f) or isinstance(f.node, ast.Lambda):
            continue
        fl = nl.result[f.uid]
        falls = nl.ends[f.uid]
        res.count("functions")
        res.oblige(f"{f.qual}: {len(fl.returns)} returns, end {'reachable' if falls else 'unreachable'}")
        vals = [r for r, _ in fl.returns if r.value is not None]
        bare = [r for r, _ in fl.returns if r.value is None]
        nonnone = [r for r in vals if not (isinstance(r.value, ast.Constant) and r.value.value is None)]
        if not f.is_generator:
            ok_none = says_nothing_is_possible(f)
            if nonnone and (falls or bare) and not ok_none:
                what = "can reach its end without returning" if falls else "has a bare return"
                res.add("no-answer", f.qual, f.where,
                        f"{f.qual} returns a value on some paths but {what} on another")
            if not nonnone and not f.is_setter and f.name != "__init__":
                # never answers
                promised = f.node.returns is not None and not ok_none
                sib = None
                if f.cls is not None:
                    for k in p.mro(f.cls)[1:] + [c for c in p.subclasses(f.cls) if c is not f.cls]:
                        m = k.methods.get(f.name)
                        if m is not None and not stub(m) and m.uid in nl.result and any(
                            r.value is not None for r, _ in nl.result[m.uid].returns
                        ):
                            sib = m
                never = not falls and not fl.returns  # only raises
                if (promised or sib is not None or f.is_property) and not never and (falls or bare or vals):
                    res.add("never-answers", f.qual, f.where,
                            f"{f.qual} promises an answer"
                            + (f" (like {sib.qual})" if sib is not None else "")
                            + " and returns nothing")
        # result computed and dropped
        for n in walk_own(f.node):
            if isinstance(n, ast.Expr) and isinstance(n.value, PURE_DISCARD):
                if isinstance(n.value, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp)) and any(
                    isinstance(x, ast.Call) for x in ast.walk(n.value)
                ) and not is_offline(f.module):
                    res.add("answer-dropped", f"{f.qual}:{ast.unparse(n.value)[:60]}",
                            f"{f.module.path}:{n.lineno}", "the computed value is not used")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not is_offline(f.module):
                ts = [t for t in calls.targets(n.value, f, f.module)]
                if ts and all(t.func is not None for t in ts) or (
                    isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("get_gamma", "get_normal_direction")
                ):
                    gs = [t.func for t in ts if t.func is not None]
                    if gs and all(pure_answer(p, calls, g) for g in gs):
                        res.add("answer-dropped", f"{f.qual}:{ast.unparse(n.value.func)}",
                                f"{f.module.path}:{n.lineno}",
                                f"the answer of {ast.unparse(n.value.func)}(..) is dropped")
        for node, e, how, why, v in fl.events if not is_offline(f.module) else ():
            own = owner(calls, e, f)
            if own in PREPARED or own and is_drawing(f):
                res.count("uses of prepared attributes")
                continue
            res.add("unchecked-none", own or f"{f.qual}:{ast.unparse(e)[:60]}",
                    f"{f.module.path}:{getattr(node, 'lineno', f.node.lineno)}",
                    f"{why}, and it is {how} without a test")
    res.count("functions that can answer None", len(nl.may_none))
    res.count("parameters used untested", sum(len(v) for v in nl.needs.values()))
    res.floor("functions", 450)
    return res


# attributes that start as None and that a preparation step fills before anything asks for them; the attributes of an
# object that is not prepared are judged by C16
PREPARED = {
    "GmmObstacle:_reference_points",         # evaluate_hirarchy_and_reference_points
    "GmmObstacle:_axes_lengths",             # evaluate_axes_length_and_direction
    "MultiHullAndObstacle:_local_outside_attractor",  # set_attractor / update_attractor, with _attractor_is_outside
}


def owner(calls, e, f) -> str | None:
    """Class:attribute of an optional attribute (or of an optional element of it)."""
    el = ""
    if isinstance(e, ast.Subscript):
        e, el = e.value, "[]"
    if not isinstance(e, ast.Attribute):
        return None
    for t in sorted(calls.t.infer(e.value, f, f.module), key=repr):
        if t[0] == "inst" and hasattr(t[1], "name"):
            return f"{t[1].name}:{e.attr}{el}"
    return None


def pure_answer(p, calls, g, depth=0, seen=None):
    """The callee only computes an answer: it writes nothing but its own locals."""
    seen = seen or set()
    if g.uid in seen:
        return True
    seen.add(g.uid)
    if depth > 4 or stub(g) or g.is_generator:
        return False
    has_value = False
    for n in walk_own(g.node):
        if isinstance(n, ast.Return) and n.value is not None:
            has_value = True
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return False
        if isinstance(n, (ast.Raise, ast.Assert, ast.Global, ast.Yield)):
            return False
        if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Name):
            return False
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            return False
        if isinstance(n, ast.Call):
            for t in calls.targets(n, g, g.module):
                if t.func is not None:
                    if not pure_answer(p, calls, t.func, depth + 1, seen):
                        return False
                elif t.cls is None and t.ext and not t.ext.startswith(("numpy", "math", "builtins")):
                    return False
    return has_value
