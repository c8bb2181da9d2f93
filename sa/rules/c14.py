"""C14: every part is treated with its own values.

A loop over parts (obstacles, components, segments, nodes, data points) is followed round by round: which names vary with
the round, what a round reads, where it leaves its result and what is left when the loop has ended.
"""
from __future__ import annotations

import ast
import re

from ..index import Func, Program
from ..report import Result
from ..scope import core_funcs, is_legacy

SKIP = ("test_", "main", "plot", "draw", "_test", "example", "animate", "_plot", "_draw")
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)
SHARED = (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)
GROW = {"append", "extend", "insert", "add", "push", "add_node", "add_edge", "append_from_direction", "update"}
# the item is a number that equals the index
INDEX_ITEMS = {"KMeansMotionLearner._fit_new_clusters_to_missfitting_datapoints": "labels are counted from zero"}
PARTS = re.compile(r"(?<!s)s$|list$|(^|_)obs$")
NOT_PARTS = re.compile(r"^(args|kwargs|axes|ax|bounds|limits|lims|coords|coordinates|position|vertices|axis|basis|canvas)$")


def considered(p: Program):
    out = []
    for f in core_funcs(p):
        g = f
        while g.parent is not None:
            g = g.parent
        if is_legacy(f.module) or g.name.startswith(SKIP) or isinstance(f.node, ast.Lambda):
            continue
        out.append(f)
    return out


def names_of(e, ctx=None) -> set:
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def own_nodes(stmts):
    """Nodes of the statements without those of nested loops (for break / continue) and functions."""
    stack = list(stmts)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def nodes(stmts):
    for s in stmts:
        yield from ast.walk(s)


def breaks(loop) -> bool:
    return any(isinstance(n, (ast.Break, ast.Return)) for n in own_nodes(loop.body)) or any(
        isinstance(n, ast.Return) for n in nodes(loop.body))


def leaves(stmts) -> str | None:
    """'answer' if the statements always leave the loop, with an answer or a break on one path at least."""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Break)):
            return "answer"
        if isinstance(s, ast.Raise):
            return "error"
        if isinstance(s, ast.If) and s.orelse:
            a, b = leaves(s.body), leaves(s.orelse)
            if a and b:
                return "answer" if "answer" in (a, b) else "error"
        if isinstance(s, ast.With):
            a = leaves(s.body)
            if a:
                return a
    return None


def call_name(e) -> str:
    return e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "") if isinstance(e, ast.Call) else ""


def ordered(it) -> bool:
    """The parts are visited in an order that matters, the last one is the result."""
    return any(isinstance(n, ast.Call) and call_name(n) in ("sorted", "reversed", "get_nodes_ascending", "get_nodes_descending")
               for n in ast.walk(it)) or any(isinstance(n, ast.Slice) and n.step is not None for n in ast.walk(it))


def budget(it) -> bool:
    """range(it_max): rounds, no parts."""
    if not (isinstance(it, ast.Call) and call_name(it) in ("range", "count")):
        return False
    t = ast.unparse(it)
    return not re.search(r"len\(|shape|size|\bn_|num|_n\b|\bn\b|dim", t)


def over_parts(it) -> bool:
    return not budget(it)


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def items(target, it):
    """(index names, item names) of a loop target."""
    if isinstance(it, ast.Call) and call_name(it) == "enumerate" and isinstance(target, ast.Tuple) and len(target.elts) == 2:
        return names_of(target.elts[0]), names_of(target.elts[1])
    if isinstance(it, ast.Call) and call_name(it) in ("range", "arange"):
        return names_of(target), set()
    if isinstance(it, ast.Call) and call_name(it) == "zip" and isinstance(target, ast.Tuple):
        idx, itm = set(), set()
        for i, t in enumerate(target.elts):
            src = it.args[i] if i < len(it.args) else None
            (idx if isinstance(src, ast.Call) and call_name(src) in ("range", "arange", "count") else itm).update(names_of(t))
        return idx, itm
    return set(), names_of(target)


def constant(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value if isinstance(e.operand.value, int) else None
    return None


class Rounds:
    def __init__(self, f: Func, res: Result):
        self.f, self.res = f, res
        self.par = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n):
                self.par[id(c)] = n
        # (ast.Load() and the operators are shared between nodes and have no place of their own)
        self.order = {id(n): i for i, n in enumerate(self.preorder(f.node)) if not isinstance(n, SHARED)}
        self.names = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and not self.nested(n)]

        self.per_part = set()
        rounds = {v for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.comprehension)) and over_parts(n.iter)
                  for v in items(n.target, n.iter)[0]}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript):
                els = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                for i, x in enumerate(els):
                    if isinstance(x, ast.Name) and x.id in rounds:
                        self.per_part.add((ast.unparse(n.value), i, len(els)))

    def preorder(self, n):
        """Source order, values before targets."""
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            kids = ([n.value] if n.value is not None else []) + (n.targets if isinstance(n, ast.Assign) else [n.target])
        elif isinstance(n, (ast.For, ast.comprehension)):
            kids = [n.iter, n.target] + (n.body + n.orelse if isinstance(n, ast.For) else n.ifs)
        else:
            kids = list(ast.iter_child_nodes(n))
        yield n
        for c in kids:
            yield from self.preorder(c)

    def nested(self, n):
        while id(n) in self.par:
            n = self.par[id(n)]
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return n is not self.f.node
        return False

    def in_comp(self, n):
        """Names a comprehension binds around n."""
        out = set()
        while id(n) in self.par:
            n = self.par[id(n)]
            if isinstance(n, COMPS):
                for g in n.generators:
                    out |= names_of(g.target)
        return out

    def add(self, rule, node, what, text):
        self.res.add(rule, f"{self.f.qual}:{what}"[:120], f"{self.f.module.path}:{getattr(node, 'lineno', self.f.node.lineno)}",
                     f"{self.f.qual}: {text}")

    def run(self):
        for n in ast.walk(self.f.node):
            if self.nested(n):
                continue
            if isinstance(n, (ast.For, ast.AsyncFor)):
                self.res.count("loops")
                self.loop(n)
            elif isinstance(n, ast.While):
                self.fresh(n)
                self.steps(n)
            elif isinstance(n, COMPS):
                self.res.count("comprehensions")
                self.comp(n)

    # ------------------------------------------------------------------ helpers
    def varying(self, loop) -> set:
        return names_of(loop.target) | {n.id for n in nodes(loop.body) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def inside(self, n, loop):
        while n is not None:
            if n is loop:
                return True
            n = self.par.get(id(n))
        return False

    def conditional(self, n, loop):
        """Between the loop and n stands a test (or another loop)."""
        while n is not loop and n is not None:
            up = self.par.get(id(n))
            if isinstance(up, (ast.If, ast.While, ast.For, ast.Try, ast.IfExp)) and up is not loop:
                return True
            n = up
        # an earlier `continue` makes it conditional too
        return any(isinstance(x, ast.Continue) for x in own_nodes(loop.body))

    def branch(self, n, loop):
        while n is not loop and n is not None:
            up = self.par.get(id(n))
            if isinstance(up, (ast.If, ast.While, ast.For, ast.Try)) and up is not loop:
                return True
            n = up
        return False

    def starts_empty(self, name, loop):
        """The last value before the loop is an empty collection or zero."""
        last = None
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and self.order[id(n)] < self.order[id(loop)] and \
                    any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                last = n if last is None or self.order[id(n)] > self.order[id(last)] else last
        if last is None:
            return False
        v = last.value
        if isinstance(v, (ast.List, ast.Tuple)):
            return not v.elts
        if isinstance(v, ast.Constant):
            return v.value == 0 and v.value is not False
        return isinstance(v, ast.Call) and call_name(v) in ("zeros", "empty", "zeros_like", "list")

    def is_made(self, name, loop):
        """An array made before the loop."""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                    call_name(n.value) in ("zeros", "ones", "empty", "zeros_like", "ones_like", "full", "empty_like") and \
                    any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return not self.inside(n, loop)
        return False

    def grown(self, loop) -> set:
        return {root(n.func.value) for n in nodes(loop.body)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW} | \
               {ast.unparse(n.func.value) for n in nodes(loop.body)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW}

    def after(self, name, loop):
        """Reads of the name that see what the loop left (nothing is stored to it in between)."""
        end = max(self.order[id(x)] for x in ast.walk(loop) if id(x) in self.order)
        stores = [self.order[id(n)] for n in self.names if n.id == name and isinstance(n.ctx, ast.Store) and
                  self.order[id(n)] > end and not self.in_comp(n) & {name}]
        out = []
        for n in self.names:
            if n.id != name or not isinstance(n.ctx, ast.Load) or name in self.in_comp(n):
                continue
            k = self.order[id(n)]
            if k > end and not any(s < k for s in stores) and not self.exclusive(n, loop):
                out.append(n)
        return out

    def known_before(self, name, loop):
        """The name has a value before the loop (a parameter, or stored earlier)."""
        f = self.f
        if name in f.params or name in f.kwonly or name in (f.vararg, f.kwarg, f.self_name):
            return True
        start = self.order[id(loop)]
        return any(n.id == name and isinstance(n.ctx, ast.Store) and self.order[id(n)] < start for n in self.names)

    def exclusive(self, n, loop):
        """n and the loop are on different branches of one test."""
        up = []
        m = loop
        while id(m) in self.par:
            up.append((self.par[id(m)], m))
            m = self.par[id(m)]
        above = {id(a): b for a, b in up}
        m = n
        while id(m) in self.par:
            a = self.par[id(m)]
            if id(a) in above:
                if isinstance(a, ast.If):
                    x, y = above[id(a)], m
                    return (x in a.body and y in a.orelse) or (x in a.orelse and y in a.body)
                return False
            m = a
        return False

    # ------------------------------------------------------------------ rules
    def loop(self, lp):
        vary = self.varying(lp)
        tgt = names_of(lp.target)
        idx, itm = items(lp.target, lp.iter)
        parts = over_parts(lp.iter)
        # a name of the loop that is used after it
        if not breaks(lp):
            for v in sorted(tgt):
                if v == "_":
                    continue
                for n in self.after(v, lp)[:1]:
                    self.add("leftover", n, f"leftover:{v}", f"`{v}` is the last part of a loop that has ended, and is used after it")
            # a value that only the loop gives
            for v in sorted(vary - tgt):
                if self.after(v, lp) and not self.known_before(v, lp) and not ordered(lp.iter) and parts:
                    n = self.after(v, lp)[0]
                    self.add("leftover", n, f"leftover:{v}",
                             f"`{v}` is set in the rounds over `{ast.unparse(lp.iter)}` alone: what is used after it is that of the last part")
        # the body always ends in the first round
        taken = len(lp.body) == 1 and isinstance(lp.body[0], ast.Return) and isinstance(lp.body[0].value, ast.Name)
        if not taken and leaves(lp.body) == "answer" and (
                not any(isinstance(n, ast.Continue) for n in own_nodes(lp.body)) or (parts and self.collects(lp))):
            self.add("first only", lp, "first only", f"the loop over `{ast.unparse(lp.iter)}` always ends in its first round")
        self.unused(lp, idx, itm, lp.body, lp.iter)
        self.skipped(lp, lp.target, lp.iter, lp.body)
        self.shifted(lp, lp.target, lp.iter, lp.body)
        self.twice(lp, vary)
        if parts:
            self.stop(lp)
            self.slots(lp, vary, tgt)
            self.unfinished(lp, tgt)
            self.same(lp, tgt)
            self.last(lp, vary)
        self.fixed(lp, lp.iter, lp.body, vary, parts)
        self.fresh(lp)

    def steps(self, w):
        """A counted walk through a collection that does not go to the next part."""
        if not (isinstance(w.test, ast.Compare) and len(w.test.ops) == 1 and isinstance(w.test.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) and
                isinstance(w.test.left, ast.Name) and any(isinstance(n, ast.Call) and call_name(n) == "len"
                                                          for n in ast.walk(w.test.comparators[0]))):
            return
        v = w.test.left.id
        for n in own_nodes(w.body):
            step = None
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and n.target.id == v:
                step = constant(n.value)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == v and \
                    isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and v in names_of(n.value):
                step = constant(n.value.right) if isinstance(n.value.left, ast.Name) else constant(n.value.left)
            if step is not None and step > 1:
                self.add("left out", n, f"left out:{v}", f"the walk `while {ast.unparse(w.test)}` leaves out parts: `{ast.unparse(n)}`")
        start = [n for n in ast.walk(self.f.node) if isinstance(n, ast.Assign) and not self.inside(n, w) and
                 self.order[id(n)] < self.order[id(w)] and any(isinstance(t, ast.Name) and t.id == v for t in n.targets)]
        start.sort(key=lambda n: self.order[id(n)])
        if start and (constant(start[-1].value) or 0) > 0:
            self.add("left out", w, f"left out:{v}", f"the walk `while {ast.unparse(w.test)}` starts at `{ast.unparse(start[-1].value)}`")

    def comp(self, c):
        for i, g in enumerate(c.generators):
            idx, itm = items(g.target, g.iter)
            body = [c.key, c.value] if isinstance(c, ast.DictComp) else [c.elt]
            body = body + list(g.ifs) + [x for h in c.generators[i + 1:] for x in [h.iter] + h.ifs]
            self.unused(c, idx, itm, body, g.iter)
            self.skipped(c, g.target, g.iter, body)
            self.shifted(c, g.target, g.iter, body)
            vary = {n for h in c.generators for n in names_of(h.target)}
            self.fixed(c, g.iter, body, vary, over_parts(g.iter))

    def unused(self, node, idx, itm, body, it):
        """Each round does the same, whatever part it is about."""
        used = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for v in sorted(itm):
            self.res.count("loop items")
            if v not in used and (not v.startswith("_") or self.lookups(body)) and self.f.qual not in INDEX_ITEMS:
                text = [b for b in body if not isinstance(b, ast.Raise)]
                if text and self.works(body):
                    self.add("unused", node, f"unused:{v}", f"the rounds over `{ast.unparse(it)}` do not use the part `{v}`")
        if idx and not itm and not idx & used and not any(v.startswith("_") for v in idx) and not budget(it) and self.works(body):
            if not any(isinstance(n, ast.Break) for b in body if isinstance(b, ast.stmt) for n in ast.walk(b)):
                self.add("unused", node, f"unused:{sorted(idx)[0]}", f"the rounds over `{ast.unparse(it)}` do not use `{sorted(idx)[0]}`")

    @staticmethod
    def lookups(body):
        return any(isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and isinstance(n.ctx, ast.Load)
                   for b in body for n in ast.walk(b))

    @staticmethod
    def works(body):
        """Something is looked up or asked, which could differ from part to part."""
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                    return True
                if isinstance(n, ast.Call) and call_name(n) not in GROW | {"list", "dict", "set", "zeros", "ones", "empty", "eye"}:
                    return True
        return False

    def skipped(self, node, target, it, body):
        """The first or the last part is left out and not treated elsewhere."""
        self.res.count("ranges")
        inner = it
        while isinstance(inner, ast.Call) and call_name(inner) in ("reversed", "enumerate", "list", "zip", "sorted") and inner.args:
            if call_name(inner) == "zip" and len(inner.args) > 1:
                return
            inner = inner.args[0]
        first = last = False
        if isinstance(inner, ast.Call) and call_name(inner) in ("range", "arange"):
            a = inner.args
            if len(a) >= 2:
                first = constant(a[0]) is not None and constant(a[0]) > 0
            stop = a[0] if len(a) == 1 else a[1] if len(a) >= 2 else None
            if len(a) == 3 and constant(a[2]) is not None and constant(a[2]) < 0:
                return
            last = isinstance(stop, ast.BinOp) and isinstance(stop.op, ast.Sub) and (constant(stop.right) or 0) > 0
        elif isinstance(inner, ast.Subscript) and isinstance(inner.slice, ast.Slice) and inner.slice.step is None:
            first = inner.slice.lower is not None and (constant(inner.slice.lower) or 0) > 0
            last = inner.slice.upper is not None and (constant(inner.slice.upper) or 0) < 0
        if not (first or last):
            return
        idx = names_of(target)
        before = after = ends = False
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.BinOp) and names_of(n) & idx:
                    if isinstance(n.op, ast.Sub) and isinstance(n.left, ast.Name):
                        before = True
                    if isinstance(n.op, ast.Add):
                        after = True
        bases = {ast.unparse(n.value) for b in body for n in ast.walk(b) if isinstance(n, ast.Subscript) and names_of(n.slice) & idx}
        if isinstance(inner, ast.Subscript):
            bases.add(ast.unparse(inner.value))
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and not self.par.get(id(n)) is None:
                els = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                if any(constant(x) in (0, -1) for x in els) and (not bases or ast.unparse(n.value) in bases):
                    ends = True
        if first and not (before or after or ends):
            self.add("left out", node, "left out:first", f"`{ast.unparse(it)}` leaves out the first part, which nothing else treats")
        if last and not (before or after or ends):
            self.add("left out", node, "left out:last", f"`{ast.unparse(it)}` leaves out the last part, which nothing else treats")

    def twice(self, lp, vary):
        """What a round has already put in is put in again when the loop has ended."""
        put = {}
        for n in nodes(lp.body):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr in GROW or n.func.attr.startswith(("append", "add_"))):
                recv = ast.unparse(n.func.value)
                if root(n.func.value) not in vary:
                    # what the round goes on with is another value
                    put.setdefault((recv, n.func.attr), set()).update(
                        x for a in n.args + [k.value for k in n.keywords] for x in names_of(a)
                        if not any(m.id == x and isinstance(m.ctx, ast.Store) and self.inside(m, lp) and self.order[id(m)] > self.order[id(n)]
                                   for m in self.names))
        end = max(self.order[id(x)] for x in ast.walk(lp) if id(x) in self.order)
        for n in ast.walk(self.f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)) or self.order[id(n)] < end or self.exclusive(n, lp):
                continue
            k = (ast.unparse(n.func.value), n.func.attr)
            self.res.count("additions after a loop")
            args = {x for a in n.args + [k.value for k in n.keywords] for x in names_of(a)}
            for v in sorted(put.get(k, set()) & args & vary):
                if any(self.inside(m, n) for m in self.after(v, lp)):
                    self.add("twice", n, f"twice:{k[0]}.{k[1]}", f"`{v}` may have been put into `{k[0]}` by the last round already")
                    break

    def shifted(self, node, target, it, body):
        """The count of the round is not the place of its part."""
        if not (isinstance(it, ast.Call) and call_name(it) == "enumerate" and it.args and isinstance(target, ast.Tuple)):
            return
        src = it.args[0]
        start = constant(it.args[1]) if len(it.args) > 1 else next((constant(k.value) for k in it.keywords if k.arg == "start"), 0)
        off = 0
        if isinstance(src, ast.Subscript) and isinstance(src.slice, ast.Slice) and src.slice.step is None and src.slice.lower is not None:
            off = constant(src.slice.lower)
            src = src.value
        turned = isinstance(src, ast.Call) and call_name(src) == "reversed" and src.args
        if turned:
            src = src.args[0]
        if start is None or off is None or off < 0:
            return
        idx = names_of(target.elts[0])
        name = ast.unparse(src)
        if start != off and isinstance(node, COMPS) and isinstance(getattr(node, "elt", None), ast.Name) and node.elt.id in idx:
            self.add("shifted", node, f"shifted:{name}", f"the answered places of `{ast.unparse(it)}` are not those of the parts")
        for b in body:
            for n in ast.walk(b):
                if not isinstance(n, ast.Subscript) or isinstance(n.slice, ast.Slice):
                    continue
                els = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                if isinstance(els[0], ast.Name) and els[0].id in idx and ast.unparse(n.value) == name and (start != off or turned):
                    self.add("shifted", n, f"shifted:{name}", f"`{ast.unparse(n)}` is not the part of the round over `{ast.unparse(it)}`")
                elif any(isinstance(x, ast.Name) and x.id in idx for x in els) and off == 0 and start != 0:
                    self.add("shifted", n, f"shifted:{ast.unparse(n.value)}", f"`{ast.unparse(n)}`: the rounds over `{ast.unparse(it)}` are "
                                                                              f"counted from {start}, the entries from 0")

    def stop(self, lp):
        """A loop that collects from every part stops at one of them."""
        own = list(own_nodes(lp.body))
        brk = [n for n in own if isinstance(n, ast.Break)]
        if not brk:
            return
        t = ast.unparse(lp.iter)
        if re.search(r"- 1|\+ 1|\[1:\]|\[:-1\]", t) or ordered(lp.iter):
            return
        if self.collects(lp):
            self.add("stops", brk[0], "stops", f"the loop over `{t}` collects from every part but stops at one of them (`break`)")

    def collects(self, lp):
        """The loop leaves something behind from every part: a sum, an entry, a call."""
        tgt = names_of(lp.target)
        # what is kept of the part that was searched for: the statements right before the loop is left
        kept = set()
        for b in [lp] + list(own_nodes(lp.body)):
            for stmts in (getattr(b, "body", None), getattr(b, "orelse", None)):
                if isinstance(stmts, list) and stmts and isinstance(stmts[-1], (ast.Break, ast.Return)):
                    kept |= {id(n) for st in stmts for n in ast.walk(st) if stmts is not lp.body or not (
                        isinstance(n, ast.AugAssign) or (isinstance(n, ast.Call) and call_name(n) in ("append", "extend")))}
        for n in nodes(lp.body):
            if id(n) in kept and not isinstance(n, SHARED):
                continue
            if (isinstance(n, ast.AugAssign) and constant(n.value) is None) or (
                    isinstance(n, ast.Call) and call_name(n) in ("append", "extend")):
                return True
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Subscript) and names_of(x.slice) & tgt for x in n.targets):
                return True
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) for x in n.targets):
                return True
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.Call) and n.targets[0].id in names_of(n.value):
                return True
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and n.targets[0].id in names_of(n.value) and \
                    names_of(n.value) & self.varying(lp) - {n.targets[0].id}:
                return True
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and names_of(n.value) & tgt and \
                    not ast.unparse(n.value.func).startswith(("logging.", "warnings.", "print", "logger")):
                return True
        return False

    def slots(self, lp, vary, tgt):
        """Every round leaves its result in the same place."""
        grown = self.grown(lp)
        for n in nodes(lp.body):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if not isinstance(t, ast.Subscript):
                    continue
                self.res.count("stores by index")
                r = root(t)
                base = ast.unparse(t.value)
                if names_of(t) & vary or self.in_comp(n) or r in grown or base in grown:
                    continue
                if self.inner_loop_varies(n, lp, t):
                    continue
                if ast.unparse(t) in ast.unparse(n.value) or not names_of(n.value) & vary:
                    continue
                places = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                single = any(constant(x) is not None and (base, i, len(places)) in self.per_part for i, x in enumerate(places))
                made = isinstance(t.value, ast.Name) and not self.branch(n, lp) and any(constant(x) is not None for x in places) and \
                    self.is_made(t.value.id, lp)
                if not single and not made and (self.conditional(n, lp) or self.read_in(base, lp, n)):
                    continue
                if breaks(lp):
                    continue
                self.add("slot", n, f"slot:{base}", f"every round over `{ast.unparse(lp.iter)}` stores its result in `{ast.unparse(t)}`")

    def same(self, lp, tgt):
        """Every part gets the same value, which is worked out anew for each."""
        dep = set(tgt)
        grew = True
        while grew:
            grew = False
            for n in nodes(lp.body):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
                    t = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if names_of(n.value) & dep or any(names_of(x, ast.Load) & dep for x in t) or isinstance(n, ast.AugAssign) or self.branch(n, lp):
                        for x in t:
                            new = names_of(x) - dep - {self.f.self_name}
                            if new:
                                dep |= new
                                grew = True
                elif isinstance(n, (ast.For, ast.NamedExpr, ast.comprehension, ast.With)) or (
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and names_of(n) & dep):
                    new = {x for x in (names_of(n.target) if hasattr(n, "target") else
                                       {root(n.func.value)} if isinstance(n, ast.Call) else set())} - dep - {None, self.f.self_name}
                    if new:
                        dep |= new
                        grew = True
        for n in nodes(lp.body):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and \
                    names_of(n.targets[0].slice) & tgt and not self.branch(n, lp):
                self.res.count("values stored for a part")
                if not names_of(n.value) & dep and self.asks(n.value, lp):
                    self.add("same", n, f"same:{ast.unparse(n.targets[0].value)}",
                             f"`{ast.unparse(n.targets[0])}` of every part gets the same `{ast.unparse(n.value)}`"[:150])

    def asks(self, e, lp):
        """The value comes from a query (in the round)."""
        own = {n.targets[0].id: n.value for n in nodes(lp.body) if isinstance(n, ast.Assign) and len(n.targets) == 1 and
               isinstance(n.targets[0], ast.Name)}
        exprs = [e] + [own[x] for x in names_of(e) if x in own]
        return any(isinstance(n, ast.Call) and call_name(n).startswith(("get_", "evaluate", "compute", "predict", "is_"))
                   for x in exprs for n in ast.walk(x))

    def unfinished(self, lp, tgt):
        """A round works with the whole of what the loop is still filling."""
        filled = {}
        for s in lp.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and \
                        isinstance(n.targets[0].value, ast.Name) and names_of(n.targets[0].slice) & tgt:
                    filled.setdefault(n.targets[0].value.id, n)
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                        n.value.func.attr == "append" and isinstance(n.value.func.value, ast.Name):
                    filled.setdefault(n.value.func.value.id, n)
        for v, st in sorted(filled.items()):
            self.res.count("containers filled by a loop")
            if any(n.id == v and isinstance(n.ctx, ast.Store) and self.inside(n, lp) for n in self.names):
                continue
            n = self.whole(lp, v)
            if n is not None and not self.conditional(n, lp):
                self.add("unfinished", n, f"unfinished:{v}", f"every round over `{ast.unparse(lp.iter)}` works with the whole of `{v}`, "
                                                             "of which only the entries of the parts so far are set")

    def whole(self, lp, v):
        for n in nodes(lp.body):
            if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load):
                up = self.par.get(id(n))
                if isinstance(up, ast.Attribute) or (isinstance(up, ast.Subscript) and up.value is n):
                    continue
                if isinstance(up, ast.Call) and call_name(up) == "len":
                    continue
                return n
        return None

    def read_in(self, base, lp, but):
        """The place is used within the round."""
        return any(isinstance(n, (ast.Name, ast.Attribute, ast.Subscript)) and isinstance(getattr(n, "ctx", None), ast.Load) and
                   ast.unparse(n) == base and not isinstance(self.par.get(id(n)), ast.Subscript) or
                   (isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.unparse(n.value) == base)
                   for n in nodes(lp.body))

    def inner_loop_varies(self, n, lp, t):
        return False

    def last(self, lp, vary):
        """What should be collected from all parts is replaced in every round."""
        if breaks(lp) or ordered(lp.iter):
            return
        for n in nodes(lp.body):
            if not isinstance(n, ast.Assign) or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name):
                continue
            v = n.targets[0].id
            self.res.count("values of a round")
            if not names_of(n.value) & (vary - {v}) or v in names_of(n.value):
                continue
            if self.branch(n, lp) or (self.conditional(n, lp) and not self.starts_empty(v, lp)):
                continue
            if any(isinstance(m, ast.Name) and m.id == v and isinstance(m.ctx, ast.Load) for m in nodes(lp.body)):
                continue
            if any(isinstance(m, ast.Name) and m.id == v and isinstance(m.ctx, ast.Store) and m is not n.targets[0] for m in nodes(lp.body)):
                continue
            if self.after(v, lp):
                self.add("last only", n, f"last only:{v}",
                         f"`{v}` is replaced in every round over `{ast.unparse(lp.iter)}`: what is used afterwards is that of the last part")

    def fixed(self, lp, it, body, vary, parts):
        """A round reads the value of a fixed part."""
        if not parts:
            return
        grown = self.grown(lp) if isinstance(lp, ast.For) else set()
        own: dict = {}
        fixed: dict = {}
        for b in body:
            for n in ast.walk(b):
                if not isinstance(n, ast.Subscript) or not isinstance(n.ctx, ast.Load):
                    continue
                els = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
                base = ast.unparse(n.value)
                r = root(n.value)
                for i, x in enumerate(els):
                    if isinstance(x, ast.Slice):
                        continue
                    k = (base, i, len(els))
                    self.res.count("reads by index")
                    if names_of(x) & vary:
                        own.setdefault(k, n)
                        # the part before the first one is the last one
                        self.wrap(n, x, lp, it)
                    elif constant(x) is not None and r is not None and r not in vary and r not in grown and base not in grown and \
                            r not in self.in_comp(n):
                        fixed.setdefault(k, n)
        counted = self.counted(it)
        if isinstance(it, ast.Call) and call_name(it) == "enumerate":
            tgt = lp.target if isinstance(lp, ast.For) else next((g.target for g in lp.generators if g.iter is it), None)
            used = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            if tgt is not None and isinstance(tgt, ast.Tuple) and not items(tgt, it)[0] & used:
                for k, n in fixed.items():
                    if isinstance(n.value, ast.Name):
                        own.setdefault(k, n)
        for k, n in fixed.items():
            if k[0] in counted or k in self.per_part:
                own.setdefault(k, n)
        for b in body:
            for st in ast.walk(b):
                if not isinstance(st, (ast.Assign, ast.AugAssign)):
                    continue
                for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                    if isinstance(t, ast.Subscript):
                        places = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                        for k, n in fixed.items():
                            if k[2] == len(places) and names_of(places[k[1]]) & vary and self.inside(n, st) and \
                                    all(isinstance(x, ast.Slice) == isinstance(y, ast.Slice) for x, y in
                                        zip(places, n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice])):
                                own.setdefault(k, n)
        for k, n in fixed.items():
            base = k[0].split(".")[-1]
            plural = k[2] == 1 and isinstance(n.value, (ast.Name, ast.Attribute)) and PARTS.search(base) and not NOT_PARTS.search(base) \
                and base != "shape"
            if k in own or plural:
                self.add("fixed", n, f"fixed:{k[0]}", f"every round over `{ast.unparse(it)}` reads `{ast.unparse(n)}`, that of one part")

    def counted(self, it):
        """What the loop goes through: X in enumerate(X), range(len(X)), range(X.shape[0]), zip(X, ..)."""
        out = set()
        if isinstance(it, ast.Call) and call_name(it) in ("enumerate", "zip", "reversed", "range"):
            for a in it.args:
                if isinstance(a, (ast.Name, ast.Attribute)):
                    out.add(ast.unparse(a))
                elif isinstance(a, ast.Call) and call_name(a) == "len" and a.args:
                    out.add(ast.unparse(a.args[0]))
                elif isinstance(a, ast.Subscript) and isinstance(a.value, ast.Attribute) and a.value.attr == "shape":
                    out.add(ast.unparse(a.value.value))
        elif isinstance(it, (ast.Name, ast.Attribute)):
            out.add(ast.unparse(it))
        return out

    def wrap(self, n, x, lp, it):
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Sub) and isinstance(x.left, ast.Name) and constant(x.right) == 1:
            tgt = lp.target if isinstance(lp, ast.For) else None
            if isinstance(tgt, ast.Name) and tgt.id == x.left.id and isinstance(it, ast.Call) and call_name(it) == "range" and \
                    (len(it.args) == 1 or constant(it.args[0]) == 0) and not self.guarded(n, lp, tgt.id):
                self.add("wrap", n, f"wrap:{ast.unparse(n.value)}",
                         f"`{ast.unparse(n)}`: the part before the first one is taken to be the last one")

    def guarded(self, n, lp, v):
        while n is not lp and n is not None:
            up = self.par.get(id(n))
            if isinstance(up, (ast.If, ast.IfExp)) and v in names_of(up.test):
                return True
            n = up
        return any(isinstance(s, ast.If) and v in names_of(s.test) for s in lp.body)

    def fresh(self, lo):
        """A working value that is summed up for a part is not started anew for the next one."""
        for inner in nodes(lo.body):
            if not isinstance(inner, ast.For) or inner is lo:
                continue
            acc = set()
            for n in nodes(inner.body):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    acc.add(n.target.id)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                        n.targets[0].id in names_of(n.value) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add):
                    acc.add(n.targets[0].id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend") and \
                        isinstance(n.func.value, ast.Name):
                    acc.add(n.func.value.id)
            for v in sorted(acc):
                self.res.count("sums of a round")
                if any(isinstance(m, ast.Name) and m.id == v and isinstance(m.ctx, ast.Store) and not self.inside(m, inner)
                       for m in nodes(lo.body)) or v in self.varying_target(lo) or v in names_of(inner.iter):
                    continue
                end = max(self.order[id(x)] for x in ast.walk(inner) if id(x) in self.order)
                for m in nodes(lo.body):
                    if isinstance(m, ast.Name) and m.id == v and isinstance(m.ctx, ast.Load) and self.order[id(m)] > end and \
                            not self.is_growth(m) and not self.nested(m):
                        self.add("fresh", m, f"fresh:{v}", f"`{v}` is summed up in `{ast.unparse(inner.iter)}` and used in every round, "
                                                            "but not started anew")
                        break

    @staticmethod
    def varying_target(lo):
        return names_of(lo.target) if isinstance(lo, ast.For) else set()

    def is_growth(self, m):
        up = self.par.get(id(m))
        if isinstance(up, ast.Attribute) and up.attr in GROW:
            return True
        while up is not None and not isinstance(up, ast.stmt):
            if isinstance(up, ast.Call) and call_name(up) == "len":
                return True
            up = self.par.get(id(up))
        return isinstance(up, ast.AugAssign) and isinstance(up.target, ast.Name) and up.target.id == m.id


def run(p: Program, tier: str) -> Result:
    res = Result(
        "Every loop and comprehension is followed round by round over the syntax tree: names that vary with the round, the reads "
        "and stores by index, sums, what leaves the loop, and what is read after it.")
    res.rules = ["leftover: the variable of a loop is used after the loop (without a search that stops at it)",
                 "first only: the body leaves the loop in its first round on every path",
                 "unused: the rounds look something up but never use their part",
                 "same: every part gets the same value, worked out in the round",
                 "twice: what a round puts into a collection is put into it again after the loop",
                 "shifted: the count of a round is used as the place of its part, but counts from elsewhere",
                 "unfinished: a round works with the whole of what the loop is still filling",
                 "left out: the first or last part is not in the range and nothing else treats it",
                 "stops: a loop that collects from every part breaks off at one",
                 "slot: every round stores its result in the same place",
                 "last only: a value is replaced in every round and used afterwards",
                 "fixed: a round reads the entry of one fixed part", "wrap: index minus one of the first part",
                 "fresh: a sum over inner parts is not started anew for each outer part"]
    res.assumptions = ["loops over sorted or reversed parts and counted searches have a meaningful last round"]
    for f in considered(p):
        res.count("functions")
        Rounds(f, res).run()
    n = sum(res.counts.get(k, 0) for k in ("loops", "comprehensions")) if hasattr(res, "counts") else 0
    res.oblige(n=n)
    res.floor("loops", 120)
    res.floor("comprehensions", 8)
    res.floor("reads by index", 100)
    return res
