"""C13: every loop and every recursion over an obstacle / rotation hierarchy comes to an end.

Ranking-pattern rule over every loop in the package:

* an indexed / counted loop moves its index towards the bound on every path that goes round again,
  and the bound only grows by the children of the element just visited (finite: hierarchies are trees,
  see C04);
* a draining loop takes at least one element off on every path that goes round again;
* a chain walk moves to the parent / child on every path that goes round again;
* an unconditional loop has a reachable exit with one of these rankings (a counter exit counts);
* no loop adds to or removes from the very sequence it iterates over (directly or through a method);
* recursion through the same object needs a descending argument and a path that does not recurse.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..flow import Flow
from ..index import Func, Program, walk_own
from ..report import Result

DOWN = ("successor", "children", "child", "descendant", "neighbors", "out_edges", "adj")
UP = ("parent", "predecessor", "ancestor", "in_edges")
GROW = {"append", "extend", "insert", "add", "appendleft", "extendleft", "update"}
SHRINK = {"pop", "popleft", "popitem", "remove"}
GRAPH_MUT = {"add_node", "add_edge", "add_nodes_from", "add_edges_from", "remove_node",
             "remove_edge", "clear"}
NEG = float("-inf")


def accessor(node) -> str | None:
    """'down' / 'up' / 'mixed' when the expression reads children / parents."""
    down = up = False
    for n in ast.walk(node):
        nm = None
        if isinstance(n, ast.Attribute):
            nm = n.attr
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            nm = n.func.id
        if nm is None:
            continue
        low = nm.lower()
        down |= any(x in low for x in DOWN)
        up |= any(x in low for x in UP)
    if down and up:
        return "mixed"
    return "down" if down else "up" if up else None


def const_num(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = const_num(e.operand)
        return None if v is None else -v
    return None


def lval(e) -> str | None:
    """Name or self-attribute path as text."""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = lval(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


class Delta(Flow):
    """Smallest / largest net change of counters and of collection lengths on the way round a loop."""

    def __init__(self, counters, colls, rebind_ok):
        super().__init__()
        self.counters, self.colls, self.rebind_ok = counters, colls, rebind_ok

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k, (0, 0)), b.get(k, (0, 0))
            out[k] = (min(x[0], y[0]), max(x[1], y[1]))
        return out

    def widen(self, old, new):
        out = {}
        for k in new:
            o, n = old.get(k, (0, 0)), new[k]
            out[k] = (NEG if n[0] < o[0] else n[0], float("inf") if n[1] > o[1] else n[1])
        return out

    def bump(self, s, k, lo, hi):
        a = s.get(k, (0, 0))
        s[k] = (a[0] + lo, a[1] + hi)

    def kill(self, s, k):
        s[k] = (NEG, float("inf"))

    def augassign(self, node, s):
        self.expr(node.value, s)
        k = lval(node.target)
        if k in self.counters:
            c = const_num(node.value)
            if c is None or not isinstance(node.op, (ast.Add, ast.Sub)):
                self.kill(s, k)
            else:
                c = c if isinstance(node.op, ast.Add) else -c
                self.bump(s, k, c, c)

    def assign(self, target, value, s, node):
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts):
                for t, v in zip(target.elts, value.elts):
                    self.assign(t, v, s, node)
            else:
                for t in target.elts:
                    self.assign(t.value if isinstance(t, ast.Starred) else t, None, s, node)
            return
        k = lval(target)
        if k in self.counters:
            if isinstance(value, ast.BinOp) and isinstance(value.op, (ast.Add, ast.Sub)):
                c = None
                if lval(value.left) == k:
                    c = const_num(value.right)
                    if c is not None and isinstance(value.op, ast.Sub):
                        c = -c
                elif lval(value.right) == k and isinstance(value.op, ast.Add):
                    c = const_num(value.left)
                if c is not None:
                    self.bump(s, k, c, c)
                    return
            self.kill(s, k)
        if k in self.colls:
            if isinstance(value, ast.Subscript) and lval(value.value) == k and isinstance(
                value.slice, ast.Slice
            ):
                lo, up = const_num(value.slice.lower) if value.slice.lower else None, (
                    const_num(value.slice.upper) if value.slice.upper else None)
                if (lo is not None and lo >= 1) or (up is not None and up <= -1):
                    self.bump(s, k, -1, -1)
                    return
            if self.rebind_ok(k, value):
                self.bump(s, k, -1, -1)  # next level of the tree
                return
            if growth_rebind(k, value):
                return
            self.kill(s, k)

    def expr(self, e, s):
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHRINK:
                k = lval(n.func.value)
                if k in self.colls:
                    self.bump(s, k, -1, -1)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == "clear" and lval(n.func.value) in self.colls:
                self.bump(s, lval(n.func.value), -1, -1)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next":
                pass
            elif isinstance(n, ast.NamedExpr):
                self.assign(n.target, n.value, s, n)

    def delete(self, target, s, node):
        if isinstance(target, ast.Subscript):
            k = lval(target.value)
            if k in self.colls:
                self.bump(s, k, -1, -1)


def growth_rebind(k, value):
    """X = X + more   (growth is judged separately)."""
    return isinstance(value, ast.BinOp) and isinstance(value.op, ast.Add) and (
        lval(value.left) == k or lval(value.right) == k
    )


class LoopCheck:
    def __init__(self, f: Func, loop: ast.While):
        self.f, self.loop = f, loop
        self.body_nodes = [n for st in loop.body for n in ast.walk(st)]

    # the conditions that must hold to go round again
    def guards(self):
        out = []

        def conj(e, truth):
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                conj(e.operand, not truth)
            elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) and truth:
                for v in e.values:
                    conj(v, True)
            elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and not truth:
                for v in e.values:
                    conj(v, False)
            elif isinstance(e, ast.NamedExpr):
                conj(e.value, truth)
            else:
                out.append((e, truth))

        conj(self.loop.test, True)
        for st in self.loop.body:
            if isinstance(st, ast.If):
                if self.leaves(st.body):
                    conj(st.test, False)
                elif st.orelse and self.leaves(st.orelse):
                    conj(st.test, True)
        return out

    def leaves(self, block):
        if not block:
            return False
        last = block[-1]
        if isinstance(last, (ast.Return, ast.Raise)):
            return True
        if isinstance(last, ast.Break):
            return True
        if isinstance(last, ast.If):
            return self.leaves(last.body) and self.leaves(last.orelse)
        return False

    # ------------------------------------------------------------- rankings
    def verdict(self):
        reasons = []
        for g, truth in self.guards():
            ok, why = self.rank(g, truth)
            if ok:
                return True, why
            if why:
                reasons.append(why)
        return False, "; ".join(dict.fromkeys(reasons)) or "no exit condition is driven by the loop body"

    def deltas(self, counters=(), colls=()):
        fl = Delta(set(counters), set(colls), self.level_rebind)
        fl._loops.append(([], []))
        end = fl.block(self.loop.body, {})
        brk, cont = fl._loops.pop()
        for c in cont:
            end = fl.jn(end, c)
        return end

    def rank(self, g, truth):
        if isinstance(g, ast.Compare) and len(g.ops) == 1:
            l, op, r = g.left, type(g.ops[0]).__name__, g.comparators[0]
            if not truth:
                op = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq",
                      "Is": "IsNot", "IsNot": "Is", "In": "NotIn", "NotIn": "In"}.get(op, op)
            # len(X) > 0, len(X) != 0, X != []
            for a, b in ((l, r), (r, l)):
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" \
                        and const_num(b) is not None:
                    ok, why = self.drain(lval(a.args[0]))
                    if ok or why:
                        return ok, why
            if op in ("NotEq", "IsNot", "NotIn"):
                for a, b in ((l, r), (r, l)):
                    ok, why = self.chain(lval(a))
                    if ok:
                        return ok, why
                if op == "NotEq" and isinstance(r, (ast.List,)) and not r.elts:
                    return self.drain(lval(l))
                # i != n: counted by one
                k = lval(l)
                if k and op == "NotEq":
                    return self.counted(k, r, exact=True)
                return False, None
            if op in ("Lt", "LtE", "Gt", "GtE"):
                for k, bound, up in ((lval(l), r, op in ("Lt", "LtE")), (lval(r), l, op in ("Gt", "GtE"))):
                    if k is None:
                        continue
                    ok, why = self.counted(k, bound, up=up)
                    if ok or why:
                        return ok, why
                return False, None
            if op == "Eq":
                return False, None
            return False, None
        if truth:
            k = lval(g)
            if k is None and isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id in (
                "len", "bool", "any"
            ) and g.args:
                k = lval(g.args[0])
            if k is not None:
                ok, why = self.drain(k)
                if ok:
                    return ok, why
                ok2, why2 = self.chain(k)
                return ok2, why2 or why
        return False, None

    def modified(self, k):
        for n in self.body_nodes:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                    and lval(n) == k:
                return True
        return False

    def counted(self, k, bound, up=True, exact=False):
        if not self.modified(k):
            return False, None
        # geometric: x *= 0.5
        d = self.deltas(counters=[k])
        if d is not None:
            lo, hi = d.get(k, (0, 0))
            good = lo > 0 if up else hi < 0
            if exact:
                good = (lo == hi) and abs(lo) == 1
            if not good:
                return False, f"'{k}' does not move towards its bound on every path round the loop"
        # the bound must not run away
        colls = set()
        for n in ast.walk(bound):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and n.args:
                c = lval(n.args[0])
                if c:
                    colls.add(c)
        for c in colls:
            ok, why = self.growth(c, k)
            if not ok:
                return False, why
        for n in ast.walk(bound):
            nm = lval(n) if isinstance(n, (ast.Name, ast.Attribute)) else None
            if nm and nm not in colls and nm != "len" and isinstance(n, (ast.Name, ast.Attribute)):
                if nm in ("np", "len") or any(c.startswith(nm + ".") for c in colls):
                    continue
                if self.modified(nm):
                    d2 = self.deltas(counters=[nm])
                    lo, hi = (d2 or {}).get(nm, (0, 0))
                    if up and hi > 0 or (not up and lo < 0):
                        return False, f"the bound '{nm}' moves away while the loop runs"
        return True, f"'{k}' counts towards its bound"

    def visited_names(self, coll, idx=None):
        """Names bound in the body to an element just taken from ``coll`` (X[i], X.pop(), next(..))."""
        out = set()
        changed = True

        def is_elem(e):
            if isinstance(e, ast.Subscript) and lval(e.value) == coll:
                at = const_num(e.slice)
                # a counted walk that asks the same element every time adds its children again and again
                return idx is None or at is None or at < 0
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in SHRINK \
                    and lval(e.func.value) == coll:
                return True
            if isinstance(e, ast.Name) and e.id in out:
                return True
            return False

        while changed:
            changed = False
            for n in self.body_nodes:
                t = v = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t, v = n.targets[0], n.value
                elif isinstance(n, ast.NamedExpr):
                    t, v = n.target, n.value
                elif isinstance(n, (ast.For, ast.comprehension)):
                    t, v = n.target, n.iter
                    if isinstance(t, ast.Name) and t.id not in out and (
                        lval(v) == coll or self.child_expr(v, coll, out, is_elem)
                    ):
                        out.add(t.id)
                        changed = True
                    continue
                if isinstance(t, ast.Name) and t.id not in out and v is not None and (
                    is_elem(v) or self.child_expr(v, coll, out, is_elem)
                ):
                    out.add(t.id)
                    changed = True
        return out, is_elem

    def child_expr(self, e, coll, elems, is_elem):
        """The expression reads children of an element just visited, and nothing against the direction."""
        acc = accessor(e)
        if acc is None or acc == "mixed":
            return False
        return any(is_elem(n) for n in ast.walk(e))

    def growth(self, coll, idx=None):
        """Everything the body adds to ``coll`` is a child of a visited element."""
        elems, is_elem = self.visited_names(coll, idx)
        dirs = set()

        def judge(e, at):
            # an element (or list of elements) being added
            if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
                e2 = e.generators[0].iter
                if self.child_expr(e2, coll, elems, is_elem):
                    dirs.add(accessor(e2))
                    return True
            if isinstance(e, (ast.List, ast.Tuple)) and not e.elts:
                return True
            if isinstance(e, (ast.List, ast.Tuple)):
                return all(judge(x, at) for x in e.elts)
            if self.child_expr(e, coll, elems, is_elem):
                dirs.add(accessor(e))
                return True
            if isinstance(e, ast.Name) and e.id in elems and e.id in self.child_names(coll, elems, is_elem, dirs):
                return True
            return False

        for n in self.body_nodes:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW \
                    and lval(n.func.value) == coll:
                args = n.args[1:] if n.func.attr == "insert" else n.args
                if not all(judge(a, n) for a in args):
                    return False, (f"'{coll}' grows in the loop by something that is not a child of the "
                                   f"element just visited (line {n.lineno})")
            elif isinstance(n, ast.AugAssign) and lval(n.target) == coll:
                if not (isinstance(n.op, ast.Add) and judge(n.value, n)):
                    return False, (f"'{coll}' grows in the loop by something that is not a child of the "
                                   f"element just visited (line {n.lineno})")
            elif isinstance(n, ast.Assign) and any(lval(t) == coll for t in n.targets):
                v = n.value
                if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
                    if lval(v.left) == coll and judge(v.right, n):
                        continue
                    if lval(v.right) == coll and judge(v.left, n):
                        continue
                elif isinstance(v, ast.Subscript) and lval(v.value) == coll:
                    continue
                elif self.level_rebind(coll, v):
                    continue
                return False, (f"'{coll}' is replaced in the loop by something that is not made of children "
                               f"of the elements just visited (line {n.lineno})")
        if len(dirs) > 1:
            return False, f"'{coll}' grows both by children and by parents"
        return True, f"'{coll}' only grows by children of visited elements"

    def child_names(self, coll, elems, is_elem, dirs):
        out = set()
        for n in self.body_nodes:
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) \
                    and self.child_expr(n.iter, coll, elems, is_elem):
                out.add(n.target.id)
                dirs.add(accessor(n.iter))
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                    and self.child_expr(n.value, coll, elems, is_elem):
                out.add(n.targets[0].id)
                dirs.add(accessor(n.value))
        return out

    def level_rebind(self, coll, value):
        """X = Y where Y is rebuilt in the body from nothing, by children of the elements of X."""
        if value is None:
            return False
        elems, is_elem = self.visited_names(coll)
        if isinstance(value, (ast.ListComp, ast.GeneratorExp)):
            srcs = [g.iter for g in value.generators]
            return lval(srcs[0]) == coll and len(srcs) > 1 and accessor(srcs[1]) in ("down", "up")
        y = lval(value)
        if y is None or "." in y:
            return False
        fresh = False
        for st in self.loop.body:
            if isinstance(st, ast.Assign) and any(lval(t) == y for t in st.targets):
                if isinstance(st.value, ast.List) and not st.value.elts or (
                    isinstance(st.value, ast.Call) and ast.unparse(st.value) in ("list()", "deque()", "set()")
                ):
                    fresh = True
        if not fresh:
            return False
        for n in self.body_nodes:
            src = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW \
                    and lval(n.func.value) == y:
                src = list(n.args)
            elif isinstance(n, ast.AugAssign) and lval(n.target) == y:
                src = [n.value]
            elif isinstance(n, ast.Assign) and any(lval(t) == y for t in n.targets):
                v = n.value
                if isinstance(v, ast.BinOp) and lval(v.left) == y:
                    src = [v.right]
                elif isinstance(v, ast.BinOp) and lval(v.right) == y:
                    src = [v.left]
            for e in src or []:
                if not (self.child_expr(e, coll, elems, is_elem) or (
                    isinstance(e, ast.Name) and e.id in self.child_names(coll, elems, is_elem, set()))):
                    return False
        return True

    def drain(self, coll):
        if coll is None:
            return False, None
        touched = self.modified(coll) or any(
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
            and n.func.attr in SHRINK | GROW | {"clear"} and lval(n.func.value) == coll
            for n in self.body_nodes
        ) or any(
            isinstance(n, ast.Delete) and any(
                isinstance(t, ast.Subscript) and lval(t.value) == coll for t in n.targets)
            for n in self.body_nodes
        )
        if not touched:
            return False, f"nothing is taken off '{coll}' in the loop"
        d = self.deltas(colls=[coll])
        if d is not None and not d.get(coll, (0, 0))[1] < 0:
            return False, f"a path round the loop takes nothing off '{coll}'"
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GROW
               and lval(n.func.value) == coll for n in self.body_nodes) or any(
            isinstance(n, (ast.AugAssign,)) and lval(n.target) == coll for n in self.body_nodes
        ) or any(isinstance(n, ast.Assign) and any(lval(t) == coll for t in n.targets)
                 for n in self.body_nodes):
            return self.growth(coll)
        return True, f"'{coll}' is drained"

    def chain(self, k):
        """node = parent(node) on every path."""
        if k is None or not self.modified(k):
            return False, None
        moved = []
        for n in self.body_nodes:
            if isinstance(n, ast.Assign) and any(lval(t) == k for t in n.targets):
                ok = accessor(n.value) in ("down", "up") and any(
                    lval(x) == k for x in ast.walk(n.value) if isinstance(x, (ast.Name, ast.Attribute)))
                if not ok:
                    # through a helper variable: p = parent(node); node = p
                    v = lval(n.value)
                    ok = v is not None and any(
                        isinstance(m, ast.Assign) and any(lval(t) == v for t in m.targets)
                        and accessor(m.value) in ("down", "up")
                        and any(lval(x) == k for x in ast.walk(m.value)
                                if isinstance(x, (ast.Name, ast.Attribute)))
                        for m in self.body_nodes)
                if not ok:
                    return False, f"'{k}' is moved to something that is not its parent or child"
                moved.append(n)

        class M(Flow):
            def join(self, a, b):
                return {"m": a["m"] and b["m"]}

            def assign(self, target, value, s, node):
                if lval(target) == k:
                    s["m"] = True

        fl = M()
        fl._loops.append(([], []))
        end = fl.block(self.loop.body, {"m": False})
        for c in fl._loops.pop()[1]:
            end = fl.jn(end, c)
        if end is None or end["m"]:
            return True, f"'{k}' walks the hierarchy"
        return False, f"'{k}' does not move on every path round the loop"


def iter_root(e):
    """The object whose mutation would disturb the iteration."""
    while isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ("enumerate", "reversed", "zip", "iter"):
            if not e.args:
                return None, None
            if e.func.id == "zip":
                return None, None
            e = e.args[0]
            continue
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("values", "keys", "items"):
            e = e.func.value
            continue
        if isinstance(e.func, ast.Attribute) and e.func.attr in (
            "successors", "predecessors", "neighbors", "nodes", "edges"
        ):
            return lval(e.func.value), "graph"
        return None, None
    k = lval(e)
    if k and k.endswith((".nodes", ".edges")):
        return k.rsplit(".", 1)[0], "graph"
    return k, "seq"


def grown_self_attrs(p: Program, calls: Calls):
    """uid -> attributes of the receiver whose length changes when the method runs (transitively)."""
    direct: dict[str, set] = {}
    selfcalls: dict[str, set] = {}
    for f in p.iter_funcs():
        d, sc = set(), set()
        if f.self_name:
            pre = f.self_name + "."
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    k = lval(n.func.value)
                    if k and k.startswith(pre) and n.func.attr in GROW | SHRINK | GRAPH_MUT | {"clear"}:
                        d.add(k[len(pre):])
                    if k == f.self_name:
                        for t in calls.targets(n, f, f.module):
                            if t.func is not None:
                                sc.add(t.func.uid)
                elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
                    k = lval(n.target)
                    if k and k.startswith(pre) and isinstance(n.value, (ast.List, ast.ListComp)):
                        d.add(k[len(pre):])
                elif isinstance(n, ast.Delete):
                    for t in n.targets:
                        if isinstance(t, ast.Subscript):
                            k = lval(t.value)
                            if k and k.startswith(pre):
                                d.add(k[len(pre):])
        direct[f.uid], selfcalls[f.uid] = d, sc
    changed = True
    while changed:
        changed = False
        for u in direct:
            for v in selfcalls[u]:
                if not direct.get(v, set()) <= direct[u]:
                    direct[u] |= direct[v]
                    changed = True
    return direct


def leaves_after(loop, node):
    """The statement sequence containing node ends the loop (break/return/raise) right afterwards."""
    st = node
    while st is not None and not isinstance(st, ast.stmt):
        st = st._parent
    while st is not None and st is not loop:
        par = st._parent
        for fld in ("body", "orelse", "finalbody"):
            blk = getattr(par, fld, None)
            if isinstance(blk, list) and st in blk:
                for later in blk[blk.index(st):]:
                    if isinstance(later, (ast.Break, ast.Return, ast.Raise)):
                        return True
        st = par
    return False


def check_for(p, calls, f, loop, grown, res):
    it = loop.iter
    if isinstance(it, ast.Call) and ast.unparse(it.func).split(".")[-1] in ("count", "cycle", "repeat") \
            and "itertools" in str(calls.t.infer(it.func, f, f.module)):
        if not any(isinstance(n, (ast.Break, ast.Return, ast.Raise)) for st in loop.body for n in ast.walk(st)):
            res.add("endless-iterator", f"{f.qual}:for", f"{f.module.path}:{loop.lineno}",
                    "the loop runs over an endless iterator without an exit")
        return
    k, kind = iter_root(it)
    if k is None:
        return
    for n in [m for st in loop.body for m in ast.walk(st)]:
        bad = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            r = lval(n.func.value)
            muts = GRAPH_MUT if kind == "graph" else GROW | SHRINK | {"clear"}
            if r == k and n.func.attr in muts:
                bad = f"{k}.{n.func.attr}(..)"
            elif f.self_name and r == f.self_name and k.startswith(f.self_name + "."):
                a = k[len(f.self_name) + 1:]
                for t in calls.targets(n, f, f.module):
                    if t.func is not None and a in grown.get(t.func.uid, ()):
                        bad = f"{ast.unparse(n.func)}(..), which changes {k},"
        elif isinstance(n, ast.Delete) and kind == "seq":
            for t in n.targets:
                if isinstance(t, ast.Subscript) and lval(t.value) == k:
                    bad = f"del {k}[..]"
        elif isinstance(n, ast.AugAssign) and kind == "seq" and lval(n.target) == k:
            ts = calls.t.infer(n.target, f, f.module)
            if any(t[0] == "list" for t in ts) or isinstance(n.value, (ast.List, ast.ListComp)):
                bad = f"{k} += .."
        if bad and not leaves_after(loop, n):
            res.add("changed-while-iterated", f"{f.qual}:{k}", f"{f.module.path}:{n.lineno}",
                    f"{bad} runs inside the loop over the same sequence")
            return


def recursion(p: Program, calls: Calls, res: Result):
    """Cycles through the same receiver (self.x -> self.y -> self.x) or module-level functions."""
    edges: dict[str, list] = {}
    for f in p.iter_funcs():
        es = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and f.self_name and lval(fn.value) == f.self_name:
                    m = p.find_method(f.cls, fn.attr)
                    if m:
                        es.append((m, n))
                elif isinstance(fn, ast.Name):
                    for t in calls.targets(n, f, f.module):
                        if t.func is not None:
                            es.append((t.func, n))
            elif isinstance(n, ast.Attribute) and f.self_name and isinstance(n.value, ast.Name) \
                    and n.value.id == f.self_name:
                if isinstance(n.ctx, ast.Load):
                    m = p.find_method(f.cls, n.attr)
                    if m and m.is_property:
                        es.append((m, n))
                elif isinstance(n.ctx, ast.Store):
                    m = p.find_setter(f.cls, n.attr)
                    if m:
                        es.append((m, n))
        edges[f.uid] = es
    # SCC (Tarjan)
    idx, low, st, on, comps = {}, {}, [], set(), []

    def visit(u):
        idx[u] = low[u] = len(idx)
        st.append(u)
        on.add(u)
        for g, _ in edges.get(u, []):
            w = g.uid
            if w not in idx:
                visit(w)
                low[u] = min(low[u], low[w])
            elif w in on:
                low[u] = min(low[u], idx[w])
        if low[u] == idx[u]:
            comp = set()
            while True:
                w = st.pop()
                on.discard(w)
                comp.add(w)
                if w == u:
                    break
            if len(comp) > 1 or any(g.uid == u for g, _ in edges[u]):
                comps.append(comp)

    for u in list(edges):
        if u not in idx:
            visit(u)
    res.count("recursion edges", sum(len(v) for v in edges.values()))
    for comp in comps:
        ok = False
        why = ""
        for u in comp:
            f = p.funcs[u]
            ins = [(g, n) for g, n in edges[u] if g.uid in comp]
            # every cycle must pass a call with a descending argument; a path that avoids it must exist
            if all(descends(f, n) for _, n in ins) and avoidable(f, [n for _, n in ins]):
                ok = True
            else:
                why = f"{f.qual} calls back without a smaller argument (line {ins[0][1].lineno})"
        if not ok:
            f = p.funcs[sorted(comp)[0]]
            res.add("unbounded-recursion", "+".join(sorted(p.funcs[u].qual for u in comp)), f.where,
                    why or "recursion without a descending argument")


def descends(f, call):
    if not isinstance(call, ast.Call):
        return False
    for a in list(call.args) + [k.value for k in call.keywords]:
        if accessor(a) in ("down", "up"):
            return True
        if isinstance(a, ast.BinOp) and isinstance(a.op, (ast.Sub, ast.FloorDiv)) and any(
            isinstance(x, ast.Name) and x.id in f.params for x in ast.walk(a.left)
        ):
            return True
        if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice):
            return True
        if isinstance(a, ast.Name):
            for n in walk_own(f.node):
                if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) \
                        and n.target.id == a.id and accessor(n.iter) in ("down", "up"):
                    return True
                if isinstance(n, ast.Assign) and any(lval(t) == a.id for t in n.targets) \
                        and accessor(n.value) in ("down", "up"):
                    return True
    return False


def avoidable(f, calls_):
    ids = {id(c) for c in calls_}

    class A(Flow):
        def join(self, a, b):
            return {"hit": a["hit"] and b["hit"]}

        def expr(self, e, s):
            if any(id(n) in ids for n in ast.walk(e)):
                s["hit"] = True

    fl = A()
    end = fl.run(f.node, {"hit": False})
    ends = [s for _, s in fl.returns] + ([end] if end is not None else []) + [s for _, s in fl.raises]
    return any(not s["hit"] for s in ends)


def run(p: Program, tier: str) -> Result:
    res = Result("Ranking-pattern rule over every while loop, iteration-stability rule over every for "
                 "loop, and descending-argument rule over every recursive cycle in the package.")
    res.rules = ["while: index towards bound / drained collection / walk along the hierarchy / counter exit",
                 "for: the iterated sequence is not changed in the body (directly or via methods of self)",
                 "recursion through one object needs a smaller argument and a non-recursive path"]
    res.assumptions = ["Hierarchies are finite trees (decided by C04), so following children or parents ends.",
                       "Loops over finite Python sequences, arrays and ranges end."]
    calls = Calls(p)
    grown = grown_self_attrs(p, calls)
    for f in p.iter_funcs():
        for n in walk_own(f.node):
            if isinstance(n, ast.While):
                ok, why = LoopCheck(f, n).verdict()
                res.count("while loops")
                res.oblige(f"{f.qual}:{n.lineno}: {why}")
                if not ok:
                    res.add("no-ranking", f"{f.qual}:while", f"{f.module.path}:{n.lineno}",
                            f"the loop may run forever: {why}")
            elif isinstance(n, ast.For):
                res.count("for loops")
                res.oblige()
                check_for(p, calls, f, n, grown, res)
    recursion(p, calls, res)
    res.count("functions", len(p.funcs))
    res.oblige(n=len(p.funcs))
    res.floor("for loops", 150)
    return res


GOOD = [
    "i=0\nwhile i < len(q):\n    n = q[i]\n    q += [j for j in g.successors(n)]\n    i += 1",
    "while q:\n    n = q.pop(0)\n    for c in g.successors(n):\n        q.append(c)",
    "while node is not None:\n    node = get_parent(node)",
    "k=0\nwhile True:\n    k += 1\n    if k > 100:\n        raise ValueError()\n    work()",
    "while q:\n    nxt = []\n    for a in q:\n        nxt = nxt + get_children(a)\n    q = nxt",
]
BAD = [
    "i=0\nwhile i < len(q):\n    if skip(q[i]):\n        continue\n    i += 1",
    "while q:\n    n = q[0]\n    for c in g.successors(n):\n        q.append(c)",
    "i=0\nwhile i < len(q):\n    q += [j for j in g.successors(root)]\n    i += 1",
    "while node is not None:\n    if a:\n        node = get_parent(node)",
    "while True:\n    work()",
    "while q:\n    n = q.pop()\n    q.append(n)",
]


def self_test():
    from ..index import AnalysisBroken

    for src, want in [(s, True) for s in GOOD] + [(s, False) for s in BAD]:
        tree = ast.parse(src)
        w = next(n for n in ast.walk(tree) if isinstance(n, ast.While))
        if LoopCheck(None, w).verdict()[0] is not want:
            raise AnalysisBroken(f"C13 self test: wrong verdict on\n{src}")
