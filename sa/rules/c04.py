"""C04: structures that describe the same elements stay in step.

Path-sensitive event rule (sa/paths.py): the list operations of every public method of the classes below are
collected per path, helpers and base methods inlined.

* lists of one group get the same operations (additions, deletions with the same index, renewals of the same
  length) on every path on which the method ends, the paths that end in an error included;
* the index under which an element is registered is the index at which it is stored;
* a parent link and the matching child entry are written together, on both sides, and a link that is replaced is
  taken off the old parent;
* two local lists that are used together (zip, common index, one call) have grown by the same number of elements.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..index import Func, Program, walk_own
from ..paths import NONE, Frame, Spec, State, TooMany, Walk, mentions
from ..report import Result
from ..scope import core_funcs

SELF = ("self",)
# class -> groups of attributes with one entry per element ("#nodes": nodes of self._graph, "#count": a counter)
GROUPS = {
    "MultiObstacle": [["_local_poses", "_obstacle_list", "#nodes"]],
    "BlockArchObstacle": [["_local_poses", "_obstacle_list", "#nodes"]],
    "MultiBodyObstacle": [["_obstacle_list", "#nodes", "_id_counter", "position_filters", "orientation_filters"]],
    "GraphHandler": [["_node_values", "_children_indices", "_parent_index"]],
    "MultiEllipseObstacle": [["_obstacle_list", "_children_list", "_parent_list"]],
    "VectorRotationSequence": [["basis_array", "rotation_angles"]],
    "RotationContainer": [["_obstacle_list", "_convergence_dynamics"]],
    "MultiBoundaryContainer": [["_obstacle_list", "_convergence_dynamics", "_parent_array", "_children_list",
                                "_parent_intersection_point"]],
}
COUNTERS = {"_id_counter"}
RESET_TOGETHER = {("RotationContainer", "_convergence_dynamics"), ("MultiBoundaryContainer", "_convergence_dynamics")}
# class -> (list of parents, list of children)
INDEX_LINKS = {
    "GraphHandler": ("_parent_index", "_children_indices"),
    "MultiEllipseObstacle": ("_parent_list", "_children_list"),
    "MultiBoundaryContainer": ("_parent_array", "_children_list"),
}
HANDLER = "BasicGraphHandler"
# edits of their own, also where another method of the class uses them
WHOLE = {"extend_graph", "append", "set_root", "add_component", "add_child", "expel", "add_element_with_parent",
         "set_parent_of_element"}
NODES = ("attr", SELF, "#nodes")
GRAPH = ("attr", SELF, "_graph")


def is_nodes(v):
    return v == ("attr", GRAPH, "nodes") or (v[0] == "op" and v[1] == "nodes" and v[2][:1] == (GRAPH,))


class ClassSpec(Spec):
    def __init__(self, p: Program, calls: Calls, cls, groups, links):
        self.p, self.calls, self.cls = p, calls, cls
        self.gid = {}
        for i, g in enumerate(groups):
            for m in g:
                self.gid[("attr", SELF, m)] = i
        self.links = links
        self.names = {m for g in groups for m in g if not m.startswith("#")} | {"parent", "children", "_graph", "_root"}
        if links:
            self.names |= set(links)
        self._touch = {}

    def group(self, val, walk):
        return self.gid.get(val)

    def is_list(self, val, walk):
        if val in self.gid:
            return val[2] not in COUNTERS
        if val[0] == "attr" and val[2] == "children":
            return True
        if self.cls.name == HANDLER and val == GRAPH:
            return True
        if val[0] == "item":
            o = val[1]
            if self.links and o == ("attr", SELF, self.links[1]):
                return True
            return o[0] == "item" and is_nodes(o[1])      # self._graph.nodes[i]["indeces_children"]
        return False

    def relevant(self, ev, walk):
        k = ev[0]
        if k in ("add", "del", "remove", "fresh", "extend", "reverse", "sort"):
            return True
        if k == "mapped":
            return bool(self.links) and ev[1] == ("attr", SELF, self.links[1])
        if k in ("set", "augset"):
            return ev[1] in self.gid
        if k == "setattr":
            return ev[2] in ("parent", "children") or self.cls.name == HANDLER and ev[2] == "_root"
        if k == "new":
            return self.cls.name == HANDLER or any(a == "parent" and v != NONE for a, v in ev[4]) or len(ev[3]) > 1
        if k == "call" and ev[1] == "expel":
            return True
        if k == "call":
            return ev[2] == GRAPH and ev[1] in ("add_node", "add_edge", "remove_node", "remove_edge")
        return False

    def touching(self, func):
        if func.uid not in self._touch:
            self._touch[func.uid] = False
            hit = any(isinstance(n, ast.Attribute) and n.attr in self.names and not isinstance(n.ctx, ast.Load)
                      or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                      and n.func.attr in ("append", "remove", "pop", "insert", "extend", "add_node", "add_edge",
                                          "__delitem__", "__setitem__", "remove_node")
                      or isinstance(n, ast.Delete) or isinstance(n, ast.AugAssign)
                      or isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in walk_own(func.node))
            hit = hit and any(isinstance(n, ast.Attribute) and n.attr in self.names or isinstance(n, ast.Call)
                              and isinstance(n.func, ast.Name) and n.func.id == "super" for n in ast.walk(func.node))
            if not hit:
                hit = any(self.touching(g) for n, g in self.calls.callees(func))
            self._touch[func.uid] = hit
        return self._touch[func.uid]


class GraphFrameSpec(ClassSpec):
    """the graph's nodes count as a list: add_node(k) adds entry k"""

    def relevant(self, ev, walk):
        return super().relevant(ev, walk)


def nodes_as_list(events):
    out = []
    for ev in events:
        if ev[0] == "call" and ev[1] == "add_node" and ev[3]:
            out.append(("add", NODES, ev[3][0], NONE, ev[4]))
        elif ev[0] == "call" and ev[1] == "remove_node" and ev[3]:
            out.append(("del", NODES, ev[3][0], ev[4]))
        elif ev[0] == "iter":
            out.append(("iter", ev[1], nodes_as_list(ev[2]), ev[3]))
        else:
            out.append(ev)
    return tuple(out)


def project(events, lst):
    """what happens to the number and order of the elements of one list"""
    out = []
    for ev in events:
        if ev[0] == "iter":
            inner = project(ev[2], lst)
            if inner:
                out.append(("iter", ev[1], inner))
        elif ev[1] != lst:
            continue
        elif ev[0] == "add":
            # at the end, wherever the end is
            out.append(("add", "end" if ev[2][0] == "n" or lst == NODES else ev[2]))
        elif ev[0] == "del":
            at = ev[2]
            out.append(("del", "end" if at == ("const", -1) else at))
        elif ev[0] == "remove":
            out.append(("remove", ev[2]))
        elif ev[0] == "extend":
            out.append(("extend", ev[2]))
        elif ev[0] == "fresh":
            out.append(("fresh", ev[2]))
        elif ev[0] in ("reverse", "sort"):
            out.append((ev[0],))
    return normal(tuple(out))


def normal(ops):
    """a renewed list followed by additions is a list of that length"""
    out = []
    for o in ops:
        if out and out[-1][0] == "fresh" and o[0] == "add" and o[1] == "end" and out[-1][1] is not None \
                and out[-1][1][0] == "const" and isinstance(out[-1][1][1], int):
            out[-1] = ("fresh", ("const", out[-1][1][1] + 1))
        elif o[0] == "fresh":
            out = [o]
        elif out and out[-1] == ("add", "end") and o == ("del", "end"):
            out.pop()
        else:
            out.append(o)
    return tuple(out)


def differ(a, b):
    """True when the two lists certainly end with different lengths or different elements"""
    if a == b:
        return False
    if len(a) == len(b) == 1 and a[0][0] == b[0][0] == "fresh":
        x, y = a[0][1], b[0][1]
        if x is None or y is None:
            return False
        known = lambda v: v[0] in ("const", "param") or v[0] == "op" and v[1] == "len" and v[2][0][0] == "param"
        return known(x) and known(y) and "const" in (x[0], y[0])
    unknown = lambda ops: any(o[0] == "fresh" and o[1] is None for o in ops)
    if unknown(a) or unknown(b):
        return False
    return True


def show(ops):
    def one(o):
        if o[0] == "iter":
            return "for each: " + show(o[2])
        return {"add": "one added" + (" in front" if o[1:] == (("const", 0),) else ""), "del": "one deleted", "remove": "one removed", "fresh": "renewed",
                "extend": "extended"}.get(o[0], o[0])
    return ", ".join(one(o) for o in ops) or "unchanged"


def first_line(events, lst):
    for ev in events:
        if ev[0] == "iter":
            x = first_line(ev[2], lst)
            if x:
                return x
        elif ev[1] == lst:
            return ev[-1]
    return None


def flat(events, loops=()):
    for ev in events:
        if ev[0] == "iter":
            yield from flat(ev[2], loops + (ev[1],))
        else:
            yield ev, loops


# ---------------------------------------------------------------------------------------------------------
def member_check(res, cls, f, events, group, where, ending):
    bad = None
    ev = nodes_as_list(events)
    projs = {m: project(ev, ("attr", SELF, m)) for m in group}
    ref = max(group, key=lambda m: len(projs[m]))
    for m in group:
        if m == ref or (f.name == "__init__" and not projs[m]):
            continue
        if f.name == "__init__" and m == "#nodes":
            continue
        if differ(projs[m], projs[ref]):
            line = first_line(ev, ("attr", SELF, ref)) or f.node.lineno
            bad = (m, f"{shown(ref)}: {show(projs[ref])}; {shown(m)}: {show(projs[m])} on a path that ends {ending}", line)
            break
    return bad


def shown(m):
    return "nodes of _graph" if m == "#nodes" else m


def index_check(events, group):
    """add_node(k): k is the index at which the element is stored"""
    for ev, loops in flat(nodes_as_list(events)):
        if ev[0] == "add" and ev[1] == NODES and not loops:
            k = ev[2]
            adds = [e for e, l in flat(events) if e[0] == "add" and e[1][0] == "attr" and e[1][2] == "_obstacle_list"]
            if len(adds) == 1 and adds[0][2][0] == "n" and k[0] == "n" and adds[0][2] != k:
                return ev[4], "the node is registered under another index than the one its element is stored at"
    return None


def is_root_value(v):
    return v == NONE or v == ("const", -1)


def link_check(spec, events, state, ends_ok):
    """index lists: P[c] = p <=> C[p] gets c"""
    P, C = spec.links
    lp, lc = ("attr", SELF, P), ("attr", SELF, C)
    psets, cadds, crems, fresh = {}, {}, set(), False
    for ev, loops in flat(events):
        if ev[0] in ("add", "set") and ev[1] == lp:
            idx, val = ev[2], ev[3]
            # the index of an element of a list of the group that was appended first
            psets[(idx, val)] = (ev[-1], ev[0])
        elif ev[0] == "add" and ev[1][0] == "item" and ev[1][1] == lc:
            cadds[(ev[3], ev[1][2])] = ev[-1]
        elif ev[0] == "remove" and ev[1][0] == "item" and ev[1][1] == lc:
            crems.add((ev[2], ev[1][2]))
        elif ev[0] == "fresh" and ev[1] in (lp, lc):
            fresh = True
    if fresh:
        return None
    evs = [e for e, _ in flat(events)]
    gone = [e for e in evs if e[0] == "del" and e[1] == lp and e[2] != ("const", -1)]
    if gone and ends_ok:
        if not any(e[0] == "augset" and e[1] == lp for e in evs) and not fresh:
            return gone[0][-1], f"an element is deleted, the indices in {P} still count it", "renumber"
        if not any(e[0] == "mapped" and e[1] == lc for e in evs) and not fresh and \
                not any(e[0] in ("set", "augset") and e[1] == lc for e in evs):
            return gone[0][-1], f"an element is deleted, the indices in {C} still count it", "renumber"
    links = {k: v for k, v in psets.items() if not is_root_value(k[1])}
    for (c, p), (line, how) in links.items():
        if (c, p) not in cadds and not vague(c) and not vague(p):
            return line, f"{P} gets a parent, the children of that parent do not get the element", "one-sided"
    for (c, p), line in cadds.items():
        if (c, p) not in links and not vague(c) and not vague(p):
            return line, f"{C} gets a child, the parent of that child is not set to match", "one-sided"
    if not ends_ok:
        return None
    for (c, p), (line, how) in links.items():
        if how != "set":
            continue
        old = ("item", lp, c)
        if no_index(old, state) or (c, old) in crems or any(i == c and is_root_value(v) for i, v in psets):
            continue
        return line, f"{P} is overwritten, the old parent keeps the element among its children", "old-parent"
    return None


def no_index(v, state):
    """the conditions of the path say that v is None or negative"""
    zero, minus = ("const", 0), ("const", -1)
    return state.conds.get(("op", "is", tuple(sorted((v, NONE), key=repr)))) is True or \
        state.conds.get(("op", "<", (v, zero))) is True or state.conds.get(("op", "<", (minus, v))) is False or \
        state.conds.get(("op", "==", tuple(sorted((v, minus), key=repr)))) is True


def vague(v):
    return v[0] in ("opaque",) or any(isinstance(x, tuple) and vague(x) for x in v[1:] if x and isinstance(x, tuple) and isinstance(x[0], str))


def object_links(events, state):
    """x.parent = y <=> y.children gets x"""
    psets, cadds, crems, cleared, popped = {}, {}, set(), set(), set()
    for ev, loops in flat(events):
        if ev[0] == "setattr" and ev[2] == "parent":
            psets[(ev[1], ev[3])] = ev[4]
        elif ev[0] == "new":
            for a, v in ev[4]:
                if a == "parent" and v != NONE:
                    psets[(ev[1], v)] = ev[5]
        elif ev[0] == "add" and ev[1][0] == "attr" and ev[1][2] == "children":
            cadds[(ev[3], ev[1][1])] = ev[4]
        elif ev[0] == "remove" and ev[1][0] == "attr" and ev[1][2] == "children":
            crems.add((ev[2], ev[1][1]))
        elif ev[0] == "del" and ev[1][0] == "attr" and ev[1][2] == "children":
            popped.add(ev[1])
        elif ev[0] == "fresh" and ev[1][0] == "attr" and ev[1][2] == "children":
            cleared.add((ev[1][1], ev[3]))
    for (x, y), line in psets.items():
        old = ("attr", x, "parent")
        if x[0] in ("elem", "item") and x[1][0] == "attr" and x[1][2] == "children":
            if y == NONE and not any(o == x[1][1] for o, _ in cleared) and x[1] not in popped:
                return line, "the children lose their parent, the parent keeps its children", "children-kept"
            continue
        if y != NONE and (x, y) not in cadds and not vague(x) and not vague(y):
            return line, "a parent is set, its children do not get the element", "one-sided"
        if x[0] == "new":
            continue
        none = state.conds.get(("op", "is", tuple(sorted((old, NONE), key=repr)))) or state.conds.get(old) is False
        if none is not True and (x, old) not in crems and not vague(x):
            return line, "the parent is replaced, the old parent keeps the element among its children", "old-parent"
    for (x, y), line in cadds.items():
        if (x, y) not in psets and not vague(x) and not vague(y):
            return line, "a child is added, the parent of that child is not set", "one-sided"
    for (x, y) in crems:
        if not any(a == x for a, _ in psets):
            return 0, "an element is taken off the children, it keeps its parent", "one-sided"
    for o, line in cleared:
        if not any(x[0] == "elem" and x[1] == ("attr", o, "children") and y == NONE for x, y in psets) \
                and state.conds.get(("iter", ("attr", o, "children"))) is not False:
            return line, "the children are dropped, they keep their parent", "parents-kept"
    return None


def graph_links(events):
    edges, kids, refs = {}, {}, {}
    for ev, loops in flat(events):
        if ev[0] == "call" and ev[1] == "add_edge" and len(ev[3]) >= 2:
            edges[(ev[3][0], ev[3][1])] = ev[4]
        elif ev[0] == "add" and ev[1][0] == "item" and ev[1][1][0] == "item" and is_nodes(ev[1][1][1]):
            key, node = ev[1][2], ev[1][1][2]
            if key == ("const", "indeces_children"):
                kids[(node, ev[3])] = ev[4]
            elif key == ("const", "references_children"):
                refs[node] = ev[4]
    for e, line in edges.items():
        if e not in kids:
            return line, "an edge of the graph without the entry in indeces_children of the parent"
    for e, line in kids.items():
        if e not in edges:
            return line, "an entry in indeces_children without the edge of the graph"
    return refs, kids


# ---------------------------------------------------------------------------------------------------------
def called_on_self(p: Program, cls):
    out = set()
    for k in p.mro(cls):
        for m in k.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id == "self" and n.func.attr != m.name:
                    out.add(n.func.attr)
    return out


def methods_of(p: Program, cls):
    seen = set()
    for k in p.mro(cls):
        for m in k.methods.values():
            if m.name not in seen:
                seen.add(m.name)
                yield m
        for m in getattr(k, "setters", {}).values():
            if (m.name, "setter") not in seen:
                seen.add((m.name, "setter"))
                yield m


def check_class(p, calls, cls, res):
    groups = [[m for m in g if m.startswith("#") or p.known_attr(cls, m)
               or (m == "_obstacle_list" and p.external_bases(cls))] for g in GROUPS.get(cls.name, [])]
    groups = [g for g in groups if len(g) > 1]
    links = INDEX_LINKS.get(cls.name)
    if links and not all(p.known_attr(cls, m) for m in links):
        links = None
    if not groups and not links and cls.name not in ("GraphElement", "BasicGraphHandler"):
        return
    spec = ClassSpec(p, calls, cls, groups, links)
    steps = called_on_self(p, cls)
    both_refs = cls.name == "MultiBodyObstacle"
    for f in methods_of(p, cls):
        if f.is_property and not any(True for n in walk_own(f.node) if isinstance(n, ast.Call)):
            continue
        if not spec.touching(f):
            continue
        walk = Walk(p, calls, spec, cls)
        try:
            ends, raises = walk.run(f)
        except TooMany:
            res.count("methods with too many paths")
            continue
        res.count("methods")
        paths = [(s, "normally", None) for s, _ in ends] + [(s, "in an error", n) for s, n in raises]
        step = f.name in steps and f.name not in WHOLE or (f.name.startswith("_") and not f.name.startswith("__"))
        for s, ending, node in paths:
            if not s.events:
                continue
            res.count("paths")
            res.oblige(f"{cls.name}.{f.name}: {len(s.events)} list / link operations on a path that ends {ending}")
            here = f"{f.module.path}:{f.node.lineno}"
            for g in groups:
                bad = member_check(res, cls, f, s.events, g, here, ending)
                if bad and not step:
                    res.add("out-of-step", f"{cls.name}.{f.name}:{bad[0]}", f"{f.module.path}:{bad[2]}", bad[1])
                bad = index_check(s.events, g)
                if bad and not step:
                    res.add("wrong-index", f"{cls.name}.{f.name}", f"{f.module.path}:{bad[0]}", bad[1])
            resets(res, cls, f, s.events, groups, step)
            if links:
                bad = link_check(spec, s.events, s, node is None)
                if bad and not step:
                    res.add("link", f"{cls.name}.{f.name}:{bad[2]}", f"{f.module.path}:{bad[0]}", bad[1])
            bad = object_links(s.events, s)
            if bad and not step:
                res.add("link", f"{cls.name}.{f.name}:{bad[2]}", f"{f.module.path}:{bad[0] or f.node.lineno}", bad[1])
            bad = graph_links(s.events)
            if isinstance(bad[0], int):
                if not step:
                    res.add("link", f"{cls.name}.{f.name}:edge", f"{f.module.path}:{bad[0]}", bad[1])
            elif both_refs and {n for n, _ in bad[1]} != set(bad[0]) and not step:
                res.add("link", f"{cls.name}.{f.name}:references", f"{f.module.path}:{f.node.lineno}",
                        "indeces_children and references_children of the parent do not grow together")
            bad = registry(cls, s.events, s) if node is None else None
            if bad and not step:
                res.add("registry", f"{cls.name}.{f.name}", f"{f.module.path}:{bad[0]}", bad[1])
    res.count("classes")


def registry(cls, events, state):
    """BasicGraphHandler: the list of elements holds exactly the elements that are linked"""
    if cls.name != HANDLER:
        return None
    evs = [e for e, _ in flat(events)]
    for ev in evs:
        if ev[0] == "new" and not any(e[0] == "add" and e[1] == GRAPH and e[3] == ev[1] for e in evs):
            return ev[5], "an element is created and not put among the elements of the graph"
        if ev[0] == "remove" and ev[1] == GRAPH:
            x = ev[2]
            par = ("attr", x, "parent")
            if state.conds.get(("op", "is", tuple(sorted((par, NONE), key=repr)))) is not True and \
                    state.conds.get(par) is not False and \
                    not any(e[0] == "call" and e[1] == "expel" and e[2] == x or
                       e[0] == "setattr" and e[1] == x and e[2] == "parent" and e[3] == NONE for e in evs):
                return ev[3], "an element is taken off the graph, its links stay"
            roots = [e for e in evs if e[0] == "setattr" and e[2] == "_root" and e[3] == NONE]
            other = state.conds.get(("op", "is", tuple(sorted((x, ("attr", SELF, "_root")), key=repr))))
            if other is None:
                other = state.conds.get(("op", "==", tuple(sorted((x, ("attr", SELF, "_root")), key=repr))))
            if not roots and other is not False:
                return ev[3], "the root is taken off the graph and stays the root"
    return None


def resets(res, cls, f, events, groups, step):
    for ev, loops in flat(events):
        if ev[0] != "set" or ev[1] != ("attr", SELF, "_obstacle_list"):
            continue
        for g in groups:
            for m in g:
                if (cls.name, m) in RESET_TOGETHER and not step:
                    if not any(e[0] == "set" and e[1] == ("attr", SELF, m) and e[2] == ev[2] for e, _ in flat(events)):
                        res.add("out-of-step", f"{cls.name}.{f.name}:{m}", f"{f.module.path}:{ev[4]}",
                                f"an obstacle is replaced, its entry in {m} belongs to the old one")


# --- local lists -------------------------------------------------------------------------------------------
class LocalSpec(Spec):
    def __init__(self, names, f):
        self.names, self.f = names, f

    def is_list(self, val, walk):
        return val[0] == "local"

    def group(self, val, walk):
        return None

    def relevant(self, ev, walk):
        return ev[0] in ("add", "del", "remove", "extend") and ev[1][0] == "local" or ev[0] == "use"


class LocalFrame(Frame):
    """name = [] starts a list with an identity; uses of two such lists together are recorded"""

    def store(self, t, v, st, src):
        if isinstance(t, ast.Name) and t.id in self.w.spec.names and isinstance(src, (ast.List, ast.Call)) \
                and v == ("list", ()):
            a = st.fork()
            a.env[t.id] = ("local", t.id, src.lineno)
            # a list that starts again has no elements
            a.events = tuple(e for e in a.events if not (e[0] != "iter" and e[1] == a.env[t.id]))
            return [a]
        if isinstance(t, ast.Name) and v[0] == "concat" and v[1] and v[1][0][0] == "local" and v[1][0][1] == t.id:
            st = self.extend(v[1][0], v[1][1] if v[1][1][0] == "list" else v[1][1], st, t.lineno)
            return [st]
        if isinstance(t, ast.Name) and v[0] == "op" and v[1] == "+" and v[2][0][0] == "local" and v[2][0][1] == t.id:
            return [self.extend(v[2][0], v[2][1], st, t.lineno)]
        return super().store(t, v, st, src)

    def apply(self, e, fn, recv, is_super, pos, kw, st):
        vals = list(pos) + list(kw.values())
        locs = [v for v in vals if v[0] == "local"]
        if len({v for v in locs}) > 1:
            self.w.uses.append((e, st, tuple(dict.fromkeys(locs))))
        return super().apply(e, fn, recv, is_super, pos, kw, st)


class LocalWalk(Walk):
    def body(self, f, st, depth):
        fr = LocalFrame(self, f, depth)
        out = fr.block(f.node.body, [st])
        return fr.returns + [(s, NONE) for s in out], fr.raises


def together(f: Func):
    """names of local lists that are passed to one call together, zipped, or indexed by one variable"""
    fresh = {}
    for n in walk_own(f.node):
        t = v = None
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t, v = n.targets[0], n.value
        elif isinstance(n, ast.AnnAssign):
            t, v = n.target, n.value
        if isinstance(t, ast.Name) and (isinstance(v, ast.List) and not v.elts
                                        or isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                                        and v.func.id == "list" and not v.args):
            fresh[t.id] = n
    pairs = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.Call):
            names = [a.id for a in list(n.args) + [k.value for k in n.keywords] if isinstance(a, ast.Name) and a.id in fresh]
            for a in names:
                for b in names:
                    if a < b:
                        pairs.add((a, b))
    by_index = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in fresh:
            if isinstance(n.slice, ast.Name):
                by_index.setdefault(n.slice.id, set()).add(n.value.id)
    for names in by_index.values():
        for a in names:
            for b in names:
                if a < b:
                    pairs.add((a, b))
    return fresh, pairs


def local_lists(p, calls, res):
    for f in core_funcs(p):
        fresh, pairs = together(f)
        if not pairs:
            continue
        names = {x for pr in pairs for x in pr}
        walk = LocalWalk(p, calls, LocalSpec(names, f), None)
        try:
            ends, raises = walk.run(f)
        except TooMany:
            res.count("methods with too many paths")
            continue
        for a, b in sorted(pairs):
            res.count("pairs of local lists")
            for node, s, locs in [(u[0], u[1], u[2]) for u in walk.uses] + [(None, s, None) for s, _ in ends]:
                la = s.env.get(a, ("",))
                lb = s.env.get(b, ("",))
                if la[0] != "local" or lb[0] != "local":
                    continue
                if locs is not None and not (la in locs and lb in locs):
                    continue
                pa, pb = project(s.events, la), project(s.events, lb)
                if any(o[0] == "extend" for o in pa + pb):
                    continue
                res.oblige(f"{f.qual}: {a} and {b} used together")
                if differ(pa, pb):
                    line = node.lineno if node is not None else first_line(s.events, la) or f.node.lineno
                    res.add("out-of-step", f"{f.qual}:{a}/{b}", f"{f.module.path}:{line}",
                            f"{a}: {show(pa)}; {b}: {show(pb)} where they are used together")


def run(p: Program, tier: str) -> Result:
    res = Result("Path-sensitive event rule: the operations on lists that describe the same elements, on parent and "
                 "child links and on the graph are collected on every path of every public method and compared.")
    res.rules = ["lists of one group get the same operations on every path",
                 "an element is registered under the index it is stored at",
                 "parent links and child entries are written on both sides and taken off the old parent",
                 "local lists used together have grown by the same number of elements"]
    res.assumptions = ["A step method that only methods of the same class call is judged through its callers.",
                       "Loops contribute the operations of one round."]
    calls = Calls(p)
    for c in sorted(p.classes.values(), key=lambda c: c.key):
        if c.name in GROUPS or c.name in INDEX_LINKS or c.name in ("GraphElement", "BasicGraphHandler"):
            check_class(p, calls, c, res)
    local_lists(p, calls, res)
    res.floor("methods", 10)
    res.floor("paths", 15)
    return res
