"""C05: an edit that is rejected leaves everything as it was.

Path-sensitive event rule (sa/paths.py, helpers inlined) over every public method and setter that changes stored
state: on a path that ends in an error - an explicit raise, or a look-up of something the caller named that can
miss - nothing of the object or of the arguments has been changed before, or it has been put back.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..index import Func, Program, walk_own
from ..paths import NONE, Spec, TooMany, Walk, mentions
from ..report import Result
from ..scope import core_funcs, is_legacy

SELF = ("self",)
GRAPH_MUT = {"add_node", "add_edge", "remove_node", "remove_edge", "add_nodes_from", "add_edges_from", "clear",
             "remove_nodes_from"}
LISTM = {"append", "insert", "extend", "pop", "remove", "clear", "update", "setdefault", "reverse", "sort"}


def rooted(v):
    """'self' / 'param' when the value is reached from self / an argument"""
    while v and v[0] in ("attr", "item", "elem", "index"):
        v = v[1]
    if v == SELF:
        return "self"
    if v and v[0] == "param":
        return "param"
    if v and v[0] == "op" and v[1] in ("nodes", "values", "items", "keys") and v[2]:
        return rooted(v[2][0])
    return None


def named_by_caller(v):
    """the value contains an argument (an index, an id, a name)"""
    if v and v[0] == "param":
        return True
    if v and v[0] == "op" and v[1] == "slice":
        return False
    if v and v[0] == "op":
        return any(isinstance(x, tuple) and named_by_caller(x) for x in v[2])
    if v and v[0] == "list":
        return any(named_by_caller(x) for x in v[1])
    return False


class EditSpec(Spec):
    def __init__(self, p, calls):
        self.p, self.calls = p, calls
        self._touch = {}
        self.target = None

    def is_list(self, val, walk):
        return False

    def relevant(self, ev, walk):
        k = ev[0]
        if k == "need":
            return True
        if k == "setattr":
            return rooted(ev[1]) is not None
        if k in ("set", "augset", "del"):
            return rooted(ev[1]) is not None
        if k == "lookup":
            return rooted(ev[1]) == "self" and named_by_caller(ev[2])
        if k == "call":
            if ev[2] is None or rooted(ev[2]) is None:
                return False
            return ev[1] in GRAPH_MUT or ev[1] in LISTM or ev[1] == "index"
        return False

    def can_reject(self, g, env):
        # a helper that is only given places inside of the object's own lists has nothing of the caller to reject
        own = [v for k, v in env.items() if k != g.self_name]
        return not own or not all(v[0] == "n" and v[3] < 0 for v in own)

    def cleans_up(self, events):
        return bool(events) and all(e[0] == "call" and e[1] in ("remove_node", "pop") for e in events)

    def touching(self, func):
        if func.uid not in self._touch:
            self._touch[func.uid] = False
            if func.is_generator:
                return False
            hit = False
            for n in walk_own(func.node):
                if isinstance(n, ast.Raise):
                    hit = True
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    hit = True
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in GRAPH_MUT | LISTM | {"index"}:
                    hit = True
            if not hit:
                hit = any(self.touching(g) for n, g in self.calls.callees(func))
            self._touch[func.uid] = hit
        return self._touch[func.uid]


def flat(events, loops=()):
    for ev in events:
        if ev[0] == "iter":
            yield from flat(ev[2], loops + (ev[1],))
        else:
            yield ev


def is_lookup(ev):
    return ev[0] in ("lookup", "need") or ev[0] == "call" and ev[1] == "index"


def changes(events):
    """the changes of a list of events that are not put back by a later one"""
    out = []
    for ev in events:
        if is_lookup(ev):
            continue
        if ev[0] == "setattr":
            old = ("attr", ev[1], ev[2])
            mine = [e for e in out if e[0] == "setattr" and e[1:3] == ev[1:3]]
            if ev[3] == old:                       # the old value put back
                for e in mine:
                    out.remove(e)
                continue
            if mine:
                continue
        if ev[0] == "call" and ev[1] in ("pop", "remove", "remove_node", "remove_edge"):
            if ev[1] == "remove_node" and ev[3] and ev[3][0][0] in ("elem", "item"):   # one after the other
                out = [e for e in out if not (e[2] == ev[2] and e[0] == "call" or e[0] in ("set", "augset") and mentions(e[1], ev[2]))]
                continue
            add = {"pop": ("append", "insert"), "remove": ("append", "insert"), "remove_node": ("add_node",),
                   "remove_edge": ("add_edge",)}[ev[1]]
            mine = [e for e in out if e[0] == "call" and e[1] in add and e[2] == ev[2]]
            if mine:
                out.remove(mine[-1])
                if ev[1] == "remove_node":         # its links and fields go with it
                    out = [e for e in out if not (e[0] in ("set", "augset") and mentions(e[1], ev[2]) or
                                                  e[0] == "call" and e[1] == "add_edge" and e[2] == ev[2])]
                continue
        if ev[0] == "call" and ev[1] in ("remove_nodes_from", "clear"):
            out = [e for e in out if not (e[2] == ev[2] and e[0] == "call" or e[0] in ("set", "augset") and mentions(e[1], ev[2]))]
            continue
        if ev[0] == "del":
            mine = [e for e in out if e[0] == "call" and e[1] in ("append", "insert") and e[2] == ev[1]]
            if mine:
                out.remove(mine[-1])
                continue
        out.append(ev)
    return out


def lookup_key(ev):
    """(container, key) when the event asks stored state for something the caller named"""
    if ev[0] == "lookup":
        return ev[1], ev[2]
    if ev[0] == "call" and ev[1] in ("index", "remove") and len(ev[3]) == 1:
        return ev[2], ev[3][0]
    if ev[0] == "call" and ev[1] == "pop" and ev[3]:
        return ev[2], ev[3][0]
    if ev[0] in ("set", "augset", "del"):
        return ev[1], ev[2]
    return None


def can_miss(ev):
    k = lookup_key(ev)
    if k is None or k[1][0] != "param" or rooted(k[0]) != "self":
        return None
    if ev[0] == "set" and k[0][0] != "attr":
        return None                                # a field of a node, made when it is not there
    return k


def known_key(key, before, state, added=True):
    """the key was asked for, or put there, before"""
    for ev in before:
        k = lookup_key(ev)
        if k is not None and k[1] == key and rooted(k[0]) == "self":
            return True
        if added and ev[0] == "call" and ev[1] in ("add_node", "add_edge", "append") and key in ev[3]:
            return True
    for c, v in state.conds.items():
        if c[0] == "op" and c[1] in ("in", "<", "==", "has_node") and v is not None and \
                (mentions(c, key) if added else key in c[2]):
            return True
    return False


def checked(key, before, state):
    """the element was compared with None, looked for or looked up before"""
    return known_key(key, before, state, False) or any(whole(c, key) for c in state.conds)


def whole(c, key):
    """a condition on the value itself, not on one of its attributes"""
    if c == key:
        return True
    return c[0] == "op" and c[1] in ("is", "not", "isinstance", "==", "in") and key in c[2]


def describe(ev):
    if ev[0] == "setattr":
        return f"{name(ev[1])}.{ev[2]} is set"
    if ev[0] == "call":
        return f"{name(ev[2])}.{ev[1]}()"
    return f"{name(ev[1])}[..] is changed"


def name(v):
    if v[0] == "self":
        return "self"
    if v[0] == "param":
        return v[1]
    if v[0] == "attr":
        return f"{name(v[1])}.{v[2]}"
    if v[0] in ("item", "elem"):
        return f"{name(v[1])}[..]"
    return "..."


EDIT = ("add_", "set_", "append", "insert", "push_", "delete", "remove", "extend", "fit", "replace", "expel",
        "__setitem__", "__delitem__")
# reviewed: everything is computed anew by the next call
REVIEWED = {"KMeansMotionLearner.fit", "MultiObstacleAvoider.add_convergence_directions"}


def edits(p: Program):
    for f in core_funcs(p):
        if f.cls is None or f.parent is not None or f.is_property or f.is_static or f.is_classmethod:
            continue
        if is_legacy(f.module) or f.qual in REVIEWED:
            continue
        if f.is_setter or f.name.startswith(EDIT):
            yield f


def run(p: Program, tier: str) -> Result:
    res = Result("Path-sensitive event rule: on every path of an edit that ends in an error - an explicit raise (helpers "
                 "included) or a look-up of what the caller named that can miss - the changes made before are compared "
                 "with those that were put back.")
    res.rules = ["no stored state and no argument is changed before a raise of the same edit, unless it is put back",
                 "what the caller named is looked up before the first change"]
    res.assumptions = ["Errors inside of foreign libraries are not considered.",
                       "Reviewed and exempt: " + ", ".join(sorted(REVIEWED))]
    calls = Calls(p)
    spec = EditSpec(p, calls)
    for f in edits(p):
        walk = Walk(p, calls, spec, f.cls)
        try:
            ends, raises = walk.run(f)
        except TooMany:
            res.count("methods with too many paths")
            continue
        res.count("edits")
        for s, (node, g) in raises:
            evs = list(flat(s.events))
            res.oblige(f"{f.qual}: ends in an error at {g.qual}")
            res.count("paths into an error")
            left = changes(evs)
            if left:
                res.add("changed-before-error", f"{f.qual}:{describe(left[0])}", f"{g.module.path}:{node.lineno}",
                        f"{f.qual} fails here after {describe(left[0])} (line {left[0][-1]}), which is not put back")
        for s in [s for s, _ in ends] + [s for s, _ in raises]:
            evs = list(flat(s.events))
            for i, ev in enumerate(evs):
                if ev[0] == "need":
                    if ev[2] not in ("parent", "children"):
                        continue                   # not an element of a graph
                    left = [c for c in changes(evs[:i]) if c[:2] != ("setattr", ev[1])]
                    first = next((k for k, e in enumerate(evs) if left and e is left[0]), i)
                    if any(e[0] == "need" and e[1] == ev[1] and f.cls is not None and p.find_method(f.cls, e[2]) is not None
                           for e in evs[:first]):
                        continue                   # it has been asked for a method of its class before the first change
                    res.count("first uses of an element given by the caller")
                    if left and not checked(ev[1], evs[:i], s):
                        res.add("late-lookup", f"{f.qual}:{name(ev[1])}", f"{f.module.path}:{ev[-1]}",
                                f"'{name(ev[1])}' is used for the first time after {describe(left[0])} "
                                f"(line {left[0][-1]}); when it is not such an object, the edit is half done")
                    continue
                k = can_miss(ev)
                if k is None:
                    continue
                res.count("look-ups by what the caller named")
                res.oblige(f"{f.qual}: look-up in {name(k[0])}")
                left = changes(evs[:i])
                if left and not known_key(k[1], evs[:i], s):
                    res.add("late-lookup", f"{f.qual}:{name(k[0])}", f"{f.module.path}:{ev[-1]}",
                            f"'{name(k[1])}' is looked up in {name(k[0])} after {describe(left[0])} "
                            f"(line {left[0][-1]}); when it is not there, the edit is half done")
    res.floor("edits", 20)
    res.floor("paths into an error", 8)
    res.floor("look-ups by what the caller named", 10)
    return res
