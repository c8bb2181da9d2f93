"""C02: rotation operations leave their operands alone, and derived rotations stand on their own."""
from __future__ import annotations

import ast

from ..flow import Flow
from ..index import Program, walk_own
from ..report import Result
from ..scope import core_funcs
from .effects_common import solved

# operations of the rotation algebra: (what is allowed to change) is nothing
EDITS = ("append", "push", "set_", "add_", "reset", "update_", "__init__", "__post_init__", "__setitem__",
         "remove", "delete", "insert", "extend", "pop", "clear")
# per-node working values a tree recomputes in every query
TREE_SCRATCH = {"['weight']", "['orientation']", "['part_orientation']", "['part_direction']"}


def rotation_classes(p: Program):
    out = []
    for c in p.classes.values():
        attrs = set(c.instance_attrs) | set(c.annotations) | set(c.class_attrs)
        if {"base", "rotation_angle"} <= attrs or {"basis_array", "rotation_angles"} <= attrs:
            out.append((c, "rotation"))
        elif c.name.endswith("RotationTree"):
            out.append((c, "tree"))
    return out


ARRAYS = ("base", "basis_array", "rotation_angles")


class Shallow(Flow):
    """Names bound to a shallow copy of a rotation -> arrays still shared with the original."""

    def __init__(self, p, calls, f, kinds):
        super().__init__()
        self.p, self.calls, self.f = p, calls, f
        self.fields = {c.key: [a for a in ARRAYS if a in (set(c.instance_attrs) | set(c.annotations))]
                       for c, k in kinds if k == "rotation"}
        self.out = {}   # node of the copy -> fields it leaves with

    def copy(self, s):
        return {k: set(v) for k, v in s.items()}

    def join(self, a, b):
        return {k: a.get(k, set()) | b.get(k, set()) for k in set(a) | set(b)}

    def shallow(self, e):
        """(original, fields given anew) for copy.copy(x) / dataclasses.replace(x, ...) / x.__copy__()."""
        if not isinstance(e, ast.Call):
            return None
        names = {t.ext for t in self.calls.targets(e, self.f, self.f.module) if t.ext}
        x, new = None, set()
        if names & {"copy.copy"} and e.args:
            x = e.args[0]
        elif names & {"dataclasses.replace"} and e.args:
            x, new = e.args[0], {k.arg for k in e.keywords}
        if x is None:
            return None
        got = set()
        for t in self.calls.t.infer(x, self.f, self.f.module):
            if t[0] == "inst":
                for c in self.p.mro(t[1]):
                    got |= set(self.fields.get(c.key, ()))
        return (x, got - new) if got - new else None

    def value(self, e, s):
        r = self.shallow(e)
        if r:
            return {(e.lineno, e.col_offset, ast.unparse(r[0]), f) for f in r[1]}
        if isinstance(e, ast.Name):
            return set(s.get(e.id, ()))
        if isinstance(e, ast.IfExp):
            return self.value(e.body, s) | self.value(e.orelse, s)
        return set()

    def assign(self, target, value, s, node):
        if isinstance(target, ast.Name):
            s[target.id] = self.value(value, s) if value is not None else set()
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name):
            x = target.value.id
            if value is None or not (isinstance(value, ast.Attribute) and value.attr == target.attr):
                s[x] = {r for r in s.get(x, ()) if r[3] != target.attr}

    def on_return(self, node, s):
        if node.value is not None:
            for n in ast.walk(node.value):
                if isinstance(n, (ast.Name, ast.Call)):
                    for r in self.value(n, s):
                        self.out[r] = node


def run(p: Program, tier: str) -> Result:
    res = Result("Effect and alias summaries of every non-editing operation of the rotation classes and of "
                 "the free rotation functions: what they write and what their results share.")
    res.rules = [
        "an operation that is not an edit writes nothing into its receiver or operands",
        "a rotation built from another one shares no array with it (alias of returned object's fields)",
        "tree queries write only the per-query working values of a node",
    ]
    res.assumptions = ["numpy arithmetic and copies give new arrays; basic slices and reshapes give views."]
    calls, eff = solved(p)
    kinds = rotation_classes(p)
    mods = {c.module.name for c, _ in kinds}
    called = {t.func.uid for g in p.iter_funcs() for n in walk_own(g.node) if isinstance(n, ast.Call)
              for t in calls.targets(n, g, g.module) if t.func is not None}
    targets = []
    for c, kind in kinds:
        for f in list(c.methods.values()):
            targets.append((f, kind))
    for f in p.iter_funcs():
        if f.cls is None and f.parent is None and f.module.name in mods:
            targets.append((f, "function"))
    for f, kind in targets:
        if f.uid not in eff.sum:
            continue
        if f.name.startswith("_") and not f.name.startswith("__") and f.uid in called:
            continue  # an internal helper: what it writes shows in the operations calling it
        if f.name.startswith(EDITS) and kind != "function":
            # edits may change the receiver, never the operands
            only = {q for q in f.params}
        else:
            only = None
        sm = eff.sum[f.uid]
        res.count("rotation operations")
        res.oblige(f"{f.qual}")
        for (q, path), sites in sm.mut.items():
            if only is not None and q not in only:
                continue
            if q.startswith("global "):
                continue
            if kind == "tree" and q == f.self_name:
                keys = [x for x in path if x.startswith("['")]
                for s in sites:
                    if not keys or keys[0] not in TREE_SCRATCH:
                        res.add("operand-written", f"{s.func.qual}:{s.text}",
                                f"{s.func.module.path}:{s.line}",
                                f"{f.qual} changes the tree itself (not a per-query working value)")
                continue
            for s in sites:
                res.add("operand-written", f"{s.func.qual}:{s.text}", f"{s.func.module.path}:{s.line}",
                        f"{f.qual} writes into its operand '{q}{''.join('.' + x for x in path)}'")
        # results
        if f.name in ("__iter__", "__init__") or f.is_property or f.name.startswith("get_"):
            continue
        news = [o for o in sm.ret_o if o[0] == "N"]
        for o in news:
            for fld, os in sm.heap.get(o, {}).items():
                for x in os:
                    if x[0] == "P" and fld in ("base", "basis_array", "rotation_angles", "*", "**") and x[2] and (
                        x[2][0] in ("base", "basis_array", "rotation_angles")
                    ):
                        res.add("shared-storage", f"{f.qual}:{fld}", f.where,
                                f"the result's '{fld}' is the operand's own array "
                                f"'{x[1]}.{'.'.join(x[2])}'")
    for f in core_funcs(p):
        if isinstance(f.node, ast.Lambda):
            continue
        fl = Shallow(p, calls, f, kinds)
        fl.run(f.node, {})
        for (line, col, x, fld) in sorted(fl.out):
            res.add("shared-storage", f"{f.qual}:{fld}", f"{f.module.path}:{line}",
                    f"the result of {f.qual} is a shallow copy: its '{fld}' is the array of '{x}'")
    res.floor("rotation operations", 40)
    return res
