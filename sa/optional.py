"""Attributes (and elements of list attributes) of a class that can be None: some code of the class stores None in
them and some code of the package asks whether they are None before it uses them."""
from __future__ import annotations

import ast

from .calls import Calls
from .index import Class, Func, Program, walk_own
from .scope import is_legacy, is_offline


def none(e) -> bool:
    return isinstance(e, ast.Constant) and e.value is None


def can_be_none(e) -> bool:
    if isinstance(e, ast.IfExp):
        return can_be_none(e.body) or can_be_none(e.orelse)
    return none(e)


def none_elements(e) -> bool:
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add)):
        return none_elements(e.left) or none_elements(e.right)
    if isinstance(e, (ast.List, ast.Tuple)):
        return any(none(x) for x in e.elts)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
        return can_be_none(e.elt)
    if isinstance(e, ast.Call) and e.args and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple"):
        return none_elements(e.args[0])
    return False


def tested_exprs(test):
    """Expressions whose being None (or empty) the condition asks for."""
    todo = [test]
    while todo:
        e = todo.pop()
        if isinstance(e, ast.BoolOp):
            todo += e.values
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            todo.append(e.operand)
        elif isinstance(e, ast.NamedExpr):
            todo.append(e.value)
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            if none(e.comparators[0]):
                yield e.left
            elif none(e.left):
                yield e.comparators[0]


class Optionals:
    def __init__(self, p: Program, calls: Calls):
        self.p, self.calls = p, calls
        self.stores: dict = {}   # attr -> set of class keys that store None in it
        self.elems: dict = {}    # attr -> set of class keys that store None in one of its elements
        tested, tested_el = set(), set()
        for f in p.iter_funcs():
            if is_offline(f.module) or is_legacy(f.module):
                continue
            bound = {}
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    bound.setdefault(n.targets[0].id, []).append(n.value)
                elif isinstance(n, ast.NamedExpr):
                    bound.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    t, it = n.target, n.iter
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" \
                            and isinstance(t, ast.Tuple) and len(t.elts) == 2 and it.args:
                        t, it = t.elts[1], it.args[0]
                    if isinstance(t, ast.Name):
                        bound.setdefault(t.id, []).append(ast.Subscript(value=it, slice=ast.Constant(0), ctx=ast.Load()))
            for n in walk_own(f.node):
                tests = [n.test] if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)) else \
                    n.ifs if isinstance(n, ast.comprehension) else \
                    [n] if isinstance(n, ast.Compare) else []
                for t in tests:
                    for e in tested_exprs(t):
                        for x in bound.get(e.id, []) if isinstance(e, ast.Name) else [e]:
                            if isinstance(x, ast.Attribute):
                                tested.add(x.attr)
                            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute):
                                tested_el.add(x.value.attr)
                if f.cls is None:
                    continue
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Attribute) and n.value is not None:
                            v = n.value
                            if can_be_none(v) or (isinstance(v, ast.Name) and none_default(f, v.id)):
                                self.stores.setdefault(t.attr, set()).add(f.cls.key)
                            if none_elements(v):
                                self.elems.setdefault(t.attr, set()).add(f.cls.key)
                        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and n.value is not None \
                                and can_be_none(n.value):
                            self.elems.setdefault(t.value.attr, set()).add(f.cls.key)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                        "append", "insert") and n.args and none(n.args[-1]) and isinstance(n.func.value, ast.Attribute):
                    self.elems.setdefault(n.func.value.attr, set()).add(f.cls.key)
        for c in p.classes.values():
            for st in c.node.body:
                if isinstance(st, (ast.AnnAssign, ast.Assign)) and st.value is not None and can_be_none(st.value):
                    for t in st.targets if isinstance(st, ast.Assign) else [st.target]:
                        if isinstance(t, ast.Name):
                            self.stores.setdefault(t.id, set()).add(c.key)
        self.stores = {a: c for a, c in self.stores.items() if a in tested}
        self.elems = {a: c for a, c in self.elems.items() if a in tested_el}

    def owner_stores(self, table, attr, recv, f: Func) -> bool:
        keys = table.get(attr)
        if not keys:
            return False
        for t in self.calls.t.infer(recv, f, f.module):
            if t[0] == "inst" and isinstance(t[1], Class):
                fam = {k.key for k in self.p.mro(t[1])} | {k.key for k in self.p.subclasses(t[1])}
                m = self.p.find_method(t[1], attr)
                if fam & keys and m is None:
                    return True
        return False

    def optional(self, e, f: Func) -> bool:
        if isinstance(e, ast.Attribute):
            return self.owner_stores(self.stores, e.attr, e.value, f)
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and not isinstance(e.slice, ast.Slice):
            return self.owner_stores(self.elems, e.value.attr, e.value.value, f)
        return False


def none_default(f: Func, name: str) -> bool:
    d = f.defaults.get(name)
    if not none(d):
        return False
    return not any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in walk_own(f.node))
