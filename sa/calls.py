"""Call and property resolution (class-hierarchy analysis with a by-name fallback)."""
from __future__ import annotations

import ast
from typing import Optional

from .index import Class, Func, Program, walk_own
from .types import Types


class Target:
    """One resolved callee. exact: the receiver's class was inferred (not merely matched by name)."""

    __slots__ = ("func", "ext", "cls", "exact", "bound")

    def __init__(self, func=None, ext=None, cls=None, exact=True, bound=True):
        self.func, self.ext, self.cls, self.exact, self.bound = func, ext, cls, exact, bound


class Calls:
    def __init__(self, prog: Program, types: Optional[Types] = None):
        self.p = prog
        self.t = types or Types(prog)
        self._cache: dict = {}
        self._props = {
            name: [m for m in ms if m.is_property]
            for name, ms in prog.methods_by_name.items()
        }

    # calls ---------------------------------------------------------------
    def targets(self, call: ast.Call, f: Optional[Func], module) -> list[Target]:
        k = id(call)
        if k not in self._cache:
            self._cache[k] = self._targets(call, f, module)
        return self._cache[k]

    def _targets(self, call, f, module):
        fn = call.func
        out: list[Target] = []
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(
            fn.value.func, ast.Name
        ) and fn.value.func.id == "super":
            g = f
            while g is not None and g.cls is None:
                g = g.parent
            if g is not None:
                for k in self.p.mro(g.cls)[1:]:
                    if fn.attr in k.methods:
                        return [Target(func=k.methods[fn.attr])]
                eb = self.p.external_bases(g.cls)
                return [Target(ext=f"{b}.{fn.attr}") for b in eb] or [Target(ext=f"object.{fn.attr}")]
            return []
        ts = self.t.infer(fn, f, module)
        for t in ts:
            if t[0] == "classobj":
                out.append(Target(cls=t[1]))
            elif t[0] == "func":
                out.append(Target(func=t[1]))
            elif t[0] == "bound":
                out.append(Target(func=t[1]))
            elif t[0] == "unbound":
                out.append(Target(func=t[1], bound=False))
            elif t[0] == "extobj":
                out.append(Target(ext=t[1]))
        if isinstance(fn, ast.Attribute):
            recv = self.t.infer(fn.value, f, module)
            insts = [t[1] for t in recv if t[0] == "inst"]
            # overriding subclasses; a protocol stands for every class with that method
            for c in insts:
                if c.is_protocol:
                    for m in self.p.methods_by_name.get(fn.attr, []):
                        self._add(out, Target(func=m, exact=False))
                    continue
                for k in self.p.subclasses(c):
                    if fn.attr in k.methods and not k.methods[fn.attr].is_property:
                        self._add(out, Target(func=k.methods[fn.attr]))
            known = [t for t in recv if t[0] in ("inst", "classobj", "module", "extobj", "prim", "list", "tuple")
                     and t != ("prim", "none") and t != ("prim", "arrelem")]
            if not out and not known:
                for m in self.p.methods_by_name.get(fn.attr, []):
                    if not m.is_property:
                        self._add(out, Target(func=m, exact=False))
                if not out or any(t[0] == "ext" for t in recv) or not recv:
                    out.append(Target(ext=f"?.{fn.attr}", exact=False))
            elif not out and any(t[0] == "inst" for t in recv):
                out.append(Target(ext=f"?.{fn.attr}", exact=False))
            elif not out:
                kinds = [t[1] for t in recv if t[0] == "prim"] + [
                    t[0] for t in recv if t[0] in ("list", "tuple")
                ]
                out.append(Target(ext=f"<{'|'.join(sorted(kinds)) or '?'}>.{fn.attr}", exact=True))
        elif isinstance(fn, ast.Name) and not out:
            out.append(Target(ext=f"builtins.{fn.id}" if self.p.resolve_name(module, fn.id) is None
                              and not (f and self.t._is_local(fn.id, f)) else f"?{fn.id}"))
        if not out:
            out.append(Target(ext="?", exact=False))
        return out

    def _add(self, out, t):
        if not any(o.func is t.func and t.func is not None for o in out):
            out.append(t)

    # properties -----------------------------------------------------------
    def property_targets(self, a: ast.Attribute, f, module) -> list[Func]:
        if a.attr not in self._props or not self._props[a.attr]:
            return []
        recv = self.t.infer(a.value, f, module)
        out = []
        insts = [t[1] for t in recv if t[0] == "inst"]
        for c in insts:
            if c.is_protocol:
                return self._props[a.attr]
            m = self.p.find_method(c, a.attr)
            if m and m.is_property and m not in out:
                out.append(m)
            for k in self.p.subclasses(c):
                mm = k.methods.get(a.attr)
                if mm and mm.is_property and mm not in out:
                    out.append(mm)
        known = [t for t in recv if t[0] in ("inst", "classobj", "module", "extobj", "prim", "list", "tuple")
                 and t not in (("prim", "none"), ("prim", "arrelem"))]
        if out or known:
            return out
        return list(self._props[a.attr])

    # graph ------------------------------------------------------------------
    def callees(self, f: Func) -> list[tuple[ast.AST, Func]]:
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                for t in self.targets(n, f, f.module):
                    if t.func is not None:
                        out.append((n, t.func))
                    elif t.cls is not None:
                        init = self.p.init_func(t.cls)
                        if init:
                            out.append((n, init))
                        pi = self.p.find_method(t.cls, "__post_init__")
                        if pi:
                            out.append((n, pi))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for g in self.property_targets(n, f, f.module):
                    out.append((n, g))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                for t in self.t.infer(n.value, f, f.module):
                    if t[0] == "inst":
                        g = self.p.find_setter(t[1], n.attr)
                        if g:
                            out.append((n, g))
        for g in f.nested:
            out.append((g.node, g))
        # dunder protocols used through syntax
        for n in walk_own(f.node):
            dn, obj = None, None
            if isinstance(n, ast.Subscript):
                dn = {"Load": "__getitem__", "Store": "__setitem__", "Del": "__delitem__"}[
                    type(n.ctx).__name__
                ]
                obj = n.value
            elif isinstance(n, (ast.For, ast.comprehension)):
                dn, obj = "__iter__", n.iter
                if isinstance(obj, ast.Call) and isinstance(obj.func, ast.Name) \
                        and obj.func.id in ("enumerate", "reversed", "zip") and obj.args:
                    obj = obj.args[0]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and n.args:
                dn, obj = "__len__", n.args[0]
            if dn:
                for t in self.t.infer(obj, f, f.module):
                    if t[0] == "inst":
                        m = self.p.find_method(t[1], dn)
                        if m:
                            out.append((n, m))
        return out

    def reachable(self, roots: list[Func]) -> dict[str, tuple[Func, Optional[str]]]:
        """uid -> (func, uid of the caller it was first reached from)."""
        seen = {}
        todo = []
        for r in roots:
            if r.uid not in seen:
                seen[r.uid] = (r, None)
                todo.append(r)
        while todo:
            f = todo.pop(0)
            for _, g in self.callees(f):
                if g.uid not in seen:
                    seen[g.uid] = (g, f.uid)
                    todo.append(g)
        return seen

    def path_to(self, seen, uid) -> list[str]:
        out = []
        while uid is not None:
            f, prev = seen[uid]
            out.append(f.qual)
            uid = prev
        return list(reversed(out))
