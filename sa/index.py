"""Whole-program index: modules, classes, functions, name resolution, light type inference.

Everything is read from the current source below the repository root with the
standard-library ``ast`` module; no module of the analysed tree is imported.
"""
from __future__ import annotations

import ast
import builtins
import hashlib
import os
from typing import Iterator, Optional

PACKAGE = "nonlinear_avoidance"
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__"}


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is gone: the check gives no verdict."""


class Module:
    def __init__(self, name: str, path: str, tree: ast.Module, source: str, is_pkg: bool):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.is_pkg = is_pkg
        self.names: dict[str, tuple] = {}  # local name -> entity
        self.star: list[str] = []
        self.digest = hashlib.sha256(source.encode()).hexdigest()[:16]

    def __repr__(self):
        return f"<Module {self.name}>"


class Func:
    def __init__(self, node, module: Module, cls: Optional["Class"], parent: Optional["Func"]):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        decos = []
        for d in getattr(node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            decos.append(ast.unparse(t))
        self.decorators = decos
        self.is_static = "staticmethod" in decos
        self.is_classmethod = "classmethod" in decos
        self.is_property = any(
            d in ("property", "cached_property", "functools.cached_property") for d in decos
        )
        self.is_setter = any(d.endswith(".setter") for d in decos)
        self.is_abstract = any(d.endswith("abstractmethod") for d in decos)
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.args_nodes = {x.arg: x for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.defaults: dict[str, ast.expr] = {}
        for name, d in zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults):
            self.defaults[name] = d
        for name, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[name] = d
        self.nested: list[Func] = []
        # method receiver
        self.has_self = cls is not None and not self.is_static and parent is None
        self.self_name = self.pos[0] if self.has_self and self.pos else None

    @property
    def qual(self) -> str:
        base = f"{self.parent.qual}.<locals>." if self.parent else (
            f"{self.cls.name}." if self.cls else ""
        )
        suffix = ".setter" if self.is_setter else ""
        return f"{base}{self.name}{suffix}"

    @property
    def key(self) -> str:
        return f"{self.module.name}:{self.qual}"

    @property
    def where(self) -> str:
        return f"{self.module.path}:{self.node.lineno}"

    @property
    def params(self) -> list[str]:
        """Parameters without the receiver."""
        pos = self.pos[1:] if self.has_self else self.pos
        return pos + self.kwonly

    @property
    def is_generator(self) -> bool:
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))

    def __repr__(self):
        return f"<Func {self.key}>"


class Class:
    def __init__(self, node: ast.ClassDef, module: Module):
        self.node, self.module, self.name = node, module, node.name
        self.base_entities: list[tuple] = []
        self.methods: dict[str, Func] = {}
        self.setters: dict[str, Func] = {}
        self.class_attrs: dict[str, ast.AST] = {}
        self.annotations: dict[str, ast.expr] = {}
        self.is_dataclass = any(
            "dataclass" in ast.unparse(d) for d in node.decorator_list
        )
        self.is_protocol = False
        self.instance_attrs: dict[str, list[tuple[Func, ast.AST]]] = {}

    @property
    def key(self):
        return f"{self.module.name}:{self.name}"

    def __repr__(self):
        return f"<Class {self.key}>"


def walk_own(node) -> Iterator[ast.AST]:
    """Walk a function body without entering nested functions, lambdas or classes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Program:
    def __init__(self, root: str, package: str = PACKAGE):
        self.root, self.package = root, package
        self.modules: dict[str, Module] = {}
        self.classes: dict[str, Class] = {}
        self.funcs: dict[str, Func] = {}
        self.class_by_name: dict[str, list[Class]] = {}
        self.methods_by_name: dict[str, list[Func]] = {}
        self._load()
        self._collect()
        self._link()
        self._attr_type_cache: dict = {}
        self._ret_type_cache: dict = {}

    # ------------------------------------------------------------------ load
    def _load(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"package directory {base} is missing")
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames.sort()
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                full = os.path.join(dirpath, fn)
                rel = os.path.relpath(full, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                name = ".".join(parts)
                src = open(full, encoding="utf-8").read()
                import warnings

                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        tree = ast.parse(src, filename=rel)
                    except SyntaxError as err:
                        raise AnalysisBroken(f"{rel} does not parse: {err}")
                for parent in ast.walk(tree):
                    for child in ast.iter_child_nodes(parent):
                        child._parent = parent
                self.modules[name] = Module(name, rel, tree, src, is_pkg)

    def _add_func(self, node, module, cls, parent):
        f = Func(node, module, cls, parent)
        key = f.key
        n = 2
        while key in self.funcs:  # redefinition in the same scope
            key = f"{f.key}#{n}"
            n += 1
        f.uid = key
        self.funcs[key] = f
        node._func = f
        for sub in walk_own(node):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = self._add_func(sub, module, cls if parent is None and cls else None, f) \
                    if False else self._add_func(sub, module, None, f)
                f.nested.append(g)
        return f

    def _collect(self):
        for m in self.modules.values():
            self._collect_body(m, m.tree.body)

    def _collect_body(self, m: Module, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(st, m, None, None)
                m.names[st.name] = ("func", f)
            elif isinstance(st, ast.ClassDef):
                c = Class(st, m)
                self.classes[c.key] = c
                self.class_by_name.setdefault(c.name, []).append(c)
                m.names[st.name] = ("class", c)
                for sub in st.body:
                    if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = self._add_func(sub, m, c, None)
                        if f.is_setter:
                            c.setters[f.name] = f
                        else:
                            c.methods[f.name] = f
                            self.methods_by_name.setdefault(f.name, []).append(f)
                    elif isinstance(sub, ast.Assign):
                        for t in sub.targets:
                            if isinstance(t, ast.Name):
                                c.class_attrs[t.id] = sub.value
                    elif isinstance(sub, ast.AnnAssign) and isinstance(sub.target, ast.Name):
                        c.annotations[sub.target.id] = sub.annotation
                        if sub.value is not None or c.is_dataclass:
                            c.class_attrs[sub.target.id] = sub.value
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        m.names[al.asname] = ("import", al.name)
                    else:
                        m.names[al.name.split(".")[0]] = ("import", al.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    mod = ".".join(parts + ([st.module] if st.module else []))
                for al in st.names:
                    if al.name == "*":
                        m.star.append(mod)
                    else:
                        m.names[al.asname or al.name] = ("importfrom", mod, al.name)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ("body", "orelse", "finalbody"):
                    self._collect_body(m, getattr(st, fld, []) or [])
                for h in getattr(st, "handlers", []):
                    self._collect_body(m, h.body)
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            m.names.setdefault(n.id, ("var", m, n.id, None))
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.names[n.id] = ("var", m, n.id, getattr(st, "value", None))

    def _link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                t = b.value if isinstance(b, ast.Subscript) else b
                c.base_entities.append(self.resolve_expr(t, c.module) or ("ext", ast.unparse(t)))
            c.is_protocol = any(
                e[0] == "ext" and e[1].endswith("Protocol") for e in c.base_entities
            )
        for c in self.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                if not f.self_name:
                    continue
                for n in ast.walk(f.node):
                    if (
                        isinstance(n, ast.Attribute)
                        and isinstance(n.ctx, (ast.Store, ast.Del))
                        and isinstance(n.value, ast.Name)
                        and n.value.id == f.self_name
                        and not f.is_classmethod
                    ):
                        c.instance_attrs.setdefault(n.attr, []).append((f, n))

    # --------------------------------------------------------------- resolve
    def resolve_name(self, module: Module, name: str, seen=None) -> Optional[tuple]:
        seen = seen or set()
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        ent = module.names.get(name)
        if ent is None:
            for s in module.star:
                if s in self.modules:
                    r = self.resolve_name(self.modules[s], name, seen)
                    if r:
                        return r
            return None
        if ent[0] == "import":
            dotted = ent[1]
            if dotted in self.modules:
                return ("module", self.modules[dotted])
            return ("ext", dotted)
        if ent[0] == "importfrom":
            _, mod, nm = ent
            sub = f"{mod}.{nm}"
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], nm, seen)
                if r:
                    return r
                if sub in self.modules:
                    return ("module", self.modules[sub])
                if mod.split(".")[0] == self.package:
                    return ("missing", sub)
            if sub in self.modules:
                return ("module", self.modules[sub])
            if mod.split(".")[0] == self.package:
                return ("missing", sub)
            return ("ext", sub)
        return ent

    def resolve_expr(self, e: ast.expr, module: Module) -> Optional[tuple]:
        """Resolve a dotted expression made of module-level names."""
        if isinstance(e, ast.Name):
            return self.resolve_name(module, e.id)
        if isinstance(e, ast.Attribute):
            base = self.resolve_expr(e.value, module)
            if base is None:
                return None
            if base[0] == "ext":
                return ("ext", f"{base[1]}.{e.attr}")
            if base[0] == "module":
                m = base[1]
                r = self.resolve_name(m, e.attr)
                if r:
                    return r
                sub = f"{m.name}.{e.attr}"
                if sub in self.modules:
                    return ("module", self.modules[sub])
                return ("missing", sub)
            if base[0] == "class":
                f = self.find_method(base[1], e.attr)
                if f:
                    return ("func", f)
                return None
        return None

    # --------------------------------------------------------------- classes
    def mro(self, c: Class) -> list[Class]:
        out, todo, seen = [], [c], set()
        while todo:
            k = todo.pop(0)
            if k.key in seen:
                continue
            seen.add(k.key)
            out.append(k)
            todo = [e[1] for e in k.base_entities if e[0] == "class"] + todo
        return out

    def external_bases(self, c: Class) -> list[str]:
        out = []
        for k in self.mro(c):
            for e in k.base_entities:
                if e[0] in ("ext", "missing"):
                    nm = e[1]
                    if nm.split(".")[-1] in ("ABC", "object", "Protocol", "Generic"):
                        continue
                    out.append(nm)
                elif e[0] == "var":
                    out.append(e[2])
        return out

    def find_method(self, c: Class, name: str) -> Optional[Func]:
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c: Class, name: str) -> Optional[Func]:
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def subclasses(self, c: Class) -> list[Class]:
        return [k for k in self.classes.values() if c in self.mro(k)]

    def known_attr(self, c: Class, name: str) -> bool:
        for k in self.mro(c):
            if (
                name in k.methods or name in k.setters or name in k.class_attrs
                or name in k.annotations or name in k.instance_attrs
            ):
                return True
        return False

    def init_func(self, c: Class) -> Optional[Func]:
        return self.find_method(c, "__init__")

    def dataclass_fields(self, c: Class) -> list[tuple[str, bool]]:
        fields: dict[str, bool] = {}
        for k in reversed(self.mro(c)):
            if not k.is_dataclass:
                continue
            for n, ann in k.annotations.items():
                t = ast.unparse(ann)
                if "ClassVar" in t:
                    continue
                has_default = k.class_attrs.get(n) is not None
                dv = k.class_attrs.get(n)
                if isinstance(dv, ast.Call) and ast.unparse(dv.func).endswith("field"):
                    kws = {kw.arg: kw.value for kw in dv.keywords}
                    if isinstance(kws.get("init"), ast.Constant) and kws["init"].value is False:
                        continue
                    has_default = "default" in kws or "default_factory" in kws
                fields[n] = has_default
        return list(fields.items())

    def func(self, key: str) -> Func:
        """Anchor lookup by 'module:Qual' with the package prefix left out."""
        full = f"{self.package}.{key}" if not key.startswith(self.package) else key
        if full not in self.funcs:
            raise AnalysisBroken(f"anchor function {key} is gone")
        return self.funcs[full]

    def cls(self, key: str) -> Class:
        full = f"{self.package}.{key}" if not key.startswith(self.package) else key
        if full not in self.classes:
            raise AnalysisBroken(f"anchor class {key} is gone")
        return self.classes[full]

    def iter_funcs(self) -> list[Func]:
        return list(self.funcs.values())

    def iter_scopes(self):
        """(module, body) for code at module level."""
        for m in self.modules.values():
            yield m


def real_body(node) -> list:
    """Statements of a function that do something: no docstring, no constant, no assignment of a constant to
    a name nobody reads."""
    if isinstance(node, ast.Lambda):
        return [node.body]
    read = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    out = []
    for st in node.body:
        if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and all(
                isinstance(t, ast.Name) and t.id not in read for t in st.targets):
            continue
        out.append(st)
    return out
