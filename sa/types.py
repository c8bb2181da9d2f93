"""Light, flow-insensitive type inference over the index (used to resolve callees)."""
from __future__ import annotations

import ast
from typing import Optional

from .index import Class, Func, Module, Program, walk_own

EMPTY = frozenset()
ND = ("prim", "ndarray")

ANN_PRIM = {
    "int": "int", "float": "float", "bool": "bool", "str": "str", "complex": "float",
    "None": "none", "numpy.ndarray": "ndarray", "numpy.typing.ArrayLike": "arraylike",
    "numpy.typing.NDArray": "ndarray", "numpy.float64": "float",
}
BUILTIN_RET = {
    "len": "int", "int": "int", "float": "float", "bool": "bool", "str": "str", "abs": None,
    "isinstance": "bool", "hasattr": "bool", "any": "bool", "all": "bool", "round": None,
    "range": "range", "repr": "str", "id": "int", "hash": "int",
}


class Types:
    def __init__(self, prog: Program):
        self.p = prog
        self._attr: dict = {}
        self._ret: dict = {}
        self._local: dict = {}
        self._busy: set = set()

    # -------------------------------------------------------- annotations
    def ann(self, e: Optional[ast.expr], module: Module, cls: Optional[Class] = None, depth=0):
        if e is None or depth > 6:
            return EMPTY
        if isinstance(e, ast.Constant):
            if e.value is None:
                return frozenset([("prim", "none")])
            if isinstance(e.value, str):
                try:
                    return self.ann(ast.parse(e.value, mode="eval").body, module, cls, depth + 1)
                except SyntaxError:
                    return EMPTY
            return EMPTY
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self.ann(e.left, module, cls, depth + 1) | self.ann(e.right, module, cls, depth + 1)
        if isinstance(e, ast.Subscript):
            head = ast.unparse(e.value).split(".")[-1]
            if head == "Optional":
                return self.ann(e.slice, module, cls, depth + 1) | {("prim", "none")}
            if head == "Union":
                out = EMPTY
                elts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
                for x in elts:
                    out |= self.ann(x, module, cls, depth + 1)
                return out
            if head in ("list", "List", "Sequence", "Iterable", "Iterator", "set", "deque"):
                return frozenset([("list", self.ann(e.slice, module, cls, depth + 1))])
            if head in ("tuple", "Tuple"):
                elts = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
                return frozenset([
                    ("tuple", tuple(self.ann(x, module, cls, depth + 1) for x in elts))
                ])
            if head in ("dict", "Dict"):
                return frozenset([("prim", "dict")])
            return self.ann(e.value, module, cls, depth + 1)
        if isinstance(e, ast.Name):
            if e.id == "Self" and cls is not None:
                return frozenset([("inst", cls)])
            if e.id in ("list", "tuple", "dict", "set"):
                return frozenset([("prim", e.id)])
            if e.id in ANN_PRIM and self.p.resolve_name(module, e.id) is None:
                return frozenset([("prim", ANN_PRIM[e.id])])
        ent = self.p.resolve_expr(e, module)
        if ent is None:
            return EMPTY
        if ent[0] == "class":
            if ent[1].name in ("Vector",):
                return frozenset([ND])
            return frozenset([("inst", ent[1])])
        if ent[0] == "ext":
            if ent[1] in ANN_PRIM:
                return frozenset([("prim", ANN_PRIM[ent[1]])])
            if ent[1].startswith("typing.") or ent[1].startswith("numpy.typing"):
                return EMPTY
            return frozenset([("ext", ent[1])])
        if ent[0] == "var" and ent[3] is not None:
            return self.ann(ent[3], ent[1], cls, depth + 1)
        return EMPTY

    # ------------------------------------------------------------- locals
    def local_table(self, f: Func) -> dict[str, list]:
        """name -> list of ('ann', expr) | ('expr', expr) | ('iter', expr, path) | ..."""
        if f.uid in self._local:
            return self._local[f.uid]
        tab: dict[str, list] = {}

        def bind(t, src):
            if isinstance(t, ast.Name):
                tab.setdefault(t.id, []).append(src)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        bind(x.value, ("unknown",))
                    else:
                        bind(x, ("item", src, i))

        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, ("expr", n.value))
            elif isinstance(n, ast.AnnAssign):
                bind(n.target, ("ann", n.annotation))
                if n.value is not None:
                    bind(n.target, ("expr", n.value))
            elif isinstance(n, ast.AugAssign):
                bind(n.target, ("binop", n))
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, ("expr", n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                bind(n.target, ("iter", n.iter))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bind(n.optional_vars, ("unknown",))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                tab.setdefault(n.name, []).append(("unknown",))
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                tab.setdefault(n.name, []).append(("def", n))
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    nm = al.asname or al.name.split(".")[0]
                    tab.setdefault(nm, []).append(("import", n, al))
        self._local[f.uid] = tab
        return tab

    def name_types(self, name: str, f: Optional[Func], module: Module, depth: int):
        g = f
        while g is not None:
            tab = self.local_table(g)
            out = EMPTY
            hit = False
            if name in g.args_nodes:
                hit = True
                if name == g.self_name:
                    return frozenset([("classobj", g.cls) if g.is_classmethod else ("inst", g.cls)])
                out |= self.ann(g.args_nodes[name].annotation, module, g.cls)
                d = g.defaults.get(name)
                if d is not None and isinstance(d, ast.Constant) and d.value is not None:
                    out |= frozenset([("prim", type(d.value).__name__)])
            if name in (g.vararg, g.kwarg):
                return frozenset([("prim", "tuple" if name == g.vararg else "dict")])
            for src in tab.get(name, []):
                hit = True
                out |= self.src_types(src, g, module, depth + 1)
            if hit:
                return out
            g = g.parent
        ent = self.p.resolve_name(module, name)
        if ent is None:
            return EMPTY
        return self.entity_types(ent, depth)

    def entity_types(self, ent, depth=0):
        if ent[0] == "class":
            return frozenset([("classobj", ent[1])])
        if ent[0] == "func":
            return frozenset([("func", ent[1])])
        if ent[0] == "module":
            return frozenset([("module", ent[1])])
        if ent[0] == "ext":
            return frozenset([("extobj", ent[1])])
        if ent[0] == "var" and ent[3] is not None and depth < 8:
            return self.infer(ent[3], None, ent[1], depth + 1)
        return EMPTY

    def src_types(self, src, f, module, depth):
        if depth > 12:
            return EMPTY
        k = src[0]
        if k == "ann":
            return self.ann(src[1], module, f.cls if f else None)
        if k == "expr":
            return self.infer(src[1], f, module, depth)
        if k == "binop":
            n = src[1]
            return self.infer(ast.BinOp(n.target, n.op, n.value), f, module, depth)
        if k == "iter":
            return self.elem_types(src[1], f, module, depth)
        if k == "item":
            inner = src[1]
            if inner[0] == "iter":
                it = inner[1]
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
                    if it.func.id == "enumerate" and it.args:
                        if src[2] == 0:
                            return frozenset([("prim", "int")])
                        return self.elem_types(it.args[0], f, module, depth)
                    if it.func.id == "zip" and src[2] < len(it.args):
                        return self.elem_types(it.args[src[2]], f, module, depth)
                if (
                    isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute)
                    and it.func.attr == "items"
                ):
                    return EMPTY
            if inner[0] == "expr" and isinstance(inner[1], (ast.Tuple, ast.List)):
                if src[2] < len(inner[1].elts):
                    return self.infer(inner[1].elts[src[2]], f, module, depth)
            ts = self.src_types(inner, f, module, depth + 1)
            out = EMPTY
            for t in ts:
                if t[0] == "tuple" and src[2] < len(t[1]):
                    out |= t[1][src[2]]
                elif t[0] == "list":
                    out |= t[1]
            return out
        if k == "def":
            fn = getattr(src[1], "_func", None)
            return frozenset([("func", fn)]) if fn else EMPTY
        if k == "import":
            n, al = src[1], src[2]
            if isinstance(n, ast.Import):
                dotted = al.name if al.asname else al.name.split(".")[0]
                if dotted in self.p.modules:
                    return frozenset([("module", self.p.modules[dotted])])
                return frozenset([("extobj", dotted)])
            mod = n.module or ""
            if mod in self.p.modules:
                ent = self.p.resolve_name(self.p.modules[mod], al.name)
                return self.entity_types(ent, depth) if ent else EMPTY
            return frozenset([("extobj", f"{mod}.{al.name}")])
        return EMPTY

    def elem_types(self, it: ast.expr, f, module, depth):
        if depth > 12:
            return EMPTY
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "range":
                return frozenset([("prim", "int")])
            if it.func.id in ("reversed", "sorted", "list", "tuple", "iter") and it.args:
                return self.elem_types(it.args[0], f, module, depth + 1)
            if it.func.id == "enumerate" and it.args:
                return frozenset([
                    ("tuple", (frozenset([("prim", "int")]),
                               self.elem_types(it.args[0], f, module, depth + 1)))
                ])
        if isinstance(it, (ast.List, ast.Tuple, ast.Set)):
            out = EMPTY
            for e in it.elts:
                out |= self.infer(e, f, module, depth + 1)
            return out
        out = EMPTY
        for t in self.infer(it, f, module, depth + 1):
            if t[0] == "list":
                out |= t[1]
            elif t[0] == "prim" and t[1] == "range":
                out |= {("prim", "int")}
            elif t[0] == "tuple":
                for x in t[1]:
                    out |= x
            elif t[0] == "inst":
                m = self.p.find_method(t[1], "__iter__")
                if m:
                    for r in self.ret_types(m):
                        if r[0] == "list":
                            out |= r[1]
                    for n in walk_own(m.node):
                        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) \
                                and isinstance(n.value.func, ast.Name) and n.value.func.id == "iter":
                            out |= self.elem_types(n.value.args[0], m, m.module, depth + 1)
            elif t[0] == "prim" and t[1] in ("ndarray", "arraylike"):
                out |= {("prim", "arrelem")}
        return out

    # -------------------------------------------------------- attributes
    def attr_types(self, c: Class, attr: str, depth=0):
        key = (c.key, attr)
        if key in self._attr:
            return self._attr[key]
        if key in self._busy or depth > 12:
            return EMPTY
        self._busy.add(key)
        out = EMPTY
        m = self.p.find_method(c, attr)
        if m is not None:
            out = self.ret_types(m) if m.is_property else frozenset([("bound", m)])
        else:
            for k in self.p.mro(c):
                if attr in k.annotations:
                    out |= self.ann(k.annotations[attr], k.module, k)
                if k.class_attrs.get(attr) is not None:
                    out |= self.infer(k.class_attrs[attr], None, k.module, depth + 1)
                for f, n in k.instance_attrs.get(attr, []):
                    st = n._parent
                    if isinstance(st, ast.AnnAssign):
                        out |= self.ann(st.annotation, k.module, k)
                    elif isinstance(st, ast.Assign) and n in st.targets:
                        out |= self.infer(st.value, f, f.module, depth + 1)
        self._busy.discard(key)
        self._attr[key] = out
        return out

    def ret_types(self, f: Func, depth=0):
        if f.uid in self._ret:
            return self._ret[f.uid]
        if ("ret", f.uid) in self._busy or depth > 12:
            return EMPTY
        self._busy.add(("ret", f.uid))
        out = self.ann(f.node.returns, f.module, f.cls) if hasattr(f.node, "returns") else EMPTY
        inferred = EMPTY
        n_ret = 0
        if isinstance(f.node, ast.Lambda):
            inferred = self.infer(f.node.body, f, f.module, depth + 1)
        else:
            for n in walk_own(f.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n_ret += 1
                    inferred |= self.infer(n.value, f, f.module, depth + 1)
        out = out | inferred
        self._busy.discard(("ret", f.uid))
        self._ret[f.uid] = out
        return out

    # -------------------------------------------------------------- infer
    def infer(self, e: ast.expr, f: Optional[Func], module: Module, depth=0):
        if depth > 12:
            return EMPTY
        if isinstance(e, ast.Constant):
            if e.value is None:
                return frozenset([("prim", "none")])
            return frozenset([("prim", type(e.value).__name__)])
        if isinstance(e, ast.Name):
            return self.name_types(e.id, f, module, depth)
        if isinstance(e, ast.Attribute):
            out = EMPTY
            for t in self.infer(e.value, f, module, depth + 1):
                if t[0] == "inst":
                    out |= self.attr_types(t[1], e.attr, depth + 1)
                elif t[0] == "classobj":
                    m = self.p.find_method(t[1], e.attr)
                    if m:
                        out |= {("bound", m) if (m.is_classmethod or m.is_static) else ("unbound", m)}
                    else:
                        out |= self.attr_types(t[1], e.attr, depth + 1)
                elif t[0] == "module":
                    ent = self.p.resolve_name(t[1], e.attr)
                    if ent:
                        out |= self.entity_types(ent, depth + 1)
                elif t[0] == "extobj":
                    if t[1] in ("numpy", "math") and e.attr in ("pi", "inf", "nan", "e"):
                        out |= {("prim", "float")}
                    else:
                        out |= {("extobj", f"{t[1]}.{e.attr}")}
                elif t[0] == "prim" and t[1] in ("ndarray", "arraylike") and e.attr in ("T", "flat"):
                    out |= {ND}
                elif t[0] == "prim" and t[1] == "ndarray" and e.attr == "shape":
                    out |= {("list", frozenset([("prim", "int")]))}
                elif t[0] == "prim" and t[1] == "ndarray" and e.attr in ("size", "ndim"):
                    out |= {("prim", "int")}
                elif t[0] == "ext":
                    out |= ext_attr(t[1], e.attr)
            return out
        if isinstance(e, ast.Call):
            return self.call_types(e, f, module, depth)
        if isinstance(e, ast.BinOp):
            lt = self.infer(e.left, f, module, depth + 1)
            rt = self.infer(e.right, f, module, depth + 1)
            prims = {t[1] for t in lt | rt if t[0] == "prim"} - {"none"}
            if "ndarray" in prims:
                return frozenset([ND])
            lists = [t for t in lt | rt if t[0] == "list"]
            if isinstance(e.op, (ast.Add, ast.Mult)) and lists:
                return frozenset(lists)
            if lt and rt and prims <= {"int", "bool"} and len(lt) == 1 == len(rt):
                return frozenset([("prim", "float" if isinstance(e.op, ast.Div) else "int")])
            if lt and rt and prims <= {"int", "float", "bool"} and all(
                t[0] == "prim" for t in lt | rt
            ):
                return frozenset([("prim", "float")])
            if "str" in prims:
                return frozenset([("prim", "str")])
            return EMPTY
        if isinstance(e, ast.UnaryOp):
            if isinstance(e.op, ast.Not):
                return frozenset([("prim", "bool")])
            return self.infer(e.operand, f, module, depth + 1)
        if isinstance(e, ast.Compare):
            for x in [e.left] + e.comparators:
                if ND in self.infer(x, f, module, depth + 1):
                    return frozenset([("prim", "boolarr")])
            return frozenset([("prim", "bool")])
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for v in e.values:
                out |= self.infer(v, f, module, depth + 1)
            return out
        if isinstance(e, ast.IfExp):
            return self.infer(e.body, f, module, depth + 1) | self.infer(e.orelse, f, module, depth + 1)
        if isinstance(e, (ast.List, ast.ListComp, ast.Set, ast.GeneratorExp, ast.SetComp)):
            el = EMPTY
            if isinstance(e, (ast.List, ast.Set)):
                for x in e.elts:
                    el |= self.infer(x, f, module, depth + 1)
            else:
                el = self.infer(e.elt, f, module, depth + 1)
            return frozenset([("list", el)])
        if isinstance(e, ast.Tuple):
            return frozenset([
                ("tuple", tuple(self.infer(x, f, module, depth + 1) for x in e.elts))
            ])
        if isinstance(e, (ast.Dict, ast.DictComp)):
            return frozenset([("prim", "dict")])
        if isinstance(e, (ast.JoinedStr,)):
            return frozenset([("prim", "str")])
        if isinstance(e, ast.NamedExpr):
            return self.infer(e.value, f, module, depth + 1)
        if isinstance(e, ast.Lambda):
            return frozenset([("lambda", e)])
        if isinstance(e, ast.Subscript):
            out = EMPTY
            for t in self.infer(e.value, f, module, depth + 1):
                if t[0] == "list":
                    out |= {t} if isinstance(e.slice, ast.Slice) else t[1]
                elif t[0] == "tuple" and isinstance(e.slice, ast.Constant) \
                        and isinstance(e.slice.value, int) and -len(t[1]) <= e.slice.value < len(t[1]):
                    out |= t[1][e.slice.value]
                elif t[0] == "prim" and t[1] in ("ndarray", "arraylike"):
                    if isinstance(e.slice, (ast.Slice, ast.Tuple)):
                        out |= {ND} if any(
                            isinstance(x, ast.Slice) for x in getattr(e.slice, "elts", [e.slice])
                        ) else {("prim", "arrelem")}
                    else:
                        out |= {("prim", "arrelem")}
                elif t[0] == "inst":
                    m = self.p.find_method(t[1], "__getitem__")
                    if m:
                        out |= self.ret_types(m, depth + 1)
            return out
        return EMPTY

    def call_types(self, e: ast.Call, f, module, depth):
        if isinstance(e.func, ast.Name) and not (
            f and self._is_local(e.func.id, f)
        ) and self.p.resolve_name(module, e.func.id) is None:
            nm = e.func.id
            if nm == "super":
                return frozenset([("super", f)])
            if nm in BUILTIN_RET:
                r = BUILTIN_RET[nm]
                return frozenset([("prim", r)]) if r else EMPTY
            if nm in ("list", "sorted"):
                el = self.elem_types(e.args[0], f, module, depth + 1) if e.args else EMPTY
                return frozenset([("list", el)])
            if nm in ("tuple", "dict", "set"):
                return frozenset([("prim", nm)])
            if nm in ("min", "max", "sum"):
                return EMPTY
            return EMPTY
        out = EMPTY
        for t in self.infer(e.func, f, module, depth + 1):
            if t[0] == "classobj":
                out |= {("inst", t[1])}
            elif t[0] in ("func", "bound", "unbound"):
                rt = self.ret_types(t[1], depth + 1)
                out |= rt
            elif t[0] == "extobj":
                out |= ext_call(t[1], e, self, f, module, depth)
        if not out and isinstance(e.func, ast.Attribute):
            if e.func.attr in ("copy", "reshape", "dot", "flatten", "ravel", "astype", "transpose"):
                bt = self.infer(e.func.value, f, module, depth + 1)
                if ND in bt or e.func.attr != "copy":
                    out |= {ND}
                else:
                    out |= bt
            elif e.func.attr == "tolist":
                out |= {("list", EMPTY)}
        return out

    def _is_local(self, name, f):
        while f is not None:
            if name in f.args_nodes or name in self.local_table(f):
                return True
            f = f.parent
        return False


NP_ARRAY = {
    "array", "zeros", "ones", "eye", "zeros_like", "ones_like", "vstack", "hstack", "stack",
    "concatenate", "append", "tile", "cross", "copy", "arange", "linspace", "argsort", "sort",
    "delete", "diag", "cumsum", "maximum", "minimum", "outer", "where", "nonzero", "full",
    "empty", "swapaxes", "transpose", "reshape", "atleast_1d", "atleast_2d", "asarray", "matmul",
    "repeat", "roll", "meshgrid", "column_stack", "insert", "flip", "identity",
}
NP_BOOLARR = {"logical_and", "logical_or", "logical_not", "logical_xor", "isclose", "isnan", "isinf"}
NP_SCALAR_BOOL = {"any", "all", "allclose", "array_equal", "isscalar"}


def ext_call(dotted: str, e, types, f, module, depth):
    parts = dotted.split(".")
    last = parts[-1]
    if parts[0] == "numpy":
        if dotted.startswith("numpy.linalg"):
            if last == "norm":
                return frozenset([("prim", "float")]) if not any(
                    k.arg == "axis" for k in e.keywords
                ) else frozenset([ND])
            return frozenset([ND])
        if last in NP_ARRAY:
            return frozenset([ND])
        if last in NP_BOOLARR:
            return frozenset([("prim", "boolarr")])
        if last in NP_SCALAR_BOOL:
            return frozenset([("prim", "bool")])
        return EMPTY
    if parts[0] == "math":
        return frozenset([("prim", "float")])
    if dotted in ("copy.deepcopy", "copy.copy") and e.args:
        return types.infer(e.args[0], f, module, depth + 1)
    if last[:1].isupper():
        return frozenset([("ext", dotted)])
    return EMPTY


# attributes of objects of the two uninstalled packages whose kind matters here
EXT_ATTRS = {
    "pose": frozenset([("ext", "vartools.states.Pose")]),
    "twist": frozenset([("ext", "vartools.states.Twist")]),
    "position": frozenset([ND]),
    "center_position": frozenset([ND]),
    "attractor_position": frozenset([ND]),
    "velocity": frozenset([ND]),
    "dimension": frozenset([("prim", "int")]),
}


def ext_attr(dotted, attr):
    return EXT_ATTRS.get(attr, EMPTY)
