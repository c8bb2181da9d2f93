"""Symbolic array shapes: abstract interpretation of numpy code with axes 'space' (D) and 'number of ..' atoms.

Values:  None (unknown) | NONE | ("a", dims) array | ("n", dim, space) number (its value, the axis it counts along)
         | ("l", element, length) list | ("t", values) tuple.
Dims:    None (unknown) | (atom, offset); constants have the atom None, the space has the atom "D".
"""
from __future__ import annotations

import ast
from typing import Optional

from .calls import Calls
from .flow import Flow
from .index import Class, Func, Program, walk_own
from .scope import is_legacy, is_offline

NONE = ("none",)
D = ("D", 0)
NUM = ("n", None, None)


def const(k):
    return (None, k)


def vec(d=D):
    return ("a", (d,))


def arr(*dims):
    return ("a", tuple(dims))


VEC = vec()
MANY = ("*", 0)   # as many as were collected: some number that has nothing to do with the space

# what a parameter without telling annotation is, by its name
VECTOR_NAMES = {
    "position", "velocity", "initial_velocity", "convergence_velocity", "direction", "relative_position",
    "normal", "normal_direction", "normal_vector", "reference_direction", "reference_vector", "initial_vector",
    "attractor_position", "center_position", "reference_position", "linear_velocity", "tangent",
    "null_direction", "base_direction", "reference_point", "surface_point", "convergence_vector",
    "initial_direction", "base_velocity", "local_position", "start_position", "center", "mean", "vector1", "vector2",
    "vec_init", "vec_rot", "vec_final", "point", "robot_position", "target_position", "relative_velocity",
    "velocity_linear", "rotated_velocity", "final_velocity",
}
WEIGHT_NAMES = {"weights", "gammas", "gamma_values", "gamma_list"}
COLUMN_NAMES = {"directions", "velocities", "normals", "normal_directions", "sub_directions", "normal_dirs"}
COLUMN_NAMES |= {"vectors_array"}
BASIS_NAMES = {"null_matrix", "covariance", "base_matrix", "rotation_matrix"}
# parameters and attributes of rotations: two vectors span the plane of rotation
PLANE = {"base": (D, (None, 2)), "base0": (D, (None, 2)), "basis_array": (D, "n", (None, 2)),
         "rotation_angles": ("n",)}
NUMBER_NAMES = {"weight", "gamma", "gamma_value", "radius", "convergence_radius", "rot_factor", "factor",
                "rotation_angle", "angle", "power", "margin", "margin_absolut", "delta_time", "step_size"}
# attributes of objects of other libraries (and of open class)
VECTOR_ATTRS = {
    "position", "center_position", "linear_velocity", "attractor_position", "global_reference_point",
    "local_reference_point", "reference_point", "axes_length", "semiaxes", "semiaxes_with_magin",
    "local_relative_reference_point",
}
DIMENSION_NAMES = {"dimension", "dim", "ndim_space", "DIMENSION", "DIM", "dimensions"}
FITTED = {
    "means_": (("fitted", 0), D), "covariances_": (("fitted", 0), D, D), "precisions_cholesky_": (("fitted", 0), D, D),
    "precisions_": (("fitted", 0), D, D), "weights_": (("fitted", 0),), "cluster_centers_": (("fitted", 0), D),
}
# methods of objects of other libraries: name -> (shapes of leading arguments, result)
METHODS = {
    "get_gamma": ((VEC,), NUM),
    "get_normal_direction": ((VEC,), VEC),
    "get_reference_direction": ((VEC,), VEC),
    "get_outwards_reference_direction": ((VEC,), VEC),
    "get_reference_point": ((), VEC),
    "set_reference_point": ((VEC,), NONE),
    "get_point_on_surface": ((VEC,), VEC),
    "get_intersection_with_surface": ((VEC, VEC), VEC),
    "get_local_radius": ((VEC,), NUM),
    "get_characteristic_length": ((), NUM),
    "is_inside": ((VEC,), NUM),
    "transform_global2relative": ((VEC,), VEC),
    "transform_relative2global": ((VEC,), VEC),
    "transform_global2relative_dir": ((VEC,), VEC),
    "transform_relative2global_dir": ((VEC,), VEC),
    "as_angle": ((), vec(("D", -1))),
    "as_vector": ((), VEC),
}
SAME_SHAPE_METHODS = {
    "transform_position_from_relative", "transform_position_to_relative", "transform_direction_from_relative",
    "transform_direction_to_relative",
}
POINTWISE1 = {
    "copy", "abs", "absolute", "fabs", "sqrt", "exp", "log", "sin", "cos", "tan", "arccos", "arcsin", "arctan",
    "sign", "isnan", "isfinite", "isinf", "logical_not", "nan_to_num", "ascontiguousarray", "asarray",
    "array", "flip", "sort", "argsort", "negative", "square", "deg2rad", "rad2deg", "cumsum", "clip", "real", "round",
    "around", "floor", "ceil", "asfarray", "zeros_like", "ones_like", "empty_like", "full_like", "cbrt", "float64",
}
POINTWISE2 = {
    "maximum", "minimum", "arctan2", "power", "add", "subtract", "multiply", "divide", "true_divide", "logical_and",
    "logical_or", "fmod", "mod", "isclose", "equal", "greater", "less", "hypot", "fmax", "fmin",
}
REDUCE = {"sum", "mean", "max", "min", "amax", "amin", "prod", "any", "all", "std", "var", "median", "argmin",
          "argmax", "nansum", "nanmax", "nanmin", "nanmean", "norm", "average", "count_nonzero", "ptp"}
SAME_BUILTIN = {"abs", "float", "int", "bool", "round"}


def sounds_like_index(name: str) -> bool:
    return name in ("index", "idx", "ii", "jj", "kk", "it", "it_obs", "idx_obs", "ind_node", "ind_parent", "ind_root",
                    "cluster_label", "parent", "ind_obs_id", "label") or name.endswith(("_id", "_index", "_idx"))


def counting(name: str) -> bool:
    """The name says that the number counts something."""
    return name.startswith(("n_", "num_", "max_it", "it_max", "sum_close")) or name == "it_max"


class Shapes:
    """Whole-program driver: summaries of functions, shapes of attributes, findings."""

    def __init__(self, p: Program):
        self.p = p
        self.calls = Calls(p)
        self.ret: dict[str, object] = {}
        self.attrs: dict[tuple, object] = {}
        self.elem: dict[tuple, object] = {}
        self.findings: dict[tuple, tuple] = {}
        self.report = False
        self.checked = 0
        self.known_ops = 0
        self.stats: dict[str, int] = {}
        self.ops: dict[str, int] = {}
        self.passed: dict[tuple, object] = {}
        self._new_passed: dict[tuple, object] = {}
        self.called_in: dict[str, set] = {}
        self.funcs = [f for f in p.iter_funcs() if not is_legacy(f.module) and not is_offline(f.module)
                      and not f.name.startswith("test_")]

    def run(self):
        for k in range(3):
            self.report = k == 2
            self.checked = self.known_ops = 0
            self.stats = {}
            self.findings = {}
            new: dict[tuple, object] = {}
            self._new_attrs = new
            self._new_passed = {}
            self._new_called_in = {}
            for f in self.funcs:
                if f.parent is not None:
                    continue
                fl = ShapeFlow(self, f)
                before = self.known_ops
                fl.analyse()
                self.ops[f.uid] = self.known_ops - before
                self.ret[f.uid] = fl.result
            self.attrs = new
            self.passed = self._new_passed
            self.called_in = self._new_called_in
        return self

    # ------------------------------------------------------------------ parameters
    def param(self, f: Func, name: str):
        a = self._annotation(f, name)
        if a is not None:
            return a
        ann = self._ann_text(f, name)
        if ann and any(w in ann for w in ("list", "List", "Obstacle", "str", "Rotation", "Optional[Pose", "Pose",
                                          "dict", "Dynamic", "tuple", "Container")):
            return None
        if self.by_callers(f, name, ann):
            return self.passed[(f.uid, name)]
        if name in VECTOR_NAMES:
            return VEC
        if name in WEIGHT_NAMES:
            return vec((f"#{f.uid}.{name}", 0))
        if name in COLUMN_NAMES:
            return arr(D, (f"#{f.uid}.{name}", 0))
        if name in BASIS_NAMES:
            return arr(D, D)
        if name in PLANE and (ann in ("VectorArray", "Optional[VectorArray]") or name != "base"):
            return ("a", tuple((f"#{f.uid}.rotations", 0) if d == "n" else d for d in PLANE[name]))
        if name in DIMENSION_NAMES:
            return ("n", D, None)
        if name in NUMBER_NAMES:
            return NUM
        if counting(name):
            return ("n", (f"#{f.uid}.{name}", 0), None)
        return None

    def by_callers(self, f: Func, name: str, ann) -> bool:
        """A parameter of a private step, or one that merely sounds like a number, is what its callers hand in."""
        if ann or (f.uid, name) not in self.passed:
            return False
        if f.name.startswith("_") and not f.name.startswith("__") or f.parent is not None:
            return True
        return name in NUMBER_NAMES

    def hand_in(self, f: Func, name: str, v):
        v = map_dims(v, lambda d: d if d is None or d[0] in (None, "D") else
                     (f"#{f.uid}.{name}", 0) if v[0] == "a" and len(v[1]) == 1 else None)
        old = self._new_passed.get((f.uid, name), BOT)
        self._new_passed[(f.uid, name)] = None if v == NONE else join_elem(old, v)

    def _ann_text(self, f: Func, name: str):
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name and x.annotation is not None:
                return ast.unparse(x.annotation)
        return None

    def _annotation(self, f: Func, name: str):
        t = self._ann_text(f, name)
        return self.ann_value(t, f, name) if t else None

    def ann_value(self, t: str, f: Func, name: str = ""):
        t = t.strip("'\"").replace(" ", "")
        for w in ("Optional[", "typing.Optional["):
            if t.startswith(w):
                t = t[len(w):-1]
        t = "|".join(x for x in t.split("|") if x != "None")
        if t == "Vector":
            return VEC
        if t == "float":
            return NUM
        if t == "bool":
            return NUM
        if t == "int":
            if name in DIMENSION_NAMES:
                return ("n", D, None)
            if counting(name):
                return ("n", (f"#{f.uid}.{name}", 0), None)
            return NUM
        if t == "VectorArray":
            return None
        return None

    # ------------------------------------------------------------------ attributes
    def attr_of(self, c: Class, name: str):
        for k in self.p.mro(c):
            v = self.attrs.get((k.key, name), 0)
            if v != 0:
                return v
            if name in k.annotations:
                t = ast.unparse(k.annotations[name]) if not isinstance(k.annotations[name], str) \
                    else k.annotations[name]
                t = t.strip("'\"")
                if t in ("Vector", "Optional[Vector]"):
                    return VEC
                if t in ("float", "bool"):
                    return NUM
                if name in PLANE:
                    return ("a", tuple(("self.rotations", 0) if d == "n" else d for d in PLANE[name]))
        return None

    def declared(self, c: Class, name: str):
        """What a field of a class is said to be."""
        for k in self.p.mro(c):
            if name in k.annotations:
                t = k.annotations[name]
                t = (t if isinstance(t, str) else ast.unparse(t)).strip("'\"")
                if name in PLANE:
                    return ("a", tuple((f"#{k.key}.rotations", 0) if d == "n" else d for d in PLANE[name]))
                if t in ("Vector", "Optional[Vector]"):
                    return VEC
                if t in ("float", "bool"):
                    return NUM
        return None

    def put_attr(self, c: Class, name: str, v):
        key = (c.key, name)
        v = self.escape(v)
        if v == NONE:
            self._new_attrs.setdefault(key, NONE)
            return
        old = self._new_attrs.get(key, 0)
        if v is not None and v[0] == "a":
            v = ("a", v[1])
        if v is None and old != 0:
            return   # what is stored elsewhere says more
        if old is None:
            old = 0
        self._new_attrs[key] = v if old in (0, NONE) else join(old, v)

    def escape(self, v):
        """Atoms of a function mean nothing outside of it, those of the object stay."""
        return map_dims(v, lambda d: d if d is None or d[0] in (None, "D", "fitted", "data", "*")
                        or d[0].startswith(("self.", "len(self.")) else None)

    def add(self, rule, f: Func, node, text, message):
        if self.report:
            key = (rule, f"{f.qual}:{text}")
            self.findings.setdefault(key, (f"{f.module.path}:{getattr(node, 'lineno', f.node.lineno)}", message))


def map_dims(v, fn):
    if v is None or v == NONE:
        return v
    if v[0] == "a":
        return ("a", tuple(fn(d) for d in v[1]))
    if v[0] == "n":
        return ("n", fn(v[1]), fn(v[2]))
    if v[0] == "l":
        return ("l", map_dims(v[1], fn), fn(v[2]))
    if v[0] == "t":
        return ("t", tuple(map_dims(x, fn) for x in v[1]))
    return v


def join(a, b):
    if a == b:
        return a
    if a == NONE:
        return b
    if b == NONE:
        return a
    if a is None or b is None:
        return None
    if a[0] != b[0]:
        return None
    if a[0] == "a":
        if len(a[1]) != len(b[1]):
            return None
        return ("a", tuple(x if x == y else None for x, y in zip(a[1], b[1])))
    if a[0] == "n":
        return ("n", a[1] if a[1] == b[1] else None, a[2] if a[2] == b[2] else None)
    if a[0] == "l":
        n = a[2] if a[2] == b[2] else MANY if {a[2], b[2]} == {MANY, const(0)} else None
        return ("l", join_elem(a[1], b[1]), n)
    if a[0] == "t":
        if len(a[1]) != len(b[1]):
            return None
        return ("t", tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return None


BOT = ("bot",)


def in_space(v, sub):
    """A value of a callee that works in another space."""
    if sub is None or v is None or v in (NONE, BOT):
        return v

    def fn(d):
        if d is None or d[0] != "D":
            return d
        return (sub[0], sub[1] + d[1])
    return map_dims(v, fn)


def join_elem(a, b):
    if a == BOT:
        return b
    if b == BOT:
        return a
    return join(a, b)


def counts_parts(d) -> bool:
    """The dim is a number of parts (obstacles, weights, points ..), not one of the space."""
    return d is not None and d[0] not in (None, "D") and ".shape[" not in d[0]


def times(a, b):
    """So many times so many entries."""
    if a is None or b is None or a[1] or b[1]:
        return None
    if None in (a[0], b[0]):
        return None
    return ("prod:" + "|".join(sorted((a[0], b[0]))), 0)


def part_of(a, b) -> bool:
    return b.startswith("prod:") and a in b[5:].split("|")


def other_axes(a, b) -> bool:
    """Two different axes of the same array."""
    return ".shape[" in a and ".shape[" in b and a != b and a.rsplit(".shape[", 1)[0] == b.rsplit(".shape[", 1)[0]


def show(d, g=None) -> str:
    if d is None:
        return "?"
    atom, off = d
    if atom is None:
        return str(off)
    if atom == "D":
        atom = "dimension"
    elif atom.startswith("#"):
        atom = "n(" + atom.rsplit(".", 1)[-1] + ")"
    return atom + (f"{off:+d}" if off else "")


def show_v(v):
    if v is None:
        return "?"
    if v == NONE:
        return "None"
    if v[0] == "a":
        return "(" + ", ".join(show(d) for d in v[1]) + ("," if len(v[1]) == 1 else "") + ")"
    if v[0] == "n":
        return "number"
    if v[0] == "l":
        return f"list of {show_v(v[1])}"
    if v[0] == "t":
        return "tuple(" + ", ".join(show_v(x) for x in v[1]) + ")"
    return "?"


class ShapeFlow(Flow):
    def __init__(self, g: Shapes, f: Func):
        super().__init__()
        self.g, self.f = g, f
        self.result = BOT
        self.ret_sites = []
        self.fixed_dim: Optional[int] = None
        self._quiet = 0
        self._elsewhere = False

    # ---------------------------------------------------------------- domain
    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            if k == "$D":
                if a.get(k) == b.get(k):
                    out[k] = a.get(k)
                continue
            if k in a and k in b:
                out[k] = join(a[k], b[k])
            else:
                out[k] = a.get(k, b.get(k))
        return out

    # ---------------------------------------------------------------- entry
    def analyse(self):
        f = self.f
        s = {}
        for n in f.params:
            s[n] = self.g.param(f, n)
        dims = self.dimension_of_class(f.cls)
        if dims is not None:
            s["$D"] = dims
        elif self.says_dimension(f):
            s["$D"] = self.says_dimension(f)
        elif f.name.startswith("_") and len(self.g.called_in.get(f.uid, ())) == 1:
            (s["$D"],) = self.g.called_in[f.uid]   # a step of a function that works in one dimension
        self.run(f.node, s)
        res = BOT
        for v in self.ret_sites:
            res = join_elem(res, v)
        self.check_returns()
        self.result = None if res == BOT else self.g.escape_ret(res) if hasattr(self.g, "escape_ret") else res
        for sub in f.nested:
            fl = ShapeFlow(self.g, sub)
            fl.analyse()
            self.g.ret[sub.uid] = fl.result

    def says_dimension(self, f: Func):
        n = f.name.lower() + " " + (f.module.name.rsplit(".", 1)[-1])
        for k in (2, 3):
            if f"{k}d" in n:
                return k
        return None

    def dimension_of_class(self, c):
        if c is None:
            return None
        n = c.name.lower()
        for k in (2, 3):
            if f"{k}d" in n:
                return k
        for k in self.g.p.mro(c):
            for name in ("dimension", "DIMENSION"):
                v = k.class_attrs.get(name)
                if isinstance(v, ast.Constant) and isinstance(v.value, int):
                    return v.value
                m = k.methods.get(name)
                if m is not None:
                    rets = [r.value for r in walk_own(m.node) if isinstance(r, ast.Return)]
                    if len(rets) == 1 and isinstance(rets[0], ast.Constant) and isinstance(rets[0].value, int):
                        return rets[0].value
            init = k.methods.get("__init__")
            for n in (walk_own(init.node) if init is not None else ()):
                # a constructor that refuses any other dimension
                if isinstance(n, (ast.If, ast.Assert)) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 \
                        and isinstance(n.test.comparators[0], ast.Constant) \
                        and ast.unparse(n.test.left).rsplit(".", 1)[-1] in DIMENSION_NAMES:
                    op, k_ = n.test.ops[0], n.test.comparators[0].value
                    if isinstance(n, ast.Assert) and isinstance(op, ast.Eq) or isinstance(n, ast.If) and isinstance(
                            op, ast.NotEq) and isinstance(n.body[-1], ast.Raise):
                        return k_
        return None

    # ---------------------------------------------------------------- mismatches
    def clash(self, a, b, s, broadcast=True, strict=False) -> bool:
        """The two axes are known to differ."""
        if a is None or b is None or a == b:
            return False
        if broadcast and (a == const(1) or b == const(1)):
            return False
        if a[0] is None and b[0] is None:
            return True
        if a[0] == b[0]:
            return a[0] != "*"
        if "D" in (a[0], b[0]):
            d, o = (a, b) if a[0] == "D" else (b, a)
            if o[0] is None:
                k = s.get("$D")
                if k is not None:
                    return o[1] != k + d[1]
                return self.g_dim_conflict(o, d)
            return counts_parts(o)
        if a[0] is not None and b[0] is not None:
            return other_axes(a[0], b[0]) or part_of(a[0], b[0]) or part_of(b[0], a[0])
        return strict and counts_parts(a if b[0] is None else b) and "*" not in (a[0], b[0])

    def g_dim_conflict(self, o, d):
        return True

    def say(self, rule, node, message):
        if not self._quiet:
            self.g.add(rule, self.f, node, ast.unparse(node)[:70].replace("\n", " "), message)

    def bcast(self, x, y, s, node):
        """Shape of a pointwise operation of two values."""
        if x is None or y is None or x == NONE or y == NONE:
            return None
        if x[0] == "n" and y[0] == "n":
            return NUM
        if x[0] == "n" and y[0] == "a":
            return ("a", y[1])
        if y[0] == "n" and x[0] == "a":
            return ("a", x[1])
        if x[0] != "a" or y[0] != "a":
            return None
        a, b = x[1], y[1]
        self.g.known_ops += 1
        out = []
        n = max(len(a), len(b))
        for i in range(1, n + 1):
            p = a[-i] if i <= len(a) else const(1)
            q = b[-i] if i <= len(b) else const(1)
            if self.clash(p, q, s, True, True):
                self.say("axes-do-not-match", node,
                         f"combines {show_v(x)} with {show_v(y)}: {show(p)} entries meet {show(q)}")
                out.append(None)
                continue
            if p == const(1):
                out.append(q)
            elif q == const(1):
                out.append(p)
            else:
                out.append(p if p is not None else q)
        return ("a", tuple(reversed(out)))

    def matmul(self, x, y, s, node):
        if x is None or y is None or x[0] != "a" or y[0] != "a":
            return x if y is not None and y[0] == "n" else y if x is not None and x[0] == "n" else None
        a, b = x[1], y[1]
        if len(a) not in (1, 2) or len(b) not in (1, 2):
            return None
        self.g.known_ops += 1
        p, q = a[-1], b[0]
        if self.clash(p, q, s, broadcast=False):
            self.say("axes-do-not-match", node,
                     f"multiplies {show_v(x)} by {show_v(y)}: {show(p)} entries meet {show(q)}")
        left, right = a[:-1], b[1:]
        dims = left + right
        return ("a", dims) if dims else NUM

    # ---------------------------------------------------------------- expressions
    def expr(self, e, s):
        self.ev(e, s)

    def dim_of(self, v):
        """The dim a number stands for."""
        return v[1] if v is not None and v[0] == "n" else None

    def shape_arg(self, e, s):
        """Dims asked for by a shape argument: None if not readable."""
        if isinstance(e, (ast.Tuple, ast.List)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    return None
                out.append(self.dim_of(self.ev(x, s)))
            return tuple(out)
        v = self.ev(e, s)
        if v is None:
            return None
        if v[0] == "n":
            return (v[1],)
        if v[0] == "t":
            return tuple(self.dim_of(x) for x in v[1])
        return None

    def ev(self, e, s):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, s)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return None

    def ev_Constant(self, e, s):
        if e.value is None:
            return NONE
        if isinstance(e.value, bool):
            return NUM
        if isinstance(e.value, int):
            return ("n", const(e.value), None)
        if isinstance(e.value, (float, complex)):
            return NUM
        return None

    def ev_Name(self, e, s):
        if e.id in s:
            return s[e.id]
        if e.id in DIMENSION_NAMES:
            return ("n", D, None)
        return None

    def ev_NamedExpr(self, e, s):
        v = self.ev(e.value, s)
        s[e.target.id] = v
        return v

    def ev_Starred(self, e, s):
        self.ev(e.value, s)
        return None

    def ev_Tuple(self, e, s):
        return ("t", tuple(self.ev(x, s) for x in e.elts))

    def ev_List(self, e, s):
        el = BOT
        for x in e.elts:
            v = self.ev(x, s)
            el = join_elem(el, v)
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return ("l", None, None)
        return ("l", el, const(len(e.elts)))

    def ev_UnaryOp(self, e, s):
        v = self.ev(e.operand, s)
        if v is None:
            return None
        if v[0] == "a" and isinstance(e.op, ast.USub):
            return ("a", v[1])
        if v[0] == "n":
            if isinstance(e.op, ast.USub) and v[1] is not None and v[1][0] is None:
                return ("n", const(-v[1][1]), None)
            return NUM
        return v if v[0] == "a" and not isinstance(e.op, ast.Not) else NUM if isinstance(e.op, ast.Not) else None

    def ev_BinOp(self, e, s):
        x, y = self.ev(e.left, s), self.ev(e.right, s)
        return self.binop(e, e.op, x, y, s)

    def binop(self, e, op, x, y, s):
        if isinstance(op, ast.MatMult):
            return self.matmul(x, y, s, e)
        if x is not None and y is not None and x[0] == "n" and y[0] == "n":
            a, b = x[1], y[1]
            if a is not None and b is not None:
                if isinstance(op, ast.Add):
                    if b[0] is None:
                        return ("n", (a[0], a[1] + b[1]), None)
                    if a[0] is None:
                        return ("n", (b[0], a[1] + b[1]), None)
                if isinstance(op, ast.Sub):
                    if b[0] is None:
                        return ("n", (a[0], a[1] - b[1]), x[2] if a is None else None)
                    if a[0] == b[0]:
                        return ("n", const(a[1] - b[1]), None)
                if a[0] is None and b[0] is None and isinstance(op, ast.Mult):
                    return ("n", const(a[1] * b[1]), None)
            return NUM
        if x is not None and y is not None and {x[0], y[0]} == {"t", "n"} and isinstance(op, (ast.Add, ast.Sub)):
            self.say("axes-do-not-match", e, "adds a number to a shape")
            return None
        if x is not None and y is not None and x[0] == "l" and isinstance(op, ast.Add):
            if y[0] == "l":
                n = None
                if x[2] is not None and y[2] is not None:
                    if y[2][0] is None:
                        n = (x[2][0], x[2][1] + y[2][1])
                    elif x[2][0] is None:
                        n = (y[2][0], x[2][1] + y[2][1])
                return ("l", join_elem(x[1], y[1]), n)
            if y[0] == "a":
                return y
            return None
        if x is not None and y is not None and x[0] == "l" and y[0] == "n" and isinstance(op, ast.Mult):
            n = y[1] if x[2] == const(1) else None
            return ("l", x[1], n)
        return self.bcast(x, y, s, e)

    def ev_BoolOp(self, e, s):
        vs = [self.ev(v, s) for v in e.values]
        out = vs[0]
        for v in vs[1:]:
            out = join(out, v)
        return out

    def ev_Compare(self, e, s):
        x = self.ev(e.left, s)
        out = NUM
        for op, c in zip(e.ops, e.comparators):
            y = self.ev(c, s)
            if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                out = NUM
            elif (x is not None and x[0] == "a") or (y is not None and y[0] == "a"):
                out = self.bcast(x, y, s, e)
                if out is not None and out[0] == "a":
                    out = ("a", out[1], "mask")
            elif x is None or y is None:
                out = None
            x = y
        return out

    def ev_IfExp(self, e, s):
        t, f = self.cond(e.test, self.copy(s))
        a = self.ev(e.body, t) if t is not None else BOT
        b = self.ev(e.orelse, f) if f is not None else BOT
        return join_elem(a, b)

    def ev_Lambda(self, e, s):
        return None

    def ev_JoinedStr(self, e, s):
        return None

    def ev_Dict(self, e, s):
        for x in list(e.keys) + list(e.values):
            if x is not None:
                self.ev(x, s)
        return None

    def _comp(self, e, elt, s):
        s = self.copy(s)
        n = None
        for k, gen in enumerate(e.generators):
            self.for_bind(gen.target, gen.iter, s, e)
            if k == 0 and not gen.ifs and len(e.generators) == 1:
                n = self.length(gen.iter, s)
            for c in gen.ifs:
                t, _ = self.cond(c, self.copy(s))
                if t is not None:
                    s = t
        return ("l", self.ev(elt, s), n)

    def ev_ListComp(self, e, s):
        return self._comp(e, e.elt, s)

    def ev_GeneratorExp(self, e, s):
        return self._comp(e, e.elt, s)

    def ev_SetComp(self, e, s):
        self._comp(e, e.elt, s)
        return None

    def ev_DictComp(self, e, s):
        self._comp(e, e.value, s)
        return None

    # ---------------------------------------------------------------- lengths and iteration
    def length(self, it, s):
        """Number of rounds of an iteration, as a dim."""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "range":
                if len(it.args) == 1:
                    return self.dim_of(self.ev(it.args[0], s))
                if len(it.args) == 2:
                    a, b = (self.dim_of(self.ev(x, s)) for x in it.args)
                    if a is not None and b is not None and a[0] is None:
                        return (b[0], b[1] - a[1])
                return None
            if it.func.id in ("enumerate", "reversed", "list", "sorted", "tuple") and it.args:
                return self.length(it.args[0], s)
            if it.func.id == "zip" and it.args:
                for a in it.args:
                    n = self.length(a, s)
                    if n is not None:
                        return n
                return None
        return self.len_of(it, self.ev(it, s), s)

    def len_of(self, e, v, s):
        if v is not None and v[0] == "a" and v[1]:
            return v[1][0]
        if v is not None and v[0] == "l":
            if v[2] is not None:
                return v[2]
        if v is not None and v[0] == "t":
            return const(len(v[1]))
        if (v is None or v[0] == "l") and self.is_path(e):
            if "." in ast.unparse(e) or v is None:
                return (f"len({ast.unparse(e)})", 0)
        return None

    def is_self_path(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and e.id == "self" and self.f.self_name == "self"

    def is_path(self, e):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name)

    def for_bind(self, target, it, s, node):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            fn = it.func.id
            if fn == "range":
                hi = None
                if len(it.args) == 1:
                    hi = self.dim_of(self.ev(it.args[0], s))
                elif len(it.args) >= 2:
                    self.ev(it.args[0], s)
                    hi = self.dim_of(self.ev(it.args[1], s))
                self.bind(target, ("n", None, hi), s)
                return
            if fn == "enumerate" and it.args:
                n = self.length(it.args[0], s)
                el = self.elem_of(it.args[0], s)
                off = len(it.args) > 1 or it.keywords
                if isinstance(target, ast.Tuple) and len(target.elts) == 2:
                    self.bind(target.elts[0], ("n", None, None if off else n), s)
                    self.bind(target.elts[1], el, s)
                else:
                    self.bind(target, None, s)
                return
            if fn == "zip":
                if isinstance(target, ast.Tuple) and len(target.elts) == len(it.args):
                    for t, a in zip(target.elts, it.args):
                        self.bind(t, self.elem_of(a, s), s)
                    return
                self.bind(target, None, s)
                return
            if fn in ("reversed", "list", "sorted", "tuple") and it.args and isinstance(it.args[0], ast.Call):
                return self.for_bind(target, it.args[0], s, node)
        self.bind(target, self.elem_of(it, s), s)

    def elem_of(self, it, s):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "range":
                hi = self.length(it, s) if len(it.args) == 1 else None
                return ("n", None, hi)
            if it.func.id in ("reversed", "list", "sorted", "tuple") and it.args:
                return self.elem_of(it.args[0], s)
        v = self.ev(it, s)
        if v is None or v == NONE:
            return None
        if v[0] == "a" and v[1]:
            return ("a", v[1][1:]) if len(v[1]) > 1 else NUM
        if v[0] == "l":
            return None if v[1] == BOT else v[1]
        if v[0] == "t":
            out = BOT
            for x in v[1]:
                out = join_elem(out, x)
            return None if out == BOT else out
        return None

    # ---------------------------------------------------------------- binding
    def bind(self, target, v, s):
        if isinstance(target, ast.Name):
            if v in (None, NUM) and counting(target.id):
                v = ("n", (target.id, 0), None)
            if v is None and not self._elsewhere:
                if target.id in VECTOR_NAMES:
                    v = VEC
                elif target.id in WEIGHT_NAMES:
                    v = vec(MANY)
            s[target.id] = None if v == BOT else v
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            if v is not None and v[0] == "t" and len(v[1]) == n:
                for t, x in zip(target.elts, v[1]):
                    self.bind(t, x, s)
            elif v is not None and v[0] == "a" and v[1]:
                sub = ("a", v[1][1:]) if len(v[1]) > 1 else NUM
                for t in target.elts:
                    self.bind(t, sub, s)
            elif v is not None and v[0] == "l":
                for t in target.elts:
                    self.bind(t, v[1], s)
            else:
                for t in target.elts:
                    self.bind(t, None, s)
        elif isinstance(target, ast.Starred):
            self.bind(target.value, None, s)
        elif isinstance(target, ast.Attribute):
            self.ev(target.value, s)
            c = self.f.cls
            if isinstance(target.value, ast.Name) and target.value.id == self.f.self_name and c is not None:
                if self.g.p.find_setter(c, target.attr) is None:
                    self.held(target, c, v, s)
                    self.g.put_attr(c, target.attr, v)
            s[ast.unparse(target)] = None if v == BOT else v
        elif isinstance(target, ast.Subscript):
            have = self.subscript(target, s)
            self.fits(have, v, s, target)

    def held(self, target, c, v, s):
        """An attribute keeps the shape it is declared with."""
        want = self.g.declared(c, target.attr)
        if want is None or v is None or v[0] not in ("a", "n"):
            return
        self.g.known_ops += 1
        if want[0] == "a" and v[0] == "a":
            if len(want[1]) != len(v[1]) or any(self.clash(a, b, s, False) for a, b in zip(want[1], v[1])):
                self.say("value-does-not-fit", target, f"{show_v(want)} is declared, {show_v(v)} is stored")
        elif want[0] == "a" and (v[1] is not None or v[2] is not None) or want[0] == "n" and v[0] == "a" \
                and not all(d == const(1) for d in v[1]):
            self.say("value-does-not-fit", target, f"{show_v(want)} is declared, {show_v(v)} is stored")

    def fits(self, have, v, s, node):
        """An element or slice takes a value of its shape."""
        if have is None or v is None or v in (NONE, BOT) or have in (NONE, BOT):
            return
        if have[0] == "n" and v[0] == "a" and v[1] and have[1] is None:
            if not all(d == const(1) for d in v[1]):
                self.g.known_ops += 1
                self.say("value-does-not-fit", node, f"one number is set to {show_v(v)}")
            return
        if have[0] == "a" and v[0] == "a":
            self.g.known_ops += 1
            a, b = have[1], v[1]
            if len(b) > len(a) and not all(d == const(1) for d in b[:len(b) - len(a)]):
                self.say("value-does-not-fit", node, f"{show_v(have)} is set to {show_v(v)}")
                return
            for i in range(1, min(len(a), len(b)) + 1):
                if b[-i] != const(1) and self.clash(a[-i], b[-i], s, broadcast=False):
                    self.say("value-does-not-fit", node,
                             f"{show_v(have)} is set to {show_v(v)}: {show(a[-i])} entries meet {show(b[-i])}")
                    return

    def assign(self, target, value, s, node):
        v = self.ev(value, s) if value is not None else None
        self.kill(target, s)
        self.bind(target, v, s)

    def kill(self, target, s):
        for n in ast.walk(target):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                t = ast.unparse(n)
                for k in [k for k in s if k.startswith(t + ".")]:
                    del s[k]

    def augassign(self, node, s):
        v = self.ev(node.value, s)
        if isinstance(node.target, ast.Name):
            old = s.get(node.target.id)
            new = self.binop(node, node.op, old, v, s)
            if old is not None and old[0] == "a" and new is not None and new[0] == "a" \
                    and len(new[1]) > len(old[1]) and len(old[1]) > 0:
                self.say("value-does-not-fit", node, f"{show_v(old)} cannot hold the result {show_v(new)}")
                new = old
            s[node.target.id] = new
        else:
            load = ast.parse(ast.unparse(node.target), mode="eval").body
            ast.copy_location(load, node.target)
            for n in ast.walk(load):
                ast.copy_location(n, node.target)
            old = self.ev(load, s)
            new = self.binop(node, node.op, old, v, s)
            self.bind(node.target, new, s)

    def with_bind(self, item, s, node):
        self.ev(item.context_expr, s)
        if item.optional_vars is not None:
            self.bind(item.optional_vars, None, s)

    def handler_bind(self, handler, s):
        if handler.name:
            s[handler.name] = None

    def delete(self, target, s, node):
        pass

    def define(self, node, s):
        if hasattr(node, "name"):
            s[node.name] = None

    def on_return(self, node, s):
        v = self.ev(node.value, s) if node.value is not None else NONE
        self.ret_sites.append(v)
        self.check_return(node, v, s)
        if self.f.name in DIMENSION_NAMES and self.f.is_property and v is not None and v[0] == "n" \
                and not isinstance(node.value, ast.Constant) and self.clash(v[1], D, s, False):
            self.say("answer-of-other-shape", node, f"the dimension is announced, the answer counts {show(v[1])}")

    # ---------------------------------------------------------------- tests
    def assume(self, test, truth, s):
        if truth and isinstance(test, (ast.Compare, ast.Name, ast.Attribute, ast.BinOp, ast.Call, ast.NamedExpr)):
            v = self.ev(test, s)
            if v is not None and v[0] == "a" and v[1] and not all(d == const(1) for d in v[1]) \
                    and (len(v[1]) > 1 or v[1][0] is not None):
                self.say("truth-of-an-array", test, f"asks whether {show_v(v)} is true")
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            x = self.ev(test.left, s)
            y = self.ev(test.comparators[0], s)
            eq = isinstance(op, ast.Eq) and truth or isinstance(op, ast.NotEq) and not truth
            ne = isinstance(op, ast.NotEq) and truth or isinstance(op, ast.Eq) and not truth
            a, b = self.dim_of(x), self.dim_of(y)
            if a is not None and b is not None:
                if a == D and b[0] is None and eq:
                    s["$D"] = b[1]
                elif b == D and a[0] is None and eq:
                    s["$D"] = a[1]
                elif a[0] is None and b[0] is None and x[2] is None and y[2] is None \
                        and (self.is_rank(test.left) or self.is_rank(test.comparators[0])):
                    if eq and a != b or ne and a == b:
                        return None
                    if isinstance(op, (ast.Gt, ast.Lt, ast.GtE, ast.LtE)):
                        r = {"Gt": a[1] > b[1], "Lt": a[1] < b[1], "GtE": a[1] >= b[1], "LtE": a[1] <= b[1]}[
                            type(op).__name__]
                        if r != truth:
                            return None
                if a == D and b[0] is None and isinstance(op, (ast.Gt, ast.GtE)) and truth:
                    pass
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            is_none = isinstance(test.ops[0], ast.Is) == truth
            if isinstance(test.left, ast.Name) and is_none:
                s[test.left.id] = NONE
        return s

    def is_rank(self, e):
        t = ast.unparse(e)
        return t.endswith(".ndim") or t.startswith("len(") and t.endswith(".shape)")

    # ---------------------------------------------------------------- attributes
    def ev_Attribute(self, e, s):
        t = ast.unparse(e)
        if t in s:
            return s[t]
        v = self.ev(e.value, s)
        name = e.attr
        if v is not None and v[0] == "a":
            v = ("a", v[1])
            if name == "T":
                return ("a", tuple(reversed(v[1])))
            if name == "shape":
                return ("t", tuple(("n", d if d is not None else self.axis_atom(e.value, i, s), None)
                                   for i, d in enumerate(v[1])))
            if name == "ndim":
                return ("n", const(len(v[1])), None)
            if name == "size":
                return ("n", v[1][0] if len(v[1]) == 1 else None, None)
        if v is not None and v[0] in ("a", "n", "l", "t"):
            return None
        if name in ("dimension", "DIMENSION"):
            return ("n", D, None)
        f = self.f
        if isinstance(e.value, ast.Name) and e.value.id == f.self_name and f.cls is not None:
            m = self.g.p.find_method(f.cls, name)
            if m is not None and m.is_property:
                r = self.g.ret.get(m.uid)
                if r is None and self.number_like(m):
                    return ("n", (t, 0), None)
                return self.from_ret(m, r, same_self=True)
            r = self.g.attr_of(f.cls, name)
            if r is None or r == NONE:
                if counting(name):
                    return ("n", (t, 0), None)
                if name in VECTOR_ATTRS and r is None and not self.g.p.known_attr(f.cls, name):
                    return VEC
                return None
            if r == NUM and counting(name):
                return ("n", (t, 0), None)
            return r
        ms = self.g.calls.property_targets(e, f, f.module)
        if ms:
            out = BOT
            for m in ms:
                out = join_elem(out, self.from_ret(m, self.g.ret.get(m.uid)))
            if out not in (BOT, None):
                return out
        inst = [x[1] for x in self.g.calls.t.infer(e.value, f, f.module) if x[0] == "inst"]
        if inst:
            out = BOT
            for c in inst:
                out = join_elem(out, self.g.attr_of(c, name))
            if out not in (BOT, None, NONE):
                return map_dims(out, lambda d: d if d is None or d[0] in (None, "D") else None)
        if counting(name):
            return ("n", (t, 0), None) if self.is_path(e) else NUM
        if name in ("position", "velocity") and not inst and ast.unparse(e.value).rsplit(".", 1)[-1] in (
                "data", "datahandler"):
            return arr(("data", 0), D)
        if name in VECTOR_ATTRS and not ms and not inst:
            return VEC
        if name in FITTED and not inst:
            return ("a", FITTED[name])
        if name in ("base", "base0") and not inst:
            return ("a", PLANE["base"])
        if name == "rotation_angle" and not inst:
            return NUM
        return None

    def number_like(self, m):
        r = m.node.returns
        return r is not None and ast.unparse(r) in ("int",)

    def axis_atom(self, e, i, s):
        if isinstance(e, ast.Name) and e.id in self.f.params:
            return (f"#{self.f.uid}.{e.id}.{i}", 0)
        return None

    def from_ret(self, m: Func, r, same_self=False, subst=None):
        """A summary seen from a caller."""
        if r is None or r == BOT:
            if m.node.returns is not None:
                r = self.g.ann_value(ast.unparse(m.node.returns), m)
            if r is None or r == BOT:
                return None

        def fn(d):
            if d is None or d[0] in (None, "D"):
                return d
            if d[0].startswith("#"):
                if subst and d[0] in subst and subst[d[0]] is not None:
                    x = subst[d[0]]
                    return (x[0], x[1] + d[1])
                return None
            return d if same_self else None
        return map_dims(r, fn)

    # ---------------------------------------------------------------- subscripts
    def ev_Subscript(self, e, s):
        return self.subscript(e, s)

    def subscript(self, e, s):
        v = self.ev(e.value, s)
        ix = e.slice
        items = list(ix.elts) if isinstance(ix, ast.Tuple) else [ix]
        if v is None and isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and self.is_path(e.value):
            k = self.int_const(ix)
            return ("n", (f"{ast.unparse(e.value)}[{k}]", 0), None) if k is not None and k >= 0 else None
        if v is None and len(items) > 1 and self.is_path(e.value) and all(
                isinstance(it, ast.Slice) or self.plain(it, s) for it in items):
            t = ast.unparse(e.value)
            v = ("a", tuple((f"{t}.shape[{k}]", 0) for k in range(len(items))))
        if v is None or v == NONE:
            for it in items:
                self._ix(it, s)
            if len(items) == 1 and isinstance(ix, ast.Constant) and isinstance(ix.value, str):
                return VEC if ix.value in VECTOR_NAMES else NUM if ix.value in NUMBER_NAMES else None
            return None
        if v[0] == "t":
            if len(items) == 1:
                k = items[0]
                n = self.int_const(k)
                if n is not None and -len(v[1]) <= n < len(v[1]):
                    return v[1][n]
                if n is not None and isinstance(e.value, ast.Attribute) and e.value.attr == "shape":
                    self.say("axis-does-not-exist", e, f"{len(v[1])} axes, asked for number {n}")
                    return None
                if isinstance(k, ast.Slice):
                    lo = self.int_const(k.lower) if k.lower is not None else 0
                    hi = self.int_const(k.upper) if k.upper is not None else len(v[1])
                    if lo is not None and hi is not None:
                        return ("t", v[1][lo:hi])
            return None
        if v[0] == "l":
            if len(items) == 1:
                iv = self._ix(items[0], s)
                if isinstance(items[0], ast.Slice):
                    return ("l", v[1], None)
                self.index_space(iv, v[2], s, e)
                return None if v[1] == BOT else v[1]
            return None
        if v[0] == "n" and v[2] is None and v[1] is None:
            for it in items:
                self._ix(it, s)
            if not any(self.is_newaxis(it) for it in items):
                self.say("too-many-indices", e, "picks an entry of one number")
            return None
        if v[0] != "a":
            return None
        dims = list(v[1])
        n_axes = sum(1 for it in items if not self.is_newaxis(it)
                     and not (isinstance(it, ast.Constant) and it.value is Ellipsis))
        if n_axes > len(dims) and not any(isinstance(it, ast.Constant) and it.value is Ellipsis for it in items):
            # a mask or an index array of higher rank consumes more axes: only plain indices count
            if all(isinstance(it, ast.Slice) or self.is_newaxis(it) or self.plain(it, s) for it in items):
                self.say("too-many-indices", e, f"{n_axes} indices for {show_v(v)}")
            return None
        out, k, lists = [], 0, 0
        for it in items:
            if self.is_newaxis(it):
                out.append(const(1))
                continue
            if isinstance(it, ast.Constant) and it.value is Ellipsis:
                rest = len(dims) - n_axes
                out += dims[k:k + rest]
                k += rest
                continue
            d = dims[k]
            k += 1
            if isinstance(it, ast.Slice):
                out.append(self.slice_dim(it, d, s))
                continue
            iv = self.ev(it, s)
            if iv is None and isinstance(it, ast.Name) and sounds_like_index(it.id):
                iv = NUM
            if iv is None:
                return None
            if iv[0] == "n":
                self.index_space(iv, d, s, e)
                n = self.int_const(it)
                if n is not None and d is not None and d[0] is None and (n >= d[1] or n < -d[1]):
                    self.say("index-out-of-range", e, f"index {n} of an axis of {d[1]}")
                continue
            if iv[0] == "a":
                if len(iv[1]) == 1:
                    # a mask of the axis or a list of indices
                    lists += 1
                    if len(iv) > 2 and self.clash(iv[1][0], d, s, False):
                        self.say("index-of-another-axis", e,
                                 f"a selection among {show(iv[1][0])} entries is applied to {show(d)}")
                    out.append(MANY if counts_parts(d) else None)
                    continue
                return None
            if iv[0] == "l":
                lists += 1
                out.append(iv[2])
                continue
            return None
        if lists > 1:
            return None
        out += dims[k:]
        return ("a", tuple(out)) if out else NUM

    def plain(self, it, s):
        v = self.ev(it, s)
        return v is not None and v[0] == "n"

    def _ix(self, it, s):
        if isinstance(it, ast.Slice):
            for x in (it.lower, it.upper, it.step):
                if x is not None:
                    self.ev(x, s)
            return None
        return self.ev(it, s)

    def is_newaxis(self, it):
        return isinstance(it, ast.Constant) and it.value is None or \
            isinstance(it, ast.Attribute) and it.attr == "newaxis"

    def int_const(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return e.value
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            n = self.int_const(e.operand)
            return -n if n is not None else None
        return None

    def index_space(self, iv, d, s, node):
        """The index counts along the axis it selects from."""
        if iv is None or iv[0] != "n" or d is None:
            return
        sp = iv[2]
        if sp is None:
            return
        self.g.known_ops += 1
        bad = False
        if sp[0] == d[0]:
            bad = sp[1] > d[1]
        elif "D" in (sp[0], d[0]):
            o = d if sp[0] == "D" else sp
            k = s.get("$D")
            if o[0] is None:
                if sp[0] == "D" and k is None:
                    bad = False
                elif k is not None:
                    bad = (k + sp[1] > d[1]) if sp[0] == "D" else (sp[1] > k + d[1])
                else:
                    bad = sp[1] > 3 + d[1]
            else:
                bad = counts_parts(o)
        elif sp[0] is not None and d[0] is not None and other_axes(sp[0], d[0]):
            bad = True
        elif sp[0] is None and d[0] is None:
            bad = sp[1] > d[1]
        if bad:
            self.say("index-of-another-axis", node, f"an index of {show(sp)} entries selects from {show(d)}")

    def slice_dim(self, it, d, s):
        lo = self.ev(it.lower, s) if it.lower is not None else None
        hi = self.ev(it.upper, s) if it.upper is not None else None
        if it.step is not None:
            n = self.int_const(it.step)
            self.ev(it.step, s)
            if n == -1 and it.lower is None and it.upper is None:
                return d
            return None
        a = 0 if it.lower is None else self.int_const(it.lower)
        if it.upper is None:
            if a is None:
                # x[n:] of an axis of n + k
                b = self.dim_of(lo)
                if b is not None and d is not None and b[0] == d[0]:
                    return const(d[1] - b[1])
                return None
            if a >= 0:
                return (d[0], d[1] - a) if d is not None else None
            return const(-a)
        b = self.int_const(it.upper)
        if b is not None:
            if b < 0:
                return (d[0], d[1] + b - a) if d is not None and a is not None and a >= 0 else None
            if a is not None and a >= 0 and d is not None and (d[0] is not None or b <= d[1]):
                return const(b - a)
            return None
        u = self.dim_of(hi)
        if u is not None and a is not None and a >= 0:
            return (u[0], u[1] - a)
        return None

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e, s):
        fn = e.func
        g = self.g
        args = [self.ev(a, s) for a in e.args]
        kw = {k.arg: self.ev(k.value, s) for k in e.keywords}
        kwe = {k.arg: k.value for k in e.keywords}
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        recv = None
        if isinstance(fn, ast.Attribute):
            recv = self.ev(fn.value, s)
        # lists that grow
        if isinstance(fn, ast.Attribute) and recv is not None and recv[0] == "l":
            t = ast.unparse(fn.value)
            if name in ("append", "insert") and args:
                self.store(fn.value, ("l", join_elem(recv[1], args[-1]), self.grown(e, recv[2], s)), s)
                return NONE
            if name in ("extend",) and args:
                el = args[0][1] if args[0] is not None and args[0][0] == "l" else None
                self.store(fn.value, ("l", join_elem(recv[1], el), None), s)
                return NONE
            if name in ("pop", "remove", "clear"):
                self.store(fn.value, ("l", recv[1], None), s)
                return recv[1] if name == "pop" and recv[1] != BOT else None
            if name == "copy":
                return recv
            if name == "index":
                return ("n", None, recv[2])
            return None
        if recv is not None and recv[0] == "a":
            r = self.array_method(e, name, recv, args, kw, kwe, s)
            if r is not NotImplemented:
                return r
        ts = g.calls.targets(e, self.f, self.f.module)
        funcs = [t for t in ts if t.func is not None]
        ext = [t.ext for t in ts if t.ext]
        if funcs and not (not funcs[0].exact and ext):
            return self.package_call(e, funcs, args, kw, s)
        if funcs:
            # open receiver: package candidates by name and foreign objects
            if name in METHODS:
                return self.foreign(e, name, args, s)
            if name in SAME_SHAPE_METHODS and args:
                return args[0]
            return self.package_call(e, funcs, args, kw, s)
        if not funcs and name[:1].isupper():
            for k in e.keywords:
                if k.arg in VECTOR_ATTRS or k.arg in ("position", "center_position"):
                    self.want(e, k.value, kw[k.arg], VEC, s, True)
            if name in ("Pose", "ObjectPose") and e.args:
                self.want(e, e.args[0], args[0], VEC, s, True)
        made = [t.cls for t in ts if t.cls is not None]
        if made and len(ts) == 1:
            self.construct(e, made[0], args, kw, s)
            return None
        for x in ext:
            r = self.external(e, x, name, args, kw, kwe, s)
            if r is not NotImplemented:
                return r
        return None

    def grown(self, call, n, s):
        """The length of a list after one more element: one per round of the loop around the call."""
        loop = self.loop_around(call)
        if loop is None:
            return (n[0], n[1] + 1) if n is not None and n[0] != "*" else n
        if isinstance(loop, ast.While) or n not in (const(0), MANY):
            return None
        self._quiet += 1
        rounds = self.length(loop.iter, s)
        self._quiet -= 1
        if rounds is None:
            it = loop.iter
            if isinstance(it, ast.Call) and it.args and isinstance(it.func, ast.Name) and it.func.id in (
                    "enumerate", "zip", "reversed"):
                it = it.args[0]
            v = self.elem_of(it, s)
            known_object = isinstance(it, (ast.Attribute, ast.Name, ast.Call)) and v is None
            return MANY if known_object and not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name)
                                                 and it.func.id == "range") else None
        return MANY if counts_parts(rounds) else None

    def loop_around(self, node):
        if not hasattr(self, "_around"):
            self._around = {}

            def walk(n, loop):
                for c in ast.iter_child_nodes(n):
                    self._around[id(c)] = loop
                    walk(c, c if isinstance(c, (ast.For, ast.While)) else loop)
            walk(self.f.node, None)
        return self._around.get(id(node))

    def store(self, e, v, s):
        if isinstance(e, ast.Name):
            s[e.id] = v
        elif isinstance(e, ast.Attribute):
            s[ast.unparse(e)] = v
            if isinstance(e.value, ast.Name) and e.value.id == self.f.self_name and self.f.cls is not None:
                self.g.put_attr(self.f.cls, e.attr, v)

    def array_method(self, e, name, v, args, kw, kwe, s):
        if name in ("copy", "astype", "round", "clip", "conj", "argsort"):
            return v
        if name in REDUCE:
            return self.reduce(e, v, args[0] if args else kw.get("axis"),
                               e.args[0] if e.args else kwe.get("axis"), "keepdims" in kw, s)
        if name == "dot" and args:
            return self.matmul(v, args[0], s, e)
        if name == "reshape":
            ds = self.shape_arg(e.args[0], s) if len(e.args) == 1 else tuple(self.dim_of(a) for a in args)
            return self.reshape(e, v, ds, s)
        if name in ("flatten", "ravel"):
            return v if len(v[1]) == 1 else arr(None)
        if name == "tolist":
            return ("l", NUM, v[1][0]) if len(v[1]) == 1 else None
        if name == "transpose" and not args:
            return ("a", tuple(reversed(v[1])))
        if name == "item":
            return NUM
        return NotImplemented

    def reshape(self, e, v, ds, s):
        if ds is None:
            return None
        if any(d == const(-1) for d in ds):
            rest = [d for d in ds if d != const(-1)]
            if all(d == const(1) for d in rest) and len(v[1]) == 1:
                return ("a", tuple(v[1][0] if d == const(-1) else d for d in ds))
            return ("a", tuple(None if d == const(-1) else d for d in ds))
        # same number of entries: compare when both are products of atoms
        a = sorted((d for d in v[1] if d != const(1)), key=str)
        b = sorted((d for d in ds if d != const(1)), key=str)
        if None not in a and None not in b and len(a) == len(b):
            rest_a = [d for d in a if d not in b]
            rest_b = [d for d in b if d not in a]
            if len(rest_a) == 1 and len(rest_b) == 1 and self.clash(rest_a[0], rest_b[0], s):
                self.say("axes-do-not-match", e, f"{show_v(v)} is reshaped to {show_v(('a', ds))}")
        return ("a", tuple(ds))

    def reduce(self, e, v, axis_v, axis_e, keep, s):
        if v is None:
            return None
        if v[0] == "n":
            return NUM
        if v[0] == "l":
            v = self.as_array(v)
            if v is None:
                return None if axis_e is not None else NUM
        if v[0] != "a":
            return None
        if axis_e is None or isinstance(axis_e, ast.Constant) and axis_e.value is None:
            return ("a", tuple(const(1) for _ in v[1])) if keep else NUM
        n = self.int_const(axis_e)
        if n is None:
            return None
        v = ("a", v[1])
        self.g.known_ops += 1
        if n >= len(v[1]) or n < -len(v[1]):
            self.say("axis-does-not-exist", e, f"axis {n} of {show_v(v)}")
            return None
        n %= len(v[1])
        dims = list(v[1])
        if keep:
            dims[n] = const(1)
        else:
            del dims[n]
        return ("a", tuple(dims)) if dims else NUM

    def as_array(self, v):
        if v is None or v == NONE:
            return None
        if v[0] in ("a", "n"):
            return v
        if v[0] == "l":
            if v[1] in (None, BOT, NONE):
                return arr(v[2]) if v[1] == BOT else None
            el = self.as_array(v[1])
            if el is None:
                return None
            return ("a", (v[2],) + (el[1] if el[0] == "a" else ()))
        if v[0] == "t":
            out = BOT
            for x in v[1]:
                out = join_elem(out, self.as_array(x))
            if out in (BOT, None):
                return None
            return ("a", (const(len(v[1])),) + (out[1] if out[0] == "a" else ()))
        return None

    def items_of(self, v):
        """Elements of a sequence argument: list of values, or (element, length)."""
        if v is None:
            return None
        if v[0] == "t":
            return list(v[1])
        return None

    def external(self, e, ext, name, args, kw, kwe, s):
        a0 = args[0] if args else None
        if ext.startswith("numpy.") or ext.startswith("numpy.linalg"):
            return self.numpy(e, ext.rsplit(".", 1)[-1], args, kw, kwe, s)
        if ext.startswith("math."):
            for x, v in zip(e.args, args):
                self.want(e, x, v, NUM, s)
            return NUM
        if ext == "builtins.len" and e.args:
            n = self.len_of(e.args[0], a0, s)
            return ("n", n, None)
        if ext in ("builtins.min", "builtins.max", "builtins.sum"):
            if len(args) == 1 or ext.endswith("sum"):
                if a0 is not None and a0[0] == "l":
                    return None if a0[1] == BOT else a0[1]
                if a0 is not None and a0[0] == "a":
                    return ("a", a0[1][1:]) if len(a0[1]) > 1 else NUM
                return None
            out = BOT
            for a in args:
                out = join_elem(out, a)
            if out is not None and out[0] == "n":
                return NUM
            return out
        if ext in ("builtins.any", "builtins.all", "builtins.isinstance", "builtins.hasattr", "builtins.bool"):
            return NUM
        if ext in ("builtins.abs", "builtins.round"):
            return a0 if a0 is None or a0[0] != "n" else NUM
        if ext in ("builtins.float", "builtins.int"):
            if a0 is not None and a0[0] == "n" and ext.endswith("int"):
                return a0
            return NUM
        if ext in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.reversed"):
            if not args:
                return ("l", BOT, const(0))
            if a0 is not None and a0[0] == "l":
                return a0
            if a0 is not None and a0[0] == "a":
                return ("l", ("a", a0[1][1:]) if len(a0[1]) > 1 else NUM, a0[1][0])
            if isinstance(e.args[0], ast.Call):
                return ("l", self.elem_of(e.args[0], s), self.length(e.args[0], s))
            return None
        if ext.startswith("copy."):
            return a0
        last = ext.rsplit(".", 1)[-1]
        if last == "get_orthogonal_basis" and args:
            self.want(e, e.args[0], a0, VEC, s)
            return arr(D, D)
        if last == "get_directional_weighted_sum":
            return self.directional_sum(e, args, kw, s)
        if last in ("get_angle_space",):
            d = args[0] if args else kw.get("direction", kw.get("directions"))
            if d is not None and d[0] == "a":
                if self.clash(d[1][0] if d[1] else None, D, s, broadcast=False):
                    self.say("argument-of-other-shape", e, f"directions of shape {show_v(d)}")
                return ("a", (("D", -1),) + tuple(d[1][1:]))
            return None
        if last == "get_angle_space_of_array":
            d = args[0] if args else kw.get("directions")
            return ("a", (("D", -1),) + tuple(d[1][1:])) if d is not None and d[0] == "a" else None
        if last == "get_angle_space_inverse":
            d = args[0] if args else kw.get("dir_angle_space")
            if d is not None and d[0] == "a" and d[1]:
                if self.clash(d[1][0], ("D", -1), s, broadcast=False):
                    self.say("argument-of-other-shape", e, f"angles of shape {show_v(d)}")
                return ("a", (D,) + tuple(d[1][1:]))
            return VEC if d is None else None
        if last == "get_angle_from_vector":
            return vec(("D", -1))
        if last == "get_vector_from_angle":
            return VEC
        if last in ("compute_weights", "get_weight_from_inv_of_gamma"):
            return a0 if a0 is not None and a0[0] == "a" else None
        if last in METHODS and ext.startswith("?"):
            return self.foreign(e, last, args, s)
        if last in SAME_SHAPE_METHODS and args:
            return a0
        if last == "evaluate" and ext.startswith("?") and len(args) == 1:
            sub = self.other_space([(VEC, a0)])
            self.want(e, e.args[0], a0, in_space(VEC, sub), s)
            return in_space(VEC, sub) if a0 is not None else None
        return NotImplemented

    def foreign(self, e, name, args, s):
        want, out = METHODS[name]
        sub = self.other_space(zip(want, args))
        for w, a, x in zip(want, args, e.args):
            self.want(e, x, a, in_space(w, sub), s)
        out = in_space(out, sub)
        if name in ("get_intersection_with_surface",) and (args or e.keywords):
            return out
        if name == "get_gamma" and args and args[0] is not None and args[0][0] == "a" and len(args[0][1]) == 2:
            return None
        return out

    def other_space(self, pairs):
        """The dimension of the space the callee works in, seen from here: a plane of this space is a space too."""
        for need, have in pairs:
            if need is not None and need[0] == "a" and have is not None and have[0] == "a" \
                    and len(need[1]) == len(have[1]):
                for a, b in zip(need[1], have[1]):
                    if a == D and b is not None and b != D and b[0] in ("D", None) and b != const(1):
                        return b
                    if a == D and b == D:
                        return None
        return None

    def want(self, call, e, have, need, s, loose=False):
        """An argument has the shape the callee works on."""
        if loose and have is not None and have[0] == "a":
            have = ("a", tuple(None if d is not None and d[0] is None else d for d in have[1]))
        if have is None or need is None or have in (NONE, BOT) or need in (NONE, BOT):
            return
        self.g.known_ops += 1
        if need[0] == "a" and have[0] == "a":
            if len(need[1]) != len(have[1]):
                if len(have[1]) == 2 and len(need[1]) == 1 and have[1][0] == need[1][0]:
                    return   # columns: vectorised use
                self.say("argument-of-other-shape", call, f"'{ast.unparse(e)}' has the shape {show_v(have)}, "
                         f"{show_v(need)} is expected")
                return
            for a, b in zip(have[1], need[1]):
                if self.clash(a, b, s, broadcast=False):
                    self.say("argument-of-other-shape", call, f"'{ast.unparse(e)}' has the shape {show_v(have)}, "
                             f"{show_v(need)} is expected")
                    return
        elif need[0] == "a" and have[0] == "n" and len(need[1]) == 1:
            if have[1] is None and have[2] is None:
                return
            self.say("argument-of-other-shape", call, f"'{ast.unparse(e)}' is a count or an index, {show_v(need)} is expected")
        elif need[0] == "n" and have[0] == "a" and have[1] and not all(d == const(1) for d in have[1]):
            self.say("argument-of-other-shape", call, f"'{ast.unparse(e)}' has the shape {show_v(have)}, "
                     "one number is expected")

    def directional_sum(self, e, args, kw, s):
        names = ["null_direction", "weights", "directions", "unit_directions", "total_weight"]
        got = dict(zip(names, args))
        got.update({k: v for k, v in kw.items() if k})
        nd, w, d = got.get("null_direction"), got.get("weights"), got.get("directions")
        self.g.known_ops += 1
        if nd is not None and nd[0] == "a" and (len(nd[1]) != 1 or self.clash(nd[1][0], D, s, False)):
            self.say("argument-of-other-shape", e, f"null direction of shape {show_v(nd)}")
        if w is not None and w[0] == "l":
            w = self.as_array(w)
        if d is not None and d[0] == "a":
            if len(d[1]) != 2:
                self.say("argument-of-other-shape", e, f"directions of shape {show_v(d)}")
            else:
                if self.clash(d[1][0], D, s, False):
                    self.say("argument-of-other-shape", e, f"directions of shape {show_v(d)}, one column per part is expected")
                if w is not None and w[0] == "a" and len(w[1]) == 1 and self.clash(w[1][0], d[1][1], s, False):
                    self.say("argument-of-other-shape", e, f"{show(w[1][0])} weights for {show(d[1][1])} directions")
        return VEC

    def numpy(self, e, name, args, kw, kwe, s):
        a0 = args[0] if args else None
        if name in ("zeros", "ones", "empty", "full"):
            x = e.args[0] if e.args else kwe.get("shape")
            ds = self.shape_arg(x, s) if x is not None else None
            if ds is None:
                return None
            return ("a", ds)
        if name in ("eye", "identity"):
            d = self.dim_of(a0)
            cols = args[1] if len(args) > 1 and name == "eye" else kw.get("M", a0)
            return arr(d, self.dim_of(cols))
        if name in POINTWISE1:
            if name in ("array", "asarray", "asfarray"):
                v = self.as_array(a0)
                if a0 is not None and a0[0] == "l" and isinstance(e.args[0], ast.List):
                    self.same_elems(e, e.args[0], s)
                    if v is not None and v[0] == "a" and v[1] in ((const(2), const(2)), (const(3), const(3))) \
                            and s.get("$D") is None:
                        s["$D"] = v[1][0][1]   # a written-out matrix: the function works in that dimension
                return v
            if name in ("sort", "flip", "argsort", "cumsum"):
                return self.as_array(a0)
            v = self.as_array(a0) if a0 is not None and a0[0] in ("l", "t") else a0
            return NUM if v is not None and v[0] == "n" else v
        if name in POINTWISE2 and len(args) >= 2:
            return self.bcast(self.as_array(args[0]), self.as_array(args[1]), s, e)
        if name in REDUCE:
            k = 1
            if name == "norm":
                k = 2
            ax_e = e.args[k] if len(e.args) > k else kwe.get("axis")
            ax_v = args[k] if len(args) > k else kw.get("axis")
            r = self.reduce(e, a0, ax_v, ax_e, "keepdims" in kw, s)
            if name in ("argmin", "argmax") and a0 is not None and a0[0] == "a" and len(a0[1]) == 1:
                return ("n", None, a0[1][0])
            return r
        if name in ("dot", "matmul", "inner") and len(args) == 2:
            return self.matmul(self.as_array(args[0]), self.as_array(args[1]), s, e)
        if name == "outer" and len(args) == 2:
            x, y = self.as_array(args[0]), self.as_array(args[1])
            if x is not None and y is not None and x[0] == "a" and y[0] == "a" and len(x[1]) == len(y[1]) == 1:
                return arr(x[1][0], y[1][0])
            if "out" in kw:
                return None
            return arr(None, None)
        if name in ("inv", "pinv"):
            return ("a", tuple(reversed(a0[1]))) if a0 is not None and a0[0] == "a" else None
        if name in ("det", "trapz", "trace", "shape"):
            return NUM if name != "shape" else None
        if name == "cross":
            return a0
        if name == "tile" and len(e.args) == 2:
            r = self.shape_arg(e.args[1], s)
            v = self.as_array(a0)
            if v is None or r is None:
                return None
            dims = v[1] if v[0] == "a" else ()
            n = max(len(dims), len(r))
            dims = (const(1),) * (n - len(dims)) + tuple(dims)
            r = (const(1),) * (n - len(r)) + tuple(r)
            return ("a", tuple(b if a == const(1) else a if b == const(1) else times(a, b) for a, b in zip(dims, r)))
        if name in ("vstack", "hstack", "column_stack", "concatenate", "stack"):
            return self.stack(e, name, a0, kw, kwe, s)
        if name == "append" and len(args) >= 2:
            x, y = self.as_array(args[0]), self.as_array(args[1])
            ax = e.args[2] if len(e.args) > 2 else kwe.get("axis")
            if ax is None:
                if x is not None and x[0] == "a" and len(x[1]) == 1 and y is not None:
                    return vec(self.plus(x[1][0], const(1) if y[0] == "n" else y[1][0] if len(y[1]) == 1 else None))
                return arr(None)
            return self.concat(e, [x, y], self.int_const(ax), s)
        if name == "delete" and len(args) >= 2:
            x = self.as_array(a0)
            ax = e.args[2] if len(e.args) > 2 else kwe.get("axis")
            n = self.int_const(ax) if ax is not None else 0
            if x is None or x[0] != "a" or n is None or n >= len(x[1]) or (ax is None and len(x[1]) > 1):
                return None
            one = args[1] is not None and args[1][0] == "n"
            dims = list(x[1])
            dims[n] = self.plus(dims[n], const(-1)) if one else None
            return ("a", tuple(dims))
        if name == "insert":
            return None
        if name == "linspace":
            n = args[2] if len(args) > 2 else kw.get("num")
            return vec(self.dim_of(n)) if n is not None else None
        if name == "arange":
            if len(args) == 1:
                return vec(self.dim_of(a0))
            return vec(None)
        if name == "where":
            if len(args) == 3:
                return self.bcast(args[1], args[2], s, e)
            return None
        if name in ("squeeze", "unique", "meshgrid", "roll", "diff"):
            return a0 if name == "roll" else None
        if name in ("allclose", "array_equal", "isscalar"):
            if name == "allclose" and len(args) >= 2:
                self.bcast(self.as_array(args[0]), self.as_array(args[1]), s, e)
            return NUM
        if name == "swapaxes" and len(args) == 3 and self.as_array(a0) is not None and self.as_array(a0)[0] == "a":
            a0 = self.as_array(a0)
            i, j = self.int_const(e.args[1]), self.int_const(e.args[2])
            if i is None or j is None:
                return None
            if max(i, j) >= len(a0[1]):
                self.say("axis-does-not-exist", e, f"axes {i}, {j} of {show_v(a0)}")
                return None
            dims = list(a0[1])
            dims[i], dims[j] = dims[j], dims[i]
            return ("a", tuple(dims))
        if name == "transpose" and len(args) == 1:
            v = self.as_array(a0)
            return ("a", tuple(reversed(v[1]))) if v is not None and v[0] == "a" else None
        if name == "reshape" and len(args) == 2 and a0 is not None and a0[0] == "a":
            return self.reshape(e, a0, self.shape_arg(e.args[1], s), s)
        if name in ("flatnonzero", "nonzero"):
            return vec(None) if name == "flatnonzero" else None
        if name in ("pi", "inf"):
            return NUM
        return None

    def same_elems(self, e, lst, s):
        vals = [self.as_array(self.ev(x, s)) for x in lst.elts if not isinstance(x, ast.Starred)]
        ranks = {len(v[1]) if v[0] == "a" else 0 for v in vals if v is not None}
        if len(ranks) > 1:
            self.say("axes-do-not-match", e, "entries of different shape: " + ", ".join(show_v(v) for v in vals))
            return
        arrs = [v for v in vals if v is not None and v[0] == "a"]
        for v in arrs[1:]:
            for a, b in zip(arrs[0][1], v[1]):
                if self.clash(a, b, s, False):
                    self.say("axes-do-not-match", e, f"entries of different shape: {show_v(arrs[0])}, {show_v(v)}")

    def plus(self, a, b):
        if a is None or b is None:
            return None
        if b[0] is None:
            return (a[0], a[1] + b[1])
        if a[0] is None:
            return (b[0], a[1] + b[1])
        return None

    def concat(self, e, vals, axis, s):
        if axis is None or any(v is None or v[0] != "a" for v in vals) or not vals:
            return None
        r = {len(v[1]) for v in vals}
        if len(r) > 1:
            self.say("axes-do-not-match", e, "joins " + ", ".join(show_v(v) for v in vals))
            return None
        r = r.pop()
        if axis >= r or axis < -r:
            self.say("axis-does-not-exist", e, f"axis {axis} of {show_v(vals[0])}")
            return None
        axis %= r
        self.g.known_ops += 1
        dims = []
        for i in range(r):
            if i == axis:
                d = vals[0][1][i]
                for v in vals[1:]:
                    d = self.plus(d, v[1][i])
                dims.append(d)
                continue
            d = vals[0][1][i]
            for v in vals[1:]:
                if self.clash(d, v[1][i], s, False, True):
                    self.say("axes-do-not-match", e, "joins " + ", ".join(show_v(x) for x in vals))
                d = d if d is not None else v[1][i]
            dims.append(d)
        return ("a", tuple(dims))

    def stack(self, e, name, v, kw, kwe, s):
        if v is None:
            return None
        if v[0] == "t":
            vals = [self.as_array(x) for x in v[1]]
        elif v[0] == "l" and isinstance(e.args[0], ast.List):
            vals = [self.as_array(self.ev(x, s)) for x in e.args[0].elts]
        elif v[0] == "l":
            el = self.as_array(v[1]) if v[1] not in (None, BOT) else None
            if el is None or el[0] != "a":
                return None
            if name == "vstack" and len(el[1]) == 1:
                return arr(v[2], el[1][0])
            if name == "column_stack" and len(el[1]) == 1:
                return arr(el[1][0], v[2])
            if name == "stack":
                ax = self.int_const(kwe["axis"]) if "axis" in kwe else 0
                return ("a", el[1][:ax] + (v[2],) + el[1][ax:]) if ax is not None and 0 <= ax <= len(el[1]) else None
            return None
        else:
            return None
        if any(x is None for x in vals):
            got = [x[1][0] for x in vals if x is not None and x[0] == "a" and len(x[1]) == 1]
            if got and len(vals) > 1:
                if name == "vstack":
                    return arr(MANY, got[0])
                if name == "column_stack":
                    return arr(got[0], MANY)
                if name == "hstack":
                    return vec(None)
            return None
        if name == "vstack":
            vals = [arr(const(1), const(1)) if x[0] == "n" else arr(const(1), *x[1]) if len(x[1]) == 1 else x
                    for x in vals]
            return self.concat(e, vals, 0, s)
        if name == "column_stack":
            vals = [arr(*x[1], const(1)) if x[0] == "a" and len(x[1]) == 1 else x for x in vals]
            return self.concat(e, vals, 1, s)
        if name == "hstack":
            vals = [vec(const(1)) if x[0] == "n" else x for x in vals]
            if all(x[0] == "a" and len(x[1]) == 1 for x in vals):
                return self.concat(e, vals, 0, s)
            return self.concat(e, vals, 1, s)
        if name == "concatenate":
            ax = self.int_const(kwe["axis"]) if "axis" in kwe else 0
            return self.concat(e, vals, ax, s)
        if name == "stack":
            ax = self.int_const(kwe["axis"]) if "axis" in kwe else 0
            if ax is None or any(x[0] != "a" for x in vals):
                return None
            el = vals[0][1]
            return ("a", el[:ax] + (const(len(vals)),) + el[ax:]) if 0 <= ax <= len(el) else None
        return None

    # ---------------------------------------------------------------- package calls
    def package_call(self, e, funcs, args, kw, s):
        out = BOT
        for t in funcs:
            m = t.func
            self.g._new_called_in.setdefault(m.uid, set()).add(s.get("$D"))
            params = list(m.params)
            if not t.bound and m.has_self:
                params = [m.self_name] + params
            pos = [n for n in params if n not in m.kwonly]
            subst = {}
            starred = any(isinstance(a, ast.Starred) for a in e.args)
            pairs = []
            if not starred:
                pairs += list(zip(pos, args, e.args))
            pairs += [(k.arg, kw[k.arg], k.value) for k in e.keywords if k.arg in params]
            sub = self.other_space([(self.g.param(m, n), v) for n, v, x in pairs])
            for n, v, x in pairs:
                self.g.hand_in(m, n, v)
                need = in_space(self.g.param(m, n), sub)
                if need is None:
                    continue
                if len(funcs) == 1 and t.exact and not self.g.by_callers(m, n, self.g._ann_text(m, n)):
                    self.want(e, x, v, need, s)
                self.unify(need, v, subst, e if len(funcs) == 1 and t.exact else None, s)
            same_self = isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) \
                and e.func.value.id == self.f.self_name
            out = join_elem(out, in_space(self.from_ret(m, self.g.ret.get(m.uid), same_self, subst), sub))
        return None if out == BOT else out

    def construct(self, e, c, args, kw, s):
        """The arguments an object is made from."""
        if any(isinstance(a, ast.Starred) for a in e.args):
            return
        init = self.g.p.init_func(c)
        if init is not None:
            pos = [n for n in init.params if n not in init.kwonly]
            need = {n: self.g.param(init, n) for n in init.params}
        elif c.is_dataclass:
            pos = [n for n, _ in self.g.p.dataclass_fields(c)]
            need = {n: self.g.declared(c, n) for n in pos}
        else:
            return
        pairs = list(zip(pos, args, e.args)) + [(k.arg, kw[k.arg], k.value) for k in e.keywords if k.arg in need]
        sub = self.other_space([(need.get(n), v) for n, v, x in pairs])
        subst = {}
        for n, v, x in pairs:
            w = in_space(need.get(n), sub)
            if w is None:
                continue
            self.want(e, x, v, w, s)
            self.unify(w, v, subst, e, s)

    def unify(self, need, have, subst, call=None, s=None):
        if need is None or have is None or have in (NONE, BOT):
            return
        if need[0] == have[0] == "a" and len(need[1]) == len(have[1]):
            for a, b in zip(need[1], have[1]):
                if a is not None and a[0] is not None and a[0].startswith("#"):
                    d = (b[0], b[1] - a[1]) if b is not None else None
                    if call is not None and d is not None and self.clash(subst.get(a[0]), d, s, False):
                        self.say("argument-of-other-shape", call,
                                 f"arguments that belong together have {show(subst[a[0]])} and {show(d)} entries")
                    subst[a[0]] = d
        elif need[0] == have[0] == "n":
            a = need[1]
            if a is not None and a[0] is not None and a[0].startswith("#"):
                subst[a[0]] = have[1]

    # ---------------------------------------------------------------- answers
    def check_return(self, node, v, s):
        r = self.f.node.returns
        if node.value is None or v is None or v in (NONE, BOT):
            return
        self.compare_answer(node, ast.unparse(r) if r is not None else "", v, s)

    def compare_answer(self, node, t, v, s):
        t = t.strip("'\"").replace(" ", "")
        if t.startswith(("tuple[", "Tuple[")) and v is not None and v[0] == "t":
            parts = split_top(t[t.index("[") + 1:-1])
            if len(parts) == len(v[1]) and "..." not in parts:
                for p, x in zip(parts, v[1]):
                    if x is not None and x not in (NONE, BOT):
                        self.compare_answer(node, p, x, s)
            return
        want = self.g.ann_value(t, self.f)
        if want is None:
            want = METHODS[self.f.name][1] if self.f.name in METHODS else \
                VEC if self.f.name in VECTOR_ATTRS and self.f.is_property else None
        if want is None or v is None or v in (NONE, BOT):
            return
        self.g.known_ops += 1
        self.g.stats["answers"] = self.g.stats.get("answers", 0) + 1
        if want[0] == "a":
            if v[0] == "n" or v[0] == "a" and (len(v[1]) != 1 or self.clash(v[1][0], want[1][0], s, False)):
                self.say("answer-of-other-shape", node, f"a vector of the space is announced, the answer is {show_v(v)}")
        elif want[0] == "n" and v[0] == "a" and v[1] and not all(d == const(1) for d in v[1]):
            self.say("answer-of-other-shape", node, f"one number is announced, the answer is {show_v(v)}")

    def check_returns(self):
        if self.f.node.returns is not None and self.g.ann_value(ast.unparse(self.f.node.returns), self.f) is not None:
            return
        known = [v for v in self.ret_sites if v is not None and v not in (NONE, BOT) and v[0] in ("a", "n")]
        ranks = {len(v[1]) if v[0] == "a" else 0 for v in known}
        dims = [v[1] for v in known if v[0] == "a" and v[1]]
        other = len(ranks) == 1 and any(self.clash(a, b, {}, False) for x in dims for a, b in zip(dims[0], x))
        if (len(ranks) > 1 or other) and self.g.report:
            self.g.add("answers-of-different-shape", self.f, self.f.node, "return",
                       "returns " + ", ".join(sorted({show_v(v) for v in known})))


def split_top(t: str):
    out, depth, cur = [], 0, ""
    for ch in t:
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        depth += ch in "[("
        depth -= ch in "])"
        cur += ch
    if cur:
        out.append(cur)
    return out
