"""Which vectors have length one.

U: of length one, N: put together from others (a sum, a difference, a weighted mean, a product) and not normalised since,
C: the cosine of an angle (a product of two vectors of length one), Z: zero; anything else is not known.
"""
from __future__ import annotations

import ast
import re

from .calls import Calls
from .flow import Flow
from .index import Func, Program
from .sizes import literal

U, N, C, Z, E, S = "U", "N", "C", "Z", "E", "S"     # E: an entry of a vector, S: a multiple of a vector of length one
# queries that answer a vector of length one
UNIT_ANSWER = re.compile(
    r"^_?(get|compute|evaluate)_(?!.*(distance|weight|angle|point|position|index|space))"
    r"(.*_)?(normal_direction|reference_direction|tangent_direction|end_vector|direction_vector|lyapunov_gradient|"
    r"gradient_direction|base_convergence|weighted_mean|convergence_direction|kernel_direction)$|^get_normal$|"
    r"^get_(directional_weighted_sum|vector_from_angle|angle_space_inverse)$")
# factors that give a direction the size of a velocity
SPEED = re.compile(r"(^|[_.])(magnitude|magnitudes|speed|max_velocity|maximum_velocity|vel_norm|velocity_norm|initial_norm|"
                   r"norm_initial|initial_magnitude)$")
KEEP = {"copy", "array", "asarray", "squeeze", "ravel", "flatten", "deepcopy", "astype", "clip", "float", "round", "real", "tile",
        "minimum", "maximum", "min", "max", "vstack", "hstack", "stack", "column_stack", "list", "tuple", "reshape", "negative"}


def join(a, b):
    if a == b:
        return a
    if a == Z:
        return b
    if b == Z:
        return a
    if N in (a, b) and (U in (a, b) or S in (a, b)):
        return N
    if S in (a, b) and U in (a, b):
        return S
    return None


class UnitFlow(Flow):
    def __init__(self, f: Func, calls: Calls, out: dict):
        super().__init__()
        self.f, self.calls, self.out = f, calls, out
        self.ret = []
        self.checked = 0

    def join(self, a, b):
        res = {}
        for k in set(a) & set(b):
            if k.startswith("#"):
                if a[k] == b[k]:
                    res[k] = a[k]
                continue
            v = join(a[k], b[k])
            if v is not None:
                res[k] = v
        return res

    def say(self, node, what, text):
        self.out[(id(node), what)] = (node, what, text)

    # ------------------------------------------------------------------ values
    def expr(self, e, s):
        self.ev(e, s)

    def ev(self, e, s):
        if e is None:
            return None
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, s)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return None

    def ev_Name(self, e, s):
        return s.get(e.id)

    def ev_Attribute(self, e, s):
        if e.attr == "T":
            return self.ev(e.value, s)
        self.ev(e.value, s)
        return s.get(ast.unparse(e))

    def ev_Subscript(self, e, s):
        v = self.ev(e.value, s)
        if not isinstance(e.slice, ast.Slice):
            self.ev(e.slice, s)
        sl = e.slice
        column = isinstance(sl, ast.Tuple) and any(
            isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None for x in sl.elts) and all(
            isinstance(x, (ast.Name, ast.Constant, ast.UnaryOp, ast.Slice)) for x in sl.elts) and \
            all(x.lower is None and x.upper is None for x in sl.elts if isinstance(x, ast.Slice))
        if not column and v in (U, N, E) and not isinstance(sl, (ast.Slice, ast.Tuple)):
            return E
        if v == N and isinstance(sl, ast.Slice):
            return N
        return v if column else None

    def ev_NamedExpr(self, e, s):
        v = self.ev(e.value, s)
        self.bind(e.target, v, s)
        self.note(e.target, e.value, s)
        return v

    def ev_UnaryOp(self, e, s):
        v = self.ev(e.operand, s)
        return v if isinstance(e.op, (ast.USub, ast.UAdd)) else None

    def ev_IfExp(self, e, s):
        t, f = self.cond(e.test, self.copy(s))
        a = self.ev(e.body, t) if t is not None else Z
        b = self.ev(e.orelse, f) if f is not None else Z
        return join(a, b)

    def ev_Compare(self, e, s):
        for x in [e.left] + e.comparators:
            self.ev(x, s)
        return None

    def ev_Lambda(self, e, s):
        return None

    def ev_Tuple(self, e, s):
        return [self.ev(x, s) for x in e.elts]

    ev_List = ev_Tuple

    def size_of(self, e, s):
        """Text of the vector whose norm e is."""
        if isinstance(e, ast.NamedExpr):
            e = e.value
        if isinstance(e, ast.Name):
            return s.get("#" + e.id)
        if isinstance(e, ast.Call):
            nm = ast.unparse(e.func).split(".")[-1]
            if nm == "norm" and e.args:
                return ast.unparse(e.args[0])
            if nm in ("tile", "reshape", "float") and e.args:
                return self.size_of(e.args[0], s)
        if isinstance(e, (ast.Subscript, ast.Attribute)):
            return self.size_of(e.value, s)
        return None

    def ev_BinOp(self, e, s):
        a, b = self.ev(e.left, s), self.ev(e.right, s)
        if isinstance(a, list) or isinstance(b, list):
            return None
        if isinstance(e.op, ast.Div):
            whose = self.size_of(e.right, s)
            if whose is not None and whose == ast.unparse(e.left):
                return U
            return None
        if isinstance(e.op, (ast.Add, ast.Sub)):
            if literal(e.left) is not None or literal(e.right) is not None or E in (a, b) or C in (a, b):
                return None
            if a == Z:
                return b
            if b == Z:
                return a
            return N
        if isinstance(e.op, ast.Mult):
            for x, y in ((e.left, b), (e.right, a)):
                if literal(x) in (1, -1):
                    return y
            if E in (a, b):
                return None
            for x, y in ((a, e.right), (b, e.left)):
                if x == N:
                    self.checked += 1
                    if SPEED.search(ast.unparse(y).split("(")[0]):
                        self.say(e, "speed", f"`{ast.unparse(e)}`: a vector that was put together and not normalised is "
                                             "multiplied with a magnitude")
            if C in (a, b) or N in (a, b) or S in (a, b):
                for x, y in ((a, e.right), (b, e.left)):
                    if x == N and isinstance(y, ast.BinOp) and isinstance(y.op, ast.Div) and literal(y.left) is None and \
                            self.size_of(y.right, s) is None:
                        return N
                return None          # may be the reciprocal of its length
            return S if U in (a, b) else None
        if isinstance(e.op, ast.MatMult):
            if a == U and b == U:
                return C
            if N in (a, b) and (a in (U, N) and b in (U, N)):
                return N
            return None
        return None

    def ev_Call(self, e, s):
        name = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, s)
        else:
            recv = None
        args = [self.ev(a, s) for a in e.args]
        kw = {k.arg: self.ev(k.value, s) for k in e.keywords}
        first = args[0] if args else None
        if name in ("arccos", "acos", "arcsin", "asin") and e.args:
            self.checked += 1
            if first in (N, S):
                self.say(e, "cosine", f"`{ast.unparse(e.args[0])}` is no cosine: a factor was not normalised")
            return None
        made = [t.cls.name for t in self.calls.targets(e, self.f, self.f.module) if t.cls is not None]
        if name == "cls" and self.f.cls is not None:
            made.append(self.f.cls.name)
        if any(x.startswith(("VectorRotationXd", "VectorRotationSequence")) for x in made):
            base = first
            node = e.args[0] if e.args else None
            for k in e.keywords:
                if k.arg in ("base", "basis_array"):
                    base, node = kw[k.arg], k.value
            self.base(node, base, s)
            return None
        if name in ("dot", "inner", "vdot"):
            a, b = (args[0], args[1]) if len(args) >= 2 else (recv, first)
            if a == U and b == U:
                return C
            if N in (a, b) and a in (U, N) and b in (U, N):
                return N
            return None
        if name in ("zeros", "zeros_like"):
            return Z
        if UNIT_ANSWER.search(name):
            return U
        if name in ("cross", "mean", "average"):
            return N if name != "mean" or recv is None else None
        if name == "sum" and e.args and isinstance(e.args[0], (ast.BinOp,)):
            return N
        if name in ("add", "subtract") and len(args) == 2:
            return N
        if name in ("transform_direction_from_relative", "transform_direction_to_relative", "transform_relative2global_dir",
                    "transform_global2relative_dir", "rotate", "inverse_rotate", "apply") and args:
            return first if first in (U, N, S, Z) else None
        if name in KEEP and (args or recv):
            v = first if args and not (isinstance(e.func, ast.Attribute) and recv in (U, N, C) and name in ("copy", "astype")) else recv
            if isinstance(v, list):
                return v if name in ("array", "vstack", "stack", "list", "tuple", "asarray", "column_stack") else None
            return v
        return None

    def base(self, node, v, s):
        """The two vectors that span the plane of a rotation have length one."""
        self.checked += 1
        items = v if isinstance(v, list) else [v]
        for i, x in enumerate(items):
            if x in (N, S):
                el = node
                if isinstance(node, ast.Attribute):
                    el = node.value
                self.say(node, "base", f"`{ast.unparse(el)}`: a vector of the plane of a rotation is not normalised")
                return

    # ------------------------------------------------------------------ binding
    def kill(self, name, s):
        pat = re.compile(r"\b%s\b" % re.escape(name))
        for k in [k for k in s if (k[0] == "#" and (k[1:] == name or pat.search(s[k]))) or k.startswith(name + ".")]:
            del s[k]

    def bind(self, target, v, s):
        if isinstance(target, ast.Name):
            self.kill(target.id, s)
            if v is None:
                s.pop(target.id, None)
            else:
                s[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                self.bind(t, v[i] if isinstance(v, list) and len(v) == len(target.elts) else None, s)
        elif isinstance(target, ast.Attribute):
            k = ast.unparse(target)
            for q in [q for q in s if q.startswith(k)]:
                del s[q]
            for q in [q for q in s if q[0] == "#" and k in s[q]]:
                del s[q]
            if v is not None:
                s[k] = v
        elif isinstance(target, ast.Subscript):
            base = target.value
            while isinstance(base, ast.Subscript):
                base = base.value
            if isinstance(base, (ast.Name, ast.Attribute)):
                k = ast.unparse(base)
                for q in [q for q in s if q[0] == "#" and k in s[q]]:
                    del s[q]
                sl = target.slice
                if s.get(k) in (Z, N) and not isinstance(v, list):
                    # a vector that is filled entry by entry
                    if v == "one" and s[k] == Z:
                        s[k] = U
                        return
                    if v == E:
                        s[k] = N
                        return
                    if v == U and isinstance(sl, ast.Slice):
                        s[k] = U
                        return
                    if isinstance(sl, ast.Slice) and (v == N or s[k] == N):
                        s[k] = N
                        return
                whole = isinstance(sl, ast.Tuple) and any(isinstance(x, ast.Slice) and x.lower is None and x.upper is None for x in sl.elts)
                old = s.get(k)
                new = join(old, v) if whole and old is not None and not isinstance(v, list) else None
                if new is None:
                    s.pop(k, None)
                else:
                    s[k] = new
        elif isinstance(target, ast.Starred):
            self.bind(target.value, None, s)

    def note(self, target, value, s):
        if isinstance(target, ast.Name):
            whose = None
            if isinstance(value, ast.Call) and ast.unparse(value.func).split(".")[-1] == "norm" and value.args:
                whose = ast.unparse(value.args[0])
            elif isinstance(value, (ast.Name, ast.Call)):
                whose = self.size_of(value, s)
            if whose and not re.search(r"\b%s\b" % re.escape(target.id), whose):
                s["#" + target.id] = whose

    def assign(self, target, value, s, node):
        v = self.ev(value, s) if value is not None else None
        if isinstance(target, ast.Subscript) and value is not None and literal(value) in (1, -1):
            v = "one"
        if isinstance(target, ast.Subscript) and v == U and s.get(ast.unparse(target.value)) == N and value is not None and \
                any(ast.unparse(x) == ast.unparse(target) for x in ast.walk(value)):
            s[ast.unparse(target.value)] = U      # (a selection of) it is normalised in place
            return
        self.bind(target, v, s)
        if value is not None:
            self.note(target, value, s)

    def augassign(self, node, s):
        v = None
        b = self.ev(node.value, s)
        if isinstance(node.target, (ast.Name, ast.Attribute)):
            if isinstance(node.op, ast.Div):
                whose = self.size_of(node.value, s)
                if whose == ast.unparse(node.target):
                    v = U
            elif isinstance(node.op, (ast.Add, ast.Sub)) and literal(node.value) is None:
                a = self.ev(node.target, s)
                v = b if a == Z else a if b == Z else N
                if a == Z and b == U:
                    v = U
        if isinstance(node.target, ast.Subscript) and isinstance(node.op, ast.Div) and \
                self.size_of(node.value, s) == ast.unparse(node.target):
            v = U
            if s.get(ast.unparse(node.target.value)) == N:
                s[ast.unparse(node.target.value)] = U
        elif isinstance(node.target, ast.Subscript) and s.get(ast.unparse(node.target.value)) == N:
            return
        self.bind(node.target, v, s)

    def for_bind(self, target, it, s, node):
        self.ev(it, s)
        self.bind(target, None, s)

    def with_bind(self, item, s, node):
        self.ev(item.context_expr, s)
        if item.optional_vars is not None:
            self.bind(item.optional_vars, None, s)

    def handler_bind(self, handler, s):
        if handler.name:
            s.pop(handler.name, None)

    def delete(self, target, s, node):
        if isinstance(target, ast.Name):
            s.pop(target.id, None)

    def define(self, node, s):
        if getattr(node, "name", None):
            s.pop(node.name, None)

    def on_return(self, node, s):
        self.ret.append((node, self.ev(node.value, s) if node.value is not None else None))

    # ------------------------------------------------------------------ conditions
    def assume(self, test, truth, s):
        e, zero = test, not truth
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            if literal(e.comparators[0]) != 0:
                return s
            zero = (isinstance(e.ops[0], (ast.Eq, ast.LtE)) and truth) or (isinstance(e.ops[0], (ast.NotEq, ast.Gt)) and not truth)
            e = e.left
        elif isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("isclose", "allclose") and len(e.args) > 1 and \
                literal(e.args[1]) == 0:
            zero, e = truth, e.args[0]
        if zero:
            whose = self.size_of(e, s)
            if isinstance(e, ast.NamedExpr):
                whose = whose or s.get("#" + e.target.id)
            if whose and (whose.isidentifier() or re.fullmatch(r"[\w.]+", whose)):
                s[whose] = Z
        return s


def run_units(p: Program, funcs, calls: Calls):
    """-> [(func, node, what, text)], number of places checked"""
    out, n = [], 0
    for f in funcs:
        if isinstance(f.node, ast.Lambda):
            continue
        ev: dict = {}
        fl = UnitFlow(f, calls, ev)
        fl.block(f.node.body, {})
        n += fl.checked
        if (UNIT_ANSWER.search(f.name) or "orthonormal" in f.name) and "UnitDirection" not in (ast.unparse(f.node.returns) if f.node.returns else ""):
            n += len(fl.ret)
            for node, v in fl.ret:
                if v in (N, S) or (isinstance(v, list) and "orthonormal" in f.name and (N in v or S in v)):
                    fl.say(node, "unit", f"`{ast.unparse(node)}` answers a direction that was put together and not normalised")
        out += [(f, node, what, text) for node, what, text in ev.values()]
    return out, n
