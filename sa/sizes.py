"""Degrees: how an expression grows when every length and every speed is made k times as large.

A position, a distance, a radius and a velocity grow with degree 1; a unit vector, a weight, an angle and a
gamma with degree 0; a product adds the degrees, a quotient subtracts them, a sum needs equal ones.
Values: a D (a degree), K (a literal: fits every degree), Z (zero: fits every degree) or None (not known).
A tuple of values stands for a tuple.
"""
from __future__ import annotations

import ast
import re
from fractions import Fraction

from .calls import Calls
from .flow import Flow
from .index import Class, Func, Program, real_body
from .scope import core_funcs, is_legacy

K, Z, Q = "K", "Z", "Q"      # Q: a quarter turn, whose cosine is zero


class D:
    """A degree: a number plus multiples of unknown degrees (one symbol per value that is not known)."""
    __slots__ = ("c", "s")

    def __init__(self, c=0, s=frozenset()):
        self.c, self.s = Fraction(c), s

    def __eq__(self, o):
        return isinstance(o, D) and self.c == o.c and self.s == o.s

    def __hash__(self):
        return hash((self.c, self.s))

    def _with(self, o, k):
        if not o.s:
            return D(self.c + k * o.c, self.s)
        d = dict(self.s)
        for x, n in o.s:
            d[x] = d.get(x, 0) + k * n
        return D(self.c + k * o.c, frozenset((x, n) for x, n in d.items() if n))

    def __add__(self, o):
        return self._with(o, 1)

    def __sub__(self, o):
        return self._with(o, -1)

    def __mul__(self, n):
        return D(self.c * n, frozenset((x, m * n) for x, m in self.s if m * n))

    @property
    def pure(self):
        return not self.s

    def __str__(self):
        if self.s and rigid(self):
            n = dict(self.s)[VECTOR]
            return ("v" if n == 1 else f"{n}v") + (f"+{self.c}" if self.c else "")
        return str(self.c) if not self.s else "?" if not self.c else f"?+{self.c}"

    __repr__ = __str__

    def subst(self, table):
        """Replace symbols; None if one of them has no replacement."""
        out = D(self.c)
        for x, n in self.s:
            v = table.get(x)
            v = NIL if v in (K, Q) else v
            if not isinstance(v, D):
                return None
            out = out + v * n
        return out


class Torn:
    """A variable that holds values of different degree, depending on the path."""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return isinstance(o, Torn)

    def __hash__(self):
        return 7


def differ(a, b) -> bool:
    """Two degrees that cannot be equal, whatever the unknown ones are."""
    if not (isinstance(a, D) and isinstance(b, D)):
        return False
    d = a - b
    return rigid(d) and bool(d.c or d.s)


VECTOR = ("the vector handed in",)


def rigid(d) -> bool:
    """No unknown degree in it (the one of the vectors a function is handed is arbitrary, but not unknown)."""
    return all(x == VECTOR for x, _ in d.s)


def sym(*what):
    return D(0, frozenset({(what, Fraction(1))}))


ONE, NIL = D(1), D(0)

GROWS = re.compile(
    r"^(?!.*conv(ergence)?_radi|.*angul|.*_at_|.*unit_|.*normali[sz]ed|.*desired_radius)(\w+_)?"
    r"(position|positions|pos|point|points|velocity|velocities|vel|distance|distances|dist|radius|radii|speed|"
    r"magnitude|magnitudes|axes_length|velocity_norm|vel_norm|initial_norm|center)$")
STAYS = re.compile(r"(^|_)(gamma|gammas|weight|weights|angle|angles|ratio|phase|base_matrix|basis_array|base_array|tangent_base|rotation_matrix|deformation_rate|orthogonal_matrix|normal|normals|unit|basis|base|rotation|orientation|"
                   r"probability|power|exponent|proximity|theta|phi)$|angular_velocity$|^angular_|_power$|conv(ergence)?_radi(us|uses|i)$|desired_radius$|"
                   r"(^|_)gamma_|(^|_)(unit|normali[sz]ed)_")
# names that tell the degree of what is handed in under them (a velocity may be handed in normalised)
FIRM = re.compile(r"(^|_)(position|positions|point|points|radius|radii|weight|weights|angle|gamma|gammas|magnitude|"
                  r"magnitudes|normal|normals|rot_factor|initial_norm)$")
# the same for local names
LOCAL = re.compile(r"(^|_)(gamma|gammas|angle|angles|proximity)$|(^|_)(unit|normali[sz]ed)_|^gamma_")
# what a query of an obstacle or of a dynamical system answers, by its name
ANSWER_GROWS = re.compile(
    r"^(_?evaluate(_sequence|_old)?|_?avoid|_?evaluate_magnitude|_?evaluate_(?!(relative_)?(inverse_)?rotation).*velocity|(_?get|_?compute)_(?!.*_at_|.*desired_radius)(.*_)?(position|velocity|radius|"
    r"distance|point|center|magnitude)|get_intersection_with_surface|get_point_on_surface|project_point_on_surface|"
    r"compute_multiobstacle_relative_velocity|get_relative_obstacle_velocity)$")
ANSWER_STAYS = re.compile(
    r"^_?(get|compute|evaluate)_(.*_)?(normal_direction|reference_direction|tangent_direction|direction_vector|"
    r"gamma|gammas|weights?|end_vector|base_vector|angle|orthogonal_basis|weighted_mean)$|^get_normal$|^get_gamma")


# arguments that may be vectors of any length
VECTORS = re.compile(r"(^|_)(direction|directions|vector|vectors|vec|vecs|vector\d|vec\d|dir\d|direction\d)($|_)|^(initial|rotated|vec|dir)_")

# these are meant to be handed normalised vectors (reviewed)
TAKES_UNITS = {"get_orthonormal_spanning_basis", "RotationalAvoider._get_projected_velocity",
               "RotationalAvoider.get_projected_tangent_from_vectors", "RotationalAvoider.get_rotation_weight"}
# the answer has the length of the vector handed in / has length one
KEEPS = re.compile(r"^(inverse_)?rotate(_weighted|_direction|_vector)?$|^directional_vector_addition$")
LOSES = re.compile(r"^rotate_array$|^get_normalized_")


def num(v):
    return isinstance(v, D)


def pure(v):
    return isinstance(v, D) and v.pure


def join(a, b):
    if isinstance(a, Torn) or isinstance(b, Torn):
        return None
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
        return None
    if a == Z:
        return b
    if b == Z:
        return a
    if a in (K, Q):
        return K if b in (K, Q) else b
    if b in (K, Q):
        return a
    return None


def flat(v):
    if isinstance(v, tuple):
        out = Z
        for x in v:
            out = join(out, flat(x))
        return out
    return v


def mul(a, b, sign=1):
    a, b = flat(a), flat(b)
    a, b = K if a == Q else a, K if b == Q else b
    if a == Z or (b == Z and sign > 0):
        return Z
    if a is None or b is None or b == Z:
        return None
    if a == K and b == K:
        return K
    x, y = (NIL if a == K else a), (NIL if b == K else b)
    return x + y if sign > 0 else x - y


def by_name(name: str):
    n = name.lower().strip("_")
    if STAYS.search(n):
        return NIL
    if GROWS.search(n):
        return ONE
    return None


def quarter_turn(e) -> bool:
    t = ast.unparse(e).replace(" ", "").replace("np.pi", "pi").replace("math.pi", "pi").replace("numpy.pi", "pi")
    return t in ("pi/2", "pi/2.0", "pi*0.5", "0.5*pi", "1/2*pi", "pi*1/2", "pi*.5", ".5*pi")


def literal(e):
    """Value of a numeric literal expression, None if it is none."""
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return Fraction(e.value) if e.value == e.value and abs(e.value) != float("inf") else None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.USub, ast.UAdd)):
        v = literal(e.operand)
        return None if v is None else (-v if isinstance(e.op, ast.USub) else v)
    if isinstance(e, ast.BinOp):
        a, b = literal(e.left), literal(e.right)
        if a is None or b is None:
            return None
        if isinstance(e.op, ast.Div) and b:
            r = a / b
        elif isinstance(e.op, ast.Mult):
            r = a * b
        elif isinstance(e.op, ast.Add):
            r = a + b
        elif isinstance(e.op, ast.Sub):
            r = a - b
        else:
            return None
        return r.limit_denominator(64)
    return None


class Sizes:
    def __init__(self, p: Program, calls: Calls | None = None):
        self.p = p
        self.calls = calls or Calls(p)
        self.events: dict = {}
        self.attrs: dict = {}
        self.sums = 0
        self.seen_ops: set = set()
        self.known_ops: set = set()
        self.memo: dict = {}
        self.busy: set = set()
        self.called: dict = {}
        self.quiet = 0

    # --------------------------------------------------------------- driver
    def run(self, funcs):
        self.funcs = funcs
        self.ok = {f.uid for f in funcs}
        for _ in range(4):
            before = dict(self.attrs)
            self.memo, self.events, self.called = {}, {}, {}
            self.sites: dict = {}
            self.returns: dict = {}
            for f in funcs:
                if f.parent is None:
                    self.top(f)
            if self.attrs == before:
                break
        # a helper is judged by what it is really handed, if anything hands it something
        return self

    def seed(self, f: Func, name: str):
        return by_name(name)

    def top(self, f: Func):
        names = self.names(f)
        seeds = [(n, self.seed(f, n)) for n in names]
        self.context(f, tuple(seeds), top=True)
        if f.qual not in TAKES_UNITS and any(v is None and VECTORS.search(n) for n, v in seeds):
            self.context1(f, tuple((n, sym(*VECTOR) if v is None and VECTORS.search(n) else sym("p", n) if v is None else v)
                                   for n, v in seeds), "vector", 0)

    def names(self, f: Func):
        return [n for n in f.params] + list(f.kwonly or [])

    def context(self, f: Func, args, top=False, depth=0):
        """The answer of f for arguments of the given degrees; unknown degrees stay symbols."""
        table, plain = {}, []
        for n, v in args:
            v = flat(v)
            if v is None or (num(v) and not v.pure):
                if v is not None:
                    table[("p", n)] = v
                v = sym("p", n)
            plain.append((n, v))
        out = self.context1(f, tuple(plain), top, depth)
        return self.back(out, table)

    def back(self, v, table):
        if isinstance(v, tuple):
            return tuple(self.back(x, table) for x in v)
        if num(v) and v.s:
            return v.subst(table)
        return v

    def context1(self, f: Func, args, top, depth):
        key = (f.uid, args)
        if key in self.memo:
            v, ev = self.memo[key]
        elif key in self.busy or depth > 8:
            return None
        else:
            self.busy.add(key)
            fl = SizeFlow(self, f, depth)
            init = {n: v for n, v in args if v is not None}
            v, ev = fl.analyse(init)
            self.busy.discard(key)
            self.memo[key] = (v, ev)
        rec = self.sites.setdefault(f.uid, {})
        rec.setdefault("vector" if top == "vector" else "top" if top else "call", []).append((args, ev, v))
        return v

    def put_attr(self, c: Class, name: str, v):
        k = (c.key, name)
        if num(v) and not v.pure:
            v = by_name(name)
        if k in self.attrs:
            v = join(self.attrs[k], v)
        self.attrs[k] = v

    def attr(self, c: Class, name: str):
        vals, hit = Z, False
        for k in self.p.mro(c):
            if (k.key, name) in self.attrs:
                vals, hit = join(vals, self.attrs[(k.key, name)]), True
        for k in self.p.subclasses(c):
            if (k.key, name) in self.attrs:
                vals, hit = join(vals, self.attrs[(k.key, name)]), True
        return vals if hit and pure(vals) else by_name(name)


class SizeFlow(Flow):
    def __init__(self, g: Sizes, f: Func, depth=0):
        super().__init__()
        self.g, self.f, self.depth = g, f, depth
        self.events = {}
        self.ret = []
        self.calm = 0

    def analyse(self, init):
        node = self.f.node
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, dict(init))
            return v, self.events
        self.block(node.body, dict(init))
        out = Z
        for n, v in self.ret:
            for m, w in self.ret:
                for x, y in zip(v, w) if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w) else [(v, w)]:
                    if n.lineno < m.lineno and differ(x, y):
                        lo, hi = sorted((str(x), str(y)))
                        self.say(m, "branch:return", f"`return` answers a value of degree {lo} here and {hi} there")
            out = join(out, v)
        if not self.ret:
            out = None
        return out, self.events

    # --------------------------------------------------------------- domain
    def join(self, a, b):
        out, lost = {}, set()
        for k in set(a) | set(b):
            if k.startswith("#"):
                if k in a and k in b and a[k] == b[k]:
                    out[k] = a[k]
                continue
            v = None
            if k in a and k in b:
                v = join(a[k], b[k])
                if v is None and k[0] not in "@!" and (isinstance(a[k], Torn) or isinstance(b[k], Torn) or differ(a[k], b[k])):
                    v = a[k] if isinstance(a[k], Torn) else b[k] if isinstance(b[k], Torn) else Torn(a[k], b[k])
            if v is not None:
                out[k] = v
            else:
                lost.add(("v", k))
        if lost:
            for k in list(out):
                v = out[k]
                if num(v) and any(x in lost for x, _ in v.s):
                    del out[k]
        return out

    def say(self, node, what, message):
        self.events[(id(node), what)] = (node, what, message)

    # --------------------------------------------------------------- values
    def expr(self, e, s):
        self.ev(e, s)

    def ev(self, e, s):
        if e is None:
            return None
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            v = m(e, s)
            if v is None and isinstance(e, (ast.Call, ast.Attribute, ast.Subscript, ast.IfExp, ast.BoolOp, ast.BinOp)):
                if isinstance(e, ast.Attribute):
                    return sym("a", ast.unparse(e))
                return sym("n", id(e))
            return v
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return None

    def ev_Constant(self, e, s):
        if isinstance(e.value, bool) or e.value is None or isinstance(e.value, str):
            return K if isinstance(e.value, bool) else None
        return Z if e.value == 0 else K

    def ev_Name(self, e, s):
        if isinstance(s.get(e.id), Torn):
            v = s[e.id]
            if self.calm:
                return sym("v", e.id)
            lo, hi = sorted((str(v.a), str(v.b)))
            self.say(e, "branch:" + e.id, f"`{e.id}` has degree {lo} on one path and {hi} on another")
            return sym("v", e.id)
        return s[e.id] if e.id in s else sym("v", e.id)

    def ev_NamedExpr(self, e, s):
        v = self.ev(e.value, s)
        self.bind(e.target, v, s)
        self.note(e.target, e.value, s)
        return v

    def ev_Starred(self, e, s):
        return self.ev(e.value, s)

    def ev_Tuple(self, e, s):
        return tuple(self.ev(x, s) for x in e.elts)

    def ev_List(self, e, s):
        out = Z
        for x in e.elts:
            v = flat(self.ev(x, s))
            out = join(out, v)
        return out

    def ev_JoinedStr(self, e, s):
        return None

    def ev_Dict(self, e, s):
        for x in list(e.keys) + list(e.values):
            if x is not None:
                self.ev(x, s)
        return None

    def ev_Lambda(self, e, s):
        return None

    def ev_UnaryOp(self, e, s):
        v = self.ev(e.operand, s)
        return K if isinstance(e.op, ast.Not) else v

    def ev_BoolOp(self, e, s):
        out = None
        for i, x in enumerate(e.values):
            v = self.ev(x, s)
            out = v if i == 0 else join(out, v)
        return out

    def ev_IfExp(self, e, s):
        t, f = self.cond(e.test, self.copy(s))
        a = self.ev(e.body, t) if t is not None else Z
        b = self.ev(e.orelse, f) if f is not None else Z
        return join(a, b)

    def ev_Compare(self, e, s):
        vals = [self.ev(x, s) for x in [e.left] + e.comparators]
        for (a, b, op) in zip(vals, vals[1:], e.ops):
            if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                continue
            self.meet(e, flat(a), flat(b), "compared")
        return K

    def meet(self, node, a, b, how):
        self.g.seen_ops.add(id(node))
        if num(a) and num(b):
            if a.pure and b.pure:
                self.g.known_ops.add(id(node))
            d = a - b
            if rigid(d) and (d.c or d.s):
                self.say(node, "mix", f"`{ast.unparse(node)}`: a value of degree {a} and one of degree {b} are {how}")
                return False
        return True

    def ev_BinOp(self, e, s):
        a, b = self.ev(e.left, s), self.ev(e.right, s)
        return self.binop(e, e.op, a, b, e.right, s, e.left)

    def binop(self, e, op, a, b, right, s, left=None):
        if isinstance(op, (ast.Add, ast.Sub)):
            if isinstance(a, tuple) or isinstance(b, tuple):
                return a + b if isinstance(a, tuple) and isinstance(b, tuple) else None
            if not self.meet(e, a, b, "added"):
                return None
            for x, y, ex in ((a, b, right), (b, a, left)):
                if pure(x) and x != NIL and y == K and ex is not None and literal(ex) in (1, -1):
                    self.say(e, "one", f"`{ast.unparse(e)}`: one and a value of degree {x} are added")
            return join(a, b)
        a, b = flat(a), flat(b)
        if isinstance(op, (ast.Mult, ast.MatMult)):
            return mul(a, b)
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            return mul(a, b, -1)
        if isinstance(op, ast.Mod):
            return a
        if isinstance(op, ast.Pow):
            self.plain(e, right, b, "an exponent")
            if a in (Z, K):
                return a if a == Z else (K if b == K else (NIL if b is not None else None))
            if a == NIL:
                return NIL
            n = literal(right)
            return a * n if num(a) and n is not None else None
        return None

    def plain(self, node, arg, v, what):
        """An angle, an exponent, a cosine has degree 0."""
        self.g.seen_ops.add(id(node))
        if num(v) and rigid(v):
            self.g.known_ops.add(id(node))
            if v != NIL:
                self.say(node, "plain", f"`{ast.unparse(arg)}` is {what} and has degree {v}")

    def ev_ListComp(self, e, s):
        return self._comp(e, e.elt, s)

    ev_GeneratorExp = ev_SetComp = ev_ListComp

    def _comp(self, e, elt, s):
        t = self.copy(s)
        for g in e.generators:
            self.for_bind(g.target, g.iter, t, g)
            for c in g.ifs:
                self.ev(c, t)
        return flat(self.ev(elt, t))

    def ev_DictComp(self, e, s):
        t = self.copy(s)
        for g in e.generators:
            self.for_bind(g.target, g.iter, t, g)
        self.ev(e.key, t)
        self.ev(e.value, t)
        return None

    def ev_Subscript(self, e, s):
        v = self.ev(e.value, s)
        if not isinstance(e.slice, ast.Slice):
            self.ev(e.slice, s)
        if isinstance(v, tuple):
            i = literal(e.slice)
            if i is not None and -len(v) <= i < len(v):
                return v[int(i)]
            return flat(v)
        k = "@" + ast.unparse(e)
        return s.get(k, v)

    def ev_Attribute(self, e, s):
        if e.attr in ("T", "real", "flat"):
            return self.ev(e.value, s)
        if e.attr in ("shape", "size", "ndim", "dimension"):
            self.ev(e.value, s)
            return K
        path = ast.unparse(e)
        if "@" + path in s:
            return s["@" + path]
        if e.attr in ("linear", "angular") and ast.unparse(e.value).endswith("twist"):
            return ONE if e.attr == "linear" else NIL
        if path in ("np.pi", "math.pi", "numpy.pi", "np.inf", "math.inf"):
            return K
        base = e.value
        if not isinstance(base, ast.Name):
            self.ev(base, s)
        props = self.g.calls.property_targets(e, self.f, self.f.module)
        own = self.owner(e)
        if own is not None:
            for p in props:
                if p.uid in self.g.ok:
                    break
            else:
                return self.g.attr(own, e.attr)
        vals = None
        hit = False
        for p in props[:6]:
            if p.uid not in self.g.ok:
                continue
            v = self.g.context(p, (), depth=self.depth + 1)
            vals = v if not hit else join(vals, v)
            hit = True
        if hit and vals is not None:
            return vals
        if hit:
            return by_name(e.attr)
        ts = [t[1] for t in self.g.calls.t.infer(base, self.f, self.f.module) if t[0] == "inst"]
        if ts:
            out, any_ = Z, False
            for c in ts:
                out, any_ = join(out, self.g.attr(c, e.attr)), True
            return out if any_ else None
        return by_name(e.attr)

    def owner(self, e):
        g = self.f
        while g.parent is not None and g.cls is None:
            g = g.parent
        if g.cls is not None and isinstance(e.value, ast.Name) and e.value.id == g.self_name:
            return g.cls
        return None

    # --------------------------------------------------------------- calls
    SAME = {"norm", "abs", "absolute", "sum", "mean", "max", "min", "copy", "array", "asarray", "reshape", "squeeze", "ravel",
            "flatten", "transpose", "float", "amax", "amin", "median", "sort", "sorted", "flip", "atleast_1d", "atleast_2d", "tile",
            "repeat", "deepcopy", "nanmin", "nanmax", "diag", "std", "cumsum", "astype", "round", "real", "list", "tuple",
            "reversed", "diff", "average", "fabs", "expand_dims", "swapaxes", "roll", "fmax", "triu", "tril", "item", "tolist",
            "vstack", "hstack", "stack", "concatenate", "column_stack", "negative", "nan_to_num", "set", "broadcast_to", "conj"}
    COUNT = {"len", "range", "int", "bool", "arange", "argmin", "argmax", "argsort", "isclose", "allclose", "any", "all", "isnan",
             "isinf", "isinstance", "hasattr", "where1", "sign", "count_nonzero", "nonzero", "isfinite", "issubclass",
             "logical_and", "logical_or", "logical_not", "callable", "matrix_rank", "searchsorted"}
    ANGLE = {"sin": "an angle", "cos": "an angle", "tan": "an angle", "arcsin": "a sine", "arccos": "a cosine", "arctan": "a tangent",
             "asin": "a sine", "acos": "a cosine", "atan": "a tangent", "exp": "an exponent", "tanh": "an exponent", "sinh": "an exponent",
             "cosh": "an exponent"}

    # only the direction of what these are handed counts
    AIMED = {"get_directional_weighted_sum", "add_node", "set_root", "from_directions", "get_angle_from_vector",
             "get_orthogonal_basis", "from_vector", "get_angle_space", "append_from_direction"}

    def vals(self, e, s):
        args, kw = [self.ev(a, s) for a in e.args], {k.arg: self.ev(k.value, s) for k in e.keywords}
        fn = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        for k in e.keywords:
            if k.arg and "intersection" not in fn:
                self.named(e, k.arg, kw[k.arg], k.value)
        return args, kw

    def ev_Call(self, e, s):
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        self.calm += name in self.AIMED
        args, kw = self.vals(e, s)
        self.calm -= name in self.AIMED
        recv = None
        targets = self.g.calls.targets(e, self.f, self.f.module)
        exts = [t.ext for t in targets if t.ext]
        funcs = [t for t in targets if t.func is not None]
        classes = [t for t in targets if t.cls is not None]
        if isinstance(fn, ast.Attribute) and not any(x.startswith(("numpy.", "math.", "scipy.")) for x in exts):
            recv = self.ev(fn.value, s)
            if name in ("append", "extend", "insert") and e.args and not funcs:
                self.grow(fn.value, args[-1], s)
                return None
        if funcs:
            return self.package(e, funcs, args, kw, name, bool(exts), s)
        if classes:
            self.construct(e, classes, args, kw)
            return None
        return self.library(e, name, args, kw, recv, exts, s)

    def grow(self, target, v, s):
        k = ast.unparse(target)
        v = flat(v)
        if isinstance(target, ast.Name):
            old = s.get(k)
            self.set(s, k, join(old, v))
        elif isinstance(target, ast.Attribute) and self.owner(target) is not None:
            self.g.put_attr(self.owner(target), target.attr, v)
            if LOCAL.search(target.attr.lower()):
                self.named(target, target.attr, v, target, by_name(target.attr))

    def construct(self, e, classes, args, kw):
        for t in classes[:3]:
            init = self.g.p.init_func(t.cls)
            if init is not None and init.uid in self.g.ok:
                self.g.context(init, self.fit(init, args, kw, e), depth=self.depth + 1)
            elif t.cls.is_dataclass:
                fields = [x[0] if isinstance(x, tuple) else x for x in self.g.p.dataclass_fields(t.cls)]
                for n, v in list(zip(fields, args)) + list(kw.items()):
                    if isinstance(n, str):
                        self.g.put_attr(t.cls, n, flat(v))

    def fit(self, m: Func, args, kw, call, unbound=False):
        pos = list(m.params)
        names = self.g.names(m)
        got = {}
        if any(isinstance(a, ast.Starred) for a in call.args):
            args = []
        if unbound and m.has_self:
            args = args[1:]
        for n, v, a in zip(pos, args, call.args[1:] if unbound and m.has_self else call.args):
            got[n] = v
            if "intersection" not in m.name:   # geometry of any space, also of angles
                self.named(call, n, v, a)
        for k, v in kw.items():
            if k in names:
                got[k] = v
        out = []
        for n in names:
            if n in got:
                out.append((n, got[n]))
            else:
                out.append((n, self.default(m, n)))
        return tuple(out)

    def named(self, node, name, v, arg, want=None):
        """What is handed to / stored under a name that tells its degree."""
        if FIRM.search(name.lower().strip("_")):
            want = by_name(name)
        if want is None or arg is None:
            return
        v = flat(v)
        if v is None or v in (Z, K, Q):
            return
        self.g.seen_ops.add((id(node), name))
        if pure(v):
            self.g.known_ops.add((id(node), name))
            if v != want:
                self.say(node, "named:" + name, f"`{ast.unparse(arg)}` of degree {v} is given as `{name}` (degree {want})")

    def default(self, m: Func, n: str):
        d = m.defaults.get(n) if isinstance(m.defaults, dict) else None
        if d is not None and quarter_turn(d):
            return Q
        return by_name(n)

    def package(self, e, funcs, args, kw, name, ext_too, s):
        out, hit = None, False
        if len(funcs) > 3 and self.g.promise(name) is not None and not self.scaled(funcs[0].func, args, kw):
            for t in funcs[:8]:
                if t.func.uid in self.g.ok and not t.func.is_property and not is_stub(t.func):
                    self.g.context(t.func, self.fit(t.func, args, kw, e, not t.bound), depth=self.depth + 1)
            return self.g.promise(name)     # one of many classes that play this role
        for t in funcs[:8]:
            m = t.func
            if m.uid not in self.g.ok or m.is_property:
                continue
            if is_stub(m):
                v = self.g.promise(m.name)
            else:
                v = self.g.context(m, self.fit(m, args, kw, e, not t.bound), depth=self.depth + 1)
                if v is None or (num(v) and not v.pure):
                    v = self.g.promise(m.name) or v if not self.scaled(m, args, kw) else v
            out = v if not hit else join(out, v)
            hit = True
        if ext_too and hit and self.g.promise(name) is not None:
            out = join(out, self.g.promise(name))
        return out if hit else self.g.promise(name)

    def scaled(self, m, args, kw):
        """A velocity handed in at another size than its name says: the answer follows it."""
        names = list(m.params)
        for n, v in list(zip(names, args)) + list(kw.items()):
            w = by_name(n) if n else None
            if n and num(w) and v != w:
                return True
        return False

    def library(self, e, name, args, kw, recv, exts, s):
        first = args[0] if args else kw.get("a", recv)
        numpyish = any(x.startswith(("numpy.", "math.", "scipy.")) for x in exts) or not exts
        if name in ("evaluate", "avoid"):
            return ONE
        if name in self.COUNT:
            if name in ("isclose", "allclose") and len(args) >= 2:
                self.meet(e, flat(args[0]), flat(args[1]), "compared")
            return K
        if name in self.ANGLE and args:
            self.plain(e, e.args[0], flat(first), self.ANGLE[name])
            if name == "cos" and flat(first) == Q:
                return Z
            return NIL
        if name in ("arctan2", "atan2", "hypot") and len(args) == 2:
            self.meet(e, flat(args[0]), flat(args[1]), "combined")
            return NIL if name != "hypot" else join(flat(args[0]), flat(args[1]))
        if name in ("log", "log10", "log1p"):
            return NIL
        if name in ("zeros", "zeros_like"):
            return Z
        if name in ("empty", "empty_like"):
            return Z
        if name in ("ones", "ones_like", "eye", "identity", "linspace"):
            return K if name != "linspace" else join(flat(args[0]) if args else None, flat(args[1]) if len(args) > 1 else None)
        if name in ("full", "full_like"):
            return flat(args[1]) if len(args) > 1 else flat(kw.get("fill_value"))
        if name in ("dot", "inner", "outer", "cross", "vdot", "matmul", "multiply", "kron"):
            if len(args) >= 2:
                return mul(args[0], args[1])
            return mul(recv, args[0]) if args else None
        if name in ("add", "subtract"):
            if len(args) >= 2 and self.meet(e, flat(args[0]), flat(args[1]), "added"):
                return join(flat(args[0]), flat(args[1]))
            return None
        if name in ("divide", "true_divide"):
            return mul(args[0], args[1], -1) if len(args) >= 2 else None
        if name in ("power", "float_power") and len(args) >= 2:
            return self.binop(e, ast.Pow(), args[0], args[1], e.args[1], s)
        if name == "square":
            return mul(first, first)
        if name in ("sqrt", "cbrt"):
            v = flat(first)
            return v * Fraction(1, 2 if name == "sqrt" else 3) if num(v) else v
        if name in ("inv", "pinv"):
            return mul(NIL, first, -1) if num(flat(first)) else flat(first) if first == K else None
        if name in ("solve",) and len(args) == 2:
            return mul(args[1], args[0], -1)
        if name in ("minimum", "maximum", "fmin", "fmax") or (name in ("min", "max") and len(args) >= 2 and recv is None):
            a, b = flat(args[0]), flat(args[1]) if len(args) > 1 else Z
            if not self.meet(e, a, b, "compared"):
                return None
            return join(a, b)
        if name == "clip":
            return flat(first) if args else None
        if name == "where" and len(args) == 3:
            return join(flat(args[1]), flat(args[2]))
        if name == "where":
            return K
        if name in self.SAME:
            v = recv if not args and recv is not None else first
            if name in ("sum", "mean", "max", "min", "copy", "reshape", "astype", "flatten", "ravel", "squeeze", "transpose",
                        "item", "tolist", "repeat", "std", "cumsum", "round", "swapaxes") and not numpyish and recv is not None:
                v = recv
            return flat(v) if not isinstance(v, tuple) or name not in ("list", "tuple", "reversed") else v
        if name in ("append", "insert") and len(args) >= 2:
            return join(flat(args[0]), flat(args[-1]))
        if "angle" in name and name.startswith(("get_", "as_")):
            return NIL
        if name.startswith("transform_position_") or name.startswith("transform_direction_") or \
                name.startswith("transform_linear_velocity") or name in (
                    "apply", "transform_global2relative", "transform_relative2global", "transform_global2relative_dir",
                    "transform_relative2global_dir"):
            return flat(first)
        if name == "get_directional_weighted_sum":
            return NIL
        if name in ("get_angle_space", "get_angle_space_inverse", "get_orthogonal_basis", "as_matrix", "get_angle_space_of_array",
                    "get_angle_space_inverse_of_array"):
            return NIL
        if name in ("as_euler", "as_quat", "as_rotvec", "from_matrix", "from_euler"):
            return None
        return self.g.promise(name)

    # --------------------------------------------------------------- binding
    @staticmethod
    def set(s, k, v):
        if v is None:
            s.pop(k, None)
        else:
            s[k] = v

    def kill(self, name, s):
        for k in [k for k in s if k[0] == "@" and re.match(r"@%s\b" % re.escape(name), k)]:
            del s[k]
        for k in [k for k in s if k[0] == "#" and (k[1:] == name or re.search(r"\b%s\b" % re.escape(name), s[k]))]:
            del s[k]

    def bind(self, target, v, s):
        if isinstance(target, ast.Name):
            self.kill(target.id, s)
            self.set(s, target.id, v)
            if LOCAL.search(target.id.lower()):
                self.named(target, target.id, v, target, by_name(target.id))
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                if isinstance(v, tuple) and len(v) == len(target.elts):
                    self.bind(t, v[i], s)
                else:
                    self.bind(t, None if isinstance(v, tuple) else v if num(v) or v in (Z, K) else None, s)
        elif isinstance(target, ast.Starred):
            self.bind(target.value, None, s)
        elif isinstance(target, ast.Attribute):
            path = ast.unparse(target)
            own = self.owner(target)
            self.named(target, target.attr, v, target)
            if own is not None:
                self.g.put_attr(own, target.attr, flat(v))
            for k in [k for k in s if k.startswith("@" + path)]:
                del s[k]
            self.set(s, "@" + path, flat(v))
        elif isinstance(target, ast.Subscript):
            base = target.value
            while isinstance(base, ast.Subscript):
                base = base.value
            v = flat(v)
            if isinstance(base, ast.Attribute):
                self.named(target, base.attr, v, target)
            if isinstance(base, ast.Name):
                old = s.get(base.id)
                self.set(s, base.id, join(old, v) if not isinstance(old, tuple) else None)
            elif isinstance(base, ast.Attribute):
                own = self.owner(base)
                if own is not None:
                    self.g.put_attr(own, base.attr, v)
                k = "@" + ast.unparse(base)
                if k in s:
                    self.set(s, k, join(s[k], v))

    def note(self, target, value, s):
        """`n := norm(v)`: remember whose size n is."""
        if isinstance(target, ast.Name) and isinstance(value, ast.Call):
            fn = value.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
            if nm == "norm" and value.args:
                t = ast.unparse(value.args[0])
                if not re.search(r"\b%s\b" % re.escape(target.id), t):
                    s["#" + target.id] = t

    def assign(self, target, value, s, node):
        v = self.ev(value, s) if value is not None else None
        if isinstance(node, ast.AnnAssign) and v is None and value is None:
            v = None
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and \
                len(target.elts) == len(value.elts) and not isinstance(v, tuple):
            v = tuple(self.ev(x, s) for x in value.elts)
        self.bind(target, v, s)
        if value is not None:
            self.note(target, value, s)

    def augassign(self, node, s):
        a, b = self.ev(node.target, s), self.ev(node.value, s)
        whole = not isinstance(node.target, ast.Subscript)
        v = self.binop(node, node.op, a, b, node.value, s)
        if whole:
            self.bind(node.target, v, s)
        elif not isinstance(node.op, (ast.Add, ast.Sub)) and v != a:
            self.bind(node.target, v, s)

    def for_bind(self, target, it, s, node):
        v = self.ev(it, s)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == "enumerate" and it.args and isinstance(target, ast.Tuple) and len(target.elts) == 2:
                self.bind(target.elts[0], K, s)
                self.bind(target.elts[1], flat(self.ev(it.args[0], s)), s)
                return
            if it.func.id == "zip" and isinstance(target, ast.Tuple) and len(target.elts) == len(it.args):
                for t, a in zip(target.elts, it.args):
                    self.bind(t, flat(self.ev(a, s)), s)
                return
        self.bind(target, flat(v) if not isinstance(target, ast.Tuple) else None, s)

    def with_bind(self, item, s, node):
        self.ev(item.context_expr, s)
        if item.optional_vars is not None:
            self.bind(item.optional_vars, None, s)

    def handler_bind(self, handler, s):
        if handler.name:
            s.pop(handler.name, None)

    def delete(self, target, s, node):
        if isinstance(target, ast.Name):
            s.pop(target.id, None)

    def define(self, node, s):
        nm = getattr(node, "name", None)
        if nm:
            s.pop(nm, None)

    def on_return(self, node, s):
        v = self.ev(node.value, s) if node.value is not None else None
        if isinstance(node.value, ast.Constant) and node.value.value is None:
            v = Z
        self.ret.append((node, v))

    # --------------------------------------------------------------- conditions
    def assume(self, test, truth, s):
        e = test
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            r = e.comparators[0]
            zero = isinstance(r, ast.Constant) and r.value == 0 and not isinstance(r.value, bool)
            none = isinstance(r, ast.Constant) and r.value is None
            if none and isinstance(e.left, ast.Name) and pure(s.get(e.left.id)) and \
                    truth == isinstance(e.ops[0], ast.Is):
                return None     # a value of known degree is there
            if none and isinstance(e.ops[0], ast.Is) and truth and isinstance(e.left, ast.Name):
                s[e.left.id] = Z
            if none and isinstance(e.ops[0], ast.IsNot) and not truth and isinstance(e.left, ast.Name):
                s[e.left.id] = Z
            if zero:
                is_zero = (isinstance(e.ops[0], (ast.Eq, ast.LtE)) and truth) or \
                          (isinstance(e.ops[0], (ast.NotEq, ast.Gt)) and not truth)
                if is_zero:
                    self.vanish(e.left, s)
            return s
        if isinstance(e, ast.Call) and e.args and ast.unparse(e.func).split(".")[-1] in ("isclose", "allclose") and truth \
                and len(e.args) > 1 and literal(e.args[1]) == 0:
            self.vanish(e.args[0], s)
            return s
        if not truth:
            self.vanish(e, s)
        return s

    def vanish(self, e, s):
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name):
            whose = s.get("#" + e.id)
            s[e.id] = Z
        elif isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] == "norm" and e.args:
            whose = ast.unparse(e.args[0])
        else:
            return
        if whose:
            if whose.isidentifier():
                s[whose] = Z
            else:
                s["@" + whose] = Z


def is_stub(m: Func) -> bool:
    body = real_body(m.node) if not isinstance(m.node, ast.Lambda) else [1]
    return not body or all(isinstance(st, (ast.Pass, ast.Raise)) or
                           (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) for st in body)


def promise(name: str):
    n = name
    if ANSWER_STAYS.search(n):
        return NIL
    if ANSWER_GROWS.search(n):
        return ONE
    return None


Sizes.promise = staticmethod(promise)
