"""Sign / range facts about expressions along paths (intervals with open ends, non-zero facts).

A fact belongs to the text of an expression (module prefixes of norm, sum, ... removed) and dies when one
of the names in it is assigned.  Facts about arrays hold for every element.
"""
from __future__ import annotations

import ast
import math
import os
import re

from .calls import Calls
from .flow import Flow
from .index import PACKAGE, Func, Program, walk_own

INF = math.inf


class I:
    __slots__ = ("lo", "lo_o", "hi", "hi_o", "nz")

    def __init__(self, lo=-INF, lo_o=False, hi=INF, hi_o=False, nz=False):
        self.lo, self.lo_o, self.hi, self.hi_o, self.nz = lo, lo_o, hi, hi_o, nz

    def t(self):
        return (self.lo, self.lo_o, self.hi, self.hi_o, self.nz)

    def __eq__(self, o):
        return isinstance(o, I) and self.t() == o.t()

    def __hash__(self):
        return hash(self.t())

    def __repr__(self):
        return f"{'(' if self.lo_o else '['}{self.lo}, {self.hi}{')' if self.hi_o else ']'}{'!0' if self.nz else ''}"

    @property
    def nonzero(self):
        return self.nz or self.lo > 0 or (self.lo == 0 and self.lo_o) or self.hi < 0 or (self.hi == 0 and self.hi_o)

    @property
    def positive(self):
        return self.lo > 0 or (self.lo == 0 and (self.lo_o or self.nz))

    @property
    def nonneg(self):
        return self.lo >= 0

    @property
    def top(self):
        return self.lo == -INF and self.hi == INF and not self.nz

    def neg(self):
        return I(-self.hi, self.hi_o, -self.lo, self.lo_o, self.nz)

    def meet(self, o):
        lo, lo_o = (self.lo, self.lo_o) if (self.lo, self.lo_o) >= (o.lo, o.lo_o) else (o.lo, o.lo_o)
        if (self.hi, not self.hi_o) <= (o.hi, not o.hi_o):
            hi, hi_o = self.hi, self.hi_o
        else:
            hi, hi_o = o.hi, o.hi_o
        return I(lo, lo_o, hi, hi_o, self.nz or o.nz)

    def hull(self, o):
        if (self.lo, self.lo_o) <= (o.lo, o.lo_o):
            lo, lo_o = self.lo, self.lo_o
        else:
            lo, lo_o = o.lo, o.lo_o
        if (self.hi, not self.hi_o) >= (o.hi, not o.hi_o):
            hi, hi_o = self.hi, self.hi_o
        else:
            hi, hi_o = o.hi, o.hi_o
        return I(lo, lo_o, hi, hi_o, self.nonzero and o.nonzero)

    def add(self, o):
        return I(self.lo + o.lo if not math.isnan(self.lo + o.lo) else -INF, self.lo_o or o.lo_o,
                 self.hi + o.hi if not math.isnan(self.hi + o.hi) else INF, self.hi_o or o.hi_o)

    def mul(self, o):
        if self.top or o.top:
            return I(nz=self.nonzero and o.nonzero)
        c = []
        for a, ao in ((self.lo, self.lo_o), (self.hi, self.hi_o)):
            for b, bo in ((o.lo, o.lo_o), (o.hi, o.hi_o)):
                v = 0.0 if a == 0 or b == 0 else a * b
                if v == 0:  # zero is attained unless every zero factor is an open end
                    op = (a != 0 or ao) and (b != 0 or bo)
                else:
                    op = ao or bo
                c.append((v, op))
        lo = min(v for v, _ in c)
        hi = max(v for v, _ in c)
        return I(lo, all(op for v, op in c if v == lo), hi, all(op for v, op in c if v == hi),
                 self.nonzero and o.nonzero)


TOP = I()
ZERO = I(0, False, 0, False)
POS = I(0, True)
NONNEG = I(0)

CANON = {"norm", "sum", "max", "min", "abs", "any", "all", "sqrt", "exp", "cos", "sin", "maximum", "minimum",
         "clip", "dot", "array", "copy", "asarray", "tile", "ones", "ones_like", "zeros", "zeros_like", "full",
         "float", "int", "square", "copysign", "arccos", "acos", "arcsin", "asin", "log", "len", "mean",
         "isclose", "allclose", "logical_and", "logical_or", "logical_not", "isnan", "power", "absolute",
         "fabs", "hypot", "repeat", "vstack", "hstack", "squeeze", "ravel", "flatten", "atleast_1d", "tanh",
         "prod", "round", "count_nonzero", "einsum", "cross", "outer", "arctan2", "nonzero", "where", "linspace"}


def rebuild(n):
    """Copy of an expression with the module prefix of well-known functions removed."""
    if isinstance(n, ast.NamedExpr):
        return rebuild(n.target)
    if isinstance(n, ast.Attribute):
        b = n.value
        if n.attr in CANON and (isinstance(b, ast.Name) and b.id in ("np", "numpy", "math", "LA", "linalg")
                                or isinstance(b, ast.Attribute) and b.attr == "linalg"):
            return ast.Name(id=n.attr, ctx=ast.Load())
    out = type(n)()
    for f, v in ast.iter_fields(n):
        if isinstance(v, ast.AST):
            v = rebuild(v)
        elif isinstance(v, list):
            v = [rebuild(x) if isinstance(x, ast.AST) else x for x in v]
        setattr(out, f, v)
    if isinstance(n, ast.Call):
        out._orig = getattr(n, "_orig", n)
    return out


def canon(e) -> ast.expr:
    c = getattr(e, "_canon", None)
    if c is None:
        c = rebuild(e)
        mark(c)
        e._canon = c
    return c


def mark(c):
    for n in ast.walk(c):
        if isinstance(n, ast.expr):
            n._canon = n


def key(e) -> str:
    c = canon(e)
    if getattr(c, "_key", None) is None:
        c._key = ast.unparse(c)
        c._key = c._key
    return c._key


def names_in(e) -> frozenset:
    c = canon(e)
    if getattr(c, "_names", None) is None:
        c._names = frozenset(n.id for n in ast.walk(c) if isinstance(n, ast.Name)) | frozenset(
            ast.unparse(n) for n in ast.walk(c) if isinstance(n, ast.Attribute))
    return c._names


def fname(e):
    """Short name of a called numpy / math / builtin function."""
    f = canon(e).func
    if isinstance(f, ast.Name):
        return f.id
    return None


GUARDS = "#guards"
MODULE_NAMES = {"np", "math", "LA", "numpy", "linalg", "np.linalg", "np.pi", "math.pi"}


class Ranges(Flow):
    """state: {'f': {key: (I, names)}, 'd': {name: (expr, names)}}"""

    def __init__(self, f: Func, calls: Calls, rets: dict, params: dict, visit=None):
        super().__init__()
        self.fn, self.calls, self.rets, self.params = f, calls, rets, params
        self.visit = visit
        self.ret = None
        g = params.get(GUARDS)
        self.outer = int(g.lo) if g is not None and g.lo > 0 else 0

    # ---------------------------------------------------------------- domain
    def copy(self, s):
        return {"f": dict(s["f"]), "d": dict(s["d"]), "m": {}, "g": s.get("g", frozenset())}

    def join(self, a, b):
        f = {}
        for k, (x, n) in a["f"].items():
            if k in b["f"]:
                h = x.hull(b["f"][k][0])
            else:
                h = x.hull(self.re_eval(k, b))
            if not h.top:
                f[k] = (h, n)
        for k, (x, n) in b["f"].items():
            if k not in a["f"]:
                h = x.hull(self.re_eval(k, a))
                if not h.top:
                    f[k] = (h, n)
        d = {k: v for k, v in a["d"].items() if k in b["d"] and b["d"][k][2] == v[2]}
        return {"f": f, "d": d, "m": {}, "g": a.get("g", frozenset()) & b.get("g", frozenset())}

    def re_eval(self, k, s):
        """The other path has no fact on k: derive it there."""
        e = self.exprs.get(k) if hasattr(self, "exprs") else None
        return self.ev(e, s) if e is not None else TOP

    def same(self, a, b):
        return {k: v[0] for k, v in a["f"].items()} == {k: v[0] for k, v in b["f"].items()} \
            and {k: v[2] for k, v in a["d"].items()} == {k: v[2] for k, v in b["d"].items()}

    def widen(self, old, new):
        f = {k: v for k, v in new["f"].items() if k in old["f"] and old["f"][k][0] == v[0]}
        for k, v in new["f"].items():
            if k in old["f"] and k not in f and v[0].nonzero:
                w = I(0, True) if v[0].positive else I(nz=True)
                if not w.top:
                    f[k] = (w, v[1])
        return {"f": f, "d": new["d"], "m": {}, "g": old.get("g", frozenset()) & new.get("g", frozenset())}

    # ----------------------------------------------------------------- facts
    def put(self, s, e, x: I):
        if x.top:
            return
        k = key(e)
        old = s["f"].get(k)
        if old is not None and old[0].meet(x) == old[0]:
            return
        s["m"] = {}
        if not hasattr(self, "exprs"):
            self.exprs = {}
        self.exprs.setdefault(k, canon(e))
        old = s["f"].get(k)
        s["f"][k] = ((old[0].meet(x) if old else x), names_in(e))
        # the same quantity under the name of its definition
        c = canon(e)
        if isinstance(c, ast.Name) and c.id in s["d"]:
            d = s["d"][c.id][0]
            if not isinstance(d, (ast.Constant, ast.Name)):
                kd = key(d)
                self.exprs.setdefault(kd, canon(d))
                old = s["f"].get(kd)
                s["f"][kd] = ((old[0].meet(x) if old else x), names_in(d))
                self.imply(s, d, x)
        self.imply(s, c, x)

    def imply(self, s, c, x):
        """What a fact on an expression says about its parts."""
        c = canon(c)
        if isinstance(c, ast.Call) and c.args and x.nonzero:
            n = fname(c)
            if n in ("abs", "sqrt", "absolute", "fabs", "float", "norm", "array", "asarray") and len(c.args) >= 1:
                if n == "norm":
                    self.put(s, ast.Call(func=ast.Name(id="norm", ctx=ast.Load()), args=[c.args[0]], keywords=[]),
                             I(0, True)) if c.keywords and False else None
                else:
                    self.put(s, c.args[0], I(nz=True))
        if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Mult) and x.nonzero:
            self.put(s, c.left, I(nz=True))
            self.put(s, c.right, I(nz=True))
        if isinstance(c, ast.BinOp) and isinstance(c.op, (ast.Sub, ast.Add)) and isinstance(c.right, ast.Constant) \
                and isinstance(c.right.value, (int, float)):
            v = c.right.value if isinstance(c.op, ast.Sub) else -c.right.value
            y = I(x.lo + v, x.lo_o, x.hi + v, x.hi_o)
            if not y.top:
                self.put(s, c.left, y)

    def kill(self, s, name):
        s["m"] = {}

        def dead(ns):
            return any(x == name or x.startswith(name + ".") or x.startswith(name + "[") for x in ns)
        s["f"] = {k: v for k, v in s["f"].items() if not dead(v[1])}
        s["d"] = {k: v for k, v in s["d"].items() if k != name and not dead(v[1])}

    # ------------------------------------------------------------ evaluation
    def ev(self, e, s, depth=0) -> I:
        if e is None or depth > 12:
            return TOP
        c = canon(e)
        if isinstance(c, ast.Constant):
            if isinstance(c.value, bool):
                return I(int(c.value), False, int(c.value), False)
            if isinstance(c.value, (int, float)):
                return I(c.value, False, c.value, False)
            return TOP
        kk = key(c)
        if kk in s["m"]:
            return s["m"][kk]
        s["m"][kk] = TOP
        m = s["m"]
        out = m[kk] = self.range_of(c, s, depth)
        return out

    def range_of(self, c, s, depth):
        out = self.struct(c, s, depth)
        k = s["f"].get(key(c))
        if k is not None:
            out = out.meet(k[0])
        if isinstance(c, (ast.Name,)) and c.id in s["d"]:
            d = s["d"][c.id][0]
            if not (isinstance(d, ast.Name) and d.id == c.id):
                out = out.meet(self.ev(d, s, depth + 1))
        if isinstance(c, ast.Subscript):
            out = out.meet(self.ev(c.value, s, depth + 1) if not isinstance(c.slice, ast.Constant)
                           or not isinstance(c.slice.value, str) else TOP)
            m = c.slice
            d = m
            if isinstance(m, ast.Tuple):
                d = next((x for x in m.elts if isinstance(x, ast.Name) and x.id in s["d"]), m)
            if isinstance(d, ast.Name) and d.id in s["d"]:
                d = s["d"][d.id][0]
            if isinstance(d, (ast.Compare, ast.BoolOp, ast.BinOp, ast.Call, ast.UnaryOp)):
                t = self.copy(s)
                t = self.assume(d, True, t, depth + 1)
                k = t["f"].get(key(c.value)) if t else None
                if k is not None:
                    out = out.meet(k[0])
        return out

    def struct(self, c, s, depth) -> I:
        ev = lambda x: self.ev(x, s, depth + 1)  # noqa: E731
        if isinstance(c, ast.UnaryOp):
            if isinstance(c.op, ast.USub):
                return ev(c.operand).neg()
            if isinstance(c.op, ast.UAdd):
                return ev(c.operand)
            return I(0, False, 1, False)
        if isinstance(c, ast.Compare):
            return I(0, False, 1, False)
        if isinstance(c, ast.Name) and c.id == "pi":
            return I(math.pi, False, math.pi, False)
        if isinstance(c, ast.Attribute):
            if c.attr in ("pi", "e") and isinstance(c.value, ast.Name) and c.value.id in ("np", "math"):
                v = math.pi if c.attr == "pi" else math.e
                return I(v, False, v, False)
            if c.attr == "T":
                return ev(c.value)
            if isinstance(c.value, ast.Name) and self.fn.cls is not None and c.value.id in (
                    self.fn.self_name, "cls", self.fn.cls.name):
                return self.setting(self.fn.cls, c.attr)
            return TOP
        if isinstance(c, ast.IfExp):
            t = self.assume(c.test, True, self.copy(s), depth + 1)
            f = self.assume(c.test, False, self.copy(s), depth + 1)
            a = self.ev(c.body, t, depth + 1) if t else None
            b = self.ev(c.orelse, f, depth + 1) if f else None
            if a is None or b is None:
                return a or b or TOP
            return a.hull(b)
        if isinstance(c, ast.BinOp):
            a, b = ev(c.left), ev(c.right)
            if isinstance(c.op, ast.Add):
                return a.add(b)
            if isinstance(c.op, ast.Sub):
                out = a.add(b.neg())
                rev = s["f"].get(f"{ast.unparse(c.right)} - {ast.unparse(c.left)}")
                if rev is not None:
                    out = out.meet(rev[0].neg())
                # a - m and m - b
                lk, rk = ast.unparse(c.left) + " - ", " - " + ast.unparse(c.right)
                for k, v in s["f"].items():
                    if isinstance(k, str) and k.startswith(lk):
                        w = s["f"].get(k[len(lk):] + rk)
                        if w is not None:
                            out = out.meet(v[0].add(w[0]))
                l, r = unmask(c.left), unmask(c.right)
                if l is not c.left or r is not c.right:
                    out = out.meet(ev(ast.BinOp(left=l, op=ast.Sub(), right=r)))
                return out
            if isinstance(c.op, ast.Mult):
                if ast.unparse(c.left) == ast.unparse(c.right):
                    return I(0, a.nonzero, nz=a.nonzero)
                return a.mul(b)
            if isinstance(c.op, ast.Div):
                if b.positive:
                    inv = I(0 if b.hi == INF else 1 / b.hi, True if b.hi == INF else b.hi_o,
                            INF if b.lo <= 0 else 1 / b.lo, b.lo_o, True)
                    return a.mul(inv)
                return I(nz=a.nonzero)
            if isinstance(c.op, ast.Pow):
                if isinstance(c.right, ast.Constant) and isinstance(c.right.value, int) and c.right.value % 2 == 0:
                    return I(0, a.nonzero, nz=a.nonzero)
                if a.positive:
                    if a.lo >= 1 and b.lo >= 0:
                        return I(1)
                    if a.hi <= 1 and b.lo >= 0:
                        return I(0, True, 1, False)
                    return POS
                if a.nonneg:
                    if a.hi <= 1 and b.lo >= 0:
                        return I(0, False, 1, False)
                    return NONNEG
                return I(nz=a.nonzero)
            if isinstance(c.op, ast.Mod):
                if b.positive:
                    return I(0, False, b.hi, True)
                return TOP
            return TOP
        if isinstance(c, ast.Call):
            return self.call(c, s, depth)
        return TOP

    def call(self, c, s, depth) -> I:
        n = fname(c)
        ev = lambda x: self.ev(x, s, depth + 1)  # noqa: E731
        args = [a for a in c.args if not isinstance(a, ast.Starred)]
        if n == "norm":
            x = I(0, False)
            if args:
                nv = s["f"].get("any(" + key(args[0]) + ")")
                if nv is not None and nv[0].nonzero and not c.keywords:
                    x = POS
                elif isinstance(args[0], ast.Name) and s["f"].get("norm(" + key(args[0]) + ")") is not None \
                        and not c.keywords and len(args) == 1:
                    x = s["f"]["norm(" + key(args[0]) + ")"][0].meet(I(0))
                elif args[0] is not None and isinstance(args[0], ast.Name) and args[0].id in s["d"]:
                    d = s["d"][args[0].id][0]
                    nd = s["f"].get("norm(" + key(d) + ")") or s["f"].get("any(" + key(d) + ")")
                    if nd is not None and nd[0].nonzero:
                        x = POS
            return x
        if n in ("abs", "absolute", "fabs") and args:
            a = ev(args[0])
            return I(0, a.nonzero)
        if n == "exp":
            return POS
        if n in ("sqrt", "square") and args:
            return I(0, ev(args[0]).nonzero)
        if n in ("cos", "sin", "tanh"):
            return I(-1, False, 1, False)
        if n in ("arccos", "acos"):
            return I(0, False, math.pi, False)
        if n in ("arcsin", "asin"):
            return I(-math.pi / 2, False, math.pi / 2, False)
        if n == "len" or n == "count_nonzero":
            return NONNEG
        if n in ("max", "maximum", "fmax") and len(args) >= 2:
            vs = [ev(a) for a in args]
            lo = max((v.lo, v.lo_o) for v in vs)
            hi = max((v.hi, not v.hi_o) for v in vs)
            return I(lo[0], lo[1], hi[0], not hi[1])
        if n in ("min", "minimum", "fmin") and len(args) >= 2:
            vs = [ev(a) for a in args]
            lo = min((v.lo, v.lo_o) for v in vs)
            hi = min((v.hi, not v.hi_o) for v in vs)
            return I(lo[0], lo[1], hi[0], not hi[1], all(v.nonzero for v in vs))
        if n == "clip" and len(args) == 3:
            x, lo, hi = (ev(a) for a in args)
            return I(lo.lo, False, hi.hi, False)
        if n in ("max", "min", "mean") and args:
            return ev(args[0])
        if n == "sum" and args:
            a = ev(args[0])
            anyk = s["f"].get("any(" + key(args[0]) + ")")
            if anyk is not None and anyk[0].nonzero and (a.nonneg or self.is_bool(args[0], s)):
                return POS
            if a.positive:
                return POS
            if a.nonneg or self.is_bool(args[0], s):
                return NONNEG
            return TOP
        if n in ("array", "asarray", "copy", "tile", "float", "squeeze", "ravel", "flatten", "repeat", "atleast_1d") \
                and args:
            a = args[0]
            if isinstance(a, (ast.List, ast.Tuple)):
                out = None
                for x in a.elts:
                    v = ev(x)
                    out = v if out is None else out.hull(v)
                return out or TOP
            return ev(a)
        if n in ("ones", "ones_like"):
            return I(1, False, 1, False)
        if n in ("zeros", "zeros_like"):
            return ZERO
        if n == "full" and len(args) >= 2:
            return ev(args[1])
        if n == "power" and len(args) == 2:
            return self.struct(ast.BinOp(left=args[0], op=ast.Pow(), right=args[1]), s, depth)
        if isinstance(c.func, ast.Attribute) and c.func.attr in ("copy", "flatten", "ravel", "squeeze", "reshape"):
            return ev(c.func.value)
        if isinstance(c.func, ast.Attribute) and c.func.attr in ("sum",) and not c.args:
            a = ev(c.func.value)
            return POS if a.positive else NONNEG if a.nonneg else TOP
        if isinstance(c.func, ast.Attribute) and c.func.attr in ("norm",) and not c.args:
            return NONNEG
        orig = getattr(c, "_orig", None)
        ts = self.calls.targets(orig, self.fn, self.fn.module) if orig is not None else []
        out = None
        for t in ts:
            if t.func is None or t.func.uid not in self.rets:
                return TOP
            r = self.rets[t.func.uid]
            if r is None:
                return TOP
            out = r if out is None else out.hull(r)
        return out or TOP

    def setting(self, cls, attr) -> I:
        """Range of a configured value: literals as written, arguments with a positive default are positive."""
        memo = self.calls.__dict__.setdefault("_settings", {})
        k = (cls.key, attr)
        if k in memo:
            return memo[k]
        memo[k] = TOP
        p, out = self.calls.p, None
        vals = []
        for c in p.mro(cls) + p.subclasses(cls):
            if attr in c.class_attrs:
                v = c.class_attrs[attr]
                vals.append((None, v.value if isinstance(v, (ast.Assign, ast.AnnAssign)) else v))
            for m in list(c.methods.values()) + list(c.setters.values()):
                if m.is_property and m.name == attr:
                    return TOP
                for n in walk_own(m.node):
                    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == attr:
                        return TOP
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []
                    for t in tg:
                        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) \
                                and t.value.id == m.self_name and n.value is not None:
                            vals.append((m, n.value))
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(
                                isinstance(x, ast.Attribute) and x.attr == attr for x in t.elts):
                            return TOP
        for m, v in vals:
            if v is None:
                continue
            x = TOP
            if isinstance(v, ast.Name) and m is not None and v.id in m.args_nodes:
                x = default_range(m, v.id)
            elif isinstance(v, ast.Name) and m is not None and m.is_setter and v.id in m.args_nodes:
                continue
            elif isinstance(v, ast.Constant) and v.value is None:
                continue
            else:
                x = self.ev(v, {"f": {}, "d": {}, "m": {}})
            if m is not None and m.is_setter:
                x = TOP if x.top else x
            out = x if out is None else out.hull(x)
        memo[k] = out or TOP
        return memo[k]

    def is_bool(self, e, s):
        e = canon(e)
        if isinstance(e, ast.Name) and e.id in s["d"]:
            e = s["d"][e.id][0]
        if isinstance(e, ast.Compare):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            return self.is_bool(e.left, s) and self.is_bool(e.right, s)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Invert, ast.Not)):
            return True
        if isinstance(e, ast.Call):
            return fname(e) in ("logical_and", "logical_or", "logical_not", "isnan", "isclose")
        return False

    # ----------------------------------------------------------------- tests
    def assume(self, test, truth, s, depth=0):
        if s is None or depth > 10:
            return s
        c = canon(test)
        if depth == 0:
            self.note_test(c, truth, s, 0)
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.Invert)):
            return self.assume(c.operand, not truth, s, depth + 1)
        if isinstance(c, ast.BoolOp):
            conj = isinstance(c.op, ast.And)
            if conj == truth:
                for v in c.values:
                    s = self.assume(v, truth, s, depth + 1)
            return s
        if isinstance(c, ast.BinOp) and isinstance(c.op, (ast.BitAnd, ast.BitOr)):
            if isinstance(c.op, ast.BitAnd) == truth:
                s = self.assume(c.left, truth, s, depth + 1)
                s = self.assume(c.right, truth, s, depth + 1)
            return s
        if isinstance(c, ast.Compare):
            left = c.left
            if len(c.ops) > 1 and not truth:
                return s
            for op, right in zip(c.ops, c.comparators):
                self.compare(left, op, right, truth, s, depth)
                left = right
            return s
        if isinstance(c, ast.Call):
            n = fname(c)
            if n in ("logical_and",) and len(c.args) >= 2:
                if truth:
                    for a in c.args[:2]:
                        s = self.assume(a, True, s, depth + 1)
                return s
            if n == "logical_or" and len(c.args) >= 2:
                if not truth:
                    for a in c.args[:2]:
                        s = self.assume(a, False, s, depth + 1)
                return s
            if n == "logical_not" and c.args:
                return self.assume(c.args[0], not truth, s, depth + 1)
            if n in ("any", "sum", "count_nonzero") and c.args:
                a = c.args[0]
                if truth:
                    self.put(s, ast.Call(func=ast.Name(id="any", ctx=ast.Load()), args=[a], keywords=[]), POS)
                    self.put(s, c, I(nz=True))
                    if isinstance(a, ast.Name) and a.id in s["d"]:
                        pass
                else:
                    if self.is_bool(a, s):
                        d = canon(a)
                        if isinstance(d, ast.Name):
                            d = s["d"][d.id][0]
                        s = self.assume(d, False, s, depth + 1)
                return s
            if n == "all" and c.args:
                if truth and self.is_bool(c.args[0], s):
                    d = canon(c.args[0])
                    if isinstance(d, ast.Name):
                        d = s["d"][d.id][0]
                    s = self.assume(d, True, s, depth + 1)
                return s
            if n in ("isclose", "allclose") and len(c.args) >= 2:
                if not truth:
                    a, b = c.args[:2]
                    if self.ev(b, s).t()[:3:2] == (0, 0):
                        self.put(s, a, I(nz=True))
                        if n == "allclose":
                            self.put(s, ast.Call(func=ast.Name(id="any", ctx=ast.Load()), args=[a], keywords=[]), POS)
                    else:
                        self.diff(a, b, I(nz=True), s)
                return s
        if isinstance(c, ast.Name) and c.id in s["d"] and (isinstance(
                s["d"][c.id][0], (ast.Compare, ast.BoolOp, ast.UnaryOp)) or isinstance(
                s["d"][c.id][0], ast.Call) and fname(s["d"][c.id][0]) in (
                "any", "all", "sum", "count_nonzero", "isclose", "allclose", "logical_and", "logical_or",
                "logical_not")):
            s = self.assume(s["d"][c.id][0], truth, s, depth + 1)
        if isinstance(c, (ast.Name, ast.Attribute, ast.Subscript, ast.Call, ast.BinOp)):
            if truth:
                self.put(s, c, I(nz=True))
        return s

    def cond(self, test, s):
        t, f = super().cond(test, s)
        if isinstance(test, ast.BoolOp):
            out = t if isinstance(test.op, ast.Or) else f
            if out is not None:
                self.note_test(test, isinstance(test.op, ast.Or), out, 0)
        return t, f

    def note_test(self, c, truth, s, depth):
        c = canon(c)
        if depth > 8:
            return
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.Invert)):
            return self.note_test(c.operand, not truth, s, depth + 1)
        if isinstance(c, ast.BoolOp):
            if isinstance(c.op, ast.And) == truth:
                for v in c.values:
                    self.note_test(v, truth, s, depth + 1)
            elif any(self.weight_of_test(v) for v in c.values):
                s["g"] = s.get("g", frozenset()) | {((key(c), truth), 1, names_in(c))}
            return
        if isinstance(c, ast.Name) and c.id in s["d"] and isinstance(
                s["d"][c.id][0], (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            return self.note_test(s["d"][c.id][0], truth, s, depth + 1)
        w = self.weight_of_test(c)
        if w:
            s["g"] = s.get("g", frozenset()) | {((key(c), truth), w, names_in(c))}

    def weight_of_test(self, c):
        """How many tests of a quantity this one stands for (0: a test of something else)."""
        if isinstance(c, ast.Constant):
            return 0
        if isinstance(c, ast.Compare):
            if any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in c.ops):
                return 0
            return len(c.ops)
        if isinstance(c, ast.Call):
            if fname(c) in ("isinstance", "hasattr", "callable"):
                return 0
            orig = getattr(c, "_orig", None)
            if orig is not None and any(t.func is not None for t in self.calls.targets(
                    orig, self.fn, self.fn.module)):
                return 3  # a predicate of the package: not looked into
        return 1

    def guards(self, s, e) -> int:
        """Tests on quantities the operand depends on that hold here (those of the callers of a helper included)."""
        mine = self.closure(names_in(e))
        return self.outer + min(self.clips(e, s), 3) + sum(w for _, w, ns in s.get("g", ()) if self.closure(ns) & mine)

    def clips(self, e, s) -> int:
        """How often the definition of the value limits it."""
        bounded = {"maximum", "minimum", "clip", "max", "min", "fmax", "fmin"}
        todo, clips = [canon(e)], 0
        for _ in range(4):
            nxt = []
            for x in todo:
                for n in ast.walk(x):
                    if isinstance(n, ast.Call) and len(n.args) > 1 and fname(n) in bounded:
                        clips += 1
                    elif isinstance(n, ast.Name) and n.id in s["d"] and s["d"][n.id][0] is not x:
                        nxt.append(s["d"][n.id][0])
            todo = nxt[:20]
        return clips

    def closure(self, ns):
        """The names a quantity is made of (through all assignments of the function)."""
        dep = getattr(self.fn, "_dep", None)
        if dep is None:
            dep = {}
            for n in walk_own(self.fn.node):
                v, ts = None, []
                if isinstance(n, ast.Assign):
                    v, ts = n.value, n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    v, ts = n.value, [n.target]
                elif isinstance(n, ast.For):
                    v, ts = n.iter, [n.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and (isinstance(x.ctx, ast.Store) or isinstance(t, ast.Subscript)):
                            dep.setdefault(x.id, set()).update(names_in(v))
            self.fn._dep = dep
        out, todo = set(), set(ns)
        while todo:
            n = todo.pop()
            if n not in out:
                out.add(n)
                todo |= dep.get(n, set())
        return {n for n in out if n != self.fn.self_name and n not in CANON and n not in MODULE_NAMES}

    def diff(self, a, b, x, s):
        self.put(s, ast.BinOp(left=canon(a), op=ast.Sub(), right=canon(b)), x)
        self.put(s, ast.BinOp(left=canon(b), op=ast.Sub(), right=canon(a)), x.neg())

    def compare(self, a, op, b, truth, s, depth):
        if not truth:
            inv = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq,
                   ast.NotEq: ast.Eq}
            t = inv.get(type(op))
            if t is None:
                return
            op = t()
        va, vb = self.ev(a, s, depth + 1), self.ev(b, s, depth + 1)
        sumlike = isinstance(canon(a), ast.Call) and fname(a) in ("sum", "count_nonzero", "any")
        if isinstance(op, ast.Gt):
            self.put(s, a, I(vb.lo, True))
            self.put(s, b, I(hi=va.hi, hi_o=True))
            self.diff(a, b, POS, s)
            if sumlike and vb.lo >= 0:
                self.assume(a, True, s, depth + 1)
        elif isinstance(op, ast.GtE):
            self.put(s, a, I(vb.lo, vb.lo_o))
            self.put(s, b, I(hi=va.hi, hi_o=va.hi_o))
            self.diff(a, b, I(0), s)
            if sumlike and vb.lo > 0:
                self.assume(a, True, s, depth + 1)
        elif isinstance(op, ast.Lt):
            self.compare(b, ast.Gt(), a, True, s, depth + 1) if depth < 8 else None
        elif isinstance(op, ast.LtE):
            self.compare(b, ast.GtE(), a, True, s, depth + 1) if depth < 8 else None
            if sumlike and vb.hi <= 0:
                self.assume(a, False, s, depth + 1)
        elif isinstance(op, ast.NotEq):
            if vb.t()[:3:2] == (0, 0):
                self.put(s, a, I(nz=True))
                if sumlike:
                    self.assume(a, True, s, depth + 1)
            elif va.t()[:3:2] == (0, 0):
                self.put(s, b, I(nz=True))
            else:
                self.diff(a, b, I(nz=True), s)
        elif isinstance(op, ast.Eq):
            if not vb.top:
                self.put(s, a, vb)
            if not va.top:
                self.put(s, b, va)
            if sumlike and vb.hi <= 0 and vb.lo >= 0:
                self.assume(a, False, s, depth + 1)

    # ----------------------------------------------------------------- hooks
    def expr(self, e, s):
        if e is None:
            return
        self.walk(e, s)

    def walk(self, e, s):
        """Visit an expression left to right, binding walruses, following short circuits."""
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for n in ast.iter_child_nodes(e):
                if isinstance(n, ast.comprehension):
                    self.walk(n.iter, s)
            if not isinstance(e, ast.Lambda):
                t = self.copy(s)
                for g in e.generators:
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            self.kill(t, x.id)
                    for c in g.ifs:
                        t = self.assume(c, True, t)
                for fld in ("elt", "key", "value"):
                    if hasattr(e, fld):
                        self.walk(getattr(e, fld), t)
            return
        if isinstance(e, ast.BoolOp):
            cur = s
            for i, v in enumerate(e.values):
                self.walk(v, cur)
                cur = self.assume(v, isinstance(e.op, ast.And), self.copy(cur))
            return
        if isinstance(e, ast.IfExp):
            self.walk(e.test, s)
            self.walk(e.body, self.assume(e.test, True, self.copy(s)))
            self.walk(e.orelse, self.assume(e.test, False, self.copy(s)))
            return
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.walk(n, s)
            elif isinstance(n, ast.keyword):
                self.walk(n.value, s)
        if isinstance(e, ast.NamedExpr):
            self.set(e.target.id, e.value, s)
        if isinstance(e, ast.Call):
            # a call on an object may change its attributes
            if isinstance(e.func, ast.Attribute) and e.func.attr in (
                    "append", "pop", "remove", "insert", "extend", "sort", "clear", "fill", "reset"):
                self.kill_target(e.func.value, s)
        if self.visit is not None:
            self.visit(self, e, s)

    def set(self, name, value, s):
        x = self.ev(value, s) if value is not None else TOP
        # carry over facts about the vector itself
        carry = []
        if value is not None:
            cv = canon(value)
            src = self.vector_source(cv, s)
            if src is not None:
                carry.append(src)
        self.kill(s, name)
        tgt = ast.Name(id=name, ctx=ast.Load())
        if value is not None and name not in names_in(value) and self.pure(canon(value)):
            s["d"][name] = (canon(value), names_in(value), key(value))
        if not x.top:
            self.put(s, tgt, x)
        for v in carry:
            self.put(s, ast.Call(func=ast.Name(id="norm", ctx=ast.Load()), args=[tgt], keywords=[]), v)

    def vector_source(self, cv, s):
        """norm of the assigned vector, when it is known to be non-zero."""
        if isinstance(cv, (ast.Name, ast.Attribute, ast.Subscript)):
            n = s["f"].get("norm(" + key(cv) + ")") or s["f"].get("any(" + key(cv) + ")")
            return POS if n is not None and n[0].nonzero else None
        if isinstance(cv, ast.BinOp) and isinstance(cv.op, (ast.Div, ast.Mult)):
            for a, b in ((cv.left, cv.right), (cv.right, cv.left)):
                src = self.vector_source(canon(a), s)
                if src is not None and (isinstance(cv.op, ast.Div) and a is cv.left or self.ev(b, s).nonzero):
                    return POS
                if isinstance(cv.op, ast.Div):
                    break
        if isinstance(cv, ast.UnaryOp) and isinstance(cv.op, ast.USub):
            return self.vector_source(canon(cv.operand), s)
        n = s["f"].get("norm(" + key(cv) + ")")
        return POS if n is not None and n[0].nonzero else None

    def pure(self, c):
        return len(list(ast.walk(c))) < 60 and not any(
            isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Await))
            for n in ast.walk(c))

    def assign(self, target, value, s, node):
        if isinstance(target, ast.Starred):
            target = target.value
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(target.elts) and not any(
                    isinstance(x, ast.Starred) for x in value.elts):
                ranges = [self.ev(v, s) for v in value.elts]
                for t in target.elts:
                    self.kill_target(t, s)
                for t, r in zip(target.elts, ranges):
                    if isinstance(t, ast.Name):
                        self.put(s, t, r)
            else:
                for t in target.elts:
                    self.kill_target(t, s)
            return
        if isinstance(target, ast.Name):
            self.set(target.id, value, s)
        elif isinstance(target, ast.Attribute):
            x = self.ev(value, s) if value is not None else TOP
            self.kill(s, ast.unparse(target))
            self.put(s, ast.parse(ast.unparse(target), mode="eval").body, x)
        elif isinstance(target, ast.Subscript):
            self.sub_assign(target, value, s)

    def sub_assign(self, target, value, s):
        base = canon(target.value)
        k = key(base)
        old = self.ev(base, s)
        new = self.ev(value, s) if value is not None else TOP
        self.kill_target(target.value, s)
        b = ast.parse(ast.unparse(base), mode="eval").body
        self.put(s, b, old.hull(new))
        t = ast.parse(ast.unparse(canon(target)), mode="eval").body
        if not isinstance(target.slice, ast.Slice):
            self.put(s, t, new)
        del k

    def kill_target(self, t, s):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.kill_target(x, s)
        elif isinstance(t, ast.Name):
            self.kill(s, t.id)
        elif isinstance(t, ast.Attribute):
            self.kill(s, ast.unparse(t))
        elif isinstance(t, ast.Subscript):
            self.kill_target(t.value, s)

    def augassign(self, node, s):
        self.expr(node.value, s)
        if self.visit is not None:
            self.visit(self, node, s)
        e = ast.copy_location(ast.BinOp(left=ast.parse(ast.unparse(node.target), mode="eval").body, op=node.op,
                                        right=node.value), node)
        if isinstance(node.target, ast.Name):
            self.set(node.target.id, e, s)
        elif isinstance(node.target, ast.Subscript):
            self.sub_assign(node.target, e, s)
        else:
            self.assign(node.target, e, s, node)

    def for_bind(self, target, it, s, node):
        c = canon(it)
        x = None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
            if c.func.id == "range" and isinstance(target, ast.Name):
                if len(c.args) == 1:
                    x = I(0, False)
                elif len(c.args) >= 2:
                    x = I(self.ev(c.args[0], s).lo) if len(c.args) == 2 else None
            elif c.func.id == "enumerate" and isinstance(target, ast.Tuple) and isinstance(target.elts[0], ast.Name):
                self.kill_target(target, s)
                self.put(s, target.elts[0], I(0))
                return
        self.kill_target(target, s)
        if x is not None:
            self.put(s, target, x)

    def on_return(self, node, s):
        if node.value is not None:
            r = self.ev(node.value, s)
            self.ret = r if self.ret is None else self.ret.hull(r)

    def start(self):
        s = {"f": {}, "d": {}, "m": {}}
        for q in self.fn.args_nodes:
            x = default_range(self.fn, q)
            if not x.top:
                self.put(s, ast.Name(id=q, ctx=ast.Load()), x)
        for e, x in self.params.items():
            if e == GUARDS:
                continue
            self.put(s, ast.parse(e, mode="eval").body, x)
        return s


def unmask(e):
    """A selection of elements shares the facts of the whole array."""
    if isinstance(e, ast.Subscript) and not (isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str)):
        return e.value
    return e


def default_range(f: Func, q: str) -> I:
    """A setting with a positive default is a positive quantity."""
    d = f.defaults.get(q)
    if d is None:
        return TOP
    try:
        v = ast.literal_eval(d)
    except (ValueError, SyntaxError, TypeError):
        v = 1.0 if "pi" in ast.unparse(d) else None
    if isinstance(v, (int, float)) and not isinstance(v, bool) and v > 0:
        return POS
    return TOP


def outside_names(p: Program) -> set:
    """Identifiers used by the tests, examples and scripts of the repository."""
    out = set()
    for d, dirs, files in os.walk(p.root):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("__pycache__", "build", "dist")
                   and not (d == p.root and x == PACKAGE)]
        for f in files:
            if f.endswith(".py"):
                try:
                    with open(os.path.join(d, f), encoding="utf-8") as fh:
                        out |= set(re.findall(r"[A-Za-z_]\w*", fh.read()))
                except (OSError, UnicodeDecodeError):
                    pass
    return out


def analyse(p: Program, calls: Calls, funcs, visit=None):
    """Return ranges (one pass per level), then entry facts of private helpers from all their call sites."""
    rets: dict = {}
    for _ in range(2):
        new = {}
        for f in funcs:
            r = Ranges(f, calls, rets, {})
            r.run(f.node, r.start())
            new[f.uid] = r.ret
        rets = new
    # entry facts: every reference to the helper in the package is a call with known facts
    cell: list = [{}]
    used = outside_names(p)
    helpers = {f.uid: f for f in funcs if not f.name.startswith("__") and (f.name.startswith("_")
                                                                         or f.name not in used)}

    def collect(r: Ranges, e, s):
        if not isinstance(e, ast.Call):
            return
        for t in calls.targets(e, r.fn, r.fn.module):
            g = t.func
            if g is None or g.uid not in helpers:
                continue
            pos = list(g.pos)
            if g.has_self and not g.is_static and (t.bound or isinstance(e.func, ast.Attribute)):
                pos = pos[1:]
            pairs = list(zip(pos, [a for a in e.args]))
            pairs += [(k.arg, k.value) for k in e.keywords if k.arg]
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                pairs = []
            n = r.outer + sum(w for _, w, _ in s.get("g", ())) + min(3, sum(r.clips(a, s) for _, a in pairs))
            facts = {GUARDS: I(n, False, n, False)}
            for q, a in pairs:
                x = r.ev(a, s)
                if not x.top:
                    facts[q] = x
                if not isinstance(a, ast.Constant):
                    n = r.call(canon(ast.parse(f"norm({ast.unparse(canon(a))})", mode="eval").body), s, 0)
                    if n.nonzero:
                        facts[f"norm({q})"] = n
            for q, a in pairs:
                for q2, a2 in pairs:
                    if q != q2 and isinstance(a, ast.Name) and isinstance(a2, ast.Name) and a2.id in s["d"] and any(
                            isinstance(n, ast.Compare) for n in ast.walk(s["d"][a2.id][0])):
                        x = r.ev(ast.Subscript(value=a, slice=a2, ctx=ast.Load()), s)  # selection by a mask
                        if not x.top:
                            facts[f"{q}[{q2}]"] = x
                    if q != q2:
                        k = s["f"].get(f"{key(a)} - {key(a2)}")
                        if k is not None:
                            facts[f"{q} - {q2}"] = k[0]
            cell[0].setdefault(g.uid, []).append(facts)

    entry: dict = {}
    dirty = {f.uid for f in funcs}
    by_site: dict = {}
    for _ in range(10):  # facts travel through chains of helpers
        for f in funcs:
            if f.uid in dirty:
                cell[0] = by_site[f.uid] = {}
                r = Ranges(f, calls, rets, entry.get(f.uid, {}), collect)
                r.run(f.node, r.start())
        per: dict[str, list] = {}
        for d in by_site.values():
            for uid, lst in d.items():
                per.setdefault(uid, []).extend(lst)
        new_entry = {}
        for uid, lst in per.items():
            ks = set(lst[0])
            for d in lst[1:]:
                ks &= set(d)
            out = {}
            for k in sorted(ks):
                x = lst[0][k]
                for d in lst[1:]:
                    x = x.hull(d[k])
                if not x.top:
                    out[k] = x
            new_entry[uid] = out
        dirty = {u for u, v in new_entry.items() if {k: repr(x) for k, x in v.items()} != {
            k: repr(x) for k, x in entry.get(u, {}).items()}}
        entry = new_entry
        if not dirty:
            break
    if visit is not None:
        for f in funcs:
            r = Ranges(f, calls, rets, entry.get(f.uid, {}), visit)
            r.run(f.node, r.start())
    return rets, entry
