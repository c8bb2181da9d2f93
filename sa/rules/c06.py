"""C06: shares of a blend sum to one.

Abstract interpretation of weights: every array, list or number gets a kind (sums to one, sums to one or vanishes,
sums to at most one, vanishes, one share, the sum of .., one minus the sum of ..) with an identity, so that a
normalisation by the sum of other weights, or a remainder of other weights, is told apart from the right one.
Package calls are followed into their bodies.
"""
from __future__ import annotations

import ast
import re

from ..calls import Calls
from ..flow import Flow
from ..index import Func, Program, walk_own
from ..report import Result
from ..scope import core_funcs, is_legacy
from .c12 import is_drawing

# blends: name -> (position of the weights argument, keyword)
SINKS = {"get_directional_weighted_sum": (1, "weights"), "reduce_weighted_to_sequence": (1, "weights"),
         "get_weighted_mean": (1, "weights"),
         "get_directional_weighted_sum_from_unit_directions": (1, "weights")}
# contract of the library outside of the repository: shares normalised to one
EXT_UNIT = {"compute_weights"}
SAME = {"array", "asarray", "list", "tuple", "copy", "deepcopy", "atleast_1d", "ravel", "flatten", "squeeze", "float"}
# functions that promise shares: name -> kinds of answers they may give
PROMISED = {"compute_occlusion_weights": {"unit"}, "evaluate_occlusion_array": {"unit"},
            "get_weight_gamma_for_hulls": {"unit", "uz", "zero"}, "_predict_sequence_weights": {"unit"},
            "get_limited_weights_to_max_sum": {"unit", "uz", "zero", "sub"},
            "compute_weights_from_distances": {"unit", "uz", "zero", "sub", "seq"},
            "compute_gamma_weights": {"unit", "uz", "zero", "sub", "onehot"}}
GOOD = {"unit", "uz"}
DEPTH = 4
ONE = ("const", 1)


def atoms(v):
    return v[1] if len(v) > 1 and isinstance(v[1], frozenset) else frozenset()


def seq(*atom):
    return ("seq", frozenset([atom]))


ORDER = {"unit": 0, "zero": 0, "zeros": 0, "uz": 1, "sub": 2, "zs": 3, "ones": 3, "par": 4, "seq": 5}


def join_v(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    if a[0] == "tuple" and b[0] == "tuple" and len(a[1]) == len(b[1]):
        return ("tuple", tuple(join_v(x, y) for x, y in zip(a[1], b[1])))
    if a[0] in ("sum", "rem", "comp") and b[0] == a[0] and a[2:] == b[2:]:
        return (a[0], a[1] | b[1]) + a[2:]
    if "part" in (a[0], b[0]):
        x, y = (a, b) if a[0] == "part" else (b, a)
        if y[0] == "zero" or y[0] == "part" and y[2] == x[2]:
            return ("part", atoms(a) | atoms(b), x[2])
        return ("sub" if y[0] in ("unit", "uz", "sub") else "seq", atoms(a) | atoms(b))
    if "lst" in (a[0], b[0]) and {a[0], b[0]} <= {"lst", "zero"}:
        ks = [x[2] for x in (a, b) if x[0] == "lst"]
        if "share" in ks:
            return ("lst", atoms(a) | atoms(b), "share") if len(set(ks)) == 1 else ("seq", atoms(a) | atoms(b))
        return ("lst", atoms(a) | atoms(b), max(ks, key=["zero", "zeros", "unit", "uz", "sub"].index))
    if a[0] == "mask" and b[0] in ("mask", "zeros", "zero") or b[0] == "mask" and a[0] in ("zeros", "zero"):
        return ("mask", (a[1] if a[0] == "mask" else frozenset()) | (b[1] if b[0] == "mask" else frozenset()))
    none = ("const", None)
    if a == none:
        return b
    if b == none:
        return a
    if a[0] in ORDER and b[0] in ORDER:
        ids = atoms(a) | atoms(b)
        ks = {a[0], b[0]}
        if ks <= {"zero", "zeros"}:
            return ("zero", ids)
        if "seq" in ks or "zs" in ks or "ones" in ks:
            k = "par" if "par" in ks and "seq" not in ks else "seq"
        elif "par" in ks:
            k = "par"
        elif "sub" in ks:
            k = "sub"
        elif ks <= {"unit"}:
            k = "unit"
        else:
            k = "uz"
        return (k, ids)
    if a[0] in ORDER or b[0] in ORDER:
        return ("seq", atoms(a) | atoms(b))
    return ("seq", frozenset([("join",)]) | atoms(a) | atoms(b))


class Weights(Flow):
    def __init__(self, world, f: Func, depth, top=False):
        super().__init__()
        self.w, self.f, self.depth, self.top = world, f, depth, top
        self.ret = []
        self.temp = 0

    # -- domain
    def join(self, a, b):
        out = {}
        for k in set(a) & set(b):
            out[k] = join_v(a[k], b[k])
        for k in set(a) ^ set(b):
            if k.startswith("self."):
                continue
            out[k] = a.get(k) or b.get(k)
        return out

    def loc(self, n, tag=""):
        return (self.f.key, getattr(n, "lineno", 0), getattr(n, "col_offset", 0), tag)

    def new(self, n, s, kind="seq", tag=""):
        return (kind, frozenset([self.loc(n, tag)]))

    # -- expressions
    def expr(self, e, s):
        self.ev(e, s)

    def name_of(self, t):
        if isinstance(t, ast.Name):
            return t.id
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.f.self_name:
            return "self." + t.attr
        return None

    def ev(self, e, s):
        if e is None:
            return None
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, s)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return self.new(e, s)

    def e_Constant(self, e, s):
        return ("const", e.value if not isinstance(e.value, float) or e.value != int(e.value) else int(e.value)) \
            if isinstance(e.value, (int, float)) and not isinstance(e.value, bool) and abs(e.value) < 1e15 else (
                ("const", None) if e.value is None else self.new(e, s))

    def e_UnaryOp(self, e, s):
        v = self.ev(e.operand, s)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.new(e, s)

    def e_Name(self, e, s):
        return s.get(e.id) or seq("name", self.f.key, e.id)

    def e_Attribute(self, e, s):
        n = self.name_of(e)
        if n is not None and s.get(n) is not None:
            return s[n]
        if n is not None:
            return ("attr", frozenset([("attr", n)]), n[5:])
        self.ev(e.value, s)
        return seq("text", self.f.key, ast.unparse(e))

    def e_NamedExpr(self, e, s):
        v = self.ev(e.value, s)
        self.bind(e.target, v, s, e)
        return v

    def e_IfExp(self, e, s):
        t, f = self.cond(e.test, dict(s))
        a = self.ev(e.body, t) if t is not None else None
        b = self.ev(e.orelse, f) if f is not None else None
        if t is None:
            return b
        if f is None:
            return a
        return join_v(a, b)

    def parts(self, e, s):
        """Values of the elements of a display."""
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, s)
                out.append(v)
            else:
                out.append(self.ev(x, s))
        return out

    def e_Tuple(self, e, s):
        vs = self.parts(e, s)
        units = [v for v in vs if v and v[0] in ("unit",)]
        if len(units) == 1:
            vs = [("sum", units[0][1]) if v == ONE else v for v in vs]
        return ("tuple", tuple(vs))

    def e_List(self, e, s):
        vs = self.parts(e, s)
        return self.display(vs, e, s)

    def display(self, vs, e, s):
        """[a, b, ..] as one set of shares."""
        if not vs:
            return self.new(e, s, "zero")
        if all(v and v[0] == "const" and isinstance(v[1], (int, float)) for v in vs):
            t = sum(v[1] for v in vs)
            if abs(t - 1) < 1e-9:
                return self.new(e, s, "unit")
            return self.new(e, s, "zero" if t == 0 else "seq")
        rest = [v for v in vs if v != ("const", 0)]
        if len(rest) == 1:
            v = rest[0]
            if v and v[0] in ("rem", "comp", "sum", "seq"):
                return ("one", atoms(v), v)
        if len(rest) == 2:
            a, b = rest
            for x, y in ((a, b), (b, a)):
                if y and y[0] == "comp" and x and self.ident(x) == y[1]:
                    return self.new(e, s, "unit")
                if x and y and y[0] == "rem" and y[2] == ("const", 1) and self.ident(x) == y[1]:
                    return self.new(e, s, "unit")
        return self.new(e, s)

    def ident(self, v):
        if v[0] == "const":
            return frozenset([v])
        if v[0] == "sum":
            return frozenset([("sumof", v[1])])
        return atoms(v)

    def e_BinOp(self, e, s):
        l, r = self.ev(e.left, s), self.ev(e.right, s)
        one = (ONE, ("const", 1.0))
        if isinstance(e.op, ast.Mult):
            if l in one:
                return r
            if r in one:
                return l
            if l is not None and r is not None:
                for x, y in ((l, r), (r, l)):
                    if x[0] in ("unit", "uz", "sub") and y[0] not in ("const", "sum", "count"):
                        return self.new(e, s, "sub")  # shares times shares
                    if x[0] == "entry" and y[0] not in ("const", "sum", "count"):
                        return ("entry", frozenset([self.loc(e)]), x[2])
                    if x[0] == "lelem" and y[0] == "elem" and len(y) > 2 and y[2] in ("unit", "uz", "sub") and x[2] in (
                            "unit", "uz", "sub"):
                        return ("pelem", frozenset([self.loc(e)]))
            return self.new(e, s)
        if isinstance(e.op, ast.Div):
            if l is None or r is None:
                return self.new(e, s)
            if r in one:
                return l
            if r[0] == "sum" and l[0] in ORDER and atoms(l) == r[1] and l[0] not in ("zero", "zeros"):
                return self.new(e, s, "unit")
            if r[0] == "sum" and l[0] == "attr" and atoms(l) == r[1]:
                return self.new(e, s, "unit")
            if r[0] == "sum" and l[0] == "elem" and l[1] == r[1]:
                return ("uelem", l[1])
            if l[0] == "mask" and r[0] == "count" and l[1] == r[1]:
                return self.new(e, s, "unit")
            if l[0] == "ones" and (r == l[2] or self.ident(r) == self.ident(l[2])):
                return self.new(e, s, "unit")
            if l in one and r[0] == "count":
                return ("inv", r[1])
            if l[0] == "tot" and (l[2] == r or self.ident(r) == self.ident(l[2])):
                return self.new(e, s, "unit")
            return self.new(e, s)
        if isinstance(e.op, ast.Sub) and l is not None and r is not None:
            if r[0] == "sum":
                return ("rem", r[1], l)
            if any(isinstance(x, tuple) and x and x[0] == "sub" and x[1] == atoms(l) for x in atoms(r)):
                return ("holed", frozenset([self.loc(e)]))
            if l in one and r[0] in ("seq", "par", "attr", "const", "entry"):
                if r[0] == "const" and isinstance(r[1], (int, float)):
                    return ("const", 1 - r[1])
                return ("comp", self.ident(r))
            if l[0] == "const" and r[0] == "const" and isinstance(l[1], (int, float)) and isinstance(r[1], (int, float)):
                return ("const", l[1] - r[1])
            return self.new(e, s)
        if isinstance(e.op, ast.Add) and l is not None and r is not None:
            # list + list
            return self.concat([l, r], e, s)
        return self.new(e, s)

    def concat(self, vs, e, s):
        """Shares put one after the other."""
        flat = []
        for v in vs:
            if v is None:
                return self.new(e, s)
            flat.append(v[2] if v[0] == "one" else v)
        rest = [v for v in flat if v != ("const", 0) and v[0] not in ("zero",)]
        if not rest:
            return self.new(e, s, "zero")
        if len(rest) == 1:
            v = rest[0]
            if v == ONE:
                return self.new(e, s, "unit")
            if v[0] in ("unit", "uz", "sub"):
                return self.new(e, s, v[0])
            if v[0] == "rem" and not v[1]:
                return v
            return self.new(e, s)
        if len(rest) == 2:
            for x, y in ((rest[0], rest[1]), (rest[1], rest[0])):
                if y[0] == "rem" and atoms(x) == y[1] and x[0] not in ("rem", "sum"):
                    if y[2] in (ONE, ("const", 1.0)):
                        self.w.remainder(self, x, e)
                        return self.new(e, s, "unit")
                    if y[2][0] == "sum" and any(z and z[0] == "unit" and z[1] == y[2][1] for z in s.values()):
                        return self.new(e, s, "unit")
                    return ("tot", frozenset([self.loc(e)]), y[2])
        return self.new(e, s)

    def e_Compare(self, e, s):
        l = self.ev(e.left, s)
        rs = [self.ev(c, s) for c in e.comparators]
        if len(rs) == 1 and l is not None and rs[0] == ("const", 0) and isinstance(e.ops[0], (ast.Gt, ast.NotEq)):
            return ("mask", frozenset([("positive", atoms(l))]))
        if len(rs) == 1 and rs[0] is not None and l == ("const", 0) and isinstance(e.ops[0], (ast.Lt, ast.NotEq)):
            return ("mask", frozenset([("positive", atoms(rs[0]))]))
        return ("mask", frozenset([self.loc(e)]))

    def e_Subscript(self, e, s):
        v = self.ev(e.value, s)
        i = None
        if isinstance(e.slice, ast.expr):
            i = self.ev(e.slice, s)
        if v is None:
            return self.new(e, s)
        if v[0] == "tuple" and i and i[0] == "const" and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
            return v[1][i[1]]
        if i is not None and i[0] == "mask":
            if v[0] in ("unit", "uz", "sub") and (i[1] == frozenset([("positive", atoms(v))])
                                                 or ("support", i[1]) in atoms(v)):
                return self.new(e, s, v[0])
        if v[0] == "par" or v[0] in ("unit", "uz") and i is not None and i[0] == "par":
            return (v[0] if v[0] == "par" else "par", frozenset([("sub", atoms(v), self.ident(i) if i else None)]))
        if v[0] == "attr":
            return ("attr", frozenset([("sub", atoms(v), self.ident(i) if i else None)]), v[2])
        if v[0] in ("unit", "uz", "sub") and i is not None and i[0] not in ("mask", "tuple"):
            return ("entry", frozenset([("sub", atoms(v), self.ident(i))]), v[1])
        return seq("sub", atoms(v), self.ident(i) if i is not None else ast.unparse(e.slice))

    def comp(self, e, s):
        s2 = dict(s)
        single = len(e.generators) == 1 and not e.generators[0].ifs
        src = None
        for g in e.generators:
            v = self.ev(g.iter, s2)
            src = v
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    s2[n.id] = ("elem", atoms(v), v[0]) if single and isinstance(g.target, ast.Name) and v and v[
                        0] in ORDER else self.new(n, s2)
            if single and isinstance(g.iter, ast.Call) and getattr(g.iter.func, "id", "") == "zip" and isinstance(
                    g.target, ast.Tuple) and len(g.target.elts) == len(g.iter.args):
                for x, a in zip(g.target.elts, g.iter.args):
                    av = self.ev(a, s2)
                    if isinstance(x, ast.Name) and av is not None:
                        s2[x.id] = ("lelem", av[1], av[2]) if av[0] == "lst" else (
                            "elem", atoms(av), av[0]) if av[0] in ORDER else self.new(x, s2)
            for c in g.ifs:
                self.ev(c, s2)
        el = self.ev(e.elt, s2)
        if single and el is not None and el[0] == "pelem":
            return ("lst", frozenset([self.loc(e)]), "share")
        if single and el is not None and src is not None:
            if el[0] == "uelem":
                return self.new(e, s, "unit")
            if el[0] == "elem" and el[1] == atoms(src):
                return src
        return self.new(e, s)

    e_ListComp = e_GeneratorExp = comp

    def e_Lambda(self, e, s):
        return self.new(e, s)

    def total(self, v, e, s):
        """The sum of v."""
        if v is None:
            return self.new(e, s)
        if v[0] == "zero" or v[0] == "zeros":
            return ("const", 0)
        if v[0] == "mask":
            return ("count", v[1])
        if v[0] == "one":
            return v[2]
        if v[0] in ORDER or v[0] in ("attr", "part", "tot"):
            return ("sum", atoms(v))
        return self.new(e, s)

    def e_Call(self, e, s):
        fn = e.func
        n = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        recv = fn.value if isinstance(fn, ast.Attribute) else None
        on_np = isinstance(recv, ast.Name) and recv.id in ("np", "numpy", "copy", "math")
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, s) for a in e.args]
        kws = {k.arg: self.ev(k.value, s) for k in e.keywords}
        if n in ("sum", "fsum", "dot", "average") and on_np and e.args:
            self.by_hand(e, s)
        if n in ("sum", "fsum") and (on_np or recv is None) and len(args) == 1 and not kws:
            return self.total(args[0], e, s)
        if n == "sum" and recv is not None and not on_np and not args:
            return self.total(self.ev(recv, s), e, s)
        if n == "count_nonzero" and args:
            return self.total(args[0], e, s) if args[0] and args[0][0] == "mask" else self.new(e, s)
        if n in SAME and args and (on_np or recv is None):
            v = args[0]
            if v and v[0] == "tuple":
                v = self.display(list(v[1]), e, s)
            return v if v is not None else self.new(e, s)
        if n in ("copy", "tolist", "astype", "flatten", "ravel") and recv is not None and not on_np:
            return self.ev(recv, s) or self.new(e, s)
        if n in ("zeros", "zeros_like") and on_np:
            return self.new(e, s, "zeros")
        if n in ("ones", "ones_like") and on_np:
            return ("ones", frozenset([self.loc(e)]), args[0] if args else None)
        if n == "maximum" and on_np and len(args) == 2 and ("const", 0) in args and any(
                x is not None and x[0] == "holed" for x in args):
            return self.new(e, s, "zs")  # max(w - w[i], 0): the entry i becomes zero
        if n in ("list", "tuple", "set") and not args and recv is None:
            return self.new(e, s, "zero")
        if n in ("hstack", "concatenate") and on_np and args:
            v = args[0]
            if v is not None and v[0] == "tuple":
                return self.concat(list(v[1]), e, s)
            if v is not None and v[0] == "lst" and v[2] == "share":
                return self.new(e, s, "sub")
            if isinstance(e.args[0], ast.List):
                return self.concat(self.parts(e.args[0], s), e, s)
            return self.new(e, s)
        if n == "append" and on_np and len(args) >= 2:
            return self.concat(args[:2], e, s)
        # growing a list
        if n in ("append", "extend", "insert") and recv is not None and args:
            key = self.name_of(recv)
            if key is not None:
                old = s.get(key)
                add = args[-1]
                if n == "append" and add is not None and add[0] == "entry" and old is not None and (
                        old[0] == "zero" or old[0] == "part" and old[2] == add[2]):
                    # entry by entry of one set of shares, each diminished
                    s[key] = ("part", frozenset([self.loc(e)]), add[2])
                    return None
                if n == "append" and add is not None and old is not None and (
                        add[0] in ("unit", "uz", "sub") and old[0] == "zero"
                        or old[0] == "lst" or old[0] == "zero" and add[0] in ("zeros",)):
                    k = old[2] if old[0] == "lst" else "zero"
                    rank = ["zero", "zeros", "unit", "uz", "sub"]
                    ok = add[0] in rank
                    s[key] = ("lst", frozenset([self.loc(e)]), max(k, add[0], key=rank.index)) if ok else self.new(e, s)
                    return None
                new = self.concat([old if old is not None else self.ev(recv, s), add], e, s)
                self.put(key, new, s)
                return None
        if recv is not None and not on_np:
            self.ev(recv, s)
        self.check_sink(e, n, args, kws, s)
        if n in EXT_UNIT and not self.w.is_package(e, self.f):
            return self.new(e, s, "unit")
        own = isinstance(recv, ast.Name) and recv.id == self.f.self_name
        v, after = self.w.call(self, e, args, kws, s, own)
        if own and after is not None:
            for k in [k for k in s if k.startswith("self.")]:
                del s[k]
            s.update(after)
        elif own:
            ts = [t for t in self.w.calls.targets(e, self.f, self.f.module) if t.func is not None]
            if ts:
                changed = set().union(*(self.w.stores(t.func) for t in ts))
                for k in [k for k in s if k.startswith("self.") and k[5:] in changed]:
                    del s[k]
        return v if v is not None else self.new(e, s)

    # -- sinks
    def by_hand(self, e, s):
        """np.sum(vectors * weights)"""
        for x in factors(e.args[0]):
            while True:
                if isinstance(x, ast.Call) and x.args and (getattr(x.func, "attr", "") in (
                        "tile", "array", "asarray", "repeat", "copy")):
                    x = x.args[0]
                elif isinstance(x, ast.Attribute) and x.attr == "T":
                    x = x.value
                elif isinstance(x, ast.Subscript) and ("None" in ast.unparse(x.slice) or "newaxis" in ast.unparse(x.slice)):
                    x = x.value
                elif isinstance(x, ast.Call) and getattr(x.func, "attr", "") == "reshape":
                    x = x.func.value
                else:
                    break
            name = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ""
            if "weight" in name and len(factors(e.args[0])) > 1:
                self.w.judge(self, "np.sum(..)", self.ev(x, s), x, e, None, False, extra=("sub", "zero", "zeros", "part"))

    def check_sink(self, e, n, args, kws, s):
        need = []
        if n in SINKS:
            i, kw = SINKS[n]
            shift = 0
            if n == "get_directional_weighted_sum" and len(args) <= i and kw not in kws:
                return
            a = kws.get(kw) if kw in kws else (args[i + shift] if len(args) > i + shift else None)
            node = next((k.value for k in e.keywords if k.arg == kw), e.args[i] if len(e.args) > i else None)
            if node is not None:
                need.append((n, a, node, kws.get("total_weight"), any(k.arg == "total_weight" for k in e.keywords)))
        for g, q in self.w.required(e, self.f):
            ps = [x for x in g.pos if not (g.has_self and x == g.self_name) and x != "cls"]
            node = next((k.value for k in e.keywords if k.arg == q), None)
            v = kws.get(q)
            if node is None and q in ps and ps.index(q) < len(args):
                node, v = e.args[ps.index(q)], args[ps.index(q)]
            if node is not None:
                need.append((g.qual, v, node, None, False))
        for sink, v, node, tw, has_tw in need:
            self.w.judge(self, sink, v, node, e, tw, has_tw)

    # -- statements
    def put(self, key, v, s):
        s[key] = v

    def bind(self, t, v, s, node):
        key = self.name_of(t)
        if key is not None:
            s[key] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v is not None and v[0] == "tuple" and len(v[1]) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                self.bind(x.value if isinstance(x, ast.Starred) else x,
                          vs[i] if vs else self.new(x, s), s, node)
            return
        if isinstance(t, ast.Subscript):
            self.store(t, v, s, node)

    def assign(self, target, value, s, node):
        v = self.ev(value, s) if value is not None else self.new(target, s)
        if isinstance(target, ast.Subscript):
            self.store(target, v, s, node, value)
            return
        self.bind(target, v, s, node)

    def stmt(self, st, s):
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            v = self.ev(st.value, s)
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                if isinstance(t, ast.Subscript):
                    self.store(t, v, s, st, st.value)
                else:
                    self.bind(t, v, s, st)
            return s
        if isinstance(st, ast.Return):
            v = self.ev(st.value, s) if st.value is not None else ("const", None)
            self.ret.append((st, v, dict(s)))
            self.returns.append((st, s))
            return None
        return super().stmt(st, s)

    def store(self, t, v, s, node, value=None):
        key = self.name_of(t.value)
        i = self.ev(t.slice, s) if isinstance(t.slice, ast.expr) else None
        if key is None:
            self.ev(t.value, s)
            return
        old = s.get(key)
        if old is None:
            old = self.ev(t.value, s)
        new = self.new(node, s, tag="store")
        if v is not None and old is not None:
            if old[0] == "zeros":
                if v in (ONE, ("const", 1.0)) and (i is None or i[0] != "mask"):
                    new = self.new(node, s, "unit", "store")
                elif v[0] in ("unit", "uz", "sub", "zero"):
                    new = self.new(node, s, v[0], "store")
                    if i is not None and i[0] == "mask":
                        new = (new[0], new[1] | {("support", i[1])})
                elif v[0] == "inv" and i is not None and i[0] == "mask" and i[1] == v[1]:
                    new = self.new(node, s, "unit", "store")
                else:
                    new = self.new(node, s, "zs", "store")
            elif old[0] == "zs" and v[0] == "rem" and v[1] == atoms(old) and v[2] in (ONE, ("const", 1.0)):
                new = self.new(node, s, "unit", "store")
            elif value is not None and isinstance(value, ast.BinOp) and isinstance(value.op, ast.Add):
                here = ast.dump(t).replace("Store()", "Load()")
                for x, y in ((value.left, value.right), (value.right, value.left)):
                    if ast.dump(x) == here:
                        yv = self.ev(y, s)
                        if yv and yv[0] == "rem" and yv[1] == atoms(old) and yv[2] in (ONE, ("const", 1.0)):
                            new = self.new(node, s, "unit", "store")
        s[key] = new

    def augassign(self, node, s):
        v = self.ev(node.value, s)
        t = node.target
        key = self.name_of(t)
        if key is None:
            if isinstance(t, ast.Subscript):
                k2 = self.name_of(t.value)
                old = s.get(k2) if k2 else None
                if k2 is not None and old is not None:
                    ok = isinstance(node.op, ast.Add) and v and v[0] == "rem" and v[1] == atoms(old) and v[2] in (
                        ONE, ("const", 1.0))
                    s[k2] = self.new(node, s, "unit" if ok else ("seq"), "aug")
            return
        old = self.ev(t, s) if s.get(key) is None else s[key]
        load = ast.copy_location(ast.BinOp(left=_Const(old), op=node.op, right=_Const(v)), node)
        s[key] = self.e_BinOp(load, s)

    def e__Const(self, e, s):
        return e.v

    def for_bind(self, target, it, s, node):
        v = self.ev(it, s)
        for n in ast.walk(target):
            if isinstance(n, ast.Name):
                s[n.id] = self.new(n, s)

    def handler_bind(self, handler, s):
        if handler.name:
            s[handler.name] = self.new(handler, s)

    def assume(self, test, truth, s):
        op, l, r = None, None, None
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r = self.ev(self.strip(test.left), dict(s)), self.ev(self.strip(test.comparators[0]), dict(s))
            op = type(test.ops[0]).__name__
            if r is not None and r[0] == "sum" and l is not None and l[0] == "const":
                l, r = r, l
                op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        else:
            l, r, op = self.ev(self.strip(test), dict(s)), ("const", 0), "NotEq"
        if l is None or l[0] != "sum" or r is None or r[0] != "const" or not isinstance(r[1], (int, float)):
            if l is not None and l[0] == "count" and r is not None and r[0] == "const" and isinstance(r[1], (int, float)):
                o = op if truth else {"GtE": "Lt", "Gt": "LtE", "Lt": "GtE", "LtE": "Gt", "Eq": "NotEq"}.get(op)
                if (o == "Lt" and r[1] <= 2) or (o == "LtE" and r[1] <= 1) or (o == "Eq" and r[1] in (0, 1)):
                    for k, v in list(s.items()):
                        if v is not None and v[0] == "mask" and v[1] == l[1]:
                            s[k] = ("uz", v[1])  # at most one is selected
            # a parameter that is None
            if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and op in ("Is", "IsNot") and \
                    isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
                v = s.get(test.left.id)
                isnone = truth == (op == "Is")
                if v == ("const", None) and not isnone or v is not None and v[0] in GOOD and isnone:
                    return None
                if isnone:
                    s[test.left.id] = ("const", None)
            return s
        if not truth:
            op = {"Lt": "GtE", "Gt": "LtE", "LtE": "Gt", "GtE": "Lt", "NotEq": "Eq", "Eq": "NotEq"}.get(op)
        c = r[1]
        kind = None
        if op in ("LtE", "Eq", "Lt") and c <= 0:
            kind = "zero"
        elif op in ("LtE", "Lt") and c <= 1:
            kind = "sub"
        elif op == "Eq" and c == 1:
            kind = "unit"
        if kind:
            for k, v in list(s.items()):
                if v is not None and v[0] in ("seq", "zs", "uz", "sub", "par") and atoms(v) == l[1]:
                    if kind == "sub" and v[0] in ("uz",):
                        continue
                    s[k] = (kind, v[1])
        return s

    @staticmethod
    def strip(e):
        return e.value if isinstance(e, ast.NamedExpr) else e


class _Const(ast.expr):
    """An already evaluated operand."""
    _fields = ()

    def __init__(self, v):
        super().__init__()
        self.v = v


class World:
    def __init__(self, p: Program, res: Result):
        self.p, self.res = p, res
        self.calls = Calls(p)
        self.req: dict = {}       # function uid -> set of parameters that have to sum to one
        self.stack = []
        self.memo = {}
        self.attr_memo = {}
        self.report = False
        self.seen = set()
        self.store_memo = {}

    def is_package(self, e, f):
        return any(t.func is not None for t in self.calls.targets(e, f, f.module))

    def required(self, e, f):
        out = []
        for t in self.calls.targets(e, f, f.module):
            if t.func is not None and t.exact and not self.private(t.func):
                for q in sorted(self.req.get(t.func.uid, ())):
                    out.append((t.func, q))
        return out

    def stores(self, g: Func, depth=0, seen=None):
        seen = set() if seen is None else seen
        if g.uid in seen:
            return set()
        seen.add(g.uid)
        if g.uid not in self.store_memo:
            out = {n.attr for n in ast.walk(g.node) if isinstance(n, ast.Attribute)
                   and isinstance(n.ctx, (ast.Store, ast.Del))}
            for n in ast.walk(g.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                    out.add(n.value.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "clear"):
                    out.add(n.func.value.attr)
            self.store_memo[g.uid] = out
        out = set(self.store_memo[g.uid])
        for _, h in self.calls.callees(g):
            out |= self.stores(h, depth + 1, seen)
        return out

    def call(self, fl: Weights, e, args, kws, s, own):
        """The value of a package call, by following it into the body."""
        ts = [t for t in self.calls.targets(e, fl.f, fl.f.module) if t.func is not None and t.exact]
        if len(ts) != 1 or len(self.stack) >= DEPTH:
            return None, None
        g = ts[0].func
        if isinstance(g.node, ast.Lambda) or g.is_generator or g.uid in self.stack or g.name in SINKS:
            return None, None
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None, None
        if "weight" not in ast.unparse(g.node).lower():
            return None, None
        ps = [x for x in g.pos if not (g.has_self and x == g.self_name) and x != "cls"]
        init = {}
        for q, v in zip(ps, args):
            init[q] = v
        for q, v in kws.items():
            if q in g.params:
                init[q] = v
        for q in g.params:
            if q not in init and q in g.defaults:
                init[q] = fl.ev(g.defaults[q], {}) if isinstance(g.defaults[q], ast.Constant) else None
            if init.get(q) is None:
                init[q] = seq("arg", g.key, q)
        if own:
            init.update({k: v for k, v in s.items() if k.startswith("self.")})
        rets, ends = self.body(g, init)
        out = None
        for i, (st, v, _) in enumerate(rets):
            out = v if i == 0 else join_v(out, v)
        tag = (g.key, e.lineno, e.col_offset, "call")
        after = None
        if own and ends:
            after = {}
            for k in set().union(*ends):
                if k.startswith("self."):
                    vs = [x.get(k) for x in ends]
                    v = vs[0]
                    for x in vs[1:]:
                        v = join_v(v, x) if v is not None and x is not None else None
                    if v is not None:
                        after[k] = self.rename(v, tag)
        return (self.rename(out, tag) if out is not None else None), after

    def rename(self, v, tag):
        """Identities of values made inside the callee, told apart per call."""
        def atom(x):
            if isinstance(x, frozenset):
                return frozenset(atom(y) for y in x)
            if isinstance(x, tuple):
                if len(x) == 4 and x[0] == tag[0] and isinstance(x[1], int):
                    return (x, tag)
                return tuple(atom(y) for y in x)
            return x
        return atom(v)

    def body(self, g: Func, init):
        self.stack.append(g.uid)
        was = self.report
        if self.private(g):
            self.followed.add(g.uid)   # a helper: its blends are judged with what its callers hand over
        else:
            self.report = False
        try:
            fl = Weights(self, g, len(self.stack))
            end = fl.run(g.node, init)
            return fl.ret, [x for _, x in fl.returns] + ([end] if end is not None else [])
        finally:
            self.stack.pop()
            self.report = was

    def inner_helper(self, cls, g):
        """A private method that other methods of the class call: it is followed from there."""
        if not g.name.startswith("_") or g.name.startswith("__"):
            return False
        return any(isinstance(n, ast.Attribute) and n.attr == g.name and isinstance(n.ctx, ast.Load)
                   for c in self.p.mro(cls) for h in c.methods.values() if h is not g for n in ast.walk(h.node))

    def attr_kind(self, cls, name):
        """Joined kind of self.<name> over every method that stores it."""
        key = (cls.key, name)
        if key in self.attr_memo:
            return self.attr_memo[key]
        self.attr_memo[key] = ("seq", frozenset())
        out, n = None, 0
        for c in self.p.mro(cls):
            for g in c.methods.values():
                if g.name in ("__init__", "__post_init__"):
                    continue
                if name not in self.stores(g) or self.inner_helper(cls, g):
                    continue
                fl = Weights(self, g, 0)
                init = {q: ("par", frozenset([("p", g.key, q)])) for q in g.params if q != g.self_name}
                was, self.report = self.report, False
                self.stack.append(g.uid)
                end = fl.run(g.node, init)
                self.stack.pop()
                self.report = was
                for s in [x for _, x in fl.returns] + ([end] if end is not None else []):
                    v = s.get("self." + name)
                    if v is None:
                        continue
                    n += 1
                    out = v if out is None else join_v(out, v)
        self.attr_memo[key] = out if n else None
        return self.attr_memo[key]

    def judge(self, fl: Weights, sink, v, node, call, tw, has_tw, extra=()):
        f = fl.f
        if has_tw and v is not None:
            ok = tw is not None and tw[0] == "sum" and tw[1] == atoms(v)
            why = "the total handed to the blend is not the sum of these weights"
        else:
            if v is not None and v[0] == "tuple":
                v = fl.display(list(v[1]), node, {})
            if v is not None and v[0] == "par":
                ps = {a for a in self.params_in(v)}
                for q in ps:
                    if q in f.params:
                        self.req.setdefault(f.uid, set()).add(q)
                ok = True
            elif v is not None and v[0] == "attr" and f.cls is not None:
                k = self.attr_kind(f.cls, v[2])
                ok = k is not None and k[0] in ("unit", "uz", "zero", "zeros") + tuple(extra)
            else:
                ok = v is not None and (v[0] in GOOD or v[0] in extra)
            why = f"are not known to sum to one ({self.text(v)})"
        if not self.report:
            return
        k = (f.uid, call.lineno, call.col_offset, sink)
        old = self.sites.get(k)
        self.sites[k] = (f, sink, node, call, (old[4] if old else True) and ok, why)

    def private(self, g):
        return g.name.startswith("_") and not g.name.startswith("__")

    def remainder(self, fl, v, e):
        if self.report:
            k = (fl.f.uid, e.lineno, e.col_offset)
            ok = v[0] in ("unit", "uz", "sub", "zero", "par", "part")
            self.rest[k] = (fl.f, e, self.rest.get(k, (0, 0, True))[2] and ok, self.text(v))

    def params_in(self, v):
        out = set()

        def go(x):
            if isinstance(x, frozenset) or isinstance(x, tuple):
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "p":
                    out.add(x[2])
                    return
                if isinstance(x, tuple) and len(x) == 3 and x[0] == "sub":
                    go(x[1])
                    return
                for y in x:
                    go(y)
        go(v)
        return out

    @staticmethod
    def text(v):
        return {None: "unknown", "zero": "all zero", "zeros": "all zero", "zs": "some entries set",
                "sub": "at most one", "seq": "raw"}.get(v[0] if v else None, v[0] if v else "unknown")


SHARE = re.compile(r"weight|ratio|fraction|^w_|_w$")


def share(e):
    """1 - A -> text of A"""
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Sub) and isinstance(e.left, ast.Constant) and e.left.value in (
            1, 1.0):
        return ast.dump(e.right)
    return None


def factors(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        return factors(e.left) + factors(e.right)
    return [e]


def pairs(f: Func):
    """Sums a * X + (1 - a) * Y written out by hand: (node, complement, names of the partner's factors)."""
    named = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            named.setdefault(n.targets[0].id, []).append(n.value)

    def open_(x):
        # a named complement stands for its expression
        if isinstance(x, ast.Name) and len(named.get(x.id, ())) == 1 and share(named[x.id][0]) is not None:
            return named[x.id][0]
        return x

    for n in walk_own(f.node):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            twice = {ast.dump(x): x for x in factors(n.left)}
            for x in factors(n.right):
                nm = x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else ""
                if ast.dump(x) in twice and SHARE.search(nm) and len(factors(n.left)) > 1 and len(factors(n.right)) > 1:
                    yield n, None, []
            sides = [[open_(y) for x in (n.left, n.right)[i:i + 1] for y in factors(x)] for i in (0, 1)]
            for a, b in ((0, 1), (1, 0)):
                if len(sides[a]) > 1 and len(sides[b]) == 1 and isinstance(
                        sides[b][0], (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and any(
                        share(x) is not None for x in sides[a]):
                    yield n, None, []  # one part fades in, the other stays whole
            if any(len(x) < 2 for x in sides):
                continue
            for a, b in ((0, 1), (1, 0)):
                for x in sides[a]:
                    sh = share(x)
                    if sh is not None:
                        yield n, sh, [ast.dump(y) for y in sides[b]]


def run(p: Program, tier: str) -> Result:
    res = Result("Every blend of directions, rotations and velocities in the package: the weights handed to it, followed "
                 "from where they are made.")
    res.rules = [
        "weights handed to a directional mean / weighted rotation sum to one (or all vanish), on every path",
        "a normalisation divides by the sum of the same weights; a remainder is one minus the sum of the same weights",
        "functions that promise shares give shares on every return",
        "a blend written out by hand uses complementary factors a and 1 - a",
    ]
    res.assumptions = ["compute_weights of the external avoidance library gives shares that sum to one."]
    w = World(p, res)
    w.sites = {}
    w.rest = {}
    w.followed = set()
    funcs = [f for f in core_funcs(p) if not isinstance(f.node, ast.Lambda) and not is_legacy(f.module)
             and not is_drawing(f)]

    def relevant(f):
        names = {n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                 for n in walk_own(f.node) if isinstance(n, ast.Call)}
        if names & set(SINKS) or f.name in PROMISED or by_hand(f):
            return True
        return any(t.func is not None and t.func.uid in w.req for n in walk_own(f.node) if isinstance(n, ast.Call)
                   for t in w.calls.targets(n, f, f.module))

    def by_hand(f):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
            "sum", "dot", "average") and n.args and len(factors(n.args[0])) > 1 and "weight" in ast.unparse(n)
            for n in walk_own(f.node))

    def analyse(f):
        fl = Weights(w, f, 0, top=True)
        init = {q: ("par", frozenset([("p", f.key, q)])) for q in f.params if q not in (f.self_name, "cls")}
        w.stack = [f.uid]
        end = fl.run(f.node, init)
        w.stack = []
        return fl, end

    # which functions hand a parameter on to a blend
    for _ in range(4):
        before = {k: set(v) for k, v in w.req.items()}
        for f in funcs:
            if relevant(f):
                analyse(f)
        if before == w.req:
            break
    w.report = True
    helpers = {f.uid for f in funcs if w.private(f)}
    rel = [f for f in funcs if relevant(f)]
    callers = {}
    for f in funcs:
        for _, g in w.calls.callees(f):
            if g.uid in helpers and g.uid != f.uid:
                callers.setdefault(g.uid, []).append(f)
    todo = {f.uid: f for f in rel}
    for _ in range(4):
        for u in list(todo):
            if u in helpers:
                for c in callers.get(u, ()):
                    todo.setdefault(c.uid, c)
    order = [f for f in funcs if f.uid in todo and f.uid not in helpers] + [
        f for f in funcs if f.uid in todo and f.uid in helpers]
    for f in order:
        if f.uid in w.followed:
            continue
        res.count("functions analysed")
        fl, end = analyse(f)
        if f.name in PROMISED and f.cls is None or f.name in PROMISED and f.name != "compute_gamma_weights":
            for st, v, _ in fl.ret:
                if v is not None and v[0] == "tuple":
                    v = v[1][0]
                res.count("promised shares")
                res.oblige(f"{f.qual}: shares returned at {st.lineno}")
                if v is None or v[0] not in PROMISED[f.name]:
                    res.add("promised-shares", f"{f.key}", f"{f.module.path}:{st.lineno}",
                            f"{f.qual} promises shares, but what '{ast.unparse(st)[:70]}' returns is not known to sum "
                            f"to one ({w.text(v)})")
    for (uid, _, _, _), (f, sink, node, call, ok, why) in sorted(w.sites.items(), key=lambda kv: kv[0]):
        res.count("blends")
        res.oblige(f"{f.qual}: weights of {sink}")
        if not ok:
            res.add("weights-of-blend", f"{f.key}:{sink}", f"{f.module.path}:{call.lineno}",
                    f"the weights '{ast.unparse(node)[:60]}' {f.qual} hands to {sink} {why}")
    for k, (f, e, ok, why) in sorted(w.rest.items(), key=lambda kv: kv[0]):
        res.count("remainders")
        res.oblige(f"{f.qual}: remainder {ast.unparse(e)[:60]}")
        if not ok:
            res.add("negative-remainder", f"{f.key}", f"{f.module.path}:{e.lineno}",
                    f"'{ast.unparse(e)[:80]}' in {f.qual}: the weights it completes are not known to stay below one ({why})")
    for f in funcs:
        for n, sh, other in pairs(f):
            res.count("complementary pairs")
            res.oblige(f"{f.qual}: {ast.unparse(n)[:50]}")
            if sh not in other:
                res.add("complementary-factors", f"{f.key}", f"{f.module.path}:{n.lineno}",
                        f"'{ast.unparse(n)[:90]}' in {f.qual}: the factors of the two parts are not complementary")
    res.floor("blends", 20)
    res.floor("promised shares", 5)
    return res
