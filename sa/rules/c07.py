"""C07: reference frames.  A dataflow over the kind (point / direction) and the frame (outer frame of an
object / local frame of an object) of every vector, for both settings of the frame flag."""
from __future__ import annotations

import ast
import re

from ..calls import Calls
from ..flow import Flow
from ..index import Func, Program, real_body, walk_own
from ..report import Result
from ..scope import core_funcs, is_legacy

EMPTY = ("0", "0")
FLAGS = ("in_global_frame", "in_obstacle_frame")
POINT_NAMES = {"position", "positions", "pos", "point", "start_position", "surface_point", "relative_position",
               "query_position"}
DIR_NAMES = {"direction", "velocity", "initial_velocity", "base_velocity", "initial_vector",
             "initial_direction", "linearized_velocity", "convergence_velocity"}
# query of an obstacle: (kind of first argument, kind of second argument, kind of the answer)
QUERIES = {
    "get_gamma": ("P", None, None), "is_inside": ("P", None, None), "get_local_radius": ("P", None, None),
    "get_normal_direction": ("P", None, "D"), "get_reference_direction": ("P", None, "D"),
    "get_intersection_with_surface": ("P", "D", "P"), "get_point_on_surface": ("P", None, "P"),
    "get_gamma_except_components": ("P", None, None), "get_reference_point": (None, None, "O"),
    "set_reference_point": ("P", None, None), "project_point_on_surface": ("P", None, "P"),
}
ORIGINS = {"center_position", "global_reference_point"}
TRAFO = re.compile(r"transform_(position|direction|pose|linear_velocity|velocity)_(to|from)_relative$")
OLD = {"transform_global2relative": ("P", "to"), "transform_relative2global": ("P", "from"),
       "transform_global2relative_dir": ("D", "to"), "transform_relative2global_dir": ("D", "from")}
KIND = {"position": "P", "direction": "D", "linear_velocity": "D", "velocity": "D", "pose": "T"}
WORD = {"P": "point", "D": "direction", "O": "point", "T": "pose"}
EVAL = ("evaluate", "avoid", "compute_", "get_tangent", "is_collision_free", "get_projected")
KEEP = {"copy", "array", "asarray", "squeeze", "ravel", "flatten", "atleast_1d", "astype", "reshape", "float64",
        "hstack", "concatenate", "vstack", "stack", "column_stack", "tile", "deepcopy", "append", "list", "tuple"}
SCALAR = re.compile(r"norm|gamma|weight(?!ed)|radius|angle|dist|phase|phi|len|^(arctan2|arccos|arcsin|acos|asin|atan2|dot|inner|vdot|"
                    r"float|int|bool|isclose|allclose|any|all|shape|argmin|argmax|isinstance|is_inside)$")
VECTOR = re.compile(r"^(evaluate|avoid)|direction|velocity|position|point|intersection|tangent")
NORMAL = {"reversed", "enumerate", "zip", "list", "tuple", "sorted"}


def text(e) -> str:
    return ast.unparse(e)


def strip_pose(t: str) -> str:
    return re.sub(r"\._?pose$", "", t)


class Frames(Flow):
    def __init__(self, rule: "Rule", f: Func, flag=None, depth=0):
        super().__init__()
        self.rule, self.f, self.flag, self.depth = rule, f, flag, depth
        self.silent = 0

    # ------------------------------------------------------------------ domain
    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if isinstance(k, str) and k.startswith("~"):
                out[k] = x or y
                continue
            if x == y:
                v = x
            elif x == EMPTY:
                v = y
            elif y == EMPTY:
                v = x
            else:
                v = None
                if isinstance(x, tuple) and isinstance(y, tuple):
                    v = self.jt(x, y)
            if v is not None:
                out[k] = v
            elif isinstance(k, str) and any(isinstance(w, tuple) and w[0] == "G" and w[1] in ("P", "O") for w in (x, y)):
                out["^" + k] = True
        for k in set(a) | set(b):
            if isinstance(k, str) and k.startswith("^"):
                out[k] = True
        return out

    @staticmethod
    def jt(x, y):
        if x is None or y is None:
            return None
        if x == y or y == EMPTY:
            return x
        if x == EMPTY:
            return y
        fr = x[0] if x[0] == y[0] else None
        kd = x[1] if x[1] == y[1] else ("P" if {x[1], y[1]} <= {"P", "O"} else "?")
        return (fr, kd) if fr or kd != "?" else None

    # ------------------------------------------------------------------ helpers
    def say(self, node, what, msg):
        if self.silent:
            return
        self.rule.event(self.f, node, what, msg, self.flag)

    def member(self, e, frame):
        if not self.silent:
            self.rule.member(self.f, e, frame, self.flag)

    def const(self, e, s):
        """Value of a frame flag expression, None if unknown."""
        if isinstance(e, ast.Constant) and (isinstance(e.value, bool) or e.value is None):
            return e.value
        if isinstance(e, ast.Name):
            v = s.get("?" + e.id)
            return {"T": True, "F": False}.get(v)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.const(e.operand, s)
            return None if v is None else not v
        return None

    def cond(self, test, s):
        v = self.const(test, s)
        if v is True:
            return s, None
        if v is False:
            return None, s
        t, f = super().cond(test, s)
        pol, e = True, test
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            pol, e = not pol, e.operand
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.Lt, ast.LtE)):
            pol, e = not pol, e.left
        elif isinstance(e, ast.Call) and text(e.func).endswith("isclose") and e.args:
            pol, e = not pol, e.args[0]
        x = self.normed(e, s)
        zero = f if pol else t
        if x is not None and zero is not None:  # a zero vector has no frame
            for k in (x, "~" + x):
                zero.pop(k, None)
        return t, f

    def normed(self, e, s):
        if isinstance(e, ast.NamedExpr):
            e = e.value
        if isinstance(e, ast.Name):
            return s.get("#" + e.id)
        if isinstance(e, ast.Call) and text(e.func).split(".")[-1] == "norm" and e.args:
            return text(e.args[0])
        return None

    def root(self, e, s):
        while True:
            if isinstance(e, (ast.Attribute, ast.Subscript, ast.Starred)):
                e = e.value
            elif isinstance(e, ast.Call):
                if isinstance(e.func, ast.Attribute):
                    e = e.func.value
                elif e.args:
                    e = e.args[0]
                else:
                    return None
            else:
                break
        if isinstance(e, ast.Name):
            if e.id == self.f.self_name:
                return "self"
            return s.get("@" + e.id)
        return None

    # ------------------------------------------------------------------ expressions
    def expr(self, e, s):
        self.ev(e, s)

    def ev(self, e, s):
        if e is None or isinstance(e, ast.Constant):
            return None
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is not None:
            return m(e, s)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return None

    def ev_Lambda(self, e, s):
        return None

    def ev_Name(self, e, s):
        v = s.get(e.id)
        return v if isinstance(v, tuple) else None

    def ev_NamedExpr(self, e, s):
        v = self.ev(e.value, s)
        self.bind(e.target, v, s, e)
        return v

    def ev_Attribute(self, e, s):
        self.ev(e.value, s)
        v = s.get(text(e))
        if isinstance(v, tuple):
            return v
        if e.attr in ("T",):
            return self.ev(e.value, s)
        if isinstance(e.value, ast.Name) and e.value.id == self.f.self_name and self.f.cls is not None:
            m = self.rule.p.find_method(self.f.cls, e.attr) if hasattr(self.rule.p, "find_method") else None
            if m is not None and m.is_property and m.self_name:
                if m.self_name == self.f.self_name and self.depth < 5:
                    v = self.rule.summary(m, {}, {}, self.depth + 1)[0]
                    if v and v != EMPTY:
                        return v
        own = self.rule.own_frame(self.f)
        member = self.root(e, s) == "self" and not (isinstance(e.value, ast.Name) and e.value.id == self.f.self_name)
        if e.attr == "global_reference_point":
            return ("G", "O")
        if e.attr in ORIGINS:
            return (None, "O") if own and member else ("G", "O")
        if e.attr == "attractor_position":
            return (None, "P") if own else ("G", "P")
        if e.attr == "position" and isinstance(e.value, ast.Attribute) and e.value.attr in ("pose", "_pose"):
            return (None, "O") if own and member and text(e.value.value) != "self" else ("G", "O")
        if e.attr == "local_reference_point":
            return ("L:" + text(e.value), "P")
        if e.attr in ("_local_poses",):
            return ("L:" + text(e.value), "T")
        return None

    def ev_Subscript(self, e, s):
        self.ev(e.slice, s)
        v = self.ev(e.value, s)
        k = s.get(text(e))
        if isinstance(k, tuple):
            return k
        if v == EMPTY:
            return None
        return v

    def ev_Starred(self, e, s):
        return self.ev(e.value, s)

    def ev_Slice(self, e, s):
        return None

    def ev_UnaryOp(self, e, s):
        v = self.ev(e.operand, s)
        if v and isinstance(e.op, ast.USub):
            return self.scaled(v)
        return v if isinstance(e.op, ast.UAdd) else None

    @staticmethod
    def scaled(v):
        if v is None or v == EMPTY:
            return None
        return v if v[1] == "D" else ((v[0], "?") if v[0] and v[0] != "G" else None)

    def ev_IfExp(self, e, s):
        c = self.const(e.test, s)
        self.ev(e.test, s)
        if c is True:
            return self.ev(e.body, s)
        if c is False:
            return self.ev(e.orelse, s)
        a, b = self.ev(e.body, s), self.ev(e.orelse, s)
        return self.jt(a, b) if a and b else None

    def ev_List(self, e, s):
        if not e.elts:
            return EMPTY
        return self.mix([self.ev(x, s) for x in e.elts])

    ev_Tuple = ev_List

    @staticmethod
    def mix(tags):
        """Vector put together from parts; constants and unknown scalars are neutral."""
        known = [t for t in tags if t and t != EMPTY]
        if not known:
            return None
        out = known[0]
        for t in known[1:]:
            out = Frames.jt(out, t)
            if out is None:
                return None
        return out

    def comp(self, e, s):
        s2 = self.copy(s)
        for g in e.generators:
            self.for_bind(g.target, g.iter, s2, e)
            for c in g.ifs:
                self.ev(c, s2)
        if isinstance(e, ast.DictComp):
            self.ev(e.key, s2)
            return self.ev(e.value, s2)
        return self.ev(e.elt, s2)

    ev_ListComp = ev_GeneratorExp = ev_SetComp = ev_DictComp = comp

    def same_owner(self, a, b):
        return a == b or a == "*" or b == "*"

    def clash(self, a, b):
        """Two known frames that differ."""
        if a is None or b is None or a == b:
            return False
        if a.startswith("L:") and b.startswith("L:"):
            return not self.same_owner(a[2:], b[2:])
        return True

    def fr(self, v):
        return "the outer (global) frame" if v == "G" else f"the local frame of '{v[2:]}'"

    def ev_BinOp(self, e, s):
        a, b = self.ev(e.left, s), self.ev(e.right, s)
        a = None if a == EMPTY else a
        b = None if b == EMPTY else b
        op = e.op
        if isinstance(op, (ast.Add, ast.Sub)):
            if a and b:
                self.rule.res.count("sums and differences with known frames")
                fa, fb = a[0], b[0]
                if self.clash(fa, fb):
                    pts = {a[1], b[1]}
                    loc = a if fa != "G" else b
                    glo = b if fa != "G" else a
                    if isinstance(op, ast.Add) and glo[0] == "G" and glo[1] == "O":
                        return ("G", "P")
                    if loc[1] == "?" or "?" in pts:
                        return None
                    self.say(e, "mixed frames",
                             f"'{text(e)[:90]}' combines {self.fr(fa)} ({WORD.get(a[1], 'value')}) with "
                             f"{self.fr(fb)} ({WORD.get(b[1], 'value')})")
                    return None
                frm = fa if fa == fb else (fa if fb and fb.endswith("*") else fb if fa and fa.endswith("*") else None)
                pa, pb = a[1] in ("P", "O"), b[1] in ("P", "O")
                if isinstance(op, ast.Sub):
                    if pa and pb:
                        # subtracting the origin of an object: its (unrotated) local coordinates
                        return (frm, "D")
                    if pa and b[1] == "D":
                        return (frm, "P")
                    if a[1] == "D" and b[1] == "D":
                        return (frm, "D")
                    return (frm, "?") if frm and frm != "G" else None
                if (pa and b[1] == "D") or (pb and a[1] == "D"):
                    return (frm, "P")
                if a[1] == b[1] == "D":
                    return (frm, "D")
                return (frm, "?") if frm and frm != "G" else None
            if isinstance(op, ast.Add) and ("G", "O") in (a, b):
                return ("G", "P")
            return None
        if isinstance(op, (ast.Mult, ast.Div)):
            if a and b:
                return (a[0], "?") if a[0] == b[0] and a[0] and a[0] != "G" else None
            return self.scaled(a or b)
        if isinstance(op, ast.MatMult) and a and b:
            self.dot(e, a, b)
        return None

    def dot(self, e, a, b):
        if a[1] in ("D", "P", "O") and b[1] in ("D", "P", "O") and self.clash(a[0], b[0]):
            self.say(e, "mixed frames", f"product of a vector in {self.fr(a[0])} with one in {self.fr(b[0])}: "
                                        f"'{text(e)[:90]}'")

    # ------------------------------------------------------------------ weak: made from local vectors
    def taint(self, e, s):
        """Owner of the local frame a value seems to be made in (a vector built from local vectors)."""
        if e is None or isinstance(e, (ast.Constant, ast.Compare, ast.BoolOp, ast.Lambda)):
            return None
        v = self.quiet(e, s)
        if v and v != EMPTY and v[0]:
            return v[0][2:] if v[0].startswith("L:") else False
        if isinstance(e, ast.Name):
            return s.get("~" + e.id)
        if isinstance(e, ast.Attribute):
            return s.get("~" + text(e)) if e.attr != "T" else self.taint(e.value, s)
        if isinstance(e, (ast.Subscript, ast.Starred)):
            return self.taint(e.value, s)
        if isinstance(e, ast.UnaryOp):
            return self.taint(e.operand, s)
        if isinstance(e, ast.NamedExpr):
            return self.taint(e.value, s)
        if isinstance(e, ast.BinOp):
            return self.either([e.left, e.right], s)
        if isinstance(e, (ast.List, ast.Tuple)):
            return self.either(e.elts, s)
        if isinstance(e, ast.IfExp):
            c = self.const(e.test, s)
            return self.either([e.body] if c is True else [e.orelse] if c is False else [e.body, e.orelse], s)
        if isinstance(e, ast.Call):
            name = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            if SCALAR.search(name) or TRAFO.match(name) or name in OLD:
                return None
            if name.endswith("_like"):
                return None
            c = self.callee(e)
            if c is not None:
                ws = {p: self.taint(a, s) for p, a in c[2].items()}
                if not any(ws.values()):
                    return next((False for w in ws.values() if w is False), None)
                self.silent += 1
                try:
                    return self.enter(c, {p: self.ev(a, self.copy(s)) for p, a in c[2].items()}, ws, s)[1]
                finally:
                    self.silent -= 1
            parts = list(e.args) + [k.value for k in e.keywords]
            if isinstance(e.func, ast.Attribute) and not self._np(e.func):
                parts.append(e.func.value)
            return self.either(parts, s)
        return None

    def either(self, parts, s):
        ts = [self.taint(x, s) for x in parts]
        if False in ts:
            return False
        return next((t for t in ts if t), None)

    def quiet(self, e, s):
        """Value of an expression evaluated elsewhere (whatever there is to report is reported there)."""
        self.silent += 1
        try:
            return self.ev(e, self.copy(s))
        finally:
            self.silent -= 1

    # ------------------------------------------------------------------ calls
    def arg(self, e, i, *names):
        for k in e.keywords:
            if k.arg in names:
                return k.value
        if i < len(e.args) and not any(isinstance(x, ast.Starred) for x in e.args[: i + 1]):
            return e.args[i]
        return None

    def ev_Call(self, e, s):
        tags = [self.ev(a, s) for a in e.args]
        kw = {k.arg: self.ev(k.value, s) for k in e.keywords}
        fn = e.func
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if name is None:
            self.ev(fn, s)
            return None
        if isinstance(fn, ast.Attribute):
            rv = self.ev(fn.value, s)
            m = TRAFO.match(name)
            if m or name in OLD:
                kind, way = (KIND[m.group(1)], m.group(2)) if m else OLD[name]
                owner = strip_pose(text(fn.value))
                a = tags[0] if tags else (next(iter(kw.values()), None))
                return self.transform(e, kind, way, owner, a)
            if name in QUERIES:
                r = self.query(e, name, s)
                if r is not False:
                    return r
            if name == "append" and tags:
                k = text(fn.value)
                t = self.taint(e.args[0], s)
                if t:
                    s["~" + k] = t
                cur = s.get(k)
                if k.endswith("_local_poses") and tags[0] and tags[0][1] == "T" and tags[0][0] == "G":
                    self.say(e, "local pose list", f"a pose in the outer frame is stored in '{k}'")
                v = tags[0] if cur == EMPTY else (self.jt(cur, tags[0]) if cur and tags[0] else None)
                if v:
                    s[k] = v
                else:
                    s.pop(k, None)
                return None
            if name in ("evaluate", "evaluate_convergence_around_obstacle", "avoid") and not self._np(fn):
                a = tags[0] if tags else kw.get("position")
                if a and a != EMPTY:
                    if a[1] == "D" and a[0] and a[0].startswith("L:"):
                        pass
                    return (a[0], "D")
                return (None, "D")
            if name in KEEP:
                if self._np(fn):
                    return self.mix(tags)
                return rv  # method of the array itself
            if name in ("dot", "inner", "vdot") and len(tags) == 2 and tags[0] and tags[1]:
                self.dot(e, tags[0], tags[1])
                return None
            if name == "cross" and len(tags) == 2 and tags[0] and tags[1]:
                self.dot(e, tags[0], tags[1])
                return None
        elif name in KEEP or name in NORMAL:
            return self.mix(tags)
        ts = [t for t in tags + list(kw.values()) if t and t != EMPTY and t[0] and t[1] != "T"]
        if VECTOR.search(name) and len(ts) > 1:
            self.rule.res.count("calls with several vectors")
            for t in ts[1:]:
                if self.clash(ts[0][0], t[0]):
                    self.say(e, "mixed frames", f"'{text(e)[:90]}' gets a vector in {self.fr(ts[0][0])} and one in "
                                                f"{self.fr(t[0])}")
        return self.descend(e, tags, kw, s)

    def _np(self, fn):
        return isinstance(fn.value, ast.Name) and fn.value.id in ("np", "numpy", "copy", "math", "LA")

    def transform(self, e, kind, way, owner, a):
        self.rule.res.count("conversions between frames")
        self.rule.ob(self.f, e)
        x = e.args[0] if e.args else None
        if (not a or a == EMPTY or a[1] == "?") and isinstance(x, ast.Name):
            isdir = bool(re.search(r"direction|velocity|normal|tangent", x.id))
            ispos = bool(re.search(r"position|point", x.id))
            if isdir != ispos and kind in ("P", "D") and isdir == (kind == "P"):
                self.say(e, "kind", f"a {'direction' if isdir else 'point'} is converted as a {WORD[kind]}: "
                                    f"'{text(e)[:100]}'")
        if a and a != EMPTY:
            k = "P" if a[1] == "O" else a[1]
            if k in ("P", "D", "T") and k != kind:
                self.say(e, "kind", f"a {WORD[k]} is converted as a {WORD[kind]}: '{text(e)[:100]}'")
            fr = a[0]
            if fr:
                if way == "to" and fr.startswith("L:") and fr[2:] == owner:
                    self.say(e, "converted twice", f"already in the local frame of '{owner}': '{text(e)[:100]}'")
                if way == "from" and fr == "G" and a[1] != "D":
                    self.say(e, "converted twice", f"already in the outer frame: '{text(e)[:100]}'")
                if way == "from" and fr.startswith("L:") and not self.same_owner(fr[2:], owner):
                    self.say(e, "wrong owner", f"value in {self.fr(fr)} is converted with the pose of '{owner}': "
                                               f"'{text(e)[:100]}'")
        return ("G" if way == "from" else "L:" + owner, kind)

    def query(self, e, name, s):
        want1, want2, ret = QUERIES[name]
        fn = e.func
        recv = text(fn.value)
        if self._np(fn) or recv in ("super()",):
            return False
        targets = self.rule.calls.targets(e, self.f, self.f.module)
        funcs = [t for t in targets if t.func is not None]
        # which frame is asked for
        flag, given = None, False
        for k in e.keywords:
            if k.arg == "in_global_frame":
                flag, given = self.const(k.value, s), True
            elif k.arg == "in_obstacle_frame":
                v = self.const(k.value, s)
                flag, given = (None if v is None else not v), True
            elif k.arg is None:
                given = True
        if not given:
            for a in e.args[(1 if want1 else 0):]:
                if isinstance(a, ast.Name) and a.id in FLAGS or isinstance(a, ast.Constant) and isinstance(a.value, bool):
                    flag, given = self.const(a, s), True
                    if flag is not None and isinstance(a, ast.Name) and a.id == "in_obstacle_frame":
                        flag = not flag
        if not given:
            exact = [t.func for t in funcs if t.exact]
            if exact:
                vals = set()
                for g in exact:
                    if "in_global_frame" in g.defaults:
                        d = g.defaults["in_global_frame"]
                        vals.add(d.value if isinstance(d, ast.Constant) else None)
                    elif "in_global_frame" not in g.params:
                        vals.add("none")
                flag = vals.pop() if len(vals) == 1 else None
                if flag == "none":
                    flag = True if name not in ("get_normal_direction",) else None
            else:
                flag = False  # an obstacle answers in its own frame unless told otherwise
        a1 = self.arg(e, 0, "position", "start_position", "reference_position") if want1 else None
        a2 = self.arg(e, 1, "direction") if want2 else None
        frame = None
        self.rule.res.count("queries of an obstacle")
        self.rule.ob(self.f, e)
        rooted = self.root(fn.value, s) == "self" and recv != self.f.self_name
        for a, want in ((a1, want1), (a2, want2)):
            v = self.ev(a, s) if a is not None else None
            if not v or v == EMPTY:
                continue
            k = "P" if v[1] == "O" else v[1]
            if k in ("P", "D") and k != want and not (k == "D" and flag is False):
                # (a displacement from the origin is a legal local position)
                self.say(e, "kind", f"a {WORD[k]} is passed where {name} expects a {WORD[want]}: '{text(e)[:100]}'")
            fr = v[0]
            frame = frame or fr
            if fr is None or flag is None:
                continue
            if flag is False and fr == "G" and k == "P":
                self.say(e, "global position, local question",
                         f"'{text(e)[:100]}' hands a position in the outer frame to a query in the obstacle's "
                         f"own frame" + ("" if given else " (no frame flag given)"))
            if flag is True and fr.startswith("L:"):
                if rooted and self.f.cls is not None and fr[2:] in ("self", "*"):
                    self.member(e, "L")
                elif fr[2:] == recv or fr[2:] == "*" or not rooted:
                    self.say(e, "local position, global question",
                             f"'{text(e)[:100]}' hands a position in {self.fr(fr)} to a query in the outer frame")
            elif flag is True and fr == "G" and rooted and self.f.cls is not None:
                self.member(e, "G")
        if ret is None:
            return None
        if flag is True:
            return (frame or ("G" if not (rooted and self.rule.own_frame(self.f)) else None), ret)
        if flag is False:
            return ("L:" + recv, "P" if ret == "O" else ret)
        return (None, ret)

    def callee(self, e):
        ts = [t for t in self.rule.calls.targets(e, self.f, self.f.module) if t.func is not None and t.exact]
        if len(ts) != 1 or self.depth >= 5:
            return None
        g = ts[0].func
        if g.is_property or g.is_generator or isinstance(g.node, ast.Lambda):
            return None
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            return None
        recv = text(e.func.value) if isinstance(e.func, ast.Attribute) and g.has_self and ts[0].bound else None
        argtext = dict(zip(g.params, e.args))
        argtext.update({k.arg: k.value for k in e.keywords})
        return g, recv, argtext

    def enter(self, c, tag, weak, s):
        """-> tag and owner of the answer of a package function, for these arguments."""
        g, recv, argtext = c
        consts = {}
        for fl in FLAGS:
            if fl in g.params:
                consts[fl] = self.const(argtext[fl], s) if fl in argtext else (
                    g.defaults[fl].value if isinstance(g.defaults.get(fl), ast.Constant) else None)

        def owner_in(o):
            for p, a in argtext.items():
                if text(a) == o:
                    return p
            if recv is not None and o == recv:
                return "self"
            if recv == "self" and o.startswith("self."):
                return o
            return "*"

        def owner_out(o):
            if o in argtext:
                return text(argtext[o])
            if recv is not None and o == "self":
                return recv
            if recv == "self" and o.startswith("self."):
                return o
            return "*"

        def into(fr):
            return "L:" + owner_in(fr[2:]) if fr and fr.startswith("L:") else fr

        seed = {p: (into(tag[p][0]), tag[p][1]) for p in argtext if tag.get(p) and tag[p] != EMPTY}
        roots = {"@" + p: "self" for p, a in argtext.items()
                 if recv == self.f.self_name and recv is not None and (
                     self.root(a, s) == "self" or isinstance(a, ast.Constant) and a.value is None)}
        roots.update({"~" + p: owner_in(o) for p, o in weak.items() if o and p not in seed})
        r, w = self.rule.summary(g, seed, consts, self.depth + 1, roots)
        if r and r != EMPTY and r[0] and r[0].startswith("L:"):
            r = ("L:" + owner_out(r[0][2:]), r[1])
        return (None if r == EMPTY else r), (owner_out(w) if w else w)

    def descend(self, e, tags, kw, s):
        c = self.callee(e)
        if c is None:
            return None
        g, recv, argtext = c
        tag = dict(zip(g.params, tags))
        tag.update(kw)
        if not any(t and t != EMPTY and t[0] for t in tag.values()) and g.has_self:
            return None
        return self.enter(c, tag, {}, s)[0]

    # ------------------------------------------------------------------ statements
    def bind(self, target, v, s, node):
        if isinstance(target, (ast.Tuple, ast.List)):
            for t in target.elts:
                self.bind(t, None, s, node)
            return
        if isinstance(target, ast.Starred):
            target = target.value
        if isinstance(target, ast.Subscript):
            base = text(target.value)
            cur = s.get(base)
            full = isinstance(target.slice, ast.Slice) and target.slice.lower is None and target.slice.upper is None
            if v and (cur is None or cur == EMPTY or full):
                s[base] = v
            elif cur and v:
                j = self.jt(cur, v)
                if j:
                    s[base] = j
                else:
                    s.pop(base, None)
            return
        k = text(target)
        for o in [o for o in s if isinstance(o, str) and (o.startswith(k + ".") or o.startswith(k + "["))]:
            s.pop(o)
        if isinstance(target, ast.Attribute):
            if target.attr in ("pose", "_pose") and v and v[1] == "T" and v[0] and v[0].startswith("L:"):
                if not self.rule.own_frame(self.f) and text(target.value) != v[0][2:]:
                    self.say(node, "local pose assigned",
                             f"'{k}' gets a pose that is still in {self.fr(v[0])}")
        for c in "@~#^":
            s.pop(c + k, None)
        for o in [o for o, w in s.items() if w == k and o.startswith("#")]:
            s.pop(o)
        if v:
            s[k] = v
        else:
            s.pop(k, None)

    def assign(self, target, value, s, node):
        t = self.taint(value, s) if value is not None and isinstance(
            target, (ast.Name, ast.Attribute, ast.Subscript)) else None
        self.assign0(target, value, s, node)
        if t:
            k = text(target.value) if isinstance(target, ast.Subscript) else text(target)
            s["~" + k] = t
        if isinstance(target, ast.Name) and isinstance(value, ast.Call):
            x = self.normed(value, s)
            if x:
                s["#" + target.id] = x

    def assign0(self, target, value, s, node):
        c = self.const(value, s) if value is not None else None
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(
                target.elts) == len(value.elts):
            vs = [self.ev(v, s) for v in value.elts]
            for t, v in zip(target.elts, vs):
                self.bind(t, v, s, node)
            return
        v = self.ev(value, s) if value is not None else None
        root = self.root(value, s) if isinstance(value, (
            ast.Name, ast.Attribute, ast.Subscript, ast.Call)) else None
        self.bind(target, v, s, node)
        if isinstance(target, ast.Name):
            s.pop("?" + target.id, None)
            if isinstance(c, bool):
                s["?" + target.id] = "T" if c else "F"
            if root == "self":
                s["@" + target.id] = "self"

    def augassign(self, node, s):
        fake = ast.copy_location(ast.BinOp(left=node.target, op=node.op, right=node.value), node)
        load = ast.copy_location(ast.BinOp(left=ast.parse(text(node.target), mode="eval").body, op=node.op,
                                           right=node.value), node)
        ast.fix_missing_locations(load)
        for n in ast.walk(load.left):
            n.lineno = node.lineno
        v = self.ev(load, s)
        del fake
        if isinstance(node.target, ast.Subscript):
            return
        t = self.taint(load, s)
        self.bind(node.target, v, s, node)
        if t:
            s["~" + text(node.target)] = t

    def for_bind(self, target, it, s, node):
        src = it
        while isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id in (
                "enumerate", "reversed", "list", "tuple", "sorted") and src.args:
            inner = src
            src = src.args[0]
            if inner.func.id == "enumerate" and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2:
                self.bind(target.elts[0], None, s, node)
                target = target.elts[1]
        if isinstance(src, ast.Call) and isinstance(src.func, ast.Name) and src.func.id == "zip" and isinstance(
                target, (ast.Tuple, ast.List)) and len(target.elts) == len(src.args):
            for t, a in zip(target.elts, src.args):
                self.bind1(t, a, s, node)
            return
        self.bind1(target, src, s, node)

    def bind1(self, target, src, s, node):
        v = self.ev(src, s)
        r = self.root(src, s)
        self.bind(target, None if v == EMPTY else v, s, node)
        if r == "self" and isinstance(target, ast.Name):
            s["@" + target.id] = "self"


class Rule:
    def __init__(self, p: Program, res: Result):
        self.p, self.res = p, res
        self.calls = Calls(p)
        self.events: dict = {}
        self.memo: dict = {}
        self.members: dict = {}
        self.obs: set = set()
        self._own: dict = {}

    def own_frame(self, f: Func) -> bool:
        """Members of this class live in the class' own local frame (it converts before asking them)."""
        c = f.cls
        if c is None:
            return False
        if c.key not in self._own:
            self._own[c.key] = any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in OLD
                and isinstance(n.func.value, ast.Name) and n.func.value.id == m.self_name
                for k in self.p.mro(c) for m in k.methods.values() for n in walk_own(m.node))
        return self._own[c.key]

    def has_pose(self, f: Func) -> bool:
        """The class has a local frame at all."""
        if f.cls is None:
            return True
        if self.p.external_bases(f.cls):
            return True
        names = {"pose", "_pose", "center_position", "orientation"}
        for k in self.p.mro(f.cls):
            if names & (set(k.instance_attrs) | set(k.annotations) | set(k.class_attrs) | set(k.methods)):
                return True
        return False

    def ob(self, f, node):
        k = (f.uid, node.lineno, node.col_offset)
        if k not in self.obs:
            self.obs.add(k)
            self.res.oblige(f"{f.qual}: {text(node)[:80]}")

    def event(self, f, node, what, msg, flag):
        k = (f.uid, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), what)
        self.events.setdefault(k, (f, node, what, msg, flag))

    def member(self, f, node, frame, flag):
        if not self.has_pose(f):
            return
        self.members.setdefault(f.cls.key, {}).setdefault(frame, []).append((f, node, flag))

    def summary(self, g: Func, seed: dict, consts: dict, depth: int, roots=None):
        key = (g.uid, tuple(sorted(seed.items(), key=str)), tuple(sorted(consts.items(), key=str)),
               tuple(sorted(roots.items())) if roots else ())
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = (None, None)
        r = self.go(g, seed, consts, depth, roots=roots)
        self.memo[key] = (r, next((w for _, _, w in self.last if w), None))
        return self.memo[key]

    def go(self, g, seed, consts, depth, flag=None, roots=None):
        fl = Frames(self, g, flag, depth)
        s = {k: v for k, v in seed.items() if v and (v[0] or v[1] != "?")}
        for k, v in consts.items():
            if v is True:
                s["?" + k] = "T"
            elif v is False:
                s["?" + k] = "F"
        s.update(roots or {})
        fl.run(g.node, s)
        out, first = None, True
        self.last = []
        rets = []
        for st, rs in fl.returns:
            v = fl.ev(st.value, rs) if st.value is not None else None
            none = st.value is None or isinstance(st.value, ast.Constant)
            rets.append((st, v, None if none else fl.taint(st.value, rs)))
            if none:
                continue
            if first:
                out, first = v, False
            else:
                out = Frames.jt(out, v) if out and v else None
        self.last = rets
        self.outer = [st for st, rs in fl.returns if isinstance(st.value, ast.Name) and rs.get("^" + st.value.id)]
        return out

    def top(self, f: Func):
        flags = [x for x in f.params if x in FLAGS]
        self.res.count("functions analysed")
        if flags and not isinstance(f.node, ast.Lambda):
            read = {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            body = real_body(f.node)
            trivial = all(isinstance(b, (ast.Pass, ast.Raise)) for b in body)
            for fl in flags:
                if fl not in read and not trivial and self.has_pose(f):
                    self.event(f, f.node, "flag ignored", f"'{fl}' is accepted but has no effect", None)
            for val in (True, False):
                glob = val if flags[0] == "in_global_frame" else not val
                owner = "self" if f.has_self and flags[0] == "in_global_frame" else "*"
                fr = "G" if glob else "L:" + owner
                seed = {}
                for q in f.params:
                    if q in POINT_NAMES or q.endswith("_position"):
                        seed[q] = (fr, "P")
                    elif q in DIR_NAMES:
                        seed[q] = (fr, "D")
                self.go(f, seed, {flags[0]: val}, 0, flag=val)
                kinds = {}
                for st, v, weak in self.last:
                    if v and v != EMPTY and v[1] != "?" and v[0] == "G":
                        kinds.setdefault("P" if v[1] in ("P", "O") else v[1], st)
                if len(kinds) > 1 and f.name != "get_initial_direction":
                    st = kinds.get("D")
                    self.event(f, st, "kind", f"'{text(st.value)[:70]}' is a displacement, other answers of the same "
                                              f"question are points in the outer frame", val)
                if not glob:
                    for st in self.outer:
                        self.event(f, st, "answer in the outer frame",
                                   f"asked in the local frame ({flags[0]}={val}) the answer '{text(st.value)[:70]}' "
                                   f"may still be a point in the outer frame", val)
                for st, v, weak in self.last:
                    if glob and weak and VECTOR.search(f.name):
                        self.event(f, st, "answer left in the local frame",
                                   f"asked in the outer frame ({flags[0]}={val}) the answer '{text(st.value)[:70]}' "
                                   f"is made in the local frame of '{weak}' and not converted", val)
                    if not v or v == EMPTY or v[0] is None:
                        continue
                    self.ob(f, st)
                    if glob and v[0].startswith("L:"):
                        self.event(f, st, "answer left in the local frame",
                                   f"asked in the outer frame ({flags[0]}={val}) the answer '{text(st.value)[:70]}' "
                                   f"is in the local frame of '{v[0][2:]}'", val)
                    if not glob and v[0] == "G" and v[1] in ("P", "O"):
                        self.event(f, st, "answer in the outer frame",
                                   f"asked in the local frame ({flags[0]}={val}) the answer '{text(st.value)[:70]}' "
                                   f"is a point in the outer frame", val)
            return
        asked = f.name.startswith(EVAL) and f.parent is None
        seed = {}
        for q in f.params:
            if q in POINT_NAMES - {"relative_position"} or (q.endswith("_position") and not q.startswith(
                    ("local", "relative", "transformed"))):
                seed[q] = ("G" if asked else None, "P")
            elif q in DIR_NAMES:
                seed[q] = ("G" if asked else None, "D")
        self.go(f, seed, {}, 0)
        if asked:
            for st, v, weak in self.last:
                if weak and VECTOR.search(f.name):
                    self.event(f, st, "answer left in the local frame",
                               f"the answer '{text(st.value)[:70]}' is made in the local frame of '{weak}' and not "
                               f"converted, the question was asked in the outer frame", None)
                if not v or v == EMPTY or v[0] is None:
                    continue
                self.ob(f, st)
                if v[0].startswith("L:"):
                    self.event(f, st, "answer left in the local frame",
                               f"the answer '{text(st.value)[:70]}' is in the local frame of '{v[0][2:]}', the "
                               f"question was asked in the outer frame", None)
                elif f.name == "evaluate" and v[1] in ("P", "O"):
                    self.event(f, st, "kind", f"a point '{text(st.value)[:70]}' is answered where a velocity is "
                                              f"expected", None)


def run(p: Program, tier: str) -> Result:
    res = Result("Frame and kind (point / direction) of every vector, followed through assignments, conversions, "
                 "queries and package calls, for both settings of the frame flag.")
    res.rules = [
        "a position in the outer frame goes to a query asked in the outer frame, a local one to a local query",
        "a point is converted as a point, a direction as a direction, once, with the pose it belongs to",
        "values of different frames are not added, subtracted or multiplied",
        "the answer is in the frame of the question; the frame flag is used",
        "components are asked in one and the same frame whatever the flag",
    ]
    res.assumptions = ["an external obstacle answers in its own frame unless in_global_frame=True is given",
                       "parameters named position / direction hold what they say"]
    r = Rule(p, res)
    for f in core_funcs(p):
        if isinstance(f.node, ast.Lambda) or f.is_abstract or (f.cls is not None and f.cls.is_protocol):
            continue
        if f.name.startswith(("test_", "_test_", "plot_", "_plot_")):
            continue
        r.top(f)
        parts_lifted(p, f, res)
    for f, node, what, msg, flag in r.events.values():
        res.add(what, f"{f.key}", f"{f.module.path}:{getattr(node, 'lineno', 0)}",
                msg + (f" [frame flag {flag}]" if flag is not None else ""))
    for ck, d in sorted(r.members.items()):
        if len(d) > 1:
            f, node, flag = min(d["L"], key=lambda x: (x[0].node.lineno, x[1].lineno))
            f2, node2, flag2 = d["G"][0]
            few = d["L"] if len(d["L"]) <= len(d["G"]) else d["G"]
            f, node, flag = few[0]
            res.add("components asked in two frames", f"{f.key}", f"{f.module.path}:{node.lineno}",
                    f"'{text(node)[:80]}' (frame flag {flag}) asks the components in another frame than the rest "
                    f"of {ck.split(':')[-1]}")
    res.count("classes holding components", len(r.members))
    res.floor("functions analysed", 250)
    res.floor("queries of an obstacle", 60)
    res.floor("conversions between frames", 10)
    res.floor("sums and differences with known frames", 40)
    return res


class Lift(Flow):
    """A part handed in with its local pose is lifted into the outer frame before it meets other parts."""

    def __init__(self, p, f, parts):
        super().__init__()
        self.p, self.f, self.parts = p, f, parts
        self.bad = []
        self.depth = 0

    def copy(self, s):
        return {"raw": set(s["raw"]), "mine": set(s["mine"])}

    def join(self, a, b):
        return {"raw": a["raw"] | b["raw"], "mine": a["mine"] | b["mine"]}

    def part_of_self(self, e, s):
        """The expression names a component the object already holds."""
        if isinstance(e, ast.Name):
            return e.id in s["mine"]
        me = self.f.self_name
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and (
                    n.attr in HOLDERS or n.attr in ("get_component", "get_root", "root")):
                return True
        return False

    def expr(self, e, s):
        if e is None:
            return
        for c in ast.walk(e):
            if not isinstance(c, ast.Call):
                continue
            args = list(c.args) + [k.value for k in c.keywords]
            raw = [a.id for a in args if isinstance(a, ast.Name) and a.id in s["raw"]]
            if raw and any(self.part_of_self(a, s) for a in args):
                self.bad.append((c, f"'{raw[0]}' still has its local pose where it is compared with a component in the "
                                    "outer frame"))
            fn = c.func
            if raw and isinstance(fn, ast.Attribute):
                if isinstance(fn.value, ast.Name) and fn.value.id == self.f.self_name:
                    g = self.p.find_method(self.f.cls, fn.attr)
                    if g is not None and g.name.startswith("_") and not g.name.startswith("__"):
                        # a helper does part of the work: go on there
                        ps = [x for x in g.pos if x != g.self_name]
                        into = {ps[k]: a.id for k, a in enumerate(c.args) if k < len(ps)
                                and isinstance(a, ast.Name)}
                        into.update({k.arg: k.value.id for k in c.keywords if isinstance(k.value, ast.Name)})
                        still = self.inside(g, {q for q, x in into.items() if x in s["raw"]},
                                            {q for q, x in into.items() if x in s["mine"]})
                        for q, x in into.items():
                            if q not in still:
                                s["raw"].discard(x)
                    elif g is not None and lifts(g):
                        for x in raw:
                            s["raw"].discard(x)

    def inside(self, g, raw, mine):
        if self.depth > 4 or isinstance(g.node, ast.Lambda):
            return set()
        sub = Lift(self.p, g, raw)
        sub.depth = self.depth + 1
        end = sub.run(g.node, {"raw": set(raw), "mine": set(mine)})
        self.bad += sub.bad
        return {x for o in [s for _, s in sub.returns] + ([end] if end is not None else []) for x in o["raw"]}

    def assign(self, target, value, s, node):
        if isinstance(target, ast.Attribute) and target.attr == "pose" and isinstance(target.value, ast.Name):
            x = target.value.id
            if value is not None and outward(value):
                s["raw"].discard(x)
            elif x in self.parts:
                s["raw"].add(x)
        elif isinstance(target, ast.Name):
            s["raw"].discard(target.id)
            s["mine"].discard(target.id)
            if value is not None:
                if self.part_of_self(value, s) and isinstance(value, (ast.Call, ast.Subscript)):
                    s["mine"].add(target.id)
                elif isinstance(value, ast.Name) and value.id in s["raw"]:
                    s["raw"].add(target.id)


HOLDERS = ("_obstacle_list", "obstacle_list", "_obstacles")


def outward(value):
    return any(isinstance(n, ast.Attribute) and n.attr == "transform_pose_from_relative" for n in ast.walk(value)) or \
        isinstance(value, ast.Name)


def lifts(g):
    return not isinstance(g.node, ast.Lambda) and any(
        isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == "pose" and
        isinstance(n.value, ast.Name) and n.value.id in g.params for n in ast.walk(g.node))


def is_helper(f):
    return f.name.startswith("_") and not f.name.startswith("__")


def parts_of(p, f, depth=0):
    """Parameters that end up in the list of components, also through helpers."""
    parts = set()
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
            continue
        if n.func.attr in ("append", "insert") and isinstance(n.func.value, ast.Attribute) and \
                n.func.value.attr in HOLDERS:
            parts |= {a.id for a in n.args if isinstance(a, ast.Name) and a.id in f.params}
        elif isinstance(n.func.value, ast.Name) and n.func.value.id == f.self_name and f.cls is not None and depth < 4:
            g = p.find_method(f.cls, n.func.attr)
            if g is not None and is_helper(g) and not isinstance(g.node, ast.Lambda):
                inner = parts_of(p, g, depth + 1)
                ps = [x for x in g.pos if x != g.self_name]
                for q, a in list(zip(ps, n.args)) + [(k.arg, k.value) for k in n.keywords]:
                    if q in inner and isinstance(a, ast.Name) and a.id in f.params:
                        parts.add(a.id)
    return parts


def parts_lifted(p, f, res):
    """Methods of a multi-body obstacle that take in a part."""
    if isinstance(f.node, ast.Lambda) or is_helper(f):
        return
    parts = parts_of(p, f)
    if not parts or f.cls is None or not any(
            "_local_poses" in k.instance_attrs or "_local_poses" in k.annotations for k in p.mro(f.cls)):
        return
    res.count("parts taken in")
    fl = Lift(p, f, parts)
    end = fl.run(f.node, {"raw": set(parts), "mine": set()})
    seen = set()
    for c, msg in fl.bad:
        if (c.lineno, c.col_offset) not in seen:
            seen.add((c.lineno, c.col_offset))
            res.add("part in its local frame", f.key, f"{f.module.path}:{c.lineno}", msg)
    outs = [s for _, s in fl.returns] + ([end] if end is not None else [])
    for x in sorted(parts):
        res.oblige(f"{f.qual}: '{x}' is lifted into the outer frame before it is used there")
        if any(x in s["raw"] for s in outs):
            res.add("part in its local frame", f"{f.key}:{x}", f.where,
                    f"{f.qual} keeps '{x}' without lifting its pose into the outer frame on every path")
