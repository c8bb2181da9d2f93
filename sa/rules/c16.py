"""C16: a constructed object is complete and its own.

Definite assignment of attributes over every path of the constructors (own, inherited, helpers and property setters
they call), must-assigned-before-read of attributes that are filled later, and sharing of mutable defaults.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..flow import Flow
from ..index import Func, Program, real_body, walk_own
from ..report import Result
from ..scope import is_legacy, is_offline

MUTATORS = {"append", "extend", "insert", "add", "update", "remove", "pop", "clear", "sort", "setdefault", "discard"}


# what the classes of the avoidance library and of vartools give to the classes derived from them
OBSTACLE = {"pose", "position", "center_position", "orientation", "rotation", "linear_velocity", "angular_velocity", "twist",
            "reference_point", "local_reference_point", "global_reference_point", "is_boundary", "is_dynamic",
            "is_deforming", "margin_absolut", "distance_scaling", "dimension", "dim", "repulsion_coeff", "reactivity",
            "name", "color", "tail_effect", "sigma", "shape", "timestamp", "boundary_points", "at_position_expanding",
            "transform_global2relative", "transform_relative2global", "transform_global2relative_dir",
            "transform_relative2global_dir", "has_moved", "global_edge_points", "inverted"}
SYSTEM = {"attractor_position", "center_position", "dimension", "maximum_velocity", "pose", "position", "A_matrix",
          "linear_velocity"}
INHERITED = {"Obstacle": OBSTACLE, "DynamicalSystem": SYSTEM, "Dynamics": SYSTEM, "object": set(), "ABC": set(),
             "BaseAvoider": {"initial_dynamics", "obstacle_environment", "convergence_dynamics", "maximum_speed", "dimension",
                             "attractor", "attractor_position"},
             "BaseContainer": {"_obstacle_list", "n_obstacles", "dimension", "list", "index_wall"}}


class Assigned(Flow):
    """Attributes of self that are certainly set (intersection at merges) and possibly set (union)."""

    def __init__(self, world, cls, f: Func, depth=0, me=None):
        super().__init__()
        self.w, self.cls, self.f, self.depth, self.me = world, cls, f, depth, me
        self.early = {}  # attribute -> node of a read while it is not certainly set

    def copy(self, s):
        return {"must": set(s["must"]), "may": set(s["may"]), "has": set(s["has"])}

    def join(self, a, b):
        return {"must": a["must"] & b["must"], "may": a["may"] | b["may"], "has": a["has"] & b["has"]}

    def loop_runs_at_least_once(self, node, s):
        # whether a collection is empty is a matter of the data, not of the constructor
        return True

    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id == (self.me or self.f.self_name)

    def put(self, x, s):
        setter = self.w.p.find_setter(self.cls, x)
        if setter is not None:
            self.inline(setter, s)
            s["must"].add(x)
            s["may"].add(x)
            return
        s["must"].add(x)
        s["may"].add(x)

    def inline(self, g: Func, s):
        must, may, early = self.w.summary(self.cls, g, self.depth + 1)
        for x, n in early.items():
            if x not in s["must"] and x not in s["has"]:
                self.early.setdefault(x, n)
        s["must"] |= must
        s["may"] |= may

    def expr(self, e, s):
        if e is None:
            return
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(e, ast.BoolOp):
            # the parts after the first one may not be evaluated
            self.expr(e.values[0], s)
            c = self.copy(s)
            for v in e.values[1:]:
                if isinstance(e.op, ast.And):
                    c["has"] |= self.guards(e.values[0])
                self.expr(v, c)
            s["may"] |= c["may"]
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, s)
            a, b = self.copy(s), self.copy(s)
            a["has"] |= self.guards(e.test)
            self.expr(e.body, a)
            self.expr(e.orelse, b)
            j = self.join(a, b)
            s.update(j)
            return
        if isinstance(e, ast.Call):
            fn = e.func
            for c in list(e.args) + [k.value for k in e.keywords]:
                self.expr(c, s)
            if isinstance(fn, ast.Attribute):
                if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                    g = self.w.after(self.cls, self.f.cls, fn.attr)
                    if g is not None:
                        self.inline(g, s)
                    elif fn.attr == "__init__":
                        s["must"].add("<base>")
                    return
                if self.is_self(fn.value):
                    g = self.w.p.find_method(self.cls, fn.attr)
                    if g is not None and g.has_self:
                        self.inline(g, s)
                        return
                    self.read(fn, s)
                    return
                # Base.__init__(self, ..)
                if e.args and self.is_self(e.args[0]):
                    t = self.w.p.resolve_expr(fn.value, self.f.module)
                    if t is not None and t[0] == "class":
                        g = self.w.p.find_method(t[1], fn.attr)
                        if g is not None:
                            self.inline(g, s)
                            return
                    if fn.attr == "__init__":
                        s["must"].add("<base>")
                        return
                self.expr(fn.value, s)
                return
            if isinstance(fn, ast.Name) and fn.id == "setattr" and e.args and self.is_self(e.args[0]):
                if len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                    self.put(e.args[1].value, s)
                else:
                    s["must"].add("*")
                return
            if isinstance(fn, ast.Name) and fn.id in ("hasattr", "getattr"):
                return
            self.expr(fn, s)
            return
        if isinstance(e, ast.Attribute):
            if self.is_self(e.value):
                if isinstance(e.ctx, ast.Load):
                    self.read(e, s)
                return
            self.expr(e.value, s)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, s)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.comprehension):
                self.expr(c.iter, s)
                c2 = self.copy(s)
                for i in c.ifs:
                    self.expr(i, c2)
            elif isinstance(c, (ast.expr, ast.keyword, ast.Slice)):
                self.expr(c.value if isinstance(c, ast.keyword) else c, s)

    def read(self, e, s):
        x = e.attr
        if x in s["must"] or x in s["has"] or "*" in s["must"]:
            return
        g = self.w.p.find_method(self.cls, x)
        if g is not None:
            if g.is_property:
                self.inline(g, s)
            return
        self.early.setdefault(x, (self.f, e))

    def assign(self, target, value, s, node):
        for t in ast.walk(target):
            if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and self.is_self(t.value):
                self.put(t.attr, s)
            elif isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Load) and self.is_self(t.value):
                self.read(t, s)

    def augassign(self, node, s):
        self.expr(node.value, s)
        t = node.target
        if isinstance(t, ast.Attribute) and self.is_self(t.value):
            self.read(ast.copy_location(ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t), s)
            self.put(t.attr, s)
        else:
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and self.is_self(n.value):
                    self.read(n, s)

    def guards(self, test):
        out = set()
        for n in ast.walk(test):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "hasattr" and len(
                    n.args) == 2 and self.is_self(n.args[0]) and isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
        return out

    def assume(self, test, truth, s):
        # hasattr(self, "x")
        if isinstance(test, ast.Call) and truth:
            s["has"] |= self.guards(test)
        return s

    def delete(self, target, s, node):
        if isinstance(target, ast.Attribute) and self.is_self(target.value):
            s["must"].discard(target.attr)


class World:
    def __init__(self, p: Program):
        self.p = p
        self.memo = {}
        self.active = set()

    def after(self, cls, here, name):
        """The method super().name resolves to."""
        mro = self.p.mro(cls)
        keys = [c.key for c in mro]
        i = keys.index(here.key) + 1 if here is not None and here.key in keys else 1
        for c in mro[i:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def summary(self, cls, g: Func, depth=0):
        """(certainly set, possibly set, read before set) by g on an object of class cls."""
        key = (cls.key, g.uid)
        if key in self.memo:
            return self.memo[key]
        if key in self.active or depth > 12 or isinstance(g.node, ast.Lambda):
            return set(), set(), {}
        self.active.add(key)
        fl = Assigned(self, cls, g, depth)
        end = fl.run(g.node, {"must": set(), "may": set(), "has": set()})
        outs = [s for _, s in fl.returns] + ([end] if end is not None else [])
        must = set.intersection(*[s["must"] for s in outs]) if outs else {"*"}
        may = set().union(*[s["may"] for s in outs + [s for _, s in fl.raises]]) if outs or fl.raises else set()
        self.active.discard(key)
        self.memo[key] = (must, may, fl.early)
        return self.memo[key]


def reads_of(p: Program, c):
    """Attributes of self that methods of the class read -> a reading method."""
    out = {}
    for k in p.mro(c):
        for g in k.methods.values():
            if not g.has_self or isinstance(g.node, ast.Lambda):
                continue
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(
                        n.value, ast.Name) and n.value.id == g.self_name:
                    out.setdefault(n.attr, []).append((g, n))
    return out


def mutable(e, p, m) -> bool:
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        if n in ("list", "dict", "set", "array", "zeros", "ones", "eye", "defaultdict", "deque", "empty", "arange",
                 "zeros_like", "ones_like", "full", "identity", "linspace", "OrderedDict", "Counter", "bytearray"):
            return True
        if n in ("TypeVar", "NewType", "ParamSpec", "Decimal", "Fraction", "Path"):
            return False
        if n == "field":
            return False
        r = p.resolve_expr(e.func, m)
        return (r is not None and r[0] == "class") or n[:1].isupper()
    if isinstance(e, ast.BinOp):
        return mutable(e.left, p, m) or mutable(e.right, p, m)
    return False


def one_for_all(n, p, m) -> str | None:
    """A list (or dictionary) whose places all hold the same changeable object."""
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
        for a in (n.left, n.right):
            if isinstance(a, ast.List) and any(mutable(x, p, m) for x in a.elts):
                return ast.unparse(n)[:60]
    if isinstance(n, ast.Call):
        last = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if last in ("fromkeys", "repeat") and len(n.args) > 1 - (last == "repeat"):
            v = n.args[1] if last == "fromkeys" else n.args[0]
            if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp)):
                return ast.unparse(n)[:60]
    return None


def shared_factory(v, p, m) -> bool:
    """field(default_factory=..) that hands out the same object every time."""
    if not (isinstance(v, ast.Call) and (getattr(v.func, "id", None) or getattr(v.func, "attr", None)) == "field"):
        return False
    for k in v.keywords:
        if k.arg == "default" and mutable(k.value, p, m):
            return True
        if k.arg == "default_factory" and isinstance(k.value, ast.Lambda):
            b = k.value.body
            if isinstance(b, (ast.Name, ast.Attribute, ast.Subscript)):
                return True
            if any(mutable(d, p, m) for d in k.value.args.defaults):
                return True
    return False


def run(p: Program, tier: str) -> Result:
    res = Result("Constructors of every class of the package with everything they call on the new object; attributes "
                 "that methods read; default values of parameters, class attributes and dataclass fields.")
    res.rules = [
        "an attribute that a constructor sets on one path and that methods read is set on every path",
        "an attribute that only other methods set is set before it is read",
        "the constructor does not read what it has not set yet",
        "a class whose base has a constructor calls it, or sets what the base sets",
        "mutable defaults are not shared between objects or calls",
    ]
    w = World(p)
    for c in sorted(p.classes.values(), key=lambda c: c.key):
        if is_offline(c.module) or is_legacy(c.module) or c.is_protocol:
            continue
        init = p.init_func(c)
        res.count("classes")
        fields = {n for n, _ in p.dataclass_fields(c)}
        static = set()
        for k in p.mro(c):
            static |= set(getattr(k, "class_attrs", ()))
        must, may, early = (set(), set(), {})
        if init is not None:
            must, may, early = w.summary(c, init)
            res.count("constructors")
        must = must | fields | static
        post = p.find_method(c, "__post_init__")
        if post is not None:
            m2, y2, e2 = w.summary(c, post)
            must, may = must | m2, may | y2
        ext = bool(p.external_bases(c))
        reads = reads_of(p, c)
        stored = set()
        for k in p.mro(c):
            stored |= set(k.instance_attrs)
        # an object may be built first and filled later by its fit / set_root
        filled = {}
        for k in p.mro(c):
            for g in k.methods.values():
                if g.has_self and (g.name.startswith("fit") or g.name.startswith("set_root")) and not isinstance(
                        g.node, ast.Lambda):
                    gm, _, ge = w.summary(c, g)
                    for x in gm:
                        if x not in must:
                            filled.setdefault(x, g)
                    for x, (h, n) in sorted(ge.items()):
                        if x in gm and x in stored and x not in must and x not in static and h.cls is not None:
                            res.add("used-while-building", f"{c.module.name}:{c.name}:{x}", f"{h.module.path}:{n.lineno}",
                                    f"{g.qual} uses '{x}' ({h.qual}) before it sets it")
        alternative(p, w, c, must, filled, reads, res)
        for x in sorted(stored):
            if x not in reads or p.find_method(c, x) is not None:
                continue
            res.count("attributes")
            res.oblige(f"{c.name}.{x} is set when it is read")
            if x in must or "*" in must:
                continue
            if x in filled:
                continue
            if x in may:
                if all(guarded(g, n) for g, n in reads[x]):
                    continue
                g, n = reads[x][0]
                res.add("half-built", f"{c.module.name}:{c.name}:{x}", f"{c.module.path}:{c.node.lineno}",
                        f"a path through the constructor of {c.name} leaves '{x}' unset, which {g.qual} reads")
                continue
            # set by other methods only: whoever reads it has to have set it before
            for g in sorted({g.uid: g for g, _ in reads[x]}.values(), key=lambda g: g.qual):
                if called_inside(p, c, g) and not g.name.startswith("__"):
                    continue  # judged where it is called
                _, _, e = w.summary(c, g)
                if x in e:
                    if ext and x not in own_stores(p, c):
                        continue
                    res.add("read-before-set", f"{c.module.name}:{c.name}:{x}", g.where,
                            f"{g.qual} reads '{x}', which no constructor of {c.name} sets (only "
                            f"{', '.join(sorted(setters(p, c, x)))} does)")
                    break
        for x, (g, n) in sorted(early.items()):
            if x in stored and x not in static and x not in fields:
                if (x in may or x not in must) and x not in filled:
                    res.add("used-while-building", f"{c.module.name}:{c.name}:{x}", f"{g.module.path}:{n.lineno}",
                            f"the constructor of {c.name} uses '{x}' ({g.qual}) before it is set")
        # attributes nobody sets
        called = {n.func.attr for k in p.mro(c) for g in k.methods.values() for n in ast.walk(g.node)
                  if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
        outside = set()
        for b in p.external_bases(c):
            outside |= INHERITED.get(b.split(".")[-1], {"*"})
        if "*" not in outside and not any("__getattr__" in k.methods for k in p.mro(c)) and len(p.subclasses(c)) <= 1:
            for x, rs in sorted(reads.items()):
                if x in stored or x in static or x in fields or x in outside or x in called or p.find_method(c, x) is not None \
                        or (x.startswith("__") and x.endswith("__")) or all(guarded(g, n) for g, n in rs) or \
                        x in must or x in may or set_outside(p, x):
                    continue
                g, n = rs[0]
                res.add("never-set", f"{c.module.name}:{c.name}:{x}", f"{g.module.path}:{n.lineno}",
                        f"{g.qual} reads '{x}', which nothing sets on a {c.name}")
        # bases
        own = c.methods.get("__init__")
        if own is not None:
            base = w.after(c, c, "__init__")
            if base is not None:
                res.count("derived constructors")
                res.oblige(f"{c.name}.__init__ builds its base {base.cls.name}")
                bm, _, _ = w.summary(c, base)
                gone = sorted(x for x in bm if x not in must and x in reads and x != "*" and p.find_method(c, x) is None)
                if gone:
                    res.add("base-not-built", f"{c.module.name}:{c.name}", own.where,
                            f"{c.name}.__init__ neither calls the constructor of {base.cls.name} on every path nor "
                            f"sets {', '.join(gone[:4])}")
            elif ext and "*" not in must:
                gone = sorted(x for x, rs in reads.items() if x not in stored and x not in static and x not in fields
                              and p.find_method(c, x) is None and not all(guarded(g, n) for g, n in rs)
                              and not (x.startswith("__") and x.endswith("__")))
                res.count("derived constructors")
                res.oblige(f"{c.name}.__init__ builds its base {p.external_bases(c)[0]}")
                if gone and "<base>" not in must:
                    res.add("base-not-built", f"{c.module.name}:{c.name}", own.where,
                            f"a path through {c.name}.__init__ does not call the constructor of its base "
                            f"{p.external_bases(c)[0]}, whose {', '.join(gone[:4])} its methods read")
        # shared class-level values
        for st in c.node.body:
            t, v = None, None
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                t, v = st.targets[0].id, st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                t, v = st.target.id, st.value
            if t is None or v is None:
                continue
            res.count("class-level values")
            if t in fields and shared_factory(v, p, c.module):
                res.add("shared-default", f"{c.module.name}:{c.name}:{t}", f"{c.module.path}:{st.lineno}",
                        f"all objects of {c.name} share the default of the field '{t}'")
                continue
            if not mutable(v, p, c.module):
                continue
            if t in fields:
                res.add("shared-default", f"{c.module.name}:{c.name}:{t}", f"{c.module.path}:{st.lineno}",
                        f"all objects of {c.name} share the default of the field '{t}'")
            elif changed_in_place(p, c, t) and t not in must_only(w, c, init):
                res.add("shared-default", f"{c.module.name}:{c.name}:{t}", f"{c.module.path}:{st.lineno}",
                        f"objects of {c.name} share '{t}' and change it in place")
    for f in sorted(p.iter_funcs(), key=lambda f: f.key):
        if is_offline(f.module) or is_legacy(f.module) or isinstance(f.node, ast.Lambda):
            continue
        for n in walk_own(f.node):
            if isinstance(n, (ast.BinOp, ast.Call)):
                one = one_for_all(n, p, f.module)
                if one:
                    res.add("shared-element", f"{f.module.name}:{f.qual}:{one}", f"{f.module.path}:{n.lineno}",
                            f"all places of '{one}' hold the same object")
        for q, d in f.defaults.items():
            res.count("default values")
            if not mutable(d, p, f.module):
                continue
            res.oblige(f"{f.qual}: default of {q} is not shared")
            if kept_or_changed(f, q):
                res.add("shared-default", f"{f.module.name}:{f.qual}:{q}", f.where,
                        f"the default of '{q}' of {f.qual} is one object for all calls, and it is stored or changed")
    res.floor("classes", 40)
    res.floor("attributes", 120)
    return res


def alternative(p, w, c, must, filled, reads, res):
    """Class methods that build an object piece by piece leave it as complete as the regular way does."""
    if not filled:
        return
    for k in p.mro(c)[:1]:
        for g in k.methods.values():
            if not g.is_classmethod or isinstance(g.node, ast.Lambda):
                continue
            for n in walk_own(g.node):
                if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and
                        isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and
                        n.value.func.id in ("cls", c.name)):
                    continue
                me = n.targets[0].id
                fl = Assigned(w, c, g, 0, me)
                end = fl.run(g.node, {"must": set(must), "may": set(), "has": set()})
                outs = [s for r, s in fl.returns if isinstance(r.value, ast.Name) and r.value.id == me]
                for x, at in sorted(fl.early.items()):
                    if x in filled and p.find_method(c, x) is None:
                        res.add("half-built", f"{c.module.name}:{c.name}:{g.name}:{x}", g.where,
                                f"{g.qual} uses '{x}' of the object it assembles before {filled[x].qual} set it")
                if not outs:
                    continue
                res.count("piecewise constructors")
                res.oblige(f"{g.qual} builds a complete {c.name}")
                got = set.intersection(*[s["must"] for s in outs])
                if not (got - must) and not any(
                        isinstance(n2, ast.Call) and isinstance(n2.func, ast.Attribute) and isinstance(
                            n2.func.value, ast.Name) and n2.func.value.id == me for n2 in walk_own(g.node)):
                    continue  # hands out an object that is filled later
                for x in sorted(filled):
                    inner = inside(p, c, filled[x])
                    if any(h.uid not in inner for h, _ in reads.get(x, ())) and x not in got and "*" not in got and p.find_method(c, x) is None:
                        res.add("half-built", f"{c.module.name}:{c.name}:{g.name}:{x}", g.where,
                                f"an object built by {g.qual} has no '{x}', which {filled[x].qual} would set and "
                                f"{reads[x][0][0].qual} reads")


def inside(p, c, g, seen=None):
    """Methods of the class that g runs, g included."""
    seen = set() if seen is None else seen
    if g.uid in seen:
        return seen
    seen.add(g.uid)
    for n in ast.walk(g.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == g.self_name:
            h = p.find_method(c, n.attr)
            if h is not None and not isinstance(h.node, ast.Lambda):
                inside(p, c, h, seen)
    return seen


def set_outside(p, x):
    """Some code stores the attribute on an object other than its own self."""
    if not hasattr(p, "_stored_outside"):
        out = set()
        for f in p.iter_funcs():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                        isinstance(n.value, ast.Name) and n.value.id in ("self", f.self_name)):
                    out.add(n.attr)
        p._stored_outside = out
    return x in p._stored_outside


def guarded(g: Func, n) -> bool:
    return any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("hasattr",) and len(
        c.args) == 2 and isinstance(c.args[1], ast.Constant) and c.args[1].value == n.attr for c in ast.walk(g.node))


def called_inside(p, c, g):
    return any(isinstance(n, ast.Attribute) and n.attr == g.name and isinstance(n.ctx, ast.Load)
               for k in p.mro(c) for h in k.methods.values() if h is not g for n in ast.walk(h.node))


def own_stores(p, c):
    out = set()
    for k in p.mro(c):
        out |= set(k.instance_attrs)
    return out


def setters(p, c, x):
    out = set()
    for k in p.mro(c):
        for g in k.methods.values():
            if any(isinstance(n, ast.Attribute) and n.attr == x and isinstance(n.ctx, ast.Store) for n in ast.walk(g.node)):
                out.add(g.qual)
    return out or {"other code"}


CHANGES = tuple(MUTATORS) + ("add_", "remove_", "set_", "update_", "append", "insert", "delete", "fill", "run", "fit",
                            "push", "put", "reverse")


def changed_in_place(p, c, t):
    def rooted(e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(e, ast.Attribute) and e.attr == t:
                return True
            e = e.func if isinstance(e, ast.Call) else e.value
        return False
    for k in p.mro(c):
        for g in k.methods.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith(CHANGES) \
                        and rooted(n.func.value):
                    return True
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and rooted(
                        n.value):
                    return True
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == t:
                    return True
    return False


def must_only(w, c, init):
    return w.summary(c, init)[0] if init is not None else set()


def kept_or_changed(f: Func, q) -> bool:
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == q and any(
                isinstance(t, ast.Attribute) for t in n.targets):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(
                n.func.value, ast.Name) and n.func.value.id == q:
            return True
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(
                n.value, ast.Name) and n.value.id == q:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == q:
            return True
    return False
