"""C10: parts that play the same role can be exchanged."""
from __future__ import annotations

import ast
from collections import Counter

from ..index import Class, Func, Program, walk_own
from ..report import Result
from ..scope import is_legacy, is_offline

# Operations which share their name but not their role (reviewed): (operation, class) -> why.
OTHER_ROLE = {
    ("add_component", "MultiBodyObstacle"): "named parts with a position on the parent",
    ("add_component", "BlockArchObstacle"): "argument order of the arch (called by the arch itself)",
    ("append", "*"): "containers of different things",
    ("avoid", "GmmObstacle"): "avoids itself only",
    ("avoid", "BaseAvoider"): "avoids the list it is given",
    ("evaluate_convergence_velocity", "DirectionalSystem"): "obsolete base declaration",
    ("evaluate_projected_weight", "*"): "",
    ("fit", "*"): "learners of different data",
    ("fit_from_velocities", "*"): "learners of different data",
    ("get_gamma", "GmmObstacle"): "asks for one of several kernels",
    ("get_normal_direction", "GmmObstacle"): "asks for one of several kernels",
    ("get_reference_direction", "GmmObstacle"): "asks for one of several kernels",
    ("get_root", "*"): "root obstacle / root indices",
    ("root", "*"): "value / node",
    ("set_attractor", "*"): "attractor of a hull / of a container",
    ("set_parent", "*"): "links of different structures",
    ("set_root", "*"): "roots of different structures",
    ("plot_obstacle", "*"): "drawing",
    ("rotate_weighted", "*"): "one sequence / a tree",
    ("rotate", "VectorRotationTree"): "asks for a weighted set of nodes",
    ("inverse_rotate", "VectorRotationTree"): "asks for a weighted set of nodes",
    ("get_weights", "*"): "weights of different things",
    ("get_distance", "*"): "",
    ("get_rotation_weight", "*"): "",
    ("get_children", "*"): "values / indices / nodes",
    ("get_parent", "*"): "values / indices / nodes",
    ("add_element_with_parent", "*"): "",
    ("predict", "*"): "samples / one position",
}


# Shared options whose default deliberately differs from the others (reviewed): the obstacles derived from the
# library's Obstacle keep its default.
OWN_DEFAULT = {
    ("get_gamma", "MultiHullAndObstacle", "in_global_frame"): "False",
    ("get_gamma", "KMeansObstacle", "in_global_frame"): "False",
    ("is_inside", "KMeansObstacle", "in_global_frame"): "False",
}


class Sig:
    def __init__(self, f: Func, p: Program):
        self.f = f
        self.kind = "property" if f.is_property else "operation"
        self.names = list(f.params)
        self.kwonly = list(f.kwonly)
        self.defaults = {k: ast.unparse(v) for k, v in f.defaults.items()}
        self.vararg, self.kwarg = f.vararg, f.kwarg
        self.required = [n for n in self.names if n not in self.defaults]
        self.required_kw = [n for n in self.kwonly if n not in self.defaults]

    def text(self):
        if self.kind == "property":
            return "attribute"
        return "(" + ", ".join(n + ("=" + self.defaults[n] if n in self.defaults else "")
                               for n in self.names + self.kwonly) \
            + (", *" + self.vararg if self.vararg else "") + ")"

    def optional(self):
        return [n for n in self.names + self.kwonly if n in self.defaults]


def public(name: str) -> bool:
    return not name.startswith("_")


def accepts(want: Sig, have: Sig) -> str | None:
    """Why an object with `have` cannot stand in for one with `want` (None: it can)."""
    if want.kind != have.kind:
        return f"one is {_art(want.kind)}, the other {_art(have.kind)}"
    if want.kind == "property":
        return None
    if have.vararg:
        return None
    for i, n in enumerate(want.names):
        need = n not in want.defaults
        if i < len(have.names):
            h = have.names[i]
            if h == n:
                continue
            if n in have.names + have.kwonly:
                return f"argument '{n}' stands at another place"
            if need:
                return f"argument {i + 1} is called '{h}' instead of '{n}'"
            # an optional argument the other does not know
            if h in want.names:
                continue
            return f"does not take the optional argument '{n}'"
        if need:
            return f"does not take the argument '{n}'"
        if n in have.kwonly or have.kwarg:
            continue
        return f"does not take the optional argument '{n}'"
    for n in want.kwonly:
        if n not in have.names + have.kwonly and not have.kwarg:
            return f"does not take the argument '{n}'"
    extra = [n for n in have.required if n not in want.names + want.kwonly] + \
            [n for n in have.required_kw if n not in want.names + want.kwonly]
    if extra:
        return f"requires a further argument '{extra[0]}'"
    hard = [n for n in have.required if n in want.defaults]
    if hard:
        return f"requires '{hard[0]}', which is optional elsewhere"
    for n, d in want.defaults.items():
        if n in have.defaults and have.defaults[n] != d and not _same_value(d, have.defaults[n]):
            return f"'{n}' defaults to {have.defaults[n]} instead of {d}"
    return None


def _art(kind):
    return "an attribute" if kind == "property" else "an operation"


def _same_value(a: str, b: str) -> bool:
    try:
        x, y = ast.literal_eval(a), ast.literal_eval(b)
        return x == y and isinstance(x, bool) == isinstance(y, bool)
    except (ValueError, SyntaxError):
        try:
            return eval(compile(ast.parse(a, mode="eval"), "", "eval"), {"__builtins__": {}}) == \
                eval(compile(ast.parse(b, mode="eval"), "", "eval"), {"__builtins__": {}})
        except Exception:
            return False


def in_scope(c: Class) -> bool:
    return not is_legacy(c.module) and not is_offline(c.module)


def kind_of(f: Func) -> str:
    return "static" if f.is_static else "class" if f.is_classmethod else "instance"


def is_abstract(f: Func) -> bool:
    return any("abstractmethod" in ast.unparse(d) for d in f.node.decorator_list)


def body_is_stub(f: Func) -> bool:
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if not body:
        return True
    if len(body) == 1 and isinstance(body[0], ast.Pass):
        return True
    return len(body) == 1 and isinstance(body[0], ast.Raise) and "NotImplemented" in ast.unparse(body[0])


def overrides(p: Program, res: Result):
    for c in p.classes.values():
        if not in_scope(c):
            continue
        for name, m in c.methods.items():
            if name.startswith("__"):
                continue
            for b in p.mro(c)[1:]:
                o = b.methods.get(name)
                if o is None:
                    continue
                res.count("overriding methods")
                res.oblige(f"{c.name}.{name} stands in for {b.name}.{name}")
                loose = (name, b.name) in OTHER_ROLE or (name, c.name) in OTHER_ROLE or (name, "*") in OTHER_ROLE
                if kind_of(m) != kind_of(o):
                    res.add("override", f"{c.name}.{name}", f"{m.module.path}:{m.node.lineno}",
                            f"is a {kind_of(m)} method, {b.name}.{name} a {kind_of(o)} method")
                    break
                why = (_required_ok if loose else accepts)(Sig(o, p), Sig(m, p))
                if why:
                    res.add("override", f"{c.name}.{name}", f"{m.module.path}:{m.node.lineno}",
                            f"cannot stand in for {b.name}.{name}{Sig(o, p).text()}: {why}")
                break


def protocols(p: Program, res: Result):
    """A class that offers most of an interface offers all of it, in the same form."""
    for proto in p.classes.values():
        if not in_scope(proto):
            continue
        members = {n: m for n, m in proto.methods.items() if public(n)}
        abstract = {n for n, m in members.items() if is_abstract(m)}
        if not (proto.is_protocol or abstract):
            continue
        if not proto.is_protocol:
            members = {n: members[n] for n in abstract}
        attrs = {a for a in proto.annotations if public(a)} if proto.is_protocol else set()
        for c in p.classes.values():
            if c is proto or not in_scope(c):
                continue
            sub = proto in p.mro(c)[1:]
            has = {n for n in members if _find(p, c, n) is not None and _find(p, c, n).cls is not proto}
            total = len(members) + len(attrs)
            if not sub and (len(has) < 2 or 2 * len(has) < total):
                continue
            if sub and (any(is_abstract(x) for x in c.methods.values())):
                continue
            res.count("implementers of an interface")
            for n, m in members.items():
                res.oblige(f"{c.name} offers {proto.name}.{n}")
                h = _find(p, c, n)
                if h is None or h.cls is proto and is_abstract(h):
                    if h is None and p.known_attr(c, n) and m.is_property:
                        continue
                    if h is None and not proto.is_protocol and not sub:
                        continue
                    res.add("interface-incomplete", f"{c.name}:{proto.name}.{n}", f"{c.module.path}:{c.node.lineno}",
                            f"offers {', '.join(sorted(has))} of {proto.name} but not '{n}'")
                    continue
                if h.cls is proto:
                    continue
                why = None
                if kind_of(h) != kind_of(m):
                    why = f"is a {kind_of(h)} method"
                why = why or accepts(Sig(m, p), Sig(h, p))
                if why:
                    res.add("interface-form", f"{c.name}.{n}", f"{h.module.path}:{h.node.lineno}",
                            f"is asked for as {proto.name}.{n}{Sig(m, p).text()}: {why}")
            for a in attrs:
                if not p.known_attr(c, a):
                    res.add("interface-incomplete", f"{c.name}:{proto.name}.{a}", f"{c.module.path}:{c.node.lineno}",
                            f"lacks the attribute '{a}' of {proto.name}")


# Operations of obstacle trees which one of them does without (reviewed).
NOT_OFFERED = {("MultiEllipseObstacle", "get_root"), ("MultiEllipseObstacle", "add_component"),
               ("MultiEllipseObstacle", "is_collision_free"), ("MultiBodyObstacle", "is_collision_free")}


def implementers_agree(p: Program, res: Result):
    """What all but one of the implementers of an interface offer, the last one offers as well."""
    for proto in p.classes.values():
        if not in_scope(proto) or not proto.is_protocol:
            continue
        members = {n for n in proto.methods if public(n)}
        impl = []
        for c in p.classes.values():
            if c is proto or not in_scope(c):
                continue
            has = {n for n in members if _find(p, c, n) is not None or p.known_attr(c, n)}
            if len(has) >= 2 and 2 * len(has) >= len(members):
                impl.append(c)
        if len(impl) < 3:
            continue
        offered: dict[str, list[Class]] = {}
        for c in impl:
            for k in p.mro(c):
                for n in k.methods:
                    if public(n) and c not in offered.setdefault(n, []):
                        offered[n].append(c)
        for n, cs in sorted(offered.items()):
            if len(cs) < 3 or len(cs) < len(impl) - 1:
                continue
            for c in impl:
                res.oblige(f"{c.name} offers {n} like the other implementers of {proto.name}")
                if c in cs or p.known_attr(c, n) or (c.name, n) in NOT_OFFERED:
                    continue
                res.add("role-incomplete", f"{c.name}:{n}", f"{c.module.path}:{c.node.lineno}",
                        f"does not offer '{n}', which {', '.join(x.name for x in cs)} do")


def _find(p: Program, c: Class, n: str):
    return p.find_method(c, n)


def families(p: Program, res: Result):
    by: dict[str, list[Func]] = {}
    for c in p.classes.values():
        if not in_scope(c):
            continue
        for name, m in c.methods.items():
            if public(name):
                by.setdefault(name, []).append(m)
    out = {}
    for name, ms in sorted(by.items()):
        if (name, "*") in OTHER_ROLE:
            continue
        ms = [m for m in ms if (name, m.cls.name) not in OTHER_ROLE]
        if len(ms) < 2:
            continue
        sigs = [Sig(m, p) for m in ms]
        res.count("families of like-named operations")
        # the form most of them accept
        best = None
        for cand in sigs:
            if cand.vararg:
                continue
            ok = sum(1 for s in sigs if _required_ok(cand, s) is None)
            # declared by an interface: its form counts
            rank = (ok, 1 if cand.f.cls.is_protocol else 0, -len(cand.required))
            if best is None or rank > best[0]:
                best = (rank, cand)
        if best is None:
            continue
        want = best[1]
        out[name] = (want, sigs)
        n_prop = sum(1 for s in sigs if s.kind == "property")
        for s in sigs:
            res.oblige(f"{s.f.cls.name}.{name}{s.text()}")
            res.count("operations compared")
            where = f"{s.f.module.path}:{s.f.node.lineno}"
            if 0 < n_prop < len(sigs) and (s.kind == "property") == (n_prop * 2 <= len(sigs)):
                res.add("role", f"{s.f.cls.name}.{name}", where,
                        f"{_art(s.kind)} here, {_art('operation' if s.kind == 'property' else 'property')} "
                        f"in {_others(sigs, s)}")
                continue
            why = _required_ok(want, s)
            if why:
                res.add("role", f"{s.f.cls.name}.{name}", where,
                        f"{name} is asked for as {want.text()} ({want.f.cls.name}): {why}")
        # optional arguments: same default, taken by all when most take it
        opts = Counter(n for s in sigs for n in s.optional())
        for n, k in opts.items():
            vals = Counter(s.defaults[n] for s in sigs if n in s.defaults)
            if len(vals) > 1 or any(key[0] == name for key in OWN_DEFAULT):
                top, cnt = vals.most_common(1)[0]
                for s in sigs:
                    own = OWN_DEFAULT.get((name, s.f.cls.name, n))
                    if own is not None and n in s.defaults:
                        if not _same_value(s.defaults[n], own):
                            res.add("role-default", f"{s.f.cls.name}.{name}:{n}",
                                    f"{s.f.module.path}:{s.f.node.lineno}",
                                    f"'{n}' defaults to {s.defaults[n]}; the obstacles of the library take {own}")
                        continue
                    if n in s.defaults and not _same_value(s.defaults[n], top):
                        res.add("role-default", f"{s.f.cls.name}.{name}:{n}", f"{s.f.module.path}:{s.f.node.lineno}",
                                f"'{n}' defaults to {s.defaults[n]}, elsewhere to {top}")
            if k >= 2 and 2 * k >= len(sigs):
                for s in sigs:
                    if n not in s.names + s.kwonly and not s.kwarg:
                        res.add("role-option", f"{s.f.cls.name}.{name}:{n}", f"{s.f.module.path}:{s.f.node.lineno}",
                                f"does not take the option '{n}', which {k} of {len(sigs)} like it take")
                    elif n in s.required + s.required_kw:
                        res.add("role-option", f"{s.f.cls.name}.{name}:{n}", f"{s.f.module.path}:{s.f.node.lineno}",
                                f"'{n}' is required here and optional elsewhere")
    return out


# Operations of one class which are asked about the same thing.
COUNTERPARTS = [("rotate", "inverse_rotate"), ("get_parent", "get_children"), ("get_name", "get_update_id"),
                ("get_parent_idx", "get_component"), ("transform_to", "transform_from")]


def counterparts(p: Program, res: Result):
    for c in p.classes.values():
        if not in_scope(c):
            continue
        for a, b in COUNTERPARTS:
            if a in c.methods and b in c.methods:
                x, y = Sig(c.methods[a], p), Sig(c.methods[b], p)
                res.oblige(f"{c.name}.{a} / {b}")
                if (c.name, a) in OWN_NAMES:
                    continue
                if x.vararg or y.vararg:
                    continue
                if x.required != y.required:
                    res.add("counterparts", f"{c.name}.{a}/{b}", f"{c.module.path}:{y.f.node.lineno}",
                            f"{a}{x.text()} and {b}{y.text()} do not take the same arguments")


OWN_NAMES = {("MultiBodyObstacle", "get_name")}


def _others(sigs, s):
    return ", ".join(x.f.cls.name for x in sigs if x is not s and x.kind != s.kind)


def _required_ok(want: Sig, have: Sig) -> str | None:
    if want.kind != have.kind:
        return f"{_art(have.kind)} here"
    if want.kind == "property" or have.vararg:
        return None
    for i, n in enumerate(want.required):
        if i >= len(have.names):
            return f"does not take '{n}'"
        if have.names[i] != n:
            return f"argument {i + 1} is '{have.names[i]}' instead of '{n}'"
    extra = [n for n in have.required if n not in want.required] + have.required_kw
    extra = [n for n in extra if n not in want.required_kw]
    if extra:
        return f"requires a further argument '{extra[0]}'"
    return None


def calls_through_roles(p: Program, res: Result, fams):
    """A call on an object of unknown class must be accepted by every class that plays the role."""
    from ..calls import Calls
    calls = Calls(p)
    for f in p.iter_funcs():
        if is_legacy(f.module) or is_offline(f.module):
            continue
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            name = n.func.attr
            if name not in fams:
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            ts = calls.targets(n, f, f.module)
            if any(t.exact and t.func is not None for t in ts):
                continue
            want, sigs = fams[name]
            if want.kind == "property":
                continue
            res.count("calls through a role")
            bad = []
            for s in sigs:
                if s.vararg:
                    continue
                if len(n.args) > len(s.names):
                    bad.append((s, "too many arguments"))
                    continue
                kws = [k.arg for k in n.keywords]
                unknown = [k for k in kws if k not in s.names + s.kwonly]
                if unknown and p.external_bases(s.f.cls):
                    bad = []
                    break
                if unknown and not s.kwarg:
                    bad.append((s, f"no argument '{unknown[0]}'"))
                    continue
                given = set(s.names[:len(n.args)]) | set(kws)
                miss = [r for r in s.required + s.required_kw if r not in given]
                if miss:
                    bad.append((s, f"'{miss[0]}' is missing"))
            if bad and len(bad) == len([s for s in sigs if not s.vararg]):
                res.add("call-through-role", f"{f.qual}:{name}({', '.join(['_'] * len(n.args) + [k.arg + '=' for k in n.keywords])})",
                        f"{f.module.path}:{n.lineno}",
                        "; ".join(f"{s.f.cls.name}.{name}{s.text()}: {w}" for s, w in bad[:3]))


def run(p: Program, tier: str) -> Result:
    res = Result("Signatures of all public operations, grouped by override, by declared interface and by role "
                 "(like-named operations of different classes), compared argument by argument.")
    res.rules = ["an override takes every call its original takes, with the same defaults",
                 "a class that offers most of an interface offers all of it, in the declared form",
                 "operations that play the same role take the same required arguments, in the same order, under the "
                 "same names, and their shared options have the same defaults",
                 "an operation and its counterpart (rotate / inverse_rotate, parent / children) take the same arguments",
                 "a call on an object of open class is accepted by the classes that play the role"]
    res.assumptions = ["Like-named operations with different roles are listed in the rule (reviewed)."]
    overrides(p, res)
    protocols(p, res)
    implementers_agree(p, res)
    fams = families(p, res)
    counterparts(p, res)
    calls_through_roles(p, res, fams)
    res.floor("operations compared", 60)
    res.floor("implementers of an interface", 3)
    return res
