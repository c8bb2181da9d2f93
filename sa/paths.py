"""Path-sensitive, value-numbered walk over one function (with its helpers inlined).

A state is (environment, stored attributes, decided conditions, events). Only events a rule declares relevant
are kept and states with the same events are merged, so the number of states is bounded by the number of
different event sequences, not by the number of paths. Loops contribute their body once, wrapped as one
("iter", key of the iterable, events) event; a second loop over the same thing takes the same decision
about running at all.

Values (nested tuples): ("self",), ("param", n), ("const", v), ("attr", object, name), ("item", object, index),
("list", items), ("n", group, base, k) = length of a list of a group (initial length + k), ("elem", iterable),
("map", iterable), ("new", id, what), ("op", name, parts), ("opaque", id).
"""
from __future__ import annotations

import ast
from typing import Optional

from .calls import Calls
from .index import Class, Func, Program, walk_own

NONE = ("const", None)
# method names that objects from outside of the package are likely to have as well
COMMON = {"append", "add", "insert", "extend", "pop", "remove", "clear", "update", "sort", "reverse", "index", "copy",
          "get", "fit", "predict", "evaluate", "add_node", "add_edge", "remove_node", "remove_edge", "set", "run", "dot",
          "set_data", "plot", "rotate", "inv", "apply", "transform", "max", "min", "sum", "mean"}
ARRAY = {"shape", "T", "copy", "size", "ndim", "tolist", "dot", "reshape", "flatten", "astype", "dtype"}
LISTADD = {"append", "insert", "extend", "appendleft", "add"}
LISTDEL = {"pop", "remove", "clear", "popleft", "discard"}
MAXSTATES = 300
DEPTH = 4


class Spec:
    """What a rule wants to see; overridden by the rules."""

    def relevant(self, ev, walk) -> bool:
        return True

    def is_list(self, val, walk) -> bool:
        """a list whose identity matters (lists of a group, children lists)."""
        return False

    def group(self, val, walk):
        """group id of a list value, None if it belongs to none."""
        return None

    def touching(self, func: Func) -> bool:
        """can a call of this function produce relevant events"""
        return False

    def can_reject(self, g: Func, env) -> bool:
        """may an inlined call with these arguments end in one of its errors"""
        return True

    def cleans_up(self, events) -> bool:
        """a loop with these events in its body runs as often as there is something to clean up"""
        return False

    def base_list(self, walk):
        """the list an external container base keeps, as a value"""
        return ("attr", ("self",), "_obstacle_list")


class State:
    __slots__ = ("env", "attrs", "conds", "events", "net")

    def __init__(self, env=None, attrs=None, conds=None, events=(), net=None):
        self.env = env or {}
        self.attrs = attrs or {}
        self.conds = conds or {}
        self.events = events
        self.net = net or {}

    def fork(self):
        return State(dict(self.env), dict(self.attrs), dict(self.conds), self.events, dict(self.net))


def merge(states):
    by = {}
    for s in states:
        k = (s.events, tuple(sorted(s.net.items(), key=repr)))
        o = by.get(k)
        if o is None:
            by[k] = s.fork()
            continue
        for d, e in ((o.env, s.env), (o.attrs, s.attrs)):
            for n in list(d):
                if n not in e or e[n] != d[n]:
                    d[n] = ("opaque", ("join", n)) if n in e else d[n]
            for n in e:
                if n not in d:
                    d[n] = e[n]
        for c in list(o.conds):
            if s.conds.get(c) != o.conds[c]:
                del o.conds[c]
    return list(by.values())


class TooMany(Exception):
    pass


class Walk:
    def __init__(self, p: Program, calls: Calls, spec: Spec, cls: Optional[Class]):
        self.p, self.calls, self.spec, self.cls = p, calls, spec, cls
        self.ids = 0
        self.uses: list = []          # (node, state) at nodes a rule marked

    def fresh(self, what="opaque"):
        self.ids += 1
        return ("opaque", (what, self.ids))

    # entry ------------------------------------------------------------------
    def run(self, f: Func):
        env = {}
        for a in f.pos + f.kwonly:
            env[a] = ("self",) if a == f.self_name and not f.is_classmethod else ("param", a)
        for a in (f.vararg, f.kwarg):
            if a:
                env[a] = ("param", a)
        return self.body(f, State(env), 0)

    @staticmethod
    def static(f):
        return f.is_static or f.is_classmethod

    def body(self, f: Func, st: State, depth):
        """(ends, raises): ends = [(state, value)]"""
        fr = Frame(self, f, depth)
        out = fr.block(f.node.body, [st])
        ends = fr.returns + [(s, NONE) for s in out]
        return ends, fr.raises


class Frame:
    def __init__(self, walk: Walk, f: Func, depth):
        self.w, self.f, self.depth = walk, f, depth
        self.returns, self.raises = [], []
        self.loops = []

    # statements ---------------------------------------------------------------
    def block(self, stmts, states):
        for s in stmts:
            if not states:
                break
            states = self.stmt(s, states)
            states = merge(states)
            if len(states) > MAXSTATES:
                raise TooMany()
        return states

    def stmt(self, s, states):
        out = []
        for st in states:
            out += self.one(s, st)
        return out

    def one(self, s, st):
        if isinstance(s, ast.Expr):
            return [a for a, _ in self.ev(s.value, st)]
        if isinstance(s, ast.Assign):
            r = []
            for a, v in self.ev(s.value, st):
                ss = [a]
                for t in s.targets:
                    ss = [y for x in ss for y in self.store(t, v, x, s.value)]
                r += ss
            return r
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [st]
            return [y for a, v in self.ev(s.value, st) for y in self.store(s.target, v, a, s.value)]
        if isinstance(s, ast.AugAssign):
            return self.aug(s, st)
        if isinstance(s, ast.Return):
            if s.value is None:
                self.returns.append((st, NONE))
            else:
                self.returns += self.ev(s.value, st)
            return []
        if isinstance(s, ast.Raise):
            sts = [st] if s.exc is None else [a for a, _ in self.ev(s.exc, st)]
            for a in sts:
                self.raises.append((a, (s, self.f)))
            return []
        if isinstance(s, ast.If):
            t, f = self.branch(s.test, st)
            return self.block(s.body, t) + self.block(s.orelse, f)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        if isinstance(s, ast.While):
            return self.loop(s, st)
        if isinstance(s, ast.Break):
            self.loops[-1][0].append(st)
            return []
        if isinstance(s, ast.Continue):
            self.loops[-1][1].append(st)
            return []
        if isinstance(s, (ast.With, ast.AsyncWith)):
            sts = [st]
            for it in s.items:
                nxt = []
                for x in sts:
                    for a, v in self.ev(it.context_expr, x):
                        nxt += self.store(it.optional_vars, ("opaque", ("with",)), a, None) if it.optional_vars else [a]
                sts = nxt
            return self.block(s.body, sts)
        if isinstance(s, ast.Try):
            entry, cur = [st], [st]
            mark = len(self.raises)
            for b in s.body:
                cur = merge(self.stmt(b, cur))
                entry += cur
                if not cur:
                    break
            out = self.block(s.orelse, cur) if s.orelse else cur
            # what is raised inside goes to the handlers; past them only when none of them is for it
            inside = self.raises[mark:]
            del self.raises[mark:]
            for a, n in inside:
                entry.append(a)
                if not any(catches(h, n[0]) for h in s.handlers):
                    self.raises.append((a, n))
            for h in s.handlers:
                hs = merge([e.fork() for e in entry])
                if h.name:
                    for e in hs:
                        e.env[h.name] = self.w.fresh("exc")
                out = out + self.block(h.body, hs)
            if s.finalbody:
                out = self.block(s.finalbody, merge(out))
                late = self.raises[mark:]
                del self.raises[mark:]
                for a, n in late:
                    for e in self.block(s.finalbody, [a]):
                        self.raises.append((e, n))
            return out
        if isinstance(s, ast.Delete):
            sts = [st]
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    sts = [y for x in sts for y in self.delitem(t, x)]
            return sts
        if isinstance(s, ast.Assert):
            t, f = self.branch(s.test, st)
            return t
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            a = st.fork()
            a.env[s.name] = self.w.fresh("def")
            return [a]
        return [st]

    def delitem(self, t, st):
        out = []
        for a, o in self.ev(t.value, st):
            for b, i in self.ev(t.slice, a):
                out.append(self.emit(b, ("del", o, i, t.lineno), o, -1))
        return out

    # events -----------------------------------------------------------------------
    def emit(self, st, ev, lst=None, delta=0):
        if not self.w.spec.relevant(ev, self.w):
            return st
        st = st.fork()
        st.events = st.events + (ev,)
        if lst is not None and delta:
            b, k = st.net.get(lst, (0, 0))
            st.net[lst] = (b, k + delta)
        return st

    def need(self, o, e, st):
        """an attribute or a method of a value is asked for (noted the first time)"""
        attr = e.attr if isinstance(e, ast.Attribute) else e.func.attr
        if o[0] != "param" or attr in ARRAY or any(x[:3] == ("need", o, attr) for x in st.events):
            return st
        return self.emit(st, ("need", o, attr, e.lineno))

    # loops --------------------------------------------------------------------------
    def loop(self, s, st):
        isfor = not isinstance(s, ast.While)
        out = []
        if isfor:
            heads = self.ev(s.iter, st)
        else:
            heads = [(st, ("op", "while", (id(s),)))]
        for a, it in heads:
            if isfor and it[0] == "list" and len(it[1]) <= 8:
                out += self.unrolled(s, it[1], a)
                continue
            key = ("iter", it if isfor else ("while", s.lineno))
            decided = a.conds.get(key)
            zero = a.fork()
            zero.conds[key] = False
            assigned = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            assigned |= {n.func.value.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Call)
                         and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
                         and a.env.get(n.func.value.id, NONE)[0] == "list"}
            one = a.fork()
            one.conds = {c: v for c, v in a.conds.items()}
            one.conds[key] = True
            one.events = ()
            for n in assigned:
                one.env[n] = ("opaque", ("loop", n, s.lineno))
            outer = dict(a.net)
            ends = []
            self.loops.append(([], []))
            starts = [one]
            if isfor:
                starts = self.store(s.target, self.element(it), one, None)
            else:
                starts, _ = self.branch(s.test, one)
            mark_ret, mark_raise = len(self.returns), len(self.raises)
            body = self.block(s.body, starts)
            br, co = self.loops.pop()
            # a return / raise inside the loop leaves with the events of this iteration on top
            for lst, mark in ((self.returns, mark_ret), (self.raises, mark_raise)):
                for i in range(mark, len(lst)):
                    x = lst[i][0].fork()
                    x.events = a.events + x.events
                    lst[i] = (x,) + tuple(lst[i][1:])
            ends = merge(body + co + br)
            # an error in a later round comes after the operations of an earlier one
            earlier = {e.events for e in merge(body + co) if e.events}
            for x, n in self.raises[mark_raise:]:
                tail = x.events[len(a.events):]
                for evs in sorted(earlier, key=repr)[:4]:
                    y = x.fork()
                    y.events = a.events + (("iter", key, evs, s.lineno),) + tail
                    self.raises.append((y, n))
            after = []
            if decided is not False:
                for e in ends:
                    e = e.fork()
                    if e.events:
                        e.events = a.events + (("iter", key, e.events, s.lineno),)
                    else:
                        e.events = a.events
                    for l, (b, k) in list(e.net.items()):
                        if outer.get(l, (0, 0)) != (b, k):
                            e.net[l] = (("loop", repr(key), repr(outer.get(l, (0, 0))), k), 0)
                    for n in assigned:
                        e.env[n] = ("opaque", ("loop", n, s.lineno))
                    after.append(e)
            if decided is not True and not (ends and self.w.spec.cleans_up([e for x in ends for e in x.events])):
                after.append(zero)
            out += merge(after)
        if s.orelse:
            out = self.block(s.orelse, out)
        return out

    def unrolled(self, s, items, st):
        cur, done = [st], []
        for x in items:
            self.loops.append(([], []))
            nxt = []
            for a in cur:
                nxt += self.block(s.body, self.store(s.target, x, a, None))
            br, co = self.loops.pop()
            done += br
            cur = merge(nxt + co)
        return merge(cur + done)

    @staticmethod
    def element(it):
        if it[0] == "op" and it[1] == "enumerate" and it[2]:
            return ("list", (("index", it[2][0]), ("elem", it[2][0])))
        if it[0] == "op" and it[1] == "zip":
            return ("list", tuple(("elem", x) for x in it[2]))
        return ("elem", it)

    # conditions --------------------------------------------------------------------
    def branch(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            sides = [e.left] + e.comparators
            e = ast.copy_location(ast.BoolOp(ast.And(), [
                ast.copy_location(ast.Compare(sides[i], [op], [sides[i + 1]]), e) for i, op in enumerate(e.ops)]), e)
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, done = [st], []
            for v in e.values:
                nxt = []
                for s in cur:
                    t, f = self.branch(v, s)
                    nxt += t if isand else f
                    done += f if isand else t
                cur = nxt
            return (cur, merge(done)) if isand else (merge(done), cur)
        t, f = [], []
        for s, v in self.ev(e, st):
            neg = False
            while v[0] == "op" and v[1] == "not":
                v, neg = v[2][0], not neg
            known = self.truth(v)
            if known is None:
                known = s.conds.get(v)
            if known is None:
                a, b = s.fork(), s.fork()
                a.conds[v], b.conds[v] = True, False
                (f if neg else t).append(a)
                (t if neg else f).append(b)
            elif known != neg:
                t.append(s)
            else:
                f.append(s)
        return t, f

    @staticmethod
    def truth(v):
        if v[0] == "const":
            return bool(v[1])
        if v[0] == "list":
            return bool(v[1])
        if v[0] == "op" and v[1] == "is" and len(v[2]) == 2:
            a, b = v[2]
            if a == b:
                return True
            for x, y in ((a, b), (b, a)):
                if x == NONE and (y[0] in ("list", "self", "new", "n", "map") or (y[0] == "const" and y[1] is not None)):
                    return False
        if v[0] == "op" and v[1] == "isinstance" and v[2][0][0] == "list":
            return v[2][1] == ("global", "list")
        return None

    # stores ------------------------------------------------------------------------
    def store(self, t, v, st, src):
        if isinstance(t, ast.Name):
            a = st.fork()
            a.env[t.id] = v
            return [a]
        if isinstance(t, (ast.Tuple, ast.List)):
            sts = [st]
            for i, x in enumerate(t.elts):
                y = v[1][i] if v[0] == "list" and i < len(v[1]) else ("item", v, ("const", i))
                sts = [z for s in sts for z in self.store(x, y, s, None)]
            return sts
        if isinstance(t, ast.Starred):
            return self.store(t.value, self.w.fresh("star"), st, None)
        if isinstance(t, ast.Attribute):
            out = []
            for a, o in self.ev(t.value, st):
                a = self.need(o, t, a)
                setter = None
                if o == ("self",) and self.w.cls is not None:
                    setter = self.w.p.find_setter(self.w.cls, t.attr)
                if setter is not None and self.depth < DEPTH and self.w.spec.touching(setter):
                    out += [x for x, _ in self.inline(setter, a, {setter.self_name: o, setter.params[0]: v})]
                    continue
                lst = ("attr", o, t.attr)
                if self.w.spec.is_list(lst, self.w):
                    out.append(self.replace(lst, v, a, t.lineno))
                else:
                    b = self.emit(a, ("setattr", o, t.attr, v, t.lineno))
                    b = b.fork()
                    b.attrs[(o, t.attr)] = v
                    b.conds = {c: y for c, y in b.conds.items() if not mentions(c, ("attr", o, t.attr))} \
                        if any(mentions(c, ("attr", o, t.attr)) for c in b.conds) and o == ("self",) and False else b.conds
                    out.append(b)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, o in self.ev(t.value, st):
                for b, i in self.ev(t.slice, a):
                    if self.w.spec.is_list(("item", o, i), self.w):
                        out.append(self.replace(("item", o, i), v, b, t.lineno))
                        continue
                    c = self.emit(b, ("set", o, i, v, t.lineno))
                    c = c.fork()
                    c.attrs[("item", o, i)] = v
                    out.append(c)
            return out
        return [st]

    def replace(self, lst, v, st, line):
        """list attribute replaced as a whole: adding to itself, mapping itself, or a new list"""
        added = added_items(v, lst)
        if added is not None:
            for x in added:
                st = self.emit(st, ("add", lst, self.end(lst, st), x, line), lst, +1)
            return st
        if v[0] == "concat" and len(v[1]) == 2 and v[1][1] == lst and v[1][0][0] == "list":
            for x in reversed(v[1][0][1]):
                st = self.emit(st, ("add", lst, ("const", 0), x, line), lst, +1)
            return st
        if v == lst:
            return st
        if v[0] == "map" and v[1] == lst:
            return self.emit(st, ("mapped", lst, line))
        if v[0] == "deleted" and v[1] == lst:
            return self.emit(st, ("del", lst, v[2], line), lst, -1)
        ln = self.length(v, st)
        if ln is not None and ln == self.length(lst, st):
            return st                                # every element renewed
        st = self.emit(st, ("fresh", lst, ln, line))
        st = st.fork()
        g = self.w.spec.group(lst, self.w)
        st.net[lst] = (("fresh", ln), 0)
        return st

    def end(self, lst, st):
        b, k = st.net.get(lst, (0, 0))
        return ("n", self.w.spec.group(lst, self.w), b, k)

    def length(self, v, st):
        """the length of a value, as a value"""
        if v[0] == "list":
            return ("const", len(v[1]))
        if v[0] == "map":
            return self.length(v[1], st)
        if self.w.spec.group(v, self.w) is not None:
            b, k = st.net.get(v, (0, 0))
            if isinstance(b, tuple) and b[0] == "fresh" and b[1] is not None:
                if k == 0:
                    return b[1]
                if b[1][0] == "const":
                    return ("const", b[1][1] + k)
            return ("n", self.w.spec.group(v, self.w), b, k)
        if v[0] == "op" and v[1] == "range" and len(v[2]) == 1:
            return v[2][0]
        if v[0] == "op" and v[1] == "arange" and len(v[2]) == 1:
            return v[2][0]
        if v[0] == "op" and v[1] in ("enumerate", "list", "tuple", "reversed", "sorted", "copy", "tolist", "array", "asarray") and v[2]:
            return self.length(v[2][0], st)
        if v[0] == "op" and v[1] == "*" and len(v[2]) == 2:
            a, b = v[2]
            for x, y in ((a, b), (b, a)):
                if x[0] == "list" and len(x[1]) == 1:
                    return y
        if v[0] == "op" and v[1] in ("zeros", "ones", "empty", "full") and v[2]:
            return v[2][0]
        if v[0] in ("param", "attr"):
            return ("op", "len", (v,))
        return None

    def aug(self, s, st):
        out = []
        tgt = s.target
        for a, v in self.ev(s.value, st):
            if isinstance(tgt, ast.Name):
                cur = a.env.get(tgt.id, ("global", tgt.id))
                if self.w.spec.is_list(cur, self.w) and isinstance(s.op, ast.Add):
                    out.append(self.extend(cur, v, a, s.lineno))
                    continue
                b = a.fork()
                b.env[tgt.id] = self.arith(opname(s.op), cur, v)
                out.append(b)
            elif isinstance(tgt, ast.Attribute):
                for b, o in self.ev(tgt.value, a):
                    lst = ("attr", o, tgt.attr)
                    if self.w.spec.is_list(lst, self.w) and isinstance(s.op, ast.Add):
                        out.append(self.extend(lst, v, b, s.lineno))
                    elif self.w.spec.group(lst, self.w) is not None and v == ("const", 1):
                        d = 1 if isinstance(s.op, ast.Add) else -1
                        out.append(self.emit(b, ("add" if d > 0 else "del", lst, self.end(lst, b), v, s.lineno), lst, d))
                    else:
                        new = self.arith(opname(s.op), b.attrs.get((o, tgt.attr), lst), v)
                        b = self.emit(b, ("setattr", o, tgt.attr, new, s.lineno)).fork()
                        b.attrs[(o, tgt.attr)] = new
                        out.append(b)
            elif isinstance(tgt, ast.Subscript):
                for b, o in self.ev(tgt.value, a):
                    for c, i in self.ev(tgt.slice, b):
                        lst = ("item", o, i)
                        if self.w.spec.is_list(lst, self.w) and isinstance(s.op, ast.Add):
                            out.append(self.extend(lst, v, c, s.lineno))
                        else:
                            out.append(self.emit(c, ("augset", o, i, v, s.lineno)))
            else:
                out.append(a)
        return out

    def extend(self, lst, v, st, line):
        if v[0] == "list":
            for x in v[1]:
                st = self.emit(st, ("add", lst, self.end(lst, st), x, line), lst, +1)
            return st
        return self.emit(st, ("extend", lst, self.length(v, st) or ("opaque", ("len", v)), line), lst, 0)

    # expressions ---------------------------------------------------------------------
    def ev(self, e, st):
        """[(state, value)]"""
        if isinstance(e, ast.Constant):
            return [(st, ("const", e.value))]
        if isinstance(e, ast.Name):
            return [(st, st.env.get(e.id, ("global", e.id)))]
        if isinstance(e, ast.Attribute):
            return [r for a, o in self.ev(e.value, st) for r in self.attr(e, o, self.need(o, e, a))]
        if isinstance(e, ast.Subscript):
            out = []
            for a, o in self.ev(e.value, st):
                for b, i in self.ev(e.slice, a):
                    b = self.emit(b, ("lookup", o, i, e.lineno))
                    out.append((b, self.item(o, i, b)))
            return out
        if isinstance(e, ast.Slice):
            parts = []
            sts = [(st, ())]
            for x in (e.lower, e.upper, e.step):
                nxt = []
                for s, acc in sts:
                    if x is None:
                        nxt.append((s, acc + (NONE,)))
                    else:
                        nxt += [(a, acc + (v,)) for a, v in self.ev(x, s)]
                sts = nxt
            return [(s, ("op", "slice", acc)) for s, acc in sts]
        if isinstance(e, (ast.List, ast.Tuple)):
            return self.many(e.elts, st, lambda vs: spliced(e.elts, vs))
        if isinstance(e, ast.Set):
            return self.many(e.elts, st, lambda vs: ("op", "set", tuple(vs)))
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st)
        if isinstance(e, ast.NamedExpr):
            return [(y, v) for a, v in self.ev(e.value, st) for y in self.store(e.target, v, a, None)]
        if isinstance(e, ast.BinOp):
            return [(b, self.arith(opname(e.op), x, y)) for a, x in self.ev(e.left, st) for b, y in self.ev(e.right, a)]
        if isinstance(e, ast.UnaryOp):
            n = {ast.Not: "not", ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}[type(e.op)]
            r = []
            for a, v in self.ev(e.operand, st):
                if n == "neg" and v[0] == "const" and isinstance(v[1], (int, float)):
                    r.append((a, ("const", -v[1])))
                else:
                    r.append((a, ("op", n, (v,))))
            return r
        if isinstance(e, ast.BoolOp):
            return self.many(e.values, st, lambda vs: ("op", "bool" + type(e.op).__name__, tuple(vs)))
        if isinstance(e, ast.Compare):
            def mk(vs):
                parts = []
                for i, op in enumerate(e.ops):
                    parts.append(compare(op, vs[i], vs[i + 1]))
                return parts[0] if len(parts) == 1 else ("op", "and", tuple(parts))
            return self.many([e.left] + e.comparators, st, mk)
        if isinstance(e, ast.IfExp):
            t, f = self.branch(e.test, st)
            return [r for s in t for r in self.ev(e.body, s)] + [r for s in f for r in self.ev(e.orelse, s)]
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.comp(e, st)
        if isinstance(e, ast.DictComp):
            return [(st, self.w.fresh("dict"))]
        if isinstance(e, ast.JoinedStr):
            return [(st, ("opaque", ("str",)))]
        if isinstance(e, ast.Dict):
            vals = [v for v in e.values]
            return self.many(vals, st, lambda vs: self.w.fresh("dict"))
        if isinstance(e, ast.Lambda):
            return [(st, self.w.fresh("lambda"))]
        return [(st, self.w.fresh())]

    def comp(self, e, st):
        if len(e.generators) != 1:
            return [(st, self.w.fresh("comp"))]
        g = e.generators[0]
        out = []
        for a, it in self.ev(g.iter, st):
            x = a.fork()
            inner = self.store(g.target, self.element(it), x, None)[0]
            if not g.ifs:
                elt = NONE
                try:
                    r = self.ev(e.elt, inner)
                    elt = r[0][1]
                except TooMany:
                    pass
                out.append((a, ("map", it, elt)))
                continue
            # [x for i, x in enumerate(L) if i != k] drops one element
            v = None
            if len(g.ifs) == 1:
                c = self.ev(g.ifs[0], inner)[0][1]
                neg = c[0] == "op" and c[1] == "not"
                c = c[2][0] if neg else c
                if neg and c[0] == "op" and c[1] == "==" and it[0] == "op" and it[1] == "enumerate":
                    a1, a2 = c[2]
                    idx = ("index", it[2][0])
                    elt = self.ev(e.elt, inner)[0][1]
                    if idx in (a1, a2) and elt == ("elem", it[2][0]):
                        v = ("deleted", it[2][0], a2 if a1 == idx else a1)
            out.append((a, v or ("op", "filter", (it, ("opaque", ast.dump(g.ifs[0]))))))
        return out

    def many(self, exprs, st, mk):
        cur = [(st, [])]
        for x in exprs:
            cur = [(a, vs + [v]) for s, vs in cur for a, v in self.ev(x, s)]
        return [(s, mk(vs)) for s, vs in cur]

    def arith(self, op, x, y):
        if op == "+" or op == "-":
            for a, b in ((x, y), (y, x)):
                if a[0] == "n" and b[0] == "const" and isinstance(b[1], int) and (op == "+" or a is x):
                    return ("n", a[1], a[2], a[3] + (b[1] if op == "+" else -b[1]))
            inv = "-" if op == "+" else "+"
            if x[0] == "op" and x[1] == inv and len(x[2]) == 2 and x[2][1] == y:
                return x[2][0]
            if x[0] == "const" and y[0] == "const" and isinstance(x[1], (int, float)) and isinstance(y[1], (int, float)):
                return ("const", x[1] + y[1] if op == "+" else x[1] - y[1])
            if op == "+" and x[0] == "list" and y[0] == "list":
                return ("list", x[1] + y[1])
            if op == "+":
                # L[:k] + L[k+1:] drops one element
                if x[0] == "item" and y[0] == "item" and x[1] == y[1]:
                    sx, sy = x[2], y[2]
                    if sx[0] == sy[0] == "op" and sx[1] == sy[1] == "slice" and sx[2][0] == NONE and sy[2][1] == NONE:
                        if self.arith("+", sx[2][1], ("const", 1)) == sy[2][0]:
                            return ("deleted", x[1], sx[2][1])
        return ("op", op, (x, y))

    def item(self, o, i, st):
        if o[0] == "list" and i[0] == "const" and isinstance(i[1], int) and -len(o[1]) <= i[1] < len(o[1]):
            return o[1][i[1]]
        if self.w.spec.group(o, self.w) is not None and i == ("const", -1):
            b, k = st.net.get(o, (0, 0))
            i = ("n", self.w.spec.group(o, self.w), b, k - 1)
        v = st.attrs.get(("item", o, i))
        if v is not None and not self.w.spec.is_list(("item", o, i), self.w):
            return v
        return ("item", o, i)

    def attr(self, e, o, st):
        lst = ("attr", o, e.attr)
        if self.w.spec.is_list(lst, self.w) or self.w.spec.group(lst, self.w) is not None:
            if self.w.spec.group(lst, self.w) is not None and not self.w.spec.is_list(lst, self.w):
                return [(st, self.end(lst, st))]           # a counter kept in step
            return [(st, lst)]
        if (o, e.attr) in st.attrs:
            return [(st, st.attrs[(o, e.attr)])]
        if o == ("self",) and self.w.cls is not None:
            m = self.w.p.find_method(self.w.cls, e.attr)
            if m is not None and m.is_property and self.depth < DEPTH:
                v = self.value_of(m, o, st)
                if v is not None:
                    return [(st, v)]
            if e.attr == "n_obstacles" and m is None:
                return [(st, self.end(self.w.spec.base_list(self.w), st))]
        return [(st, lst)]

    def value_of(self, m, o, st):
        """the value a property / __len__ has, when it is the same on all its paths and nothing else happens"""
        fr = Frame(self.w, m, self.depth + 1)
        inner = State({m.self_name: o}, dict(st.attrs), {}, (), dict(st.net))
        out = fr.block(m.node.body, [inner])
        rets = fr.returns + [(s, NONE) for s in out]
        if len({v for _, v in rets}) != 1 or any(s.events for s, _ in rets):
            return None
        v = rets[0][1]
        return None if v[0] == "opaque" else v

    # calls -------------------------------------------------------------------------------
    def call(self, e, st):
        fn = e.func
        args = list(e.args)
        kws = [k.value for k in e.keywords]
        out = []
        recv_expr = fn.value if isinstance(fn, ast.Attribute) else None
        is_super = isinstance(recv_expr, ast.Call) and isinstance(recv_expr.func, ast.Name) and recv_expr.func.id == "super"
        heads = [(st, ("self",))] if is_super else (self.ev(recv_expr, st) if recv_expr is not None else [(st, None)])
        for a, recv in heads:
            if recv is not None and not is_super:
                a = self.need(recv, e, a)
            for b, vs in self.many(args + kws, a, lambda vs: ("list", tuple(vs))):
                vs = list(vs[1])
                pos, kw = vs[:len(args)], {k.arg: v for k, v in zip(e.keywords, vs[len(args):])}
                out += self.apply(e, fn, recv, is_super, pos, kw, b)
        return out

    def apply(self, e, fn, recv, is_super, pos, kw, st):
        w, spec = self.w, self.w.spec
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
        if isinstance(fn, ast.Attribute):
            target = None
            if is_super:
                g = self.f
                while g is not None and g.cls is None:
                    g = g.parent
                if g is not None and w.cls is not None:
                    mro = w.p.mro(w.cls)
                    i = mro.index(g.cls) if g.cls in mro else 0
                    for k in mro[i + 1:]:
                        if name in k.methods:
                            target = k.methods[name]
                            break
                    if target is None:
                        return [self.external_base(name, pos, e, st)]
            elif recv == ("self",) and w.cls is not None:
                target = w.p.find_method(w.cls, name)
                if target is not None and target.is_property:
                    target = None
            # list operations
            if target is None and recv is not None and spec.is_list(recv, w):
                r = self.listop(recv, name, pos, e, st)
                if r is not None:
                    return r
            if target is None and not (recv == ("self",)):
                ts = [t for t in w.calls.targets(e, self.f, self.f.module) if t.func is not None]
                if len(ts) == 1 and (ts[0].exact or name not in COMMON and recv is not None and recv[0] in ("param", "elem", "item", "attr")):
                    target = ts[0].func
                    if not ts[0].bound and not Walk.static(target):
                        recv, pos = (pos[0] if pos else None), pos[1:]
            if target is not None and spec.touching(target) and self.depth < DEPTH:
                bound = self.bind(target, recv, pos, kw, st)
                if bound is not None:
                    return self.inline(target, st, bound)
            st = self.emit(st, ("call", name, recv, tuple(pos), e.lineno))
            if recv is not None and recv[0] == "list" and isinstance(fn.value, ast.Name) and st.env.get(fn.value.id) == recv \
                    and name not in ("copy", "index", "count"):
                st = st.fork()                           # a local list is changed
                st.env[fn.value.id] = ("list", recv[1] + (pos[0],)) if name == "append" and len(pos) == 1 else \
                    self.w.fresh("mutated")
            v = ("op", name, ((recv,) if recv is not None and recv[0] != "global" else ()) + tuple(pos))
            if recv is not None and recv[0] == "global":
                v = self.array_op(name, pos)
            return [(st, v)]
        if isinstance(fn, ast.Name):
            if name == "len" and len(pos) == 1:
                o = pos[0]
                if o == ("self",) and w.cls is not None:
                    m = w.p.find_method(w.cls, "__len__")
                    if m is None:
                        return [(st, self.end(spec.base_list(w), st))]
                    v = self.value_of(m, o, st)
                    if v is not None:
                        return [(st, v)]
                ln = self.length(o, st)
                if ln is not None:
                    return [(st, ln)]
                return [(st, ("op", "len", (o,)))]
            ts = [t for t in w.calls.targets(e, self.f, self.f.module)]
            fs = [t.func for t in ts if t.func is not None]
            if len(fs) == 1 and spec.touching(fs[0]) and self.depth < DEPTH:
                bound = self.bind(fs[0], None, pos, kw, st)
                if bound is not None:
                    return self.inline(fs[0], st, bound)
            cs = [t.cls for t in ts if t.cls is not None]
            if cs:
                w.ids += 1
                v = ("new", (e.lineno, e.col_offset), cs[0].name)
                st = self.emit(st, ("new", v, cs[0].name, tuple(pos), tuple(sorted(kw.items())), e.lineno))
                return [(st, v)]
            if name in ("list", "dict", "set") and not pos:
                return [(st, ("list", ()) if name == "list" else w.fresh(name))]
            st = self.emit(st, ("call", name, None, tuple(pos), e.lineno))
            return [(st, ("op", name, tuple(pos)))]
        return [(st, w.fresh("call"))]

    def array_op(self, name, pos):
        if name in ("hstack", "concatenate", "r_") and pos and pos[0][0] == "list":
            return ("concat", pos[0][1])
        if name == "append" and len(pos) == 2:
            one = lambda v: v if v[0] == "list" or self.w.spec.is_list(v, self.w) else ("list", (v,))
            return ("concat", (one(pos[0]) if self.w.spec.is_list(pos[1], self.w) else pos[0], one(pos[1])))
        if name == "delete" and len(pos) == 2:
            return ("deleted", pos[0], pos[1])
        if name == "insert" and len(pos) == 3:
            return ("op", "inserted", tuple(pos))
        return ("op", name, tuple(pos))

    def listop(self, lst, name, pos, e, st):
        line = e.lineno
        if name == "append" and pos:
            return [(self.emit(st, ("add", lst, self.end(lst, st), pos[0], line), lst, +1), NONE)]
        if name == "insert" and len(pos) == 2:
            return [(self.emit(st, ("add", lst, pos[0], pos[1], line), lst, +1), NONE)]
        if name == "extend" and pos:
            return [(self.extend(lst, pos[0], st, line), NONE)]
        if name == "pop":
            at = pos[0] if pos else ("const", -1)
            return [(self.emit(st, ("del", lst, at, line), lst, -1), ("item", lst, at))]
        if name == "remove" and pos:
            return [(self.emit(st, ("remove", lst, pos[0], line), lst, -1), NONE)]
        if name == "clear":
            return [(self.replace(lst, ("list", ()), st, line), NONE)]
        if name in ("reverse", "sort"):
            return [(self.emit(st, (name, lst, line)), NONE)]
        return None

    def external_base(self, name, pos, e, st):
        lst = self.w.spec.base_list(self.w)
        line = e.lineno
        if name == "append":
            return self.emit(st, ("add", lst, self.end(lst, st), pos[0] if pos else NONE, line), lst, +1), NONE
        if name in ("__delitem__", "pop"):
            return self.emit(st, ("del", lst, pos[0] if pos else ("const", -1), line), lst, -1), NONE
        if name == "insert" and len(pos) == 2:
            return self.emit(st, ("add", lst, pos[0], pos[1], line), lst, +1), NONE
        if name == "__setitem__" and len(pos) == 2:
            return self.emit(st, ("set", lst, pos[0], pos[1], line)), NONE
        return st, self.w.fresh("super")

    def bind(self, g: Func, recv, pos, kw, st):
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if g.cls is not None and not Walk.static(g):
            if recv is None or not names:
                return None
            env[names[0]] = recv
            names = names[1:]
        elif g.cls is not None and names and names[0] == "cls":
            env["cls"] = ("global", g.cls.name)
            names = names[1:]
        for n, v in zip(names, pos):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = ("list", tuple(pos[len(names):]))
        for k, v in kw.items():
            if k is None:
                return None
            env[k] = v
        fr = Frame(self.w, g, self.depth + 1)
        pa = a.posonlyargs + a.args
        for x, d in list(zip(pa[len(pa) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if x.arg not in env and d is not None:
                env[x.arg] = fr.ev(d, State())[0][1]
        for x in pa + a.kwonlyargs:
            env.setdefault(x.arg, self.w.fresh("arg"))
        return env

    def inline(self, g: Func, st, env):
        inner = st.fork()
        inner.env = env
        fr = Frame(self.w, g, self.depth + 1)
        out = fr.block(g.node.body, [inner])
        ends = fr.returns + [(s, NONE) for s in out]
        res = []
        for s, v in ends:
            s = s.fork()
            s.env = dict(st.env)
            res.append((s, v))
        for s, n in fr.raises:
            if not self.w.spec.can_reject(g, env):
                break
            s = s.fork()
            s.env = dict(st.env)
            self.raises.append((s, n))
        return res


def catches(h, r):
    """the handler certainly catches what this statement raises"""
    if h.type is None:
        return True
    names = {n.id for n in ast.walk(h.type) if isinstance(n, ast.Name)}
    if names & {"Exception", "BaseException"}:
        return True
    e = r.exc
    if isinstance(e, ast.Call):
        e = e.func
    if not isinstance(e, ast.Name):
        return False
    bases = {"KeyError": "LookupError", "IndexError": "LookupError", "NotImplementedError": "RuntimeError"}
    return e.id in names or bases.get(e.id) in names


def opname(op):
    return {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.MatMult: "@", ast.Mod: "%",
            ast.FloorDiv: "//", ast.Pow: "**"}.get(type(op), type(op).__name__)


def compare(op, x, y):
    if isinstance(op, (ast.Is, ast.IsNot)):
        v = ("op", "is", tuple(sorted((x, y), key=repr)))
        return ("op", "not", (v,)) if isinstance(op, ast.IsNot) else v
    if isinstance(op, (ast.Eq, ast.NotEq)):
        v = ("op", "==", tuple(sorted((x, y), key=repr)))
        return ("op", "not", (v,)) if isinstance(op, ast.NotEq) else v
    if isinstance(op, (ast.In, ast.NotIn)):
        v = ("op", "in", (x, y))
        return ("op", "not", (v,)) if isinstance(op, ast.NotIn) else v
    if isinstance(op, ast.Lt):
        return ("op", "<", (x, y))
    if isinstance(op, ast.GtE):
        return ("op", "not", (("op", "<", (x, y)),))
    if isinstance(op, ast.Gt):
        return ("op", "<", (y, x))
    return ("op", "not", (("op", "<", (y, x)),))


def spliced(elts, vs):
    items = []
    for e, v in zip(elts, vs):
        if isinstance(e, ast.Starred):
            if v[0] == "list":
                items += list(v[1])
            else:
                return ("concat", tuple(x if isinstance(y, ast.Starred) else ("list", (x,)) for y, x in zip(elts, vs)))
        else:
            items.append(v)
    return ("list", tuple(items))


def added_items(v, lst):
    """the items when v is lst with items added at its end"""
    if v[0] == "concat" and v[1] and v[1][0] == lst:
        out = []
        for x in v[1][1:]:
            if x[0] != "list":
                return None
            out += list(x[1])
        return out
    if v[0] == "op" and v[1] == "+" and v[2][0] == lst:
        if v[2][1][0] == "list":
            return list(v[2][1][1])
        return [v[2][1]] if v[2][1][0] == "param" else None
    if v[0] == "op" and v[1] == "+" and v[2][0][0] == "op":
        a = added_items(v[2][0], lst)
        if a is not None and v[2][1][0] == "list":
            return a + list(v[2][1][1])
    return None


def mentions(v, x):
    return v == x or (isinstance(v, tuple) and any(mentions(y, x) for y in v))
