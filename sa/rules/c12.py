"""C12: a control cycle never stops for a person and never hides an error.

who-may-call rule over the resolved call sites of the control code, plus an exception-discipline rule
over every handler.
"""
from __future__ import annotations

import ast

from ..calls import Calls
from ..index import AnalysisBroken, Func, Program, walk_own
from ..report import Result
from ..scope import is_offline

# call target -> why a control cycle must not reach it
BLOCKING = {
    "builtins.breakpoint": "stops in the debugger",
    "builtins.input": "waits for the keyboard",
    "builtins.exit": "ends the process",
    "builtins.quit": "ends the process",
    "sys.exit": "ends the process",
    "os._exit": "ends the process",
    "os.abort": "ends the process",
    "pdb.set_trace": "stops in the debugger",
    "pdb.post_mortem": "stops in the debugger",
    "ipdb.set_trace": "stops in the debugger",
    "IPython.embed": "opens an interactive shell",
    "code.interact": "opens an interactive shell",
    "time.sleep": "sleeps",
    "sys.stdin.read": "waits for the keyboard",
    "sys.stdin.readline": "waits for the keyboard",
    "matplotlib.pyplot.show": "opens a window and waits",
    "matplotlib.pyplot.pause": "waits on the window",
    "matplotlib.pyplot.ginput": "waits for a mouse click",
    "matplotlib.pyplot.waitforbuttonpress": "waits for a key",
    "os.system": "runs another program",
    "os.popen": "runs another program",
}
BLOCKING_PREFIX = {
    "subprocess.": "runs another program",
    "socket.": "uses the network",
    "urllib.": "uses the network",
    "requests.": "uses the network",
    "pdb.": "stops in the debugger",
}
# functions outside the plotting modules that draw by design (their name says so)
DRAWING = ("plot", "_plot", "draw", "visualize", "test_", "_test", "animate")
BROAD = {None, "Exception", "BaseException"}


def is_drawing(f: Func) -> bool:
    g = f
    while g is not None:
        if g.name.startswith(DRAWING):
            return True
        g = g.parent
    return False


def blocked(t) -> str | None:
    if t.ext is None:
        return None
    if t.ext in BLOCKING:
        return BLOCKING[t.ext]
    for p, why in BLOCKING_PREFIX.items():
        if t.ext.startswith(p):
            return why
    return None


def reraises(h: ast.ExceptHandler) -> bool:
    """Every path through the handler ends in a raise."""
    from ..flow import Flow

    class F(Flow):
        def join(self, a, b):
            return a

        def copy(self, s):
            return dict(s)

    fl = F()
    fl._loops.append(([], []))
    out = fl.block(h.body, {})
    return out is None and not fl.returns and not fl._loops[-1][0] and not fl._loops[-1][1]


def exc_names(h: ast.ExceptHandler) -> list:
    if h.type is None:
        return [None]
    elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [ast.unparse(e).split(".")[-1] for e in elts]


SUPERS = {
    "ValueError": ["ValueError"],
    "NotImplementedError": ["NotImplementedError", "RuntimeError"],
    "TypeError": ["TypeError"],
    "IndexError": ["IndexError", "LookupError"],
    "KeyError": ["KeyError", "LookupError"],
    "RuntimeError": ["RuntimeError"],
    "AttributeError": ["AttributeError"],
    "Exception": [],
}


def raise_sets(prog: Program, calls: Calls):
    """Function -> names of exceptions the library itself raises explicitly, through resolved calls."""
    own, edges = {}, {}
    for f in prog.iter_funcs():
        s = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                nm = ast.unparse(e).split(".")[-1]
                if nm[:1].isupper():
                    s.add(nm)
        own[f.uid] = s
        tgt = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                for t in calls.targets(n, f, f.module):
                    if t.func is not None and t.exact:
                        tgt.add(t.func.uid)
                    elif t.cls is not None and prog.init_func(t.cls):
                        tgt.add(prog.init_func(t.cls).uid)
        edges[f.uid] = tgt
    changed = True
    while changed:
        changed = False
        for u in own:
            new = set(own[u])
            for v in edges[u]:
                new |= own.get(v, set())
            if new != own[u]:
                own[u] = new
                changed = True
    return own


# what a lookup raises when the thing is not there: the one reading of the error that a handler can recover from
LOOKUPS = {"ValueError": "index", "KeyError": "subscript", "StopIteration": "next", "AttributeError": "attribute"}


def harmless(st) -> bool:
    """A statement that moves names around and cannot fail."""
    if isinstance(st, (ast.Pass, ast.Break, ast.Continue)):
        return True
    v = getattr(st, "value", None)
    return isinstance(st, (ast.Return, ast.Assign, ast.Expr)) and (v is None or isinstance(v, (ast.Name, ast.Constant)))


def left_unset(f: Func, n: ast.Try, h: ast.ExceptHandler) -> str | None:
    """A name the guarded body binds, the handler neither binds nor leaves, and code below the try reads."""
    inside = {x for st in n.body for x in ast.walk(st)}
    bound = {x.id for x in inside if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    bound -= {x.id for st in h.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    last = h.body[-1]
    if isinstance(last, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return None
    for x in walk_own(f.node):
        if isinstance(x, ast.Name) and x.id in bound and isinstance(x.ctx, ast.Store) and x.lineno < n.lineno:
            bound.discard(x.id)
    again: dict = {}
    for x in walk_own(f.node):
        if isinstance(x, ast.Name) and x.id in bound and isinstance(x.ctx, ast.Store) and x.lineno > n.end_lineno:
            again[x.id] = min(x.lineno, again.get(x.id, x.lineno))
    for x in walk_own(f.node):
        if isinstance(x, ast.Name) and x.id in bound and isinstance(x.ctx, ast.Load) and \
                n.end_lineno < x.lineno <= again.get(x.id, x.lineno):
            return x.id
    return None


def lookup_miss(body: list, names: list) -> bool:
    """The guarded statement does one lookup and the handler names exactly the error of a lookup that misses."""
    body = [st for st in body if not harmless(st)]
    if len(body) != 1 or not isinstance(body[0], (ast.Assign, ast.AnnAssign, ast.Return, ast.Expr)):
        return False
    value = body[0].value
    if value is None:
        return False
    calls = [n for n in ast.walk(value) if isinstance(n, ast.Call)]
    for x in names:
        kind = LOOKUPS.get(x)
        if kind == "index":
            ok = len(calls) == 1 and isinstance(calls[0].func, ast.Attribute) and calls[0].func.attr == "index"
        elif kind == "subscript":
            ok = not calls and any(isinstance(n, ast.Subscript) for n in ast.walk(value))
        elif kind == "next":
            ok = any(isinstance(c.func, ast.Name) and c.func.id == "next" for c in calls)
        elif kind == "attribute":
            ok = not calls
        else:
            ok = False
        if not ok:
            return False
    return True


def goes_on_before_leaving(n: ast.Try):
    """A jump in `finally` drops the error that is on its way to the caller."""
    todo = list(n.finalbody)
    while todo:
        st = todo.pop()
        if isinstance(st, (ast.Return, ast.Break, ast.Continue)):
            return st
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.For, ast.While)):
            todo += [m for m in ast.walk(st) if isinstance(m, ast.Return)] if isinstance(st, (ast.For, ast.While)) else []
            continue
        todo += [c for c in ast.iter_child_nodes(st) if isinstance(c, ast.stmt)]
    return None


SILENCERS = {
    "numpy.seterr": "turns numerical errors off for the whole process",
    "numpy.seterrcall": "redirects numerical errors for the whole process",
    "warnings.filterwarnings": "turns warnings off for the whole process",
    "warnings.simplefilter": "turns warnings off for the whole process",
    "logging.disable": "turns messages off for the whole process",
}
QUIET_WORDS = {"ignore"}


def silences(n: ast.Call, ext: str | None) -> str | None:
    if ext not in SILENCERS:
        return None
    if ext == "logging.disable" or ext == "numpy.seterrcall":
        return SILENCERS[ext]
    words = [a.value for a in list(n.args) + [k.value for k in n.keywords] if isinstance(a, ast.Constant)]
    return SILENCERS[ext] if any(w in QUIET_WORDS for w in words) else None


def unasked_drawing(prog: Program, calls: Calls, f: Func, res: Result):
    """A drawing call outside the plotting code stands under a flag that is off by default."""
    defaults = {}
    a = f.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        defaults[p.arg] = d
    def off(test) -> bool | None:
        """The branch is not taken unless the caller asked for it."""
        if isinstance(test, ast.Constant):
            return not test.value
        if isinstance(test, ast.BoolOp):
            vals = [off(v) for v in test.values]
            return any(vals) if isinstance(test.op, ast.And) else all(vals)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            d = defaults.get(test.left.id)
            isnone = isinstance(d, ast.Constant) and d.value is None
            return isnone and isinstance(test.ops[0], ast.IsNot)
        if isinstance(test, ast.Name):
            d = defaults.get(test.id)
            if isinstance(d, ast.Constant):
                return not d.value
            return False
        if isinstance(test, ast.Attribute) and isinstance(test.value, ast.Name) and test.value.id == "self" and f.cls:
            for c in prog.mro(f.cls):
                for st in c.node.body:
                    t = st.targets[0] if isinstance(st, ast.Assign) else getattr(st, "target", None)
                    if isinstance(t, ast.Name) and t.id == test.attr and isinstance(getattr(st, "value", None), ast.Constant):
                        return not st.value.value
            return False
        return False
    def visit(body, asked):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(st, ast.If):
                check([st.test], asked)
                visit(st.body, asked or off(st.test) is True)
                flipped = st.test.operand if isinstance(st.test, ast.UnaryOp) and isinstance(st.test.op, ast.Not) else None
                visit(st.orelse, asked or (flipped is not None and off(flipped) is True))
                if flipped is not None and off(flipped) and st.body and isinstance(
                        st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                    asked = True
                continue
            heads, bodies = [], []
            for name, val in ast.iter_fields(st):
                if isinstance(val, list) and val and isinstance(val[0], ast.stmt):
                    bodies.append(val)
                elif isinstance(val, list) and val and isinstance(val[0], ast.ExceptHandler):
                    bodies += [h.body for h in val]
                elif isinstance(val, ast.AST):
                    heads.append(val)
                elif isinstance(val, list):
                    heads += [x for x in val if isinstance(x, ast.AST)]
            check(heads, asked)
            for b in bodies:
                visit(b, asked)
    def check(nodes, asked):
        for x in nodes:
            for n in ast.walk(x):
                if isinstance(n, ast.Call):
                    for t in calls.targets(n, f, f.module):
                        if t.ext and t.ext.startswith("matplotlib.") and not blocked(t):
                            res.count("drawing calls")
                            if not asked:
                                res.add("draws-unasked", f"{f.key}:{t.ext}", f"{f.module.path}:{n.lineno}",
                                        f"{t.ext} in library code is not under a flag that is off by default")
    visit(f.node.body, False)


def analyse(prog: Program, res: Result):
    calls = Calls(prog)
    raises = raise_sets(prog, calls)
    for f in prog.iter_funcs():
        if is_offline(f.module):
            continue
        res.count("functions")
        drawing = is_drawing(f)
        if not drawing:
            unasked_drawing(prog, calls, f, res)
        for n in walk_own(f.node):
            if isinstance(n, ast.Call):
                res.count("call sites")
                res.oblige()
                if drawing:
                    continue
                for t in calls.targets(n, f, f.module):
                    why = blocked(t)
                    if why:
                        nm = t.ext.replace("builtins.", "")
                        res.add("blocking-call", f"{f.key}:{nm}", f"{f.module.path}:{n.lineno}",
                                f"{nm}() {why} in library code")
                    why = silences(n, t.ext)
                    if why:
                        res.add("error-swallowed", f"{f.key}:{t.ext}", f"{f.module.path}:{n.lineno}",
                                f"{t.ext} {why} in library code")
            elif isinstance(n, ast.Try):
                jump = goes_on_before_leaving(n)
                if jump is not None:
                    res.add("error-swallowed", f"{f.key}:finally", f"{f.module.path}:{jump.lineno}",
                            "a jump in finally drops the error that is being raised")
                for h in n.handlers:
                    res.count("handlers")
                    res.oblige(f"{f.module.path}:{h.lineno} except {ast.unparse(h.type) if h.type else ''} in {f.qual}")
                    names = exc_names(h)
                    if any(x in BROAD for x in names):
                        if not reraises(h):
                            res.add("error-swallowed", f"{f.key}:except {names[0] or ''}".rstrip(),
                                    f"{f.module.path}:{h.lineno}",
                                    "a handler for every exception continues instead of raising again")
                        continue
                    if reraises(h):
                        continue
                    lost = left_unset(f, n, h)
                    if lost:
                        res.add("error-swallowed", f"{f.key}:{lost}", f"{f.module.path}:{h.lineno}",
                                f"the error that leaves '{lost}' without a value is dropped, and '{lost}' is used below")
                    if not lookup_miss(n.body, names):
                        res.add("error-swallowed", f"{f.key}:except {' '.join(names)}",
                                f"{f.module.path}:{h.lineno}",
                                f"{', '.join(names)} is caught around more than one lookup that can miss, and the "
                                "library goes on without telling the caller")
                        continue
                    hidden = set()
                    for st in n.body:
                        for m in ast.walk(st):
                            if isinstance(m, ast.Raise) and m.exc is not None:
                                e = m.exc.func if isinstance(m.exc, ast.Call) else m.exc
                                hidden.add((ast.unparse(e).split(".")[-1], f.qual))
                            if isinstance(m, ast.Call):
                                for t in calls.targets(m, f, f.module):
                                    g = t.func if t.func is not None and t.exact else (
                                        prog.init_func(t.cls) if t.cls is not None else None)
                                    if g is not None:
                                        hidden |= {(x, g.qual) for x in raises[g.uid]}
                    for x, via in sorted(hidden):
                        sup = SUPERS.get(x, [x])
                        if any(nm == x or nm in sup for nm in names):
                            res.add("error-swallowed", f"{f.key}:{x} from {via}",
                                    f"{f.module.path}:{h.lineno}",
                                    f"the {x} that {via} raises on purpose is caught and dropped here")
            elif isinstance(n, ast.With):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and ast.unparse(c.func).endswith("suppress"):
                        res.add("error-swallowed", f"{f.key}:suppress", f"{f.module.path}:{n.lineno}",
                                "contextlib.suppress drops errors in library code")
    # module level statements of importable library modules
    for m in prog.modules.values():
        if is_offline(m):
            continue
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(st, ast.If) and "__name__" in ast.unparse(st.test):
                continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call):
                    res.oblige()
                    for t in calls.targets(n, None, m):
                        why = blocked(t)
                        quiet = silences(n, t.ext)
                        if quiet:
                            res.add("error-swallowed", f"{m.name}:<module>:{t.ext}", f"{m.path}:{n.lineno}",
                                    f"importing the module {quiet}")
                        if why:
                            res.add("blocking-call", f"{m.name}:<module>:{t.ext}", f"{m.path}:{n.lineno}",
                                    f"importing the module {why}")


def self_test():
    """Expected-zero rule: a tiny tree that must be reported."""
    import os
    import tempfile

    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.join(d, "nonlinear_avoidance"))
        with open(os.path.join(d, "nonlinear_avoidance", "x.py"), "w") as fh:
            fh.write(
                "import pdb as p\nimport matplotlib.pyplot as plt\n"
                "def check(v):\n    if v < 0:\n        raise ValueError('x')\n    return v\n"
                "def evaluate(v):\n    p.set_trace()\n    plt.show()\n    breakpoint()\n"
                "    try:\n        w = check(v)\n    except ValueError:\n        w = 0\n"
                "    try:\n        w = 1\n    except Exception:\n        pass\n    return w\n"
                "def leave(v, ax=None):\n    try:\n        v.remove(3)\n    except ValueError:\n        pass\n"
                "    try:\n        v = v.index(3)\n    except ValueError:\n        v = 0\n"
                "    plt.figure()\n    if ax is not None:\n        plt.figure()\n"
            )
        res = Result("")
        analyse(Program(d), res)
        if len(res.findings) != 7:
            raise AnalysisBroken(f"C12 self test: {[f.key for f in res.findings]}")


def run(prog: Program, tier: str) -> Result:
    res = Result(
        "Every call site of the control code (all modules except plotting and offline evaluation drivers, "
        "all functions except plotting helpers) is resolved through imports and aliases and compared with a "
        "table of calls that stop, wait, end the process or leave it; every exception handler is checked to "
        "re-raise when it catches everything, to guard nothing but one lookup that may miss when it goes on, and "
        "not to drop an exception that the guarded library calls raise on purpose; no jump in finally, no "
        "process-wide silencing of warnings; drawing calls stand under a flag that is off by default."
    )
    res.rules = ["blocking-call", "error-swallowed", "draws-unasked"]
    res.assumptions = ["vartools and dynamic_obstacle_avoidance themselves neither block nor exit"]
    analyse(prog, res)
    res.floor("functions", 350)
    res.floor("call sites", 1200)
    res.floor("handlers", 3)
    return res
