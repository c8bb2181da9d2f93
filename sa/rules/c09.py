"""C09: degenerate geometry gives a finite answer or a clear error.

Every division, root, logarithm, inverse cosine and fractional power of the evaluation code is an
obligation: the range analysis must show that its operand is inside the domain on every path.  Operands
that are inside the domain only by a contract with the caller (a quantity handed in, a geometric fact) are
counted per module and kind in preconditions.json, which was reviewed by hand; one more than reviewed is a
lost guard.
"""
from __future__ import annotations

import ast
import json
import os

from ..calls import Calls
from ..index import Program
from ..interval import Ranges, analyse, canon, fname, key
from ..report import VERIF, Result
from ..scope import core_funcs, is_legacy

TABLE = os.path.join(VERIF, "sa", "preconditions.json")


def resolve(e, s, depth=0):
    c = canon(e)
    while isinstance(c, ast.Name) and c.id in s["d"] and depth < 6:
        c = canon(s["d"][c.id][0])
        depth += 1
    return c


def kind_of(e, s):
    c = resolve(e, s)
    if isinstance(c, ast.Call):
        n = fname(c) or (c.func.attr if isinstance(c.func, ast.Attribute) else "")
        if n in ("norm",):
            return "norm"
        if n in ("sum", "max", "min", "mean"):
            return "sum"
        if n in ("tile", "repeat", "array", "sqrt", "copy") and c.args:
            return kind_of(c.args[0], s)
    if isinstance(c, ast.Attribute) and c.attr == "T":
        return kind_of(c.value, s)
    if isinstance(c, ast.BinOp):
        if isinstance(c.op, (ast.Sub, ast.Add)):
            return "difference"
        if isinstance(c.op, ast.Mult):
            ks = [kind_of(c.left, s), kind_of(c.right, s)]
            for k in ("norm", "sum", "difference"):
                if k in ks:
                    return k
    return "quantity"


def factors(e, s, r):
    """Factors of a product that are not shown to be non-zero."""
    c = canon(e)
    if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Mult):
        return factors(c.left, s, r) + factors(c.right, s, r)
    return [] if r.ev(c, s).nonzero else [c]


def run(p: Program, tier: str) -> Result:
    res = Result("Path-sensitive range analysis: every division, root, logarithm, inverse cosine and fractional "
                 "power gets an operand inside its domain.")
    res.rules = ["an operation with a restricted domain is only reached where the operand was tested, clipped or "
                 "is inside the domain by construction"]
    res.assumptions = ["A setting with a positive default is positive.",
                       "preconditions.json: operands that rest on a reviewed contract (count per module and kind)."]
    calls = Calls(p)
    funcs = [f for f in core_funcs(p) if not is_legacy(f.module) and not isinstance(f.node, ast.Lambda)
             and not f.name.startswith("test_")]
    sites: dict = {}

    def note(r: Ranges, e, what, kind, ok, text, s, operand):
        k = (r.fn.module.name, r.fn.key, getattr(e, "lineno", 0), getattr(e, "col_offset", 0), what)
        old = sites.get(k)
        n = r.guards(s, operand)
        sites[k] = (ok and (old is None or old[0]), kind, text, r.fn, getattr(e, "lineno", 0),
                    n if old is None else min(n, old[5]))

    def visit(r: Ranges, e, s):
        den = None
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Div, ast.FloorDiv, ast.Mod)) and not isinstance(
                e.left, (ast.JoinedStr,)) and not (isinstance(e.left, ast.Constant) and isinstance(e.left.value, str)):
            den = e.right
        elif isinstance(e, ast.AugAssign) and isinstance(e.op, (ast.Div, ast.FloorDiv, ast.Mod)):
            den = e.value
        if den is not None:
            if isinstance(den, ast.Constant):
                return
            ok = r.ev(den, s).nonzero
            bad = den
            if not ok:
                fs = factors(den, s, r)
                ok = not fs
                bad = fs[0] if fs else den
            note(r, e, "division", kind_of(bad, s), ok, ast.unparse(den)[:70], s, bad)
            return
        if isinstance(e, ast.Call):
            canon(e)
            n = fname(e) if e.args else None
            if n in ("arccos", "acos", "arcsin", "asin"):
                x = r.ev(e.args[0], s)
                # a product of two unit vectors exceeds one only by rounding
                note(r, e, n, "angle", x.lo >= -1 and x.hi <= 1, ast.unparse(e.args[0])[:70], s,
                     e.args[0])
            elif n == "sqrt":
                note(r, e, n, "root", r.ev(e.args[0], s).nonneg, ast.unparse(e.args[0])[:70], s, e.args[0])
            elif n in ("log", "log2", "log10"):
                note(r, e, n, "logarithm", r.ev(e.args[0], s).positive, ast.unparse(e.args[0])[:70], s, e.args[0])
            return
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow):
            if isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and e.right.value >= 0:
                return
            x = r.ev(e.left, s)
            note(r, e, "power", "power", x.nonneg or x.positive, ast.unparse(e)[:70], s, e)

    analyse(p, calls, funcs, visit)
    table = {}
    if os.path.exists(TABLE):
        table = json.load(open(TABLE, encoding="utf-8"))
    open_sites: dict = {}
    for (mod, fk, line, col, what), (ok, kind, text, fn, ln, n) in sorted(sites.items()):
        res.count("operations with a restricted domain")
        res.oblige(f"{fk}:{ln} {what} by {text}")
        if ok:
            res.count("shown inside the domain")
        else:
            res.count("reviewed preconditions")
            res.count("tests the reviewed preconditions stand under", n)
            open_sites.setdefault(mod, []).append((kind, what, text, fn, ln, n))
    res.open_sites = open_sites
    # judged per module: extracting a helper moves an operation to another function and changes how its
    # operand is named, neither their number nor the tests they stand under
    for mod, rows in sorted(open_sites.items()):
        rev = [(k, q, n) for k, e in table.get(mod, {}).items() for q, ns in e.items() for n in ns]
        shown = []
        if len(rows) > len(rev):
            kinds = {k for k, *_ in rows}
            for kind in sorted(kinds):
                here = [x for x in rows if x[0] == kind]
                if len(here) <= sum(1 for k, _, _ in rev if k == kind):
                    continue
                per: dict = {}
                for x in here:
                    per.setdefault(x[3].qual, []).append(x)
                more = [x for q, xs in per.items() if len(xs) > sum(1 for k, f, _ in rev if (k, f) == (kind, q))
                        for x in xs]
                shown += more or here
            for kind, what, text, fn, ln, n in shown or rows:
                res.add("unguarded-" + kind, f"{fn.module.name.split('.')[-1]}:{fn.qual}", f"{fn.module.path}:{ln}",
                        f"{what} by '{text}' is reached without a test that it is inside the domain "
                        f"({len(rows)} such operations in this module, {len(rev)} reviewed)")
            continue
        # no operation lost a test it was reviewed with
        for t in range(1, 1 + max([n for *_, n in rev], default=0)):
            if sum(1 for *_, n in rows if n < t) > sum(1 for *_, n in rev if n < t):
                per = {}
                for x in rows:
                    per.setdefault(x[3].qual, []).append(x)
                for q, xs in per.items():
                    was = sorted(n for _, f, n in rev if f == q)
                    now = sorted(x[5] for x in xs)
                    if not was or any(a < b for a, b in zip(now, was)):
                        shown += [x for x in xs if not was or x[5] < max(was)]
                for kind, what, text, fn, ln, n in shown or rows:
                    res.add("lost-guard-" + kind, f"{fn.module.name.split('.')[-1]}:{fn.qual}",
                            f"{fn.module.path}:{ln}",
                            f"{what} by '{text}' stands under {n} tests of what it depends on; it was reviewed as "
                            "staying inside its domain under more")
                break
    res.floor("operations with a restricted domain", 200)
    res.floor("shown inside the domain", 120)
    return res
