"""C08: sizes are applied exactly once.

Every length and every speed scaled by one factor scales every position and velocity by that factor and leaves every
direction, weight, angle and gamma as it is.  The analysis (sa/sizes.py) infers the degree with which each value grows
and compares: the two sides of a sum, a difference and a comparison; what is handed to a cosine, an exponent or under a
name that tells its degree; what a function hands back against what its name promises.
"""
from __future__ import annotations

import re

from ..calls import Calls
from ..index import Program
from ..report import Result
from ..scope import core_funcs, is_legacy
from ..sizes import KEEPS, LOSES, NIL, VECTOR, Sizes, by_name, num, promise, pure, rigid, sym
from ..units import run_units

SKIP = ("test_", "main", "plot", "draw", "_test", "example", "animate", "_plot", "_draw")
# answers that are no velocity / no share although their name is that of one
# the field of one segment is a direction; the magnitude is that of the whole path
DIRECTION_FIELDS = {"DynamicsSegment.evaluate", "WavyPathFollowing.evaluate_global_dynamics"}
SIZED = re.compile(r"velocit|gamma|magnitude|distance|radius|predict|evaluate|avoid|position|point|scal|limit|slow")
NOT_SHARES = ("surface_weights", "weights", "weight")


def considered(p: Program):
    out = []
    for f in core_funcs(p):
        g = f
        while g.parent is not None:
            g = g.parent
        if is_legacy(f.module) or g.name.startswith(SKIP):
            continue
        out.append(f)
    return out


def told(args) -> bool:
    """The caller tells at least as much about the arguments as their names do."""
    return all(by_name(n) is None or (v is not None and (not num(v) or rigid(v))) for n, v in args)


def run(p: Program, tier: str) -> Result:
    res = Result(
        "Inference of the degree (in the sense of dimensional analysis, one base unit: the size of a length or a speed) of every "
        "value: positions, velocities, distances and radii grow with degree 1, unit vectors, weights, gammas and angles with 0; "
        "products add, quotients subtract, a norm keeps it; values of unknown degree carry a symbol, so that v / |v| has degree 0 "
        "whatever v is. Helpers are analysed anew for every combination of degrees they are called with.")
    res.rules = ["mix: two values of different degree are added, subtracted or compared",
                 "plain: an angle, a cosine or an exponent that grows with the size",
                 "one: one is added to a value that grows with the size",
                 "named: a value of another degree is handed in or stored under a name that tells its degree",
                 "branch: a variable, or the answer, has another degree on one path than on another",
                 "answer: a velocity, position or magnitude that does not grow with degree 1, a direction or gamma that does; "
                 "a rotated vector has the length of the vector handed in",
                 "cosine: an arccos of the product of vectors one of which was put together and not normalised",
                 "base: the plane of a rotation is spanned by a vector that was put together and not normalised",
                 "unit: a query for a direction answers a sum, a mean or a multiple that was not normalised"]
    res.assumptions = ["names of parameters and attributes tell their degree (position, velocity, radius, gamma, weight, ...)",
                       "literals fit every degree; get_directional_weighted_sum answers a unit vector"]
    funcs = considered(p)
    g = Sizes(p).run(funcs)
    for f in funcs:
        res.count("functions")
        rec = g.sites.get(f.uid, {})
        for kind in ("call", "top", "vector"):
            use = rec.get(kind) or []
            if kind != "call" and any(told(args) for args, _, _ in rec.get("call") or []):
                use = []      # judged by what it is really handed
            for _, events, _ in use:
                for node, what, msg in events.values():
                    if what == "branch:return" and not (promise(f.name) or KEEPS.search(f.name) or SIZED.search(f.name)):
                        continue      # a direction of any size: its size is not used
                    kind_of = what.split(":")[0]
                    of = "" if kind_of == "branch" else ":" + (msg.split("`")[1] if "`" in msg else "")
                    # per class, so that a step moved into a helper keeps its name
                    who = f.qual.rsplit(".", 1)[0] if kind_of == "branch" and "." in f.qual else f.qual
                    res.add(kind_of, f"{who}:{kind_of}{of}"[:120],
                            f"{f.module.path}:{getattr(node, 'lineno', f.node.lineno)}", f"{f.qual}: {msg}")
        for args, _, v in rec.get("vector", []):
            res.count("vectors of any length")
            want = sym(*VECTOR) if KEEPS.search(f.name) else NIL if LOSES.search(f.name) else None
            if want is not None and num(v) and rigid(v):
                res.oblige(f"{f.qual} answers degree {v} for a vector of any length")
                if v != want:
                    res.add("answer", f"{f.qual}:length", f"{f.module.path}:{f.node.lineno}",
                            f"{f.qual}: handed a vector of length v, the answer has length {v}, expected {want}")
        want = NIL if f.qual in DIRECTION_FIELDS else promise(f.name)
        if want is None or f.name.endswith(NOT_SHARES):
            continue
        for args, _, v in rec.get("top", []):
            res.count("answers")
            if pure(v):
                res.count("answers of known degree")
                res.oblige(f"{f.qual} answers degree {v}")
            if pure(v) and v != want:
                res.add("answer", f"{f.qual}:answer", f"{f.module.path}:{f.node.lineno}",
                        f"{f.qual} answers a value of degree {v}, expected {want}")
    found, n = run_units(p, funcs, Calls(p))
    res.count("angles, planes and directions", n)
    for f, node, what, text in found:
        res.add(what, f"{f.qual}:{what}", f"{f.module.path}:{getattr(node, 'lineno', f.node.lineno)}", f"{f.qual}: {text}")
    res.count("operations", len(g.seen_ops))
    res.count("operations with known degrees", len(g.known_ops))
    res.oblige(n=len(g.known_ops))
    res.floor("functions", 300)
    res.floor("operations with known degrees", 250)
    res.floor("answers of known degree", 25)
    res.floor("angles, planes and directions", 30)
    return res
