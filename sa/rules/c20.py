"""C20: arrays fit together in every dimension and for every number of parts."""
from __future__ import annotations

from ..index import Program
from ..report import Result
from ..shapes import Shapes

RULES = {
    "axes-do-not-match": "axes that meet in an operation count the same things",
    "axis-does-not-exist": "an axis that is reduced or joined along exists",
    "too-many-indices": "an array is indexed with at most as many indices as it has axes",
    "index-out-of-range": "a fixed index lies within a fixed axis",
    "index-of-another-axis": "an index (or selection) that runs over one kind of thing selects from an axis of that kind",
    "value-does-not-fit": "what is written into an array, slice or attribute has its shape",
    "argument-of-other-shape": "arguments have the shape the callee works on",
    "answer-of-other-shape": "answers have the shape that is announced",
    "answers-of-different-shape": "all answers of a function have the same shape",
    "truth-of-an-array": "a test asks for the truth of one value",
}


def run(p: Program, tier: str) -> Result:
    res = Result("Symbolic shapes (axes: the dimension of the space, numbers of parts, constants) are followed through "
                 "every function, package call and attribute; every operation with known shapes is an obligation.")
    res.rules = list(RULES.values())
    res.assumptions = [
        "Parameters named position, velocity, direction, normal .. or annotated Vector are vectors of the space; "
        "weights and gammas have one entry per part; lists of directions have one column per part.",
        "Classes and functions that fix their dimension (2d/3d in the name, constant dimension) work in that dimension.",
        "Axes whose meaning is not derived match everything.",
    ]
    g = Shapes(p).run()
    res.count("functions", len(g.funcs))
    res.count("operations with known shapes", g.known_ops)
    res.count("answers compared with what is announced", g.stats.get("answers", 0))
    for f in g.funcs:
        n = g.ops.get(f.uid, 0)
        if n:
            res.oblige(f"{f.qual}: {n} operations", n=n)
    for (rule, construct), (where, message) in sorted(g.findings.items()):
        res.add(rule, construct, where, message)
    res.floor("operations with known shapes", 1500)
    res.floor("answers compared with what is announced", 110)
    return res
