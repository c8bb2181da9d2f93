"""C01: evaluating never changes what the caller handed in."""
from __future__ import annotations

from ..index import Program
from ..report import Result
from ..scope import core_funcs
from .effects_common import is_query, self_rooted_query_sites, solved


def run(p: Program, tier: str) -> Result:
    res = Result("Interprocedural alias/mutation summaries (numpy view semantics, class-hierarchy call "
                 "resolution); every public query, property, factory and constructor is checked for writes "
                 "into objects reachable from its arguments.")
    res.rules = ["no statement reachable from a query / constructor writes into an argument or a view of it"]
    res.assumptions = ["Methods of the external packages (vartools, dynamic_obstacle_avoidance, numpy, "
                       "networkx) outside the in-place table do not write into their arguments.",
                       "State a queried object keeps for itself is judged by C03."]
    calls, eff = solved(p)
    own_state = self_rooted_query_sites(p, eff)
    res.count("functions summarised", len(eff.sum))
    for f in core_funcs(p):
        entry = is_query(f) or f.name in ("__init__", "__post_init__") or f.is_classmethod
        if f.uid not in eff.sum or f.parent is not None:
            continue
        if not entry:
            if f.name.startswith("_"):
                continue  # what a private step of an edit writes is judged at the edit
            # an edit may link, adopt and move the library objects it is given, but the list or array itself stays
            # the caller's
            for (q, path), sites in eff.sum[f.uid].mut.items():
                if q == f.self_name or q not in f.params or (path and path[0] != "[]"):
                    continue
                for s in sites:
                    if s not in own_state:
                        res.add("argument-written", f"{s.func.qual}:{s.text}", f"{s.func.module.path}:{s.line}",
                                f"writes into the '{q}' that the caller of {f.qual} handed in")
            res.count("edits")
            res.oblige(f"{f.qual} (edit)", n=max(1, len(f.params)))
            continue
        sm = eff.sum[f.uid]
        params = [q for q in f.params] + [x for x in (f.vararg, f.kwarg) if x]
        res.count("entry points")
        res.count("arguments", len(params))
        res.oblige(f"{f.qual}({', '.join(params)})", n=max(1, len(params)))
        for (q, path), sites in sm.mut.items():
            if q == f.self_name or q.startswith("global ") or q not in params:
                continue
            for s in sites:
                if s in own_state:
                    continue
                if f.name == "__init__" and registers(s, path):
                    continue
                shown = q + "".join(x if x.startswith("[") else "." + x for x in path)
                via = "" if s.func is f else f" (reached from {f.qual})"
                res.add("argument-written", f"{s.func.qual}:{s.text}", f"{s.func.module.path}:{s.line}",
                        f"writes into '{shown}', which the caller of {f.qual} handed in{via}")
    res.floor("entry points", 250)
    return res


def registers(site, path) -> bool:
    """A constructor that links itself to its parent element (hierarchies) is an edit by contract."""
    return bool(path) and path[0] in ("children", "_children")
