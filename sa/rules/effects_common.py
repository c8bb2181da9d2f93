"""Shared by C01, C02, C03, C05: the solved effect summaries and the notion of a query."""
from __future__ import annotations

from ..calls import Calls
from ..effects import Effects
from ..index import Func, Program
from ..scope import core_funcs, is_query_name, is_offline

_cache: dict = {}


def solved(p: Program):
    if id(p) not in _cache:
        calls = Calls(p)
        _cache.clear()
        _cache[id(p)] = (calls, Effects(p, calls).solve())
    return _cache[id(p)]


# query-like names that build up or refresh state by contract (called once after construction / motion)
BUILDERS = {
    "evaluate_hirarchy_and_reference_points", "evaluate_axes_length_and_direction",
    "transform_from_multibodyobstacle_to_multiobstacle",  # hands the obstacles over to the new tree
    "evaluate_surface_points", "transform_to_analytic_ellipses", "evaluate_all_orientations",
}


def is_query(f: Func) -> bool:
    """Public evaluation entry point: answers a question about a position / direction / rotation."""
    g = f
    if g.parent is not None or g.is_setter:
        return False
    if g.name in BUILDERS:
        return False
    if g.name.startswith("_"):
        return g.name in ("__contains__", "__len__", "__iter__", "__getitem__", "__call__", "__mul__",
                          "__matmul__", "__add__", "__sub__", "__neg__", "__eq__", "__invert__")
    if g.is_property:
        return True
    return is_query_name(g.name)


def self_rooted_query_sites(p: Program, eff: Effects):
    """Sites that a query of the site's own class hierarchy performs on its own object."""
    out = set()
    for f in p.iter_funcs():
        if f.cls is None or not is_query(f) or not f.self_name:
            continue
        sm = eff.sum.get(f.uid)
        if sm is None:
            continue
        for (q, path), sites in sm.mut.items():
            if q == f.self_name:
                for s in sites:
                    g = s.func
                    while g.parent is not None:
                        g = g.parent
                    if g.cls is not None and (g.cls in p.mro(f.cls) or f.cls in p.mro(g.cls)):
                        out.add(s)
    # a statement that writes into an argument of its own function is not (only) about the object itself
    for f in p.iter_funcs():
        sm = eff.sum.get(f.uid)
        if sm is None:
            continue
        for (q, path), sites in sm.mut.items():
            if q != f.self_name and q in f.params:
                out -= {s for s in sites if s.func is f}
    return out
