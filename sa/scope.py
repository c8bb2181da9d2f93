"""Which part of the package a rule talks about."""
from __future__ import annotations

from .index import Func, Module, Program

# Plotting front-ends and offline evaluation drivers: they draw, read and write files by design and
# are never called from a control loop.
OFFLINE_PREFIXES = (
    "nonlinear_avoidance.comparison.",
    "nonlinear_avoidance.visualization.",
    "nonlinear_avoidance.gmm_learner.visualization",
    "nonlinear_avoidance.gmm_learner.learner.visualizer",
    "nonlinear_avoidance.function_test",
)
# The legacy learner package (not imported by the avoidance code).
LEGACY_PREFIXES = ("nonlinear_avoidance.gmm_learner",)


def is_offline(m: Module) -> bool:
    return any(m.name == x.rstrip(".") or m.name.startswith(x) for x in OFFLINE_PREFIXES)


def is_legacy(m: Module) -> bool:
    return any(m.name.startswith(x) for x in LEGACY_PREFIXES)


def core_funcs(p: Program) -> list[Func]:
    """Everything but plotting / evaluation drivers."""
    return [f for f in p.iter_funcs() if not is_offline(f.module)]


QUERY_PREFIXES = (
    "evaluate", "avoid", "get_", "compute_", "is_inside", "predict", "directional_", "rotate",
    "inverse_rotate", "_get", "_compute", "_evaluate", "_predict", "inv", "reduce_", "project",
    "slowfactor", "transform", "vector_rotation", "limit", "_limit", "has_", "is_", "check",
    "obstacle_avoidance", "multihull_attraction", "gamma_normal_gradient", "smooth", "_is",
)


def is_query_name(name: str) -> bool:
    return name.startswith(QUERY_PREFIXES)
