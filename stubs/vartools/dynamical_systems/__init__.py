from ._base import DynamicalSystem
from .linear import LinearSystem, ConstantValue


class CircularStable(DynamicalSystem):
    def __init__(self, center_position=None, radius=1.0, **kw):
        super().__init__(**kw)
        self.center_position, self.radius = center_position, radius


class LocallyRotated(DynamicalSystem):
    pass


class AxesFollowingDynamics(DynamicalSystem):
    pass


def plot_dynamical_system(*a, **k):
    raise NotImplementedError


plot_dynamical_system_quiver = plot_dynamical_system


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return type(name, (DynamicalSystem,), {})
