from vartools.dynamical_systems import DynamicalSystem, LinearSystem, ConstantValue

Dynamics = DynamicalSystem


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return type(name, (DynamicalSystem,), {})
