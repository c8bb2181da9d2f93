def plot_obstacles(*a, **k):
    raise NotImplementedError


def plot_obstacle_dynamics(*a, **k):
    raise NotImplementedError


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return plot_obstacles
