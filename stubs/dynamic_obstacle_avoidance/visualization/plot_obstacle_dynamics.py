def plot_obstacle_dynamics(*a, **k):
    raise NotImplementedError
