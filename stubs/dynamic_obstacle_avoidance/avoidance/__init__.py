class BaseAvoider:
    def __init__(self, initial_dynamics=None, obstacle_environment=None, convergence_dynamics=None,
                 maximum_speed=None):
        self.initial_dynamics = initial_dynamics
        self.obstacle_environment = obstacle_environment
        self.maximum_speed = maximum_speed


class ModulationAvoider(BaseAvoider):
    pass
