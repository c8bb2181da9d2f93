import numpy as np
from vartools.states import Pose


class DynamicalSystem:
    def __init__(self, pose=None, center_position=None, maximum_velocity=None, attractor_position=None,
                 dimension=None):
        if pose is None:
            if center_position is not None:
                pose = Pose(center_position)
            elif attractor_position is not None:
                pose = Pose(np.array(attractor_position))
            elif dimension is not None:
                pose = Pose(np.zeros(dimension))
        self.pose = pose
        self.maximum_velocity = maximum_velocity
        self.attractor_position = None if attractor_position is None else np.array(attractor_position, float)
        self._dimension = dimension

    @property
    def dimension(self):
        if self._dimension is not None:
            return self._dimension
        return self.pose.dimension

    @dimension.setter
    def dimension(self, value):
        self._dimension = value

    def limit_velocity(self, velocity, maximum_velocity=None):
        m = self.maximum_velocity if maximum_velocity is None else maximum_velocity
        n = np.linalg.norm(velocity)
        if m is not None and n > m:
            velocity = velocity / n * m
        return velocity

    _limit_velocity = limit_velocity

    def evaluate(self, position):
        raise NotImplementedError
