import numpy as np
from ._base import DynamicalSystem


class LinearSystem(DynamicalSystem):
    def __init__(self, attractor_position=None, A_matrix=None, dimension=None, maximum_velocity=None, **kw):
        if attractor_position is None:
            attractor_position = np.zeros(dimension if dimension is not None else A_matrix.shape[0])
        super().__init__(attractor_position=attractor_position, maximum_velocity=maximum_velocity, **kw)
        self.A_matrix = -np.eye(self.dimension) if A_matrix is None else A_matrix

    def evaluate(self, position):
        return self.limit_velocity(self.A_matrix @ (np.asarray(position) - self.attractor_position))


class ConstantValue(DynamicalSystem):
    def __init__(self, velocity):
        super().__init__(dimension=len(velocity))
        self.constant_velocity = np.array(velocity, float)

    def evaluate(self, position=None):
        return np.copy(self.constant_velocity)
