import numpy as np


class PositionFilter:
    def __init__(self, update_frequency, initial_position, **kw):
        self.position = np.array(initial_position, float)
        self.velocity = np.zeros_like(self.position)

    def run_once(self, position):
        self.position = np.array(position, float)


class SimpleOrientationFilter:
    def __init__(self, update_frequency, initial_orientation, **kw):
        self.rotation = initial_orientation

    def run_once(self, rotation):
        self.rotation = rotation
