import numpy as np


def evaluate_linear_dynamical_system(position, center_position):
    return np.asarray(center_position) - np.asarray(position)
