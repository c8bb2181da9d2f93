import numpy as np
from vartools.linalg import get_orthogonal_basis


def get_angle_space(direction, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    direction = np.asarray(direction, float)
    norm = np.linalg.norm(direction)
    if norm:
        direction = direction / norm
    rel = null_matrix.T @ direction
    ang = np.zeros(rel.shape[0] - 1)
    n = np.linalg.norm(rel[1:])
    if n:
        ang = rel[1:] / n * np.arctan2(n, rel[0])
    elif rel[0] < 0:
        ang[0] = np.pi
    return ang


def get_angle_space_of_array(directions, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return np.array([get_angle_space(d, null_matrix=null_matrix) for d in np.asarray(directions).T]).T


def get_angle_space_inverse(dir_angle_space, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    a = np.asarray(dir_angle_space, float)
    n = np.linalg.norm(a)
    rel = np.zeros(a.shape[0] + 1)
    rel[0] = np.cos(n)
    if n:
        rel[1:] = a / n * np.sin(n)
    return null_matrix @ rel


def get_angle_space_inverse_of_array(vecs_angle_space, null_direction=None, null_matrix=None):
    if null_matrix is None:
        null_matrix = get_orthogonal_basis(null_direction)
    return np.array([get_angle_space_inverse(d, null_matrix=null_matrix) for d in np.asarray(vecs_angle_space).T]).T


def get_directional_weighted_sum(null_direction, weights, directions, unit_directions=None,
                                 total_weight=1, normalize=True, normalize_reference=True, obs=None,
                                 position=None):
    weights = np.asarray(weights, float)
    directions = np.asarray(directions, float)
    base = get_orthogonal_basis(null_direction)
    ind = weights > 0
    norms = np.linalg.norm(directions, axis=0)
    angles = np.zeros((directions.shape[0] - 1, directions.shape[1]))
    for ii in range(directions.shape[1]):
        if norms[ii]:
            angles[:, ii] = get_angle_space(directions[:, ii], null_matrix=base)
    mean = np.sum(angles[:, ind] * weights[ind], axis=1)
    return get_angle_space_inverse(mean, null_matrix=base)


def get_directional_weighted_sum_from_unit_directions(base, weights, unit_directions, total_weight=1):
    mean = np.sum([w * u.as_angle() for w, u in zip(weights, unit_directions)], axis=0)
    return UnitDirection(base).from_angle(mean)


def get_angle_from_vector(direction, base):
    return get_angle_space(direction, null_matrix=base)


def get_vector_from_angle(angle, base):
    return get_angle_space_inverse(angle, null_matrix=base)


class UnitDirection:
    def __init__(self, base):
        self.base = base
        self._angle = None

    def from_vector(self, vector):
        self._angle = get_angle_space(vector, null_matrix=self.base)
        return self

    def from_angle(self, angle):
        self._angle = np.array(angle, dtype=float)
        return self

    def as_angle(self):
        return self._angle

    def as_vector(self):
        return get_angle_space_inverse(self._angle, null_matrix=self.base)

    def norm(self):
        return np.linalg.norm(self._angle)

    def __add__(self, o):
        return UnitDirection(self.base).from_angle(self._angle + o._angle)

    def __sub__(self, o):
        return UnitDirection(self.base).from_angle(self._angle - o._angle)

    def __mul__(self, f):
        return UnitDirection(self.base).from_angle(self._angle * f)

    __rmul__ = __mul__
