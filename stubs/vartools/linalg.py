import numpy as np


def get_orthogonal_basis(vector, normalize=True):
    vector = np.array(vector, dtype=float)
    norm = np.linalg.norm(vector)
    if not norm:
        raise ValueError("Zero vector")
    vector = vector / norm
    dim = vector.shape[0]
    if dim == 2:
        return np.array([vector, [-vector[1], vector[0]]]).T
    if dim == 3:
        if abs(vector[0]) < 1e-12 and abs(vector[1]) < 1e-12:
            v1 = np.array([vector[2], 0.0, 0.0])
        else:
            v1 = np.array([-vector[1], vector[0], 0.0])
        v1 = v1 / np.linalg.norm(v1)
        return np.array([vector, v1, np.cross(vector, v1)]).T
    q, _ = np.linalg.qr(np.column_stack((vector, np.eye(dim)[:, 1:])))
    q[:, 0] = vector
    return q


def logical_xor(a, b):
    return bool(a) != bool(b)
