import numpy as np


def compute_weights(distMeas, N=0, distMeas_lowerLimit=1, weightType="inverseGamma", weightPow=2):
    g = np.asarray(distMeas, float)
    crit = g <= distMeas_lowerLimit
    if np.any(crit):
        w = crit.astype(float)
    else:
        w = (1.0 / (g - distMeas_lowerLimit)) ** weightPow
    return w / np.sum(w)


def get_weight_from_inv_of_gamma(gamma, power_value=1.0):
    g = np.asarray(gamma, float)
    w = np.zeros(g.shape)
    pos = g > 0
    w[pos] = g[pos] ** (-power_value)
    w[~pos] = 1.0
    return np.minimum(w, 1.0)


def get_relative_obstacle_velocity(position, obstacle_list, E_orth, weights, ind_obstacles=None,
                                   gamma_list=None, cut_off_gamma=1e4, velocity_only_in_positive_normal_direction=True,
                                   normal_dependence=False, **kw):
    ind = np.arange(len(obstacle_list)) if ind_obstacles is None else np.arange(len(obstacle_list))[ind_obstacles]
    out = np.zeros(len(position))
    for w, ii in zip(weights, ind):
        v = obstacle_list[ii].linear_velocity
        if v is not None:
            out = out + w * np.asarray(v)
    return out
