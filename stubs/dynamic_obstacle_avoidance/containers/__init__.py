import numpy as np


class BaseContainer:
    def __init__(self, obs_list=None):
        self._obstacle_list = list(obs_list) if obs_list is not None else []

    def __getitem__(self, key):
        return self._obstacle_list[key]

    def __setitem__(self, key, value):
        self._obstacle_list[key] = value

    def __delitem__(self, key):
        del self._obstacle_list[key]

    def __iter__(self):
        return iter(self._obstacle_list)

    def __len__(self):
        return len(self._obstacle_list)

    def append(self, value):
        self._obstacle_list.append(value)

    @property
    def n_obstacles(self):
        return len(self._obstacle_list)

    @property
    def number(self):
        return len(self._obstacle_list)

    @property
    def dimension(self):
        return self._obstacle_list[0].dimension


class ObstacleContainer(BaseContainer):
    pass
