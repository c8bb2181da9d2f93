import copy
from dataclasses import dataclass, field
from typing import Optional

import numpy as np
from scipy.spatial.transform import Rotation


def _rot2d(angle):
    c, s = np.cos(angle), np.sin(angle)
    return np.array([[c, -s], [s, c]])


class Pose:
    def __init__(self, position, orientation=None):
        self.position = np.array(position, dtype=float)
        self.orientation = orientation

    @classmethod
    def create_trivial(cls, dimension):
        return cls(np.zeros(dimension), 0.0 if dimension == 2 else Rotation.from_euler("x", 0))

    @property
    def dimension(self):
        return self.position.shape[0]

    @property
    def rotation_matrix(self):
        if self.orientation is None:
            return np.eye(self.dimension)
        if isinstance(self.orientation, Rotation):
            return self.orientation.as_matrix()
        return _rot2d(float(self.orientation))

    def transform_position_to_relative(self, position):
        return self.rotation_matrix.T @ (np.asarray(position) - self.position)

    def transform_position_from_relative(self, position):
        return self.rotation_matrix @ np.asarray(position) + self.position

    transform_position_from_local = transform_position_from_relative

    def transform_direction_to_relative(self, direction):
        return self.rotation_matrix.T @ np.asarray(direction)

    def transform_direction_from_relative(self, direction):
        return self.rotation_matrix @ np.asarray(direction)

    transform_linear_velocity_to_relative = transform_direction_to_relative
    transform_linear_velocity_from_relative = transform_direction_from_relative

    def transform_orientation_from_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if orientation is None:
            return self.orientation
        if isinstance(self.orientation, Rotation):
            return self.orientation * orientation
        return self.orientation + orientation

    def transform_orientation_to_relative(self, orientation):
        if self.orientation is None:
            return orientation
        if isinstance(self.orientation, Rotation):
            return self.orientation.inv() * orientation
        return orientation - self.orientation

    def transform_pose_from_relative(self, pose):
        return Pose(
            self.transform_position_from_relative(pose.position),
            self.transform_orientation_from_relative(pose.orientation),
        )

    def transform_pose_to_relative(self, pose):
        return Pose(
            self.transform_position_to_relative(pose.position),
            self.transform_orientation_to_relative(pose.orientation),
        )


ObjectPose = Pose


@dataclass
class Twist:
    linear: np.ndarray
    angular: Optional[object] = None

    @classmethod
    def create_trivial(cls, dimension):
        return cls(np.zeros(dimension), 0.0 if dimension == 2 else np.zeros(3))
