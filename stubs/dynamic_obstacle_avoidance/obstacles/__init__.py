import numpy as np
from vartools.states import Pose


class Obstacle:
    def __init__(self, pose=None, center_position=None, orientation=None, margin_absolut=0.0,
                 is_boundary=False, distance_scaling=1.0, linear_velocity=None, angular_velocity=None,
                 tail_effect=False, has_sticky_surface=True, relative_reference_point=None, name=None,
                 twist=None, **kw):
        if pose is None:
            if center_position is None:
                center_position = np.zeros(2)
            pose = Pose(np.array(center_position, float), 0.0 if orientation is None else orientation)
        self.pose = pose
        self.margin_absolut, self.is_boundary = margin_absolut, is_boundary
        self.distance_scaling, self.tail_effect = distance_scaling, tail_effect
        self.name = name
        self.twist = twist
        self._linear_velocity = linear_velocity
        self.angular_velocity = angular_velocity
        self._reference_point = np.zeros(self.dimension)
        if relative_reference_point is not None:
            self._reference_point = np.array(relative_reference_point, float)

    @property
    def dimension(self):
        return self.pose.dimension

    dim = dimension

    @property
    def position(self):
        return self.pose.position

    @position.setter
    def position(self, value):
        self.pose.position = np.array(value, float)

    center_position = position

    @property
    def orientation(self):
        return self.pose.orientation

    @orientation.setter
    def orientation(self, value):
        self.pose.orientation = value

    @property
    def rotation_matrix(self):
        return self.pose.rotation_matrix

    @property
    def linear_velocity(self):
        if self.twist is not None:
            return self.twist.linear
        return np.zeros(self.dimension) if self._linear_velocity is None else self._linear_velocity

    @linear_velocity.setter
    def linear_velocity(self, value):
        self._linear_velocity = value

    @property
    def global_reference_point(self):
        return self.pose.transform_position_from_relative(self._reference_point)

    @property
    def local_reference_point(self):
        return self._reference_point

    @property
    def reference_point(self):
        return self._reference_point

    def set_reference_point(self, position, in_global_frame=False):
        if in_global_frame:
            position = self.pose.transform_position_to_relative(position)
        self._reference_point = np.array(position, float)

    def get_reference_point(self, in_global_frame=False):
        return self.global_reference_point if in_global_frame else self._reference_point

    def transform_global2relative(self, p):
        return self.pose.transform_position_to_relative(p)

    def transform_relative2global(self, p):
        return self.pose.transform_position_from_relative(p)

    def transform_global2relative_dir(self, d):
        return self.pose.transform_direction_to_relative(d)

    def transform_relative2global_dir(self, d):
        return self.pose.transform_direction_from_relative(d)

    def get_reference_direction(self, position, in_global_frame=False):
        if in_global_frame:
            d = self.global_reference_point - position
        else:
            d = self._reference_point - position
        n = np.linalg.norm(d)
        return d / n if n else d

    def is_inside(self, position, in_global_frame=False, margin_absolut=None):
        return self.get_gamma(position, in_global_frame=in_global_frame) < 1

    def get_outwards_reference_direction(self, position, in_global_frame=False):
        return -self.get_reference_direction(position, in_global_frame)


class _Ellipsoid(Obstacle):
    """Gamma = 1 on the surface, growing with the distance to it."""

    def __init__(self, axes_length=None, **kw):
        super().__init__(**kw)
        self.axes_length = np.array(axes_length, float)

    @property
    def _radii(self):
        return self.axes_length / 2.0 + self.margin_absolut

    @property
    def semiaxes(self):
        return self.axes_length / 2.0

    def _rel(self, position, in_global_frame):
        return self.pose.transform_position_to_relative(position) if in_global_frame else np.asarray(position, float)

    def get_gamma(self, position, in_global_frame=False, margin_absolut=None, in_obstacle_frame=None, **kw):
        if in_obstacle_frame is not None:
            in_global_frame = not in_obstacle_frame
        rel = self._rel(position, in_global_frame)
        q = np.linalg.norm(rel / self._radii)
        if not q:
            return 0.0 if not self.is_boundary else 1e30
        if self.is_boundary:
            return 1.0 / q
        if q < 1:
            return q**2
        surf = rel / q
        return 1.0 + np.linalg.norm(rel - surf) * self.distance_scaling

    def get_normal_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        if in_obstacle_frame is not None:
            in_global_frame = not in_obstacle_frame
        rel = self._rel(position, in_global_frame)
        n = rel / self._radii**2
        if not np.linalg.norm(n):
            n = np.eye(self.dimension)[0]
        n = n / np.linalg.norm(n)
        if self.is_boundary:
            n = -n
        return self.pose.transform_direction_from_relative(n) if in_global_frame else n

    def get_local_radius(self, position, in_global_frame=False):
        rel = self._rel(position, in_global_frame)
        if not np.linalg.norm(rel):
            return self._radii[0]
        return np.linalg.norm(self.get_point_on_surface(rel))

    def get_characteristic_length(self):
        return float(np.prod(self._radii) ** (1.0 / self.dimension))

    def get_point_on_surface(self, position, in_global_frame=False):
        rel = self._rel(position, in_global_frame)
        q = np.linalg.norm(rel / self._radii)
        out = rel / q if q else np.eye(self.dimension)[0] * self._radii[0]
        return self.pose.transform_position_from_relative(out) if in_global_frame else out

    get_surface_position = get_point_on_surface

    def get_intersection_with_surface(self, start_position, direction, in_global_frame=False,
                                      intersection_type=None):
        from vartools.math import get_intersection_with_circle, IntersectionType
        if in_global_frame:
            start_position = self.pose.transform_position_to_relative(start_position)
            direction = self.pose.transform_direction_to_relative(direction)
        out = get_intersection_with_circle(
            start_position / self._radii, direction / self._radii, 1.0,
            intersection_type=intersection_type or IntersectionType.FAR)
        if out is None:
            return None
        out = out * self._radii
        return self.pose.transform_position_from_relative(out) if in_global_frame else out


class Ellipse(_Ellipsoid):
    pass


class EllipseWithAxes(_Ellipsoid):
    pass


class CuboidXd(_Ellipsoid):
    """Box: gamma from the distance along the ray through the centre."""

    def _q(self, rel):
        return np.max(np.abs(rel) / self._radii)

    def get_gamma(self, position, in_global_frame=False, margin_absolut=None, in_obstacle_frame=None, **kw):
        if in_obstacle_frame is not None:
            in_global_frame = not in_obstacle_frame
        rel = self._rel(position, in_global_frame)
        q = self._q(rel)
        if not q:
            return 0.0 if not self.is_boundary else 1e30
        if self.is_boundary:
            return 1.0 / q
        if q < 1:
            return q**2
        return 1.0 + np.linalg.norm(rel - rel / q) * self.distance_scaling

    def get_normal_direction(self, position, in_global_frame=False, in_obstacle_frame=None):
        if in_obstacle_frame is not None:
            in_global_frame = not in_obstacle_frame
        rel = self._rel(position, in_global_frame)
        out = np.maximum(np.abs(rel) - self._radii, 0) * np.sign(rel)
        if not np.linalg.norm(out):
            ii = np.argmax(np.abs(rel) / self._radii)
            out = np.zeros(self.dimension)
            out[ii] = np.sign(rel[ii]) or 1.0
        n = out / np.linalg.norm(out)
        if self.is_boundary:
            n = -n
        return self.pose.transform_direction_from_relative(n) if in_global_frame else n

    def get_point_on_surface(self, position, in_global_frame=False):
        rel = self._rel(position, in_global_frame)
        q = self._q(rel)
        out = rel / q if q else np.eye(self.dimension)[0] * self._radii[0]
        return self.pose.transform_position_from_relative(out) if in_global_frame else out

    get_surface_position = get_point_on_surface


class Cuboid(CuboidXd):
    pass


class Sphere(_Ellipsoid):
    def __init__(self, radius=1.0, dimension=2, **kw):
        super().__init__(axes_length=np.ones(dimension) * 2 * radius, **kw)


class StarshapedFlower(_Ellipsoid):
    def __init__(self, radius_magnitude=0.3, radius_mean=1.0, number_of_edges=4, axes_length=None, **kw):
        super().__init__(axes_length=np.ones(2) * 2 * radius_mean, **kw)
