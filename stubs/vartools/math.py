from enum import Enum

import numpy as np


class IntersectionType(Enum):
    CLOSE = 0
    FAR = 1
    BOTH = 2


CircleIntersectionType = IntersectionType


def get_intersection_with_circle(start_position, direction, radius, only_positive=True,
                                 intersection_type=None):
    start_position, direction = np.asarray(start_position, float), np.asarray(direction, float)
    norm = np.linalg.norm(direction)
    if not norm:
        return None
    d = direction / norm
    b = float(np.dot(start_position, d))
    c = float(np.dot(start_position, start_position)) - radius**2
    disc = b * b - c
    if disc < 0:
        return None
    f1, f2 = -b - np.sqrt(disc), -b + np.sqrt(disc)
    if intersection_type is None:
        intersection_type = IntersectionType.FAR if only_positive else IntersectionType.BOTH
    if intersection_type == IntersectionType.BOTH:
        return np.array([start_position + f1 * d, start_position + f2 * d]).T
    f = f1 if intersection_type == IntersectionType.CLOSE else f2
    return start_position + f * d


def get_intersection_between_line_and_plane(line_position, line_direction, plane_position, plane_normal,
                                            positive_only=False):
    den = np.dot(line_direction, plane_normal)
    if abs(den) < 1e-12:
        return None
    fac = np.dot(np.asarray(plane_position) - line_position, plane_normal) / den
    if positive_only and fac < 0:
        return None
    return line_position + fac * np.asarray(line_direction)
