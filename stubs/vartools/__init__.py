import numpy as np


def cross2d(a, b):
    return a[0] * b[1] - a[1] * b[0]
