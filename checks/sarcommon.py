"""Helpers for the SAR (SICD / SIDD) harnesses."""
import numpy as np

from symx import core, npshim


def poly(env, c):
    return npshim.SymPoly(list(c)) if env.symbolic else np.polynomial.Polynomial([float(x) for x in c])


def vec(env, tag, lo, hi):
    return [env.real(f"{tag}{k}", lo, hi) for k in range(3)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def horner(c, x):
    r = 0
    p = 1
    for k in c:
        r = r + k * p
        p = p * x
    return r


# rational orthonormal frames (rows)
FRAMES = [[[2 / 3, -1 / 3, 2 / 3], [2 / 3, 2 / 3, -1 / 3], [-1 / 3, 2 / 3, 2 / 3]],
          [[0.6, 0.8, 0.0], [-0.48, 0.36, 0.8], [0.64, -0.48, 0.6]],
          [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]],
          [[0.28, 0.96, 0.0], [-0.96, 0.28, 0.0], [0.0, 0.0, 1.0]]]


def COS(env, x):
    return np.cos(x) if not env.symbolic else core.cos(x)


def SIN(env, x):
    return np.sin(x) if not env.symbolic else core.sin(x)
