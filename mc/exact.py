"""Exact (rational) arithmetic used by the reference model.

Every finite float is a rational number, so the reference model computes with the exact values of the
inputs that the library was given.  Integers are kept as Python ints (fast), other values as Fractions.
"""
from __future__ import annotations

import math
from fractions import Fraction as F


def num(x):
    """Exact value of a Python number (int, bool or finite float)."""
    if type(x) is int:
        return x
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, F):
        return int(x) if x.denominator == 1 else x
    if hasattr(x, 'item'):
        x = x.item()
        if type(x) is int or isinstance(x, bool):
            return int(x)
    x = float(x)
    if x.is_integer():
        return int(x)
    return F(x)


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s += x * y
    return s


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(k, a):
    return tuple(k * x for x in a)


def n2(a):
    return dot(a, a)


def div(a, b):
    """Exact quotient."""
    if type(a) is int and type(b) is int:
        return a // b if a % b == 0 else F(a, b)
    return F(a) / F(b)


def pad3(a):
    return tuple(a) + (0,) * (3 - len(a))


def cross(a, b):
    a = pad3(a)
    b = pad3(b)
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def det2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def is0(a):
    for x in a:
        if x != 0:
            return False
    return True


def mx(*arrays):
    """Largest absolute coordinate, as a float."""
    m = 0
    for a in arrays:
        for x in a:
            if x < 0:
                x = -x
            if x > m:
                m = x
    return float(m)


def fsqrt(x):
    """Float square root of a non-negative exact number, safe against overflow and underflow."""
    if x <= 0:
        return 0.0
    if type(x) is int and x < (1 << 900):
        return math.sqrt(x)
    n, d = (x.numerator, x.denominator)
    # Shift so that the quotient has a moderate size.
    k = (n.bit_length() - d.bit_length()) // 2
    if k >= 0:
        q = n / (d << (2 * k))
    else:
        q = (n << (-2 * k)) / d
    return math.ldexp(math.sqrt(q), k)


def fnorm(a):
    return fsqrt(n2(a))


def perp2(u, v):
    """|u|^2 |v|^2 - (u.v)^2, the squared area of the parallelogram."""
    return n2(u) * n2(v) - dot(u, v) ** 2


def parallel(u, v):
    """Exact linear dependence (the zero vector is parallel to everything)."""
    return perp2(u, v) == 0


def rank(rows):
    """Exact rank by fraction-free elimination."""
    rows = [list(r) for r in rows]
    if not rows:
        return 0
    ncol = len(rows[0])
    r = 0
    for c in range(ncol):
        piv = None
        for i in range(r, len(rows)):
            if rows[i][c] != 0:
                piv = i
                break
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        pr = rows[r]
        p = pr[c]
        for i in range(r + 1, len(rows)):
            ri = rows[i]
            q = ri[c]
            if q != 0:
                rows[i] = [x * p - y * q for x, y in zip(ri, pr)]
        r += 1
        if r == len(rows):
            break
    return r


def affine_rank(points):
    p0 = points[0]
    return rank([sub(p, p0) for p in points[1:]]) if len(points) > 1 else 0


def solve(A, b):
    """Exact solution of a square system, or None if it is singular."""
    n = len(A)
    M = [[F(x) for x in row] + [F(y)] for row, y in zip(A, b)]
    for c in range(n):
        piv = next((i for i in range(c, n) if M[i][c] != 0), None)
        if piv is None:
            return None
        M[c], M[piv] = M[piv], M[c]
        inv = 1 / M[c][c]
        M[c] = [x * inv for x in M[c]]
        for i in range(n):
            if i != c and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return [M[i][n] for i in range(n)]


def small(*arrays, bits=40):
    """All numbers are dyadic with few significant bits, so that products of two are exact in floats."""
    for a in arrays:
        for x in a:
            if type(x) is int:
                n = abs(x)
                if n >> bits:
                    n >>= (n & -n).bit_length() - 1
                    if n >> bits:
                        return False
            else:
                if abs(x.numerator) >> bits:
                    return False
    return True


def grid(*arrays):
    """
    Number of bits between the finest and the coarsest bit of a set of exact numbers.

    Sums and differences of these numbers are exact in double precision if this is well below 53.
    """
    lo, hi = None, None
    for a in arrays:
        for x in a:
            if x == 0:
                continue
            if type(x) is int:
                n = abs(x)
                e = 0
            else:
                n = abs(x.numerator)
                e = -(x.denominator.bit_length() - 1)
            l = (n & -n).bit_length() - 1 + e
            h = n.bit_length() + e
            lo = l if lo is None or l < lo else lo
            hi = h if hi is None or h > hi else hi
    return 0 if lo is None else hi - lo
