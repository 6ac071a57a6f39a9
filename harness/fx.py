"""Conversion to the fixed point numbers of Fixed.tla."""
from fractions import Fraction

B, NL, FL = 4096, 8, 5
BIG = 2.0**28


def fixed(v):
    """Numbers that do not fit become the largest one, which is never right."""
    v = float(v)
    if not abs(v) < BIG:
        v = BIG
    n = round(Fraction(v) * B**FL)
    d = []
    for _ in range(NL - 1):
        d.append(int(n % B))
        n //= B
    return d + [int(n)]


def fixedv(vs):
    return [fixed(v) for v in vs]
