"""Branch-free helpers usable on Python numbers and on symbolic terms alike.

A symbolic value is anything with a `_ite`-capable class attribute `symbolic = True`
(see pyvc/values.py); specs written with these helpers give one closed term."""


def is_sym(x):
    return getattr(type(x), 'symbolic', False)


def ite(c, a, b):
    if is_sym(c):
        return c.ite(a, b)
    return a if c else b


def Max(a, b):
    return ite(a >= b, a, b)


def Min(a, b):
    return ite(a <= b, a, b)


def And(*xs):
    r = True
    for x in xs:
        if is_sym(x):
            r = x if r is True else (r & x if is_sym(r) else (x if r else False))
        else:
            r = r & bool(x) if is_sym(r) else (bool(r) and bool(x))
    return r


def Or(*xs):
    r = False
    for x in xs:
        if is_sym(x):
            r = x if r is False else (r | x if is_sym(r) else (True if r else x))
        else:
            r = r | bool(x) if is_sym(r) else (bool(r) or bool(x))
    return r


def Not(x):
    return ~x if is_sym(x) else (not x)


def ceildiv(a, b):
    return -((-a) // b)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def count(shape):
    """elements of a tensor as the tool counts them: a rank-0 shape counts as none"""
    return prod(shape) if len(shape) else 0


def ilog2(x):
    """integer part of the binary logarithm of x >= 1"""
    return x.ilog2() if is_sym(x) else int(x).bit_length() - 1


def Implies(a, b):
    return Or(Not(a), b)
