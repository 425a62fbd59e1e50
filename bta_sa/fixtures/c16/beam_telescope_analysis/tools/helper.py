"""Constructed code: each function breaks one rule of C16 (or is the correct counterpart)."""
import numpy as np


class Thing(object):
    def __init__(self, size):
        self.size = size


def two(a, b=1):
    return a + b


def unbound(flag, other):
    if flag:
        x = 1
    if other:
        return x
    return 0


def bound_by_same_test(flag):
    if flag:
        x = 1
    y = 0
    if flag:
        y = x
    return y


def undefined_name(a):
    return a + mising


def removed_member(a):
    return np.int(a)


def wrong_call(a):
    return two(a, c=2)


def wrong_format(a):
    return '%d of %d' % (a.sum(),)


def wrong_keyword(a):
    return np.unravel_index(a, dims=(1, 2))


def wrong_attribute(a):
    t = Thing(a)
    return t.sice
