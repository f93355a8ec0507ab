"""C03 membership in a circular interval."""
from symx.harness import Obl


def exact(M):
    """inside iff the counter-clockwise travel from the lower end reaches the value before the upper end"""
    lo = M.angle("lo"); s = M.angle("s"); w = M.angle("w")
    inside = M.m.utils.is_within_circular_range(lo + s, lo, lo + w)
    if M.true(s <= w):
        M.ok("inside", inside)
    elif M.true(s > w):
        M.ok("outside", M.np.logical_not(inside))


def turns(M):
    v = M.angle("v"); lo = M.angle("lo"); hi = M.angle("hi")
    i, j, k = M.int("i", -1, 1), M.int("j", -1, 1), M.int("k", -1, 1)
    f = M.m.utils.is_within_circular_range
    a = M.true(f(v, lo, hi)); b = M.true(f(v + 2 * M.pi * i, lo + 2 * M.pi * j, hi + 2 * M.pi * k))
    M.ok("whole turns", a == b)


def ends(M):
    lo = M.angle("lo"); hi = M.angle("hi")
    f = M.m.utils.is_within_circular_range
    M.ok("lower end", f(lo, lo, hi)); M.ok("upper end", f(hi, lo, hi))


def rotation(M):
    v = M.angle("v"); lo = M.angle("lo"); hi = M.angle("hi"); t = M.real("t", -7, 7)
    M.assume(lo != hi)
    f = M.m.utils.is_within_circular_range
    a = M.true(f(v, lo, hi)); b = M.true(f(v + t, lo + t, hi + t))
    M.ok("rotation", a == b)


def complement(M):
    """every direction is in [lo,hi] or in [hi,lo]; in both only at an end"""
    v = M.angle("v"); lo = M.angle("lo"); hi = M.angle("hi")
    M.assume(lo != hi)
    f = M.m.utils.is_within_circular_range
    a = M.true(f(v, lo, hi)); b = M.true(f(v, hi, lo))
    M.ok("one of them", a or b)
    if a and b: M.ok("both only at an end", (v == lo) | (v == hi))


def reflection(M):
    v = M.angle("v"); lo = M.angle("lo"); hi = M.angle("hi")
    M.assume(lo != hi)
    f = M.m.utils.is_within_circular_range
    a = M.true(f(v, lo, hi)); b = M.true(f(-v, -hi, -lo))
    M.ok("reflection", a == b)


def obligations(tier):
    F = "utils.is_within_circular_range"
    return [Obl("exact", exact, F, "lower end, travel and width in [0,2pi)"), Obl("turns", turns, F, "whole turns -1..1 on each argument"), Obl("ends", ends, F, "ends in [0,2pi)"),
            Obl("rotation", rotation, F, "rotation in [-7,7]"), Obl("complement", complement, F, "[0,2pi)"), Obl("reflection", reflection, F, "[0,2pi)")]
