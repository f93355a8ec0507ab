"""C01 angle wrapping and unit conversion."""
from symx.harness import Obl

FULL = {"degree": 360, "hour": 24}


def wrap_default(M):
    x = M.real("x", -26, 26)
    r = M.m.utils.angmod(x)
    M.ge("lower", r, 0, tol=0)
    M.lt("upper", r, 2 * M.pi)
    M.angle_eq("congruent", r, x)
    k = (x - r) / (2 * M.pi)
    M.eq("whole turns", k - M.np.round(k), 0)


def wrap_array(M):
    xs = [M.real("x%d" % i, -26, 26) for i in range(3)]
    r = M.m.utils.angmod(M.arr(xs))
    for i in range(3):
        M.ge("lower", r[i], 0, tol=0); M.lt("upper", r[i], 2 * M.pi); M.angle_eq("congruent", r[i], xs[i])


def wrap_bounds(M):
    x = M.real("x", -20, 20); lo = M.real("lo", -7, 7)
    r = M.m.utils.angmod(x, bounds=[lo, lo + 2 * M.pi])
    M.ge("lower", r, lo, tol=1e-9)
    M.le("upper", r, lo + 2 * M.pi, tol=1e-9)
    M.angle_eq("congruent", r, x)


def wrap_span(M):
    """an interval of any length: the result differs by whole multiples of the length"""
    x = M.real("x", -20, 20); lo = M.real("lo", -5, 5); w = M.real("w", 1, 8)
    r = M.m.utils.angmod(x, bounds=[lo, lo + w])
    M.ge("lower", r, lo, tol=1e-9)
    M.le("upper", r, lo + w, tol=1e-9)
    k = (x - r) / w
    M.eq("whole spans", k - M.np.round(k), 0)


def inside_unchanged(M):
    lo = M.real("lo", -7, 7); w = M.real("w", 1, 8); t = M.real("t", 0, 8)
    M.assume(t < w)
    x = lo + t
    M.eq("unchanged", M.m.utils.angmod(x, bounds=[lo, lo + w]), x)


def inside_unchanged_default(M):
    x = M.angle("x")
    M.eq("unchanged", M.m.utils.angmod(x), x)


def bad_bounds(M):
    a = M.real("a", -5, 5); b = M.real("b", -5, 5)
    M.assume(a >= b)
    M.raises("rejected", ValueError, lambda: M.m.utils.angmod(1.0, bounds=[a, b]))


def top_goes_to_bottom(M):
    k = M.int("k", -3, 3)
    r = M.m.utils.angmod(2 * M.pi * k)
    M.eq("whole turn is zero", r, 0)
    r = M.m.utils.angmod(M.arr([2 * M.pi * k, 1.0]))
    M.eq("whole turn is zero (array)", r[0], 0)


def roundtrip(M):
    d = M.real("d", -1000, 1000); k = M.real("k", 0.5, 1000)
    u = M.m.utils
    M.eq("data", u.rad2data(u.data2rad(d, k=k), k=k), d)
    M.eq("rad", u.data2rad(u.rad2data(d, k=k), k=k), d)
    M.eq("full cycle", u.data2rad(k, k=k), 2 * M.pi)
    M.eq("linear", u.data2rad(2 * d, k=k), 2 * u.data2rad(d, k=k))
    M.eq("default is degrees", u.data2rad(d), d * M.pi / 180)
    M.eq("default back", u.rad2data(d), d * 180 / M.pi)


def roundtrip_array(M):
    ds = [M.real("d%d" % i, -1000, 1000) for i in range(3)]; k = M.real("k", 0.5, 1000)
    u = M.m.utils
    a = M.arr(ds)
    M.eq("data", u.rad2data(u.data2rad(a, k=k), k=k), a)
    M.eq("no cycle", u.rad2data(a, k=None), a)


def rotate(unit):
    def f(M):
        full = FULL.get(unit, 2 * M.pi)
        xs = [M.real("x%d" % i, 0, full) for i in range(2)]; t = M.real("t", -1.5 * float(full), 1.5 * float(full))
        r = M.m.utils.rotate_data(M.arr(xs), t, unit=unit)
        for i in range(2):
            M.ge("lower", r[i], 0, tol=0)
            M.lt("upper", r[i], full)
            M.angle_eq("congruent", r[i] * (2 * M.pi) / full, (xs[i] + t) * (2 * M.pi) / full)
    return f


def rotate_compose(M):
    unit = M.choice("unit", ["radian", "degree", "hour"])
    full = FULL.get(unit, 2 * M.pi)
    x = M.real("x", 0, 400); a = M.real("a", -400, 400); b = M.real("b", -400, 400)
    M.assume(x < full); M.assume(a < full); M.assume(b < full); M.assume(-full < a); M.assume(-full < b)
    u = M.m.utils
    r1 = u.rotate_data(u.rotate_data(M.arr([x]), a, unit=unit), b, unit=unit)
    r2 = u.rotate_data(M.arr([x]), a + b, unit=unit)
    M.angle_eq("composition", r1[0] * (2 * M.pi) / full, r2[0] * (2 * M.pi) / full)


def rotate_bad_unit(M):
    x = M.real("x", 0, 6)
    M.raises("unknown unit", ValueError, lambda: M.m.utils.rotate_data(M.arr([x]), 1.0, unit="grad"))


def obligations(tier):
    U = "utils."
    o = [Obl("angmod/default", wrap_default, U + "angmod", "x in [-26,26]"),
         Obl("angmod/array", wrap_array, U + "angmod", "3 angles in [-26,26]"),
         Obl("angmod/bounds", wrap_bounds, U + "angmod", "x in [-20,20], lower bound in [-7,7], span one turn"),
         Obl("angmod/span", wrap_span, U + "angmod", "x in [-20,20], lower bound in [-5,5], span in [1,8]"),
         Obl("angmod/inside", inside_unchanged, U + "angmod", "any interval with lower end in [-7,7] and span in [1,8]"),
         Obl("angmod/inside-default", inside_unchanged_default, U + "angmod", "x in [0,2pi)"),
         Obl("angmod/bad-bounds", bad_bounds, U + "angmod", "bounds in [-5,5]"),
         Obl("angmod/whole-turns", top_goes_to_bottom, U + "angmod", "k turns, k in -3..3"),
         Obl("units/roundtrip", roundtrip, U + "data2rad," + U + "rad2data", "data in [-1000,1000], cycle in [0.5,1000]"),
         Obl("units/roundtrip-array", roundtrip_array, U + "data2rad," + U + "rad2data", "3 values"),
         Obl("rotate/compose", rotate_compose, U + "rotate_data", "angles within one turn, all units"),
         Obl("rotate/bad-unit", rotate_bad_unit, U + "rotate_data", "")]
    o += [Obl("rotate/" + u, rotate(u), U + "rotate_data", "2 angles in one turn, rotation within 1.5 turns") for u in ("radian", "degree", "hour")]
    return o
