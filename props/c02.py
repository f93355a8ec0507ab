"""C02 angular distances."""
from symx.harness import Obl


def dist_law(M):
    a = M.real("a", -13, 13); b = M.real("b", -13, 13)
    d = M.m.utils.angular_distance(M.arr([a]), b)[0]
    M.ge("nonneg", d, 0, tol=0); M.le("at most pi", d, M.pi)
    M.eq("cos", M.np.cos(d), M.np.cos(a - b))
    e = M.m.utils.angular_distance(M.arr([b]), a)[0]
    M.eq("symmetric", d, e)


def dist_zero(M):
    a = M.angle("a"); b = M.angle("b")
    d = M.m.utils.angular_distance(M.arr([a]), b)[0]
    M.assume(a != b)
    M.ok("positive when different", d > 0)
    M.eq("zero on itself", M.m.utils.angular_distance(M.arr([a]), a)[0], 0)


def dist_period(M):
    a = M.angle("a"); b = M.angle("b"); k = M.int("k", -2, 2)
    f = M.m.utils.angular_distance
    d = f(M.arr([a]), b)[0]
    M.eq("turns in first", f(M.arr([a + 2 * M.pi * k]), b)[0], d)
    M.eq("turns in second", f(M.arr([a]), b + 2 * M.pi * k)[0], d)


def dist_rot(M):
    a = M.angle("a"); b = M.angle("b"); t = M.real("t", -7, 7)
    f = M.m.utils.angular_distance
    M.eq("rotation", f(M.arr([a + t]), b + t)[0], f(M.arr([a]), b)[0])


def dist_triangle(M):
    a = M.angle("a"); b = M.angle("b"); c = M.angle("c")
    f = lambda x, y: M.m.utils.angular_distance(M.arr([x]), y)[0]
    M.le("triangle", f(a, c), f(a, b) + f(b, c))


def dist_list(M):
    xs = M.angles("x", 3); b = M.angle("b")
    r = M.m.utils.angular_distance(list(xs), b)
    for i in range(3): M.eq("elementwise", r[i], M.m.utils.angular_distance(M.arr([xs[i]]), b)[0])


def center(M):
    x = M.real("x", -13, 13); y = M.real("y", -13, 13)
    f = lambda p, q: M.m.descriptive.circ_dist(M.arr([p]), M.arr([q]))[0]
    d = f(x, y)
    M.ge("lower", d, -M.pi); M.le("upper", d, M.pi)
    M.angle_eq("congruent", d, x - y)
    M.angle_eq("antisymmetric", f(y, x), -d)
    M.eq("cos of size", M.np.cos(d), M.np.cos(x - y))


def center_vs_distance(M):
    """|signed difference| is the angular distance"""
    x = M.angle("x"); y = M.angle("y")
    d = M.m.descriptive.circ_dist(M.arr([x]), M.arr([y]))[0]
    e = M.m.utils.angular_distance(M.arr([x]), y)[0]
    M.eq("same size (cosine)", M.np.cos(d), M.np.cos(e))


def geodesic(M):
    x = M.real("x", -13, 13); y = M.real("y", -13, 13)
    d = M.m.descriptive.circ_dist(M.arr([x]), M.arr([y]), metric="geodesic")[0]
    e = M.m.utils.angular_distance(M.arr([x]), y)[0]
    M.eq("angular distance", d, e)
    M.eq("symmetric", M.m.descriptive.circ_dist(M.arr([y]), M.arr([x]), metric="geodesic")[0], d)


def angsep(M):
    x = M.real("x", -13, 13); y = M.real("y", -13, 13); t = M.real("t", -7, 7)
    g = lambda m, p, q: M.m.descriptive.circ_dist(M.arr([p]), M.arr([q]), metric=m)[0]
    d = g("angularseparation", x, y)
    M.eq("1-cos", d, 1 - M.np.cos(x - y)); M.ge("nonneg", d, 0); M.le("at most 2", d, 2)
    M.eq("symmetric", g("angularseparation", y, x), d)
    M.eq("rotation", g("angularseparation", x + t, y + t), d)
    c = g("chord", x, y)
    M.eq("chord^2 = 2(1-cos)", c * c, 2 * (1 - M.np.cos(x - y))); M.ge("nonneg", c, 0)
    M.eq("chord symmetric", g("chord", y, x), c)
    M.eq("chord rotation", g("chord", x + t, y + t), c)
    M.eq("chord is euclidean", c * c, (M.np.cos(x) - M.np.cos(y)) ** 2 + (M.np.sin(x) - M.np.sin(y)) ** 2)


def within_self(M):
    xs = M.angles("x", 3)
    m = M.choice("metric", ["center", "geodesic", "angularseparation", "chord"])
    D = M.m.descriptive
    r = D.circ_dist(M.arr(xs), metric=m)
    for i in range(3): M.eq("self distance", r[i], 0)


def unknown_metric(M):
    x = M.angle("x")
    M.raises("rejected", ValueError, lambda: M.m.descriptive.circ_dist(M.arr([x]), M.arr([x]), metric="manhattan"))
    M.raises("rejected", ValueError, lambda: M.m.descriptive.circ_pairdist(M.arr([x]), M.arr([x]), metric="manhattan"))


def shapes(M):
    xs = M.angles("x", 3); ys = M.angles("y", 2)
    M.raises("shapes", ValueError, lambda: M.m.descriptive.circ_dist(M.arr(xs), M.arr(ys)))


def pairs(M):
    xs = M.angles("x", 3); ys = M.angles("y", 2)
    m = M.choice("metric", ["center", "geodesic", "angularseparation", "chord"])
    D = M.m.descriptive
    r = D.circ_pairdist(M.arr(xs), M.arr(ys), metric=m)
    M.ok("shape", r.shape == (3, 2))
    for i in range(3):
        for j in range(2): M.eq("entry", r[i, j], D.circ_dist(M.arr([xs[i]]), M.arr([ys[j]]), metric=m)[0])
    s = D.circ_pairdist(M.arr(xs), M.arr(ys), metric=m, return_sum=True)
    M.eq("sum", s, sum(r[i, j] for i in range(3) for j in range(2)))


def pairs_self(M):
    xs = M.angles("x", 3)
    m = M.choice("metric", ["geodesic", "angularseparation", "chord"])
    D = M.m.descriptive
    r = D.circ_pairdist(M.arr(xs), metric=m)
    M.ok("shape", r.shape == (3, 3))
    for i in range(3):
        M.eq("diagonal", r[i, i], 0)
        for j in range(3):
            M.eq("entry", r[i, j], D.circ_dist(M.arr([xs[i]]), M.arr([xs[j]]), metric=m)[0]); M.eq("symmetric", r[i, j], r[j, i])


def sums(M):
    xs = M.angles("x", 3); ys = M.angles("y", 3)
    m = M.choice("metric", ["center", "geodesic", "angularseparation", "chord"])
    D = M.m.descriptive
    r = D.circ_dist(M.arr(xs), M.arr(ys), metric=m)
    M.eq("sum", D.circ_dist(M.arr(xs), M.arr(ys), metric=m, return_sum=True), r[0] + r[1] + r[2])


def obligations(tier):
    A, D, P = "utils.angular_distance", "descriptive.circ_dist", "descriptive.circ_pairdist"
    two = "angles within 2 turns of 0"
    return [Obl("angular/law", dist_law, A, two), Obl("angular/zero", dist_zero, A, "angles in [0,2pi)"), Obl("angular/period", dist_period, A, "k in -2..2 turns"),
            Obl("angular/rotation", dist_rot, A, "rotation in [-7,7]"), Obl("angular/triangle", dist_triangle, A, "angles in [0,2pi)"), Obl("angular/list", dist_list, A, "3 angles"),
            Obl("center/law", center, D, two), Obl("center/vs-angular", center_vs_distance, D + "," + A, "angles in [0,2pi)"), Obl("geodesic", geodesic, D + "," + A, "angles in [0,2pi)"),
            Obl("separation-chord", angsep, D, two), Obl("self", within_self, D, "3 angles"), Obl("unknown-metric", unknown_metric, D + "," + P, ""), Obl("shape-mismatch", shapes, D, "3 vs 2"),
            Obl("pairs", pairs, P, "3 x 2 angles, 4 metrics"), Obl("pairs/self", pairs_self, P, "3 angles, 3 metrics"), Obl("sums", sums, D, "3 angles, 4 metrics")]
