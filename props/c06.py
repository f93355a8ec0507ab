"""C06 variance and standard deviations."""
from symx.harness import Obl


def D(M): return M.m.descriptive


def from_r(M):
    r = M.real("r", 0.001, 1)
    M.eq("variance", D(M).circ_var(r=r), 1 - r)
    M.eq("angular variance", D(M).angular_var(r=r), 2 * (1 - r))
    s = D(M).angular_std(r=r); M.eq("angular sd", s * s, 2 * (1 - r)); M.ge("angular sd sign", s, 0)
    s = D(M).circ_std(r=r); M.eq("circular sd", s * s, -2 * M.np.log(r)); M.ge("circular sd sign", s, 0)


def from_r_bin(M):
    r = M.real("r", 0.001, 1); b = M.real("b", 0.01, 3.1)
    rc = r * b / (2 * M.np.sin(b / 2))
    M.assume(rc < 1)
    M.eq("variance", D(M).circ_var(r=r, bin_size=b), 1 - rc)
    M.eq("angular variance", D(M).angular_var(r=r, bin_size=b), 2 * (1 - rc))
    s = D(M).angular_std(r=r, bin_size=b); M.eq("angular sd", s * s, 2 * (1 - rc)); M.ge("sign", s, 0)
    s = D(M).circ_std(r=r, bin_size=b); M.eq("circular sd", s * s, -2 * M.np.log(rc)); M.ge("sign", s, 0)


def no_bin(M):
    r = M.real("r", 0, 1)
    M.eq("zero width", D(M).circ_var(r=r, bin_size=0), 1 - r)
    x = M.angles("x", 2)
    M.eq("equal weights need no correction", D(M).circ_var(M.arr(x), M.arr([3, 3])), 1 - D(M).circ_r(M.arr(x)))


def monotone(M):
    a, b = M.real("a", 0.01, 1), M.real("b", 0.01, 1)
    M.assume(b > a + 0.001)
    for n in ("circ_var", "angular_var", "angular_std", "circ_std"):
        f = getattr(D(M), n)
        M.lt(n, f(r=b), f(r=a))


def data(n):
    def f(M):
        xs = [M.real("x%d" % i, -7, 7) for i in range(n)]
        r = D(M).circ_r(M.arr(xs))
        M.assume(r > 0.01); M.assume(r < 0.999)
        M.eq("variance", D(M).circ_var(M.arr(xs)), 1 - r)
        M.eq("angular variance", D(M).angular_var(M.arr(xs)), 2 * (1 - r))
        s = D(M).angular_std(M.arr(xs)); M.eq("angular sd", s * s, 2 * (1 - r))
        s = D(M).circ_std(M.arr(xs)); M.eq("circular sd", s * s, -2 * M.np.log(r))
        t = M.real("t", -7, 7)
        M.eq("rotation", D(M).circ_var(M.arr(xs) + t), 1 - r)
    return f


def grouped(M):
    """unequal frequencies at equally spaced bin midpoints: correction with the bin width, unless a width is given"""
    s = M.real("s", -3, 3); h = M.real("h", 0.05, 0.5); b = 2 * h
    w = M.arr([M.real("w%d" % i, 0.1, 10) for i in range(3)])
    M.assume(M.np.abs(w[0] - w[1]) > 0.01)
    xs = M.arr([s, s + b, s + 2 * b])
    r = D(M).circ_r(xs, w); f = b / (2 * M.np.sin(b / 2))
    M.eq("default width", D(M).circ_var(xs, w), 1 - r * f)
    M.eq("angular", D(M).angular_var(xs, w), 2 * (1 - r * f))
    c = M.real("c", 0.1, 3)
    M.eq("given width", D(M).circ_var(xs, w, bin_size=c), 1 - r * c / (2 * M.np.sin(c / 2)))
    M.eq("given r", D(M).circ_var(xs, w, r=0.5), 1 - 0.5 * f)
    M.eq("no correction wanted", D(M).circ_var(xs, w, bin_size=0), 1 - r)


def grouped_uneven(M):
    """the width of the narrowest gap is used when bins are not equally spaced"""
    s = M.real("s", -3, 3); h = M.real("h", 0.05, 0.5); b = 2 * h; e = M.real("e", 0.01, 1)
    w = M.arr([1, 2, 2])
    k = M.choice("k", [0, 1])
    xs = M.arr([s, s + b + (e if k else 0), s + 2 * b + e])
    r = D(M).circ_r(xs, w)
    M.eq("narrowest", D(M).circ_var(xs, w), 1 - r * b / (2 * M.np.sin(b / 2)))


def bad(M):
    r = M.real("r", 0.1, 0.9)
    for n in ("circ_var", "angular_var", "angular_std", "circ_std"): M.raises(n, ValueError, lambda: getattr(D(M), n)())
    M.raises("w without data", ValueError, lambda: D(M).circ_var(r=r, w=M.arr([1, 2])))


def obligations(tier):
    F = "descriptive.circ_var,descriptive.angular_var,descriptive.angular_std,descriptive.circ_std,descriptive.circ_r"
    return [Obl("from-r", from_r, F, "r in [0.001,1]"), Obl("from-r-bin", from_r_bin, F, "r in [0.001,1], bin width in [0.01,3.1], corrected r below 1"), Obl("no-bin", no_bin, F, ""),
            Obl("monotone", monotone, F, "r in [0.01,1]"), Obl("grouped", grouped, F, "3 bins, weights in [0.1,10]"), Obl("grouped-uneven", grouped_uneven, F, "3 uneven bins"), Obl("bad", bad, F, "")] + [
            Obl("data/n%d" % n, data(n), F, "n=%d angles in [-7,7]" % n) for n in ((2, 4) if tier == "quick" else (2, 3, 4, 6))]
