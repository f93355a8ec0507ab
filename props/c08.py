"""C08 mean deviation."""
from symx.harness import Obl

R = 2e-5      # values are reported to five decimals


def D(M): return M.m.descriptive


def dist(M, x, y): return M.m.utils.angular_distance(M.arr([x]), y)[0]


def definition(n, m, lim):
    def f(M):
        a = [M.real("a%d" % i, -lim, lim) for i in range(n)]; b = [M.real("b%d" % i, -lim, lim) for i in range(m)]
        r = D(M).circ_mean_deviation(M.arr(a), M.arr(b))
        M.ok("one value per reference", len(r) == m)
        for j in range(m):
            M.eq("mean distance", r[j], sum(dist(M, x, b[j]) for x in a) / n, tol=R)
            M.ge("lower", r[j], 0, tol=R); M.le("upper", r[j], M.pi, tol=R)
    return f


def rotation(M):
    a = M.angles("a", 2); b = M.angle("b"); t = M.real("t", -7, 7)
    f = D(M).circ_mean_deviation
    M.eq("rotation", f(M.arr(a) + t, b + t)[0], f(M.arr(a), b)[0], tol=R)


def order(M):
    a = M.angles("a", 3); b = M.angle("b"); f = D(M).circ_mean_deviation
    M.eq("order", f(M.arr([a[2], a[0], a[1]]), b)[0], f(M.arr(a), b)[0], tol=R)
    M.eq("list", f(list(a), b)[0], f(M.arr(a), b)[0], tol=R)


def chunks(M):
    n, m = 2, 5
    a = [M.angle("a0"), M.real("a1", -7, 7)]; b = M.angles("b", m - 1) + [M.real("far", -7, 7)]; k = M.int("k", 1, 6)
    want = D(M).circ_mean_deviation(M.arr(a), M.arr(b))
    for name in ("circ_mean_deviation_chunked", "circ_mean_deviation_chuncked"):
        got = getattr(D(M), name)(M.arr(a), M.arr(b), chunk_size=k)
        M.ok("length", len(got) == m)
        for j in range(m): M.eq("block by block", got[j], want[j], tol=R)


def default_chunk(M):
    a = M.reals("a", 2, -13, 13); b = M.real("b", -13, 13)
    M.eq("default block", D(M).circ_mean_deviation_chunked(M.arr(a), b)[0], D(M).circ_mean_deviation(M.arr(a), b)[0], tol=R)
    for k in (0, -1): M.raises("block size", ValueError, lambda: D(M).circ_mean_deviation_chunked(M.arr(a), b, chunk_size=k))


def obligations(tier):
    F = "descriptive.circ_mean_deviation"; C = "descriptive.circ_mean_deviation_chunked"
    q = tier == "quick"
    return [Obl("definition/n%d" % n, definition(n, m, l), F, "%d angles, %d references in [-%d,%d]" % (n, m, l, l)) for n, m, l in ([(1, 1, 13), (2, 2, 7), (3, 1, 7)] + ([] if q else [(4, 1, 7), (3, 2, 7)]))] + [
        Obl("rotation", rotation, F, "2 angles, rotation in [-7,7]"), Obl("order", order, F, "3 angles"), Obl("chunks", chunks, F + "," + C, "2 angles, 5 references, block size 1..6"), Obl("default-chunk", default_chunk, C, "")]
