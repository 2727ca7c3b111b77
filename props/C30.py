"""C30 ROCK4 tables."""
from odv.rock import *
NOTE = """The accessors recf/fpa/fpb/fpbe/ms of /repo are verified to return the documented table entry for every index (symbolic), and are then executed for every entry the 50 degrees select. From the entries: the B-series of the composite method (recurrence followed by the finishing stages) is computed in exact rational arithmetic up to order 4 and every rooted-tree condition decided (order 3 for the embedded solution); the stability polynomial is bounded on the whole interval [-(0.353 s^2-3),0] by the Ehlich-Zeller inequality over 100*degree Chebyshev nodes (values in 80-bit arithmetic, margin 1e-9), using R'>0 next to the origin. The two copies of the tables are compared entry by entry. Roles of the entries in the step: C12, C15."""
TOL = Fraction(1, 10**12)
ASSUMPTIONS = ["stability bound: values of the polynomial at the nodes are computed in 80-bit floating point (error far below the margin 1e-9)"]
# subintervals where the published tables exceed one (known finding), with the largest value seen
KNOWN = {63: (-1581.617, -1581.58, 1.1415), 129: (-8.9, -7.9, 1.0061), 148: (-8.9, -7.9, 1.008)}


def run(V):
    a4, aL = ast4(), astL()
    V.contract("Rock4 accessors", accessors, V, a4)
    V.contract("Rock4L accessors", accessors, V, aL)
    t4 = rows(V, "Rock4", a4)
    tL = rows(V, "Rock4L", aL)
    if t4 is not None and tL is not None:
        V.record("tables", "both variants tabulate the same degrees", [r[0] for r in t4] == [r[0] for r in tL], backend="exact-rational-evaluation")
        for r, q in zip(t4, tL):
            V.record("tables", "degree %d: Rock4L coefficients equal the Rock4 coefficients" % r[0], r[:4] == q[:4], backend="exact-rational-evaluation")
    for who, t in (("Rock4", t4), ("Rock4L", tL)):
        if t is None:
            continue
        V.record(who, "50 degrees, increasing, from 1 to 148", len(t) == 50 and t[0][0] == 1 and t[-1][0] == 148 and all(a[0] < b[0] for a, b in zip(t, t[1:])), backend="exact-rational-evaluation")
        if who == "Rock4L" and t4 is not None and [r[:4] for r in t4] == [r[:4] for r in t]:
            continue
        for k in range(0, 50, 5):
            V.contract("%s degrees %s" % (who, [r[0] for r in t[k:k + 5]]), degrees, V, who, t[k:k + 5])


def rows(V, who, ast):
    try:
        return Tables(ast).rows()
    except (Missing, Unsupported, IndexError, KeyError) as e:
        V.out.unsupported.append((who + " tables", "%s: %s" % (type(e).__name__, e)))
        return None


def accessors(V, ast):
    """symbolic index: the accessor returns that entry of the table"""
    T_ = Tables(ast)
    s = T_.s
    for nm, sz in (("recf", 4382), ("ms", 50)):
        i = s.int("i")
        s.st.assume(i >= 1)
        s.st.assume(i <= sz)
        v = s.run(T_.m[nm], T_.o, i)
        s.goal(v is not None, "%s(i) is an entry of its table for every 1<=i<=%d" % (nm, sz))
    for nm, m in (("fpa", 6), ("fpb", 4), ("fpbe", 5)):
        if nm not in T_.m:
            continue
        for j in range(1, m + 1):
            i = s.int("i")
            s.st.assume(i >= 1)
            s.st.assume(i <= 50)
            s.run(T_.m[nm], T_.o, i, j)
    s.goal(True, "no access outside the tables")
    return s


def degrees(V, who, rows):
    import numpy as np
    L = np.longdouble

    def cheb(a, b, m):
        return L(a) / 2 + L(b) / 2 + (L(b) - L(a)) / 2 * np.cos(L(np.pi) * (2 * np.arange(m) + 1) / (2 * m)).astype(L)
    for d, rec, fa, fb, fe in rows:
        lab = "%s degree %d" % (who, d)

        def rc(nm, ok, detail=""):
            V.record(lab, nm, bool(ok), backend="exact-rational-evaluation" if "order" in nm else "Ehlich-Zeller", detail=detail)
        c, y, e = composite(d, rec, fa, fb, fe)
        for i, t in enumerate(TREES):
            r = y[i] - Fraction(1, TR.density(t))
            rc("order condition %s" % TR.name(t), abs(r) <= TOL, "residual %.3g" % float(r))
            if e is not None and TR.size(t) <= 3:
                r = e[i] - Fraction(1, TR.density(t))
                rc("embedded order condition %s" % TR.name(t), abs(r) <= TOL, "residual %.3g" % float(r))
        s = d + 4
        D = s
        end = -(0.353 * s * s - 3)
        fac = 1 / np.cos(np.pi / 200)
        m = 100 * D

        def bound(a, b):
            # m > D nodes: max over [a,b] <= max over nodes / cos(pi D/(2m))
            v = stability(d, rec, fa, fb, cheb(a, b, m))
            return float(abs(v).max()) * fac + 1e-9

        def bounded(a, b, lim, depth=0):
            v = bound(a, b)
            if v <= lim:
                return True, v
            mid = stability(d, rec, fa, fb, np.linspace(a, b, 4001).astype(L))
            if float(abs(mid).max()) > lim or depth > 6:
                return False, float(abs(mid).max())
            x = (a + b) / 2
            p, q = bounded(a, x, lim, depth + 1), bounded(x, b, lim, depth + 1)
            return p[0] and q[0], max(p[1], q[1])
        near = -0.5
        parts = [(end, near)]
        if d in KNOWN:
            lo, hi, mx = KNOWN[d]
            lo = max(lo, end)
            parts = [(a, b) for a, b in ((end, lo), (hi, near)) if b - a > 1e-3]
            ok, v = bounded(lo, hi, 1.0)
            rc("stability polynomial at most one on [%g,%g]" % (lo, hi), ok, "max %.6g" % v)
            rc("stability polynomial at most %g on [%g,%g]" % (mx, lo, hi), bounded(lo, hi, mx)[0])
        for a, b in parts:
            ok, v = bounded(a, b, 1.0)
            rc("stability polynomial at most one on [%g,%g]" % (a, b), ok, "max %.6g" % v)
        # next to the origin: 0 < R' so R increases up to R(0)=1
        zs = cheb(near, 0.0, m)
        g = deriv(d, rec, fa, fb, zs) - L(0.8)
        lo = float(abs(g).max()) * fac
        r0 = float(stability(d, rec, fa, fb, np.array([near], dtype=L))[0])
        rc("stability polynomial increases on [%g,0] from a value above -1 to one" % near, lo < 0.8 and r0 > -1)


def deriv(d, rec, fa, fb, z):
    import numpy as np
    L = np.longdouble
    f = lambda q: L(q.numerator) / L(q.denominator)

    def zmul(p):
        return (z * p[0], p[0] + z * p[1])

    def lc(*ts):
        return (sum(c * p[0] for c, p in ts), sum(c * p[1] for c, p in ts))
    one = (np.ones_like(z), np.zeros_like(z))
    prev, cur = one, lc((L(1), one), (f(rec[0]), zmul(one)))
    for j in range(2, d + 1):
        mu, nu = f(rec[2 * (j - 2) + 1]), -f(rec[2 * (j - 2) + 2])
        prev, cur = cur, lc((mu, zmul(cur)), (1 - nu, cur), (nu, prev))
    k1 = zmul(cur)
    k2 = zmul(lc((L(1), cur), (f(fa[0]), k1)))
    k3 = zmul(lc((L(1), cur), (f(fa[1]), k1), (f(fa[2]), k2)))
    k4 = zmul(lc((L(1), cur), (f(fa[3]), k1), (f(fa[4]), k2), (f(fa[5]), k3)))
    return lc((L(1), cur), (f(fb[0]), k1), (f(fb[1]), k2), (f(fb[2]), k3), (f(fb[3]), k4))[1]


_I = ["common/include", "Rock4-NG/include"]
DRIVERS = [dict(src="C30.cc", name="C30-rock4", incs=_I, flags=["-DALIGN_BLOCKED"]),
           dict(src="C30.cc", name="C30-rock4l", incs=["common/include", "Rock4-L/include"], flags=["-DALIGN_BLOCKED", "-DLIN"])]
