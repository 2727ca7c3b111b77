"""ROCK4 tables read through the accessors of /repo, and B-series of the
composite method (exact rational arithmetic)."""
from .spec import *
from . import trees as TR

R4INC = ["common/include", "Rock4-NG/include"]
RLINC = ["common/include", "Rock4-L/include"]


def ast4(*defs):
    from .ast import AST, VERIF
    return AST(VERIF + "/harness/rock4.cc", incs=R4INC, flags=["-DALIGN_BLOCKED", *defs])


def astL(*defs):
    from .ast import AST, VERIF
    return AST(VERIF + "/harness/rock4l.cc", incs=RLINC, flags=["-DALIGN_BLOCKED", *defs])


class Tables:
    """every table entry a degree selects, read through Rock4Coeffs"""

    def __init__(self, ast):
        s = self.s = Session(ast)
        c = s.cls("Rock4Coeffs")
        self.o = s.obj(c, "Coeffs")
        self.m = {k: method(ast, c, k) for k in ("recf", "fpa", "fpb", "fpbe", "ms") if k != "fpbe" or any(x.get("name") == "fpbe" for x in c["inner"])}

    def get(self, nm, *a):
        v = T.pynum(self.s.run(self.m[nm], self.o, *a))
        if not isinstance(v, (int, Fraction)):
            raise Missing("%s%s is not a constant" % (nm, a))
        return v

    def ms(self):
        return [int(self.get("ms", i)) for i in range(1, 51)]

    def rows(self):
        """[(degree, recf of the degree, fpa row, fpb row, fpbe row)]"""
        out = []
        mr = 1
        for i, d in enumerate(self.ms(), 1):
            rec = [Fraction(self.get("recf", mr + k)) for k in range(2 * d - 1)]
            fa = [Fraction(self.get("fpa", i, j)) for j in range(1, 7)]
            fb = [Fraction(self.get("fpb", i, j)) for j in range(1, 5)]
            fe = [Fraction(self.get("fpbe", i, j)) for j in range(1, 6)] if "fpbe" in self.m else None
            out.append((d, rec, fa, fb, fe))
            mr += 2 * d - 1
        return out


TREES = TR.upto(4)
IDX = {t: i for i, t in enumerate(TREES)}


def fser(a):
    """B-series of h F(g) from that of g (elementary-weight normalisation:
    exact solution has coefficient 1/density)"""
    out = []
    for t in TREES:
        p = Fraction(1)
        for u in t:
            p *= a[IDX[u]]
        out.append(p)
    return out


def lin(*terms):
    return [sum((c * v[i] for c, v in terms), Fraction(0)) for i in range(len(TREES))]


def composite(d, rec, fa, fb, fe):
    """B-series of the last recurrence stage, of the solution, of the embedded solution"""
    Z = [Fraction(0)] * len(TREES)
    # all series represent y + (coefficients); the coefficient of y is one in each
    prev, cur = Z, lin((rec[0], fser(Z)))
    for j in range(2, d + 1):
        mu, nu = rec[2 * (j - 2) + 1], -rec[2 * (j - 2) + 2]
        prev, cur = cur, lin((mu, fser(cur)), (1 - nu, cur), (nu, prev))
    k1 = fser(cur)
    k2 = fser(lin((1, cur), (fa[0], k1)))
    k3 = fser(lin((1, cur), (fa[1], k1), (fa[2], k2)))
    k4 = fser(lin((1, cur), (fa[3], k1), (fa[4], k2), (fa[5], k3)))
    y1 = lin((1, cur), (fb[0], k1), (fb[1], k2), (fb[2], k3), (fb[3], k4))
    ye = None
    if fe is not None:
        k5 = fser(y1)
        ye = lin((1, cur), (fe[0], k1), (fe[1], k2), (fe[2], k3), (fe[3], k4), (fe[4], k5))
    return cur, y1, ye


def stability(d, rec, fa, fb, zs):
    """values of the stability polynomial (numpy long double)"""
    import numpy as np
    L = np.longdouble
    z = zs
    f = lambda q: L(q.numerator) / L(q.denominator)
    prev, cur = np.ones_like(z), 1 + f(rec[0]) * z
    for j in range(2, d + 1):
        mu, nu = f(rec[2 * (j - 2) + 1]), -f(rec[2 * (j - 2) + 2])
        prev, cur = cur, mu * z * cur + (1 - nu) * cur + nu * prev
    if d == 0:
        cur = prev
    k1 = z * cur
    k2 = z * (cur + f(fa[0]) * k1)
    k3 = z * (cur + f(fa[1]) * k1 + f(fa[2]) * k2)
    k4 = z * (cur + f(fa[3]) * k1 + f(fa[4]) * k2 + f(fa[5]) * k3)
    return cur + f(fb[0]) * k1 + f(fb[1]) * k2 + f(fb[2]) * k3 + f(fb[3]) * k4


def alloc_contracts(s, blk=64):
    """allocDoubleArray(n): a fresh array of n doubles aligned to a block;
    destroyDoubleArray(p): releases one; alignment promises made to the compiler
    (ASSUME_ALIGNED) are obligations"""
    ex = s.ex
    ex.aligned = {}

    def alloc(ex, st, this, args, e):
        n = ex.ev(args[0], st)
        ex.oblige(st, cmp(">=", n, 0), "allocation size non negative", "bound")
        rid = ex.new_region(st, "heap%d" % len(ex.regions), n, "real", origin="new[]")
        ex.aligned[rid] = blk
        return P(rid, 0)

    def destroy(ex, st, this, args, e):
        ex.free(st, ex.ev(args[0], st), "delete[]")

    def hook(ex, st, v, a):
        if not isinstance(v, Ptr):
            raise Unsupported("alignment of a non pointer")
        a = T.pynum(a)
        for c, r, o in v.alts:
            if r is None or r == "undef" or isinstance(r, tuple):
                continue
            al = ex.aligned.get(r, 64 if ex.regions[r].origin == "param" else 8)
            if al >= a and T.ispy(T.pynum(o)):
                ok = (T.pynum(o) * 8) % a == 0
            elif al >= a:
                ok = z3.simplify(I(o)) if T.ispy(o) else (I(o) * 8) % a == 0
            else:
                ok = False
            ex.oblige(st, lor(lnot(c), ok) if c is not True else ok, "pointer promised aligned to %s bytes is" % a, "align")
    ex.contracts[(None, "allocDoubleArray")] = alloc
    ex.contracts[(None, "destroyDoubleArray")] = destroy
    ex.align_hook = hook
