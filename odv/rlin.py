"""Rock4L with the operator's documented contract: values of vectors are followed as
combinations sum c_ij dt^i A^j v (v = solution at the beginning of the step, or b)."""
from .rock import *
from .r4loop import one


def lincomb(e, dt, leaves):
    """term -> {(power of dt, leaf or None): coefficient}"""
    e = T.pynum(e)
    if isinstance(e, (int, Fraction)):
        return {(0, None): Fraction(e)} if e != 0 else {}
    if e.eq(dt):
        return {(1, None): Fraction(1)}
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 1 and leaves is not None:
        return {(0, (e.decl().name(), str(z3.simplify(e.arg(0), som=True)))): Fraction(1)}
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        out = {}
        for c in ch:
            for m, v in lincomb(c, dt, leaves).items():
                out[m] = out.get(m, 0) + v
        return out
    if k == z3.Z3_OP_SUB:
        out = dict(lincomb(ch[0], dt, leaves))
        for c in ch[1:]:
            for m, v in lincomb(c, dt, leaves).items():
                out[m] = out.get(m, 0) - v
        return out
    if k == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in lincomb(ch[0], dt, leaves).items()}
    if k == z3.Z3_OP_MUL:
        out = {(0, None): Fraction(1)}
        for c in ch:
            x = lincomb(c, dt, leaves)
            n = {}
            for (p, l), v in out.items():
                for (r, m), w in x.items():
                    if l is not None and m is not None:
                        raise Unsupported("product of two vectors")
                    kk = (p + r, l if m is None else m)
                    n[kk] = n.get(kk, 0) + v * w
            out = n
        return out
    if k == z3.Z3_OP_TO_REAL or k == z3.Z3_OP_RATIONAL if hasattr(z3, "Z3_OP_RATIONAL") else False:
        return lincomb(ch[0], dt, leaves)
    raise Unsupported("not a polynomial in the step: " + str(e)[:80])


class V:
    """combination of dt^i A^j v"""

    def __init__(self, c=None):
        self.c = {k: v for k, v in (c or {}).items() if v != 0}

    def __add__(self, o):
        d = dict(self.c)
        for k, v in o.c.items():
            d[k] = d.get(k, 0) + v
        return V(d)

    def scale(self, p):
        """p: {power of dt: coefficient}"""
        d = {}
        for i, w in p.items():
            for (a, j, v), x in self.c.items():
                k = (a + i, j, v)
                d[k] = d.get(k, 0) + x * w
        return V(d)

    def A(self):
        return V({(i, j + 1, v): x for (i, j, v), x in self.c.items()})

    def __eq__(self, o):
        return self.c == o.c


def unit(v):
    return V({(0, 0, v): Fraction(1)})


def expected(d, rec, fa, fb, affine):
    """one ROCK4 step for F(v)=Av (+b)"""
    def F(v):
        r = v.A()
        return r + unit("b") if affine else r
    h = lambda q: {1: q}
    n = lambda q: {0: q}
    y = unit("y")
    prev, cur = y, y + F(y).scale(h(rec[0]))
    for j in range(2, d + 1):
        mu, nu = rec[2 * (j - 2) + 1], -rec[2 * (j - 2) + 2]
        prev, cur = cur, F(cur).scale(h(mu)) + cur.scale(n(1 - nu)) + prev.scale(n(nu))
    k1 = F(cur)
    k2 = F(cur + k1.scale(h(fa[0])))
    k3 = F(cur + k1.scale(h(fa[1])) + k2.scale(h(fa[2])))
    k4 = F(cur + k1.scale(h(fa[3])) + k2.scale(h(fa[4])) + k3.scale(h(fa[5])))
    return cur + k1.scale(h(fb[0])) + k2.scale(h(fb[1])) + k3.scale(h(fb[2])) + k4.scale(h(fb[3]))


def buildL(ast, affine, ctor=True):
    s = Session(ast)
    ex = s.ex
    alloc_contracts(s)
    ex.ext[("odes_OpL", "size")] = lambda ex, st, this, args, e: N_
    c = s.cls("Rock4L", lambda c: str(ast.targs(c)[-1]) in (("true", "1", "True", "-1") if affine else ("false", "0", "False")))
    fo = s.obj(s.cls("odes_OpL"), "A")
    o = s.obj(c, "S")
    s.ctor(o, LObj(fo))
    return s, c, o
