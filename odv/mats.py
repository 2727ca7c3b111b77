"""Contracts for the matrix containers (proved in C02) used by callers: a
container is its set of admissible entries (i,j), one ghost 2-d region (two for
complex containers)."""
from .spec import *

KL, KU = z3.Int("kl"), z3.Int("ku")
REALC = ("fortranArray", "fortranRectangularArray")
CPLXC = ("fortranComplexArray", "fortranRectangularComplexArray")


class FnC(Content):
    """content given by a function of the key (dec available)"""

    def __init__(self, fn):
        self.fn = fn

    def read(self, key, dec):
        return self.fn(key, dec)


class Mats:
    """install the container contracts in a session"""

    def __init__(self, s, n=None, kl=None, ku=None):
        self.s, self.ex = s, s.ex
        self.n = s.n if n is None else n
        self.kl = KL if kl is None else kl
        self.ku = KU if ku is None else ku
        self.reg = {}
        c = s.ex.contracts
        for cn in REALC:
            c[(cn, "operator()")] = self.at
            c[(cn, "equal_minus")] = self.equal_minus
            c[(cn, "addDiag")] = self.adddiag
            c[(cn, "operator&")] = self.addr
        for cn in CPLXC:
            c[(cn, "Re")] = self.re
            c[(cn, "Im")] = self.im
            c[(cn, "set")] = self.set
            c[(cn, "operator&")] = self.addr

    def ghost(self, st, oid):
        r = self.reg.get(oid)
        if r is None:
            o = self.ex.objs[oid]
            cn = o.cls.get("name")
            out = []
            for suf in (("",) if cn in REALC else (".re", ".im")):
                f = T.freshfun("in_" + o.name + suf, 2, "real")
                rid = self.ex.new_region(st, o.name + suf, (self.n, self.n), "real", origin="param", dims=2, content=Base(f, "real"))
                # visible in every state of this run
                self.ex.gcontent[rid] = st.reg[rid]
                if "Rectangular" in cn:
                    kl, ku = self.kl, self.ku
                    self.ex.regions[rid].band = lambda i, j, kl=kl, ku=ku: land(cmp(">=", i, sub(j, ku)), cmp("<=", i, add(j, kl)))
                out.append((rid, f))
            r = self.reg[oid] = out
        for rid, f in r:
            if rid not in st.reg:
                st.reg[rid] = self.ex.gcontent[rid]
        return r

    def attach(self, oid):
        """give every container inside object oid its ghost region now"""
        for lv in self.ex.objs[oid].n.values():
            if isinstance(lv, LObj):
                if self.ex.objs[lv.oid].cls.get("name") in REALC + CPLXC:
                    self.ghost(self.s.st, lv.oid)
                else:
                    self.attach(lv.oid)

    def admissible(self, i, j, band):
        g = [i >= 1, i <= self.n, j >= 1, j <= self.n]
        if band:
            g += [i >= j - self.ku, i <= j + self.kl]
        return g

    def at(self, ex, st, this, args, e):
        i, j = ex.ev(args[0], st), ex.ev(args[1], st)
        rid = self.ghost(st, this)[0][0]
        lv = LElem(Ptr(((True, rid, (i, j)),)))
        if e.get("valueCategory") == "lvalue":
            return lv
        return ex.load(st, lv)

    def re(self, ex, st, this, args, e, which=0):
        i, j = ex.ev(args[0], st), ex.ev(args[1], st)
        return LElem(Ptr(((True, self.ghost(st, this)[which][0], (i, j)),)))

    def im(self, ex, st, this, args, e):
        return self.re(ex, st, this, args, e, 1)

    def set(self, ex, st, this, args, e):
        i, j = ex.ev(args[0], st), ex.ev(args[1], st)
        re = ex.conv(ex.ev(args[2], st), "double")
        im = Fraction(0)
        if len(args) > 3 and args[3].get("kind") != "CXXDefaultArgExpr":
            im = ex.conv(ex.ev(args[3], st), "double")
        g = self.ghost(st, this)
        ex.wr(st, g[0][0], (i, j), re)
        ex.wr(st, g[1][0], (i, j), im)
        return None

    def equal_minus(self, ex, st, this, args, e):
        x = ex.lv(args[0], st)
        src = self.ghost(st, x.oid)[0][0]
        dst = self.ghost(st, this)[0][0]
        c = ex.content(st, src)
        st.reg[dst] = FnC(lambda key, dec: T.neg(c.read(key, dec)))
        return None

    def adddiag(self, ex, st, this, args, e):
        v = ex.conv(ex.ev(args[0], st), "double")
        r = self.ghost(st, this)[0][0]
        c = ex.content(st, r)

        def fn(key, dec):
            g = cmp("==", key[0], key[1])
            d = dec(g)
            o = c.read(key, dec)
            if d is True:
                return add(o, v)
            if d is False:
                return o
            return T.ite(g, add(o, v), o)
        st.reg[r] = FnC(fn)
        return None

    def addr(self, ex, st, this, args, e):
        self.ghost(st, this)
        return P(("mat", this), 0)


class Lapack:
    """contracts of the LAPACK routines the library calls (assumed):
    xxTRF replaces A and ipiv by a factorisation handle of A, sets info;
    xxTRS overwrites B with the solution of (handle's A) x = B, sets info."""

    def __init__(self, s, M):
        self.s, self.M, self.ex = s, M, s.ex
        self.factors, self.solves = [], []
        for nm in ("dgetrf_", "zgetrf_", "dgbtrf_", "zgbtrf_"):
            s.ex.ext[(None, nm)] = (lambda ex, st, this, args, e, nm=nm: self.trf(nm, st, args))
        for nm in ("dgetrs_", "zgetrs_", "dgbtrs_", "zgbtrs_"):
            s.ex.ext[(None, nm)] = (lambda ex, st, this, args, e, nm=nm: self.trs(nm, st, args))

    def val(self, st, p):
        return self.ex.rdptr(st, p)

    def matreg(self, st, p):
        a = p.alts
        if len(a) == 1 and isinstance(a[0][1], tuple) and a[0][1][0] == "mat":
            return self.M.ghost(st, a[0][1][1]), a[0][1][1]
        raise Unsupported("LAPACK called on something that is not a matrix container")

    def trf(self, nm, st, args):
        ex = self.ex
        ps = [ex.ev(a, st) for a in args]
        band = nm[1:3] == "gb"
        d = dict(name=nm, pc=st.pc, m=self.val(st, ps[0]), n=self.val(st, ps[1]))
        k = 2
        if band:
            d["kl"], d["ku"] = self.val(st, ps[2]), self.val(st, ps[3])
            k = 4
        regs, oid = self.matreg(st, ps[k])
        d["lda"] = self.val(st, ps[k + 1])
        d["mat"] = oid
        d["content"] = [ex.content(st, r) for r, f in regs]
        d["state"] = st.clone()
        cells = []
        for r, f in regs:
            st.reg[r] = Base(T.freshfun("LU", 2, "real"), "real")
            cells.append((r, st.reg[r]))
        ip = ps[k + 2].alts
        if len(ip) != 1:
            raise Unsupported("ipiv")
        st.reg[ip[0][1]] = Base(T.freshfun("piv", 1, "int"), "int")
        cells.append((ip[0][1], st.reg[ip[0][1]]))
        d["ipoff"], d["iprid"] = ip[0][2], ip[0][1]
        d["handle"] = cells
        d["info"] = T.fresh("info", "int")
        ex.assign(st, LElem(ps[k + 3]), d["info"])
        self.factors.append(d)

    def trs(self, nm, st, args):
        ex = self.ex
        ps = [ex.ev(a, st) for a in args]
        band = nm[1:3] == "gb"
        d = dict(name=nm, pc=st.pc, trans=self.val(st, ps[0]), n=self.val(st, ps[1]))
        k = 2
        if band:
            d["kl"], d["ku"] = self.val(st, ps[2]), self.val(st, ps[3])
            k = 4
        d["nrhs"] = self.val(st, ps[k])
        regs, oid = self.matreg(st, ps[k + 1])
        d["lda"] = self.val(st, ps[k + 2])
        ip = ps[k + 3].alts
        d["ipoff"], d["iprid"] = ip[0][2], ip[0][1]
        d["handle"] = [(r, ex.content(st, r)) for r, f in regs] + [(ip[0][1], ex.content(st, ip[0][1]))]
        B = ps[k + 4]
        d["ldb"] = self.val(st, ps[k + 5])
        d["B"] = B
        d["state"] = st.clone()
        if len(B.alts) != 1:
            raise Unsupported("right-hand side pointer")
        br, bo = B.alts[0][1], B.alts[0][2]
        f = T.freshfun("sol", 1, "real")
        d["sol"] = f
        d["bcontent"] = ex.content(st, br)
        st.reg[br] = Base(f, "real")
        d["info"] = T.fresh("info", "int")
        ex.assign(st, LElem(ps[k + 6]), d["info"])
        self.solves.append(d)

    def factor_of(self, d):
        """index of the factorisation whose factors the solve d uses"""
        for i, f in enumerate(self.factors):
            if len(f["handle"]) == len(d["handle"]) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(f["handle"], d["handle"])):
                return i
        return None
