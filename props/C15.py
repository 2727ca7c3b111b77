"""C15 Rock4L step."""
import z3
from odv.rlin import *
from odv.user import snap, _same
NOTE = """Rock4L's constructor and kernel1/kernel2 (linear/affine) are executed symbolically for each of the 50 table degrees, symbolic size and step, for an arbitrary linear operator given by its documented contract (out = a*A*in + b*s; with g: a*(A*in+g)+...; the form the library's own example implements). Every vector is followed as an exact combination of dt^i A^j y and dt^i A^j b with rational coefficients; the obligation is that the result is, coefficient by coefficient, the ROCK4 step (recurrence + four finishing stages, w the published tables of the row selected) applied to F(v)=Av or Av+b, for every linear A, y, b. Further obligations: the operator is never asked to write into a vector it reads or into b, its vectors are inside the allocated storage and aligned as promised, b is unchanged, every operator call is counted. All 50 degrees are enumerated (complete). Exact arithmetic."""
ASSUMPTIONS = ["the operator object meets the documented contract of its four call forms"]


def run(V_):
    a = astL()
    V_.contract("constructor", ctor, a)
    t = Tables(a).rows()
    for i, row in sorted(enumerate(t, 1), key=lambda x: -x[1][0]):
        for aff in (False, True):
            V_.contract("%s step, degree %d" % ("affine" if aff else "linear", row[0]), kernel, a, row, aff)


def ctor(ast):
    ss = []
    for aff in (False, True):
        s, c, o = buildL(ast, aff)
        S = s.getf(o, "sizesplit")
        s.goal(cmp(">=", S, N_), "parts of the storage are large enough")
        s.goal(cmp("==", T.cmod(S, 8), 0), "parts of the storage are aligned")
        r, off = one(s.getf(o, "BigArray"))
        s.goal(cmp(">=", s.ex.regions[r].size, mul(4, S)), "storage holds four vectors")
        ss.append(s)
    return ss


def kernel(ast, row, aff):
    d, rec, fa, fb, _ = row
    s, c, o = buildL(ast, aff)
    ex = s.ex
    S = s.int("sizesplit")
    s.st.assume(S >= N_)
    s.st.assume(S % 8 == 0)
    s.setf(o, "sizesplit", S)
    big = ex.new_region(s.st, "BigArray", 4 * S, "real", origin="new[]")
    ex.aligned[big] = 64
    s.st.reg[big] = Base(T.freshfun("in_big", 1, "real"), "real")
    s.setf(o, "BigArray", P(big))
    s.setf(o, "mdeg", d)
    s.run(method(ast, c, "mdegre", nparams=1), o, s.field(o, "mdeg"))
    s.goal(cmp("==", s.getf(o, "mdeg"), d), "tabulated degrees are selected as such")
    fc = s.int("funccal")
    s.setf(o, "funccal", fc)
    ns = s.int("nsteps")
    s.setf(o, "nsteps", ns)
    y, yf = s.array("y", N_)
    b, bf = s.array("b", N_)
    dt = s.real("dt")
    val = {yf.name(): unit("y"), bf.name(): unit("b")}
    calls = [0]
    k0 = z3.Int("k!lin")

    def pol(x):
        q = lincomb(x, dt, None)
        return {i: v for (i, l), v in q.items()}

    def value(ex, st, r, off):
        """the vector at r[off..off+n-1] as a combination"""
        t = st.clone()
        t.assume(k0 >= 0)
        t.assume(k0 < N_)
        e = ex.content(t, r).read((add(off, k0),), ex.decider(t))
        out = V()
        for (i, l), w in lincomb(R(e), dt, val).items():
            if l is None or l[1] != str(k0):
                raise Unsupported("vector with components mixed")
            out = out + (val[l[0]] if l[0] in val else unit(l[0])).scale({i: w})
        return out

    def F(ex, st, this, args, e):
        vals = [ex.ev(a, st) for a in args]
        rd = [one(vals[0]), one(vals[1])]
        ca, cb = vals[2], vals[3]
        cc, g = None, None
        for x in vals[4:-1]:
            if isinstance(x, Ptr):
                g = one(x)
            else:
                cc = x
        ro, oo = one(vals[-1])
        rds = rd + ([g] if g else [])
        for r, of in rds + [(ro, oo)]:
            ex.bound(st, r, (of,), "operator argument begins inside")
            ex.bound(st, r, (add(of, sub(N_, 1)),), "operator argument ends inside")
        for r, of in rds:
            apart = True
            if r == ro:
                apart = lor(cmp(">=", of, add(oo, N_)), cmp(">=", oo, add(of, N_)))
            s.goal(apart, "the operator does not write into a vector it reads", pc=st.pc)
        s.goal(ro != b, "b is never an output", pc=st.pc)
        vin, vs = value(ex, st, *rd[0]), value(ex, st, *rd[1])
        av = vin.A()
        if g:
            av = av + value(ex, st, *g)
        out = av.scale(pol(ca))
        if cc is None:
            out = out + vs.scale(pol(cb))
        else:
            out = out + vin.scale(pol(cb)) + vs.scale(pol(cc))
        f = T.freshfun("Aout", 1, "real")
        val[f.name()] = out
        calls[0] += 1
        if T.pynum(oo) == 0 and ex.regions[ro].size is N_:
            st.reg[ro] = Base(f, "real")
        else:
            q = T.fresh("q", "int")
            st.reg[ro] = L.mkmap(ex.content(st, ro), [q], land(q >= oo, q < add(oo, N_)), (q,), f(sub(q, oo)))
    ex.ext[("odes_OpL", "operator()")] = F
    before = s.st.clone()
    args = [P(y), P(b), dt] if aff else [P(y), dt]
    s.run(method(ast, c, "kernel2" if aff else "kernel1"), o, *args)
    s.unchanged(b, before, "b")
    got = value(ex, s.st, y, 0)
    want = expected(d, rec, fa, fb, aff)
    s.goal(got == want, "the step is the ROCK4 polynomial of degree %d of the operator" % (d + 4))
    if not got == want:
        bad = sorted(k for k in set(got.c) | set(want.c) if got.c.get(k) != want.c.get(k))
        s.goal(False, "first wrong coefficient: dt^%d A^%d %s" % bad[0])
    s.goal(cmp("==", s.getf(o, "funccal"), add(fc, calls[0])), "every operator call is counted")
    s.goal(cmp("==", s.getf(o, "nsteps"), add(ns, 1)), "the step is counted")
    return s


_I = ["common/include", "Rock4-L/include"]
DRIVERS = [dict(src="C15.cc", name="C15", incs=_I, flags=["-DALIGN_BLOCKED", "-fsanitize=address,undefined"])]
