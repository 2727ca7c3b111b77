"""C07 Radau5 stage equations."""
import z3
from odv.radloop import *
NOTE = """Radau5cc::operator() and Newton() are executed symbolically with invariants for the integration loop, the retry loop and the Newton loop (proved on entry and preserved); one iteration of each is taken from an arbitrary state (any size, solution, step size, history, Jacobian approximation). Obligations: a Newton iteration evaluates the right-hand side exactly at x+C1h, x+C2h, x+h with Y+Z1, Y+Z2, Y+Z3; the two linear systems solved have exactly the right-hand sides TI*F(Y+Z)-(Lambda/h)W; W is updated by the solutions and Z=T*W; matrices are factored for the step size and Jacobian in force (ghost state, invariant of all loops); the Jacobian is asked at the current point with the right-hand side there. Constants as computed by the constructor (evaluated with 60 digits): T*TI=I, T*Lambda*TI is the inverse of the collocation matrix of the nodes C1,C2,1, so the fixed points of the iteration are the collocation solutions. Starting values: zero before the first accepted step, otherwise the collocation polynomial of the last accepted step (divided differences proved where stored, extrapolation identity proved where used), W=TI*Z. Reals. The driver recomputes every Newton iteration of real integrations."""
ASSUMPTIONS = ["factorisations, solves and numerical Jacobian stand as their contracts (C02-C05)", "doubles treated as reals", "0 < safe <= 1, facr < 1 < facl, at least one Newton iteration allowed"]


def run(V):
    V.contract("constants", constants, radau_ast())
    for rhs in ("odes_RhsA", "odes_RhsF") + (("odes_RhsB",) if V.tier == "thorough" else ()):
        V.contract("steps, %s" % rhs, steps, radau_ast(), rhs)


def evs(st):
    return [e for g, e in st.events]


def lin(a, *tv):
    out = Fraction(0)
    for t, v in tv:
        out = add(out, mul(t, v))
    return out if a is None else add(a, out)


class View:
    """components of the vectors of the solver object in a state"""

    def __init__(self, q, st, k):
        self.q, self.st, self.k = q, st, k
        self.t = st.clone()
        self.t.assume(k >= 0)
        self.t.assume(k < N_)
        self.pc = self.t.pc
        self.dec = q.s.ex.decider(self.t)

    def __call__(self, name):
        return self.reg(vreg(self.q, name, self.st))

    def reg(self, r):
        return self.q.s.ex.content(self.st, r).read((self.k,), self.dec)


def fevents(st):
    return [e for e in evs(st) if e.kind == "F"]


def newton(q, tag="newton"):
    """the equations of one Newton iteration"""
    s, ex = q.s, q.s.ex
    r = q.newton
    b = r["begin"]
    k = s.int("k")
    vb = View(q, b, k)
    co, h, x = q.co, q.fld("h", b), b.mem[q.xv.cid]
    ends = [z for z in r["exits"] + [r["back"]] if not z.dead]
    names = ("Z1", "Z2", "Z3")
    for z in ends:
        ev = evs(z)
        F = [e for e in ev if e.kind == "F"]
        sv = [e for e in ev if e.kind in ("solve", "csolve")]
        s.goal(len(F) == 3 and len(ev) == 6 and sorted(e.kind for e in sv) == ["csolve", "solve"], "an iteration is three evaluations, one real and one complex solve", pc=z.pc)
        if len(F) != 3 or len(sv) != 2:
            continue
        want = [add(x, mul(co["C1"], h)), add(x, mul(co["C2"], h)), add(x, h)]
        A = {}
        import itertools
        y = vb.reg(q.y)
        # which evaluation serves which stage: by the stage value it is given
        for j, nm in enumerate(names):
            e = F[j]
            s.goal(cmp("==", e.t, want[j]), "stage %d is evaluated at its node" % (j + 1), pc=z.pc)
            s.goal(cmp("==", e.y.at(k), add(y, vb(nm))), "stage %d is evaluated at Y+Z%d" % (j + 1, j + 1), pc=View(q, z, k).pc)
            A[j] = e.out(k)
        h1 = T.rdiv(1, h)
        W = [vb("F1"), vb("F2"), vb("F3")]
        al, be = mul(co["ALPH"], h1), mul(co["BETA"], h1)
        ti = lambda i: lin(None, *[(co["TI%d%d" % (i, j + 1)], A[j]) for j in range(3)])
        re = [e for e in sv if e.kind == "solve"][0]
        cx = [e for e in sv if e.kind == "csolve"][0]
        pc = View(q, z, k).pc
        s.goal(cmp("==", re.rhs.at(k), sub(ti(1), mul(mul(co["U1"], h1), W[0]))), "real system: TI*F minus (U1/h)*W1", pc=pc)
        s.goal(cmp("==", cx.re.at(k), sub(ti(2), sub(mul(al, W[1]), mul(be, W[2])))), "complex system, real part: TI*F minus (alpha/h*W2-beta/h*W3)", pc=pc)
        s.goal(cmp("==", cx.im.at(k), sub(ti(3), add(mul(al, W[2]), mul(be, W[1])))), "complex system, imaginary part: TI*F minus (alpha/h*W3+beta/h*W2)", pc=pc)
        dl = [re.out(k), cx.ore(k), cx.oim(k)]
        # the update, whenever the iteration goes on or has converged
        u = z.clone()
        if z is not r["back"]:
            u.assume(q.tested(z).ok)
        vz = View(q, u, k)
        NW = [add(W[i], dl[i]) for i in range(3)]
        for i in range(3):
            s.goal(cmp("==", vz("F%d" % (i + 1)), NW[i]), "W%d is updated by the solution" % (i + 1), pc=vz.pc)
        s.goal(cmp("==", vz("Z1"), lin(None, (co["T11"], NW[0]), (co["T12"], NW[1]), (co["T13"], NW[2]))), "Z1 = T*W", pc=vz.pc)
        s.goal(cmp("==", vz("Z2"), lin(None, (co["T21"], NW[0]), (co["T22"], NW[1]), (co["T23"], NW[2]))), "Z2 = T*W", pc=vz.pc)
        s.goal(cmp("==", vz("Z3"), lin(None, (co["T31"], NW[0]), (1, NW[1]))), "Z3 = T*W", pc=vz.pc)
        s.goal(cmp("==", View(q, z, k).reg(q.y), y), "the solution is not touched by the iteration", pc=pc)
        s.goal(cmp("==", z.mem[q.xv.cid], x), "time is not touched by the iteration", pc=z.pc)


def predictor(q):
    s, ex = q.s, q.s.ex
    co = q.co
    b = q.inner["begin"]
    e = q.newton["entry"]
    k = s.int("k")
    vb, ve = View(q, b, k), View(q, e, k)
    fst = q.fld("first", b)
    c3 = T.rdiv(q.fld("h", b), q.fld("hold", b))
    S = [vb("save1"), vb("save2"), vb("save3")]

    def pv(c):
        return mul(c, add(S[0], mul(sub(c, co["C2M1"]), add(S[1], mul(sub(c, co["C1M1"]), S[2])))))
    want = [pv(mul(co["C1"], c3)), pv(mul(co["C2"], c3)), pv(c3)]
    z = [ve("Z1"), ve("Z2"), ve("Z3")]
    w = [ve("F1"), ve("F2"), ve("F3")]
    t0, t1 = ve.t.clone(), ve.t.clone()
    t0.assume(B(fst))
    t1.assume(lnot(B(fst)))
    for i in range(3):
        s.goal(land(cmp("==", z[i], 0), cmp("==", w[i], 0)), "first step: starting value %d is zero" % (i + 1), pc=t0.pc)
        s.goal(cmp("==", z[i], want[i]), "starting value %d: the previous collocation polynomial" % (i + 1), pc=t1.pc)
        s.goal(cmp("==", w[i], lin(None, *[(co["TI%d%d" % (i + 1, j + 1)], z[j]) for j in range(3)])), "starting value %d in transformed variables" % (i + 1), pc=t1.pc)
    s.goal(cmp("==", ve.reg(q.y), vb.reg(q.y)), "the solution is not touched before iterating", pc=ve.pc)
    s.goal(cmp("==", e.mem[q.xv.cid], b.mem[q.xv.cid]), "time is not touched before iterating", pc=ve.pc)
    s.goal(cmp("==", q.fld("h", e), q.fld("h", b)), "the step is not changed before iterating", pc=ve.pc)


def stored(q):
    """after an accepted step: divided differences of the stages; hold is the step"""
    s, ex, co = q.s, q.s.ex, q.co
    o = q.outer
    k = s.int("k")
    a = q.after()
    va = View(q, a, k)
    Z = [va("Z1"), va("Z2"), va("Z3")]
    iv = lambda v: T.rdiv(1, v)
    d12 = mul(sub(Z[0], Z[1]), iv(co["C1MC2"]))
    s1 = mul(sub(Z[1], Z[2]), iv(co["C2M1"]))
    s2 = mul(sub(d12, s1), iv(co["C1M1"]))
    d01 = mul(sub(d12, mul(Z[0], iv(co["C1"]))), iv(co["C2"]))
    s3 = sub(s2, d01)
    z = q.outer["back"]
    if z.dead:
        raise Unsupported("integration loop")
    t = z.clone()
    acc = q.accepted(z)
    t.assume(B(acc))
    vz = View(q, t, k)
    s.goal(cmp("==", vz("save1"), s1), "stored: first divided difference", pc=vz.pc)
    s.goal(cmp("==", vz("save2"), s2), "stored: second divided difference", pc=vz.pc)
    s.goal(cmp("==", vz("save3"), s3), "stored: third divided difference", pc=vz.pc)
    s.goal(cmp("==", q.fld("hold", t), q.fld("h", a)), "stored: length of the accepted step", pc=vz.pc)
    r = z.clone()
    r.assume(lnot(B(acc)))
    vr = View(q, r, k)
    vb = View(q, a, k)
    for nm in ("save1", "save2", "save3"):
        s.goal(cmp("==", vr(nm), vb(nm)), "rejected: %s is kept" % nm, pc=vr.pc)
    s.goal(cmp("==", q.fld("hold", r), q.fld("hold", a)), "rejected: length of the last accepted step is kept", pc=vr.pc)
    # retries do not touch them either
    bk = q.inner["back"]
    if not bk.dead:
        v0, v1 = View(q, q.inner["begin"], k), View(q, bk, k)
        for nm in ("save1", "save2", "save3"):
            s.goal(cmp("==", v1(nm), v0(nm)), "retried: %s is kept" % nm, pc=v1.pc)
    # the extrapolation identity: p(s) interpolates 0,Z1,Z2,Z3 at 0,C1,C2,1
    C1, C2, w = z3.Reals("c1 c2 w")
    Zs = z3.Reals("z1 z2 z3")
    # Newton form of p from the nodes 1,C2,C1,0 as used: p(1+w)-p(1)
    d12_ = (Zs[0] - Zs[1]) / (C1 - C2)
    a1 = (Zs[1] - Zs[2]) / (C2 - 1)
    a2 = (d12_ - a1) / (C1 - 1)
    a3 = a2 - (d12_ - Zs[0] / C1) / C2
    pr = lambda w: w * (a1 + (w - (C2 - 1)) * (a2 + (w - (C1 - 1)) * a3))
    ass = [C1 > 0, C2 > C1, C2 < 1]
    for nm, wv, val in (("0", -1, -Zs[2]), ("C1", C1 - 1, Zs[0] - Zs[2]), ("C2", C2 - 1, Zs[1] - Zs[2]), ("1", 0, 0)):
        s.goal(pr(wv) == val, "the cubic through the stored differences passes through the stage at %s" % nm, pc=tuple(ass))


def bases(q):
    """y0 is the derivative at (x,Y); the Jacobian is asked there; factorisations use it"""
    s, ex = q.s, q.s.ex
    k = s.int("k")
    y0 = q.loc["y0"] if "y0" in q.loc else None
    if y0 is None:
        raise Missing("local vector y0")
    ent = q.outer["entry"]
    # before the first step
    ev = [e for e in evs(ent) if e.kind in ("F", "J", "NJ")]
    s.goal([e.kind for e in ev] == ["F", "NJ" if q.num else "J"], "integration starts with one evaluation and one Jacobian", pc=ent.pc)
    v = View(q, ent, k)
    y = v.reg(q.y)
    if [e.kind for e in ev] == ["F", "NJ" if q.num else "J"]:
        at(q, ev[0], ent, v, v.reg(q.y), "first evaluation")
        at(q, ev[1], ent, v, v.reg(q.y), "first Jacobian")
        s.goal(cmp("==", v.reg(y0), ev[0].out(k)), "the derivative kept is that evaluation", pc=v.pc)
        s.goal(cmp("==", ev[1].fy.at(k), ev[0].out(k)), "first Jacobian is given the derivative there", pc=v.pc)
    s.goal(q.fld("caljac", ent), "the Jacobian is marked as current", pc=ent.pc)
    # retries
    for st, b, nm in ((q.inner["back"], q.inner["begin"], "retry"),):
        if st.dead:
            continue
        vb, vs = View(q, b, k), View(q, st, k)
        s.goal(cmp("==", vs.reg(q.y), vb.reg(q.y)), "%s: solution unchanged" % nm, pc=vs.pc)
        s.goal(cmp("==", st.mem[q.xv.cid], b.mem[q.xv.cid]), "%s: time unchanged" % nm, pc=vs.pc)
        s.goal(cmp("==", vs.reg(y0), vb.reg(y0)), "%s: derivative unchanged" % nm, pc=vs.pc)
        for g, e in st.events:
            if e.kind in ("J", "NJ"):
                t = st.clone()
                t.assume(B(g))
                vt = View(q, t, k)
                at(q, e, st, vt, vb.reg(q.y), "%s: Jacobian" % nm)
                s.goal(cmp("==", e.fy.at(k), vb.reg(y0)), "%s: Jacobian is given the derivative at the point" % nm, pc=vt.pc)
        s.goal(q.fld("caljac", st), "%s: uses a Jacobian of the current point" % nm, pc=st.pc)
    # accepted / rejected
    a = q.after()
    va = View(q, a, k)
    z = q.outer["back"]
    acc = q.accepted(z)
    t = z.clone()
    t.assume(B(acc))
    vt = View(q, t, k)
    n0 = len(a.events)
    tail = list(z.events)
    F = [(g, e) for g, e in tail if e.kind == "F" and e.out is not None]
    got = vt.reg(y0)
    hit = [e for g, e in F if apps(got, (e.out.name(),))] if isinstance(got, z3.ExprRef) else []
    if len(hit) != 1:
        raise Unsupported("derivative at the new point not recognised")
    e = hit[0]
    at(q, e, t, vt, vt.reg(q.y), "accepted: derivative", pre=True)
    s.goal(cmp("==", got, e.out(k)), "accepted: the derivative kept is the one at the new point", pc=vt.pc)
    for g, j in tail:
        if j.kind in ("J", "NJ"):
            for cond, nm, yy, ff in ((acc, "accepted", vt.reg(q.y), e.out(k)), (lnot(B(acc)), "rejected", va.reg(q.y), va.reg(y0))):
                w = z.clone()
                w.assume(B(g))
                w.assume(B(cond))
                if w.dead:
                    continue
                vw = View(q, w, k)
                s.goal(cmp("==", j.t, w.mem[q.xv.cid]), "%s: Jacobian at the current time" % nm, pc=vw.pc)
                s.goal(cmp("==", j.y.at(k), vw.reg(q.y)), "%s: Jacobian at the current solution" % nm, pc=vw.pc)
                s.goal(cmp("==", j.fy.at(k), ff), "%s: Jacobian is given the derivative at the point" % nm, pc=vw.pc)
    r = z.clone()
    r.assume(lnot(B(acc)))
    vr = View(q, r, k)
    s.goal(cmp("==", vr.reg(y0), va.reg(y0)), "rejected: derivative unchanged", pc=vr.pc)


def at(q, e, st, v, y, nm, pre=False):
    q.s.goal(cmp("==", e.t, st.mem[q.xv.cid]), nm + ": at the current time", pc=v.pc)
    q.s.goal(cmp("==", e.y.at(v.k), y), nm + ": at the current solution", pc=v.pc)


def steps(ast, rhs):
    q = steploop(ast, rhs, inv=True)
    newton(q)
    predictor(q)
    stored(q)
    bases(q)
    return q.s


def constants(ast):
    q = constructed(ast)
    s = q.s
    import mpmath
    v = {k: number(s.getf(q.o, k)) for k in CO}
    T_ = [[v["T11"], v["T12"], v["T13"]], [v["T21"], v["T22"], v["T23"]], [v["T31"], 1, 0]]
    TI = [[v["TI%d%d" % (i, j)] for j in (1, 2, 3)] for i in (1, 2, 3)]
    Lm = [[v["U1"], 0, 0], [0, v["ALPH"], -v["BETA"]], [0, v["BETA"], v["ALPH"]]]
    mul3 = lambda a, b: [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    dist = lambda a, b: max(abs(a[i][j] - b[i][j]) for i in range(3) for j in range(3))
    I3 = [[mpmath.mpf(i == j) for j in range(3)] for i in range(3)]
    tol = mpmath.mpf(10) ** -13

    def ok(nm, c):
        s.goal(bool(c), nm)
    s6 = mpmath.sqrt(6)
    c1, c2 = (4 - s6) / 10, (4 + s6) / 10
    ok("C1 and C2 are the Radau nodes", max(abs(v["C1"] - c1), abs(v["C2"] - c2)) < tol)
    ok("differences of the nodes", max(abs(v["C1M1"] - (c1 - 1)), abs(v["C2M1"] - (c2 - 1)), abs(v["C1MC2"] - (c1 - c2))) < tol)
    ok("T*TI is the identity", dist(mul3(T_, TI), I3) < tol)
    # collocation matrix of the nodes: a_ij = integral over [0,c_i] of the j-th Lagrange polynomial
    c = [c1, c2, mpmath.mpf(1)]
    Vd = [[c[j] ** k for k in range(3)] for j in range(3)]
    rhs = [[c[i] ** (k + 1) / (k + 1) for k in range(3)] for i in range(3)]
    A = [[None] * 3 for _ in range(3)]
    for i in range(3):
        sol = mpmath.lu_solve(mpmath.matrix(Vd).T, mpmath.matrix(rhs[i]))
        for j in range(3):
            A[i][j] = sol[j]
    ok("T*Lambda*TI is the inverse of the collocation matrix", dist(mul3(mul3(mul3(T_, Lm), TI), A), I3) < 40 * tol)
    return s


INC = ["common/include", "Radau5-NG/include"]
DRIVERS = [dict(src="C07.cc", name="C07", incs=INC, libs=["-llapack", "-lblas"])]
