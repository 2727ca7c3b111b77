"""C10 Rodas stage formulas."""
import z3
from odv.rodloop import *
NOTE = """Rodascc::operator() is executed symbolically with loop contracts: one iteration of the inner loop (one attempted step) from an arbitrary state of the object (any size n, any step size and time, any solution, any stored derivative, Jacobian and time derivative, arbitrary coefficient values; that rocoe() sets the values of each set is C29), and one iteration of the outer loop (preparation of a step). Right-hand side, Jacobian and time derivative are arbitrary functions (events), decomr and solvereal stand as their contracts (C04), the numerical Jacobian as its contract (C05). Obligations: the matrix factored is I/(h*gamma)-J with J the Jacobian at (x, Y); the right-hand side of every one of the six linear systems is F(stage)+h*D_i*dF/dt+sum C_ij/h K_j componentwise; every stage value and its time; the new solution is the embedded one plus the sixth update, and the acceptance decision is taken on the sixth update (C11 for the formula); time derivative by forward difference (or the user's) when non-autonomous, absent when autonomous. Configurations: numerical and analytic Jacobian, full and banded, autonomous or not, user time derivative. Machine reals are treated as real numbers; the replay driver compares every stage of real integrations (three methods, autonomous or not, full and banded and Hessenberg) with an independent implementation in doubles."""
ASSUMPTIONS = ["decomr/solvereal/Jacobian stand as their contracts (C04, C05)", "doubles treated as reals"]


def run(V):
    for rhs in ("odes_RhsA1", "odes_RhsA2", "odes_RhsA3", "odes_RhsF", "odes_RhsB"):
        V.contract("step, %s" % rhs, step, rodas_ast(), rhs)


def _vec(s, region, st, t, k):
    return s.ex.content(st, region).read((k,), s.ex.decider(t))


def step(ast, rhs):
    q = steploop(ast, rhs)
    prepare(q)
    stages(q)
    s = q.s
    return s


def prepare(q):
    """the outer iteration up to the first attempted step"""
    s, ex = q.s, q.s.ex
    ent = q.inner_entry()
    ev = [x for g, x in ent.events]
    guards = [g for g, x in ent.events]
    kinds = ["F", "NJ" if q.num else "J"] + ([] if q.aut else ["DFt"] if q.usedft else ["F"])
    ok = [x.kind for x in ev] == kinds and all(g is True for g in guards)
    s.goal(ok, "before a step: the right-hand side, the Jacobian%s" % ("" if q.aut else ", the time derivative"), pc=ent.pc)
    if not ok:
        return
    x = ent.mem[q.xv.cid]
    k = s.int("k")
    t = ent.clone()
    t.assume(k >= 0)
    t.assume(k < N_)
    Y = lambda k: _vec(s, q.reg("Y"), ent, t, k)
    pc = t.pc
    s.goal(cmp("==", ev[0].t, x), "right-hand side at the current time", pc=pc)
    s.goal(cmp("==", ev[0].y.at(k), Y(k)), "right-hand side at the current solution", pc=pc)
    s.goal(cmp("==", _vec(s, q.vreg("DY1"), ent, t, k), ev[0].out(k)), "stored derivative is that value", pc=pc)
    s.goal(cmp("==", ev[1].t, x), "Jacobian at the current time", pc=pc)
    s.goal(cmp("==", ev[1].y.at(k), Y(k)), "Jacobian at the current solution", pc=pc)
    s.goal(cmp("==", ev[1].fy.at(k), ev[0].out(k)), "Jacobian is given the right-hand side at that point", pc=pc)
    if not q.aut:
        if q.usedft:
            s.goal(cmp("==", ev[2].t, x), "time derivative at the current time", pc=pc)
            s.goal(cmp("==", ev[2].y.at(k), Y(k)), "time derivative at the current solution", pc=pc)
            s.goal(cmp("==", _vec(s, q.vreg("FX"), ent, t, k), ev[2].out(k)), "time derivative is the user's", pc=pc)
        else:
            d = sub(ev[2].t, x)
            dd = T.sqrt(mul(UR, mx(Fraction(1, 10**5), absv(x))))
            s.goal(cmp("==", d, dd), "time increment of the difference", pc=pc)
            s.goal(cmp("==", ev[2].y.at(k), Y(k)), "time derivative at the current solution", pc=pc)
            s.goal(cmp("==", mul(_vec(s, q.vreg("FX"), ent, t, k), d), sub(ev[2].out(k), ev[0].out(k))), "time derivative is the divided difference", pc=pc)
    # frame: what the inner loop does not modify
    need = ["DY1"] + ([] if q.aut else ["FX"])
    s.goal(not (set(q.inner["regs"]) & ({q.vreg(v) for v in need} | {q.jrid})), "derivatives and Jacobian are kept through rejected steps")


def stages(q):
    s, ex, co = q.s, q.s.ex, q.co
    b = q.inner["begin"]
    exs = [x for x in q.inner["exits"] if not x.dead]
    back = q.inner["back"]
    s.goal(len(exs) >= 1, "an attempted step can be accepted")
    ends = exs + ([back] if not back.dead else [])
    kinds = ["decomr", "solve"] + ["F", "solve"] * 5
    for e in ends:
        ev = [x for g, x in e.events]
        ok = [x.kind for x in ev] == kinds and all(g is True for g, x in e.events)
        s.goal(ok, "order of operations in a step", pc=e.pc)
        if not ok:
            return
    e = ends[0]
    ev = [x for g, x in e.events]
    D = ev[0]
    S = ev[1::2]
    F = ev[2::2]
    K = [x.out for x in S]
    h, x = q.fld("h", b), b.mem[q.xv.cid]
    k = s.int("k")
    t = b.clone()
    t.assume(k >= 0)
    t.assume(k < N_)
    t.assume(B(cmp("!=", h, 0)))
    pc = t.pc
    Y = _vec(s, q.reg("Y"), b, t, k)
    DY1 = _vec(s, q.vreg("DY1"), b, t, k)
    FX = _vec(s, q.vreg("FX"), b, t, k)
    s.goal(cmp("==", mul(mul(D.fac, h), co["GAMMA"]), 1), "diagonal shift is 1/(h*gamma)", pc=pc)
    s.goal(D.own and D.mat is ex.content(b, q.jrid), "matrix factored is built from the stored Jacobian", pc=pc)
    A = lambda i: [co["A%d%d" % (i, j)] for j in range(1, i)]
    C = lambda i: [co["C%d%d" % (i, j)] for j in range(1, i)]
    comb = lambda cs: _sum([mul(c, K[j](k)) for j, c in enumerate(cs)])
    stage = [None, None, add(Y, comb([co["A21"]])), add(Y, comb(A(3))), add(Y, comb(A(4))), add(Y, comb(A(5)))]
    stage.append(add(stage[5], K[4](k)))
    times = [None, None, add(x, mul(co["C2"], h)), add(x, mul(co["C3"], h)), add(x, mul(co["C4"], h)), add(x, h), add(x, h)]
    for i in range(2, 7):
        s.goal(cmp("==", F[i - 2].t, times[i]), "stage %d: time" % i, pc=pc)
        s.goal(cmp("==", F[i - 2].y.at(k), stage[i]), "stage %d: argument" % i, pc=pc)
    for i in range(1, 7):
        r = DY1 if i == 1 else F[i - 2].out(k)
        if not q.aut and i <= 4:
            r = add(r, mul(mul(h, co["D%d" % i]), FX))
        if i > 1:
            r = add(r, T.rdiv(comb(C(i)), h))
        s.goal(cmp("==", S[i - 1].rhs.at(k), r), "stage %d: right-hand side of the linear system" % i, pc=pc)
    ynew = add(stage[6], K[5](k))
    for st in exs:
        t2 = st.clone()
        t2.assume(k >= 0)
        t2.assume(k < N_)
        s.goal(cmp("==", _vec(s, q.reg("Y"), st, t2, k), ynew), "new solution is the embedded one plus the last update", pc=t2.pc)
        # resources of the next step
    if not back.dead:
        t2 = back.clone()
        t2.assume(k >= 0)
        t2.assume(k < N_)
        s.goal(cmp("==", _vec(s, q.reg("Y"), back, t2, k), Y), "rejected step: solution unchanged", pc=t2.pc)
        s.goal(cmp("==", back.mem[q.xv.cid], x), "rejected step: time unchanged", pc=back.pc)


def _sum(xs):
    r = xs[0]
    for z in xs[1:]:
        r = add(r, z)
    return r


DRIVERS = [dict(src="C10.cc", name="C10", incs=["common/include", "Rodas-NG/include"], libs=["-llapack", "-lblas"])]
