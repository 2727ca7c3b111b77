"""C13 Rock4 degree selection, acceptance and time loop."""
import z3
from odv.rock import *
from odv.r4loop import *
NOTE = """mdegre is proved for each of the 148 possible degrees needed (smallest sufficient tabulated degree, its row, the position of its recurrence coefficients; the finite range is enumerated completely). operator() is proved by a loop invariant: one iteration from an arbitrary state (any earlier use of the object, any size, tolerances, right-hand side), the kernel standing as its contract (C12) returning an arbitrary non-negative error, rho returning any non-negative value. Obligations: the step attempted is min(h, remaining time) (stretched or shortened by at most the documented 1%), the degree is at least the one the spectral radius last reported requires or the step is cut to the largest tabulated degree, the coefficients are those of that degree, the step starts from the current solution and the stored derivative; acceptance exactly when the error is below one; on acceptance time, solution and derivative advance together, on rejection none changes and the next step is at most 0.64 times the failed one (or the documented restart value 1e-5 after ten consecutive rejections), the controller formula; the time never passes the end, on return it equals the end and the user's pointer designates the solution of the last accepted step. The error is taken positive in the controller formula (err=0 is covered by the driver)."""
ASSUMPTIONS = ["rho returns a non-negative number", "the initial step is positive and t0 <= tend", "the kernel meets its contract (proved in C12)"]


def run(V):
    a = ast4()
    ms = Tables(a).ms()
    for lo in range(1, 149, 37):
        V.contract("mdegre, needed %d..%d" % (lo, lo + 36), select, a, ms, range(lo, lo + 37))
    V.contract("time loop", control, a)


def mx(a, b):
    return ite(cmp("<", a, b), b, a)


def mn(a, b):
    return ite(cmp("<", b, a), b, a)


def absv(x):
    return ite(cmp(">=", x, 0), x, neg(x))


def predict(q, b):
    """step and degree the iteration starting in state b must attempt"""
    v = lambda n: q.var(n, b)
    rem = absv(sub(q.te, v("t")))
    return ite(cmp(">=", mul(Fraction(101, 100), v("h")), rem), rem, v("h"))


def control(ast):
    q = timeloop(ast)
    s, ex, rec = q.s, q.s.ex, q.rec
    ent, b, e = rec["entry"], rec["begin"], rec["back"]
    # ---- entry
    en = lambda n: q.var(n, ent)
    s.goal(cmp("==", en("t"), q.t0), "integration starts at t0", pc=ent.pc)
    s.goal(cmp("==", en("h"), q.h0), "first step is the one given", pc=ent.pc)
    s.goal(land(cmp("==", en("facmax"), 5), cmp("<=", en("errp"), 0), lnot(en("reject")), cmp("==", en("nrho"), 0), cmp("==", en("mdego"), 0)), "initial state of the controller", pc=ent.pc)
    ev = [x for g, x in ent.events]
    ok = len(ev) == 1 and ev[0].kind == "F"
    s.goal(ok, "one evaluation before the first step")
    if not ok:
        return s
    s.goal(ev[0].rin == q.y and ev[0].rout == q.arr["fn"], "the stored derivative is the right-hand side at the initial value")
    s.unchanged(q.y, q.before, "initial value", st=ent)
    # ---- one iteration
    v = lambda n: q.var(n, b)
    h1 = predict(q, b)
    evs = list(e.events)
    steps = [(g, x) for g, x in evs if x.kind == "step"]
    rhos = [(g, x) for g, x in evs if x.kind == "rho"]
    s.goal(len(steps) == 1 and steps[0][0] is True and not [1 for g, x in evs if x.kind == "F"], "exactly one kernel step per iteration", pc=e.pc)
    s.goal(len(rhos) <= 1, "the spectral radius is asked at most once per iteration", pc=e.pc)
    if len(steps) != 1 or len(rhos) > 1:
        return s
    K = steps[0][1]
    eig = q.var("eigmax", e)
    pc = e.pc
    if rhos:
        g, x = rhos[0]
        s.goal(cmp("==", eig, ite(g, x.v, v("eigmax"))), "the spectral radius used is the last one reported", pc=pc)
        s.goal(B(T.pynum(g)) == B(cmp("==", v("nrho"), 0)) if not isinstance(g, bool) else cmp("==", v("nrho"), 0), "the spectral radius is asked when due", pc=pc)
    else:
        s.goal(cmp("!=", v("nrho"), 0), "the spectral radius is asked when due", pc=pc)
    c353 = Fraction(353, 1000)
    need0 = T.toint(add(T.sqrt(T.rdiv(add(3, mul(h1, eig)), c353)), 1))
    cut = cmp(">", need0, 152)
    hcut = T.rdiv(mul(Fraction(8, 10), sub(mul(152 * 152, c353), 3)), eig)
    hs = ite(cut, hcut, h1)
    need = sub(ite(cut, 152, ite(cmp("<", need0, 5), 5, need0)), 4)
    s.goal(cmp("==", K.dt, hs), "step attempted: min(h, remaining), or cut to the largest degree", pc=pc)
    s.goal(cmp(">=", K.deg, need), "degree is sufficient for the spectral radius and the step", pc=pc)
    s.goal(cmp("==", K.deg, DEG(I(need))), "degree is the smallest sufficient one", pc=pc)
    s.goal(cmp("==", K.row, ROW(K.deg)), "finishing coefficients are those of the degree", pc=pc)
    s.goal(cmp("==", K.offs, OFF(K.deg)), "recurrence coefficients are those of the degree", pc=pc)
    yb = one(b.mem[q.yv.cid])[0]
    s.goal(K.y == yb, "the step starts from the current solution", pc=pc)
    k = s.int("k")
    t = e.clone()
    t.assume(k >= 0)
    t.assume(k < N_)
    rd = lambda st, r: ex.content(st, r).read((k,), ex.decider(t))
    F0 = one(q.fld("fn", b))[0]
    s.goal(cmp("==", K.ysnap.at(k), rd(b, yb)), "the solution at the beginning of the step is not altered before it", pc=t.pc)
    s.goal(cmp("==", K.fsnap.at(k), rd(b, F0)), "the derivative used is the stored one", pc=t.pc)
    acc = e.clone()
    acc.assume(B(cmp("<", K.err, 1)))
    rej = e.clone()
    rej.assume(lnot(B(cmp("<", K.err, 1))))
    w = lambda n: q.var(n, e)
    for nm, st in (("accepted", acc), ("rejected", rej)):
        tt = t.clone()
        tt.assume(B(cmp("<", K.err, 1)) if nm == "accepted" else lnot(B(cmp("<", K.err, 1))))
        yo = q.s.readp(e.mem[q.yv.cid], k, tt)
        fo = q.s.readp(q.fld("fn", e), k, tt)
        if nm == "accepted":
            s.goal(cmp("==", yo, K.new(k)), "accepted: the solution is the step's result", pc=tt.pc)
            s.goal(cmp("==", fo, K.fnew(k)), "accepted: the stored derivative is the one at the new solution", pc=tt.pc)
        else:
            s.goal(cmp("==", yo, rd(b, yb)), "rejected: solution unchanged", pc=tt.pc)
            s.goal(cmp("==", fo, rd(b, F0)), "rejected: stored derivative unchanged", pc=tt.pc)
    s.goal(cmp("==", w("t"), v("t")), "rejected: time unchanged", pc=rej.pc)
    rem = sub(q.te, v("t"))
    s.goal(cmp("==", w("t"), ite(cmp("==", hs, rem), q.te, add(v("t"), hs))), "accepted: time advances by the step, exactly to the end on the last one", pc=acc.pc)
    s.goal(cmp("<=", w("t"), q.te), "accepted: time does not pass the end", pc=acc.pc)
    # ---- controller
    for nm, st in (("accepted", acc), ("rejected", rej)):
        st = st.clone()
        st.assume(K.err > 0)
        f0 = T.sqrt(T.sqrt(T.rdiv(1, K.err)))
        fp = mul(mul(T.sqrt(T.sqrt(v("errp"))), mul(f0, f0)), T.rdiv(hs, v("hp")))
        f1 = ite(land(cmp(">", v("errp"), 0), lnot(v("reject"))), mn(f0, fp), f0)
        fm = ite(v("reject"), 1, v("facmax"))
        fac = mn(fm, mx(Fraction(1, 10), mul(Fraction(8, 10), f1)))
        hn = mul(hs, fac)
        s.hn = hn
        if nm == "rejected":
            nl = add(v("nrejloc"), ite(cmp("==", q.fld("told", b), v("t")), 1, 0))
            s.goal(cmp("==", w("h"), ite(land(cmp("==", q.fld("told", b), v("t")), cmp("==", nl, 10)), Fraction(1, 10**5), mul(Fraction(8, 10), hn))), "rejected: next step by the controller formula", pc=st.pc)
            s.goal(w("reject"), "rejected: the rejection is remembered", pc=st.pc)
            s.goal(lor(cmp("<=", w("h"), mul(Fraction(64, 100), hs)), land(cmp("==", w("h"), Fraction(1, 10**5)), cmp("==", w("nrejloc"), 10))), "rejected: the step shrinks", pc=st.pc)
        else:
            hn = ite(v("reject"), mn(hn, hs), hn)
            rem2 = absv(sub(q.te, w("t")))
            s.goal(cmp("==", w("h"), ite(cmp(">=", mul(Fraction(11, 10), hn), rem2), rem2, hn)), "accepted: next step by the controller formula", pc=st.pc)
            s.goal(land(lnot(w("reject")), cmp("==", w("errp"), K.err), cmp("==", w("hp"), hs)), "accepted: controller remembers error and step", pc=st.pc)
    s.goal(cmp("==", w("facmax"), 2), "accepted: next ratio is limited to 2", pc=acc.pc)
    s.goal(cmp("==", w("facmax"), ite(v("reject"), 1, v("facmax"))), "rejected: ratio limit kept", pc=rej.pc)
    # ---- failures and end
    # below 1e-15, or (not the last step) too small to change the time
    small = lor(cmp("<", h1, 10 * UR), land(cmp("<", h1, rem), cmp("<=", h1, mul(10 * UR, absv(v("t"))))))
    for th in q.throws:
        s.goal(small, "the exception is raised only for a step below the limit", pc=th["pc"])
    s.goal(lnot(B(small)), "a step below the limit raises the exception", pc=e.pc)
    outs = [x for x in rec["exits"] if not x.dead]
    s.goal(len(outs) == 1 and not rec["breaks"], "the loop ends only by its condition")
    for x in outs:
        s.goal(cmp("==", q.var("t", x), q.te), "on return the time is exactly the end time", pc=x.pc)
    fin = s.st
    s.goal(one(fin.mem[q.yv.cid])[0] == q.y, "the user's pointer designates the current solution (up to the exchange of buffers)")
    kk = s.int("k")
    t2 = fin.clone()
    t2.assume(kk >= 0)
    t2.assume(kk < N_)
    for x in outs:
        s.goal(cmp("==", s.readp(fin.mem[q.yv.cid], kk, t2), s.readp(x.mem[q.yv.cid], kk, t2)), "the solution is delivered as computed", pc=t2.pc)
    return s


_I = ["common/include", "Rock4-NG/include"]
DRIVERS = [dict(src="C13.cc", name="C13", incs=_I, flags=["-DALIGN_BLOCKED", "-fsanitize=address,undefined"])]
