"""C11 Rodas step control."""
import z3
from odv.rodloop import *
NOTE = """Rodascc::operator() is executed symbolically with invariants for its two loops (direction, distance to the end, the flag of the last step equivalent to reaching the end), all proved on entry and preserved; one iteration of each loop is taken from an arbitrary state of the object satisfying them (any size, solution, stored derivative, tolerances, error history, counters). Right-hand side, Jacobian and linear solves are arbitrary (events). Obligations: the error is the weighted root mean square of the sixth update with weights atol_i+rtol_i*max(|Y_i|,|Ynew_i|); accepted exactly when it is at most one; on acceptance time advances by the step and the solution is the new one, on rejection both are unchanged, the step shrinks and points the same way; the ratio rule fac=max(1/6,min(5,err^(1/4)/safe)) with the Gustafsson correction when enabled, capped by the interval and, after a rejection, by the step accepted; first step and step to the end normalised; on return the time is the end time (unless one-step mode) and the user's array holds the solution; both directions; failures raised only for steps below the limit or too many steps; nothing is touched when the end is the start. Reals; the safety factor is taken in (0,1]. The driver observes real runs (three methods, one-step mode, both directions, step limit) and recomputes every decision."""
ASSUMPTIONS = ["decomr/solvereal/Jacobian stand as their contracts (C04, C05)", "doubles treated as reals", "0 < safe <= 1"]


def run(V):
    for rhs in ("odes_RhsA1", "odes_RhsA3", "odes_RhsF", "odes_RhsB"):
        V.contract("control, %s" % rhs, control, rodas_ast(), rhs)


def weighted(q, b, K6, ynew, y):
    """sum over the components of (K6/(atol+rtol*max(|y|,|ynew|)))^2"""
    i = T.fresh("i", "int")
    t = b.clone()
    t.assume(i >= 0)
    t.assume(i < N_)
    rd = lambda r: q.s.ex.content(t, r).read((i,), q.s.ex.decider(t))
    w = add(rd(q.atol[0] if isinstance(q.atol, tuple) else q.atol), mul(rd(q.rtol[0] if isinstance(q.rtol, tuple) else q.rtol), mx(absv(y(t, i)), absv(ynew(t, i)))))
    r = T.rdiv(K6(i), w)
    return T.mksum(N_, i, mul(r, r))


def control(ast, rhs):
    q = steploop(ast, rhs)
    s, ex = q.s, q.s.ex
    fld = q.fld
    outer(q)
    b = q.inner["begin"]
    back = q.inner["back"]
    exs = [x for x in q.inner["exits"] if not x.dead]
    e0 = (exs + [back])[0]
    ev = [x for g, x in e0.events]
    if [x.kind for x in ev] != ["decomr", "solve"] + ["F", "solve"] * 5:
        raise Unsupported("step not recognised")
    K6 = ev[-1].out
    K5 = ev[-3].out
    Yr = q.reg("Y")
    y = lambda t, i: ex.content(b, Yr).read((i,), ex.decider(t))
    last = ev[-2].y                       # the embedded solution
    ynew = lambda t, i: add(last.at(i), K6(i))
    ss = weighted(q, b, K6, ynew, y)
    err = T.sqrt(T.rdiv(ss, R(N_)))
    h, x = fld("h", b), b.mem[q.xv.cid]
    f0 = T.rdiv(T.sqrt(T.sqrt(err)), q.safe)
    fac = mx(Fraction(1, 6), mn(5, f0))
    pn = fld("posneg", b)
    hm = fld("hmaxn", b)
    k = s.int("k")

    def at(st):
        t = st.clone()
        t.assume(k >= 0)
        t.assume(k < N_)
        return t
    for st in exs:
        pc = st.pc
        t = at(st)
        s.goal(cmp("<=", err, 1), "accepted only if the error is at most one", pc=pc)
        s.goal(cmp("==", st.mem[q.xv.cid], add(x, h)), "accepted: time advances by the step", pc=pc)
        s.goal(cmp("==", ex.content(st, Yr).read((k,), ex.decider(t)), ynew(t, k)), "accepted: the solution is the new one", pc=t.pc)
        s.goal(lnot(fld("reject", st)), "accepted: the next step is not a retry", pc=pc)
        g = T.rdiv(mul(T.rdiv(fld("hacc", b), h), T.sqrt(T.sqrt(T.rdiv(mul(err, err), fld("erracc", b))))), q.safe)
        fg = mx(Fraction(1, 6), mn(5, g))
        use = land(q.gus, cmp(">", add(fld("naccpt", b), 1), 1))
        hn = T.rdiv(h, ite(use, mx(fac, fg), fac))
        hn = ite(cmp(">", absv(hn), hm), mul(pn, hm), hn)
        hn2 = ite(fld("reject", b), mul(pn, mn(absv(hn), absv(h))), hn)
        s.goal(cmp("==", fld("h", st), hn2), "accepted: next step by the controller formula", pc=pc)
        s.goal(cmp("==", fld("hacc", st), ite(q.gus, h, fld("hacc", b))), "accepted: controller remembers the step", pc=pc)
        s.goal(cmp("==", fld("erracc", st), ite(q.gus, mx(Fraction(1, 100), err), fld("erracc", b))), "accepted: controller remembers the error", pc=pc)
        s.goal(cmp("==", fld("naccpt", st), add(fld("naccpt", b), 1)), "accepted: the controller's count of accepted steps", pc=pc)
        s.goal(T.eqterm(B(fld("last", st)), B(fld("last", b))), "accepted: the last step stays the last", pc=pc)
        s.goal(cmp("<=", add(fld("nstep", b), 1), q.nmax), "continues only within the step limit", pc=pc)
    if not back.dead:
        st = back
        t = at(st)
        s.goal(cmp(">", err, 1), "rejected only if the error exceeds one", pc=st.pc)
        s.goal(cmp("==", st.mem[q.xv.cid], x), "rejected: time unchanged", pc=st.pc)
        s.goal(cmp("==", ex.content(st, Yr).read((k,), ex.decider(t)), y(t, k)), "rejected: solution unchanged", pc=t.pc)
        s.goal(cmp("==", fld("h", st), T.rdiv(h, fac)), "rejected: retry step by the controller formula", pc=st.pc)
        # smaller: h/fac with fac>1
        u = st.clone()
        F_ = T.fresh("fac", "real")
        u = b.clone()
        u.assume(F_ > 1)
        s.goal(cmp("<", absv(T.rdiv(h, F_)), absv(h)), "rejected: the step shrinks (a factor above one)", pc=u.pc)
        v = b.clone()
        E = T.fresh("e4", "real")      # err^(1/4)
        v.assume(E > 1)
        v.assume(q.safe <= 1)
        s.goal(cmp(">", mx(Fraction(1, 6), mn(5, T.rdiv(E, q.safe))), 1), "rejected: the factor is above one", pc=v.pc)
        s.goal(fld("reject", st), "rejected: the rejection is remembered", pc=st.pc)
        s.goal(lnot(fld("last", st)), "rejected: the shortened step is not the last", pc=st.pc)
        for f in ("hacc", "erracc", "naccpt"):
            s.goal(cmp("==", fld(f, st), fld(f, b)), "rejected: controller history (%s) unchanged" % f, pc=st.pc)
        s.goal(cmp("<=", add(fld("nstep", b), 1), q.nmax), "continues only within the step limit", pc=st.pc)
    for f in ("posneg", "hmaxn", "xend", "safe", "fac1", "fac2", "gustafssonTest", "nmax"):
        lv = s.field(q.o, f)
        s.goal(lv.cid not in q.inner["cells"], "a step does not change %s" % f)
    return s


def outer(q):
    s, ex = q.s, q.s.ex
    fld = q.fld
    ent = q.outer["entry"]
    ob = q.outer["begin"]
    ie = q.inner["entry"]
    x = ob.mem[q.xv.cid]
    Yr = q.reg("Y")
    k = s.int("k")

    def at(st):
        t = st.clone()
        t.assume(k >= 0)
        t.assume(k < N_)
        return t
    # ---- before the first step
    pc = ent.pc
    s.goal(cmp("==", fld("h", ent), q.h0), "first step is the one given", pc=pc)
    s.goal(cmp("==", ent.mem[q.xv.cid], q.x0), "integration starts at x", pc=pc)
    t = at(ent)
    s.goal(cmp("==", ex.content(ent, Yr).read((k,), ex.decider(t)), q.yf(k)), "integration starts from the user's values", pc=t.pc)
    s.goal(cmp("==", fld("posneg", ent), ite(cmp(">=", sub(q.xe, q.x0), 0), 1, -1)), "direction of integration", pc=pc)
    s.goal(cmp("==", fld("hmaxn", ent), absv(sub(q.xe, q.x0))), "steps are limited by the interval", pc=pc)
    s.goal(land(lnot(fld("reject", ent)), lnot(fld("last", ent)), cmp("==", fld("naccpt", ent), 0), cmp("==", fld("nstep", ent), 0)), "initial state of the controller", pc=pc)
    # ---- step to attempt
    pn, hm = fld("posneg", ob), fld("hmaxn", ob)
    h0 = fld("h", ob)
    h1 = ite(cmp("<", absv(h0), 10 * UR), Fraction(1, 10**6), h0)
    h2 = mul(mn(absv(h1), hm), pn)
    lastc = cmp(">", mul(sub(add(x, mul(h2, Fraction(10001, 10000))), q.xe), pn), 0)
    pc = ie.pc
    s.goal(cmp("==", fld("h", ie), ite(lastc, sub(q.xe, x), h2)), "step attempted: limited by the interval, and to the end when it would reach it", pc=pc)
    s.goal(T.eqterm(B(fld("last", ie)), B(lastc)), "the step to the end is marked as the last", pc=pc)
    s.goal(cmp("==", ie.mem[q.xv.cid], x), "time unchanged before the step", pc=pc)
    t = at(ie)
    s.goal(cmp("==", ex.content(ie, Yr).read((k,), ex.decider(t)), ex.content(ob, Yr).read((k,), ex.decider(t))), "solution unchanged before the step", pc=t.pc)
    for f in ("hacc", "erracc", "naccpt", "reject", "posneg", "hmaxn", "nstep"):
        a, b_ = fld(f, ie), fld(f, ob)
        s.goal(T.eqterm(B(a), B(b_)) if isinstance(a, bool) or isinstance(a, z3.BoolRef) else cmp("==", a, b_), "preparing a step keeps %s" % f, pc=pc)
    # ---- failures
    ths = [t_ for t_ in ex.throws]
    for th in ths:
        small = cmp("<=", mul(Fraction(1, 10), absv(h0)), mul(absv(x), UR))
        many = cmp(">", add(fld("nstep", q.inner["begin"]), 1), q.nmax)
        s.goal(lor(small, many), "an exception is raised only for a step below the limit or too many steps", pc=th["pc"])
    s.goal(lnot(cmp("<=", mul(Fraction(1, 10), absv(h0)), mul(absv(x), UR))), "a step below the limit is not attempted", pc=pc)
    # ---- end
    outs = [z for z in q.outer["exits"] if not z.dead]
    brk = [z for z in q.outer["breaks"] if not z.dead]
    for z in outs:
        if any(z is w for w in brk):
            s.goal(q.one, "returns before the end only in one-step mode", pc=z.pc)
        else:
            s.goal(cmp("==", z.mem[q.xv.cid], q.xe), "on return the time is the end time", pc=z.pc)
    if not q.outer["back"].dead:
        s.goal(lnot(q.one), "one-step mode returns after one accepted step", pc=q.outer["back"].pc)
    fin = s.st
    t = at(fin)
    t.assume(B(cmp("!=", q.x0, q.xe)))
    s.goal(cmp("==", ex.content(fin, q.y).read((k,), ex.decider(t)), q.result(t, k)), "the user's array holds the final solution", pc=t.pc)
    t = at(fin)
    t.assume(B(cmp("==", q.x0, q.xe)))
    s.goal(cmp("==", ex.content(fin, q.y).read((k,), ex.decider(t)), q.yf(k)), "nothing to do: the user's array is unchanged", pc=t.pc)
    s.goal(cmp("==", fin.mem[q.xv.cid], q.x0), "nothing to do: time unchanged", pc=t.pc)


DRIVERS = [dict(src="C11.cc", name="C11", incs=["common/include", "Rodas-NG/include"], libs=["-llapack", "-lblas"])]
