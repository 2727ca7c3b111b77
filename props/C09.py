"""C09 Radau5 reaches the end time exactly."""
import z3
from odv.radloop import *
NOTE = """Radau5cc::operator() is executed symbolically; invariants of its loops, proved on entry and preserved by an arbitrary iteration: the step points to the end and does not pass it, the flag of the last step is set exactly when the step reaches the end, time stays between start and end, steps are limited by the interval. Obligations: every evaluation of the right-hand side (Newton stages, error estimate, Jacobian, accepted point) is at a time between start and end; the integration returns only after an accepted step, in one-step mode after the first one, otherwise only after the step that reaches the end (or closer than rounding); time is then the end and the user's array holds the accepted solution; a Newton failure or rejection of the last step clears the flag (so the end is not taken for reached); nothing is done when start and end coincide. Both directions (the sign is a symbol). Reals. The driver checks every evaluation time and the returned state of real integrations in both directions."""
ASSUMPTIONS = ["factorisations, solves and numerical Jacobian stand as their contracts (C02-C05)", "doubles treated as reals", "0 < safe < 1, 0 < facr < 1 < facl, at least one Newton iteration allowed"]


def run(V):
    V.contract("nodes", nodes, radau_ast())
    V.contract("end, odes_RhsA", end, radau_ast(), "odes_RhsA")
    if V.tier == "thorough":
        V.contract("end, odes_RhsF", end, radau_ast(), "odes_RhsF")


def nodes(ast):
    q = constructed(ast)
    c1, c2 = number(q.s.getf(q.o, "C1")), number(q.s.getf(q.o, "C2"))
    q.s.goal(bool(0 < c1 < 1), "first node inside the step")
    q.s.goal(bool(0 < c2 < 1), "second node inside the step")
    q.s.goal(lnot(B(q.s.getf(q.o, "onlyOneStep"))), "one-step mode is off by default")
    return q.s


def end(ast, rhs):
    q = steploop(ast, rhs, inv=True)
    s, ex, fld = q.s, q.s.ex, q.fld
    co = q.co
    k = s.int("k")

    def at(st, *more):
        t = st.clone()
        t.assume(k >= 0)
        t.assume(k < N_)
        for m in more:
            t.assume(B(m))
        return t
    rd = lambda st, r, t: ex.content(st, r).read((k,), ex.decider(t))
    # ---- evaluations inside a step
    nb = q.newton["begin"]
    pn, h, x = fld("posneg", nb), fld("h", nb), nb.mem[q.xv.cid]
    for z in [z for z in q.newton["exits"] + [q.newton["back"]] if not z.dead]:
        F = [e for g, e in z.events if e.kind == "F"]
        s.goal(len(F) == 3, "three evaluations in a Newton iteration", pc=z.pc)
        for i, (e, c) in enumerate(zip(F, (co["C1"], co["C2"], 1))):
            s.goal(cmp("==", e.t, add(x, mul(c, h))), "evaluation %d at its node" % (i + 1), pc=z.pc)
    s.goal(cmp("==", fld("h", nb), fld("h", q.newton["entry"])), "the step stays the same while iterating", pc=nb.pc)
    b = q.inner["begin"]
    u = b.clone()
    th = T.fresh("c", "real")
    u.assume(th > 0)
    u.assume(th <= 1)
    pn, h, x = fld("posneg", b), fld("h", b), b.mem[q.xv.cid]
    tt = add(x, mul(th, h))
    # pn*c*h <= pn*h and pn*c*h >= 0
    ph = T.fresh("ph", "real")
    w = s.st.clone()
    w.assume(th > 0)
    w.assume(th <= 1)
    w.assume(ph > 0)
    s.goal(land(cmp("<=", mul(th, ph), ph), cmp(">=", mul(th, ph), 0)), "a node inside the step is between its ends", pc=(th > 0, th <= 1, ph > 0))
    s.goal(cmp("<=", mul(pn, h), mul(pn, sub(q.xe, x))), "the step does not pass the end", pc=b.pc)
    s.goal(cmp(">", mul(pn, h), 0), "the step points to the end", pc=b.pc)
    s.goal(cmp(">=", mul(pn, sub(x, q.x0)), 0), "never before the start", pc=b.pc)
    # ---- other evaluations of an iteration
    a, z = q.after(), q.outer["back"]
    exs = [e for e in q.outer["exits"] if not e.dead]
    if z.dead or not exs:
        raise Unsupported("integration loop")
    acc = q.accepted(z)
    for st in [z] + exs:
        for g, e in st.events:
            if e.kind in ("F", "J", "NJ"):
                t = st.clone()
                t.assume(B(g))
                if not t.dead:
                    s.goal(lor(cmp("==", e.t, a.mem[q.xv.cid]), cmp("==", e.t, add(a.mem[q.xv.cid], fld("h", a)))), "evaluated at the begin or the end of the step (%s)" % e.kind, pc=t.pc)
            elif e.kind == "estrad":
                s.goal(cmp("==", e.t, a.mem[q.xv.cid]), "the error estimate is evaluated at the begin of the step", pc=st.pc)
    bk = q.inner["back"]
    if not bk.dead:
        for g, e in bk.events:
            if e.kind in ("F", "J", "NJ"):
                t = bk.clone()
                t.assume(B(g))
                s.goal(cmp("==", e.t, b.mem[q.xv.cid]), "retry: evaluated at the begin of the step (%s)" % e.kind, pc=t.pc)
        s.goal(lnot(B(fld("last", bk))), "a step retried after a Newton failure is not the last", pc=bk.pc)
    # ---- returning
    h, x = fld("h", a), a.mem[q.xv.cid]
    xn = add(x, h)
    close = cmp("<=", mul(Fraction(1, 10), absv(sub(q.xe, xn))), mul(absv(xn), UR))
    for e in exs:
        one, full = at(e, q.one), at(e, lnot(B(q.one)))
        s.goal(cmp("==", e.mem[q.xv.cid], xn), "returns with the time of the accepted step", pc=e.pc)
        s.goal(cmp("==", fld("naccpt", e), add(fld("naccpt", a), 1)), "returns after an accepted step", pc=e.pc)
        s.goal(lor(fld("last", a), close), "returns only at the end", pc=full.pc)
        l = at(e, lnot(B(q.one)), fld("last", a))
        s.goal(cmp("==", e.mem[q.xv.cid], q.xe), "returns exactly at the end after the last step", pc=l.pc)
        t = at(e)
        s.goal(cmp("==", rd(e, q.y, t), add(rd(a, q.y, t), rd(a, vreg(q, "Z3", a), t))), "the user's array holds the solution at that time", pc=t.pc)
    t = at(z, acc)
    s.goal(lnot(B(q.one)), "one-step mode returns after one accepted step", pc=t.pc)
    s.goal(lnot(B(lor(fld("last", a), close))), "goes on only before the end", pc=t.pc)
    s.goal(cmp("==", z.mem[q.xv.cid], xn), "time advances by the step", pc=t.pc)
    s.goal(cmp("==", rd(z, q.y, t), add(rd(a, q.y, t), rd(a, vreg(q, "Z3", a), t))), "solution advances with time", pc=t.pc)
    t = at(z, lnot(B(acc)))
    s.goal(lnot(B(fld("last", z))), "a step retried after a rejection is not the last", pc=t.pc)
    s.goal(cmp("==", z.mem[q.xv.cid], x), "rejected: time unchanged", pc=t.pc)
    s.goal(cmp("==", rd(z, q.y, t), rd(a, q.y, t)), "rejected: solution unchanged", pc=t.pc)
    # ---- the first step
    ent = q.outer["entry"]
    ax, H0 = absv(sub(q.xe, q.x0)), q.h0
    h1 = ite(cmp("<", absv(H0), 10 * UR), Fraction(1, 10**6), absv(H0))
    h2 = mul(mn(h1, ax), ite(cmp(">=", sub(q.xe, q.x0), 0), 1, -1))
    sg = ite(cmp(">=", sub(q.xe, q.x0), 0), 1, -1)
    lastc = cmp(">", mul(sub(add(q.x0, mul(h2, Fraction(10001, 10000))), q.xe), sg), 0)
    s.goal(cmp("==", fld("h", ent), ite(lastc, sub(q.xe, q.x0), h2)), "first step: the one given, towards the end, limited by the interval", pc=ent.pc)
    s.goal(T.eqterm(B(fld("last", ent)), B(lastc)), "first step: the last when it reaches the end", pc=ent.pc)
    t = at(ent)
    s.goal(cmp("==", rd(ent, q.y, t), q.yf(k)), "integration starts from the user's values", pc=t.pc)
    s.goal(cmp("==", ent.mem[q.xv.cid], q.x0), "integration starts at x", pc=ent.pc)
    # ---- nothing to do
    fin = s.st
    t = at(fin, cmp("==", q.x0, q.xe))
    s.goal(cmp("==", rd(fin, q.y, t), q.yf(k)), "nothing to do: the user's array is unchanged", pc=t.pc)
    s.goal(cmp("==", fin.mem[q.xv.cid], q.x0), "nothing to do: time unchanged", pc=t.pc)
    return s


INC = ["common/include", "Radau5-NG/include"]
DRIVERS = [dict(src="C07.cc", name="C09", flags=["-DWHAT=4"], incs=INC, libs=["-llapack", "-lblas"])]
