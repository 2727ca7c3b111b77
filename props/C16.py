"""C16 Rock4L time loop, guards."""
import z3
from odv.rlin import *
from odv.r4loop import DEG, ROW, OFF, UR, cellsof, Loop
from odv.user import snap
from odv import loops as L
NOTE = """Rock4L::mdegre is proved for each of the 148 possible degrees needed. Both operator() overloads are proved by a loop invariant: one iteration from an arbitrary state with the kernel as its contract (C15) and rho as an arbitrary non-negative value. Obligations: the step is the given size, or exactly the remaining time when that is at most 1% larger than the given size; degree sufficient for rho and the step, smallest tabulated, coefficients of that degree; the exception exactly when more than 152 stages would be needed or the step is below the limit, before anything is computed in that iteration (the solution is that of the last completed step); the time advances by the step and ends exactly at the end time; Time() reports it; NbStages is the largest stage count used. The overload that does not match the construction mode raises the exception before touching anything."""
ASSUMPTIONS = ["rho returns a non-negative number", "the given step is positive and t0 <= tend", "the kernels meet their contract (proved in C15)"]


def run(V):
    a = astL()
    ms = Tables(a).ms()
    for lo in range(1, 149, 37):
        V.contract("mdegre, needed %d..%d" % (lo, lo + 36), select, a, ms, range(lo, lo + 37))
    for aff in (False, True):
        V.contract("time loop, %s" % ("affine" if aff else "linear"), control, a, aff)
        V.contract("wrong overload on an %s object" % ("affine" if aff else "linear"), wrong, a, aff)


def select(ast, ms, which):
    ss = []
    for need in which:
        s, c, o = buildL(ast, False)
        v = s.ex.new_var(s.st, "int", "mdeg")
        s.st.mem[v.cid] = need
        s.run(method(ast, c, "mdegre", nparams=1), o, v)
        i = next(k for k, d in enumerate(ms) if d >= need)
        s.goal(cmp("==", s.st.mem[v.cid], ms[i]), "needed %d: smallest sufficient degree" % need)
        mp = s.field(o, "mp")
        rd = lambda k: s.ex.content(s.st, mp.rid).read((k,), s.ex.decider(s.st))
        s.goal(cmp("==", rd(1), i + 1), "needed %d: row of that degree" % need)
        s.goal(cmp("==", rd(2), 1 + sum(2 * d - 1 for d in ms[:i])), "needed %d: recurrence coefficients of that degree" % need)
        ss.append(s)
    return ss


def prep(ast, aff):
    q = Loop()
    s, c, o = buildL(ast, aff)
    q.s, q.c, q.o = s, c, o
    ex = s.ex
    q.y, q.yf = s.array("y", N_)
    q.b, q.bf = s.array("b", N_)
    for f in ("told", "t", "atol", "rtol"):
        s.setf(o, f, s.real("old_" + f))
    for f in ("mdeg", "funccal", "nrej", "nsteps", "nacc", "nstagesmax"):
        s.setf(o, f, s.int("old_" + f))
    mp = s.field(o, "mp")
    s.st.reg[mp.rid] = Base(T.freshfun("old_mp", 1, "int"), "int")
    q.mp = lambda k, st: ex.content(st, mp.rid).read((k,), ex.decider(st))
    q.t0, q.te, q.h0 = s.real("t0"), s.real("tend"), s.real("h_in")
    q.rho = s.real("rho")

    def rho(ex, st, this, args, e):
        st.assume(q.rho >= 0)
        st.events = st.events + ((True, Event("rho", v=q.rho)),)
        return q.rho

    def opr(ex, st, this, args, e):
        st.events = st.events + ((True, Event("A")),)
        raise Unsupported("operator called outside the kernels")

    def sel(ex, st, this, args, e):
        lv = ex.lv(args[0], st)
        d = ex.load(st, lv)
        ex.oblige(st, land(cmp(">=", d, 1), cmp("<=", d, 148)), "degree asked for is within the table", "pre")
        st.assume(DEG(I(d)) >= I(d))
        st.assume(DEG(I(d)) <= 148)
        st.assume(DEG(DEG(I(d))) == DEG(I(d)))
        ex.assign(st, lv, DEG(I(d)))
        st.reg[mp.rid] = Base(T.freshfun("mp", 1, "int"), "int")
        st.assume(B(cmp("==", q.mp(1, st), ROW(DEG(I(d))))))
        st.assume(B(cmp("==", q.mp(2, st), OFF(DEG(I(d))))))

    def kern(ex, st, this, args, e):
        v = [ex.ev(a, st) for a in args]
        yr, yo = one(v[0])
        bb = one(v[1]) if len(v) == 3 else None
        new = T.freshfun("ynew", 1, "real")
        d = ex.load(st, s.field(o, "mdeg"))
        st.events = st.events + ((True, Event("step", dt=R(v[-1]), y=yr, off=yo, b=bb, ysnap=snap(ex, st, yr, yo, N_), deg=I(d), row=I(q.mp(1, st)), offs=I(q.mp(2, st)), new=new, affine=len(v) == 3)),)
        st.reg[yr] = Base(new, "real")
        ex.assign(st, s.field(o, "funccal"), add(ex.load(st, s.field(o, "funccal")), add(d, 4)))
        ex.assign(st, s.field(o, "nsteps"), add(ex.load(st, s.field(o, "nsteps")), 1))
    ex.ext[("odes_OpL", "operator()")] = opr
    ex.ext[("odes_OpL", "rho")] = rho
    ex.contracts[("Rock4L", "mdegre")] = sel
    ex.contracts[("Rock4L", "kernel1")] = kern
    ex.contracts[("Rock4L", "kernel2")] = kern
    return q


def loop(ast, aff):
    q = prep(ast, aff)
    s, o, ex = q.s, q.o, q.s.ex

    class SP(L.SeqSpec):
        def inv(self, ex, st, entry):
            q.cid = cellsof(ex, st)
            v = lambda n: q.var(n, st)
            t = q.fld("t", st)
            return [("time does not pass the end", cmp("<=", t, q.te)),
                    ("step is the given one or the remaining time", lor(cmp("==", v("h"), q.h0), land(cmp("==", v("h"), sub(q.te, t)), cmp("<", v("h"), q.h0)))),
                    ("degree last selected", lor(cmp("==", v("mdego"), 0), land(cmp("==", v("mdego"), q.fld("mdeg", st)), cmp("==", DEG(I(v("mdego"))), v("mdego")),
                                                                               cmp("==", q.mp(1, st), ROW(I(v("mdego")))), cmp("==", q.mp(2, st), OFF(I(v("mdego"))))))),
                    ("largest stage count", land(cmp(">=", q.fld("nstagesmax", st), 0), lor(cmp("==", v("mdego"), 0), cmp(">=", q.fld("nstagesmax", st), add(v("mdego"), 4))))),
                    ("step counter", cmp(">=", q.fld("nsteps", st), 0))]
    spec = SP()
    ex.seqspec = lambda node, st: spec if len(ex.frames) == 1 and "tend" in cellsof(ex, st) else None
    s.st.assume(q.t0 <= q.te)
    s.st.assume(q.h0 > 0)
    q.before = s.st.clone()
    args = [P(q.y), P(q.b), q.t0, q.te, q.h0] if aff else [P(q.y), q.t0, q.te, q.h0]
    s.run(method(ast, q.c, "operator()", nparams=len(args)), o, *args)
    recs = [r for r in ex.records if r.get("kind") == "loop" and r["depth"] == 1]
    if len(recs) != 1:
        raise Unsupported("time loop not recognised")
    q.rec = recs[0]
    ex.weak = None
    return q


def absv(x):
    return ite(cmp(">=", x, 0), x, neg(x))


def control(ast, aff):
    q = loop(ast, aff)
    s, ex, rec = q.s, q.s.ex, q.rec
    ent, b, e = rec["entry"], rec["begin"], rec["back"]
    s.goal(cmp("==", q.fld("t", ent), q.t0), "integration starts at t0", pc=ent.pc)
    s.goal(cmp("==", q.var("h", ent), q.h0), "first step is the one given", pc=ent.pc)
    s.goal([x.kind for g, x in ent.events] == ["rho"], "the spectral radius is asked once before the first step")
    s.unchanged(q.y, q.before, "initial value", st=ent)
    s.goal(land(*[cmp("==", q.fld(f, ent), 0) for f in ("nsteps", "funccal", "nstagesmax")]), "counters start at zero", pc=ent.pc)
    rem = sub(q.te, q.fld("t", b))
    want = ite(cmp(">=", mul(Fraction(101, 100), q.h0), rem), rem, q.h0)
    steps = [(g, x) for g, x in e.events if x.kind == "step"]
    s.goal(len(steps) == 1 and steps[0][0] is True and len(e.events) == 1, "exactly one step per iteration", pc=e.pc)
    if len(steps) != 1:
        return s
    K = steps[0][1]
    pc = e.pc
    s.goal(K.affine == aff, "the step is the one of the construction mode", pc=pc)
    s.goal(cmp("==", K.dt, want), "step is the given one, or exactly the remaining time at the end", pc=pc)
    eig = q.rho
    need0 = T.toint(add(T.sqrt(T.rdiv(add(3, mul(want, eig)), Fraction(353, 1000))), 1))
    s.goal(cmp("<=", need0, 152), "no step is performed when more than the tabulated stages are needed", pc=pc)
    need = sub(ite(cmp("<", need0, 5), 5, need0), 4)
    s.goal(cmp(">=", K.deg, need), "degree is sufficient for the spectral radius", pc=pc)
    s.goal(cmp("==", K.deg, DEG(I(need))), "degree is the smallest sufficient one", pc=pc)
    s.goal(cmp("==", K.row, ROW(K.deg)), "finishing coefficients are those of the degree", pc=pc)
    s.goal(cmp("==", K.offs, OFF(K.deg)), "recurrence coefficients are those of the degree", pc=pc)
    s.goal(K.y == q.y and T.pynum(K.off) == 0, "the step is applied to the user's array", pc=pc)
    if aff:
        s.goal(K.b is not None and K.b[0] == q.b and T.pynum(K.b[1]) == 0, "with the user's b", pc=pc)
    k = s.int("k")
    t = e.clone()
    t.assume(k >= 0)
    t.assume(k < N_)
    rd = lambda st: ex.content(st, q.y).read((k,), ex.decider(t))
    s.goal(cmp("==", K.ysnap.at(k), rd(b)), "the solution is not altered before the step", pc=t.pc)
    s.goal(cmp("==", rd(e), K.new(k)), "the solution is not altered after the step", pc=t.pc)
    s.unchanged(q.b, b, "b", st=e)
    s.goal(cmp("==", q.fld("t", e), ite(cmp("==", want, rem), q.te, add(q.fld("t", b), want))), "time advances by the step, exactly to the end on the last one", pc=pc)
    small = lor(cmp("<", want, 10 * UR), land(cmp("<", want, rem), cmp("<=", want, mul(10 * UR, absv(q.fld("t", b))))))
    s.goal(lnot(B(small)), "a step below the limit is not performed", pc=pc)
    s.goal(cmp("==", q.fld("nsteps", e), add(q.fld("nsteps", b), 1)), "every step is counted", pc=pc)
    s.goal(cmp("==", q.fld("funccal", e), add(q.fld("funccal", b), add(K.deg, 4))), "the operator calls counted are those of the step", pc=pc)
    m = q.fld("nstagesmax", b)
    s.goal(cmp("==", q.fld("nstagesmax", e), ite(cmp(">", add(K.deg, 4), m), add(K.deg, 4), m)), "largest stage count is kept", pc=pc)
    for th in ex.throws:
        s.goal(lor(small, cmp(">", need0, 152)), "the exception is raised only for a step too small or too many stages", pc=th["pc"])
        s.goal(not th["events"], "the exception is raised before anything is computed in the iteration", pc=th["pc"])
        s.goal(th["reg"].get(q.y) is b.reg.get(q.y), "the exception leaves the solution of the last completed step", pc=th["pc"])
        tt = s.getf(q.o, "t", st=State_of(s, th))
        s.goal(cmp("==", tt, q.fld("t", b)), "the exception leaves the time of the last completed step", pc=th["pc"])
    outs = [x for x in rec["exits"] if not x.dead]
    s.goal(len(outs) == 1 and not rec["breaks"], "the loop ends only by its condition")
    for x in outs:
        s.goal(cmp("==", q.fld("t", x), q.te), "on return the time is exactly the end time", pc=x.pc)
    fin = s.st
    s.goal(cmp("==", q.fld("t", fin), q.te), "Time() is the end time", pc=fin.pc)
    for x in outs:
        s.unchanged(q.y, x, "solution delivered", st=fin)
    return s


def State_of(s, th):
    st = s.st.clone()
    st.mem, st.reg = th["mem"], th["reg"]
    return st


def wrong(ast, aff):
    q = prep(ast, aff)
    s, ex = q.s, q.s.ex
    q.before = s.st.clone()
    args = [P(q.y), q.t0, q.te, q.h0] if aff else [P(q.y), P(q.b), q.t0, q.te, q.h0]
    s.run(method(ast, q.c, "operator()", nparams=len(args)), q.o, *args)
    s.goal(s.st.dead, "the overload of the other mode does not return")
    s.goal(len(ex.throws) == 1, "it raises the exception")
    for th in ex.throws:
        s.goal(not th["events"], "before any step or operator call")
        s.goal(th["reg"].get(q.y) is q.before.reg.get(q.y) and th["reg"].get(q.b) is q.before.reg.get(q.b), "the user's arrays are untouched")
    return s


_I = ["common/include", "Rock4-L/include"]
DRIVERS = [dict(src="C16.cc", name="C16", incs=_I, flags=["-DALIGN_BLOCKED", "-fsanitize=address,undefined"])]
