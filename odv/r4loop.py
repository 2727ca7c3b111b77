"""Rock4::operator(): contract of the time loop, one iteration from an arbitrary
state satisfying the loop invariant. The kernel stands as its contract (C12), the
degree selection as its contract (C13: `select`), rho and the right-hand side are
events of arbitrary value."""
from .rock import *
from .user import snap, apps
from . import loops as L

DEG = z3.Function("DEG", z3.IntSort(), z3.IntSort())
ROW = z3.Function("ROW", z3.IntSort(), z3.IntSort())
OFF = z3.Function("OFF", z3.IntSort(), z3.IntSort())
ARR = ("k1", "k2", "k3", "k4", "g0", "fn", "temp")
UR = Fraction(1, 10**16)


def one(p):
    if not isinstance(p, Ptr) or len(p.alts) != 1:
        raise Unsupported("ambiguous array")
    return p.alts[0][1], p.alts[0][2]


def build(ast):
    s = Session(ast)
    alloc_contracts(s)
    s.ex.ext[("odes_R4", "size")] = lambda ex, st, this, args, e: N_
    c = s.cls("Rock4")
    fo = s.obj(s.cls("odes_R4"), "F")
    o = s.obj(c, "S")
    s.ctor(o, LObj(fo))
    return s, c, o


def select(ast, ms, which):
    """mdegre: the smallest tabulated degree at least the one needed, its row and the
    position of its recurrence coefficients"""
    ss = []
    for need in which:
        s, c, o = build(ast)
        v = s.ex.new_var(s.st, "int", "mdeg")
        s.st.mem[v.cid] = need
        s.run(method(ast, c, "mdegre", nparams=1), o, v)
        i = next(k for k, d in enumerate(ms) if d >= need)
        s.goal(cmp("==", s.st.mem[v.cid], ms[i]), "needed %d: smallest sufficient degree" % need)
        mp = s.field(o, "mp")
        rd = lambda k: s.ex.content(s.st, mp.rid).read((k,), s.ex.decider(s.st))
        s.goal(cmp("==", rd(1), i + 1), "needed %d: row of that degree" % need)
        s.goal(cmp("==", rd(2), 1 + sum(2 * d - 1 for d in ms[:i])), "needed %d: recurrence coefficients of that degree" % need)
        ss.append(s)
    return ss


class Loop:
    """s, rec, locals by name"""

    def var(self, name, st=None):
        if name not in self.cid:
            raise Missing("local variable " + name)
        return (st or self.s.st).mem[self.cid[name]]

    def fld(self, name, st):
        return self.s.getf(self.o, name, st)


def cellsof(ex, st):
    out = {}
    for c in st.mem:
        n = ex.cellinfo.get(c)
        if n is not None:
            out[str(n[0])] = c
    return out


def timeloop(ast, inv=None, log=False):
    q = Loop()
    s, c, o = build(ast)
    q.s, q.c, q.o = s, c, o
    ex = s.ex
    q.arr = {f: one(s.getf(o, f))[0] for f in ARR}
    for f, r in q.arr.items():
        s.st.reg[r] = Base(T.freshfun("in_" + f, 1, "real"), "real")
    q.y, q.yf = s.array("y", N_)
    q.at, q.rt = s.real("atol"), s.real("rtol")
    s.setf(o, "atol", q.at)
    s.setf(o, "rtol", q.rt)
    # everything else an earlier integration may have left
    for f in ("told", "hlast"):
        s.setf(o, f, s.real("old_" + f))
    for f in ("mdeg", "funccal", "nrej", "nsteps", "nacc", "nstagesmax"):
        s.setf(o, f, s.int("old_" + f))
    mp = s.field(o, "mp")
    s.st.reg[mp.rid] = Base(T.freshfun("old_mp", 1, "int"), "int")
    q.mp = lambda k, st: ex.content(st, mp.rid).read((k,), ex.decider(st))
    yv = ex.new_var(s.st, "double *", "y")
    s.st.mem[yv.cid] = P(q.y)
    q.yv = yv
    q.t0, q.te, q.h0 = s.real("t0"), s.real("tend"), s.real("h_in")
    q.facts = []

    def F(ex, st, this, args, e):
        ri, oi = one(ex.ev(args[0], st))
        ro, oo = one(ex.ev(args[1], st))
        ex.bound(st, ri, (add(oi, sub(N_, 1)),), "F reads")
        ex.bound(st, ro, (add(oo, sub(N_, 1)),), "F writes")
        s.goal(not (ri == ro), "the right-hand side is not asked to write into the vector it reads", pc=st.pc)
        f = T.freshfun("Fout", 1, "real")
        st.events = st.events + ((True, Event("F", rin=ri, y=snap(ex, st, ri, oi, N_), rout=ro, out=f)),)
        st.reg[ro] = Base(f, "real")

    def rho(ex, st, this, args, e):
        v = T.fresh("rho", "real")
        st.assume(v >= 0)
        st.events = st.events + ((True, Event("rho", v=v)),)
        return v

    def sel(ex, st, this, args, e):
        lv = ex.lv(args[0], st)
        d = ex.load(st, lv)
        ex.oblige(st, land(cmp(">=", d, 1), cmp("<=", d, 148)), "degree asked for is within the table", "pre")
        st.assume(DEG(I(d)) >= I(d))
        st.assume(DEG(I(d)) <= 148)
        st.assume(DEG(I(d)) >= 1)
        st.assume(DEG(DEG(I(d))) == DEG(I(d)))
        ex.assign(st, lv, DEG(I(d)))
        st.reg[mp.rid] = Base(T.freshfun("mp", 1, "int"), "int")
        st.assume(B(cmp("==", q.mp(1, st), ROW(DEG(I(d))))))
        st.assume(B(cmp("==", q.mp(2, st), OFF(DEG(I(d))))))

    def kern(ex, st, this, args, e):
        lv = ex.lv(args[0], st)
        yr, yo = one(ex.load(st, lv))
        dt = ex.ev(args[1], st)
        rs = {f: one(ex.load(st, s.field(o, f)))[0] for f in ARR}
        err = T.fresh("err", "real")
        st.assume(err >= 0)
        new, fnew = T.freshfun("ynew", 1, "real"), T.freshfun("fnew", 1, "real")
        d = ex.load(st, s.field(o, "mdeg"))
        st.events = st.events + ((True, Event("step", dt=R(dt), y=yr, off=yo, ysnap=snap(ex, st, yr, yo, N_), fsnap=snap(ex, st, rs["fn"], 0, N_),
                                              deg=I(d), row=I(q.mp(1, st)), offs=I(q.mp(2, st)), err=err, new=new, fnew=fnew, arrays=dict(rs))),)
        ex.oblige(st, len(set(rs.values()) | {yr}) == 8, "the kernel's vectors are distinct", "pre")
        for f in ("k1", "k2", "k3", "k4"):
            st.reg[rs[f]] = Base(T.freshfun("k", 1, "real"), "real")
        st.reg[rs["temp"]] = Base(new, "real")
        st.reg[rs["g0"]] = Base(fnew, "real")
        ex.assign(st, s.field(o, "funccal"), add(ex.load(st, s.field(o, "funccal")), add(d, 4)))
        ex.assign(st, s.field(o, "Vtemp"), ex.load(st, s.field(o, "g0")))
        return err
    ex.ext[("odes_R4", "operator()")] = F
    ex.ext[("odes_R4", "rho")] = rho
    ex.contracts[("Rock4", "mdegre")] = sel
    ex.contracts[("Rock4", "kernel")] = kern
    if log:
        for nm in ("put", "clear"):
            ex.contracts[("logger", nm)] = lambda ex, st, this, args, e, nm=nm: logev(ex, st, nm, [ex.ev(a, st) for a in args])

    class SP(L.SeqSpec):
        def inv(self, ex, st, entry):
            q.cid = cellsof(ex, st)
            v = lambda n: q.var(n, st)
            out = [("time does not pass the end", cmp("<=", v("t"), q.te)),
                   ("step is positive before the end", lor(cmp(">", v("h"), 0), cmp(">=", v("t"), q.te))),
                   ("degree last selected", lor(cmp("==", v("mdego"), 0), land(cmp("==", v("mdego"), q.fld("mdeg", st)), cmp("==", DEG(I(v("mdego"))), v("mdego")),
                                                                              cmp("==", q.mp(1, st), ROW(I(v("mdego")))), cmp("==", q.mp(2, st), OFF(I(v("mdego"))))))),
                   ("step-ratio limit is one of 5, 2, 1", lor(cmp("==", v("facmax"), 5), cmp("==", v("facmax"), 2), cmp("==", v("facmax"), 1))),
                   ("spectral radius is non negative", cmp(">=", v("eigmax"), 0)),
                   ("first spectral radius", lor(cmp("==", v("nrho"), 0), cmp("!=", v("mdego"), 0))),
                   ("counter of steps since the last spectral radius", land(cmp(">=", v("nrho"), 0), cmp("<=", v("nrho"), 9)))]
            return out + (inv(q, st) if inv else [])
    spec = SP()
    ex.seqspec = lambda node, st: spec if len(ex.frames) == 1 and "tend" in cellsof(ex, st) and not ex.trial_in_contract else None
    ex.trial_in_contract = False
    s.st.assume(q.t0 <= q.te)
    s.st.assume(q.h0 > 0)
    q.before = s.st.clone()
    fn = method(ast, c, "operator()", nparams=4)
    s.run(fn, o, yv, q.t0, q.te, q.h0)
    recs = [r for r in ex.records if r.get("kind") == "loop" and r["depth"] == 1]
    if len(recs) != 1:
        raise Unsupported("time loop not recognised")
    q.rec = recs[0]
    q.throws = list(ex.throws)
    ex.weak = None
    return q


def logev(ex, st, nm, a):
    st.events = st.events + ((True, Event("log", call=nm, args=a, mem=dict(st.mem))),)
