"""C23 a used solver object behaves like a fresh one."""
import z3
from odv import rodloop, radloop, r4loop
from odv.rodloop import rodas_ast, CO as ROCO
from odv.radloop import radau_ast, CO as RACO
from odv.rock import *
from odv.relate import *
from odv.user import snap
from . import C07, C08, C12, C15, C16, C17
NOTE = """Relational proof (self-composition, two runs in lock step) on operator() of Radau5cc, Rodascc, Rock4 and Rock4L. Every field of the object that is neither a setting nor a method constant (those written by the setters and constructors, C24 and C29) starts as an arbitrary leftover of an arbitrary history: step sizes, counters, flags, error and Newton data, work vectors, Jacobian and factors. The integration is cut at its loop heads; the fields and locals that may differ between two runs at a loop head are computed as a fixpoint over all edges and the result is proved: for every edge, each remaining cell gets a value that no leftover can change (conditional ones: the last accepted step and error once a step was accepted, the stage polynomials once a step was accepted, the Newton increments from the second iteration on, the degree data once selected). Obligations then: on every path, which way is taken, every argument of user functions, factorisations and solves, and the final solution, time, counters and exceptions are the same in both runs. The error estimate, the Rock4 and Rock4L kernels and the SDIRK step depend on no leftover (proved on their bodies). The drivers compare used and fresh objects bitwise after random histories."""
ASSUMPTIONS = ["factorisations and solves are functions of the matrix factored and the right-hand side (C04); the numerical Jacobian of the point and derivative given (C05)",
               "the loop invariants of Radau5cc::operator() (discharged by the checks of C07 and C09) and of Rodascc, Rock4 and Rock4L (C10, C13, C16)",
               "user functions are functions of their arguments", "Rock4L kernel: result is the one of C15, which mentions no leftover"]
RASET = {"safe", "facr", "facl", "nit", "thet", "fnewt", "tolst", "gustafssonTest", "nmax", "onlyOneStep", "quot1", "quot2", "sameTestValue", "uround", "atol", "rtol", "size", "deletable"} | set(RACO)
ROSET = {"safe", "fac1", "fac2", "tolst", "gustafssonTest", "nmax", "onlyOneStep", "sameTestValue", "uround", "atol", "rtol", "size", "deletable"} | set(ROCO)


def run(V):
    ra, ro, r4, rl = radau_ast(), rodas_ast(), ast4(), C15.astL()
    for rhs in ("odes_RhsA", "odes_RhsF", "odes_RhsB"):
        V.contract("Radau, %s" % rhs, radau, ra, rhs)
    V.contract("Radau, error estimate", estimate, ra)
    for rhs in ("odes_RhsA1", "odes_RhsA2", "odes_RhsA3", "odes_RhsF"):
        V.contract("Rodas, %s" % rhs, rodas, ro, rhs)
    V.contract("Rock4", rock4, r4)
    for aff in (False, True):
        V.contract("Rock4L, %s" % ("affine" if aff else "linear"), rock4l, rl, aff)
    rows = sorted(enumerate(Tables(r4).rows(), 1), key=lambda x: -x[1][0])
    for i, row in rows if V.tier == "thorough" else rows[-12:] + rows[::10]:
        V.contract("Rock4 step, degree %d" % row[0], r4kernel, r4, row)


def ends(r):
    out = []
    for z in list(r["exits"]) + [r["back"]]:
        if not z.dead and not any(z is w for w in out):
            out.append(z)
    return out


def results(fl, st, name, cells, regs=()):
    if st.dead:
        return
    for nm, c, when in cells:
        v = st.mem[c]
        pc = st.pc
        if when is not None:
            w = when(st)
            if w is False:
                continue
            pc = tuple(pc) + ((B(w),) if isinstance(w, z3.ExprRef) else ())
        for t in fl.of(v):
            fl.indep(t, pc, "%s: %s" % (name, nm))
    for nm, r in regs:
        v, pc = fl.content(st, r)
        for t in fl.of(v):
            fl.indep(t, pc, "%s: %s" % (name, nm))


def thrown(fl, s, cells):
    for th in s.ex.throws:
        t = s.st.clone()
        t.mem, t.reg, t.pc, t.events, t.dead = th["mem"], th["reg"], th["pc"], tuple(th["events"]), False
        fl.path(t, "exception")
        results(fl, t, "exception", cells)


def radau(ast, rhs):
    q = radloop.steploop(ast, rhs, cuts=False, newton=False)
    s, fd = q.s, q.fld
    s.goals = []
    s.skipkinds = ("pre", "cut", "bound", "inv")
    fl = Flow(s, [], N_)
    stale_of(fl, q.o, RASET, q.before, [q.before.mem[c] for c in q.g.values()])
    v, _ = fl.content(q.before, q.jrid)
    fl.stale |= {x for t in fl.of(v) for x in fl.syms(t)} - {"rel!k0", "rel!k1"}
    o, i, n = q.outer, q.inner, q.newton
    fl.link(o["begin"], o["entry"], [o["entry"], o["back"]], "outer")
    fl.link(i["begin"], i["entry"], [i["entry"], i["back"]], "inner")
    fl.link(n["begin"], n["entry"], [n["entry"], n["back"]], "newton")
    fl.link(i["after"], i["entry"], i["exits"], "after inner")
    fl.link(n["after"], n["entry"], n["exits"], "after newton")
    na = lambda z: cmp(">=", fd("naccpt", z), 1)
    T_ = {}
    for w in ("outer", "inner", "after inner"):
        for f in ("hacc", "erracc"):
            T_[(w, f)] = lambda z: land(q.gus, na(z))
        T_[(w, "firstAcceptedStep")] = na
        for k in "123":
            T_[(w, "save" + k)] = lambda z: lnot(fd("first", z))
    for w in ("outer", "inner", "after inner", "newton", "after newton"):
        T_[(w, "hold")] = lambda z: lnot(fd("first", z))
    T_[("newton", "dynold")] = lambda z: cmp(">=", fd("newt", z), 1)
    T_[("newton", "thqold")] = lambda z: cmp(">=", fd("newt", z), 2)
    fl.fix(T_)
    fl.invariants()
    for nm, z in [("before the integration", o["entry"]), ("start of a step", i["entry"]), ("before Newton", n["entry"])] + [("Newton iteration", z) for z in ends(n)] + [("after Newton", z) for z in ends(i)] + [("end of a step", z) for z in ends(o)]:
        fl.path(z, nm)
        fl.events(z, nm)
    f = lambda x: s.field(q.o, x).cid
    cells = [(x, f(x), None) for x in ("naccpt", "nrejct", "nstep", "ndec", "njac", "nfonccalled")] + [("time", q.xv.cid, None), ("first accepted step", f("firstAcceptedStep"), na)]
    results(fl, s.st, "result", cells + [("last step", f("h"), None)], [("solution", q.y)])
    thrown(fl, s, cells)
    return s


def estimate(ast):
    s = C08.estimate(ast)
    q = s.q
    s.goals = []
    s.skipkinds = ("pre", "cut", "bound", "inv")
    fl = Flow(s, [], N_)
    stale_of(fl, q.o, RASET | {"h", "scal", "Z1", "Z2", "Z3"}, q.before)
    st = s.st
    for t in fl.of(q.err):
        fl.indep(t, st.pc, "error estimate")
    for g, e in st.events:
        e.d.pop("U", None)
    fl.events(st, "error estimate")
    return s


def rodas(ast, rhs):
    q = rodloop.steploop(ast, rhs)
    s, fd = q.s, q.fld
    s.goals = []
    s.skipkinds = ("pre", "cut", "bound", "inv")
    fl = Flow(s, [], N_)
    stale_of(fl, q.o, ROSET, q.before)
    v, _ = fl.content(q.before, q.jrid)
    fl.stale |= {x for t in fl.of(v) for x in fl.syms(t)} - {"rel!k0", "rel!k1"}
    o, i = q.outer, q.inner
    fl.link(o["begin"], o["entry"], [o["entry"], o["back"]], "outer")
    fl.link(i["begin"], i["entry"], [i["entry"], i["back"]], "inner")
    na = lambda z: cmp(">=", fd("naccpt", z), 1)
    T_ = {}
    for w in ("outer", "inner"):
        for f in ("hacc", "erracc"):
            T_[(w, f)] = lambda z: land(q.gus, na(z))
        T_[(w, "firstAcceptedStep")] = na
    fl.fix(T_)
    fl.invariants()
    for nm, z in [("before the integration", o["entry"]), ("start of a step", i["entry"])] + [("attempt", z) for z in ends(i)] + [("end of a step", z) for z in ends(o)]:
        fl.path(z, nm)
        fl.events(z, nm)
    for z in ends(i):
        ks = [e.kind for g, e in z.events if e.kind in ("decomr", "solve")]
        s.goal(bool(ks) and ks[0] == "decomr" and all(g is True for g, e in z.events if e.kind == "decomr"), "every attempt factors its matrix before the solves")
    f = lambda x: s.field(q.o, x).cid
    cells = [(x, f(x), None) for x in ("naccpt", "nrejct", "nstep", "ndec", "njac")] + [("time", q.xv.cid, None), ("first accepted step", f("firstAcceptedStep"), na)]
    results(fl, s.st, "result", cells + [("last step", f("h"), None)], [("solution", q.y)])
    thrown(fl, s, cells)
    return s


def rock4(ast):
    q = r4loop.timeloop(ast)
    s, r = q.s, q.rec
    s.goals = []
    s.skipkinds = ("pre", "bound", "inv")
    fl = Flow(s, [], N_)
    stale_of(fl, q.o, {"atol", "rtol"}, q.before)
    fl.link(r["begin"], r["entry"], [r["entry"], r["back"]], "time")
    fd = q.fld
    nac = lambda z: cmp(">=", fd("nacc", z), 1)
    deg = lambda z: cmp("!=", q.var("mdego", z), 0)
    fl.fix({("time", "hlast"): nac, ("time", "mp"): deg, ("time", "mdeg"): deg})
    fl.invariants()
    for nm, z in [("before the first step", r["entry"])] + [("step", z) for z in ends(r)]:
        fl.path(z, nm)
        fl.events(z, nm)
    f = lambda x: s.field(q.o, x).cid
    cells = [(x, f(x), None) for x in ("nacc", "nrej", "nsteps", "funccal", "nstagesmax")] + [("last accepted step", f("hlast"), nac)]
    results(fl, s.st, "result", cells)
    z = s.st
    if not z.dead:
        p = z.mem[q.yv.cid]
        if isinstance(p, Ptr):
            for g, rid, off in p.alts:
                results(fl, z, "result", [], [("solution", rid)])
                if isinstance(g, z3.ExprRef):
                    fl.indep(g, z.pc, "result: where the solution is")
    thrown(fl, s, cells)
    return s


def rock4l(ast, aff):
    q = C16.loop(ast, aff)
    s, r = q.s, q.rec
    s.goals = []
    s.skipkinds = ("pre", "bound", "inv")
    fl = Flow(s, [], N_)
    stale_of(fl, q.o, {"Fonc", "F"}, q.before)
    fl.link(r["begin"], r["entry"], [r["entry"], r["back"]], "time")
    deg = lambda z: cmp("!=", q.var("mdego", z), 0)
    fl.fix({("time", "mp"): deg, ("time", "mdeg"): deg})
    fl.invariants()
    for nm, z in [("before the first step", r["entry"])] + [("step", z) for z in ends(r)]:
        fl.path(z, nm)
        fl.events(z, nm)
    f = lambda x: s.field(q.o, x).cid
    cells = [(x, f(x), None) for x in ("nsteps", "funccal", "nstagesmax")]
    results(fl, s.st, "result", cells, [("solution", q.y)])
    thrown(fl, s, cells)
    return s


def r4kernel(ast, row):
    """the kernel's results mention nothing the work arrays or fields held before"""
    s = C12.kernel(ast, row)
    s.goals = [g for g in s.goals if "frame" not in g["kind"]]
    s.skipkinds = ("pre", "bound", "inv", "cut")
    return s


I1, I2 = ["common/include", "Radau5-NG/include"], ["common/include", "Rodas-NG/include"]
LL = ["-llapack", "-lblas"]
DRIVERS = [dict(src="C23.cc", name="C23r", flags=["-DWHICH=1"], incs=I1, libs=LL),
           dict(src="C23.cc", name="C23o", flags=["-DWHICH=2"], incs=I2, libs=LL),
           dict(src="C23.cc", name="C23k", flags=["-DWHICH=3", "-DALIGN_BLOCKED"], incs=["common/include", "Rock4-NG/include"]),
           dict(src="C23.cc", name="C23l", flags=["-DWHICH=4", "-DALIGN_BLOCKED"], incs=["common/include", "Rock4-L/include", "Rock4-NG/include"]),
           dict(src="C23.cc", name="C23s", flags=["-DWHICH=5"], incs=["common/include", "SDIRKL/include", "SDIRKL/test/Lapl"])]
