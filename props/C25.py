"""C25 statistics counters."""
import z3
from odv.rodloop import rodas_ast
from odv import rodloop, radloop
from odv.radloop import radau_ast
from odv.rock import *
from odv.r4loop import timeloop
from . import C08, C12, C13, C15, C16
NOTE = """The integrations are cut into segments (before the integration loop; from the head of each loop to the loop inside it; from there on; one Newton iteration; the end), each taken from an arbitrary state satisfying the loop invariants. Obligation for each segment and each counter, read through its public accessor: what the counter gains is exactly the number of those events of the segment (calls of the user's right-hand side and Jacobian, factorisations; one attempt per pass through the retry loop, one acceptance or rejection per error estimate), for every path through it; and nothing else changes it. By concatenation of segments the totals agree for every history, whether the integration ends normally, in one-step mode or by the exception. Contracts used: error estimate (C08: proved to count its evaluation), numerical Jacobian (n evaluations, counted: proved here), Rock4 and Rock4L kernels (degree+4 evaluations and as many counted: proved here for all 50 degrees). First/last accepted step: set exactly by the first/last acceptance to the step used. Drivers recount everything from the log of user calls and an independent simulation of whole integrations."""
ASSUMPTIONS = C08.ASSUMPTIONS[:2] + ["counters do not overflow (machine integers treated as mathematical)"]


def run(V):
    V.contract("Radau, numerical Jacobian counts its evaluations", numjac, radau_ast())
    V.contract("Radau, error estimate counts its evaluations", estcount, radau_ast())
    for rhs in ("odes_RhsA", "odes_RhsF"):
        V.contract("Radau, %s" % rhs, radau, radau_ast(), rhs)
    for rhs in ("odes_RhsA1", "odes_RhsF"):
        V.contract("Rodas, %s" % rhs, rodas, rodas_ast(), rhs)
    V.contract("Rock4", rock4, ast4())
    a, b = ast4(), C15.astL()
    for i, row in sorted(enumerate(Tables(a).rows(), 1), key=lambda x: -x[1][0]):
        V.contract("Rock4 step, degree %d" % row[0], only, C12.kernel, ("number of evaluations", "every evaluation is counted"), a, row)
    for i, row in sorted(enumerate(Tables(b).rows(), 1), key=lambda x: -x[1][0]):
        for aff in (False, True):
            V.contract("Rock4L %s step, degree %d" % ("affine" if aff else "linear", row[0]), only, C15.kernel, ("every operator call is counted", "the step is counted"), b, row, aff)
    for aff in (False, True):
        V.contract("Rock4L, %s" % ("affine" if aff else "linear"), rock4l, b, aff)


def only(fn, names, *args):
    s = fn(*args)
    s.goals = [g for g in s.goals if any(g["name"].startswith(n) for n in names)]
    s.skipkinds = ("pre", "cut", "bound", "inv")
    return s


class Seg:
    """counters of the solver, read through their accessors"""

    def __init__(self, q, weights, cls):
        self.q, self.s, self.w, self.cls = q, q.s, weights, cls
        self.getters = {g: method(q.s.ast, cls, g, nparams=0) for g in weights}

    def get(self, g, st):
        s = self.s
        old = s.st
        s.st = st.clone()
        try:
            return s.run(self.getters[g], self.q.o)
        finally:
            s.st = old

    def count(self, g, st):
        n = 0
        for c, x in st.events:
            w = self.w[g](x)
            if T.ispy(w) and w == 0:
                continue
            n = add(n, w if c is True else ite(c, w, 0))
        return n

    def seg(self, name, a, b, extra={}):
        """from state a (None: the counters start at zero) to state b"""
        if b.dead:
            return
        for g in self.w:
            d = sub(self.count(g, b), self.count(g, a) if a is not None else 0)
            e = extra.get(g, 0)
            d = add(d, e() if callable(e) else e)
            was = self.get(g, a) if a is not None else 0
            self.s.goal(cmp("==", self.get(g, b), add(was, d)), "%s: %s" % (name, g), pc=b.pc)


def kind(*ks):
    return lambda x: 1 if x.kind in ks else 0


def numjac(ast):
    ss = []
    from . import C05
    for rhs in ("odes_RhsF", "odes_RhsB"):
        s = C05.jac(ast, "Radau5cc", rhs, rhs.endswith("B"))
        s.goals = []
        f = s.field(s.solver, "nfonccalled")
        s.skipkinds = ("pre", "cut", "bound", "inv")
        s.goal(cmp("==", s.ex.load(s.st, f), add(s.ex.load(s.before_, f), N_)), "%s: n evaluations counted" % rhs)
        ss.append(s)
    return ss


def estcount(ast):
    s = C08.estimate(ast)
    s.goals = [g for g in s.goals if g["name"] in ("an evaluation is counted", "second estimate exactly when the first fails on a first or rejected step") or "is not touched" in g["name"] and g["name"].split()[0] in ("naccpt", "nrejct", "nstep", "ndec", "njac", "newt")]
    s.skipkinds = ("pre", "cut", "bound", "inv")
    return s


def radau(ast, rhs):
    q = radloop.steploop(ast, rhs)
    s, ex, fld = q.s, q.s.ex, q.fld
    s.goals = []
    s.skipkinds = ("pre", "cut", "bound", "inv")
    w = {"getNfoncCalled": lambda x: 1 if x.kind == "F" else N_ if x.kind == "NJ" else x.calls if x.kind == "estrad" else 0,
         "getNJac": kind("J", "NJ"), "getNdec": kind("decomr"), "getNstep": kind(), "getNaccpt": kind(), "getNrejct": kind()}
    S = Seg(q, w, q.c)
    o, i, n = q.outer, q.inner, q.newton
    S.seg("before the integration", None, o["entry"])
    S.seg("start of a step", o["begin"], i["entry"])
    S.seg("attempt", i["begin"], n["entry"], {"getNstep": 1})
    ends = lambda r: [z for z in r["exits"] + [r["back"]] if not z.dead]
    uniq = lambda zs: [z for k, z in enumerate(zs) if not any(z is y for y in zs[:k])]
    for z in uniq(ends(n)):
        S.seg("Newton iteration", n["begin"], z)
    for z in uniq(ends(i)):
        S.seg("after the Newton iterations", n["after"], z)
    a = q.after()
    na = S.get("getNaccpt", a)
    h = fld("h", a)
    first = lambda st: fld("firstAcceptedStep", st)
    getfirst = method(ast, q.c, "getfirstAcceptedStep", nparams=0)
    s.goal(cmp("==", s.run(getfirst, q.o), first(s.st)), "first accepted step reported")
    for z in uniq(ends(o)):
        ev = [e for g, e in z.events if e.kind == "estrad"]
        if len(ev) != 1:
            raise Unsupported("error estimate not recognised")
        acc = cmp("<", ev[0].err, 1)
        S.seg("after the error estimate", a, z, {"getNaccpt": ite(acc, 1, 0), "getNrejct": ite(land(lnot(acc), cmp(">=", na, 1)), 1, 0)})
        s.goal(cmp("==", first(z), ite(land(acc, cmp("==", na, 0)), h, first(a))), "the first accepted step is remembered", pc=z.pc)
    f = s.field(q.o, "firstAcceptedStep").cid
    s.goal(f not in i["cells"] and f not in n["cells"], "attempts that fail do not change the first accepted step")
    s.goal(f not in o["cells"] or cmp("==", first(i["entry"]), first(o["begin"])), "preparing a step does not change the first accepted step", pc=i["entry"].pc)
    for z in [z for z in o["exits"] if not z.dead]:
        fin = s.st
    u = s.st.clone()
    u.assume(B(cmp("==", q.x0, q.xe)))
    for g in w:
        s.goal(cmp("==", S.get(g, u), 0), "nothing to do: %s is zero" % g, pc=u.pc)
    s.goal(land(*[cmp("==", S.count("getNdec", z), sum_(z, "decomc")) for z in [o["entry"]]]), "real and complex matrices are factored together")
    throws(s, S, q, [o["begin"], i["begin"], i["entry"], o["entry"]])
    return s


def throws(s, S, q, starts):
    """the exception leaves the counters of what was done: no change since the head of the loop"""
    ex = s.ex
    for th in ex.throws:
        t = s.st.clone()
        t.mem, t.reg, t.pc, t.events = th["mem"], th["reg"], th["pc"], tuple(th["events"])
        b = q.inner["begin"]
        yield_ = [g for g in S.w if g != "getNstep"]
        for g in yield_:
            s.goal(lor(*[cmp("==", S.get(g, t), add(S.get(g, z), sub(S.count(g, t), S.count(g, z)))) for z in starts if not z.dead]), "exception: %s" % g, pc=t.pc)


def sum_(st, k):
    n = 0
    for c, x in st.events:
        if x.kind == k:
            n = add(n, 1 if c is True else ite(c, 1, 0))
    return n


def rodas(ast, rhs):
    q = rodloop.steploop(ast, rhs)
    s, ex, fld = q.s, q.s.ex, q.fld
    s.goals = []
    s.skipkinds = ("pre", "cut", "bound", "inv")
    w = {"getNJac": kind("J", "NJ"), "getNdec": kind("decomr"), "getNstep": kind(), "getNaccpt": kind(), "getNrejct": kind()}
    S = Seg(q, w, q.c)
    o, i = q.outer, q.inner
    S.seg("before the integration", None, o["entry"])
    S.seg("start of a step", o["begin"], i["entry"])
    b = i["begin"]
    na, h = S.get("getNaccpt", b), fld("h", b)
    first = lambda st: fld("firstAcceptedStep", st)
    getfirst = method(ast, q.c, "getfirstAcceptedStep", nparams=0)
    s.goal(cmp("==", s.run(getfirst, q.o), first(s.st)), "first accepted step reported")
    for z in [z for z in i["exits"] if not z.dead]:
        S.seg("accepted step", b, z, {"getNstep": 1, "getNaccpt": 1})
        s.goal(cmp("==", first(z), ite(cmp("==", na, 0), h, first(b))), "the first accepted step is remembered", pc=z.pc)
    z = i["back"]
    S.seg("rejected step", b, z, {"getNstep": 1, "getNrejct": ite(cmp(">=", na, 1), 1, 0)})
    if not z.dead:
        s.goal(cmp("==", first(z), first(b)), "a rejected step is not the first accepted one", pc=z.pc)
    ie = [z for z in i["exits"] if not z.dead]
    if len(ie) != 1:
        raise Unsupported("several ways out of the step loop")
    for z in [z for z in o["exits"] + [o["back"]] if not z.dead]:
        if not z.events:
            S.seg("end at the head of the loop", o["begin"], z)
            s.goal(cmp("==", first(z), first(o["begin"])), "the first accepted step is kept", pc=z.pc)
            continue
        # the events of z are those before the step loop and those of its last pass
        S.seg("after an accepted step", ie[0], z, {g: neg(S.count(g, i["entry"])) for g in w})
        s.goal(cmp("==", first(z), first(ie[0])), "the first accepted step is kept", pc=z.pc)
    s.goal(cmp("==", first(i["entry"]), first(o["begin"])), "preparing a step does not change the first accepted step", pc=i["entry"].pc)
    u = s.st.clone()
    u.assume(B(cmp("==", q.x0, q.xe)))
    for g in w:
        s.goal(cmp("==", S.get(g, u), 0), "nothing to do: %s is zero" % g, pc=u.pc)
    return s


def rock4(ast):
    q = timeloop(ast, inv=lambda q, st: [("largest stage count", land(cmp(">=", q.fld("nstagesmax", st), 0), lor(cmp("==", q.var("mdego", st), 0), cmp(">=", q.fld("nstagesmax", st), add(q.var("mdego", st), 4)))))])
    s, ex, rec = q.s, q.s.ex, q.rec
    s.goals = []
    s.skipkinds = ("pre", "bound")
    w = {"NbRhsComputed": lambda x: 1 if x.kind == "F" else add(x.deg, 4) if x.kind == "step" else 0, "NbSteps": kind("step"), "NbAccepted": kind(), "NbRejected": kind()}
    S = Seg(q, w, q.c)
    b = rec["begin"]
    S.seg("before the first step", None, rec["entry"])
    ns = method(ast, q.c, "NbStages", nparams=0)
    nl = method(ast, q.c, "LastAcceptedTimeStep", nparams=0)

    def get(fn, st):
        old, s.st = s.st, st.clone()
        try:
            return s.run(fn, q.o)
        finally:
            s.st = old
    s.goal(cmp("==", get(ns, rec["entry"]), 0), "no stages used before the first step", pc=rec["entry"].pc)
    for e in [rec["back"]]:
        if e.dead:
            continue
        st = [x for g, x in e.events if x.kind == "step"]
        if len(st) != 1:
            raise Unsupported("step of the iteration not recognised")
        K = st[0]
        acc = cmp("<", K.err, 1)
        S.seg("one step", b, e, {"NbAccepted": ite(acc, 1, 0), "NbRejected": ite(acc, 0, 1)})
        m = get(ns, b)
        s.goal(cmp("==", get(ns, e), ite(cmp(">", add(K.deg, 4), m), add(K.deg, 4), m)), "largest number of stages", pc=e.pc)
        s.goal(cmp("==", get(nl, e), ite(acc, K.dt, get(nl, b))), "last accepted step", pc=e.pc)
    for x in [x for x in rec["exits"] if not x.dead]:
        S.seg("end", b, x)
    for th in ex.throws:
        t = s.st.clone()
        t.mem, t.reg, t.pc, t.events = th["mem"], th["reg"], th["pc"], tuple(th["events"])
        S.seg("exception", b, t)
    return s


def rock4l(ast, aff):
    s = C16.control(ast, aff)
    keep = ("counters start at zero", "every step is counted", "the operator calls counted", "largest stage count", "exactly one step per iteration")
    s.goals = [g for g in s.goals if any(g["name"].startswith(k) for k in keep)]
    s.skipkinds = ("pre", "bound")
    return s


I1, I2 = ["common/include", "Radau5-NG/include"], ["common/include", "Rodas-NG/include"]
DRIVERS = [dict(src="C07.cc", name="C25r", flags=["-DWHAT=16"], incs=I1, libs=["-llapack", "-lblas"]),
           dict(src="C25o.cc", name="C25o", incs=I2, libs=["-llapack", "-lblas"]),
           dict(src="C13.cc", name="C25k", flags=["-DCOUNTERS", "-DALIGN_BLOCKED"], incs=["common/include", "Rock4-NG/include"]),
           dict(src="C16.cc", name="C25l", flags=["-DCOUNTERS", "-DALIGN_BLOCKED"], incs=["common/include", "Rock4-L/include", "Rock4-NG/include"])]
