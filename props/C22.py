"""C22 every integration terminates."""
import z3
from odv.radloop import *
from odv import rodloop as RO
from odv import r4loop as R4
NOTE = """Termination is decided by ranking arguments whose steps are proved obligation by obligation. Radau5cc and Rodascc (one iteration of every loop from an arbitrary state, all floating comparisons, minima and maxima giving ARBITRARY results, so that non-finite right-hand sides, Jacobians and factorisations and -ffast-math are included): the attempt counter starts at zero, is never decreased, every iteration of the integration and of its step loop raises it by exactly one, an attempt is made only while the counter is within the user's limit, the exception is raised only beyond it, and the limit is not changed by an integration: at most limit+1 attempts. Radau5cc's Newton loop: the iteration counter starts at zero, every iteration raises it by one, and the loop goes on only below the iteration limit, whatever the limit is. All other loops are counted loops over fixed ranges. Rock4::operator(): an accepted step advances the time by the step attempted or to the end, a step attempted is at least the limit (1e-15, and more than 1e-15 times the time unless it is the last one); a rejected step leaves the time, and the next step is at most 0.64 times the failed one, except once per accepted step, at the tenth counted rejection, where it is 1e-5; the exception is raised exactly below the limit: finitely many rejections between accepted steps, finitely many accepted steps. Rock4L: every iteration advances the time by the given step or reaches the end: at most (tend-t0)/h+1 iterations. symplectic::step: the fixed-point sweeps are at most the iteration limit (C20: contract of the iteration). User callbacks are assumed to return or throw."""
ASSUMPTIONS = ["the user's functions return or throw", "Rock4/Rock4L: the initial step is positive, rho is non negative and the error estimate is a number (a non-finite one is exercised by the driver)", "Radau5 proofs: Newton iteration limit at least one (limits below one are exercised by the driver)"]


def run(V):
    for rhs in ("odes_RhsA", "odes_RhsF"):
        V.contract("Radau5 step limit, %s" % rhs, radau, radau_ast(), rhs)
    V.contract("Rodas step limit", rodas, RO.rodas_ast(), "odes_RhsA1")
    V.contract("Rock4 time loop", rock4, R4.ast4())
    from odv.rlin import astL
    for aff in (False, True):
        V.contract("Rock4L time loop, %s" % ("affine" if aff else "linear"), rock4l, astL(), aff)


def rock4(ast):
    from . import C13
    q = R4.timeloop(ast)
    s, ex, rec = q.s, q.s.ex, q.rec
    b, e = rec["begin"], rec["back"]
    v, w = (lambda n: q.var(n, b)), (lambda n: q.var(n, e))
    steps = [x for g, x in e.events if x.kind == "step"]
    s.goal(len(steps) == 1, "one step per iteration", pc=e.pc)
    if len(steps) != 1:
        return s
    K = steps[0]
    h1 = C13.predict(q, b)
    rem = sub(q.te, v("t"))
    acc, rej = e.clone(), e.clone()
    acc.assume(B(cmp("<", K.err, 1)))
    rej.assume(lnot(B(cmp("<", K.err, 1))))
    rej.assume(K.err > 0)
    lim = Fraction(1, 10 ** 15)
    s.goal(cmp(">=", h1, lim), "a step attempted is not below the limit", pc=e.pc)
    s.goal(lor(cmp("==", h1, rem), cmp(">", h1, mul(lim, C13.absv(v("t"))))), "a step attempted changes the time or is the last one", pc=e.pc)
    s.goal(lor(cmp("==", w("t"), q.te), cmp("==", w("t"), add(v("t"), K.dt))), "accepted: the time advances by the step or to the end", pc=acc.pc)
    s.goal(cmp("==", w("t"), v("t")), "rejected: the time is kept", pc=rej.pc)
    restart = land(cmp("==", w("h"), Fraction(1, 10 ** 5)), cmp("==", w("nrejloc"), 10), cmp("==", v("nrejloc"), 9))
    s.goal(lor(cmp("<=", w("h"), mul(Fraction(64, 100), K.dt)), restart), "rejected: the step shrinks, but for the restart at the tenth rejection", pc=rej.pc)
    s.goal(cmp("<=", K.dt, h1), "the step computed is not larger than the one attempted", pc=e.pc)
    s.goal(cmp("==", w("nrejloc"), add(v("nrejloc"), ite(cmp("==", q.fld("told", b), v("t")), 1, 0))), "rejected: the rejection is counted", pc=rej.pc)
    s.goal(cmp("==", q.fld("told", e), v("t")), "rejected: the time of the rejection is remembered", pc=rej.pc)
    small = lor(cmp("<", h1, lim), land(cmp("<", h1, rem), cmp("<=", h1, mul(lim, C13.absv(v("t"))))))
    s.goal(len(q.throws) >= 1, "the guard raises the exception")
    for th in q.throws:
        s.goal(small, "the exception is raised only for a step below the limit", pc=th["pc"])
    return s


def rock4l(ast, aff):
    from . import C16
    q = C16.loop(ast, aff)
    s, ex, rec = q.s, q.s.ex, q.rec
    b, e = rec["begin"], rec["back"]
    t, tn = q.fld("t", b), q.fld("t", e)
    s.goal(lor(cmp("==", tn, q.te), cmp("==", tn, add(t, q.h0))), "every iteration advances the time by the given step or reaches the end", pc=e.pc)
    lim = Fraction(1, 10 ** 15)
    rem = sub(q.te, t)
    h1 = ite(cmp(">=", mul(Fraction(101, 100), q.h0), rem), rem, q.h0)
    s.goal(cmp(">=", h1, lim), "a step performed is not below the limit", pc=e.pc)
    s.goal(lor(cmp("==", h1, rem), cmp(">", h1, mul(lim, C16.absv(t)))), "a step performed changes the time or is the last one", pc=e.pc)
    return s


def radau(ast, rhs):
    def specs(q):
        fld = q.fld

        class O(L.SeqSpec):
            name = "outer"
            auto = unroll = False

            def inv(self, ex, st, entry):
                return [("attempts so far", cmp(">=", fld("nstep", st), fld("nstep", entry)))]

        class R_(O):
            name = "step"

            def post(self, ex, st, entry):
                return [("at least one attempt is counted", cmp(">", fld("nstep", st), fld("nstep", entry)))]

        class Nw(L.SeqSpec):
            name = "newton"
            auto = unroll = False

            def inv(self, ex, st, entry):
                nw = fld("newt", st)
                return [("iterations so far", land(cmp(">=", nw, 0), lor(cmp("==", nw, 0), cmp("<", nw, q.nit))))]
        return {"outer": O(), "step": R_(), "newton": Nw()}
    q = steploop(ast, rhs, wild=specs)
    s, ex, fld = q.s, q.s.ex, q.fld
    # the value obligations of C06-C09 are not this property's (and not meant for arbitrary comparisons)
    s.skipkinds = ("pre", "cut", "bound")
    nb, nbk = q.newton["begin"], q.newton["back"]
    if not nbk.dead:
        s.goal(cmp("==", fld("newt", nbk), add(fld("newt", nb), 1)), "every Newton iteration is counted", pc=nbk.pc)
        s.goal(cmp("<", fld("newt", nbk), q.nit), "the Newton iteration goes on only below its limit", pc=nbk.pc)
    b = q.inner["begin"]
    for z, w in [(q.inner["back"], "retried")] + [(e, "left") for e in q.inner["exits"]]:
        if not z.dead:
            s.goal(cmp("==", fld("nstep", z), add(fld("nstep", b), 1)), "every attempt is counted (%s)" % w, pc=z.pc)
            s.goal(cmp("<=", fld("nstep", b), q.nmax), "an attempt is made only within the limit (%s)" % w, pc=z.pc)
    s.goal(len(ex.throws) >= 1, "the limit raises the exception")
    for th in ex.throws:
        s.goal(cmp(">", fld("nstep", b), q.nmax), "an exception is raised only when the limit is exceeded", pc=th["pc"])
    ob, ok = q.outer["begin"], q.outer["back"]
    if not ok.dead:
        s.goal(cmp(">", fld("nstep", ok), fld("nstep", ob)), "every iteration of the integration is counted", pc=ok.pc)
    s.goal(cmp("==", fld("nstep", q.outer["entry"]), 0), "the count starts at zero", pc=q.outer["entry"].pc)
    for f in ("nmax", "nit"):
        lv = s.field(q.o, f)
        s.goal(lv.cid not in q.outer["cells"], "an integration does not change %s" % f)
    return s


def rodas(ast, rhs):
    def specs(q):
        fld = q.fld

        class O(L.SeqSpec):
            name = "outer"
            auto = unroll = False

            def inv(self, ex, st, entry):
                return [("attempts so far", cmp(">=", fld("nstep", st), 0))]

        class I_(L.SeqSpec):
            name = "inner"
            auto = unroll = False

            def inv(self, ex, st, entry):
                return [("attempts so far", cmp(">=", fld("nstep", st), fld("nstep", entry)))]

            def post(self, ex, st, entry):
                return [("at least one attempt is counted", cmp(">", fld("nstep", st), fld("nstep", entry)))]
        return {"o": O(), "i": I_()}
    q = RO.steploop(ast, rhs, wild=specs)
    s, ex, fld = q.s, q.s.ex, q.fld
    b = q.inner["begin"]
    for z, w in [(q.inner["back"], "retried")] + [(e, "left") for e in q.inner["exits"]]:
        if not z.dead:
            s.goal(cmp("==", fld("nstep", z), add(fld("nstep", b), 1)), "every attempt is counted (%s)" % w, pc=z.pc)
            s.goal(cmp("<=", fld("nstep", z), q.nmax), "continues only within the limit (%s)" % w, pc=z.pc)
    ob, ok = q.outer["begin"], q.outer["back"]
    if not ok.dead:
        s.goal(cmp(">", fld("nstep", ok), fld("nstep", ob)), "every iteration of the integration is counted", pc=ok.pc)
    s.goal(cmp("==", fld("nstep", q.outer["entry"]), 0), "the count starts at zero", pc=q.outer["entry"].pc)
    s.goal(s.field(q.o, "nmax").cid not in q.outer["cells"], "an integration does not change nmax")
    return s


_C = "common/include"
_R4 = [_C, "Rock4-NG/include"]
DRIVERS = [dict(src="C07.cc", name="C22_limit", flags=["-DWHAT=8"], incs=[_C, "Radau5-NG/include"], libs=["-llapack", "-lblas"]),
           dict(src="C22.cc", name="C22_radau", flags=["-DWHICH=1"], incs=[_C, "Radau5-NG/include"], libs=["-llapack", "-lblas"]),
           dict(src="C22.cc", name="C22_rodas", flags=["-DWHICH=2"], incs=[_C, "Rodas-NG/include"], libs=["-llapack", "-lblas"]),
           dict(src="C22.cc", name="C22_rock4", flags=["-DWHICH=3", "-DALIGN_BLOCKED"], incs=_R4),
           dict(src="C22.cc", name="C22_rock4l", flags=["-DWHICH=4", "-DALIGN_BLOCKED"], incs=_R4 + ["Rock4-L/include"])]
