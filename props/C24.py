"""C24 settings take effect and stay in effect."""
import z3
from odv.radloop import *
from odv import rodloop as RO
from odv import r4loop as R4
NOTE = """Every setter of Radau5cc, Rodascc and Rock4 is executed symbolically on an object in an arbitrary state with an arbitrary argument: afterwards exactly the field(s) it names hold the argument, every other setting, the tolerances and the counters are as before (setTestPolicy: C06's contract is discharged here too, it also restores the default Newton threshold of the new tolerances). setFnewt raises the exception exactly for thresholds at most 1e-16/rtol'(1), and then nothing has changed. The constructors install the documented defaults. operator() of Radau5cc, Rodascc (one iteration of every loop from an arbitrary state, all floating comparisons arbitrary) and Rock4 writes none of the settings, so they stay in effect for all later integrations, and Radau5cc derives its safety factor over iterations from the values in force at the start. That every setting governs exactly the decision it names is the control contract of C08 (safety factor, ratio limits, Newton limit and threshold, recomputation threshold, predictive controller), C11 (Rodas) and C22 (step limit), where the settings are symbols; the Newton test, the Radau5 and the Rodas control contracts are discharged here as well. The drivers change settings between integrations of one object and recompute every decision with the settings in force."""
ASSUMPTIONS = ["factorisations, solves and numerical Jacobian stand as their contracts (C02-C05)", "doubles treated as reals", "the loop invariants of Radau5cc::operator() (discharged by the checks of C07 and C09)", "0 < safe < 1, 0 < facr < 1 < facl, at least one Newton iteration allowed (control contracts)"]
SETTERS = {"Radau5cc": [("performOnlyOneStep", ["onlyOneStep"], "bool"), ("setRecomputeJacobianTreshold", ["thet"], "real"), ("setMaxIterationsNewton", ["nit"], "int"),
                        ("setSafe", ["safe"], "real"), ("setFacrFacl", ["facr", "facl"], "real"), ("setGustafssonTest", ["gustafssonTest"], "bool"), ("setNmax", ["nmax"], "int")],
           "Rodascc": [("performOnlyOneStep", ["onlyOneStep"], "bool"), ("setSafe", ["safe"], "real"), ("setGustafssonTest", ["gustafssonTest"], "bool"), ("setNmax", ["nmax"], "int")]}
DEFAULTS = {"Radau5cc": dict(thet=Fraction(1, 1000), nit=7, safe=Fraction(9, 10), facr=Fraction(1, 8), facl=5, gustafssonTest=True, nmax=10000, onlyOneStep=False, quot1=1, quot2=Fraction(6, 5)),
            "Rodascc": dict(safe=Fraction(9, 10), fac1=5, fac2=Fraction(1, 6), gustafssonTest=True, nmax=10000, onlyOneStep=False)}


def run(V):
    from . import C06, C08, C11
    ra, ro, r4 = radau_ast(), RO.rodas_ast(), R4.ast4()
    for cn, ast in (("Radau5cc", ra), ("Rodascc", ro)):
        for nm, fs, kind in SETTERS[cn]:
            V.contract("%s::%s" % (cn, nm), setter, ast, cn, nm, fs, kind)
        V.contract("%s defaults" % cn, defaults, ast, cn)
        for same in (True, False):
            V.contract("%s::setTestPolicy, %s" % (cn, "scalar" if same else "vector"), C06.radau if cn == "Radau5cc" else C06.rodas, ast, same, False)
    V.contract("Radau5cc::setFnewt", fnewt, ra)
    V.contract("Rock4::setTolerances", rock4set, r4)
    V.contract("Rock4 keeps its tolerances", rock4keep, r4)
    for rhs in ("odes_RhsA", "odes_RhsF"):
        V.contract("Radau5 keeps its settings, %s" % rhs, radaukeep, ra, rhs)
    V.contract("Rodas keeps its settings", rodaskeep, ro, "odes_RhsA1")
    for case in ("first", "second", "later", "last"):
        V.contract("Newton limit and threshold, %s iteration" % case, C08.newtontest, ra, case)
    V.contract("Radau5 control with the settings in force", C08.steps, ra, "odes_RhsA")
    V.contract("Rodas control with the settings in force", C11.control, ro, "odes_RhsA1")


def obj(ast, cn):
    q = RadLoop()
    rhs = "odes_RhsA" if cn == "Radau5cc" else "odes_RhsA1"
    s = Session(ast, nmap=NMAP, facts=[N_ >= 1])
    M = Mats(s, kl=N_ - 1, ku=N_ - 1)
    q.s, q.M = s, M
    q.c = s.cls(cn, lambda c: any(rhs in str(a) for a in ast.targs(c)))
    return q, s, M


def eq(a, b):
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return T.eqterm(B(a), B(b))
    return cmp("==", a, b)


PUBLIC = {"safe", "facr", "facl", "fac1", "fac2", "nit", "thet", "fnewt", "tolst", "gustafssonTest", "nmax", "onlyOneStep", "quot1", "quot2", "sameTestValue", "uround", "atol", "rtol",
          "h", "naccpt", "nrejct", "njac", "nstep", "ndec", "nfonccalled", "newt", "firstAcceptedStep", "hlast", "nacc", "nrej", "nsteps", "funccal"}


def frame(s, o, before, skip, st=None):
    """settings, counters and tolerances outside skip are as before (scratch fields may change)"""
    for f, lv in s.ex.objs[o].n.items():
        if isinstance(lv, LCell) and f not in skip and f in PUBLIC:
            v = s.getf(o, f, st)
            if isinstance(v, Ptr):
                continue
            s.goal(eq(v, s.getf(o, f, before)), "%s is not changed" % f, **({"pc": st.pc} if st else {}))
        elif f in PUBLIC and not isinstance(lv, LCell) and hasattr(lv, "oid") and "x" in s.ex.objs[lv.oid].n:
            p = s.ex.load(before, s.ex.objs[lv.oid].n["x"])
            if isinstance(p, Ptr) and len(p.alts) == 1 and p.alts[0][1] in s.ex.regions:
                s.unchanged(p.alts[0][1], before, "vector " + f, st=st)


def setter(ast, cn, nm, fs, kind):
    q, s, M = obj(ast, cn)
    q.o = solver_object(s, q.c, M)
    a = [s.int("arg%d" % i) if kind == "int" else s.real("arg%d" % i) if kind == "real" else z3.Bool("arg%d" % i) for i in range(len(fs))]
    before = s.st.clone()
    s.run(method(ast, q.c, nm), q.o, *a)
    for f, v in zip(fs, a):
        s.goal(eq(s.getf(q.o, f), v), "%s holds the value given" % f)
    frame(s, q.o, before, fs)
    s.goal(not s.ex.throws, "no exception")
    return s


def defaults(ast, cn):
    q, s, M = obj(ast, cn)
    q.o = s.obj(q.c, "S")
    M.attach(q.o)
    ua, uaf = s.array("user_atol", N_)
    ur, urf = s.array("user_rtol", N_)
    s.st.assume(urf(z3.IntVal(0)) > 0)
    s.ctor(q.o, True, P(ua), P(ur))
    for f, v in DEFAULTS[cn].items():
        s.goal(eq(s.getf(q.o, f), v), "%s has its documented default" % f)
    return s


def fnewt(ast):
    q, s, M = obj(ast, "Radau5cc")
    q.o = solver_object(s, q.c, M)
    s.setf(q.o, "uround", UR)
    s.st.assume(s.getf(q.o, "tolst") > 0)
    v = s.real("arg")
    before = s.st.clone()
    lim = T.rdiv(UR, s.getf(q.o, "tolst"))
    s.run(method(ast, q.c, "setFnewt"), q.o, v)
    s.goal(len(s.ex.throws) == 1, "one place raises the exception")
    for th in s.ex.throws:
        s.goal(cmp("<=", v, lim), "the exception is raised only for an inadmissible threshold", pc=th["pc"])
        z = before.clone()
        z.mem, z.reg, z.pc = th["mem"], th["reg"], th["pc"]
        frame(s, q.o, before, (), st=z)
    s.goal(cmp(">", v, lim), "an inadmissible threshold raises the exception")
    s.goal(cmp("==", s.getf(q.o, "fnewt"), v), "fnewt holds the value given")
    frame(s, q.o, before, ("fnewt",))
    return s


def rock4set(ast):
    s, c, o = R4.build(ast)
    for f in ("told", "hlast", "atol", "rtol"):
        s.setf(o, f, s.real("old_" + f))
    for f in ("mdeg", "funccal", "nrej", "nsteps", "nacc", "nstagesmax"):
        s.setf(o, f, s.int("old_" + f))
    before = s.st.clone()
    a, r = s.real("a"), s.real("r")
    s.run(method(ast, c, "setTolerances"), o, a, r)
    s.goal(land(cmp("==", s.getf(o, "atol"), a), cmp("==", s.getf(o, "rtol"), r)), "the tolerances given are installed")
    frame(s, o, before, ("atol", "rtol"))
    return s


def rock4keep(ast):
    q = R4.timeloop(ast)
    s = q.s
    for f, v in (("atol", q.at), ("rtol", q.rt)):
        s.goal(s.field(q.o, f).cid not in q.rec["cells"], "an integration does not change %s" % f)
        s.goal(cmp("==", s.getf(q.o, f), v), "after an integration %s is the one given" % f)
    return s


def keep(q, names, entry, cells, final):
    s = q.s
    for f in names:
        lv = s.field(q.o, f)
        s.goal(lv.cid not in cells, "the steps do not change %s" % f)
        for st in (entry, final):
            if st is not None and not st.dead:
                s.goal(eq(q.fld(f, st), q.fld(f, q.before)), "an integration does not change %s" % f, pc=st.pc)


def radaukeep(ast, rhs):
    q = steploop(ast, rhs, wild=specs)
    s = q.s
    s.skipkinds = ("pre", "cut", "bound", "inv")
    names = ("safe", "facr", "facl", "nit", "thet", "fnewt", "tolst", "gustafssonTest", "nmax", "onlyOneStep", "quot1", "quot2", "sameTestValue")
    keep(q, names, q.outer["entry"], set(q.outer["cells"]), s.st)
    e = q.outer["entry"]
    s.goal(cmp("==", q.fld("cfac", e), mul(q.fld("safe", q.before), add(1, mul(2, R(q.nit))))), "the safety factor over iterations follows the settings in force", pc=e.pc)
    s.goal(s.field(q.o, "cfac").cid not in q.outer["cells"], "the steps do not change cfac")
    for z in q.outer["exits"] + [q.outer["back"]]:
        if not z.dead:
            for nm in ("atol", "rtol"):
                s.unchanged(vreg(q, nm), q.outer["begin"], nm, st=z)
    return s


def specs(q):
    class Z(L.SeqSpec):
        auto = unroll = False

        def __init__(self, name):
            self.name = name

        def inv(self, ex, st, entry):
            return []
    return {k: Z(k) for k in ("outer", "step", "newton")}


def rspecs(q):
    class Z(L.SeqSpec):
        auto = unroll = False

        def __init__(self, name):
            self.name = name

        def inv(self, ex, st, entry):
            return []
    return {"o": Z("outer"), "i": Z("inner")}


def rodaskeep(ast, rhs):
    q = RO.steploop(ast, rhs, wild=rspecs)
    s = q.s
    s.skipkinds = ("pre", "cut", "bound", "inv")
    keep(q, ("safe", "fac1", "fac2", "gustafssonTest", "nmax", "onlyOneStep", "sameTestValue"), q.outer["entry"], set(q.outer["cells"]), s.st)
    for z in q.outer["exits"] + [q.outer["back"]]:
        if not z.dead:
            for nm in ("atol", "rtol"):
                s.unchanged(vreg(q, nm), q.outer["begin"], nm, st=z)
    return s


_C = "common/include"
_L = ["-llapack", "-lblas"]
DRIVERS = [dict(src="C24r.cc", name="C24r", incs=[_C, "Radau5-NG/include"], libs=_L), dict(src="C24o.cc", name="C24o", incs=[_C, "Rodas-NG/include"], libs=_L),
           dict(src="C24k.cc", name="C24k", flags=["-DALIGN_BLOCKED"], incs=[_C, "Rock4-NG/include"])]
