"""C06 tolerances given are the ones applied."""
import z3
from odv.radloop import *
from odv import rodloop as RO
from props.C07 import View
NOTE = """setTestPolicy and the constructors of Radau5cc and Rodascc are executed symbolically for arbitrary positive tolerances given in arrays of exactly one element (scalar policy) or n elements (vector policy): every access to the user's arrays is inside them, afterwards component i of the stored tolerances is, for Radau5, rtol'=0.1*rtol^(2/3) and atol'=rtol'*atol/rtol of the first (i-th) entry, for Rodas the first (i-th) entry itself; nothing else of the solver's settings changes except the Newton threshold and its reference, which follow from the first component. Radau5: the weight of component i is atol'(i)+rtol'(i)*|y(i)| for the current solution in every loop iteration (established before the integration, preserved by every iteration of the integration and retry loops taken from an arbitrary state); the increments of the iteration and the error estimate are divided by these weights (contracts of NewtonIterationTest and estrad, C08). No step changes the stored tolerances. Rodas: the error of an arbitrary step is the weighted root mean square with atol_i+rtol_i*max(|Y_i|,|Ynew_i|). Reals. The drivers recompute the decisions of real integrations with widely different tolerances per component, the arrays having exactly the documented size (AddressSanitizer) and being released after the call."""
ASSUMPTIONS = ["factorisations, solves and numerical Jacobian stand as their contracts (C02-C05)", "doubles treated as reals", "the loop invariants of Radau5cc::operator() (discharged by the checks of C07 and C09)", "0 < safe < 1, 0 < facr < 1 < facl, at least one Newton iteration allowed", "tolerances are positive"]


def run(V):
    for same in (True, False):
        for ctor in (True, False):
            V.contract("Radau5 policy, %s, %s" % ("scalar" if same else "vector", "constructor" if ctor else "setter"), radau, radau_ast(), same, ctor)
            V.contract("Rodas policy, %s, %s" % ("scalar" if same else "vector", "constructor" if ctor else "setter"), rodas, RO.rodas_ast(), same, ctor)
    V.contract("Radau5 weights", weights, radau_ast())
    V.contract("Rodas weights", rweights, RO.rodas_ast())


def policy(ast, cn, rhs, same, ctor):
    q = RadLoop()
    s = Session(ast, nmap=NMAP, facts=[N_ >= 1])
    M = Mats(s, kl=N_ - 1, ku=N_ - 1)
    q.s, q.M = s, M
    s.splits = True
    q.c = s.cls(cn, lambda c: any(rhs in str(a) for a in ast.targs(c)))
    one = 1 if same else N_
    if ctor:
        q.o = s.obj(q.c, "S")
        M.attach(q.o)
    else:
        q.o = solver_object(s, q.c, M)
        s.setf(q.o, "uround", UR)
    q.ua, q.uaf = s.array("user_atol", one)
    q.ur, q.urf = s.array("user_rtol", one)
    i = s.int("i")
    s.st.assume(i >= 1)
    s.st.assume(i <= N_)
    q.i = i
    e = 0 if same else sub(i, 1)
    q.A, q.R = q.uaf(e), q.urf(e)
    s.st.assume(q.R > 0)
    s.st.assume(q.A > 0)
    s.st.assume(q.urf(z3.IntVal(0)) > 0)
    q.before = s.st.clone()
    if ctor:
        s.ctor(q.o, same, P(q.ua), P(q.ur))
    else:
        s.run(method(ast, q.c, "setTestPolicy"), q.o, same, P(q.ua), P(q.ur))
    q.rd = lambda nm: s.ex.content(s.st, vreg(q, nm)).read((sub(i, 1),), s.ex.decider(s.st))
    for nm, r, f in (("atol", q.ua, q.uaf), ("rtol", q.ur, q.urf)):
        k = s.int("k" + nm)
        u = s.st.clone()
        u.assume(k >= 0)
        u.assume(k < one)
        s.goal(cmp("==", s.ex.content(s.st, r).read((k,), s.ex.decider(u)), f(k)), "the user's %s array is not changed" % nm, pc=u.pc)
    s.goal(T.eqterm(B(s.getf(q.o, "sameTestValue")), B(same)), "the policy is remembered")
    return q


def frame(q, skip):
    """every scalar setting and counter outside skip is as before"""
    s, ex = q.s, q.s.ex
    for f, lv in ex.objs[q.o].n.items():
        if isinstance(lv, LCell) and f not in skip:
            a, b = s.getf(q.o, f, q.before), s.getf(q.o, f)
            s.goal(T.eqterm(B(a), B(b)) if isinstance(b, (bool, z3.BoolRef)) else cmp("==", a, b), "%s is not changed" % f)


def radau(ast, same, ctor):
    q = policy(ast, "Radau5cc", "odes_RhsA", same, ctor)
    s = q.s
    r = mul(Fraction(1, 10), T.power(q.R, Fraction(2, 3)))
    got = q.rd("rtol")
    s.goal(cmp("==", got, r), "rtol'(i) = 0.1*rtol^(2/3) of the entry that applies")
    s.goal(cmp("==", q.rd("atol"), T.rdiv(mul(r, q.A), q.R)), "atol'(i) = rtol'(i)*atol/rtol of the entry that applies")
    r1 = mul(Fraction(1, 10), T.power(q.urf(z3.IntVal(0)), Fraction(2, 3)))
    s.goal(cmp("==", s.getf(q.o, "tolst"), r1), "the reference of the Newton threshold is the first relative tolerance")
    s.goal(cmp("==", s.getf(q.o, "fnewt"), mx(T.rdiv(10 * UR, r1), mn(Fraction(3, 100), T.sqrt(r1)))), "the Newton threshold follows the tolerance")
    if not ctor:
        frame(q, ("sameTestValue", "tolst", "fnewt"))
    return s


def rodas(ast, same, ctor):
    q = policy(ast, "Rodascc", "odes_RhsA1", same, ctor)
    s = q.s
    s.goal(cmp("==", q.rd("rtol"), q.R), "rtol(i) is the entry that applies")
    s.goal(cmp("==", q.rd("atol"), q.A), "atol(i) is the entry that applies")
    if not ctor:
        frame(q, ("sameTestValue",))
    return s


def weights(ast):
    q = steploop(ast, "odes_RhsA")
    s, ex = q.s, q.s.ex
    k = s.int("k")

    def goal(st, what):
        if st is None or st.dead:
            return
        v = View(q, st, k)
        s.goal(cmp("==", v.reg(q.scal), add(v.reg(q.atol), mul(v.reg(q.rtol), absv(v.reg(q.y))))), what, pc=v.pc)

    def tols(a, b, what):
        if b is None or b.dead:
            return
        v, w = View(q, a, k), View(q, b, k)
        s.goal(land(cmp("==", v.reg(q.atol), w.reg(q.atol)), cmp("==", v.reg(q.rtol), w.reg(q.rtol))), what, pc=w.pc)
    goal(q.outer["entry"], "weights are those of the first solution")
    goal(q.outer["back"], "weights follow the solution after a step")
    goal(q.inner["entry"], "weights stay those of the solution before a step")
    if not q.inner["back"].dead:
        goal(q.inner["back"], "weights stay those of the solution when a step is retried")
    for e in q.inner["exits"]:
        goal(e, "weights stay those of the solution when the iteration converged")
    goal(q.newton["entry"], "weights stay those of the solution before iterating")
    for z in q.newton["exits"] + [q.newton["back"]]:
        if not z.dead:
            v, w = View(q, q.newton["begin"], k), View(q, z, k)
            s.goal(cmp("==", v.reg(q.scal), w.reg(q.scal)), "iterating does not change the weights", pc=w.pc)
            tols(q.newton["begin"], z, "iterating does not change the tolerances")
    tols(q.before, q.outer["entry"], "starting an integration does not change the tolerances")
    tols(q.outer["begin"], q.outer["back"], "a step does not change the tolerances")
    tols(q.inner["begin"], q.inner["back"], "a retry does not change the tolerances")
    for f in ("tolst", "sameTestValue"):
        lv = s.field(q.o, f)
        s.goal(lv.cid not in q.outer["cells"], "an integration does not change %s" % f)
    return s


def rweights(ast):
    from props.C11 import weighted
    q = RO.steploop(ast, "odes_RhsA1")
    s, ex = q.s, q.s.ex
    b, back = q.inner["begin"], q.inner["back"]
    exs = [x for x in q.inner["exits"] if not x.dead]
    ev = [x for g, x in (exs + [back])[0].events]
    if [x.kind for x in ev] != ["decomr", "solve"] + ["F", "solve"] * 5:
        raise Unsupported("step not recognised")
    Yr = q.reg("Y")
    y = lambda t, i: ex.content(b, Yr).read((i,), ex.decider(t))
    ynew = lambda t, i: add(ev[-2].y.at(i), ev[-1].out(i))
    err = T.sqrt(T.rdiv(weighted(q, b, ev[-1].out, ynew, y), R(N_)))
    for st in exs:
        s.goal(cmp("<=", err, 1), "accepted only if the error weighted by the tolerances is at most one", pc=st.pc)
    if not back.dead:
        s.goal(cmp(">", err, 1), "rejected only if the error weighted by the tolerances exceeds one", pc=back.pc)
    k = s.int("k")
    for st in exs + [back]:
        if st.dead:
            continue
        v = st.clone()
        v.assume(k >= 0)
        v.assume(k < N_)
        for nm, r in (("atol", q.atol), ("rtol", q.rtol)):
            r = r[0] if isinstance(r, tuple) else r
            s.goal(cmp("==", ex.content(b, r).read((k,), ex.decider(v)), ex.content(st, r).read((k,), ex.decider(v))), "a step does not change %s" % nm, pc=v.pc)
    return s


INCR = ["common/include", "Radau5-NG/include"]
INCO = ["common/include", "Rodas-NG/include"]
AS = dict(env={"ASAN_OPTIONS": "detect_leaks=0"}, libs=["-llapack", "-lblas"])
DRIVERS = [dict(src="C06r.cc", name="C06r", flags=["-fsanitize=address"], incs=INCR, **AS),
           dict(src="C06o.cc", name="C06o", flags=["-fsanitize=address"], incs=INCO, **AS)]
