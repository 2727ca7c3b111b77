"""C05 numerical Jacobian."""
import z3
from odv.spec import *
from odv.mats import *
from odv.user import *
NOTE = """Radau5cc::Jacobian and Rodascc::Jacobian are proved for symbolic order n and bandwidths: one evaluation per column, each at the given time with exactly component j increased by sqrt(1e-16*max(1e-5,|y_j|)); every structure entry of column j is (F_i(t,y+delta e_j)-Fy_i)/delta; y is restored and entries outside the structure are untouched. That the callers pass F(t,y) as base value is part of the step contracts of C07/C10. Exact arithmetic assumed."""
NMAP = {1009: N_, 2018: 2 * N_, 1008: N_ - 1, 13: KL, 17: KU}


def setup(ast, cname, rhs, band):
    facts = [N_ >= 1] + ([KL >= 0, KU >= 0, KL < N_, KU < N_] if band else [])
    s = Session(ast, nmap=NMAP, facts=facts)
    M = Mats(s, kl=KL if band else N_ - 1, ku=KU if band else N_ - 1)
    u = User(s, [rhs], M)
    c = s.cls(cname, lambda c: any(rhs in str(a) for a in ast.targs(c)))
    return s, M, u, c


def run(V):
    from odv.ast import AST, VERIF
    for cname, h in (("Radau5cc", "radau"), ("Rodascc", "rodas")):
        ast = AST(VERIF + "/harness/%s.cc" % h, flags=["-I", VERIF + "/harness"])
        for rhs, band in (("odes_RhsF", False), ("odes_RhsB", True)):
            V.contract("%s::Jacobian (%s)" % (cname, "banded" if band else "full"), jac, ast, cname, rhs, band)


def jac(ast, cname, rhs, band):
    s, M, u, c = setup(ast, cname, rhs, band)
    ex = s.ex
    o = solver_object(s, c, M)
    ex.assign(s.st, s.field(o, "uround"), Fraction(1, 10**16))
    vc = s.cls("fortranVector")
    y, yr, yf = vec(s, vc, "y")
    fy, fr, ff = vec(s, vc, "Fy")
    t = s.real("t")
    before = s.st.clone()
    s.solver, s.before_ = o, before
    J = ex.objs[o].n["Jac"].oid
    jr, jf = M.ghost(s.st, J)[0]
    fn = method(ast, c, "Jacobian", nparams=3)
    s.run(fn, o, t, ObjV(y), ObjV(fy))
    evs = s.st.events[len(before.events):]
    if len(evs) != 1 or evs[0][1].kind != "loop":
        raise Unsupported("column loop not recognised")
    le = evs[0][1]
    s.goal(cmp("==", le.N, N_), "one evaluation per column")
    if len(le.evs) != 1 or le.evs[0][1].kind != "F":
        raise Unsupported("evaluations in the column loop")
    g, ev = le.evs[0]
    s.goal(g, "every column is evaluated")
    out = ev.out[1].name() + "@"
    # entry (i,j): which evaluation does it use
    i, j = s.int("i"), s.int("j")
    s2 = s.st.clone()
    for a in M.admissible(i, j, band):
        s2.assume(a)
    v = ex.content(s2, jr).read((i, j), ex.decider(s2))
    ap = apps(R(v), {out})
    if len(ap) != 1:
        s.goal(z3.BoolVal(False), "entry (i,j) is a difference quotient of one evaluation", pc=s2.pc)
        return s
    it, row = ap[0].arg(0), ap[0].arg(1)
    s.goal(land(it >= 0, it < I(le.N)), "entry (i,j) uses an evaluation of the loop", pc=s2.pc)
    s.goal(cmp("==", row, i - 1), "entry (i,j) uses component i", pc=s2.pc)
    at = lambda e: T.subst(R(e) if not T.ispy(e) else e, [(le.I, it)]) if isinstance(e, z3.ExprRef) else e
    s.goal(cmp("==", at(ev.t), t), "evaluated at the current time", pc=s2.pc)
    ay = T.absv(yf(j - 1))
    mx = T.ite(cmp(">", R(Fraction(1, 100000)), ay), R(Fraction(1, 100000)), ay)
    delt = T.sqrt(mul(Fraction(1, 10**16), mx))
    k = s.int("k")
    s3 = s2.clone()
    for a in (k >= 1, k <= N_):
        s3.assume(a)
    yk = T.subst(R(ev.y.at(k - 1)), [(le.I, it)])
    p1, p2 = s3.clone(), s3.clone()
    p1.assume(k == j)
    p2.assume(k != j)
    s.goal(cmp("==", z3.substitute(yk, (k, j)), add(yf(j - 1), delt)), "component j is increased by sqrt(1e-16*max(1e-5,|y_j|))", pc=s2.pc)
    s.goal(cmp("==", yk, yf(k - 1)), "the other components are not perturbed", pc=p2.pc)
    s.goal(cmp("==", mul(v, delt), sub(ap[0], ff(i - 1))), "entry (i,j) is the difference quotient", pc=s2.pc + (B(delt > 0),))
    s.unchanged(yr, before, "the solution y")
    s.unchanged(fr, before, "the base value")
    return s


DRIVERS = [dict(src="C05.cc", name="C05", flags=["-fsanitize=address,undefined"], libs=["-llapack", "-lblas"])]
