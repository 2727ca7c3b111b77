"""C17 SDIRK step."""
import z3
from odv.spec import *
from odv.ast import params
from odv.user import snap, _same, User
NOTE = """Constructor and both step() members of Sdirkl are proved for each of the five shipped tableaux, symbolic size, step and operator: the operator is initialised once with (n, dt*gamma); stage i asks the operator for X_i with gamma*X_i = S_i*u + sum_{j<=i} a_ij z_j (so that z_i = dt*A(S_i u + sum a_ij z_j) [+ S_i dt phi] by the operator's contract), the result is u + sum d_i z_i with the tableau's D; the forcing is unchanged, and the step of the wrong mode raises GenericException before anything is written. With C18 (S_i = row sums, D = b A^-1) this is the Runge-Kutta step of the tableau. The contract of the user's operator (it inverts I-dt*gamma*A, does not keep or modify its input) is assumed; exact arithmetic."""
ASSUMPTIONS = ["the operator's apply(in,out) leaves in out the solution X of (I-dt*gamma*A)X=in for a linear A and does not modify in"]
METH = ("RKMethod1", "RKMethod2", "RKRS", "CrN", "EulerImp")


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/sdirk.cc", incs=["common/include", "SDIRKL/include", "SDIRKL/test/Lapl"])
    for m in METH:
        for aff in (False, True):
            V.contract("Sdirkl<%s> %s step" % (m, "affine" if aff else "linear"), step, ast, m, aff)
            V.contract("Sdirkl<%s> %s: wrong mode" % (m, "affine" if aff else "linear"), wrong, ast, m, aff)


def build(ast, m, aff):
    s = Session(ast)
    ex = s.ex
    u = User(s, [])
    c = s.cls("Sdirkl", lambda c: any(str(a).split("::")[-1] == m for a in ast.targs(c)))
    applies = []
    inits = []

    def init(ex, st, this, args, e):
        inits.append((ex.ev(args[0], st), ex.ev(args[1], st), st.pc))

    def apply(ex, st, this, args, e):
        ri, oi = u.one(ex.ev(args[0], st), "operator input")
        ro, oo = u.one(ex.ev(args[1], st), "operator output")
        ex.bound(st, ri, (add(oi, sub(N_, 1)),), "operator reads")
        ex.bound(st, ro, (add(oo, sub(N_, 1)),), "operator writes")
        if ri == ro and _same(oi, oo):
            ex.oblige(st, False, "the operator is not asked to write into the vector it reads", "pre")
        w = snap(ex, st, ri, oi, N_)
        f = T.freshfun("X", 1, "real")
        u.put(st, ro, oo, f)
        applies.append((w, f, (ro, oo), st.pc))
    ex.ext[("odes_OpL", "init")] = init
    ex.ext[("odes_OpL", "apply")] = apply
    dt = s.real("dt")
    o = s.obj(c, "S")
    s.ctor(o, N_, dt, aff)
    return s, c, o, dt, inits, applies


def tab(s, o):
    """the tableau as the object holds it after construction"""
    rk = s.ex.objs[s.field(o, "RK").oid]
    out = {}
    for nm in "ASD":
        lv = rk.n[nm]
        out[nm] = lv
    dims = out["A"].dims
    ns = dims[0]

    def rd(nm, k):
        return s.ex.content(s.st, out[nm].rid).read((k,), s.ex.decider(s.st))
    return ns, (lambda i, j: rd("A", i * ns + j)), (lambda i: rd("S", i)), (lambda i: rd("D", i))


def step(ast, m, aff):
    s, c, o, dt, inits, applies = build(ast, m, aff)
    ex = s.ex
    ns, A_, S_, D_ = tab(s, o)
    gam = A_(0, 0)
    s.goal(len(inits) == 1, "the operator is initialised once")
    if inits:
        s.goal(cmp("==", inits[0][0], N_), "operator initialised with the size")
        s.goal(cmp("==", inits[0][1], mul(dt, gam)), "operator initialised with dt*gamma")
    fn = [f for f in allmethods(ast, c, "step") if len(params(f)) == (2 if aff else 1)]
    if not fn:
        raise Missing("step")
    for call in ("first", "later"):
        del applies[:]
        u, uf = s.array("u", N_)
        if aff:
            ph, pf = s.array("phi", N_)
        before = s.st.clone()
        nthrow = len(ex.throws)
        s.run(fn[0], o, P(u), *([P(ph)] if aff else []))
        s.goal(len(ex.throws) == nthrow, call + " step: the step of the right mode does not throw")
        s.goal(len(applies) == ns, call + " step: one operator call per stage")
        if len(applies) != ns:
            return s
        for w, f, (ro, oo), pc in applies:
            s.goal(land(*pc) if pc else True, call + " step: every stage is computed")
        if aff:
            s.unchanged(ph, before, call + " step: the forcing")
        k = s.int("k")
        st = s.st.clone()
        st.assume(k >= 0)
        st.assume(k < N_)
        z = []
        for i, (w, f, ro, pc) in enumerate(applies):
            # by the operator's contract dt*gamma*A X = X - W
            zi = sub(f(k), w.at(k))
            if aff:
                zi = add(zi, mul(mul(S_(i), dt), pf(k)))
            z.append(zi)
            arg = mul(S_(i), uf(k))
            for j in range(i + 1):
                arg = add(arg, mul(A_(i, j), z[j]))
            s.goal(cmp("==", mul(gam, f(k)), arg), "%s step: stage %d solves z = dt*A(S u + sum a_ij z_j)%s" % (call, i + 1, " + S dt phi" if aff else ""), pc=st.pc)
        res = uf(k)
        for i in range(ns):
            res = add(res, mul(D_(i), z[i]))
        s.goal(cmp("==", s.read(u, k, st=st), res), call + " step: the result is u + sum d_i z_i", pc=st.pc)
    return s


def wrong(ast, m, aff):
    s, c, o, dt, inits, applies = build(ast, m, aff)
    fn = [f for f in allmethods(ast, c, "step") if len(params(f)) == (1 if aff else 2)]
    if not fn:
        raise Missing("step")
    u, uf = s.array("u", N_)
    ph, pf = s.array("phi", N_)
    before = s.st.clone()
    s.run(fn[0], o, P(u), *([] if aff else [P(ph)]))
    s.goal(s.st.dead, "the step of the other mode never returns")
    s.goal(len(s.ex.throws) == 1 and "GenericException" in str(s.ex.throws[0]["what"]), "GenericException is raised")
    s.goal(not applies, "the operator is not called")
    return s


DRIVERS = [dict(src="C17.cc", name="C17", flags=["-fsanitize=address,undefined"], incs=["common/include", "SDIRKL/include", "SDIRKL/test/Lapl"])]
