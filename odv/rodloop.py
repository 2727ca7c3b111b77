"""Rodascc::operator(): contracts of the step loop. decomr/solvereal stand as their
contracts (C04), the numerical Jacobian as its contract (C05), user functions are
events of arbitrary value; the coefficients are arbitrary (their values: C29)."""
from .spec import *
from .mats import *
from .user import *
from .r4loop import cellsof, Loop, logev
from . import loops as L

NMAP = {1009: N_, 2018: 2 * N_, 1008: N_ - 1, 13: KL, 17: KU}
UR = Fraction(1, 10**16)
CO = ["A21", "A31", "A32", "A41", "A42", "A43", "A51", "A52", "A53", "A54", "C21", "C31", "C32", "C41", "C42", "C43", "C51", "C52", "C53", "C54",
      "C61", "C62", "C63", "C64", "C65", "GAMMA", "C2", "C3", "C4", "D1", "D2", "D3", "D4"]


def rodas_ast(*flags):
    from .ast import AST, VERIF
    return AST(VERIF + "/harness/rodas.cc", flags=["-I", VERIF + "/harness"] + list(flags))


def mx(a, b):
    return ite(cmp(">", a, b), a, b)


def mn(a, b):
    return ite(cmp("<", a, b), a, b)


def absv(x):
    return ite(cmp(">=", x, 0), x, neg(x))


def setup(ast, rhs):
    q = RLoop()
    band = rhs.endswith("B")
    facts = [N_ >= 1] + ([KL >= 0, KU >= 0, KL < N_, KU < N_] if band else [])
    s = Session(ast, nmap=NMAP, facts=facts)
    M = Mats(s, kl=KL if band else N_ - 1, ku=KU if band else N_ - 1)
    q.s, q.M = s, M
    s.splits = True
    q.u = User(s, [rhs], M)
    q.c = s.cls("Rodascc", lambda c: any(rhs in str(a) for a in ast.targs(c)))
    q.o = solver_object(s, q.c, M)
    q.band = band
    q.aut = rhs in ("odes_RhsA3", "odes_RhsA9")
    q.usedft = rhs == "odes_RhsA2"
    q.num = rhs in ("odes_RhsF", "odes_RhsB")
    return q


class RLoop(Loop):
    def vreg(self, name):
        return vreg(self, name, self.before)

    def reg(self, name):
        """storage of the local vector `name` of operator()"""
        if name not in self.loc:
            raise Missing("local vector " + name)
        return self.loc[name]

    def result(self, st, k):
        """the solution after the loop, in the final state"""
        ex = self.s.ex
        r = self.reg("Y")
        return ex.content(st, r).read((k,), ex.decider(st))

    def inner_entry(self):
        return self.inner["entry"]


def vreg(q, name, st=None):
    """(region of vector member `name`, its content function)"""
    ex = q.s.ex
    p = ex.load(st or q.s.st, ex.objs[ex.objs[q.o].n[name].oid].n["x"])
    if not isinstance(p, Ptr) or len(p.alts) != 1:
        raise Unsupported("ambiguous storage of " + name)
    return p.alts[0][1]


def contracts(q, log=False):
    s, ex, M = q.s, q.s.ex, q.M
    J = ex.objs[q.o].n["Jac"].oid
    q.jrid = M.ghost(s.st, J)[0][0]

    def numjac(ex, st, this, args, e):
        t = ex.ev(args[0], st)
        ys, fs = ex.ev(args[1], st), ex.ev(args[2], st)
        y = snap(ex, st, *vec_region(ex, st, ys.oid), N_)
        fy = snap(ex, st, *vec_region(ex, st, fs.oid), N_)
        f = T.freshfun("Jnum", 2, "real")
        st.reg[q.jrid] = Base(f, "real")
        st.events = st.events + ((True, Event("NJ", t=R(t), y=y, fy=fy, out=f)),)

    def decomr(ex, st, this, args, e):
        f = ex.conv(ex.ev(args[0], st), "double")
        m = ex.lv(args[1], st).oid
        rid = M.ghost(st, m)[0][0]
        st.events = st.events + ((True, Event("decomr", fac=R(f), mat=ex.content(st, rid), own=(m == J), calhes=s.getf(q.o, "calhes", st))),)
        s.setf(q.o, "calhes", False) if False else ex.assign(st, s.field(q.o, "calhes"), False)

    def solvereal(ex, st, this, args, e):
        v = ex.lv(args[0], st).oid
        r, off = vec_region(ex, st, v)
        rhs = snap(ex, st, r, off, N_)
        f = T.freshfun("sol", 1, "real")
        st.events = st.events + ((True, Event("solve", rhs=rhs, out=f, rid=r)),)
        q.u.put(st, r, off, f)
    for cn in ("Rodascc", "Matrices"):
        ex.contracts[(cn, "decomr")] = decomr
        ex.contracts[(cn, "solvereal")] = solvereal
    old = ex.contracts.get(("Rodascc", "Jacobian"))
    ex.contracts[("Rodascc", "Jacobian")] = numjac
    if log:
        for nm in ("put", "clear"):
            ex.contracts[("logger", nm)] = lambda ex, st, this, args, e, nm=nm: logev(ex, st, nm, [ex.ev(a, st) for a in args])


def steploop(ast, rhs, log=False, onestep=None, gus=None, wild=None):
    q = setup(ast, rhs)
    s, ex = q.s, q.s.ex
    contracts(q, log)
    s.setf(q.o, "uround", UR)
    s.setf(q.o, "fac1", 5)
    s.setf(q.o, "fac2", Fraction(1, 6))
    q.safe = s.real("safe")
    s.setf(q.o, "safe", q.safe)
    q.nmax = s.int("nmax")
    s.setf(q.o, "nmax", q.nmax)
    q.gus = s.getf(q.o, "gustafssonTest")
    q.one = s.getf(q.o, "onlyOneStep")
    q.co = {k: s.getf(q.o, k) for k in CO}
    q.atol, q.rtol = vreg(q, "atol"), vreg(q, "rtol")
    q.y, q.yf = s.array("yuser", N_)
    xv = ex.new_var(s.st, "double", "xuser")
    q.x0, q.h0, q.xe = s.real("x0"), s.real("h_in"), s.real("xend")
    s.st.mem[xv.cid] = q.x0
    q.xv = xv
    ex.wild = wild is not None
    if not wild:
        s.st.assume(q.safe > 0)
        s.st.assume(q.safe <= 1)
        s.st.assume(q.co["GAMMA"] > 0)
    q.before = s.st.clone()
    q.inner = q.outer = None
    fld = q.fld
    x = lambda st: st.mem[xv.cid]

    class Outer(L.SeqSpec):
        unroll = False

        def inv(self, ex, st, entry):
            q.ocid = cellsof(ex, st)
            pn = fld("posneg", st)
            return [("direction", lor(cmp("==", pn, 1), cmp("==", pn, -1))),
                    ("hmaxn", land(cmp(">", fld("hmaxn", st), 0), cmp(">=", fld("hmaxn", st), mul(pn, sub(q.xe, x(st)))))),
                    ("time is before the end, or the end was reached", cmp(">=", mul(pn, sub(q.xe, x(st))), 0)),
                    ("the end is reached exactly when the last step is accepted", T.eqterm(B(fld("last", st)), B(cmp("==", x(st), q.xe)))),
                    ("not rejecting", lnot(fld("reject", st))),
                    ("end time kept", cmp("==", fld("xend", st), q.xe))]

    class Inner(L.SeqSpec):
        unroll = False

        def inv(self, ex, st, entry):
            q.icid = cellsof(ex, st)
            q.loc = {}
            for did, lv in ex.frames[0].env.items():
                if isinstance(lv, LObj) and "x" in ex.objs[lv.oid].n:
                    q.loc[ast.byid[did].get("name")] = vec_region(ex, st, lv.oid)[0]
            pn = fld("posneg", st)
            return [("step points to the end", cmp(">", mul(pn, fld("h", st)), 0)),
                    ("hmaxn", land(cmp(">", fld("hmaxn", st), 0), cmp(">=", fld("hmaxn", st), mul(pn, sub(q.xe, x(st)))))),
                    ("step does not pass the end", cmp("<=", mul(pn, fld("h", st)), mul(pn, sub(q.xe, x(st))))),
                    ("last step reaches the end", T.eqterm(B(fld("last", st)), B(cmp("==", fld("h", st), sub(q.xe, x(st))))))]
    sp = {"o": Outer(), "i": Inner()}
    if wild:
        sp = wild(q)

    def which(node, st):
        if len(ex.frames) != 1:
            return None
        k = node.get("kind")
        if k == "WhileStmt":
            return sp["o"]
        if k == "DoStmt":
            return sp["i"]
        return None
    ex.seqspec = which
    fn = method(ast, q.c, "operator()", nparams=4)
    s.run(fn, q.o, q.h0, xv, q.xe, P(q.y))
    recs = [r for r in ex.records if r.get("kind") == "loop" and r["depth"] == 1]
    q.recs = recs
    if len(recs) != 2:
        raise Unsupported("step loops not recognised (%d)" % len(recs))
    q.inner = [r for r in recs if r["nest"] == max(z["nest"] for z in recs)][0]
    q.outer = [r for r in recs if r is not q.inner][0]
    ex.weak = None
    return q
