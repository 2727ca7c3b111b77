"""C04 Hessenberg option."""
import z3
from odv.spec import *
from odv.mats import *
NOTE = """Proved for symbolic order n: each elimination step of dech/dechc (partial pivoting, multiplier, row operation, singularity result), each substitution step of solh/solhc, each Householder reflection (value, order of application) and, for class Matrices<true,true>, that the Jacobian is reduced exactly once per new Jacobian, that fac1*I-H resp. (alpha+i*beta)I-H is what is factorised, that solves use matching factors, pivots and reflectors in the right order, and that a singular matrix raises. The composition of the step contracts into 'x solves the system' is the standard induction over steps (not mechanised) and is exercised by the driver, which checks residuals. LAPACK dgehrd is an assumed contract."""
ASSUMPTIONS = ["LAPACK dgehrd_ reduces its matrix to Hessenberg form Q^T A Q with the reflectors it stores (assumed contract)", "induction over elimination/substitution steps composes the proved one-step contracts (meta argument)"]
NMAP = {1009: N_, 2018: 2 * N_, 1008: N_ - 1}


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/hess.cc")

    def sess(paths=None, extra=()):
        s = Session(ast, nmap=NMAP, facts=[N_ >= 1] + list(extra))
        s.ex.paths = paths
        M = Mats(s)
        s.kinds = ("post", "frame")
        return s, M

    def mat(s, M, name):
        o = s.obj(s.cls("fortranArray"), name)
        r, f = M.ghost(s.st, o)[0]
        return o, r, f

    def vecF(s, name):
        o = s.obj(s.cls("fortranVectorF"), name)
        rid, f = s.array(name, N_)
        for fld in ("x", "y"):
            if fld in s.ex.objs[o].n:
                s.setf(o, fld, P(rid))
        s.setf(o, "size", N_)
        s.setf(o, "deletable", False)
        return o, rid, f

    def loops_of(s, name):
        """records of sequential loops executed directly in function `name`, outermost"""
        return [r for r in s.ex.records if r.get("kind") == "loop" and r["fn"].split("/")[-1] == name]

    def retgoals(s, rec, ret, entry, nm):
        done = land(cmp("==", rec["I"], N_ - 1), cmp("!=", entry, 0))
        s.goal(z3.Implies(B(cmp("==", ret, 0)), B(done)), nm + ": 0 is returned only when every pivot is nonzero")
        s.goal(z3.Implies(B(done), B(cmp("==", ret, 0))), nm + ": 0 is returned when every pivot is nonzero")

    # ---------------------------------------------------------------- dech
    def dech(paths):
        s, M = sess(paths)
        s.st.assume(N_ >= 2)
        o, r, f = mat(s, M, "A")
        ip, ipf = s.array("ip", N_, "int")
        fn = function(ast, "dech")
        ret = s.run(fn, None, LObj(o), P(ip))
        recs = loops_of(s, "dech")
        if len(recs) != 1 or recs[0]["I"] is None:
            raise Unsupported("elimination loop not recognised")
        rec = recs[0]
        s.ex.weak = None
        k = rec["I"] + 1
        b, e = rec["begin"], rec["back"]
        s.goal(cmp("==", rec["N"], N_ - 1), "dech: one elimination step per column", pc=())

        def rd(st, i, j):
            return s.ex.content(st, r).read((i, j), s.ex.decider(st))
        for kind, st in [("step", e)] + [("break", x) for x in rec["breaks"]]:
            if st.dead:
                continue
            p = s.ex.content(st, ip).read((k - 1,), s.ex.decider(st))
            for cand, oth in ((k, k + 1), (k + 1, k)):
                t = st.clone()
                t.assume(cmp("==", p, cand))
                if t.dead:
                    continue
                pc0 = t.pc
                A = lambda i, j: rd(b, i, j)
                piv, low = A(cand, k), A(oth, k)
                s.goal(cmp(">=", T.absv(piv), T.absv(low)), "dech: partial pivoting chooses the larger entry", pc=pc0)
                if kind == "break":
                    s.goal(cmp("==", piv, 0), "dech: stops early only on a zero pivot", pc=pc0)
                    continue
                s.goal(cmp("!=", piv, 0), "dech: continues only with a nonzero pivot", pc=pc0)
                mult = rd(t, k + 1, k)
                s.goal(cmp("==", rd(t, k, k), piv), "dech: pivot stored on the diagonal", pc=pc0)
                s.goal(cmp("==", add(low, mul(mult, piv)), 0), "dech: multiplier eliminates the subdiagonal entry", pc=pc0 + (B(cmp("!=", piv, 0)),))
                j = s.int("j")
                for g in (j > k, j <= N_):
                    t.assume(g)
                s.goal(cmp("==", rd(t, k, j), A(cand, j)), "dech: row k of later columns", pc=t.pc)
                s.goal(cmp("==", rd(t, k + 1, j), add(A(oth, j), mul(mult, A(cand, j)))), "dech: row k+1 of later columns", pc=t.pc)
                i = s.int("i")
                t2 = st.clone()
                t2.assume(cmp("==", p, cand))
                for g in (i >= 1, i <= N_, i != k, i != k + 1, j >= 1, j <= N_):
                    t2.assume(g)
                s.goal(cmp("==", rd(t2, i, j), A(i, j)), "dech: other rows untouched", pc=t2.pc)
                t3 = st.clone()
                t3.assume(cmp("==", p, cand))
                for g in (i >= 1, i <= N_, j >= 1, j < k):
                    t3.assume(g)
                s.goal(cmp("==", rd(t3, i, j), A(i, j)), "dech: finished columns untouched", pc=t3.pc)
                q = s.int("q")
                t4 = st.clone()
                t4.assume(cmp("==", p, cand))
                for g in (q >= 0, q < N_ - 1, q != k - 1):
                    t4.assume(g)
                s.goal(cmp("==", s.ex.content(t4, ip).read((q,), s.ex.decider(t4)), s.ex.content(b, ip).read((q,), s.ex.decider(b))), "dech: other pivots untouched", pc=t4.pc)
            w = st.clone()
            s.goal(lor(cmp("==", p, k), cmp("==", p, k + 1)), "dech: pivot row is k or k+1", pc=w.pc)
        retgoals(s, rec, ret, rd(s.st, N_, N_), "dech")
        return s
    V.contract("dech", lambda: explore(dech))

    # ---------------------------------------------------------------- dechc
    def dechc(paths):
        s, M = sess(paths)
        s.st.assume(N_ >= 2)
        o, r, f = mat(s, M, "Ar")
        o2, r2, f2 = mat(s, M, "Ai")
        ip, ipf = s.array("ip", N_, "int")
        ret = s.run(function(ast, "dechc"), None, LObj(o), LObj(o2), P(ip))
        recs = loops_of(s, "dechc")
        if len(recs) != 1 or recs[0]["I"] is None:
            raise Unsupported("elimination loop not recognised")
        rec = recs[0]
        s.ex.weak = None
        k = rec["I"] + 1
        b, e = rec["begin"], rec["back"]
        s.goal(cmp("==", rec["N"], N_ - 1), "dechc: one elimination step per column", pc=())

        def rd(st, i, j):
            return (s.ex.content(st, r).read((i, j), s.ex.decider(st)), s.ex.content(st, r2).read((i, j), s.ex.decider(st)))
        cm = lambda x, y: (sub(mul(x[0], y[0]), mul(x[1], y[1])), add(mul(x[0], y[1]), mul(x[1], y[0])))
        ca = lambda x, y: (add(x[0], y[0]), add(x[1], y[1]))
        ceq = lambda x, y: land(cmp("==", x[0], y[0]), cmp("==", x[1], y[1]))
        n1 = lambda x: add(T.absv(x[0]), T.absv(x[1]))
        for kind, st in [("step", e)] + [("break", x) for x in rec["breaks"]]:
            if st.dead:
                continue
            p = s.ex.content(st, ip).read((k - 1,), s.ex.decider(st))
            for cand, oth in ((k, k + 1), (k + 1, k)):
                t = st.clone()
                t.assume(cmp("==", p, cand))
                if t.dead:
                    continue
                pc0 = t.pc
                A = lambda i, j: rd(b, i, j)
                piv, low = A(cand, k), A(oth, k)
                s.goal(cmp(">=", n1(piv), n1(low)), "dechc: partial pivoting chooses the larger entry", pc=pc0)
                zero = land(cmp("==", piv[0], 0), cmp("==", piv[1], 0))
                if kind == "break":
                    s.goal(zero, "dechc: stops early only on a zero pivot", pc=pc0)
                    continue
                s.goal(lnot(zero), "dechc: continues only with a nonzero pivot", pc=pc0)
                mult = rd(t, k + 1, k)
                den = add(mul(piv[0], piv[0]), mul(piv[1], piv[1]))
                s.goal(ceq(rd(t, k, k), piv), "dechc: pivot stored on the diagonal", pc=pc0)
                s.goal(ceq(ca(low, cm(mult, piv)), (Fraction(0), Fraction(0))), "dechc: multiplier eliminates the subdiagonal entry", pc=pc0 + (B(cmp("!=", den, 0)),))
                j = s.int("j")
                for g in (j > k, j <= N_):
                    t.assume(g)
                s.goal(ceq(rd(t, k, j), A(cand, j)), "dechc: row k of later columns", pc=t.pc)
                prow = A(cand, j)
                want = ca(A(oth, j), cm(mult, prow))
                for zr in (True, False):
                    for zi in (True, False):
                        pc = t.pc + (B(cmp("==" if zr else "!=", prow[0], 0)), B(cmp("==" if zi else "!=", prow[1], 0)))
                        s.goal(ceq(rd(t, k + 1, j), want), "dechc: row k+1 of later columns (pivot row entry %s)" % ("zero" if zr and zi else "imaginary" if zr else "real" if zi else "general"), pc=pc)
                i = s.int("i")
                t2 = st.clone()
                t2.assume(cmp("==", p, cand))
                for g in (i >= 1, i <= N_, i != k, i != k + 1, j >= 1, j <= N_):
                    t2.assume(g)
                s.goal(ceq(rd(t2, i, j), A(i, j)), "dechc: other rows untouched", pc=t2.pc)
                t3 = st.clone()
                t3.assume(cmp("==", p, cand))
                for g in (i >= 1, i <= N_, j >= 1, j < k):
                    t3.assume(g)
                s.goal(ceq(rd(t3, i, j), A(i, j)), "dechc: finished columns untouched", pc=t3.pc)
                q = s.int("q")
                t4 = st.clone()
                t4.assume(cmp("==", p, cand))
                for g in (q >= 0, q < N_ - 1, q != k - 1):
                    t4.assume(g)
                s.goal(cmp("==", s.ex.content(t4, ip).read((q,), s.ex.decider(t4)), s.ex.content(b, ip).read((q,), s.ex.decider(b))), "dechc: other pivots untouched", pc=t4.pc)
            s.goal(lor(cmp("==", p, k), cmp("==", p, k + 1)), "dechc: pivot row is k or k+1", pc=st.pc)
        last = rd(s.st, N_, N_)
        done = land(cmp("==", rec["I"], N_ - 1), lnot(land(cmp("==", last[0], 0), cmp("==", last[1], 0))))
        s.goal(z3.Implies(B(cmp("==", ret, 0)), B(done)), "dechc: 0 is returned only when every pivot is nonzero")
        s.goal(z3.Implies(B(done), B(cmp("==", ret, 0))), "dechc: 0 is returned when every pivot is nonzero")
        return s
    V.contract("dechc", lambda: explore(dechc))

    # ---------------------------------------------------------------- solh / solhc
    def solver(name, cplx):
        def mk(paths, row):
            s, M = sess(paths)
            s.st.assume(N_ >= 2)
            ms = [mat(s, M, "A%d" % i) for i in range(2 if cplx else 1)]
            vs = [vecF(s, "B%d" % i) for i in range(2 if cplx else 1)]
            ip, ipf = s.array("ip", N_, "int")
            # pivots as dech stores them
            q = z3.Int("q!piv")
            before = s.st.clone()

            class SP(L.SeqSpec):
                def prepare(self, ex, st, entry):
                    pass
            s.run(function(ast, name), None, *[LObj(m[0]) for m in ms], P(ip), *[LObj(v[0]) for v in vs])
            recs = loops_of(s, name)
            if len(recs) != 2 or any(x["I"] is None for x in recs):
                raise Unsupported("substitution loops not recognised")
            s.ex.weak = None
            vr = [v[1] for v in vs]
            Bv = lambda st, i: tuple(s.ex.content(st, x).read((i - 1,), s.ex.decider(st)) for x in vr)
            A = lambda i, j: tuple(m[2](I(i), I(j)) for m in ms)
            if cplx:
                cm = lambda x, y: (sub(mul(x[0], y[0]), mul(x[1], y[1])), add(mul(x[0], y[1]), mul(x[1], y[0])))
            else:
                cm = lambda x, y: (mul(x[0], y[0]),)
            ca = lambda x, y: tuple(add(u, v) for u, v in zip(x, y))
            cs = lambda x, y: tuple(sub(u, v) for u, v in zip(x, y))
            ceq = lambda x, y: land(*[cmp("==", u, v) for u, v in zip(x, y)])
            fw, bw = recs
            s.goal(cmp("==", fw["N"], N_ - 1), name + ": forward substitution visits every step", pc=())
            s.goal(cmp("==", bw["N"], N_ - 1), name + ": back substitution visits rows n..2", pc=())
            k = fw["I"] + 1
            b, e = fw["begin"], fw["back"]
            for cand, oth in ((k, k + 1), (k + 1, k)):
                t = e.clone()
                t.assume(cmp("==", ipf(k - 1), cand))
                s.goal(ceq(Bv(t, k), Bv(b, cand)), name + ": row exchange of the right-hand side", pc=t.pc)
                s.goal(ceq(Bv(t, k + 1), ca(Bv(b, oth), cm(A(k + 1, k), Bv(b, cand)))), name + ": elimination applied to the right-hand side", pc=t.pc)
                i = s.int("i")
                for g in (i >= 1, i <= N_, i != k, i != k + 1):
                    t.assume(g)
                s.goal(ceq(Bv(t, i), Bv(b, i)), name + ": other rows untouched", pc=t.pc)
            b, e = bw["begin"], bw["back"]
            k = N_ - bw["I"]
            nz = sum_sq(A(k, k))
            pc0 = e.pc + (B(cmp("!=", nz, 0)),)
            s.goal(ceq(cm(A(k, k), Bv(e, k)), Bv(b, k)), name + ": U(k,k) x(k) = b(k)", pc=pc0)
            i = s.int("i")
            t = e.clone()
            for g in (i >= 1, i < k):
                t.assume(g)
            s.goal(ceq(Bv(t, i), cs(Bv(b, i), cm(A(i, k), Bv(e, k)))), name + ": column k removed from the rows above", pc=t.pc + (B(cmp("!=", nz, 0)),))
            t = e.clone()
            for g in (i > k, i <= N_):
                t.assume(g)
            s.goal(ceq(Bv(t, i), Bv(b, i)), name + ": rows already solved untouched", pc=t.pc)
            # last row: exit state of the loop -> end
            ex0 = [x for x in bw["exits"] if not x.dead]
            if len(ex0) != 1:
                raise Unsupported("exit of the back substitution")
            z = sum_sq(A(1, 1))
            s.goal(ceq(cm(A(1, 1), Bv(s.st, 1)), Bv(ex0[0], 1)), name + ": U(1,1) x(1) = b(1)", pc=s.st.pc + (B(cmp("!=", z, 0)),))
            t = s.st.clone()
            for g in (i > 1, i <= N_):
                t.assume(g)
            s.goal(ceq(Bv(t, i), Bv(ex0[0], i)), name + ": solved rows kept", pc=t.pc)
            for m in ms:
                s.unchanged(m[1], before)
            return s
        return explore(lambda p: mk(p, 0))

    def sum_sq(x):
        out = Fraction(0)
        for u in x:
            out = add(out, mul(u, u))
        return out
    V.contract("solh", solver, "solh", False)
    V.contract("solhc", solver, "solhc", True)

    # ---------------------------------------------------------------- householder
    def house(direct):
        s, M = sess()
        s.st.assume(N_ >= 2)
        o, r, f = mat(s, M, "A")
        tau, tf = s.array("tau", N_)
        x, xr, xf = vecF(s, "X")
        y, yr, yf = vecF(s, "Y")
        before = s.st.clone()
        s.run(function(ast, "householder"), None, LObj(o), P(tau), LObj(x), LObj(y), direct)
        recs = loops_of(s, "householder")
        if len(recs) != 1 or recs[0]["I"] is None:
            raise Unsupported("reflector loop not recognised")
        rec = recs[0]
        s.ex.weak = None
        s.goal(cmp("==", rec["N"], N_ - 2), "householder: n-2 reflectors", pc=())
        j = rec["I"] + 1 if direct else N_ - 2 - rec["I"]
        b, e = rec["begin"], rec["back"]
        en = rec["entry"]
        Y = lambda st, i: s.ex.content(st, yr).read((i - 1,), s.ex.decider(st))
        k = s.int("k")
        t = en.clone()
        for g in (k >= 1, k <= N_):
            t.assume(g)
        s.goal(cmp("==", Y(t, k), xf(k - 1)), "householder: starts from X", pc=t.pc)
        # reflector j: v = (0..0,1,A(j+2..n,j)), H = I - tau_j v v^T
        q = T.fresh("q", "int")
        tt = b.clone()
        for g in (q >= 0, q < N_ - j - 1):
            tt.assume(g)
        dot = add(Y(b, j + 1), T.mksum(N_ - j - 1, q, mul(Y(tt, j + 2 + q), f(j + 2 + q, j))))
        sc = mul(dot, tf(j - 1))
        s.goal(cmp("==", Y(e, j + 1), sub(Y(b, j + 1), sc)), "householder: component j+1 reflected", pc=e.pc)
        t = e.clone()
        for g in (k >= j + 2, k <= N_):
            t.assume(g)
        s.goal(cmp("==", Y(t, k), sub(Y(b, k), mul(sc, f(k, j)))), "householder: components j+2..n reflected", pc=t.pc)
        t = e.clone()
        for g in (k >= 1, k <= j):
            t.assume(g)
        s.goal(cmp("==", Y(t, k), Y(b, k)), "householder: components 1..j untouched", pc=t.pc)
        s.unchanged(r, before)
        s.unchanged(xr, before)
        s.unchanged(tau, before)
        return s
    V.contract("householder(direct)", house, True)
    V.contract("householder(reverse)", house, False)


    # ---------------------------------------------------------------- class
    def whole(order):
        s = Session(ast, nmap=NMAP, facts=[N_ >= 1])
        M = Mats(s)
        cs = ast.find_class("Matrices", lambda c: [str(a) for a in ast.targs(c)][:2] in (["-1", "-1"], ["1", "1"], ["true", "true"]))
        if not cs:
            raise Missing("Matrices<true,true>")
        c = cs[0]
        o = s.obj(c, "M")
        M.attach(o)
        ex = s.ex
        for f, lv in list(ex.objs[o].n.items()):
            if isinstance(lv, LObj) and "fortranVector" in ex.objs[lv.oid].cls.get("name", ""):
                rid, g = s.array(f, N_)
                s.setf(lv.oid, "x", P(rid))
                s.setf(lv.oid, "y", P(rid))
                s.setf(lv.oid, "size", N_)
                s.setf(lv.oid, "deletable", False)
        wr, wf = s.array("work", N_)
        ex.regions[wr].origin = "new[]"
        s.setf(o, "work", P(wr))
        s.setf(o, "lwork", s.n)
        s.setf(o, "calhes", True)
        J = s.obj(s.cls("fortranArray"), "Jac")
        jr, jf = M.ghost(s.st, J)[0]
        LOG = []

        def matarg(st, a):
            lv = ex.lv(a, st)
            return M.ghost(st, lv.oid)[0][0]

        def vecptr(st, a):
            lv = ex.lv(a, st)
            return ex.load(st, ex.objs[lv.oid].n["x"])

        def dgehrd(ex_, st, this, args, e):
            ps = [ex.ev(a, st) for a in args]
            v = lambda p: ex.rdptr(st, p)
            A = ps[3].alts[0][1]
            rid = M.ghost(st, A[1])[0][0]
            lw = v(ps[7])
            d = dict(k="dgehrd", pc=st.pc, n=v(ps[0]), ilo=v(ps[1]), ihi=v(ps[2]), rid=rid, lda=v(ps[4]), lwork=lw, work=ps[6], freed=st.freed, st=st.clone())
            query = T.ispy(lw) and lw == -1
            d["query"] = query
            if query:
                opt = T.fresh("opt", "int")
                st.assume(opt >= N_)
                st.assume(opt >= 1)
                for cc, r, off in ps[6].alts:
                    ex.wr(st, r, (off,), z3.ToReal(opt), cc)
                d["opt"] = opt
            else:
                st.reg[rid] = Base(T.freshfun("HJ", 2, "real"), "real")
                tr = ps[5].alts[0][1]
                st.reg[tr] = Base(T.freshfun("tau", 1, "real"), "real")
                d["handle"] = (st.reg[rid], st.reg[tr])
                d["tau"] = tr
                d["toff"] = ps[5].alts[0][2]
            d["info"] = T.fresh("info", "int")
            if query:
                st.assume(d["info"] == 0)
            ex.assign(st, LElem(ps[8]), d["info"])
            LOG.append(d)
        ex.ext[(None, "dgehrd_")] = dgehrd

        def cdech(ncm):
            def h(ex_, st, this, args, e):
                rids = [matarg(st, a) for a in args[:ncm]]
                ip = ex.ev(args[ncm], st).alts[0]
                d = dict(k="dech" if ncm == 1 else "dechc", pc=st.pc, content=[ex.content(st, r) for r in rids], st=st.clone())
                for r in rids:
                    st.reg[r] = Base(T.freshfun("LU", 2, "real"), "real")
                st.reg[ip[1]] = Base(T.freshfun("piv", 1, "int"), "int")
                d["handle"] = [st.reg[r] for r in rids] + [st.reg[ip[1]]]
                d["ret"] = T.fresh("ret", "int")
                LOG.append(d)
                return d["ret"]
            return h
        ex.contracts[(None, "dech")] = cdech(1)
        ex.contracts[(None, "dechc")] = cdech(2)

        def csol(ncm):
            def h(ex_, st, this, args, e):
                rids = [matarg(st, a) for a in args[:ncm]]
                ip = ex.ev(args[ncm], st).alts[0]
                bs = [vecptr(st, a).alts[0][1] for a in args[ncm + 1:]]
                d = dict(k="solh" if ncm == 1 else "solhc", pc=st.pc, handle=[ex.content(st, r) for r in rids] + [ex.content(st, ip[1])],
                         rhs=[ex.content(st, b) for b in bs])
                for b in bs:
                    st.reg[b] = Base(T.freshfun("sol", 1, "real"), "real")
                d["sol"] = [st.reg[b] for b in bs]
                LOG.append(d)
                return None
            return h
        ex.contracts[(None, "solh")] = csol(1)
        ex.contracts[(None, "solhc")] = csol(2)

        def chouse(ex_, st, this, args, e):
            rid = matarg(st, args[0])
            tr = ex.ev(args[1], st).alts[0]
            x, y = vecptr(st, args[2]).alts[0][1], vecptr(st, args[3]).alts[0][1]
            dr = ex.ev(args[4], st)
            d = dict(k="house", pc=st.pc, handle=(ex.content(st, rid), ex.content(st, tr[1])), x=ex.content(st, x), direct=dr)
            st.reg[y] = Base(T.freshfun("refl", 1, "real"), "real")
            d["y"] = st.reg[y]
            LOG.append(d)
            return None
        ex.contracts[(None, "householder")] = chouse
        fac, al, be = s.real("fac1"), s.real("alpha"), s.real("beta")
        meth = {k: method(ast, c, k) for k in ("decomr", "decomc", "solvereal", "solvecomplex")}
        cur = {}
        infos = []
        jac = [None]

        def T_(v):
            s.goal(z3.BoolVal(bool(v[0])), v[1])
        for step in order:
            mark = len(LOG)
            if step == "N":
                # a new Jacobian: the caller sets calhes
                st0 = s.st
                st0.reg[jr] = Base(T.freshfun("Jnew", 2, "real"), "real")
                s.setf(o, "calhes", True)
                jac[0] = None
                continue
            if step == "R":
                fresh = jac[0] is None
                jc = ex.content(s.st, jr)
                s.run(meth["decomr"], o, fac, LObj(J))
                ev = LOG[mark:]
                red = [d for d in ev if d["k"] == "dgehrd" and not d["query"]]
                T_((len(red) == (1 if fresh else 0), "decomr: the Jacobian is reduced exactly once"))
                for d in [x for x in ev if x["k"] == "dgehrd"]:
                    s.goal(land(cmp("==", d["n"], N_), cmp("==", d["ilo"], 1), cmp("==", d["ihi"], N_), cmp("==", d["lda"], N_)), "dgehrd: dimensions", pc=d["pc"])
                    T_((d["rid"] == jr, "dgehrd: reduces the Jacobian"))
                    if not d["query"]:
                        T_((ex.content(d["st"], jr) is jc, "dgehrd: sees the Jacobian supplied"))
                        s.goal(cmp(">=", d["lwork"], N_), "dgehrd: workspace size", pc=d["pc"])
                        for cc, r, off in d["work"].alts:
                            s.goal(lnot(land(cc, not isinstance(r, int) or d["freed"].get(r, False))), "dgehrd: workspace is alive", pc=d["pc"])
                            s.goal(z3.Implies(B(cc), B(cmp("<=", d["lwork"], sub(ex.regions[r].size, off)))), "dgehrd: workspace holds lwork elements", pc=d["pc"])
                        s.goal(cmp("==", d["toff"], 0), "dgehrd: tau", pc=d["pc"])
                        s.goal(cmp(">=", ex.regions[d["tau"]].size, sub(N_, 1)), "dgehrd: room for tau", pc=d["pc"])
                        jac[0] = d["handle"]
                        infos.append(d["info"])
                fs = [d for d in ev if d["k"] == "dech"]
                T_((len(fs) == 1, "decomr: one factorisation"))
                H = jac[0][0]
                for diag in (True, False):
                    t = fs[0]["st"].clone()
                    i, j = s.int("i"), s.int("j")
                    for g in (i >= 1, i <= N_, j >= 1, j <= N_, (i == j) if diag else i != j, i <= j + 1):
                        t.assume(g)
                    if diag:
                        j = i
                    hv = H.read((i, j), None)
                    s.goal(cmp("==", fs[0]["content"][0].read((i, j), ex.decider(t)), sub(fac, hv) if diag else neg(hv)), "decomr: factors (fac1*I - H) %s" % ("diagonal" if diag else "off-diagonal"), pc=t.pc)
                cur["R"] = fs[0]["handle"]
                infos.append(fs[0]["ret"])
            elif step == "C":
                s.run(meth["decomc"], o, al, be, LObj(J))
                fs = [d for d in LOG[mark:] if d["k"] == "dechc"]
                T_((len(fs) == 1, "decomc: one factorisation"))
                H = jac[0][0]
                for diag in (True, False):
                    t = fs[0]["st"].clone()
                    i, j = s.int("i"), s.int("j")
                    for g in (i >= 1, i <= N_, j >= 1, j <= N_, (i == j) if diag else i != j, i <= j + 1):
                        t.assume(g)
                    if diag:
                        j = i
                    hv = H.read((i, j), None)
                    dec = ex.decider(t)
                    s.goal(cmp("==", fs[0]["content"][0].read((i, j), dec), sub(al, hv) if diag else neg(hv)), "decomc: real part of (alpha+i*beta)I - H (%s)" % ("diagonal" if diag else "off-diagonal"), pc=t.pc)
                    s.goal(cmp("==", fs[0]["content"][1].read((i, j), dec), be if diag else R(0)), "decomc: imaginary part (%s)" % ("diagonal" if diag else "off-diagonal"), pc=t.pc)
                cur["C"] = fs[0]["handle"]
                infos.append(fs[0]["ret"])
            else:
                nv = 1 if step == "r" else 2
                vs = [vecF(s, "Z%d_%d" % (mark, q)) for q in range(nv)]
                base = [ex.content(s.st, v[1]) for v in vs]
                jb = ex.content(s.st, jr)
                s.run(meth["solvereal" if nv == 1 else "solvecomplex"], o, *[LObj(v[0]) for v in vs], LObj(J))
                ev = LOG[mark:]
                nm = "solvereal" if nv == 1 else "solvecomplex"
                sol = [d for d in ev if d["k"] in ("solh", "solhc")]
                T_((len(sol) == 1 and sol[0]["k"] == ("solh" if nv == 1 else "solhc"), nm + ": one triangular solve"))
                sol = sol[0]
                w = cur["R" if nv == 1 else "C"]
                T_((len(sol["handle"]) == len(w) and all(a is b for a, b in zip(sol["handle"], w)), nm + ": uses the factors and pivots of its matrix"))
                hs = [d for d in ev if d["k"] == "house"]
                for q in range(nv):
                    d1 = [d for d in hs if d["y"] is sol["rhs"][q]]
                    T_((len(d1) == 1 and d1[0]["direct"] is True and d1[0]["x"] is base[q], nm + ": right-hand side %d transformed by the reflectors in order" % q))
                    fin = ex.content(s.st, vs[q][1])
                    d2 = [d for d in hs if d["y"] is fin]
                    T_((len(d2) == 1 and d2[0]["direct"] is False and d2[0]["x"] is sol["sol"][q], nm + ": solution %d transformed back in reverse order" % q))
                for d in hs:
                    T_((d["handle"][0] is jac[0][0] and d["handle"][1] is jac[0][1], nm + ": reflectors of the current Jacobian"))
                T_((ex.content(s.st, jr) is jb, nm + ": Jacobian unchanged"))
        for t in ex.throws:
            s.goal(lor(*[cmp("!=", i, 0) for i in infos]), "an exception is raised only for a singular matrix", pc=t["pc"])
        for i in infos:
            s.goal(cmp("==", i, 0), "normal return only when every factorisation succeeded")
        s.goal(z3.BoolVal(len(infos) == len([c for c in order if c in "RC"]) + len([c for c in order if c == "N"]) + 1), "all factorisations checked")
        return s
    for order in ("RCrc", "RCcrRCrc", "RCrRCNRCrc"):
        V.contract("Matrices(Hessenberg) " + order, whole, order)


DRIVERS = [dict(src="C04.cc", name="C04", flags=["-fsanitize=address,undefined"], libs=["-llapack", "-lblas"]),
           dict(src="C04.cc", name="C04-aligned", flags=["-O2", "-DALIGN_BLOCKED"], libs=["-llapack", "-lblas"])]
