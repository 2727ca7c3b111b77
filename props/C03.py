"""C03 full/banded Newton matrices and linear solves."""
import z3
from odv.spec import *
from odv.mats import *
NOTE = """decomr/decomc/solvereal/solvecomplex of the full and banded Matrices classes are proved for symbolic n (and bandwidths): the matrix handed to LAPACK is exactly fac1*I-J resp. (alpha+i*beta)*I-J on every entry of the structure with LAPACK's dimensions and leading dimension, the solve uses the factors and pivots of the right factorisation, right-hand sides and solutions are routed to the right vectors, the Jacobian is unchanged, and a nonzero info raises OdesException. LAPACK itself is an assumed contract; the replay driver checks residuals with the installed LAPACK."""
ASSUMPTIONS = ["LAPACK dgetrf/dgetrs/zgetrf/zgetrs/dgbtrf/dgbtrs/zgbtrf/zgbtrs solve the system of the matrix they are given (assumed contract)"]


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/mat.cc")

    def make(band):
        facts = [N_ >= 1] + ([KL >= 0, KU >= 0, KL < N_, KU < N_] if band else [])
        s = Session(ast, nmap={1009: N_, 13: KL, 17: KU, 2018: 2 * N_, 1008: N_ - 1}, facts=facts)
        pred = (lambda c: [str(a) for a in ast.targs(c)][:2] in (["0", "0"], ["false", "false"])) if band else \
            (lambda c: [str(a) for a in ast.targs(c)][:2] in (["-1", "0"], ["1", "0"], ["true", "false"]))
        cs = ast.find_class("Matrices", pred)
        if not cs:
            raise Missing("Matrices")
        c = cs[0]
        M = Mats(s)
        L = Lapack(s, M)
        o = s.obj(c, "M")
        M.attach(o)
        # internal vectors
        for f, lv in s.ex.objs[o].n.items():
            if isinstance(lv, LObj) and "fortranVector" in s.ex.objs[lv.oid].cls.get("name", ""):
                vec_init(s, lv.oid, 2 * N_)
        J = s.obj(s.cls("fortranRectangularArray" if band else "fortranArray"), "Jac")
        return s, c, M, L, o, J

    def vec_init(s, oid, size):
        rid, f = s.array(s.ex.objs[oid].name, size)
        for fld in ("x", "y"):
            if fld in s.ex.objs[oid].n:
                s.setf(oid, fld, P(rid))
        s.setf(oid, "size", size)
        s.setf(oid, "deletable", False)
        return rid, f

    def vecF(s, name, size):
        c = [x for x in s.ast.find_class("fortranVectorF")]
        c = [x for x in c if str(s.ast.targs(x)[0]) == "1009"] or c
        o = s.obj(c[0], name)
        return (o,) + vec_init(s, o, size)

    def whole(band, order):
        s, c, M, L, o, J = make(band)
        jr, jf = M.ghost(s.st, J)[0]
        fac, al, be = s.real("fac1"), s.real("alpha"), s.real("beta")
        meth = {k: method(ast, c, k) for k in ("decomr", "decomc", "solvereal", "solvecomplex")}
        fidx = {}
        b0 = s.st.clone()
        nsol = 0
        for step in order:
            if step == "R":
                before = len(L.factors)
                s.run(meth["decomr"], o, fac, LObj(J))
                nf = L.factors[before:]
                s.goal(z3.BoolVal(len(nf) == 1), "decomr: one factorisation")
                checkfac(s, M, L, nf[0], band, lambda i, j, J=jf: T.ite(cmp("==", i, j), sub(fac, J(i, j)), neg(J(i, j))), None, "decomr")
                fidx["R"] = len(L.factors) - 1
            elif step == "C":
                before = len(L.factors)
                s.run(meth["decomc"], o, al, be, LObj(J))
                nf = L.factors[before:]
                s.goal(z3.BoolVal(len(nf) == 1), "decomc: one factorisation")
                checkfac(s, M, L, nf[0], band, lambda i, j, J=jf: T.ite(cmp("==", i, j), sub(al, J(i, j)), neg(J(i, j))),
                         lambda i, j: T.ite(cmp("==", i, j), be, R(0)), "decomc")
                fidx["C"] = len(L.factors) - 1
            elif step == "r":
                z, zr, zf = vecF(s, "Z%d" % nsol, N_)
                nsol += 1
                before = s.st.clone()
                k = len(L.solves)
                s.run(meth["solvereal"], o, LObj(z), LObj(J))
                d = L.solves[k:]
                s.goal(z3.BoolVal(len(d) == 1), "solvereal: one solve")
                checksol(s, L, d[0], band, fidx["R"], "solvereal", N_)
                bo = d[0]["B"].alts[0][2]
                s.forall(0, N_, lambda kk, st: cmp("==", d[0]["bcontent"].read((add(bo, kk),), s.ex.decider(st)), zf(kk)), "solvereal: right-hand side is Z", st=d[0]["state"])
                p = s.getf(z, "x")
                s.forall(0, N_, lambda kk, st: cmp("==", s.readp(p, kk, st), d[0]["sol"](add(bo, kk))), "solvereal: Z receives the solution")
            elif step == "c":
                z, zr, zf = vecF(s, "Zr%d" % nsol, N_)
                w, wr, wf = vecF(s, "Zi%d" % nsol, N_)
                nsol += 1
                k = len(L.solves)
                s.run(meth["solvecomplex"], o, LObj(z), LObj(w), LObj(J))
                d = L.solves[k:]
                s.goal(z3.BoolVal(len(d) == 1), "solvecomplex: one solve")
                checksol(s, L, d[0], band, fidx["C"], "solvecomplex", N_)
                bo = d[0]["B"].alts[0][2]
                rd = lambda kk, st: d[0]["bcontent"].read((add(bo, kk),), s.ex.decider(st))
                s.forall(0, N_, lambda kk, st: cmp("==", rd(2 * kk, st), zf(kk)), "solvecomplex: real parts of the right-hand side", st=d[0]["state"])
                s.forall(0, N_, lambda kk, st: cmp("==", rd(2 * kk + 1, st), wf(kk)), "solvecomplex: imaginary parts of the right-hand side", st=d[0]["state"])
                p, q = s.getf(z, "x"), s.getf(w, "x")
                s.forall(0, N_, lambda kk, st: cmp("==", s.readp(p, kk, st), d[0]["sol"](add(bo, 2 * kk))), "solvecomplex: Zr receives the real parts")
                s.forall(0, N_, lambda kk, st: cmp("==", s.readp(q, kk, st), d[0]["sol"](add(bo, 2 * kk + 1))), "solvecomplex: Zi receives the imaginary parts")
        s.unchanged(jr, b0, "the Jacobian")
        # info != 0 is reported, and only then
        allinfo = [d["info"] for d in L.factors + L.solves]
        for t in s.ex.throws:
            s.goal(lor(*[cmp("!=", i, 0) for i in allinfo]), "an exception is raised only for info!=0", pc=t["pc"])
            s.goal(z3.BoolVal("OdesException" in t["what"]), "the exception is an OdesException", pc=t["pc"])
        for d in L.factors + L.solves:
            s.goal(cmp("==", d["info"], 0), "normal return only for info==0 of %s" % d["name"])
        return s

    def checkfac(s, M, L, d, band, re, im, nm):
        want = {(False, False): "dgetrf_", (False, True): "zgetrf_", (True, False): "dgbtrf_", (True, True): "zgbtrf_"}[(band, im is not None)]
        s.goal(z3.BoolVal(d["name"] == want), nm + ": routine " + want)
        pc = d["pc"]
        s.goal(land(cmp("==", d["m"], N_), cmp("==", d["n"], N_)), nm + ": dimensions", pc=pc)
        if band:
            s.goal(land(cmp("==", d["kl"], KL), cmp("==", d["ku"], KU)), nm + ": bandwidths", pc=pc)
            s.goal(cmp("==", d["lda"], 2 * KL + KU + 1), nm + ": leading dimension", pc=pc)
        else:
            s.goal(cmp("==", d["lda"], N_), nm + ": leading dimension", pc=pc)
        s.goal(cmp("==", d["ipoff"], 0), nm + ": pivots start at the first element", pc=pc)
        sz = s.ex.regions[d["iprid"]].size
        s.goal(cmp(">=", sz, N_), nm + ": room for n pivots", pc=pc)
        st = d["state"]
        for diag in (True, False):
            s2 = st.clone()
            i, j = s.int("i"), s.int("j")
            for g in M.admissible(i, j, band):
                s2.assume(g)
            if diag:
                s2.assume(i == j)
                j = i
            else:
                s2.assume(i != j)
            dec = s.ex.decider(s2)
            t = "diagonal" if diag else "off-diagonal"
            w = re(i, j)
            s.goal(cmp("==", d["content"][0].read((i, j), dec), w), "%s: %s entries of the %smatrix" % (nm, t, "real part of the " if im else ""), pc=s2.pc)
            if im:
                s.goal(cmp("==", d["content"][1].read((i, j), dec), im(i, j)), "%s: %s entries of the imaginary part" % (nm, t), pc=s2.pc)

    def checksol(s, L, d, band, fac, nm, n):
        cplx = nm == "solvecomplex"
        want = {(False, False): "dgetrs_", (False, True): "zgetrs_", (True, False): "dgbtrs_", (True, True): "zgbtrs_"}[(band, cplx)]
        pc = d["pc"]
        s.goal(z3.BoolVal(d["name"] == want), nm + ": routine " + want)
        s.goal(z3.BoolVal(d["trans"] in (ord("n"), ord("N"))), nm + ": no transposition")
        s.goal(cmp("==", d["n"], N_), nm + ": dimension", pc=pc)
        s.goal(cmp("==", d["nrhs"], 1), nm + ": one right-hand side", pc=pc)
        if band:
            s.goal(land(cmp("==", d["kl"], KL), cmp("==", d["ku"], KU)), nm + ": bandwidths", pc=pc)
            s.goal(cmp("==", d["lda"], 2 * KL + KU + 1), nm + ": leading dimension", pc=pc)
        else:
            s.goal(cmp("==", d["lda"], N_), nm + ": leading dimension", pc=pc)
        s.goal(cmp(">=", d["ldb"], N_), nm + ": leading dimension of B", pc=pc)
        f = L.factor_of(d)
        s.goal(z3.BoolVal(f is not None and f == fac), nm + ": uses the factors and pivots of the latest factorisation of its matrix")
        s.goal(cmp("==", d["ipoff"], 0), nm + ": pivots from the first element", pc=pc)

    for band in (False, True):
        t = "banded" if band else "full"
        for order in ("RCrc", "CRcr", "RCrcRcr"):
            V.contract("Matrices(%s) %s" % (t, order), whole, band, order)


DRIVERS = [dict(src="C03.cc", name="C03", flags=["-fsanitize=address,undefined"], libs=["-llapack", "-lblas"]),
           dict(src="C03.cc", name="C03-O3-aligned", flags=["-O3", "-ffast-math", "-DALIGN_BLOCKED"], libs=["-llapack", "-lblas"])]
