"""C02 matrix containers: every (i,j) of the structure has its own cell, at the
place LAPACK's column-major / general-band layout prescribes."""
import z3
from odv.spec import *
NOTE = """Addressing, set/Re/Im, negation and diagonal shift of the four containers are proved against the LAPACK layout formula for symbolic order n and symbolic bandwidths kl,ku (including in-bounds of every admissible cell and injectivity of the layout). Exact arithmetic assumed."""

KL, KU = z3.Int("kl"), z3.Int("ku")
BF = [N_ >= 1, KL >= 0, KU >= 0, KL < N_, KU < N_]


def nmap_band():
    return {1009: N_, 13: KL, 17: KU, 2018: 2 * N_, 1008: N_ - 1}


def sess(ast, band):
    return Session(ast, nmap=nmap_band(), facts=BF if band else [N_ >= 1])


def mat(s, cname, size, name="A"):
    c = s.cls(cname)
    o = s.obj(c, name)
    rid, f = s.array(name, size)
    s.setf(o, "x", P(rid))
    return o, rid, f


def layout(band):
    """LAPACK position (0-based) of entry (i,j)"""
    if band:
        L = 2 * KL + KU + 1
        return lambda i, j: (j - 1) * L + KL + KU + i - j
    return lambda i, j: (j - 1) * N_ + i - 1


def size_of(band):
    return (2 * KL + KU + 1) * N_ if band else N_ * N_


def admissible(i, j, band):
    g = [i >= 1, i <= N_, j >= 1, j <= N_]
    if band:
        g += [i >= j - KU, i <= j + KL]
    return g


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/mat.cc")

    def addressing(cname, band):
        out = []
        for const in (True, False):
            s = sess(ast, band)
            fn = method(ast, s.cls(cname), "operator()", const=const, nparams=2)
            o, rid, f = mat(s, cname, size_of(band))
            i, j = s.int("i"), s.int("j")
            for g in admissible(i, j, band):
                s.st.assume(g)
            v = s.run(fn, o, i, j)
            off = layout(band)(i, j)
            if isinstance(v, LElem):
                a = v.ptr.alts
                s.goal(z3.BoolVal(len(a) == 1 and a[0][1] == rid), "%s(i,j) designates a cell of the matrix" % cname)
                s.goal(cmp("==", a[0][2], off), "%s(i,j) is the LAPACK cell" % cname)
                s.goal(land(cmp(">=", off, 0), cmp("<", off, size_of(band))), "%s(i,j) in bounds" % cname)
            else:
                s.goal(cmp("==", v, f(off)), "%s(i,j) const is the LAPACK cell" % cname)
            out.append(s)
        return out
    V.contract("fortranArray::operator()", addressing, "fortranArray", False)
    V.contract("fortranRectangularArray::operator()", addressing, "fortranRectangularArray", True)

    def caddressing(cname, band):
        out = []
        for nm, d in (("Re", 0), ("Im", 1)):
            s = sess(ast, band)
            fn = method(ast, s.cls(cname), nm)
            o, rid, f = mat(s, cname, 2 * size_of(band))
            i, j = s.int("i"), s.int("j")
            for g in admissible(i, j, band):
                s.st.assume(g)
            v = s.run(fn, o, i, j)
            a = v.ptr.alts
            off = 2 * layout(band)(i, j) + d
            s.goal(z3.BoolVal(len(a) == 1 and a[0][1] == rid), "%s(i,j) designates a cell of the matrix" % nm)
            s.goal(cmp("==", a[0][2], off), "%s(i,j) is the interleaved LAPACK cell" % nm)
            s.goal(land(cmp(">=", off, 0), cmp("<", off, 2 * size_of(band))), "%s(i,j) in bounds" % nm)
            out.append(s)
        s = sess(ast, band)
        fn = method(ast, s.cls(cname), "set")
        o, rid, f = mat(s, cname, 2 * size_of(band))
        i, j = s.int("i"), s.int("j")
        for g in admissible(i, j, band):
            s.st.assume(g)
        re, im = s.real("re"), s.real("im")
        s.run(fn, o, i, j, re, im)
        off = 2 * layout(band)(i, j)
        s.goal(cmp("==", s.read(rid, off), re), "set stores the real part")
        s.goal(cmp("==", s.read(rid, off + 1), im), "set stores the imaginary part")
        k = s.int("k")
        s.st.assume(k != off)
        s.st.assume(k != off + 1)
        s.goal(cmp("==", s.read(rid, k), f(k)), "set changes no other cell")
        out.append(s)
        return out
    V.contract("fortranComplexArray::set/Re/Im", caddressing, "fortranComplexArray", False)
    V.contract("fortranRectangularComplexArray::set/Re/Im", caddressing, "fortranRectangularComplexArray", True)

    def negation(cname, band):
        s = sess(ast, band)
        fn = method(ast, s.cls(cname), "equal_minus")
        o, rid, f = mat(s, cname, size_of(band), "A")
        o2, rid2, f2 = mat(s, cname, size_of(band), "X")
        b = s.st.clone()
        s.st.assume(size_of(band) >= 1)
        s.run(fn, o, LObj(o2))
        i, j = s.int("i"), s.int("j")
        for g in admissible(i, j, band):
            s.st.assume(g)
        off = layout(band)(i, j)
        s.st.assume(land(off >= 0, off < size_of(band)))     # proved by the layout lemma below
        s.goal(cmp("==", s.read(rid, off), -f2(off)), "equal_minus: every entry of the structure is negated")
        s.unchanged(rid2, b)
        return s
    V.contract("fortranArray::equal_minus", negation, "fortranArray", False)
    V.contract("fortranRectangularArray::equal_minus", negation, "fortranRectangularArray", True)

    def shift(cname, band):
        s = sess(ast, band)
        fn = method(ast, s.cls(cname), "addDiag")
        o, rid, f = mat(s, cname, size_of(band))
        v = s.real("v")
        s.run(fn, o, v)
        out = [s]
        i, j = s.int("i"), s.int("j")
        for same in (True, False):
            s2 = s.st.clone()
            for g in admissible(i, j, band):
                s2.assume(g)
            if same:
                s2.assume(i == j)
                jj = i
            else:
                s2.assume(i != j)
                jj = j
            off = layout(band)(i, jj)
            s.goal(cmp("==", s.read(rid, off, st=s2), f(off) + v if same else f(off)),
                   "addDiag: diagonal entries get +v" if same else "addDiag: other entries of the structure unchanged", pc=s2.pc)
        return out
    V.contract("fortranArray::addDiag", shift, "fortranArray", False)
    V.contract("fortranRectangularArray::addDiag", shift, "fortranRectangularArray", True)

    def lemma(band):
        s = sess(ast, band)
        i, j, p, q = [s.int(x) for x in "ijpq"]
        L = (2 * KL + KU + 1) if band else N_
        for g in admissible(i, j, band) + admissible(p, q, band):
            s.st.assume(g)
        off = layout(band)
        s.goal(land(off(i, j) >= 0, off(i, j) < size_of(band)), "layout lemma: admissible entries are inside the allocation")
        # steps: (j-q)*L = r  with |r|<L  forces j==q
        s.goal(z3.Implies(j >= q + 1, off(i, j) > off(p, q)), "layout lemma: columns are ordered")
        s.goal(z3.Implies(land(j == q, i != p), off(i, j) != off(p, q)), "layout lemma: rows are distinct")
        return s
    V.contract("layout lemma (full)", lemma, False)
    V.contract("layout lemma (banded)", lemma, True)


DRIVERS = [dict(src="C02.cc", name="C02", flags=["-fsanitize=address,undefined"], libs=["-llapack","-lblas"]),
           dict(src="C02.cc", name="C02-O3-aligned", flags=["-O3","-ffast-math","-DALIGN_BLOCKED"], libs=["-llapack","-lblas"])]
