"""C01 vector kernels: the result of every kernel is the elementwise formula,
for every size n, all contents, and nothing else is modified."""
import z3
NOTE = """Every kernel of fortranVector/fortranVectorF (elementwise formula, frame, bounds) is proved for symbolic length n and arbitrary contents by one inductive loop summary each; aliasing of destination and operand is covered by the element-wise argument (an iteration touches only index i of every operand) and exercised by the replay driver. Assumes exact real arithmetic."""
from odv.spec import *


def vecF(s, name, size=None):
    c = s.cls("fortranVectorF")
    o = s.obj(c, name)
    rid, f = s.array(name, s.n)
    s.setf(o, "x", P(rid))
    s.setf(o, "y", P(rid))
    s.setf(o, "size", s.n)
    s.setf(o, "deletable", False)
    return o, rid, f


def vec(s, name, deletable=False):
    c = s.cls("fortranVector")
    o = s.obj(c, name)
    rid, f = s.array(name, s.n)
    s.setf(o, "x", P(rid))
    s.setf(o, "size", s.n)
    s.setf(o, "deletable", deletable)
    return o, rid, f


def kernel(ast, name, sig, spec, ptypes=None, this="F"):
    """sig: string of argument kinds: F vectorF, V vector, a scalar, p raw array.
    spec(k, t, args): t old value of this at k, args list of functions/scalars"""
    s = Session(ast)
    cls = s.cls("fortranVectorF" if this == "F" else "fortranVector")
    fn = method(ast, cls, name, ptypes=ptypes, nparams=len(sig))
    o, rid, f = vecF(s, "self") if this == "F" else vec(s, "self")
    argv, vals, others = [], [], []
    for i, c in enumerate(sig):
        if c in "FV":
            oo, r, g = (vecF if c == "F" else vec)(s, "X%d" % i)
            pty = qt(A.params(fn)[i])
            if "&" in pty:
                argv.append(LObj(oo))
            else:
                argv.append(ObjV(oo))
            vals.append(g)
            others.append(r)
        elif c == "p":
            r, g = s.array("X%d" % i, s.n)
            argv.append(P(r))
            vals.append(g)
            others.append(r)
        else:
            a = s.real("a%d" % i)
            argv.append(a)
            vals.append(a)
    before = s.st.clone()
    s.run(fn, o, *argv)
    s.goal(z3.BoolVal(not s.st.dead), "returns")
    res = spec(s, before, o, rid, f, vals)
    tgt, fun = res if isinstance(res, tuple) else (None, res)
    if tgt is None:
        p = s.getf(o, "x")
        s.forall(0, s.n, lambda k, st: cmp("==", s.readp(p, k, st), fun(k)), name + ": elementwise result")
        if this == "F":
            q = s.getf(o, "y")
            s.forall(0, s.n, lambda k, st: cmp("==", s.readp(q, k, st), fun(k)), name + ": elementwise result (y view)")
        for r in others:
            s.unchanged(r, before)
    else:
        s.forall(0, s.n, lambda k, st: cmp("==", s.read(tgt, k, st=st), fun(k)), name + ": elementwise result")
        for r in others + [rid]:
            if r != tgt:
                s.unchanged(r, before)
    return s


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/vec.cc")
    E = lambda fun: (lambda s, b, o, rid, f, v: (lambda k: fun(k, f, *v)))
    K = [
        ("operator=", "a", E(lambda k, t, a: a), ["double"], "F"),
        ("operator=", "p", E(lambda k, t, X: X(k)), ["double *"], "F"),
        ("operator=", "F", E(lambda k, t, X: X(k)), ["fortranVectorF"], "F"),
        ("operator+=", "F", E(lambda k, t, X: t(k) + X(k)), None, "F"),
        ("setsum2", "VV", E(lambda k, t, X, Y: X(k) + Y(k)), None, "F"),
        ("sum", "FF", E(lambda k, t, X, Y: X(k) + Y(k)), ["fortranVectorF", "fortranVectorF"], "F"),
        ("sum", "FV", E(lambda k, t, X, Y: X(k) + Y(k)), ["fortranVectorF", "fortranVector &"], "F"),
        ("a_Y", "aF", E(lambda k, t, a, Y: a * Y(k)), None, "F"),
        ("x_lc2", "FaFaF", E(lambda k, t, X, a, Y, b, Z: X(k) + a * Y(k) + b * Z(k)), None, "F"),
        ("lc2", "aFaF", E(lambda k, t, a, X, b, Y: a * X(k) + b * Y(k)), None, "F"),
        ("lc3", "aFaFaF", E(lambda k, t, a, X, b, Y, c, Z: a * X(k) + b * Y(k) + c * Z(k)), None, "F"),
        ("lc4", "aFaFaFaF", E(lambda k, t, a, X, b, Y, c, Z, d, W: a * X(k) + b * Y(k) + c * Z(k) + d * W(k)), None, "F"),
        ("lc5", "aFaFaFaFaF", E(lambda k, t, a, X, b, Y, c, Z, d, W, e, U: a * X(k) + b * Y(k) + c * Z(k) + d * W(k) + e * U(k)), None, "F"),
        ("x_lc3", "FaFaFaF", E(lambda k, t, X, a, Y, b, Z, c, W: X(k) + a * Y(k) + b * Z(k) + c * W(k)), None, "F"),
        ("x_lc4", "FaFaFaFaF", E(lambda k, t, X, a, Y, b, Z, c, W, d, U: X(k) + a * Y(k) + b * Z(k) + c * W(k) + d * U(k)), None, "F"),
        ("a_x_plus_y", "aFF", E(lambda k, t, a, X, Y: a * X(k) + Y(k)), None, "F"),
        ("operator=", "V", E(lambda k, t, X: X(k)), None, "V"),
        ("operator+=", "V", E(lambda k, t, X: t(k) + X(k)), None, "V"),
    ]
    for nm, sig, sp, pt, this in K:
        V.contract("fortranVector%s::%s(%s)" % ("F" if this == "F" else "", nm, sig), kernel, ast, nm, sig, sp, pt, this)

    def put():
        def sp(s, b, o, rid, f, v):
            tgt = [r for r, g in s.ex.regions.items() if g.name == "X0"][0]
            return tgt, (lambda k: f(k))
        return kernel(ast, "put", "p", sp)
    V.contract("fortranVectorF::put", put)

    def switch():
        s = Session(ast)
        fn = method(ast, s.cls("fortranVectorF"), "switchadr")
        a, ra, fa = vecF(s, "A")
        b, rb, fb = vecF(s, "B")
        before = s.st.clone()
        s.run(fn, a, LObj(b))
        for o, g in ((a, fb), (b, fa)):
            for fld in "xy":
                p = s.getf(o, fld)
                s.forall(0, s.n, lambda k, st: cmp("==", s.readp(p, k, st), g(k)), "switchadr exchanges contents (%s)" % fld)
        return s
    V.contract("fortranVectorF::switchadr", switch)

    def index():
        out = []
        for cn, mk in (("fortranVector", vec), ("fortranVectorF", vecF)):
            for const in (True, False):
                s = Session(ast)
                fn = method(ast, s.cls("fortranVector"), "operator()", const=const)
                a, ra, fa = mk(s, "A")
                i = s.int("i")
                s.st.assume(i >= 1)
                s.st.assume(i <= s.n)
                v = s.run(fn, a, i)
                if isinstance(v, (LElem, LCell)):
                    v = s.ex.load(s.st, v)
                s.goal(cmp("==", v, fa(i - 1)), "(%s) operator()(i) is element i, fortran indexing" % cn)
                out.append(s)
        return out
    V.contract("fortranVector::operator()", index)


DRIVERS = [dict(src="C01.cc", name="C01", flags=["-fsanitize=address,undefined"]),
           dict(src="C01.cc", name="C01-O3-aligned", flags=["-O3", "-ffast-math", "-DALIGN_BLOCKED"])]
