"""C29 Rodas coefficient sets."""
from odv.spec import *
from odv.user import *
from odv import trees as TR
NOTE = """rocoe() is executed symbolically from the current source for method 1, 2, 3 (and 9, which must raise OdesException). From the coefficients it leaves, Gamma=(diag(1/gamma)-C)^-1, alpha=A*Gamma, b=m*Gamma are computed in exact rational arithmetic and every Rosenbrock rooted-tree condition up to order 4 for the solution and up to order 3 for the embedded solution, the abscissae c_i = sum alpha_ij (c_5=c_6=1) and the time-derivative weights d_i = sum gamma_ij (d_5=d_6=0) are decided. Finite and enumerated completely; that the step uses the coefficients in these roles is C10."""
TOL = Fraction(1, 10**12)


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/rodas.cc", flags=["-I", VERIF + "/harness"])
    for m in (1, 2, 3):
        V.contract("method %d" % m, coefs, V, ast, m)
    V.contract("method 9", bad, ast)


def load(ast, m):
    rhs = "odes_RhsA%d" % m
    s = Session(ast, nmap={1009: N_, 2018: 2 * N_, 1008: N_ - 1})
    M = Mats(s, kl=N_ - 1, ku=N_ - 1)
    User(s, [rhs], M)
    c = s.cls("Rodascc", lambda c: any(rhs in str(a) for a in ast.targs(c)))
    o = solver_object(s, c, M)
    return s, c, o


def coefs(V, ast, m):
    s, c, o = load(ast, m)
    s.run(method(ast, c, "rocoe", nparams=0), o)
    lab = "method %d" % m
    s.goal(s.ex.throws == [] and not s.st.dead, "rocoe returns normally for method %d" % m)
    V.record(lab, "coefficients are set without an exception", not s.ex.throws and not s.st.dead, backend="exact-rational-evaluation")

    def g(nm):
        v = s.getf(o, nm)
        if not isinstance(v, (int, Fraction)):
            V.record(lab, "coefficient %s is set" % nm, False, backend="exact-rational-evaluation")
            raise Missing("coefficient " + nm)
        return Fraction(v)
    z = Fraction(0)
    gam = g("GAMMA")
    A = [[z] * 6 for _ in range(6)]
    C = [[z] * 6 for _ in range(6)]
    for i in range(2, 6):
        for j in range(1, i):
            A[i - 1][j - 1] = g("A%d%d" % (i, j))
    for i in range(2, 7):
        for j in range(1, i):
            C[i - 1][j - 1] = g("C%d%d" % (i, j))
    A[5] = A[4][:4] + [Fraction(1), z]
    m4 = A[4][:4] + [Fraction(1), Fraction(1)]
    m3 = A[4][:4] + [Fraction(1), z]
    cc = [z, g("C2"), g("C3"), g("C4"), Fraction(1), Fraction(1)]
    dd = [g("D1"), g("D2"), g("D3"), g("D4"), z, z]
    # Gamma = (I/gamma - C)^-1, lower triangular
    n = 6
    L = [[(1 / gam if i == j else z) - C[i][j] for j in range(n)] for i in range(n)]
    Gm = [[z] * n for _ in range(n)]
    for j in range(n):
        for i in range(j, n):
            r = Fraction(1 if i == j else 0) - sum(L[i][k] * Gm[k][j] for k in range(j, i))
            Gm[i][j] = r / L[i][i]
    mat = lambda X, Y: [[sum(X[i][k] * Y[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    al = mat(A, Gm)
    be = [[al[i][j] + Gm[i][j] for j in range(n)] for i in range(n)]
    b4 = [sum(m4[k] * Gm[k][j] for k in range(n)) for j in range(n)]
    b3 = [sum(m3[k] * Gm[k][j] for k in range(n)) for j in range(n)]

    def rec(nm, err, sc=1):
        V.record(lab, nm, abs(err) <= TOL * (1 + sc), backend="exact-rational-evaluation", detail="residual %.3g" % float(err))
    import os
    for i in range(6):
        rec("abscissa of stage %d is the row sum of alpha" % (i + 1), sum(al[i]) - cc[i], sum(map(abs, al[i])))
        rec("time derivative weight of stage %d is the row sum of gamma" % (i + 1), sum(Gm[i]) - dd[i], sum(map(abs, Gm[i])))

    def weight(t, b):
        def phi(t):
            v, w = [Fraction(1)] * n, [Fraction(1)] * n
            E = be if len(t) == 1 else al
            for u in t:
                p, q = phi(u)
                v = [v[i] * sum(E[i][j] * p[j] for j in range(n)) for i in range(n)]
                w = [w[i] * sum(abs(E[i][j]) * q[j] for j in range(n)) for i in range(n)]
            return v, w
        p, q = phi(t)
        return sum(x * y for x, y in zip(b, p)), sum(abs(x) * y for x, y in zip(b, q))
    for t in TR.upto(4):
        w, sc = weight(t, b4)
        rec("solution: order condition %s" % TR.name(t), w - Fraction(1, TR.density(t)), sc)
    for t in TR.upto(3):
        w, sc = weight(t, b3)
        rec("embedded solution: order condition %s" % TR.name(t), w - Fraction(1, TR.density(t)), sc)
    for j in range(n):
        rec("stiffly accurate: weight %d is the last row of alpha+gamma" % (j + 1), b4[j] - be[5][j])
    return s


def bad(ast):
    s, c, o = load(ast, 9)
    s.run(method(ast, c, "rocoe", nparams=0), o)
    s.goal(s.st.dead and len(s.ex.throws) == 1 and "OdesException" in str(s.ex.throws[0]["what"]), "any other method number raises OdesException")
    return s


DRIVERS = [dict(src="C29.cc", name="C29", libs=["-llapack", "-lblas"])]
