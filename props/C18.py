"""C18 SDIRK tableaux."""
from odv.spec import *
from odv import trees as TR
NOTE = """The five tableau constructors are executed symbolically from the current source; constant diagonal, lower triangular use, row sums = abscissae and all rooted-tree order conditions up to the stated order (RKMethod1 4, RKMethod2 4, RKRS 2, CrN 2, EulerImp 1; weights b = D*A) are decided in exact rational arithmetic on the printed decimals with tolerance 5e-14 times the sum of absolute terms. Nothing is sampled: the set of tableaux and conditions is finite and enumerated completely."""
ORDER = dict(RKMethod1=4, RKMethod2=4, RKRS=2, CrN=2, EulerImp=1)
NS = dict(RKMethod1=5, RKMethod2=3, RKRS=2, CrN=1, EulerImp=1)


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/sdirk.cc", incs=["common/include", "SDIRKL/include", "SDIRKL/test/Lapl"])
    for m in ORDER:
        V.contract(m, table, V, ast, m)


def fr(v):
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    raise Unsupported("table entry is not a number: %s" % (v,))


def table(V, ast, m):
    s = Session(ast)
    c = s.cls(m)
    o = s.obj(c, "RK")
    s.ctor(o)
    ob = s.ex.objs[o].n
    ns = ob["A"].dims[0]

    def rd(nm, k):
        return fr(s.ex.content(s.st, ob[nm].rid).read((k,), s.ex.decider(s.st)))
    A = [[rd("A", i * ns + j) if j <= i else Fraction(0) for j in range(ns)] for i in range(ns)]
    S = [rd("S", i) for i in range(ns)]
    D = [rd("D", i) for i in range(ns)]
    rec(V, m, "number of stages", ns == NS[m], ns)
    for i in range(1, ns):
        rec(V, m, "diagonal entry %d equals entry 0" % i, A[i][i] == A[0][0], A[i][i])
    rec(V, m, "diagonal is not zero", A[0][0] != 0, A[0][0])
    for i in range(ns):
        r = sum(A[i])
        tol = Fraction(1, 2 * 10**14) * (1 + sum(abs(x) for x in A[i]))
        rec(V, m, "S[%d] is the row sum" % i, abs(r - S[i]) <= tol, "sum %s S %s" % (float(r), float(S[i])))
    b = [sum(D[j] * A[j][i] for j in range(ns)) for i in range(ns)]
    for t in TR.upto(ORDER[m]):
        w, sc = TR.rk_weight(t, A, b)
        want = Fraction(1, TR.density(t))
        rec(V, m, "order condition %s (order %d)" % (TR.name(t), TR.size(t)), abs(w - want) <= Fraction(5, 10**14) * (1 + sc), "value %.17g expected %s" % (float(w), want))
    return s


def rec(V, label, name, ok, detail=""):
    V.record(label, name, bool(ok), backend="exact-rational-evaluation", detail=str(detail))


DRIVERS = [dict(src="C18.cc", name="C18", incs=["common/include", "SDIRKL/include", "SDIRKL/test/Lapl"])]
