"""C19 Gauss coefficients."""
from odv.spec import *
NOTE = """GaussianMethod<s,double> and <s,long double> are executed symbolically from the current source for every s in 2..16: construction leaves the tables; change_h(h), from an arbitrary earlier state of the object, leaves exactly h times the same tables; for s=1, 17, 18 construction raises OdesException (the primary template, which is what any other count instantiates). On the tables all symplecticity conditions b_i a_ij+b_j a_ji=b_i b_j, all quadrature conditions of degree<=2s-1 and all collocation conditions are evaluated exactly on the printed decimals (tolerance 3e-12 for the 12-digit double tables, 2e-15 for long double)."""
TOL = {"double": Fraction(3, 10**12), "long double": Fraction(2, 10**15)}


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/symp.cc")
    for D in TOL:
        for ns in range(2, 17):
            V.contract("GaussianMethod<%d,%s>" % (ns, D), table, V, ast, ns, D)
        for ns in (1, 17, 18):
            V.contract("GaussianMethod<%d,%s>" % (ns, D), guard, ast, ns, D)


def gm(ast, ns, D):
    cs = ast.find_class("GaussianMethod", lambda c: [str(a) for a in ast.targs(c)] == [str(ns), D])
    cs = [c for c in cs if any(f.get("kind") == "FieldDecl" for f in c.get("inner", ()))]
    if not cs:
        raise Missing("GaussianMethod<%d,%s>" % (ns, D))
    return cs[0]


def fr(v):
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    raise Unsupported("table entry is not a number: %s" % (v,))


def table(V, ast, ns, D):
    s = Session(ast, nmap={})
    ex = s.ex
    lab = "GaussianMethod<%d,%s>" % (ns, D)
    c = gm(ast, ns, D)
    o = s.obj(c, "G")
    s.ctor(o)
    nthrow = len(ex.throws)
    ok = nthrow == 0 and not s.st.dead
    V.record(lab, "construction succeeds", ok, backend="exact-rational-evaluation")
    if not ok:
        return s
    rid = {k: ex.objs[o].n[k].rid for k in "ab"}
    rd = lambda k, i: ex.content(s.st, rid[k]).read((i,), ex.decider(s.st))
    a = [[fr(rd("a", i * ns + j)) for j in range(ns)] for i in range(ns)]
    b = [fr(rd("b", i)) for i in range(ns)]
    # the accessor
    fa = method(ast, c, "A", nparams=2)
    for i in range(ns):
        for j in range(ns):
            v = s.run(fa, o, i, j)
            if v != a[i][j]:
                V.record(lab, "A(%d,%d) is entry (%d,%d)" % (i, j, i, j), False, backend="exact-rational-evaluation", detail=str(v))
    tol = TOL[D]
    cs = [sum(r) for r in a]
    worst = 0

    def rec(nm, err):
        V.record(lab, nm, abs(err) <= tol, backend="exact-rational-evaluation", detail="residual %.3g" % float(err))
    for i in range(ns):
        for j in range(i + 1):
            rec("b_%d a_%d%d + b_%d a_%d%d = b_%d b_%d" % (i, i, j, j, j, i, i, j), b[i] * a[i][j] + b[j] * a[j][i] - b[i] * b[j])
    pw = [[Fraction(1)] for _ in range(ns)]
    for i in range(ns):
        for k in range(2 * ns):
            pw[i].append(lim(pw[i][-1] * cs[i]))
    for k in range(1, 2 * ns + 1):
        rec("quadrature exact for degree %d" % (k - 1), sum(b[i] * pw[i][k - 1] for i in range(ns)) - Fraction(1, k))
    for k in range(1, ns + 1):
        for i in range(ns):
            rec("collocation condition node %d degree %d" % (i, k - 1), sum(a[i][j] * pw[j][k - 1] for j in range(ns)) - pw[i][k] / k)
    for i in range(ns):
        for j in range(i):
            V.record(lab, "nodes %d and %d differ" % (i, j), abs(cs[i] - cs[j]) > Fraction(1, 1000), backend="exact-rational-evaluation")
    # change_h from any state
    h = s.real("h")
    for k in "ab":
        s.st.reg[rid[k]] = Base(T.freshfun("old_" + k, 1, "real"), "real")
    s.run(method(ast, c, "change_h", nparams=1), o, h)
    s.goal(not s.st.dead and len(ex.throws) == 0, "change_h does not throw")
    for i in range(ns):
        s.goal(cmp("==", rd("b", i), mul(h, b[i])), "change_h: b_%d = h times the table" % i)
        for j in range(ns):
            s.goal(cmp("==", rd("a", i * ns + j), mul(h, a[i][j])), "change_h: a_%d%d = h times the table" % (i, j))
    return s


def lim(x):
    """keep powers at 60 digits: far below the tolerance"""
    q = 10**60
    return Fraction(int(x * q), q)


def guard(ast, ns, D):
    s = Session(ast, nmap={})
    c = gm(ast, ns, D)
    o = s.obj(c, "G")
    s.ctor(o)
    s.goal(s.st.dead, "construction with this stage count never succeeds")
    s.goal(len(s.ex.throws) >= 1 and all("OdesException" in str(t["what"]) for t in s.ex.throws), "OdesException is raised")
    return s


DRIVERS = [dict(src="C19.cc", name="C19", flags=["-fsanitize=address,undefined", "-DALIGN_BLOCKED"])]
