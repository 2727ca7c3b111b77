"""C14 parallel Rock4."""
from odv.rock import *
from props import C12
NOTE = """The translation unit is parsed with ROCK4_OMP and -fopenmp. Every loop under an OpenMP directive reached from Rock4::kernel must be proved parallel: no iteration writes a variable or array element that another iteration reads or writes (private, firstprivate and reduction(+) clauses taken into account), for symbolic vector length; then every schedule and thread count gives the sequential semantics, for which the complete step contract of C12 is proved again on the OpenMP build (recurrence, finishing stages, error norm as a sum in any order). Every parallel directive of the class must be met by some proof. Exact arithmetic (summation order of the error norm is free)."""
ASSUMPTIONS = ["the OpenMP runtime implements the directives as specified; the user's right-hand side is called outside parallel regions"]


def run(V):
    a = ast4("-DROCK4_OMP", "-fopenmp")
    t = Tables(a).rows()
    for row in t:
        if row[0] in ((1, 2, 3, 4, 5) if V.tier == "quick" else [r[0] for r in t]):
            V.contract("OpenMP kernel, degree %d" % row[0], races, a, row)
    V.contract("directives", directives, a, t)


def races(a, row):
    s = C12.kernel(a, row)
    rep(s)
    return s


def rep(s):
    s.goal(len(s.ex.ompreport) > 0, "parallel loops are met")
    for i, r in enumerate(s.ex.ompreport):
        if r.get("undecided"):
            raise Unsupported("parallel loop in %s not decided" % r["fn"])
        s.goal(not [x for x in r["races"] if x], "parallel loop %d (%s) has independent iterations: %s" % (i + 1, r["fn"].split("/")[-1], "; ".join(x for x in r["races"] if x) or "no race"))


def directives(a, t):
    """every parallel directive of the instantiated class is among those proved"""
    s = C12.kernel(a, t[4])
    seen = {id(r["node"]) for r in s.ex.ompreport}
    c = s.cls("ToolOMP")
    n = [0, 0]

    def walk(x, omp):
        if not isinstance(x, dict):
            return
        k = x.get("kind", "")
        if k.startswith("OMP") and k.endswith("Directive"):
            n[0] += 1
            omp = True
        if k == "ForStmt" and omp:
            n[1] += id(x) in seen
            omp = False
        for y in x.get("inner", ()):
            walk(y, omp)
    for m in c.get("inner", ()):
        walk(m, False)
    s.goals[:] = []
    s.ex.obls[:] = []
    if n[0] == 0:
        raise Missing("no parallel directive")
    if n[1] != n[0]:
        raise Unsupported("%d of %d parallel loops are reached from the step" % (n[1], n[0]))
    s.goal(n[1] == n[0], "every parallel loop of the class is reached from the step (%d)" % n[0])
    return s


_I = ["common/include", "Rock4-NG/include"]
DRIVERS = [dict(src="C14.cc", name="C14-tsan", incs=_I, flags=["-DALIGN_BLOCKED", "-DROCK4_OMP", "-fopenmp", "-fsanitize=thread", "-g"]),
           dict(src="C14.cc", name="C14", incs=_I, flags=["-DALIGN_BLOCKED", "-DROCK4_OMP", "-fopenmp", "-O0"], libs=["-lpthread"])]
