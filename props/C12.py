"""C12 Rock4 step."""
import z3
from odv.rock import *
from odv.user import *
from odv.user import _same
NOTE = """The constructor and Rock4::kernel (with every member of ToolOMP it calls) are executed symbolically for each of the 50 table degrees, symbolic size, state, step size, tolerances and right-hand side; the right-hand side may be any function (its outputs are arbitrary). Obligations: the k-th evaluation of the right-hand side is at the value the recurrence/finishing formula prescribes (each stage in terms of the two previous ones), the new solution, the returned error estimate (weighted root mean square of the embedded combination), that the array kept for the next step holds the right-hand side at the new solution, and that y and the derivative of the current step are not written. The whole degree range is enumerated, so the finite quantifier is complete. Exact arithmetic."""


def run(V):
    a = ast4()
    V.contract("constructor", ctor, a)
    t = Tables(a).rows()
    for i, row in sorted(enumerate(t, 1), key=lambda x: -x[1][0]):
        V.contract("kernel, degree %d" % row[0], kernel, a, row)


def build(ast):
    s = Session(ast)
    ex = s.ex
    alloc_contracts(s)
    ex.ext[("odes_R4", "size")] = lambda ex, st, this, args, e: N_
    c = s.cls("Rock4")
    fo = s.obj(s.cls("odes_R4"), "F")
    o = s.obj(c, "S")
    s.ctor(o, LObj(fo))
    return s, c, o


def one(p):
    if not isinstance(p, Ptr) or len(p.alts) != 1:
        raise Unsupported("ambiguous array")
    return p.alts[0][1], p.alts[0][2]


def ctor(ast):
    s, c, o = build(ast)
    rs = [one(s.getf(o, f)) for f in ("k1", "k2", "k3", "k4", "g0", "fn", "temp")]
    s.goal(len({r for r, _ in rs}) == 7, "seven distinct arrays")
    for r, off in rs:
        s.goal(T.pynum(off) == 0, "array starts at its allocation")
        s.goal(cmp("==", s.ex.regions[r].size, N_), "array of the size of the problem")
    s.goal(cmp("==", s.getf(o, "size"), N_), "size is the size of the problem")
    s.goal(cmp("==", s.getf(o, "atol"), Fraction(1, 10**5)), "default absolute tolerance")
    s.goal(cmp("==", s.getf(o, "rtol"), Fraction(1, 10**5)), "default relative tolerance")
    return s


def kernel(ast, data):
    d, rec, fa, fb, fe = data
    s, c, o = build(ast)
    ex = s.ex
    # the degree selection prepares the step (its contract: C13)
    s.setf(o, "mdeg", d)
    s.run(method(ast, c, "mdegre", nparams=1), o, s.field(o, "mdeg"))
    s.goal(cmp("==", s.getf(o, "mdeg"), d), "tabulated degrees are selected as such")
    fc = s.int("funccal")
    s.setf(o, "funccal", fc)
    at, rt = s.real("atol"), s.real("rtol")
    s.setf(o, "atol", at)
    s.setf(o, "rtol", rt)
    arr = {f: one(s.getf(o, f))[0] for f in ("k1", "k2", "k3", "k4", "g0", "fn", "temp")}
    init = {}
    for f, r in arr.items():
        init[f] = T.freshfun("in_" + f, 1, "real")
        s.st.reg[r] = Base(init[f], "real")
    y, yf = s.array("y", N_)
    yv = ex.new_var(s.st, "double *", "y")
    s.st.mem[yv.cid] = P(y)
    dt = s.real("dt")
    calls = []
    before = s.st.clone()
    n = {"n": 0}

    def F(ex, st, this, args, e):
        ri, oi = one(ex.ev(args[0], st))
        ro, oo = one(ex.ev(args[1], st))
        ex.bound(st, ri, (add(oi, sub(N_, 1)),), "F reads")
        ex.bound(st, ro, (add(oo, sub(N_, 1)),), "F writes")
        s.goal(not (ri == ro), "the right-hand side is not asked to write into the vector it reads", pc=st.pc)
        yin = snap(ex, st, ri, oi, N_)
        f = T.freshfun("Fout", 1, "real")
        # cut: the argument gets a name (its definition is the obligation below)
        g = T.freshfun("g", 1, "real")
        calls.append((yin, g, f, st.pc))
        st.reg[ri] = Base(g, "real")
        st.reg[ro] = Base(f, "real")
    ex.ext[("odes_R4", "operator()")] = F
    err = s.run(method(ast, c, "kernel", nparams=2), o, yv, dt)
    s.goal(len(calls) == d - 1 + 5, "number of evaluations of the right-hand side: %d" % (d + 4))
    if len(calls) != d + 4:
        return s
    k = s.int("k")
    s2 = s.st.clone()
    s2.assume(k >= 0)
    s2.assume(k < N_)
    pc = s2.pc
    fn = init["fn"](k)
    h = lambda x: mul(dt, x)

    def lc(*ts):
        v = 0
        for a, b in ts:
            v = add(v, mul(a, b))
        return v
    G = [cl[1](k) for cl in calls]
    FO = [cl[2](k) for cl in calls]
    yk = yf(k)
    want = []
    for j in range(d):
        if j == 0:
            want.append(add(yk, mul(h(rec[0]), fn)))
        else:
            mu, nu = rec[2 * (j - 1) + 1], -rec[2 * (j - 1) + 2]
            want.append(lc((h(mu), FO[j - 1]), (1 - nu, G[j - 1]), (nu, yk if j == 1 else G[j - 2])))
    g = G[d - 1]
    k1, k2, k3, k4, k5 = FO[d - 1:]
    want.append(lc((1, g), (h(fa[0]), k1)))
    want.append(lc((1, g), (h(fa[1]), k1), (h(fa[2]), k2)))
    want.append(lc((1, g), (h(fa[3]), k1), (h(fa[4]), k2), (h(fa[5]), k3)))
    want.append(lc((1, g), (h(fb[0]), k1), (h(fb[1]), k2), (h(fb[2]), k3), (h(fb[3]), k4)))
    for j, (yin, gj, fj, cpc) in enumerate(calls):
        nm = "recurrence stage %d" % (j + 1) if j < d else "finishing stage %d" % (j - d + 2) if j < d + 3 else "new solution"
        s.goal(cmp("==", yin.at(k), want[j]), nm + (" is the right combination" if j < d + 3 else " (argument of the last evaluation) is the right combination"), pc=pc)
    s.unchanged(y, before, "solution at the beginning of the step")
    s.unchanged(arr["fn"], before, "derivative at the beginning of the step")
    tr = one(s.getf(o, "temp"))[0]
    gr = one(s.getf(o, "g0"))[0]
    s.goal(cmp("==", s.read(tr, k), G[-1]), "temp holds the new solution", pc=pc)
    s.goal(cmp("==", s.read(gr, k), k5), "g0 holds the right-hand side at the new solution", pc=pc)
    rs = {one(s.getf(o, f))[0] for f in ("k1", "k2", "k3", "k4", "g0", "fn", "temp")}
    s.goal(rs == set(arr.values()), "the object still owns its seven arrays")
    s.goal(one(s.getf(o, "fn"))[0] == arr["fn"], "fn is still the derivative at the beginning")
    s.goal(one(s.st.mem[yv.cid])[0] == y, "y still designates the solution")
    q = z3.Int("q!err")
    at_ = lambda f: f(q)
    K = [calls[j][2](q) for j in range(d - 1, d + 4)]
    e = 0
    for j in range(4):
        e = add(e, mul(sub(h(fe[j]), h(fb[j])), K[j]))
    e = add(e, mul(h(fe[4]), K[4]))
    yn = calls[-1][1](q)
    w = add(mul(ite(cmp(">=", yn, 0), yn, neg(yn)), rt), at)
    r = T.rdiv(e, w)
    s.goal(cmp("==", err, T.sqrt(T.rdiv(T.mksum(N_, q, mul(r, r)), R(N_)))), "error estimate is the weighted root mean square of the embedded combination")
    s.goal(cmp("==", s.getf(o, "funccal"), add(fc, d + 4)), "every evaluation is counted")
    return s


_I = ["common/include", "Rock4-NG/include"]
DRIVERS = [dict(src="C12.cc", name="C12", incs=_I, flags=["-DALIGN_BLOCKED", "-fsanitize=address,undefined"])]
