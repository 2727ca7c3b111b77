"""C20 symplectic step: fixed point iteration and compensated update."""
import os
import z3
from odv.spec import *
from odv.user import *
from odv import terms as T
NOTE = """SymplecticRK::step is proved for double and long double, symbolic dimension and iteration limit and a set of stage counts (quick: 2,3,5; thorough: every count 2..16), for arbitrary coefficients and arbitrary earlier state of the object (change_h of the coefficient classes stands as its contract, proved in C19/C21). One sweep of the fixed point iteration is proved from an arbitrary loop state: f is evaluated at each stage, the stages become u + sum_j a_ij f_j, the residual is the sum of squared changes; the loop is left early exactly when the residual is at most the threshold of Ftest and not smaller than the previous one; at most itermax sweeps. On success u becomes RND(u+e+sum b_i f_i) and the carried error is the exact remainder (u_old+e_old+sum b_i f_i)-u_new, where RND is an arbitrary rounding function applied where the code stores into u; all other arithmetic is exact. On failure u, e are unchanged and false is returned. The driver replays steps bit by bit in the compiled code."""
ASSUMPTIONS = ["all operations except the store into u are exact (the rounding of e+delta and of the stage sums is outside the proof)"]
BOUNDED = "stage counts 2,3,5 in the quick tier (all of 2..16 in the thorough tier)"
RND = z3.Function("RND", z3.RealSort(), z3.RealSort())
NMAP = {1009 * k: k * N_ for k in range(1, 17)}


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/symp.cc")
    counts = range(2, 17) if V.tier == "thorough" else (2, 3, 5)
    for D in ("double", "long double"):
        for ns in counts:
            V.contract("step, %d stages, %s" % (ns, D), lambda ns=ns, D=D: explore(lambda p: step(p, ast, ns, D)))
        V.contract("Ftest<%s>" % D, ftest, ast, D)


def setup(paths, ast, ns, D):
    s = Session(ast, nmap=NMAP)
    if paths is not None:
        s.ex.paths = paths
    u = User(s, ["odes_F", "odes_FL"])

    def F(ex, st, this, args, e):
        ri, oi = u.one(ex.ev(args[0], st), "f input")
        ro, oo = u.one(ex.ev(args[1], st), "f output")
        ex.bound(st, ri, (add(oi, sub(N_, 1)),), "f reads")
        ex.bound(st, ro, (add(oo, sub(N_, 1)),), "f writes")
        if ri == ro:
            ex.oblige(st, False, "f is not asked to write into the vector it reads", "pre")
        y = snap(ex, st, ri, oi, N_)
        f = T.freshfun("Fout", 1, "real")
        st.events = st.events + ((True, Event("F", y=y, out=f, at=(ro, oo))),)
        u.put(st, ro, oo, f)
    for nm in ("odes_F", "odes_FL"):
        s.ex.ext[(nm, "operator()")] = F
    c = s.cls("SymplecticRK", lambda c: [str(a) for a in ast.targs(c)][1:] == [str(ns), D])
    return s, c


def arrays(s, o, pre=""):
    """arbitrary contents for every array of the object"""
    out = {}
    for f, lv in s.ex.objs[o].n.items():
        if isinstance(lv, LArr):
            g = T.freshfun("in_" + pre + f, 1, "real")
            s.st.reg[lv.rid] = Base(g, "real")
            out[f] = (lv.rid, g)
        elif isinstance(lv, LObj):
            for k, v in arrays(s, lv.oid, f + ".").items():
                out[f + "." + k] = v
    return out


def havoc_contract(s, o, which):
    """change_h leaves arbitrary coefficients (their values are C19/C21)"""
    def h(ex, st, this, argv, e):
        for f, lv in ex.objs[this].n.items():
            if isinstance(lv, LArr) and f in which:
                st.reg[lv.rid] = Base(T.freshfun("chg_" + f, 1, "real"), "real")
        return None
    return h


def step(paths, ast, ns, D):
    s, c = setup(paths, ast, ns, D)
    ex = s.ex
    o = s.obj(c, "S")
    fill(s, o, N_)
    arr = arrays(s, o)
    G = s.field(o, "G").oid
    ex.contracts[("GaussianMethod", "change_h")] = havoc_contract(s, o, "ab")
    ex.contracts[("Extrap", "change_h")] = havoc_contract(s, o, "q")
    itermax = s.int("itermax")
    s.st.assume(itermax >= 1)
    s.setf(o, "itermax", itermax)
    u, uf = s.array("u", N_)
    ex.rnd = (u, RND, "in_u", lambda x: any(r.get("kind") == "loop" for r in x.records))
    h = s.real("h")
    fs = T.fresh("firstStep", "bool")
    fsc = ex.new_var(s.st, "bool", "firstStep")
    s.st.mem[fsc.cid] = fs
    e0 = arr["e"][1]
    before = s.st.clone()
    fn = method(ast, c, "step", nparams=3)
    # the residual test object is seen through its own operations
    test = s.field(o, "Test").oid
    tv, tt = s.field(test, "v"), s.field(test, "t")
    ex.debug = os.environ.get("DBG")
    ret = s.run(fn, o, h, P(u), fsc)
    recs = [r for r in ex.records if r.get("kind") == "loop" and r["fn"].split("/")[-1] == "step"]
    if len(recs) != 1:
        raise Unsupported("fixed point loop not recognised")
    rec = recs[0]
    ex.weak = None
    b = rec["begin"]
    if rec["N"] is None:
        raise Unsupported("number of sweeps")
    s.goal(cmp("==", rec["N"], itermax), "at most itermax sweeps", pc=b.pc)
    ra, rb = ex.objs[G].n["a"].rid, ex.objs[G].n["b"].rid
    ry, rf = arr["Y"][0], arr["Y1"][0]
    lab = lambda k, st=b: ex.content(st, ra).read((k,), ex.decider(st))
    # ---- one sweep
    sweeps = [("continues", rec["back"])] + [("stops", x) for x in rec["breaks"]]
    for kind, st in sweeps:
        if st.dead:
            continue
        evs = [e for g, e in st.events if e.kind == "F"]
        if len(st.events) != ns or len(evs) != ns:
            s.goal(z3.BoolVal(False), "sweep (%s): one evaluation of f per stage" % kind, pc=st.pc)
            continue
        k = s.int("k")
        t = st.clone()
        t.assume(k >= 0)
        t.assume(k < N_)
        if t.dead:
            continue
        rd = lambda st_, r, i: ex.content(st_, r).read((i,), ex.decider(t))
        order = {}
        for j in range(ns):
            for i, e in enumerate(evs):
                if e.at[0] == rf and T.pynum(z3.simplify(I(e.at[1]) - j * N_)) == 0:
                    order[j] = e
        if len(order) != ns:
            s.goal(z3.BoolVal(False), "sweep (%s): f of each stage goes to its own place" % kind, pc=st.pc)
            continue
        for j in range(ns):
            s.goal(cmp("==", order[j].y.at(k), rd(b, ry, j * N_ + k)), "sweep (%s): f is evaluated at stage %d" % (kind, j), pc=t.pc)
            s.goal(cmp("==", rd(t, rf, j * N_ + k), order[j].out(k)), "sweep (%s): f of stage %d is kept" % (kind, j), pc=t.pc)
        for i in range(ns):
            v = uf(k)
            for j in range(ns):
                v = add(v, mul(lab(i * ns + j), order[j].out(k)))
            s.goal(cmp("==", rd(t, ry, i * N_ + k), v), "sweep (%s): stage %d becomes u + sum a_ij f_j" % (kind, i), pc=t.pc)
        # residual
        v1 = ex.load(st, tv)
        want = resid(s, ex, st, b, ry, ns)
        s.goal(same_sum(v1, want), "sweep (%s): the residual is the sum of squared changes of all stages" % kind, pc=st.pc)
        v0, th = ex.load(b, tv), ex.load(b, tt)
        if kind == "stops":
            s.goal(land(cmp("<=", v1, th), cmp(">=", v1, v0)), "iteration stops only when the residual is below the threshold and not decreasing", pc=st.pc)
        else:
            s.goal(lnot(land(cmp("<", v1, th), cmp(">=", v1, v0))), "iteration continues only when the residual is above the threshold or decreasing", pc=st.pc)
    # ---- stage values on loop entry are defined by the predictor (C21)
    # ---- after the loop
    fin = s.st
    sb = B(ret) if T.ispy(ret) else ret
    ok = fin.clone()
    ok.assume(sb)
    bad = fin.clone()
    bad.assume(lnot(sb))
    conv = []
    for x in rec["breaks"]:
        conv.append(x)
    if not bad.dead:
        s.unchanged(u, before, "u when the step fails", st=bad)
        s.unchanged(arr["e"][0], before, "carried error when the step fails", st=bad)
    if not ok.dead:
        s.goal(z3.BoolVal(len(rec["breaks"]) > 0), "success needs a converged sweep", pc=ok.pc)
        v1 = ex.load(ok, tv)
        s.goal(cmp("<=", v1, ex.load(ok, tt)), "success is reported only with the residual below the threshold", pc=ok.pc)
        k = s.int("k")
        t = ok.clone()
        t.assume(k >= 0)
        t.assume(k < N_)
        un = ex.content(t, u).read((k,), ex.decider(t))
        en = ex.content(t, arr["e"][0]).read((k,), ex.decider(t))
        tot = add(uf(k), e0(k))
        for i in range(ns):
            tot = add(tot, mul(ex.content(t, rb).read((i,), ex.decider(t)), ex.content(t, rf).read((i * N_ + k,), ex.decider(t))))
        s.goal(cmp("==", add(un, en), tot), "success: new state plus carried error is exactly u + e + sum b_i f_i", pc=t.pc)
        ap = apps(R(un), {"RND"})
        if len(ap) == 1:
            s.goal(cmp("==", un, ap[0]), "success: u is the rounded sum", pc=t.pc)
            s.goal(cmp("==", ap[0].arg(0), tot), "success: u is the rounding of u + e + sum b_i f_i", pc=t.pc)
        else:
            s.goal(z3.BoolVal(False), "success: u is the rounded sum", pc=t.pc)
    return s


def resid(s, ex, st, b, ry, ns):
    """sum over stages i and components of (new - old)^2, as ns sums over components"""
    q = z3.Int("q!res")
    t = st.clone()
    t.assume(q >= 0)
    t.assume(q < N_)
    tot = R(0)
    for i in range(ns):
        d = sub(ex.content(t, ry).read((i * N_ + q,), ex.decider(t)), ex.content(b, ry).read((i * N_ + q,), ex.decider(t)))
        tot = add(tot, T.mksum(N_, q, mul(d, d)))
    return tot


def same_sum(a, b):
    return cmp("==", a, b)


def ftest(ast, D):
    """threshold and order of the stored residuals"""
    s = Session(ast, nmap={})
    c = s.cls("Ftest", lambda c: [str(a) for a in ast.targs(c)] == [D])
    o = s.obj(c, "T")
    s.ctor(o)
    t = s.getf(o, "t")
    s.goal(land(cmp(">", t, 0), cmp("<=", t, Fraction(1, 10**300))), "the threshold is a number near the smallest representable")
    return s


DRIVERS = [dict(src="C20.cc", name="C20", flags=["-fsanitize=address,undefined", "-DALIGN_BLOCKED"]), dict(src="C20.cc", name="C20O3", flags=["-O3", "-DALIGN_BLOCKED"])]
