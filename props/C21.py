"""C21 step-size change and predicted start values of the symplectic integrator."""
import z3
from odv.spec import *
from odv.user import *
from props.C20 import setup, arrays, NMAP
NOTE = """Proved with the class invariant 'the coefficients held are Old_h times the tables': the constructors establish it (Old_h=1), and step() from an arbitrary state re-establishes it for exactly the new h (both for h==Old_h and h!=Old_h, all arithmetic of the long double instantiation being required to stay in long double: a conversion to double on the way is a failed obligation). Extrap::change_h and Extrap::operator() are proved for every stage count 2..16, both precisions and symbolic dimension n>=1: Y[i][l]=u[l]+sum_j q_ij F[j][l], all accesses inside the arrays. In step() the stages at the head of the iteration are that prediction if this is not a first step and the step size is unchanged, otherwise u."""
BOUNDED = "step() itself with stage counts 2,3,4 (quick) or 2..16 (thorough)"
TRUNC = z3.Function("to_double", z3.RealSort(), z3.RealSort())


def trunc(ex, st, v):
    return TRUNC(R(v)) if isinstance(v, z3.ExprRef) else v


def run(V):
    from odv.ast import AST, VERIF
    ast = AST(VERIF + "/harness/symp.cc")
    counts = range(2, 17) if V.tier == "thorough" else (4, 3, 2)
    for D in ("double", "long double"):
        for ns in counts:
            V.contract("step, %d stages, %s" % (ns, D), lambda ns=ns, D=D: explore(lambda p: step(p, ast, ns, D)))
        for ns in range(2, 17):
            V.contract("Extrap<n,%d,%s>" % (ns, D), extrap, ast, ns, D)
        for ns in (1, 17):
            V.contract("Extrap<n,%d,%s>" % (ns, D), eguard, ast, ns, D)


def tables(ast, ns, D):
    """coefficient tables: what the constructors leave"""
    s, c = setup(None, ast, ns, D)
    o = s.obj(c, "S0")
    s.ctor(o, s.int("itermax0"))
    G, E = s.field(o, "G").oid, s.field(o, "Ext").oid

    def rd(oid, f, k):
        return s.ex.content(s.st, s.ex.objs[oid].n[f].rid).read((k,), s.ex.decider(s.st))
    t = dict(a=[rd(G, "a", k) for k in range(ns * ns)], b=[rd(G, "b", k) for k in range(ns)], q=[rd(E, "q", k) for k in range(ns * ns)])
    return s, o, t


def step(paths, ast, ns, D):
    s0, o0, tab = tables(ast, ns, D)
    s, c = setup(paths, ast, ns, D)
    ex = s.ex
    if D == "long double":
        ex.trunc_hook = trunc
    s.goals += [dict(pc=s0.st.pc, goal=B(cmp("==", s0.getf(o0, "Old_h"), 1)), name="constructor: the coefficients are those of step 1", kind="post")]
    k0 = z3.Int("k0!e")
    z = s0.st.clone()
    z.assume(k0 >= 0)
    z.assume(k0 < N_)
    s.goals.append(dict(pc=z.pc, goal=B(cmp("==", s0.ex.content(z, s0.field(o0, "e").rid).read((k0,), s0.ex.decider(z)), 0)), name="constructor: carried error is zero", kind="post"))
    o = s.obj(c, "S")
    fill(s, o, N_)
    arr = arrays(s, o)
    G, E = s.field(o, "G").oid, s.field(o, "Ext").oid
    old = s.getf(o, "Old_h")
    reg = {"a": ex.objs[G].n["a"].rid, "b": ex.objs[G].n["b"].rid, "q": ex.objs[E].n["q"].rid}
    for k, r in reg.items():
        s.st.reg[r] = Dict(None, {i: mul(old, v) for i, v in enumerate(tab[k])})
    itermax = s.int("itermax")
    s.st.assume(itermax >= 1)
    s.setf(o, "itermax", itermax)
    u, uf = s.array("u", N_)
    h = s.real("h")
    fsc = ex.new_var(s.st, "bool", "firstStep")
    fs = T.fresh("firstStep", "bool")
    s.st.mem[fsc.cid] = fs
    yf = arr["Y1"][1]
    s.run(method(ast, c, "step", nparams=3), o, h, P(u), fsc)
    recs = [r for r in ex.records if r.get("kind") == "loop" and r["fn"].split("/")[-1] == "step"]
    if len(recs) != 1:
        raise Unsupported("fixed point loop not recognised")
    ex.weak = None
    ex.trunc_hook = None
    ent = recs[0]["entry"]
    for st, w in ((s.st, "after the step"), (ent, "during the step")):
        s.goal(cmp("==", s.getf(o, "Old_h", st), h), w + ": the recorded step is h", pc=st.pc)
        for k, r in reg.items():
            for i, v in enumerate(tab[k]):
                s.goal(cmp("==", ex.content(st, r).read((i,), ex.decider(st)), mul(h, v)), w + ": coefficient %s[%d] is h times the table" % (k, i), pc=st.pc)
    k = s.int("k")
    ext = land(lnot(fs), cmp("==", old, h))
    for nm, cond in (("predicted", ext), ("plain", lnot(ext))):
        t = ent.clone()
        t.assume(cond)
        t.assume(k >= 0)
        t.assume(k < N_)
        if t.dead:
            continue
        for i in range(ns):
            v = uf(k)
            if nm == "predicted":
                for j in range(ns):
                    v = add(v, mul(mul(h, tab["q"][i * ns + j]), yf(j * N_ + k)))
            s.goal(cmp("==", ex.content(t, arr["Y"][0]).read((i * N_ + k,), ex.decider(t)), v), "%s start value of stage %d" % (nm, i), pc=t.pc)
    return s


def extrap(ast, ns, D):
    s = Session(ast, nmap=NMAP)
    ex = s.ex
    c = s.cls("Extrap", lambda c: [str(a) for a in ast.targs(c)] == ["1009", str(ns), D])
    o = s.obj(c, "E")
    s.ctor(o)
    r = ex.objs[o].n["q"].rid
    rd = lambda k: ex.content(s.st, r).read((k,), ex.decider(s.st))
    t = [rd(k) for k in range(ns * ns)]
    s.goal(len(ex.throws) == 0 and not s.st.dead, "construction succeeds")
    s.goal(all(isinstance(x, (int, Fraction)) for x in t), "every coefficient is set")
    s.st.reg[r] = Base(T.freshfun("oldq", 1, "real"), "real")
    h = s.real("h")
    if D == "long double":
        ex.trunc_hook = trunc
    s.run(method(ast, c, "change_h", nparams=1), o, h)
    for k in range(ns * ns):
        s.goal(cmp("==", rd(k), mul(h, t[k])), "change_h: coefficient %d is h times the table" % k)
    qf = T.freshfun("q", 1, "real")
    s.st.reg[r] = Base(qf, "real")
    F, ff = s.array("F", ns * N_)
    Y, _ = s.array("Y", ns * N_)
    u, uf = s.array("u", N_)
    before = s.st.clone()
    s.run(method(ast, c, "operator()", nparams=3), o, P(F), P(Y), P(u))
    k = s.int("k")
    st = s.st.clone()
    st.assume(k >= 0)
    st.assume(k < N_)
    for i in range(ns):
        v = uf(k)
        for j in range(ns):
            v = add(v, mul(qf(i * ns + j), ff(j * N_ + k)))
        s.goal(cmp("==", s.read(Y, i * N_ + k, st=st), v), "predicted stage %d" % i, pc=st.pc)
    s.unchanged(F, before, "F")
    s.unchanged(u, before, "u")
    return s


def eguard(ast, ns, D):
    s = Session(ast, nmap=NMAP)
    c = s.cls("Extrap", lambda c: [str(a) for a in ast.targs(c)] == ["1009", str(ns), D])
    o = s.obj(c, "E")
    s.ctor(o)
    s.goal(s.st.dead and len(s.ex.throws) > 0, "construction with this stage count raises OdesException")
    return s


DRIVERS = [dict(src="C21.cc", name="C21", flags=["-fsanitize=address,undefined", "-DALIGN_BLOCKED"])]
