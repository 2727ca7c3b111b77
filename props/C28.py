"""C28 event log."""
import hashlib
import re
import z3
from odv import rodloop, radloop
from odv.rodloop import rodas_ast
from odv.radloop import radau_ast
from odv.rock import *
from odv.r4loop import timeloop
from odv.spec import *
from odv.mem import Ptr
NOTE = """Radau5cc, Rodascc and Rock4 are taken with their logging compiled in; logger::put and clear stand as their contracts, recording the call and the state of the solver at that moment; every assignment to the step size is recorded as well. operator() is cut at its loop heads and one pass of each loop executed from an arbitrary state satisfying the invariants. Obligations on every path: the log is cleared before the first entry and never again; every entry carries the time and step number in force; Radau5: every assignment to the step size is followed, before the next one and before the pass ends, by an entry with that value (changedH, or the Newton entry where the iteration failed), no changedH entry without an assignment; a pass through the retry loop gives exactly one NewtonFailed or NewtonWillNotConverge entry, by the reason, if it is repeated and none if not; exactly one rejectedStep entry with the rejected step if the estimate is not below one, none otherwise. Rodas: the same for the settings of the step while a step is prepared; no entry while stages are computed. Rock4: exactly one entry per attempt, success if and only if the error is below one, with the step proposed. Results: both builds, logging on and off, are executed symbolically and leave identical terms in every cell, array, path condition and user call, pass by pass. logger::put is executed down to the list. tostring and the stream operator (standard library strings) are checked by the drivers only, as are whole integrations, against an independent simulation."""
ASSUMPTIONS = ["std::list keeps its elements in order", "user functions, factorisations, kernels by their contracts (as in C07-C16)", "the loop invariants (discharged by the checks of C07, C09, C10, C13)", "logger::tostring: bounded check by the drivers"]


def run(V):
    ra, ro, r4 = radau_ast("-DLOGRADAU5"), rodas_ast("-DLOGRODAS"), ast4("-DLOGROCK4")
    for w in BUILD:
        V.contract("%s: logging alters nothing" % w, same, r4, w)
    for rhs in ("odes_RhsA", "odes_RhsF"):
        V.contract("Radau, %s" % rhs, radau, ra, rhs)
    for rhs in ("odes_RhsA1", "odes_RhsF"):
        V.contract("Rodas, %s" % rhs, rodas, ro, rhs)
    V.contract("Rock4", rock4, r4)
    V.contract("logger", logger, ra)


def watch(ex, cid):
    """assignments to the cell become events"""
    from odv.user import Event

    def on(st, c, v, guard):
        if c == cid():
            st.events = st.events + ((guard, Event("set", v=v, mem=None)),)
    ex.onassign = on


KINDS = ("success", "rejectedStep", "NewtonFailed", "NewtonWillNotConverge", "changedH", "all")


def since(a, b):
    """log entries and assignments of b that are not of a"""
    old = set() if a is None else {id(e) for g, e in a.events}
    return [(g, e) for g, e in b.events if id(e) not in old and e.kind in ("log", "set")]


def both(*gs):
    return land(*[g for g in gs if g is not True])


class Log:
    def __init__(self, q, time, step, hkinds):
        self.q, self.s, self.time, self.step, self.hkinds = q, q.s, time, step, hkinds

    def kind(self, e):
        k = e.args[2]
        if T.ispy(k):
            return KINDS[int(k)]
        raise Unsupported("kind of a log entry is not a constant")

    def seg(self, name, a, b, first=False, sets=True):
        """common obligations; returns the guarded entries"""
        if b.dead:
            return []
        s, pc = self.s, b.pc
        E = since(a, b)
        G = lambda f, nm: s.goal(f, "%s: %s" % (name, nm), pc=pc)
        out = []
        for n, (g, e) in enumerate(E):
            if e.kind != "log":
                continue
            if e.call == "clear":
                G(first and n == 0 and g is True, "the log is only cleared at the start")
                continue
            if first and n == 0:
                G(False, "the log is cleared before the first entry")
            v = lambda c: e.mem[c]
            t = lambda f: (lnot(g) if g is not True else False)
            G(lor(t(0), cmp("==", e.args[0], self.time(e))), "entry with the time in force")
            G(lor(t(0), cmp("==", e.args[1], self.step(e))), "entry with the step number in force")
            out.append((g, self.kind(e), e))
        if first and not E:
            G(False, "the log is cleared before the first entry")
        E = [(g, e) for g, e in E if e.kind == "set" or e.call == "put" and self.kind(e) in self.hkinds]
        if sets:
            self.pairs(E, G)
        return out

    def pairs(self, E, G):
        ok = lambda e, f: f.kind == "log" and self.kind(f) in self.hkinds
        for i, (g, e) in enumerate(E):
            if e.kind == "set":
                seen = False
                for g2, f in E[i + 1:]:
                    here = land(B(g), B(g2), lnot(B(seen)))
                    G(lor(lnot(here), ok(e, f) and cmp("==", f.args[3], e.v)), "a change of the step size is logged with its value")
                    seen = lor(seen, g2)
                    if g2 is True:
                        break
                G(lor(lnot(B(g)), seen), "a change of the step size is logged")
            elif self.kind(e) in self.hkinds:
                seen = False
                for g2, f in reversed(E[:i]):
                    here = land(B(g), B(g2), lnot(B(seen)))
                    G(lor(lnot(here), f.kind == "set"), "nothing is logged without a change")
                    seen = lor(seen, g2)
                    if g2 is True:
                        break
                G(lor(lnot(B(g)), seen), "nothing is logged without a change")

    def exactly(self, name, st, entries, want):
        """want: {kind: (condition, value)}: exactly one entry of the kind if the condition holds, else none"""
        if st.dead:
            return
        s = self.s
        for k, (c, v) in want.items():
            mine = [(g, e) for g, kk, e in entries if kk == k]
            n = 0
            for g, e in mine:
                n = add(n, 1 if g is True else ite(g, 1, 0))
                if v is not None:
                    s.goal(lor(lnot(B(g)), cmp("==", e.args[3], v)), "%s: value of the %s entry" % (name, k), pc=st.pc)
            s.goal(cmp("==", n, ite(B(c), 1, 0)), "%s: %s entry exactly when due" % (name, k), pc=st.pc)
        for g, k, e in entries:
            if k not in want and k not in self.hkinds[:1]:
                s.goal(lnot(B(g)), "%s: no %s entry" % (name, k), pc=st.pc)


def ends(r):
    out = []
    for z in list(r["exits"]) + [r["back"]]:
        if not z.dead and not any(z is w for w in out):
            out.append(z)
    return out


def prepare(run):
    """run with the step size watched"""
    from odv import radloop as ra, rodloop as ro
    box = {}
    for m in (ra, ro):
        old = m.setup

        def setup(ast, rhs, old=old):
            q = old(ast, rhs)
            watch(q.s.ex, lambda: q.s.field(q.o, "h").cid)
            return q
        box[m] = old
        m.setup = setup
    try:
        return run()
    finally:
        for m, f in box.items():
            m.setup = f


def radau(ast, rhs):
    q = prepare(lambda: radloop.steploop(ast, rhs, log=True, cuts=False))
    s, ex, fld = q.s, q.s.ex, q.fld
    s.goals = []
    s.skipkinds = ("pre", "cut", "bound", "inv")
    NW = ("NewtonFailed", "NewtonWillNotConverge")
    nst = s.field(q.o, "nstep").cid
    L_ = Log(q, lambda e: e.mem[q.xv.cid], lambda e: e.mem[nst], ("changedH",))
    o, i, n = q.outer, q.inner, q.newton
    none = {"rejectedStep": (False, None), NW[0]: (False, None), NW[1]: (False, None), "success": (False, None)}
    L_.exactly("before the integration", o["entry"], L_.seg("before the integration", None, o["entry"], first=True), none)
    L_.exactly("start of a step", i["entry"], L_.seg("start of a step", o["begin"], i["entry"]), none)
    L_.exactly("attempt", n["entry"], L_.seg("attempt", i["begin"], n["entry"]), none)
    for z in ends(n):
        L_.exactly("Newton iteration", z, L_.seg("Newton iteration", n["begin"], z), none)
    m = n["after"]
    why = m.mem.get(q.whycid)
    for z in ends(i):
        w = dict(none)
        nm = "after the Newton iterations"
        en = L_.seg(nm, m, z)
        if z is i["back"]:
            w[NW[0]] = (cmp("==", why, 2), fld("h", z))
            w[NW[1]] = (cmp("==", why, 1), fld("h", z))
            s.goal(cmp("!=", why, 0), "repeated only without convergence", pc=z.pc)
        L_.exactly(nm, z, en, w)
    a = q.after()
    h = fld("h", a)
    for z in ends(o):
        ev = [e for g, e in z.events if e.kind == "estrad"]
        if len(ev) != 1:
            raise Unsupported("error estimate not recognised")
        w = dict(none)
        w["rejectedStep"] = (cmp(">=", ev[0].err, 1), h)
        L_.exactly("end of a step", z, L_.seg("end of a step", a, z), w)
    throws(L_, q, [o["begin"], i["begin"], i["entry"], o["entry"]])
    final(L_, q, [q.before] + ends(o))
    return s


def final(L_, q, froms):
    """nothing is logged or cleared after the loops"""
    s = q.s
    if s.st.dead:
        return
    old = set()
    for z in froms + [r["begin"] for r in q.recs] + [r["entry"] for r in q.recs]:
        old |= {id(e) for g, e in z.events}
    for g, e in s.st.events:
        if id(e) not in old and e.kind == "log":
            if e.call == "clear":
                s.goal(lnot(B(g)) if g is not True else False, "the log is not cleared at the end", pc=s.st.pc)


def throws(L_, q, starts):
    s = q.s
    for th in s.ex.throws:
        old = set()
        for z in starts:
            old |= {id(e) for g, e in z.events}
        t = s.st.clone()
        t.mem, t.reg, t.pc, t.events, t.dead = th["mem"], th["reg"], th["pc"], tuple(th["events"]), False
        for g, e in t.events:
            if id(e) not in old and e.kind == "log" and e.call == "clear":
                s.goal(lnot(B(g)) if g is not True else False, "the log is kept when the exception is raised", pc=t.pc)


def rodas(ast, rhs):
    q = prepare(lambda: rodloop.steploop(ast, rhs, log=True))
    s, ex, fld = q.s, q.s.ex, q.fld
    s.goals = []
    s.skipkinds = ("pre", "cut", "bound", "inv")
    nst = s.field(q.o, "nstep").cid
    L_ = Log(q, lambda e: e.mem[q.xv.cid], lambda e: e.mem[nst], ("changedH",))
    o, i = q.outer, q.inner
    none = {k: (False, None) for k in KINDS[:4]}
    L_.exactly("before the integration", o["entry"], L_.seg("before the integration", None, o["entry"], first=True), none)
    L_.exactly("preparing a step", i["entry"], L_.seg("preparing a step", o["begin"], i["entry"]), none)
    for z in ends(i):
        e = L_.seg("attempt", i["begin"], z, sets=False)
        for g, k, x in e:
            s.goal(lnot(B(g)) if g is not True else False, "attempt: nothing is logged", pc=z.pc)
    throws(L_, q, [o["begin"], i["begin"], i["entry"], o["entry"]])
    final(L_, q, [q.before] + ends(o))
    return s


def rock4(ast):
    q = timeloop(ast, log=True)
    s, rec, ex = q.s, q.rec, q.s.ex
    s.goals = []
    s.skipkinds = ("pre", "bound", "inv")
    b = rec["begin"]
    q.recs = [rec]
    nst = s.field(q.o, "nsteps").cid
    tc = q.cid["t"]
    # the step number of an entry is the number of attempts made, this one included
    L_ = Log(q, lambda e: e.mem[tc], lambda e: e.mem[nst], ())
    L_.seg("before the integration", None, rec["entry"], first=True, sets=False)
    ps = lambda z: q.var("pass", z)
    s.goal(cmp("==", ps(rec["entry"]), q.fld("nsteps", rec["entry"])), "steps are numbered from the first", pc=rec["entry"].pc)
    inv = B(cmp("==", ps(b), q.fld("nsteps", b)))
    for z in ends(rec):
        st = [x for g, x in z.events if x.kind == "step"]
        z = z.clone()
        z.assume(inv)
        s.goal(cmp("==", ps(z), q.fld("nsteps", z)), "step numbers are consecutive", pc=z.pc)
        en = L_.seg("one step", b, z, sets=False)
        if not st:
            for g, k, e in en:
                s.goal(lnot(B(g)) if g is not True else False, "end: nothing is logged", pc=z.pc)
            continue
        K = st[0]
        acc = cmp("<", K.err, 1)
        L_.exactly("one step", z, [(g, k, e) for g, k, e in en], {"success": (acc, None), "rejectedStep": (lnot(acc), None), "changedH": (False, None), "NewtonFailed": (False, None), "NewtonWillNotConverge": (False, None)})
        h1 = q.var("h", z)
        rem = absv(sub(q.te, q.var("t", z)))
        for g, k, e in en:
            v = e.args[3]
            u = z.clone()
            if g is not True:
                u.assume(B(g))
            if k == "success":
                s.goal(cmp("==", h1, ite(cmp(">=", mul(Fraction(11, 10), v), rem), rem, v)), "success: the value is the step proposed next", pc=u.pc)
            elif k == "rejectedStep":
                s.goal(lor(cmp("==", h1, mul(Fraction(4, 5), v)), cmp("==", h1, Fraction(1, 10**5))), "rejection: the value is the step proposed next", pc=u.pc)
    throws(L_, q, [b, rec["entry"]])
    return s


def absv(x):
    return ite(cmp(">=", x, 0), x, neg(x))


COMM = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT)


def hsh(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


class Canon:
    """terms up to the order of commutative operands and the numbers of fresh symbols"""

    def __init__(self):
        self.ids, self.memo, self.keep, self.rank = {}, {}, [], {}
        # a symbol is known by what it stands for and its rank among those standing for the same
        # (arrays are numbered; the log adds some)
        cnt = {}
        names = {x.decl().name() if isinstance(x, z3.ExprRef) else x.name() for x in T.SYMS}
        hs = sorted({int(m.group(1)) for n in names for m in [re.search(r"heap(\d+)!\d+$", n)] if m})
        for n in sorted(names, key=lambda n: int(n.rsplit("!", 1)[1])):
            h = re.sub(r"heap(\d+)$", lambda m: "heap%d." % hs.index(int(m.group(1))), n.rsplit("!", 1)[0])
            cnt[h] = cnt.get(h, 0) + 1
            self.rank[n] = "%s!%d" % (h, cnt[h])

    def sym(self, nm):
        if nm not in self.ids:
            self.ids[nm] = key = self.rank.get(nm, nm)
            if nm in T.SUMS:
                d = T.SUMS[nm]
                self.ids[nm] = key + str(hsh(("sum", self.of(d["E"]), self.of(d["N"]) if isinstance(d["N"], z3.ExprRef) else str(d["N"]))))
        return self.ids[nm]

    def of(self, e):
        if not isinstance(e, z3.ExprRef):
            return str(e)
        todo = [(e, False)]
        m = self.memo
        while todo:
            x, done = todo.pop()
            if x.get_id() in m:
                continue
            ch = [x.body()] if z3.is_quantifier(x) else x.children()
            if not done:
                todo.append((x, True))
                todo += [(c, False) for c in reversed(ch) if c.get_id() not in m]
                continue
            self.keep.append(x)
            if z3.is_var(x):
                nm = "var%d" % z3.get_var_index(x)
            elif z3.is_quantifier(x):
                nm = "quantifier"
            elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = self.sym(x.decl().name())
            else:
                nm = str(x) if not ch else x.decl().name()
            hs = [m[c.get_id()] for c in ch]
            if z3.is_app(x) and x.decl().kind() in COMM:
                hs.sort()
            m[x.get_id()] = hsh((nm,) + tuple(hs))
        return m[e.get_id()]


def flat(C, fl, st, skip):
    """(name, canonical value) of everything a state holds"""
    ex = fl.ex
    out = []
    if st.dead:
        return [("reached", False)]
    for c in st.pc:
        out.append(("path condition", C.of(c)))
    for c, v in st.mem.items():
        nm = str((ex.cellinfo.get(c) or ("cell",))[0])
        if skip(nm):
            continue
        if isinstance(v, Ptr):
            out.append((nm, "pointer" + str([(C.of(g) if isinstance(g, z3.ExprRef) else g, ex.regions[r].name.rstrip("0123456789") if r in ex.regions else str(r)[:5], C.of(o) if isinstance(o, z3.ExprRef) else str(o)) for g, r, o in v.alts])))
        else:
            out.append((nm, C.of(v) if isinstance(v, z3.ExprRef) else str(v)))
    for r in st.reg:
        nm = str(ex.regions[r].name).rstrip("0123456789")
        if skip(nm):
            continue
        try:
            v, _ = fl.content(st, r)
        except Exception:
            v = "?"
        out.append((nm, C.of(v) if isinstance(v, z3.ExprRef) else str(v)))
    for g, e in st.events:
        if e.kind in ("log", "set"):
            continue
        vs = []
        for k in sorted(e.d):
            w = e.d[k]
            for z in (w if isinstance(w, (list, tuple)) else [w]):
                t = fl.of(z)
                vs.append((k,) + tuple(C.of(x) for x in t) if t else (k,))
        out.append(("call of " + e.kind, (C.of(g) if isinstance(g, z3.ExprRef) else str(g), tuple(vs))))
    return out


def rows(which, logging):
    """everything the integration may do and leave, pass by pass, in a form that can be compared between two builds"""
    from odv.relate import Flow
    solver, rhs, flag = BUILD[which]
    f = (flag,) if logging else ()
    q = radloop.steploop(radau_ast(*f), rhs, log=logging, cuts=False) if solver == "Radau" else rodloop.steploop(rodas_ast(*f), rhs, log=logging) if solver == "Rodas" else timeloop(ast4(*f), log=logging)
    fl = Flow(q.s, [], N_)
    C = Canon()
    skip = lambda nm: "Logger" in nm or "Logit" in nm
    out = []
    for n, r in enumerate(getattr(q, "recs", None) or [q.rec]):
        for w in ("entry", "begin", "back", "after"):
            if r.get(w) is not None:
                out.append(("loop %d %s" % (n + 1, w), flat(C, fl, r[w], skip)))
        for k, z in enumerate(r["exits"]):
            out.append(("loop %d exit %d" % (n + 1, k), flat(C, fl, z, skip)))
    out.append(("end", flat(C, fl, q.s.st, skip)))
    for th in q.s.ex.throws:
        t = q.s.st.clone()
        t.mem, t.reg, t.pc, t.events, t.dead = th["mem"], th["reg"], th["pc"], tuple(th["events"]), False
        out.append(("exception", flat(C, fl, t, skip)))
    return out


BUILD = {"Radau A": ("Radau", "odes_RhsA", "-DLOGRADAU5"), "Radau F": ("Radau", "odes_RhsF", "-DLOGRADAU5"), "Rodas A": ("Rodas", "odes_RhsA1", "-DLOGRODAS"), "Rodas F": ("Rodas", "odes_RhsF", "-DLOGRODAS"), "Rock4": ("Rock4", "", "-DLOGROCK4")}


def same(ast, which):
    import subprocess, sys, os, json
    H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    run = lambda on: subprocess.Popen([sys.executable, "-c", "import sys,json; sys.path.insert(0,%r); from props import C28; from odv.mem import Unsupported\ntry: json.dump(C28.rows(%r,%r),sys.stdout)\nexcept Unsupported as e: json.dump(str(e),sys.stdout)" % (H, which, on)], env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    ps = [run(False), run(True)]
    res = []
    for p in ps:
        o, e = p.communicate()
        r = json.loads(o) if o else e.decode()[-200:]
        if isinstance(r, str):
            raise Unsupported(r)
        res.append(r)
    A, Bq = res
    s = Session(ast)
    s.goal([a[0] for a in A] == [b[0] for b in Bq], "same loops, ways out and exceptions")
    for (nm, a), (_, b) in zip(A, Bq):
        if [x[0] for x in a] != [x[0] for x in b]:
            s.goal(False, "%s: same cells, arrays and calls" % nm)
            continue
        for (c, v), (_, w) in zip(a, b):
            s.goal(v == w, "%s: %s is the same with and without logging" % (nm, c))
    return s


def logger(ast):
    """put stores exactly what it is given"""
    s = Session(ast)
    ex = s.ex
    c = s.cls("logger")
    o = s.obj(c, "L")
    got = []

    def push(ex, st, this, args, e):
        v = ex.lv(args[0], st)
        n = ex.objs[v.oid].n
        got.append({k: ex.load(st, lv) for k, lv in n.items()})
    ex.ext[(None, "push_back")] = push
    t, k, v = s.real("t"), s.int("k"), s.real("v")
    for kind in range(5):
        got.clear()
        s.run(method(ast, c, "put", nparams=4), o, t, k, kind, v)
        if len(got) != 1:
            raise Unsupported("the list of events is not recognised")
        g = got[0]
        s.goal(cmp("==", g["time"], t), "time kept")
        s.goal(cmp("==", g["step"], k), "step kept")
        s.goal(cmp("==", g["value"], v), "value kept")
        s.goal(cmp("==", g["TheEvent"], kind), "kind kept")
    return s


I1, I2, I3 = ["common/include", "Radau5-NG/include"], ["common/include", "Rodas-NG/include"], ["common/include", "Rock4-NG/include"]
LL = ["-llapack", "-lblas"]
_I1 = ["common/include", "Radau5-NG/include"]
_I2 = ["common/include", "Rodas-NG/include"]
_I3 = ["common/include", "Rock4-NG/include"]
_L = ["-llapack", "-lblas"]
DRIVERS = [dict(src="C28r.cc", name="C28r", flags=["-DLOGRADAU5"], incs=_I1, libs=_L),
           dict(src="C28o.cc", name="C28o", flags=["-DLOGRODAS"], incs=_I2, libs=_L),
           dict(src="C13.cc", name="C28k", flags=["-DLOGCHECK", "-DLOGROCK4", "-DALIGN_BLOCKED"], incs=_I3)]
