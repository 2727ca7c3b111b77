"""Loop rule of the verifier.

1. loops whose condition is decided (concretely or from the path facts) are
   executed exactly, iteration by iteration;
2. counted loops get a machine-checked summary: induction variables and trip
   count are derived, the body is executed once at an arbitrary iteration I
   from a state in which everything the loop modifies is arbitrary, and the
   per-iteration effect is generalised only if iterations are proved
   independent (distinct elements), accumulate a sum, or overwrite;
3. other loops: everything modified is havocked, restricted by invariants a
   specification supplies (checked on entry and preserved), see SeqSpec.
"""
import re
import z3
from . import terms as T
from .terms import R, I, B, land, lor, lnot, ite, cmp, add, sub, mul
from .mem import *


class NoSummary(Exception):
    pass


class Snapshot:
    def __init__(self, ex):
        self.ex = ex
        self.n = (len(ex.obls), len(ex.throws), len(ex.records), len(ex.divs), len(ex.ompreport))
        self.nb = ex.nbound
        self.inl = dict(ex.inlined)
        self.fr = [(f, len(f.returns)) for f in ex.frames]
        self.lc = [(l, len(l.breaks), len(l.continues)) for l in ex.loops]
        self.frames, self.loops = list(ex.frames), list(ex.loops)
        self.rw = ex.rw
        self.visits = dict(ex.visits)

    def restore(self):
        ex = self.ex
        del ex.obls[self.n[0]:]
        del ex.throws[self.n[1]:]
        del ex.records[self.n[2]:]
        del ex.divs[self.n[3]:]
        del ex.ompreport[self.n[4]:]
        ex.nbound = self.nb
        ex.inlined = self.inl
        ex.frames[:] = self.frames
        ex.loops[:] = self.loops
        for f, k in self.fr:
            del f.returns[k:]
        for l, b, c in self.lc:
            del l.breaks[b:]
            del l.continues[c:]
        ex.rw = self.rw
        ex.visits = dict(self.visits)


def one_iter(ex, st, inc, body):
    """run the body (and increment) on st in place; returns break states"""
    from .exec import LoopCtx, merge_all
    lc = LoopCtx()
    ex.loops.append(lc)
    try:
        ex.exec(body, st)
    finally:
        ex.loops.pop()
    if lc.continues:
        outs = list(lc.continues)
        if not st.dead:
            outs.append(st.clone())
        st.take(merge_all(outs))
    if not st.dead and inc is not None:
        ex.ev(inc, st)
    return lc.breaks


def evcond(ex, st, cond):
    if cond is None:
        return True
    c = ex.evb(cond, st)
    if not T.ispy(c):
        d = ex.decider(st)(c)
        if d is not None:
            c = d
    return c


def run_loop(ex, s, st, cond, inc, body, post, omp):
    from .exec import merge_all
    if st.dead:
        return
    spec = ex.seqspec(s, st) if getattr(ex, "seqspec", None) else None
    if spec is not None and not spec.unroll:
        sequential(ex, s, st, cond, inc, body, post, spec)
        return
    saved = st.clone()
    snap = Snapshot(ex)
    # ---- 1. exact execution
    if unroll(ex, st, cond, inc, body, post):
        if omp is not None:
            ex.ompreport.append(dict(node=s, unrolled=True, races=[], fn=ex.where()))
        return
    snap.restore()
    st.take(saved.clone())
    if spec is None and ex.dry and light(ex, s, st, cond, inc, body, post):
        return
    if spec is None:
        ex.insummary += 1
        try:
            summary(ex, s, st, cond, inc, body, post, omp)
            return
        except NoSummary as e:
            why = str(e)
        except Unsupported as e:
            why = str(e)
        finally:
            ex.insummary -= 1
        if ex.insummary:
            raise NoSummary("nested loop without a summary: " + why)
        if ex.debug:
            print("  [loop in %s not summarised: %s]" % (ex.where(), why))
        snap.restore()
        st.take(saved.clone())
    if omp is not None:
        ex.ompreport.append(dict(node=s, unrolled=False, races=["loop not proved parallel"], fn=ex.where(), undecided=True))
    sequential(ex, s, st, cond, inc, body, post, spec)


def light(ex, s, st, cond, inc, body, post):
    """inside the search for what an enclosing loop modifies: the loop leaves arbitrary
    values in everything it may modify"""
    if post or cond is None or s.get("_nolight"):
        return False
    snap = Snapshot(ex)
    try:
        cells, regs, nbrk, nret = closure(ex, st, cond, inc, body)
        if nbrk or nret:
            raise NoSummary("early exit")
        new = {r: havoc_content(ex, r, st) for r in regs}
        vals = {}
        for c in cells:
            v = havoc_value(ex, st.mem[c], cellname(ex, c))
            if v is None or isinstance(v, (Ptr, Opaque, ObjV)):
                raise NoSummary("pointer")
            vals[c] = v
    except (NoSummary, Unsupported):
        snap.restore()
        return False
    st.mem.update(vals)
    st.reg.update(new)
    return True


def unroll(ex, st, cond, inc, body, post):
    from .exec import merge_all
    breaks = []
    k = 0
    firstc = None
    while True:
        if not (post and k == 0):
            c = evcond(ex, st, cond)
            if st.dead:
                break
            if not T.ispy(c):
                return False
            if not c:
                break
        if k >= ex.max_unroll:
            return False
        if cond is None and k >= 1:
            return False
        if k >= 1 and not conc_progress(ex, st) and k > 60:
            return False
        breaks += one_iter(ex, st, inc, body)
        k += 1
        if st.dead:
            break
    if breaks:
        outs = list(breaks)
        if not st.dead:
            outs.append(st.clone())
        st.take(merge_all(outs))
    return True


def conc_progress(ex, st):
    return True


# ------------------------------------------------------------------ closure
def changed(before, after):
    cells = {k for k, v in after.mem.items() if k in before.mem and not (v is before.mem[k] or veq(v, before.mem[k]))}
    regs = {k for k, v in after.reg.items() if k in before.reg and v is not before.reg[k]}
    return cells, regs


def havoc_value(ex, v, name):
    """arbitrary value of the same kind, or None when not possible"""
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
        return T.fresh("hv_" + name, "bool")
    if isinstance(v, Fraction_) or (isinstance(v, z3.ExprRef) and z3.is_real(v)):
        return T.fresh("hv_" + name, "real")
    if isinstance(v, int) or (isinstance(v, z3.ExprRef) and z3.is_int(v)):
        return T.fresh("hv_" + name, "int")
    if isinstance(v, Ptr):
        if len(v.alts) == 1 and v.alts[0][1] not in (None, "undef") and not isinstance(v.alts[0][1], tuple):
            return Ptr(((True, v.alts[0][1], T.fresh("ho_" + name, "int")),))
        return None
    return v if isinstance(v, (Opaque, ObjV)) else None


def cellname(ex, c):
    return str(ex.cellinfo.get(c, (str(c),))[0]) if not isinstance(c, tuple) else "r"


def closure(ex, st, cond, inc, body, ptr_ok=False, maxit=30, assume=None, backonly=False, seed=None):
    """sets of cells and regions (living before the loop) the loop may modify"""
    cells, regs = set(), set()
    if seed:
        # the fixpoint of an earlier visit: only needs to be confirmed
        cells |= {c for c in seed[0] if c in st.mem}
        regs |= {r for r in seed[1] if r in st.reg}
    for _ in range(maxit):
        snap = Snapshot(ex)
        t = st.clone()
        for c in cells:
            v = havoc_value(ex, t.mem[c], cellname(ex, c))
            if v is None:
                if not ptr_ok:
                    snap.restore()
                    raise NoSummary("pointer %s changes target" % cellname(ex, c))
                v = t.mem[c]
            t.mem[c] = v
        for r in regs:
            t.reg[r] = havoc_content(ex, r, t)
        b0 = t.clone()
        mk = len(ex.frames[-1].returns) if ex.frames else 0
        if cond is not None:
            cv = evcond(ex, t, cond)
            t.assume(cv)
        if assume:
            for a in assume(t):
                t.assume(a)
        brk = one_iter(ex, t, inc, body)
        outs = list(brk)
        if not t.dead:
            outs.append(t)
        rets = []
        for f in snap.fr:
            for s2, v in f[0].returns[f[1]:]:
                rets.append(s2)
        for l, nb, nc in snap.lc:
            rets += l.breaks[nb:] + l.continues[nc:]
        nbrk, nret = len(brk), len(rets)
        snap.restore()
        c2, r2 = set(), set()
        for o in ([t] if not t.dead else []) if backonly else outs + rets:
            a, b = changed(b0, o)
            c2 |= a
            r2 |= b
        # objects created before the loop only
        c2 = {c for c in c2 if c in st.mem}
        r2 = {r for r in r2 if r in st.reg}
        if c2 <= cells and r2 <= regs:
            return cells, regs, nbrk, nret
        cells |= c2
        regs |= r2
    raise NoSummary("no fixpoint of modified variables")


def havoc_content(ex, r, st):
    rg = ex.regions[r]
    if rg.kind in ("real", "int"):
        return Base(T.freshfun("H_" + rg.name, rg.dims, rg.kind), rg.kind)
    raise NoSummary("loop modifies an array of pointers or objects")


# ------------------------------------------------------------------ summary
def cond_parts(ex, cond):
    c = cond
    while c.get("kind") in ("ParenExpr", "ExprWithCleanups") or (c.get("kind") == "ImplicitCastExpr" and c.get("castKind") in ("NoOp",)):
        c = c["inner"][0]
    if c.get("kind") == "BinaryOperator" and c.get("opcode") in ("<", "<=", ">", ">=", "!="):
        return [(c["opcode"], c["inner"][0], c["inner"][1])]
    if c.get("kind") == "BinaryOperator" and c.get("opcode") == "&&":
        a, b = cond_parts(ex, c["inner"][0]), cond_parts(ex, c["inner"][1])
        return None if a is None or b is None else a + b
    return None


def lin(e, v):
    """e = a + b*v with b a python int; returns (a,b) or None"""
    e = I(e)
    if not T.occurs(e, [v]):
        return e, 0
    a = z3.simplify(z3.substitute(e, (v, z3.IntVal(0))))
    b = z3.simplify(z3.substitute(e, (v, z3.IntVal(1))) - a)
    b = T.pynum(b)
    if not T.ispy(b):
        # min/max of linear terms: not linear
        return None
    chk = z3.simplify(e - (a + b * v))
    if T.pynum(chk) != 0:
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(e != a + b * v)
        if s.check() != z3.unsat:
            return None
    return a, b


def trip_count(ex, st, tI, Iv, cond):
    """number of iterations from the loop condition evaluated at iteration Iv"""
    parts = cond_parts(ex, cond)
    if parts is None:
        raise NoSummary("loop condition not a comparison")
    Ns = []
    for op, a, b in parts:
        va, vb = ex.ev(a, tI), ex.ev(b, tI)
        if isinstance(va, Ptr) and isinstance(vb, Ptr):
            if len(va.alts) != 1 or len(vb.alts) != 1 or va.alts[0][1] != vb.alts[0][1]:
                raise NoSummary("pointer comparison")
            va, vb = va.alts[0][2], vb.alts[0][2]
        if T.isreal(va) or T.isreal(vb) or isinstance(va, (Ptr, bool)) or isinstance(vb, (Ptr, bool)):
            raise NoSummary("condition not over integers")
        if op in ("<", "<="):
            f = sub(vb, va)
        elif op in (">", ">="):
            f = sub(va, vb)
        else:
            f = sub(vb, va)
        l = lin(f, Iv)
        if l is None:
            raise NoSummary("condition not linear in the iteration number")
        f0, c = l
        if op in ("<=", ">="):
            f0 = I(add(f0, 1))
        if op != "!=":
            if c >= 0:
                raise NoSummary("condition does not approach exit")
            if c != -1:
                f0 = z3.simplify((I(f0) + (-c - 1)) / (-c))
            N = T.pynum(z3.simplify(I(f0)))
            d = ex.decider(st)(cmp(">=", N, 0))
            if d is True:
                pass
            elif d is False:
                N = 0
            else:
                N = z3.If(I(N) >= 0, I(N), z3.IntVal(0))
        else:
            if c == 0:
                raise NoSummary("condition does not change")
            if abs(c) != 1:
                raise NoSummary("!= with step")
            N = T.pynum(z3.simplify(I(f0) if c == -1 else -I(f0)))
            ex.oblige(st, cmp(">=", N, 0), "loop with != condition reaches its bound", "terminates")
        Ns.append(N)
    N = Ns[0]
    for M in Ns[1:]:
        N = ite(cmp("<", M, N), M, N)
    return N


class Write:
    def __init__(self, params, guard, key, val):
        self.params, self.guard, self.key, self.val = params, guard, key, val


def flatten(c, base, guard, params, out):
    """writes between content c and base (last write last). Returns True when base reached;
    False when the content was replaced wholesale"""
    if c is base:
        return True
    if isinstance(c, Store):
        if not flatten(c.prev, base, guard, params, out):
            return False
        out.append(Write(list(params), guard, c.key, c.val))
        return True
    if isinstance(c, Dict):
        if c.base is None:
            return False
        if not flatten(c.base, base, guard, params, out):
            return False
        for k, v in c.d.items():
            out.append(Write(list(params), guard, (k,), v))
        return True
    if isinstance(c, Map):
        if not flatten(c.prev, base, guard, params, out):
            return False
        nps = [T.fresh("q", "int") for _ in c.params]
        ps = list(zip(c.params, nps))
        out.append(Write(list(params) + nps, land(guard, T.subst(c.guard, ps)),
                         tuple(T.subst(I(k), ps) for k in c.key),
                         T.subst(c.val, ps) if isinstance(c.val, z3.ExprRef) else c.val))
        return True
    if isinstance(c, IteC):
        a, b = [], []
        if not flatten(c.a, base, land(guard, c.c), params, a):
            return False
        if not flatten(c.b, base, land(guard, lnot(c.c)), params, b):
            return False
        out.extend(a)
        out.extend(b)
        return True
    return False


def simp_int(c):
    return c


def is_H_free(e, Hs):
    return T.ispy(e) or not isinstance(e, z3.ExprRef) or not T.occurs(e, Hs)


def summary(ex, s, st, cond, inc, body, post, omp):
    from .exec import merge_all, LoopEvents, Event, Lam
    if post or cond is None:
        raise NoSummary("not a counted loop")
    cells, regs, nbrk, nret = closure(ex, st, cond, inc, body)
    if nbrk or nret:
        raise NoSummary("early exit from loop")
    # --- induction variables
    snap = Snapshot(ex)
    t = st.clone()
    X = {}
    for c in cells:
        v = havoc_value(ex, t.mem[c], cellname(ex, c))
        if v is None:
            raise NoSummary("pointer modified")
        X[c] = v
        t.mem[c] = v
    for r in regs:
        t.reg[r] = havoc_content(ex, r, t)
    t.assume(evcond(ex, t, cond))
    one_iter(ex, t, inc, body)
    ind = {}
    for c in cells:
        if t.dead:
            break
        a, b = t.mem[c], X[c]
        if isinstance(a, Ptr):
            if len(a.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                a, b = a.alts[0][2], b.alts[0][2]
            else:
                continue
        if isinstance(a, z3.ExprRef) and z3.is_int(a) or isinstance(a, int) and not isinstance(a, bool):
            d = sub(a, b)
            d = T.pynum(z3.simplify(I(d)))
            if T.ispy(d) and d != 0:
                ind[c] = d
    snap.restore()
    if not ind:
        raise NoSummary("no induction variable")
    Iv = T.fresh("I", "int")

    def indval(c, Ival):
        v0 = st.mem[c]
        if isinstance(v0, Ptr):
            a = v0.alts[0]
            return Ptr(((True, a[1], add(a[2], mul(ind[c], Ival))),))
        return add(v0, mul(ind[c], Ival))
    # --- trip count
    tI = st.clone()
    for c in ind:
        tI.mem[c] = indval(c, Iv)
    oth = [c for c in cells if c not in ind]
    X = {}
    for c in oth:
        X[c] = havoc_value(ex, st.mem[c], cellname(ex, c))
        tI.mem[c] = X[c]
    H = {}
    for r in regs:
        h = havoc_content(ex, r, tI)
        H[r] = h
        tI.reg[r] = h
    tb = tI.clone()
    N = trip_count(ex, st, tb, Iv, cond)
    Hdecl = [h.f for h in H.values()]
    Xs = [v for v in X.values() if isinstance(v, z3.ExprRef)]
    if not is_H_free(N, Hdecl + Xs) or T.occurs(I(N), [Iv]):
        raise NoSummary("loop bound changes in the loop")
    tI.assume(cmp(">=", Iv, 0))
    tI.assume(cmp("<", Iv, N))
    if tI.dead:
        return
    npc = len(tI.pc)
    ev0 = len(st.events)
    mark = T.mark()
    obl0, thr0 = len(ex.obls), len(ex.throws)
    rwsave, ex.rw = ex.rw, None
    begin = tI.clone()
    one_iter(ex, tI, inc, body)
    ex.rw = rwsave
    if tI.dead:
        raise NoSummary("loop body never completes")
    newsyms = [x for x in T.SYMS[mark:]]
    facts = tI.pc
    # re-check induction
    for c in ind:
        a = tI.mem[c]
        w = indval(c, add(Iv, 1))
        if isinstance(a, Ptr):
            a, w = a.alts[0][2], w.alts[0][2]
        if T.pynum(z3.simplify(I(sub(a, w)))) != 0:
            raise NoSummary("induction variable not regular")
    # --- region effects
    W = {}
    whole = set()
    for r in regs:
        out = []
        if flatten(tI.reg[r], H[r], True, [], out):
            W[r] = out
        else:
            whole.add(r)

    I2 = T.fresh("J", "int")

    def at2(e, ps, nps):
        return T.subst(I(e) if not z3.is_bool(e) else e, [(Iv, I2)] + list(zip(ps, nps))) if isinstance(e, z3.ExprRef) else e

    fixed = {}
    netu = set()
    for r in list(W):
        vals = []
        unchanged = True
        for w in W[r]:
            dec = ex.decider(tI, [w.guard] if w.guard is not True else [])
            v = tI.reg[r].read(w.key, dec)
            w.val = v
            h = H[r].read(w.key, None)
            if not (isinstance(v, z3.ExprRef) and v.eq(h)):
                if unchanged and isinstance(v, z3.ExprRef):
                    p = T.pynum(z3.simplify(R(v) - R(h), som=True)) if z3.is_real(v) else 1
                    if not (T.ispy(p) and p == 0):
                        unchanged = False
                else:
                    unchanged = False
        if unchanged:
            netu.add(r)
            continue
        # distinct iterations write distinct elements
        ok = True
        for a in W[r]:
            for b in W[r]:
                nps = [T.fresh("q", "int") for _ in b.params]
                same = True
                for x, y in zip(a.key, b.key):
                    same = land(same, cmp("==", x, at2(y, b.params, nps)))
                g2 = at2(b.guard, b.params, nps) if b.guard is not True else True
                q = lnot(same)
                ctx = [cmp("!=", Iv, I2), cmp(">=", I2, 0), cmp("<", I2, N)]
                for g in (a.guard, g2):
                    if g is not True:
                        ctx.append(g)
                if not ex._is_intonly(B(land(*ctx))) or ex.decide(facts, B(q), tuple(B(x) for x in ctx)) is not True:
                    # drop non-integer guards
                    ctx2 = [x for x in ctx if ex._is_intonly(B(x))]
                    if ex.decide(facts, B(q), tuple(B(x) for x in ctx2)) is not True:
                        ok = False
                        break
            if not ok:
                break
        if not ok:
            # fixed elements updated in every iteration?
            if all(not T.occurs(I(k), [Iv] + w.params) if isinstance(k, z3.ExprRef) else True for w in W[r] for k in w.key) \
               and all(w.guard is True for w in W[r]) and all(not w.params for w in W[r]):
                fixed[r] = W[r]
            else:
                raise NoSummary("iterations write overlapping elements of %s" % ex.regions[r].name)

    # --- cells
    lastv, sums, unknown = {}, {}, {}
    for c in oth:
        v = tI.mem[c]
        x = X[c]
        if isinstance(v, (Opaque, ObjV)):
            continue
        if isinstance(v, Ptr):
            if len(v.alts) == 1 and not T.occurs(I(v.alts[0][2]), Xs):
                lastv[c] = v
                continue
            raise NoSummary("pointer modified irregularly")
        if T.ispy(v) or not T.occurs(v, Xs):
            lastv[c] = v
            continue
        if isinstance(v, z3.ExprRef) and z3.is_real(v):
            e = sum_split(v, x, Xs)
            if e is not None:
                sums[c] = e
                continue
        unknown[c] = v
    # a cell that depends on an unknown/sum cell's running value is unknown
    bad = [X[c] for c in list(sums) + list(unknown)]
    lastx = [X[c] for c in lastv if isinstance(X[c], z3.ExprRef)]

    # --- translation of terms of iteration Iv to pre-loop terms
    allkeys = {}

    def translate_factory(ctxguard):
        decx = ex.decider(tI, [g for g in ctxguard if g is not True])

        def fn(x, ch):
            if x.decl().kind() != z3.Z3_OP_UNINTERPRETED or not ch:
                return None
            nm = x.decl().name()
            for r, h in H.items():
                if h.f.name() == nm:
                    key = tuple(T.pynum(c) for c in ch)
                    if r in netu:
                        return st.reg[r].read(key, decx)
                    if r in W and r not in fixed:
                        check_unwritten(r, key, ctxguard)
                        return st.reg[r].read(key, decx)
                    raise NoSummary("loop reads elements of %s written by earlier iterations" % ex.regions[r].name)
            return None
        return T.Rewriter(fn)

    def check_unwritten(r, key, ctxguard):
        kid = (r, tuple(str(k) for k in key), tuple(B(g).get_id() for g in ctxguard if g is not True))
        if kid in allkeys:
            if not allkeys[kid]:
                raise NoSummary("loop-carried dependence through %s" % ex.regions[r].name)
            return
        res = True
        for b in W[r]:
            nps = [T.fresh("q", "int") for _ in b.params]
            same = True
            for x, y in zip(key, b.key):
                same = land(same, cmp("==", x, at2(y, b.params, nps)))
            g2 = at2(b.guard, b.params, nps) if b.guard is not True else True
            ctx = [cmp(">=", I2, 0), cmp("<", I2, N if omp is not None else Iv)]
            if omp is not None:
                ctx.append(cmp("!=", I2, Iv))
            ctx += [g for g in list(ctxguard) + [g2] if g is not True]
            ctx = [B(x) for x in ctx if ex._is_intonly(B(x))]
            if ex.decide(facts, B(lnot(same)), tuple(ctx)) is not True:
                res = False
                break
        allkeys[kid] = res
        if not res:
            raise NoSummary("loop-carried dependence through %s" % ex.regions[r].name)

    sk = T.skolem_map(newsyms, Iv)
    # sums created in the body keep their meaning under skolemisation
    for nm, (d, g) in list(sk.items()):
        if nm in T.SUMS:
            sd = T.SUMS[nm]
            T.SUMS[g.name()] = dict(params=[Iv] + list(sd["params"]), I=sd["I"], N=sd["N"], E=sd["E"], f=g, raw=True)
        T.SYMS.append(g)

    def skf(x, ch):
        if x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return None
        p = sk.get(x.decl().name())
        if p is None:
            return None
        return p[1](Iv, *ch)
    skr = T.Rewriter(skf)
    trs = {}

    def tr(e, guards=()):
        if not isinstance(e, z3.ExprRef):
            return e
        k = tuple(B(g).get_id() for g in guards if g is not True)
        if k not in trs:
            trs[k] = (translate_factory(guards), guards)
        e = trs[k][0](e)
        e = skr(e)
        if isinstance(e, z3.ExprRef) and Xs and T.occurs(e, Xs):
            raise NoSummary("value depends on the running value of a loop variable")
        return e
    # fix raw sums: their E/N must be translated too
    for nm, (d, g) in sk.items():
        sd = T.SUMS.get(g.name())
        if sd and sd.get("raw"):
            g0 = [cmp(">=", sd["I"], 0), cmp("<", sd["I"], sd["N"])]
            sd["E"] = R(tr(sd["E"], g0))
            sd["N"] = tr(sd["N"])
            sd.pop("raw")

    res = st.clone()
    Nm1 = sub(N, 1)
    pos = cmp(">", N, 0)
    dpos = ex.decider(st)(pos)
    pos = dpos if dpos is not None else pos
    races = []
    for c in ind:
        res.mem[c] = indval(c, N)
    for c, v in lastv.items():
        v2 = tr(v) if not isinstance(v, Ptr) else v
        if isinstance(v2, z3.ExprRef):
            v2 = T.subst(v2, [(Iv, Nm1)])
        elif isinstance(v2, Ptr):
            v2 = Ptr(tuple((cc, rr, T.subst(I(o), [(Iv, Nm1)])) for cc, rr, o in v2.alts))
        res.mem[c] = v2 if pos is True else vmerge(pos, v2, st.mem[c])
        if omp is not None and not private_of(omp, cellname(ex, c)):
            races.append("shared variable %s written by every iteration" % cellname(ex, c))
    for c, e in sums.items():
        res.mem[c] = add(st.mem[c], T.mksum(N, Iv, tr(e)))
        if omp is not None and private_of(omp, cellname(ex, c)):
            races.append("private variable %s accumulated: the sum is lost" % cellname(ex, c))
        elif omp is not None and not reduction_of(omp, cellname(ex, c)):
            races.append("shared variable %s accumulated without a reduction clause" % cellname(ex, c))
    for c, v in unknown.items():
        res.mem[c] = havoc_value(ex, st.mem[c], cellname(ex, c))
        if omp is not None and private_of(omp, cellname(ex, c)):
            raise NoSummary("private variable carried between iterations")
        if omp is not None:
            races.append("shared variable %s carried between iterations" % cellname(ex, c))
    for r in netu:
        if omp is not None:
            races.append("%s temporarily modified by iterations" % ex.regions[r].name) if any(True for w in W[r]) else None
    for r in W:
        if r in netu or r in fixed:
            continue
        cont = st.reg[r]
        for w in W[r]:
            g = w.guard
            v = tr(w.val, (g,))
            g2 = tr(g) if g is not True else True
            guard = land(cmp(">=", Iv, 0), cmp("<", Iv, N), g2)
            key = tuple(tr(I(k)) if isinstance(k, z3.ExprRef) else k for k in w.key)
            try:
                cont = mkmap(cont, [Iv] + w.params, guard, key, v)
            except Unsupported as e:
                raise NoSummary(str(e))
        res.reg[r] = cont
    for r, ws in fixed.items():
        # element(s) with constant index: overwritten or accumulated
        hs = [H[r].f]
        cont = st.reg[r]
        for w in ws:
            v = w.val
            h = H[r].read(w.key, None)
            if not (isinstance(v, z3.ExprRef) and T.occurs(v, hs)):
                v2 = T.subst(tr(v), [(Iv, Nm1)]) if isinstance(v, z3.ExprRef) else v
                if isinstance(pos, bool):
                    cont = Store(cont, w.key, v2) if pos else cont
                else:
                    cont = IteC(pos, Store(cont, w.key, v2), cont)
                if omp is not None:
                    races.append("%s overwritten by every iteration" % ex.regions[r].name)
                continue
            if not z3.is_real(v):
                raise NoSummary("fixed element")
            e = z3.simplify(v - h, som=True)
            if T.occurs(e, hs):
                raise NoSummary("fixed element updated non additively")
            cont = Store(cont, w.key, add(st.reg[r].read(w.key, ex.decider(st)), T.mksum(N, Iv, tr(e))))
            if omp is not None:
                races.append("%s accumulated by every iteration" % ex.regions[r].name)
        res.reg[r] = cont
    for r in whole:
        c = tI.reg[r]
        sub_ = (lambda e: T.subst(tr(e), [(Iv, Nm1)]) if isinstance(e, z3.ExprRef) else e)
        # force an early failure if the content depends on running values
        kk = tuple(T.fresh("pk", "int") for _ in range(ex.regions[r].dims))
        sub_(c.read(kk, ex.decider(tI)))
        nc = SubstC(c, sub_)
        res.reg[r] = nc if pos is True else IteC(pos, nc, st.reg[r])
        if omp is not None:
            races.append("%s overwritten by every iteration" % ex.regions[r].name)
    # events
    evs = tI.events[ev0:]
    if evs:
        tev = []
        for g, e in evs:
            tev.append((tr(g) if isinstance(g, z3.ExprRef) else g, tr_event(ex, e, tr, Iv)))
        res.events = st.events + ((True, LoopEvents(Iv, N, tuple(tev))),)
    # obligations and throws found in the body: they mention arbitrary running values;
    # strengthen their hypotheses by translating what can be translated
    for o in ex.obls[obl0:]:
        try:
            g2 = tr(o["goal"])
            p2 = tuple(B(tr(p)) for p in o["pc"])
            o["goal"], o["pc"] = B(g2), p2
        except NoSummary:
            pass
    if omp is not None:
        ex.ompreport.append(dict(node=s, unrolled=False, races=races, fn=ex.where()))
    # later facts: nothing else
    st.take(res)


def tr_event(ex, e, tr, Iv):
    from .exec import LoopEvents, Event, Lam
    if isinstance(e, LoopEvents):
        return LoopEvents(e.I, tr(e.N), tuple((tr(g) if isinstance(g, z3.ExprRef) else g, tr_event(ex, x, tr, Iv)) for g, x in e.evs))
    d = {}
    for k, v in e.d.items():
        if isinstance(v, Lam):
            try:
                d[k] = Lam(v.k, tr(v.body), v.n)
            except NoSummary:
                d[k] = Lam(v.k, T.fresh("unk"), v.n)
        elif isinstance(v, z3.ExprRef):
            try:
                d[k] = tr(v)
            except NoSummary:
                d[k] = T.fresh("unk") if z3.is_real(v) else T.fresh("unk", "int")
        elif isinstance(v, z3.FuncDeclRef):
            d[k] = ("sk", v)
        else:
            d[k] = v
    return Event(e.kind, **d)


def sum_split(v, x, Xs):
    """v = x + e with e free of all running values -> e"""
    e = z3.simplify(v - x, som=True)
    if not T.occurs(e, Xs):
        return e
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, a, b = v.children()
        if T.occurs(c, Xs):
            return None
        ea = T.Fraction(0) if a.eq(x) else sum_split(a, x, Xs)
        eb = T.Fraction(0) if b.eq(x) else sum_split(b, x, Xs)
        if ea is None or eb is None:
            return None
        return R(T.ite(c, ea, eb))
    return None


def clauses(omp):
    """clauses of the directive: {kind: [names]}; None if they are not known"""
    t = omp.get("_pragma")
    if t is None:
        raise NoSummary("clauses of the OpenMP directive not known")
    out = {}
    for k, a in re.findall(r"(\w+)\(([^()]*(?:\([^()]*\))?[^()]*)\)", t):
        if k == "reduction":
            op, _, a = a.partition(":")
            if op.strip() not in ("+", "-"):
                raise NoSummary("reduction operator " + op)
        elif k in ("collapse", "ordered", "linear", "copyin", "allocate"):
            raise NoSummary("OpenMP clause " + k)
        out.setdefault(k, []).extend(x.strip() for x in a.split(",") if x.strip())
    return out


def reduction_of(omp, name):
    """is the variable listed in a reduction(+:...) clause of the directive"""
    return name in clauses(omp).get("reduction", [])


def private_of(omp, name):
    c = clauses(omp)
    return any(name in c.get(k, []) for k in ("private", "firstprivate", "lastprivate"))


# ------------------------------------------------------------------ sequential
class SeqSpec:
    """supplied by a specification for one loop.
    inv(ex, st): list of (name, formula) holding at the loop head;
    prepare(ex, st): may replace region contents / assume in the arbitrary state.
    auto: look for counters and constant flags besides the supplied invariant."""
    auto = True
    flags = False
    unroll = True

    def inv(self, ex, st, entry):
        return []

    def prepare(self, ex, st, entry):
        pass

    def iteration(self, ex, begin, end, breaks, entry):
        pass


def distr(t, f):
    """f applied to the leaves of a conditional term"""
    if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return T.ite(c, distr(a, f), distr(b, f))
    return f(T.pynum(t))


def leaves(t, conds=(), limit=64):
    """[(conditions, leaf)] of a conditional term"""
    if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        return leaves(a, conds + (c,), limit) + leaves(b, conds + (z3.Not(c),), limit)
    return [(conds, T.pynum(t))]


def obliges(ex, st, items, pre):
    """items: (name, formula) or (name, function, term): one obligation for every leaf of the term"""
    for it in items:
        if len(it) == 2:
            ex.oblige(st, it[1], pre + it[0], "inv")
            continue
        lv = leaves(it[2])
        for conds, v in lv:
            t = st.clone()
            for c in conds:
                t.assume(c)
            if not t.dead:
                ex.oblige(t, it[1](v), pre + it[0], "inv")


def formula(it):
    return it[1] if len(it) == 2 else it[1](it[2])


def induction(ex, st, cells, regs, cond, inc, body, post):
    """integer variables that change by a constant in every completed iteration"""
    snap = Snapshot(ex)
    t = st.clone()
    X = {}
    for c in cells:
        v = havoc_value(ex, t.mem[c], cellname(ex, c))
        if v is None or isinstance(v, Ptr):
            continue
        X[c] = v
        t.mem[c] = v
    for r in regs:
        t.reg[r] = havoc_content(ex, r, t)
    if cond is not None and not post:
        t.assume(evcond(ex, t, cond))
    one_iter(ex, t, inc, body)
    ind = {}
    if not t.dead:
        for c, b in X.items():
            a = t.mem[c]
            if isinstance(a, bool) or not (isinstance(a, int) or isinstance(a, z3.ExprRef) and z3.is_int(a)):
                continue
            if isinstance(b, z3.ExprRef) and z3.is_int(b):
                d = T.pynum(z3.simplify(I(sub(a, b))))
                if T.ispy(d) and d != 0:
                    ind[c] = d
    snap.restore()
    return ind


def flag_invariants(ex, st, cells, regs, cond, inc, body, post):
    """boolean variables that hold their entry value at the head of every
    iteration (inductive: assumed together, re-proved after one iteration)"""
    cand = {c for c in cells if isinstance(st.mem[c], bool)}
    while cand:
        snap = Snapshot(ex)
        t = st.clone()
        okp = True
        for c in cells:
            if c in cand:
                continue
            v = havoc_value(ex, t.mem[c], cellname(ex, c))
            if v is not None and not isinstance(t.mem[c], Ptr):
                t.mem[c] = v
        try:
            for r in regs:
                t.reg[r] = havoc_content(ex, r, t)
            if cond is not None and not post:
                t.assume(evcond(ex, t, cond))
            one_iter(ex, t, inc, body)
            if post and cond is not None and not t.dead:
                t.assume(evcond(ex, t, cond))
        except (NoSummary, Unsupported):
            okp = False
        bad = set()
        if not okp:
            bad = set(cand)
        elif not t.dead:
            for c in cand:
                v = t.mem[c]
                if T.ispy(v):
                    if bool(v) != st.mem[c]:
                        bad.add(c)
                elif not ex.implied(t.pc, B(v) if st.mem[c] else lnot(B(v))):
                    bad.add(c)
        snap.restore()
        if not bad:
            break
        cand -= bad
    return cand


def sequential(ex, s, st, cond, inc, body, post, spec):
    from .exec import merge_all, Event
    if spec is None:
        ex.weak = ex.weak or "loop in %s without a supplied invariant" % ex.where()
    spec = spec or SeqSpec()
    entry = st.clone()
    key = (id(s), len(ex.frames))
    dry = ex.dry
    ex.dry += 1
    try:
        cells, regs, nbrk, nret = closure(ex, st, None if post else cond, inc, body, ptr_ok=True, backonly=True, seed=ex.seeds.get(key))
    finally:
        ex.dry = dry
    ex.seeds[key] = (set(cells), set(regs))
    obliges(ex, st, spec.inv(ex, st, entry), "invariant on entry: ")
    # inside the search for what an enclosing loop modifies, an over-approximation is enough
    auto = spec.auto and not dry
    ind = induction(ex, st, cells, regs, cond, inc, body, post) if auto else {}
    flags = set() if not (auto or spec.flags and not dry) else flag_invariants(ex, st, cells, regs, cond, inc, body, post)
    h = st.clone()
    Iv = T.fresh("I", "int") if ind else None
    ptrcells = []
    for c in cells:
        if c in flags:
            h.mem[c] = st.mem[c]
            continue
        if c in ind:
            h.mem[c] = add(st.mem[c], mul(ind[c], Iv))
            continue
        v = havoc_value(ex, h.mem[c], cellname(ex, c))
        if isinstance(h.mem[c], Ptr):
            ptrcells.append(c)
            v = h.mem[c]
        elif v is None:
            raise Unsupported("loop changes %s" % cellname(ex, c))
        h.mem[c] = v
    for r in regs:
        try:
            h.reg[r] = havoc_content(ex, r, h)
        except NoSummary as e:
            raise Unsupported(str(e))
    N = None
    if ind:
        h.assume(cmp(">=", Iv, 0))
        if not post and cond is not None:
            try:
                ntrial = Snapshot(ex)
                N = trip_count(ex, st, h.clone(), Iv, cond)
                if T.occurs(I(N), [Iv]):
                    N = None
                    ntrial.restore()
                else:
                    h.assume(cmp("<=", Iv, N))
            except NoSummary:
                N = None
                ntrial.restore()
    spec.prepare(ex, h, entry)
    for it in spec.inv(ex, h, entry):
        h.assume(formula(it))
    h.events = ()
    begin = h.clone()
    exits = []
    ret0 = [(f, len(f.returns)) for f in ex.frames]
    if post:
        brk = one_iter(ex, h, inc, body)
        exits += brk
        after = h
        if not after.dead:
            c = evcond(ex, after, cond) if cond is not None else True
            back = after.clone()
            back.assume(c)
            out = after.clone()
            out.assume(lnot(c))
            exits.append(out)
        else:
            back = after
    else:
        c = evcond(ex, h, cond)
        out = h.clone()
        out.assume(lnot(c))
        if not out.dead:
            exits.append(out)
        h.assume(c)
        begin_body = h.clone()
        brk = one_iter(ex, h, inc, body)
        exits += brk
        back = h
    if not back.dead:
        obliges(ex, back, spec.inv(ex, back, entry), "invariant preserved: ")
        # pointers: the buffers may only be permuted
        if ptrcells:
            start = [begin.mem[c] for c in ptrcells]
            base = sorted(str(a) for p in start for a in p.alts)
            okp = check_perm(start, [back.mem[c] for c in ptrcells])
            if not okp:
                raise Unsupported("loop changes buffer addresses other than by exchange")
            ex.records.append(dict(kind="ptrperm", cells=ptrcells))
    ex.records.append(dict(kind="loop", node=s, begin=begin, back=back, exits=exits,
                           breaks=brk, cells=cells, regs=regs, entry=entry,
                           fn=ex.where(), depth=len(ex.frames), nest=len(ex.loops), I=Iv, N=N, ind=ind))
    spec.iteration(ex, begin, back, brk, entry)
    live = [x for x in exits if not x.dead]
    if live and hasattr(spec, "post"):
        for x in live:
            obliges(ex, x, spec.post(ex, x, entry), "after the loop: ")
    st.take(merge_all([x.clone() for x in exits]))
    if not st.dead:
        if hasattr(spec, "post"):
            # what follows knows the loop by its postcondition only
            c2, r2 = changed(entry, st)
            for c in sorted(c2, key=str):
                v = st.mem[c]
                if not isinstance(v, Ptr):
                    v = havoc_value(ex, v, cellname(ex, c))
                    if v is None:
                        raise Unsupported("loop changes %s" % cellname(ex, c))
                    st.mem[c] = v
            for r in r2:
                try:
                    st.reg[r] = havoc_content(ex, r, st)
                except NoSummary as e:
                    raise Unsupported(str(e))
            st.pc = entry.pc
            spec.prepare(ex, st, entry)
            for it in spec.post(ex, st, entry):
                st.assume(formula(it))
            st.events = entry.events + ((True, Event("loop", name=spec.name)),)
            ex.records[-1]["after"] = st.clone()
        else:
            st.events = entry.events + tuple(st.events)


def check_perm(start, end):
    """every resolution of the end pointers is a permutation of the start pointers"""
    if any(len(p.alts) != 1 for p in start):
        return False
    S = sorted((str(p.alts[0][1]), str(p.alts[0][2])) for p in start)
    E = []
    conds = []
    for p in end:
        E.append([(str(r), str(o)) for c, r, o in p.alts])
    if all(len(x) == 1 for x in E):
        return sorted(x[0] for x in E) == S
    # guarded alternatives sharing the same guards
    n = max(len(x) for x in E)
    g0 = None
    for p in end:
        if len(p.alts) == n:
            g0 = [c for c, r, o in p.alts]
            break
    for k in range(n):
        pick = []
        for p in end:
            if len(p.alts) == 1:
                pick.append((str(p.alts[0][1]), str(p.alts[0][2])))
                continue
            m = [(str(r), str(o)) for c, r, o in p.alts if veq(c, g0[k])]
            if len(m) != 1:
                return False
            pick.append(m[0])
        if sorted(pick) != S:
            return False
    return True
