"""Dependence of what an integration does on what earlier integrations left in the
object. Symbols standing for such data are `stale`. A value that mentions no stale
symbol is the same for every history (all terms are functions of their symbols). A
cell that an iteration may leave with a stale value becomes stale itself, at every
loop head, until nothing changes. Where a term mentions a stale symbol only in a
branch that is not taken, the branch is removed by asking the solver whether the
path condition excludes it. `cond[(loop, cell)]`: the cell is not stale when that
formula (over the state of the loop head) holds; proved where the cell is stored."""
import z3
from .spec import *
from .mem import Ptr, Content

UN = z3.Z3_OP_UNINTERPRETED


class Flow:
    def __init__(self, s, stale, n):
        self.s, self.ex, self.n = s, s.ex, n
        self.stale = set(stale)     # unconditionally
        self.cond = {}              # symbol -> formula under which it is not stale
        self.memo, self.pm, self.rm = {}, {}, {}
        self.why, self.log, self.links, self.failed = {}, [], [], set()
        self.keep = []
        self.k = [z3.Int("rel!k%d" % i) for i in range(2)]

    # symbols
    def syms(self, e):
        if not isinstance(e, z3.ExprRef):
            return frozenset()
        r = self.memo.get(e.get_id())
        if r is not None:
            return r
        todo = [(e, False)]
        while todo:
            x, done = todo.pop()
            if x.get_id() in self.memo:
                continue
            if z3.is_quantifier(x):
                ch = [x.body()]
            elif z3.is_app(x):
                ch = x.children()
            else:
                self.keep.append(x)
                self.memo[x.get_id()] = frozenset()
                continue
            own = set()
            if z3.is_app(x) and x.decl().kind() == UN:
                nm = x.decl().name()
                if nm in T.SUMS:
                    d = T.SUMS[nm]
                    ch = ch + [d["E"]] + [z for z in (d["N"],) if isinstance(z, z3.ExprRef)]
                elif x.num_args() or True:
                    own.add(nm)
            if not done:
                todo.append((x, True))
                todo += [(c, False) for c in ch if c.get_id() not in self.memo]
                self.keep += ch
            else:
                for c in ch:
                    own |= self.memo.get(c.get_id(), frozenset())
                self.keep.append(x)
                self.memo[x.get_id()] = frozenset(own)
        return self.memo[e.get_id()]

    def of(self, v):
        """terms a stored value consists of"""
        if isinstance(v, z3.ExprRef):
            return [v]
        if isinstance(v, Ptr):
            return [x for a in v.alts for x in (a[0], a[2]) if isinstance(x, z3.ExprRef)]
        if isinstance(v, Lam):
            return [v.body] if isinstance(v.body, z3.ExprRef) else []
        return []

    def content(self, st, r):
        """the element of a region at an arbitrary index"""
        ex = self.ex
        rg = ex.regions[r]
        key = tuple(self.k[:rg.dims])
        t = st.clone()
        for k in key:
            t.assume(k >= 0)
        sz = rg.size
        if sz is not None and rg.dims == 1:
            t.assume(cmp("<", key[0], sz))
        elif rg.dims == 2:
            for k in key:
                t.assume(k < self.n)
        return ex.content(st, r).read(key, ex.decider(t)), t.pc

    # staleness of a term under a path condition
    def bad(self, e, pc):
        S = [x for x in self.syms(e) if x in self.stale]
        if not S:
            return False
        key = (e.get_id(), tuple(c.get_id() for c in pc), tuple(sorted(S)), tuple(sorted(x for x in S if x in self.cond)))
        if key in self.pm:
            return self.pm[key]
        self.keep += [e] + list(pc)
        r = False
        for x in S:
            c = self.cond.get(x)
            if not self.free(e, x, [] if c is None else [z3.Not(B(c))], pc):
                r = True
                break
        self.pm[key] = r
        return r

    def free(self, e, x, hyp, pc):
        """under pc and hyp, e does not depend on symbol x"""
        r = self.rel(e, x)
        if r is False or isinstance(r, z3.ExprRef) and z3.is_false(r):
            return True
        r = B(r)
        sol = z3.SimpleSolver()
        sol.set("timeout", 2000)
        sol.set("arith.nl", False)
        for c in list(pc) + hyp:
            if isinstance(c, z3.ExprRef) and not z3.is_quantifier(c):
                sol.add(c)
        sol.add(r)
        return sol.check() == z3.unsat

    def rel(self, e, x):
        """formula implied by: the value of e depends on x"""
        key = (e.get_id(), x)
        m = self.rm
        if key in m:
            return m[key]
        todo = [(e, False)]
        while todo:
            y, done = todo.pop()
            ky = (y.get_id(), x)
            if ky in m:
                continue
            if x not in self.syms(y):
                m[ky] = False
                continue
            if not z3.is_app(y) or y.decl().kind() == UN and y.decl().name() == x:
                m[ky] = True
                continue
            ch = y.children()
            k = y.decl().kind()
            if k == UN and y.decl().name() in T.SUMS:
                ch = ch + [T.SUMS[y.decl().name()]["E"]]
            if not done:
                self.keep += ch
                todo.append((y, True))
                todo += [(c, False) for c in ch]
                continue
            rs = [m[(c.get_id(), x)] for c in ch]
            if k == z3.Z3_OP_ITE:
                c, a, b = ch
                r = lor(rs[0], land(c, rs[1]), land(lnot(c), rs[2]))
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                clean = [c if k == z3.Z3_OP_AND else lnot(c) for c, q in zip(ch, rs) if q is False]
                r = land(lor(*rs), *clean)
            else:
                r = lor(*rs)
            m[ky] = r
        return m[key]

    # flow between states
    def link(self, target, base, sources, name, skip=(), keep=None):
        """symbols of `target` that stand for what the `sources` hold"""
        self.links.append((target, base, sources, name, skip, keep))

    def moved(self, target, z):
        """region of z playing the part a region plays in target (buffers exchanged by their addresses)"""
        m = {}
        for c, v in target.mem.items():
            w = z.mem.get(c)
            if isinstance(v, Ptr) and isinstance(w, Ptr) and len(v.alts) == 1 and len(w.alts) == 1 and v.alts[0][1] is not None:
                if v.alts[0][1] != w.alts[0][1]:
                    m[v.alts[0][1]] = w.alts[0][1]
        return m

    def items(self, target, base):
        """(name, symbols, reader) of what target holds instead of base"""
        ex = self.ex
        for c, v in target.mem.items():
            b = base.mem.get(c)
            if not isinstance(v, z3.ExprRef) or v is b or isinstance(b, z3.ExprRef) and v.eq(b) or not z3.is_const(v):
                continue
            nm = str((ex.cellinfo.get(c) or ("cell",))[0])
            yield nm.split(".")[-1], {v.decl().name()}, (lambda z, c=c: (self.of(z.mem.get(c)), z.pc))
        maps = {}
        for r, a in target.reg.items():
            f = getattr(a, "f", None)
            if f is None or a is base.reg.get(r):
                continue

            def read(z, r=r):
                if id(z) not in maps:
                    maps[id(z)] = self.moved(target, z)
                r2 = maps[id(z)].get(r, r)
                if r2 not in z.reg:
                    return [], z.pc
                v, pc = self.content(z, r2)
                return self.of(v), pc
            yield ex.regions[r].name.split(".")[-1], {f.name()}, read

    def fix(self, table={}):
        """table: name of a cell -> formula of a state under which it is not stale"""
        self.table = table
        changed = True
        while changed:
            changed = False
            for target, base, sources, name, skip, keep in self.links:
                for nm, new, read in self.items(target, base):
                    x, = new
                    if x in self.stale and x not in self.cond:
                        continue
                    for z in sources:
                        if z.dead:
                            continue
                        ts, pc = read(z)
                        if x not in self.stale and any(self.bad(t, pc) for t in ts):
                            self.stale.add(x)
                            self.why[x] = (name, nm)
                            self.log.append((x, name, nm, sorted({q for t in ts for q in self.syms(t) if q in self.stale and q != x})[:6]))
                            changed = True
                            if (name, nm) in table:
                                self.cond[x] = table[(name, nm)](target)
                        if x in self.cond:
                            c = table[(name, nm)](z)
                            t = z.clone()
                            t.assume(c)
                            if not t.dead and any(self.bad(v, tuple(pc) + ((B(c),) if isinstance(c, z3.ExprRef) else ())) for v in ts):
                                del self.cond[x]
                                self.log.append((x, name, nm + " even where it matters", sorted({q for t in ts for q in self.syms(t) if q in self.stale and q != x})[:6]))
                                self.why[x] = (name, nm + " (even where it matters)")
                                changed = True
                                break

    def names(self, e):
        return sorted("%s(%s)" % (x, self.why.get(x, ("start",))[0]) for x in self.syms(e) if x in self.stale)[:8]

    # obligations
    def indep(self, e, pc, name):
        """goals: e does not depend on anything stale"""
        if len(self.failed) >= 12:  # enough obligations have failed
            return
        S = sorted(x for x in self.syms(e) if x in self.stale) if isinstance(e, z3.ExprRef) else []
        if not S:
            self.s.goal(True, name)
            return
        for x in S:
            if not self.bad1(e, x, pc):
                self.s.goal(True, name)
                continue
            # no independence proof: the obligation fails
            nm = name + " [%s, leftover %s]" % (x.split("!")[0], "reaching %s of %s" % (self.why[x][1], self.why[x][0]) if x in self.why else "read")
            if nm not in self.failed:
                self.failed.add(nm)
                self.s.goal(False, nm, pc=())

    def bad1(self, e, x, pc):
        c = self.cond.get(x)
        return not self.free(e, x, [] if c is None else [z3.Not(B(c))], pc)

    def path(self, st, name):
        if st.dead:
            return
        for c in st.pc:
            if isinstance(c, z3.ExprRef) and any(x in self.stale for x in self.syms(c)):
                self.indep(c, st.pc, "%s: which way is taken" % name)
        self.s.goal(True, "%s: which way is taken" % name)

    def events(self, st, name, skip=()):
        if st.dead:
            return
        for g, e in st.events:
            if e.kind in skip:
                continue
            if g is not True:
                self.indep(B(g), st.pc, "%s: whether %s" % (name, e.kind))
            for k, v in e.d.items():
                vs = v if isinstance(v, (list, tuple)) else [v]
                for w in vs:
                    if isinstance(w, Content):
                        key = tuple(self.k)
                        t = st.clone()
                        for z in key:
                            t.assume(z >= 0)
                            t.assume(z < self.n)
                        w = w.read(key, self.ex.decider(t))
                    for t in self.of(w):
                        self.indep(t, st.pc, "%s: %s given to %s" % (name, k, e.kind))

    def invariants(self):
        """what the fixpoint established, as obligations"""
        for target, base, sources, name, skip, keep in self.links:
            for nm, new, read in self.items(target, base):
                x, = new
                if x in self.stale and x not in self.cond:
                    continue
                for z in sources:
                    if z.dead:
                        continue
                    ts, pc = read(z)
                    if x in self.cond:
                        c = self.table[(name, nm)](z)
                        if c is False:
                            continue
                        pc = tuple(pc) + ((B(c),) if isinstance(c, z3.ExprRef) else ())
                    for t in ts:
                        self.indep(t, pc, "%s loop: %s" % (name, nm))


def stale_of(fl, o, settings, st0, extra=()):
    """symbols of the object's fields that are not settings"""
    ex = fl.ex
    clean, seen = set(), set()

    def region(a, ok):
        if a in st0.reg:
            t, pc = fl.content(st0, a)
            if isinstance(t, z3.ExprRef):
                (clean if ok else fl.stale).update(fl.syms(t))

    def walk(o, ok):
        if o in seen:
            return
        seen.add(o)
        for f, lv in ex.objs[o].n.items():
            mine = ok or f in settings
            if hasattr(lv, "cid"):
                v = st0.mem.get(lv.cid)
                for x in fl.of(v):
                    (clean if mine else fl.stale).update(fl.syms(x))
                if isinstance(v, Ptr):
                    for a in v.alts:
                        region(a[1], mine)
            elif hasattr(lv, "oid"):
                walk(lv.oid, mine)
            elif hasattr(lv, "rid"):
                region(lv.rid, mine)
    walk(o, False)
    for e in extra:
        for x in fl.of(e):
            fl.stale |= fl.syms(x)
    fl.stale -= clean
    fl.stale -= {"rel!k0", "rel!k1", "n", "ku", "kl"}
