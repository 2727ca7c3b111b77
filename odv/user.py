"""Contracts of user-supplied code (right-hand side, Jacobian, time derivative)
and set-up of solver objects in an arbitrary state.

The right-hand side may be any function: an evaluation F(t,in,res) is recorded
as an event holding the time and the whole input vector, and leaves arbitrary
values in res[0..n-1] (and changes nothing else)."""
import z3
from .spec import *
from .mats import Mats


LK = [0]


def vec_region(ex, st, lv):
    """(region, offset) of the storage of a vector object"""
    p = ex.load(st, ex.objs[lv].n["x"])
    if not isinstance(p, Ptr) or len(p.alts) != 1:
        raise Unsupported("vector with ambiguous storage")
    return p.alts[0][1], p.alts[0][2]


def snap(ex, st, rid, off, n):
    """the vector stored at rid[off..off+n-1] as a Lam"""
    LK[0] += 1
    k = z3.Int("lam!%d" % LK[0])     # bound name: not a symbol of the program
    s2 = st.clone()
    s2.assume(k >= 0)
    s2.assume(k < n)
    return Lam(k, ex.content(st, rid).read((add(off, k),), ex.decider(s2)), n)


class User:
    """handlers for the members of user classes whose name starts with odes_Rhs"""

    def __init__(self, s, names, M=None, n=None):
        self.s, self.ex, self.M = s, s.ex, M
        self.n = s.n if n is None else n
        self.outs = {}          # name of output function -> event
        for nm in names:
            s.ex.ext[(nm, "operator()")] = self.F
            s.ex.ext[(nm, "Jacobian")] = self.J
            s.ex.ext[(nm, "DF_t")] = self.DFt

    def one(self, p, what):
        if not isinstance(p, Ptr) or len(p.alts) != 1:
            raise Unsupported("ambiguous array for " + what)
        return p.alts[0][1], p.alts[0][2]

    def put(self, st, rid, off, f):
        ex = self.ex
        if T.ispy(off) and off == 0 and (ex.regions[rid].size is not None and _same(ex.regions[rid].size, self.n)):
            st.reg[rid] = Base(f, "real")
            return
        q = T.fresh("q", "int")
        st.reg[rid] = L.mkmap(ex.content(st, rid), [q], land(q >= 0, q < self.n), (add(off, q),), f(q))

    def F(self, ex, st, this, args, e):
        t = ex.ev(args[0], st)
        ri, oi = self.one(ex.ev(args[1], st), "F input")
        ro, oo = self.one(ex.ev(args[2], st), "F output")
        ex.bound(st, ri, (add(oi, sub(self.n, 1)),), "F reads")
        ex.bound(st, ro, (add(oo, sub(self.n, 1)),), "F writes")
        if ri == ro:
            ex.oblige(st, False, "F is not asked to write into the vector it reads", "pre")
        y = snap(ex, st, ri, oi, self.n)
        f = T.freshfun("Fout", 1, "real")
        st.events = st.events + ((True, Event("F", t=R(t), y=y, out=f)),)
        self.put(st, ro, oo, f)
        return None

    def J(self, ex, st, this, args, e):
        return self.jac(ex, st, args[0], args[1], args[2], ex.lv(args[3], st).oid)

    def jac(self, ex, st, at, ay, af, oid):
        t = ex.ev(at, st)
        ys, fs = ex.ev(ay, st), ex.ev(af, st)
        y = snap(ex, st, *vec_region(ex, st, ys.oid), self.n)
        fy = snap(ex, st, *vec_region(ex, st, fs.oid), self.n)
        rid = self.M.ghost(st, oid)[0][0]
        f = T.freshfun("Jout", 2, "real")
        st.reg[rid] = Base(f, "real")
        st.events = st.events + ((True, Event("J", t=R(t), y=y, fy=fy, out=f, rid=rid)),)
        return None

    def DFt(self, ex, st, this, args, e):
        t = ex.ev(args[0], st)
        y = snap(ex, st, *vec_region(ex, st, ex.lv(args[1], st).oid), self.n)
        ro, oo = vec_region(ex, st, ex.lv(args[2], st).oid)
        f = T.freshfun("DFout", 1, "real")
        st.events = st.events + ((True, Event("DFt", t=R(t), y=y, out=f)),)
        self.put(st, ro, oo, f)
        return None


def _same(a, b):
    if T.ispy(a) and T.ispy(b):
        return a == b
    return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)


def solver_object(s, cls, M, name="S", size=None, skip=()):
    """an object of class cls whose every field holds arbitrary data: vectors own
    distinct arrays of n elements, scalars are arbitrary"""
    n = s.n if size is None else size
    o = s.obj(cls, name)
    if M is not None:
        M.attach(o)
    fill(s, o, n, skip)
    return o


def fill(s, o, n, skip=()):
    ex = s.ex
    for f, lv in list(ex.objs[o].n.items()):
        if f in skip:
            continue
        if isinstance(lv, LObj):
            cn = ex.objs[lv.oid].cls.get("name") or ""
            if cn == "fortranVectorF" or cn == "fortranVector":
                rid, g = s.array(f, vsize(ex, lv.oid, n))
                for fld in ("x", "y"):
                    if fld in ex.objs[lv.oid].n:
                        s.setf(lv.oid, fld, P(rid))
                s.setf(lv.oid, "size", vsize(ex, lv.oid, n))
                s.setf(lv.oid, "deletable", False)
            elif cn.startswith("fortran"):
                pass
            else:
                fill(s, lv.oid, n, skip)
        elif isinstance(lv, LCell):
            k = ex.tkind(ex.cellinfo[lv.cid][1])
            if k[0] == "real":
                s.st.mem[lv.cid] = T.fresh("f_" + f, "real")
            elif k[0] == "int":
                s.st.mem[lv.cid] = T.fresh("f_" + f, "int")
            elif k[0] == "bool":
                s.st.mem[lv.cid] = T.fresh("f_" + f, "bool")


def vsize(ex, oid, n):
    cls = ex.objs[oid].cls
    ta = [x.get("value") for x in cls.get("inner", ()) if x.get("kind") == "TemplateArgument"]
    if ta and ta[0] is not None:
        return ex.mapint(int(ta[0]))
    return n


def vread(s, oid, k, st=None):
    """component k (1-based) of a vector object"""
    st = st or s.st
    return s.readp(s.ex.load(st, s.ex.objs[oid].n["x"]), sub(k, 1), st)


def vec(s, cls, name, n=None, alias=None):
    """a vector object of class cls over a fresh (or given) array"""
    o = s.obj(cls, name)
    rid, f = s.array(name, s.n if n is None else n) if alias is None else alias
    for fld in ("x", "y"):
        if fld in s.ex.objs[o].n:
            s.setf(o, fld, P(rid))
    s.setf(o, "size", s.n if n is None else n)
    s.setf(o, "deletable", False)
    return o, rid, f


def apps(e, names, out=None):
    """applications in e of functions whose name is in names"""
    out = [] if out is None else out
    if not isinstance(e, z3.ExprRef):
        return out
    for x in T.walk(e):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and x.decl().name() in names:
            if not any(y.eq(x) for y in out):
                out.append(x)
    return out
