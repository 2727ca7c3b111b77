"""Memory model: regions (one per array/allocation) with layered contents,
pointers = guarded (region, offset) alternatives, objects, lvalues."""
import z3
from . import terms as T
from .terms import R, I, B, land, lnot, ite, cmp, add, sub


class Unsupported(Exception):
    """a construct the engine cannot handle: the function is outside its reach"""


class Ptr:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts          # tuple of (cond, rid, off)

    def __repr__(self):
        return "Ptr(%r)" % (self.alts,)

    def same(self, o):
        if self is o:
            return True
        if not isinstance(o, Ptr) or len(self.alts) != len(o.alts):
            return False
        for (c, r, f), (c2, r2, f2) in zip(self.alts, o.alts):
            if r != r2 or not veq(f, f2) or not veq(c, c2):
                return False
        return True


def P(rid, off=0):
    return Ptr(((True, rid, off),))


NULL = Ptr(((True, None, 0),))


class Opaque:
    def __init__(self, what="opaque"):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


class ObjV:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid


class LCell:
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid


class LElem:
    __slots__ = ("ptr", "ty")     # ptr: Ptr designating the element

    def __init__(self, ptr, ty=None):
        self.ptr = ptr
        self.ty = ty


class LObj:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid


class LArr:
    __slots__ = ("rid", "off", "dims", "elem")

    def __init__(self, rid, off, dims, elem):
        self.rid, self.off, self.dims, self.elem = rid, off, dims, elem


class LTmp:
    """temporary bound to a value"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Region:
    def __init__(self, rid, name, size, kind, dims=1, origin="new", align=True):
        self.rid, self.name, self.size, self.kind = rid, name, size, kind
        self.dims = dims
        self.origin = origin
        self.align = align


def veq(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if T.ispy(a) or T.ispy(b):
        return T.ispy(a) and T.ispy(b) and a == b and isinstance(a, Fraction_) == isinstance(b, Fraction_)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr):
        return a.same(b)
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return a.oid == b.oid
    return False


Fraction_ = T.Fraction


def vmerge(c, a, b):
    """value if c then a else b"""
    if a is b or veq(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        out = {}
        order = []
        for cc, src in ((c, a), (lnot(c), b)):
            for g, r, o in src.alts:
                k = (r, repr(o) if T.ispy(o) else o.get_id())
                if k in out:
                    out[k][0] = T.lor(out[k][0], land(cc, g))
                else:
                    out[k] = [land(cc, g), r, o]
                    order.append(k)
        return Ptr(tuple(tuple(out[k]) for k in order))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a if isinstance(a, Opaque) else b
    if isinstance(a, (Ptr, ObjV)) or isinstance(b, (Ptr, ObjV)):
        raise Unsupported("merge of pointer and non pointer")
    return ite(c, a, b)


# ------------------------------------------------------------------ contents
class Content:
    def read(self, key, dec):
        """key: tuple of int terms; dec: decider (cond -> True/False/None)"""
        raise NotImplementedError


class Base(Content):
    def __init__(self, f, kind="real"):
        self.f = f
        self.kind = kind

    def read(self, key, dec):
        return self.f(*[I(k) for k in key])


class Dict(Content):
    """finite map of concrete 1-d keys over a base"""

    def __init__(self, base, d):
        self.base, self.d = base, d

    def read(self, key, dec):
        k = T.pynum(key[0]) if not T.ispy(key[0]) else key[0]
        if T.ispy(k):
            if k in self.d:
                return self.d[k]
            if self.base is None:
                raise Unsupported("read of unset element")
            return self.base.read((k,), dec)
        r = None
        for kk, v in self.d.items():
            g = cmp("==", k, kk)
            g = dec(g)
            if g is False:
                continue
            if g is True:
                return v
            if r is None:
                r = self.base.read(key, dec) if self.base is not None else v
            r = vmerge(cmp("==", k, kk), v, r)
        if r is None:
            if self.base is None:
                raise Unsupported("read of unset element")
            return self.base.read(key, dec)
        return r


class Table(Content):
    """constant table; symbolic reads are applications of a named function"""

    def __init__(self, name, vals, kind="real"):
        self.name, self.vals = name, vals
        self.f = z3.Function("tab_" + name, z3.IntSort(), z3.RealSort() if kind == "real" else z3.IntSort())

    def read(self, key, dec):
        k = T.pynum(key[0]) if not T.ispy(key[0]) else key[0]
        if T.ispy(k):
            if 0 <= k < len(self.vals):
                return self.vals[k]
            return self.f(I(k))
        return self.f(I(k))


class Store(Content):
    def __init__(self, prev, key, val):
        self.prev, self.key, self.val = prev, key, val

    def read(self, key, dec):
        g = True
        for a, b in zip(self.key, key):
            g = land(g, cmp("==", a, b))
        d = dec(g)
        if d is True:
            return self.val
        if d is False:
            return self.prev.read(key, dec)
        return vmerge(g, self.val, self.prev.read(key, dec))


class Map(Content):
    """for all params with guard: [key] -> val. inv: list of terms over the key
    placeholders kp giving the params; exact: extra condition on (params,key)."""

    def __init__(self, prev, params, guard, key, val, kp, inv, exact):
        self.prev, self.params, self.guard, self.key, self.val = prev, params, guard, key, val
        self.kp, self.inv, self.exact = kp, inv, exact

    def read(self, key, dec):
        kps = [(p, k) for p, k in zip(self.kp, key)]
        ps = [(p, T.subst(I(v), kps)) for p, v in zip(self.params, self.inv)]
        g = T.subst(self.guard, ps)
        if self.exact is not True:
            g = land(g, T.subst(self.exact, kps))
        d = dec(g)
        if d is False:
            return self.prev.read(key, dec)
        v = T.subst(self.val, ps) if not isinstance(self.val, (Ptr, ObjV)) else self.val
        if d is True:
            return v
        return vmerge(g, v, self.prev.read(key, dec))


class IteC(Content):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, key, dec):
        d = dec(self.c)
        if d is True:
            return self.a.read(key, dec)
        if d is False:
            return self.b.read(key, dec)
        return vmerge(self.c, self.a.read(key, dec), self.b.read(key, dec))


class SubstC(Content):
    """content with a substitution of constants and functions applied on read"""

    def __init__(self, c, fn):
        self.c, self.fn = c, fn

    def read(self, key, dec):
        v = self.c.read(key, lambda g: dec(self.fn(g)))
        return self.fn(v)


class NMap(Content):
    """one parameter p, guard(p): [c*p+k0] -> val(p) with symbolic stride c"""

    def __init__(self, prev, p, guard, c, k0, val):
        self.prev, self.p, self.guard, self.c, self.k0, self.val = prev, p, guard, c, k0, val

    def read(self, key, dec):
        k = I(key[0])
        cand = []
        seen = set()
        for x in T.walk(k):
            if z3.is_int(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in seen:
                seen.add(x.get_id())
                cand += [x, x - 1, x + 1]
        cand += [z3.IntVal(0), z3.IntVal(1)]
        for v in cand:
            if dec(z3.simplify(k == self.c * v + self.k0)) is True:
                ps = [(self.p, v)]
                g = T.subst(self.guard, ps)
                d = dec(g)
                if d is False:
                    return self.prev.read(key, dec)
                w = T.subst(self.val, ps)
                return w if d is True else vmerge(g, w, self.prev.read(key, dec))
        q = T.fresh("nq", "int")
        hit = land(T.subst(self.guard, [(self.p, q)]), k == self.c * q + self.k0)
        # valid integer facts (c>0): help the solver with the symbolic product
        if dec(self.c > 0) is True:
            for v in cand[:12]:
                hit = land(hit, z3.Implies(q >= v + 1, self.c * q >= self.c * v + self.c),
                           z3.Implies(q <= v - 1, self.c * q <= self.c * v - self.c))
        if dec(hit) is False:
            return self.prev.read(key, dec)
        raise Unsupported("read through a symbolic stride")


def mkmap(prev, params, guard, key, val):
    """build a Map layer, inverting key; raises Unsupported if not invertible"""
    if len(params) == 1 and len(key) == 1 and isinstance(val, z3.ExprRef):
        p = params[0]
        k = I(key[0])
        k0 = z3.simplify(z3.substitute(k, (p, z3.IntVal(0))))
        c = z3.simplify(z3.substitute(k, (p, z3.IntVal(1))) - k0)
        if not z3.is_int_value(c):
            from . import poly as PL
            try:
                n = PL.Norm()
                if not PL.padd(n.poly(k), n.poly(c * p + k0), -1):
                    return NMap(prev, p, guard, c, k0, val)
            except (ValueError, PL.TooBig):
                pass
    kp = [T.fresh("kp", "int") for _ in key]
    solved = {}
    exact = True
    todo = list(params)
    work = True
    used = set()
    inv = {}
    while todo and work:
        work = False
        for ci, k in enumerate(key):
            if ci in used:
                continue
            k = I(k)
            unk = [p for p in todo if T.occurs(k, [p])]
            if len(unk) != 1:
                continue
            p = unk[0]
            k0 = z3.simplify(z3.substitute(k, (p, z3.IntVal(0))))
            k1 = z3.simplify(z3.substitute(k, (p, z3.IntVal(1))))
            k2 = z3.simplify(z3.substitute(k, (p, z3.IntVal(2))))
            c = T.pynum(z3.simplify(k1 - k0))
            if not T.ispy(c) or c == 0 or T.pynum(z3.simplify(k2 - k1)) != c:
                continue
            back = [(q, inv[q.get_id()]) for q in params if q.get_id() in inv]
            k0 = T.subst(k0, back)
            if c == 1:
                inv[p.get_id()] = I(sub(kp[ci], k0))
            elif c == -1:
                inv[p.get_id()] = I(sub(k0, kp[ci]))
            else:
                d = I(sub(kp[ci], k0))
                if c < 0:
                    d, c = -d, -c
                inv[p.get_id()] = z3.simplify(d / z3.IntVal(c))
                exact = land(exact, d % z3.IntVal(c) == 0)
            todo.remove(p)
            used.add(ci)
            work = True
            break
    if todo:
        raise Unsupported("array index not invertible in loop variables: %s" % (key,))
    invl = [inv[p.get_id()] for p in params]
    # remaining key components must match exactly
    for ci, k in enumerate(key):
        if ci not in used:
            exact = land(exact, cmp("==", T.subst(I(k), list(zip(params, invl))), kp[ci]))
    return Map(prev, list(params), guard, tuple(key), val, kp, invl, exact)
