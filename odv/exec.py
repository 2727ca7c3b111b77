"""Symbolic executor over the clang AST (verification-condition generator)."""
import re
import sys
import z3
from fractions import Fraction
from . import terms as T
from .terms import R, I, B, land, lor, lnot, ite, cmp, add, sub, mul, neg
from .mem import *
from . import ast as A

sys.setrecursionlimit(20000)


class State:
    def __init__(self):
        self.mem = {}
        self.reg = {}
        self.pc = ()
        self.events = ()
        self.freed = {}
        self.dead = False

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.reg = dict(self.reg)
        s.pc, s.events, s.freed, s.dead = self.pc, self.events, self.freed, self.dead
        return s

    def take(self, o):
        self.mem, self.reg, self.pc = o.mem, o.reg, o.pc
        self.events, self.freed, self.dead = o.events, o.freed, o.dead

    def assume(self, c):
        c = T.pynum(c)
        if c is True:
            return
        if c is False:
            self.dead = True
            return
        c = B(c)
        self.pc = self.pc + (c,)


def _common(p, q):
    n = 0
    for a, b in zip(p, q):
        if a is b or a.eq(b):
            n += 1
        else:
            break
    return n


def merge(a, b):
    if a.dead:
        return b
    if b.dead:
        return a
    n = _common(a.pc, b.pc)
    sa, sb = a.pc[n:], b.pc[n:]
    ca, cb = land(*sa), land(*sb)
    out = State()
    if ca is True and cb is True:
        raise Unsupported("merge of two unconditional states")
    # the selector: prefer the simpler side
    if ca is True:
        c = lnot(cb)
    else:
        c = ca
    out.pc = a.pc[:n]
    j = lor(ca, cb)
    compl = False
    if len(sa) >= 1 and len(sb) >= 1:
        f, g = sa[0], sb[0]
        if (z3.is_not(f) and f.children()[0].eq(g)) or (z3.is_not(g) and g.children()[0].eq(f)):
            if len(sa) == 1 and len(sb) == 1:
                compl = True
            c = f                      # selector: first differing literal
            extra = land(z3.Implies(B(f), B(land(*sa[1:]))) if len(sa) > 1 else True,
                         z3.Implies(B(g), B(land(*sb[1:]))) if len(sb) > 1 else True)
            if not compl:
                out.pc = out.pc + tuple(x for x in ([B(extra)] if extra is not True else []))
            compl = True
    if not compl and j is not True:
        out.pc = out.pc + (B(j),)
    am, bm = a.mem, b.mem
    m = {}
    for k, v in am.items():
        if k in bm:
            w = bm[k]
            m[k] = v if v is w else vmerge(c, v, w)
        else:
            m[k] = v
    for k, w in bm.items():
        if k not in am:
            m[k] = w
    out.mem = m
    r = {}
    for k, v in a.reg.items():
        w = b.reg.get(k, v)
        r[k] = v if v is w else IteC(c, v, w)
    for k, w in b.reg.items():
        if k not in r:
            r[k] = w
    out.reg = r
    ne = 0
    for x, y in zip(a.events, b.events):
        if x is y:
            ne += 1
        else:
            break
    ev = list(a.events[:ne])
    for g, e in a.events[ne:]:
        ev.append((land(c, g), e))
    for g, e in b.events[ne:]:
        ev.append((land(lnot(c), g), e))
    out.events = tuple(ev)
    fr = {}
    for k in set(a.freed) | set(b.freed):
        x, y = a.freed.get(k, False), b.freed.get(k, False)
        v = lor(land(c, x), land(lnot(c), y)) if x is not y else x
        if v is not False:
            fr[k] = v
    out.freed = fr
    return out


def merge_all(sts):
    sts = [s for s in sts if not s.dead]
    if not sts:
        d = State()
        d.dead = True
        return d
    r = sts[-1]
    for s in reversed(sts[:-1]):
        r = merge(s, r)
    return r


class Obj:
    def __init__(self, oid, cls, name):
        self.oid, self.cls, self.name = oid, cls, name
        self.f = {}       # field decl id -> lvalue
        self.n = {}       # field name -> lvalue (most derived last)


class Event:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.d = kw

    def __getattr__(self, k):
        try:
            return self.__dict__["d"][k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return "Event(%s,%s)" % (self.kind, {k: v for k, v in self.d.items()})


class LoopEvents(Event):
    def __init__(self, I, N, evs):
        Event.__init__(self, "loop", I=I, N=N, evs=evs)


class Lam:
    """captured vector: value at placeholder k for 0<=k<n"""

    def __init__(self, k, body, n):
        self.k, self.body, self.n = k, body, n

    def at(self, x):
        return T.subst(self.body, [(self.k, x)])


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.env = {}
        self.returns = []
        self.rettype = None


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


INT_T = {"int", "unsigned int", "unsigned", "long", "unsigned long", "short", "long long",
         "size_t", "unsigned long long", "std::size_t", "char", "signed char", "unsigned char"}
REAL_T = {"double", "float", "long double"}


def qt(node):
    t = node.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


def strip_cv(s):
    s = s.strip()
    s = re.sub(r"\b(const|volatile|__restrict|restrict|struct|class|enum|typename)\b", "", s)
    return re.sub(r"\s+", " ", s).strip()


class Exec:
    def __init__(self, ast, nmap=None, ext=None, contracts=None, facts=(), max_unroll=400):
        self.ast = ast
        self.nmap = dict(nmap or {})
        self.ext = ext or {}
        self.contracts = contracts or {}
        self.facts = [B(f) for f in facts]       # global assumptions
        self.axioms = []
        self.obls = []
        self.throws = []
        self.regions = {}
        self.objs = {}
        self.cellinfo = {}
        self.onstore = None
        self.onassign = None    # sees every assignment to a cell
        self.wild = False       # comparisons of floating-point values may give any result
        self.frames = []
        self.loops = []
        self.records = []
        self.inlined = {}
        self.globals = {}
        self.gcontent = {}
        self.max_unroll = max_unroll
        self._ids = 0
        self._dec_cache = {}
        self._solver_key = None
        self._solver = None
        self._intonly = {}
        self.nbound = 0
        self.nbound_open = 0
        self.check_bounds = True
        self.trial = 0
        self.invmode = None
        self.unknown_ext = []
        self.seqhook = None
        self.omp = None
        self.ompreport = []
        self._classes = None
        self.rw = None            # read/write log hook
        self.divs = []
        self.clskey = {}
        self.debug = False
        self.seqspec = None
        self.dry = 0        # >0 while searching for what a loop modifies
        self.seeds = {}     # loop -> (cells, regions) it modified at an earlier visit
        self.weak = None
        self.insummary = 0
        self.paths = None       # {(if node, visit): bool} in path mode
        self.visits = {}
        self.pathuse = []

    # ------------------------------------------------------------- ids
    def nid(self):
        self._ids += 1
        return self._ids

    # ------------------------------------------------------------- decide
    def _is_intonly(self, e):
        i = e.get_id()
        r = self._intonly.get(i)
        if r is None:
            ok = True
            for x in T.walk(e):
                s = x.sort_kind() if hasattr(x, "sort_kind") else None
                if z3.is_real(x):
                    ok = False
                    break
            self._intonly[i] = (ok, e)
            return ok
        return r[0]

    def decider(self, st, extra=()):
        pc = st.pc

        def dec(c):
            c = T.pynum(c)
            if T.ispy(c):
                return bool(c)
            c = B(c)
            if not self._is_intonly(c):
                return None
            return self.decide(pc, c, extra)
        return dec

    def implied(self, pc, goal):
        """does the path condition imply the formula (used for candidate invariants)"""
        s = z3.Solver()
        s.set("timeout", 2000)
        for f in list(self.facts) + list(pc):
            s.add(f)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def decide(self, pc, c, extra=()):
        ids = tuple(x.get_id() for x in pc) + tuple(B(x).get_id() for x in extra)
        key = (ids, c.get_id())
        r = self._dec_cache.get(key, 0)
        if r != 0:
            return r[0]
        if self._solver_key != ids:
            s = z3.Solver()
            s.set("timeout", 3000)
            for f in self.facts:
                if self._is_intonly(f):
                    s.add(f)
            for f in self.axioms:
                if self._is_intonly(f):
                    s.add(f)
            for f in pc:
                if self._is_intonly(f):
                    s.add(f)
            for f in extra:
                if self._is_intonly(B(f)):
                    s.add(B(f))
            self._solver_key, self._solver = ids, s
        s = self._solver
        res = None
        s.push()
        s.add(z3.Not(c))
        if s.check() == z3.unsat:
            res = True
        s.pop()
        if res is None:
            s.push()
            s.add(c)
            if s.check() == z3.unsat:
                res = False
            s.pop()
        self._dec_cache[key] = (res, c, pc, extra)
        return res

    # ------------------------------------------------------------- obligations
    def oblige(self, st, goal, name, kind="assert"):
        goal = T.pynum(goal)
        if goal is True:
            self.nbound += kind in ("bound", "defined")
            return
        g = B(goal)
        if kind == "bound" and self._is_intonly(g) and self.decide(st.pc, g) is True:
            self.nbound += 1
            return
        self.obls.append(dict(pc=st.pc, goal=g, name=name, kind=kind, fn=self.where()))

    def where(self):
        return "/".join(f.fn.get("name", "?") for f in self.frames) if self.frames else ""

    # ------------------------------------------------------------- regions
    def new_region(self, st, name, size, kind, origin="new", dims=1, content=None, align=True):
        rid = self.nid()
        self.regions[rid] = Region(rid, name, size, kind, dims, origin, align)
        if content is None:
            if kind in ("real", "int"):
                content = Base(T.freshfun("undef_" + name, dims, kind), kind)
            else:
                content = Dict(None, {})
        st.reg[rid] = content
        return rid

    def content(self, st, rid):
        c = st.reg.get(rid)
        if c is None:
            c = self.gcontent.get(rid)
            if c is None:
                raise Unsupported("region without content")
        return c

    def bound(self, st, rid, key, what="access"):
        if not self.check_bounds:
            return
        rg = self.regions[rid]
        if rg.size is None:
            return
        if rid in st.freed:
            self.oblige(st, lnot(st.freed[rid]), "use-after-free %s" % rg.name, "bound")
        if rg.dims == 1:
            sizes = [rg.size]
            lows = [0]
        else:
            sizes = rg.size
            lows = [1] * len(sizes)     # fortran indexed views
        g = True
        for k, s, lo in zip(key, sizes, lows):
            g = land(g, land(cmp(">=", k, lo), cmp("<", k, add(s, lo))))
        if rg.dims == 2 and getattr(rg, "band", None):
            g = land(g, rg.band(*key))
        self.oblige(st, g, "%s of %s in bounds" % (what, rg.name), "bound")

    def rd(self, st, rid, key):
        if isinstance(rid, tuple):      # ('cell', cid)
            if not (T.ispy(key[0]) and key[0] == 0):
                self.oblige(st, cmp("==", key[0], 0), "scalar address arithmetic", "bound")
            return self.rdcell(st, rid[1])
        self.bound(st, rid, key, "read")
        if self.rw is not None:
            self.rw.append(("r", rid, key, st.pc))
        return self.content(st, rid).read(key, self.decider(st))

    def wr(self, st, rid, key, val, guard=True):
        if rid is None or rid == "undef":
            self.oblige(st, lnot(guard), "write through null or uninitialised pointer", "bound")
            return
        if isinstance(rid, tuple):
            cid = rid[1]
            if guard is True:
                st.mem[cid] = val
            else:
                st.mem[cid] = vmerge(guard, val, self.rdcell(st, cid))
            return
        if guard is not True:
            s2 = st.clone()
            s2.assume(guard)
            self.bound(s2, rid, key, "write")
        else:
            self.bound(st, rid, key, "write")
        if self.rw is not None:
            self.rw.append(("w", rid, key, st.pc))
        old = self.content(st, rid)
        k = tuple(T.pynum(x) for x in key)
        if len(k) == 1 and T.ispy(k[0]):
            if isinstance(old, Dict):
                d = dict(old.d)
                base = old.base
            else:
                d, base = {}, old
            if guard is True:
                d[k[0]] = val
            else:
                d[k[0]] = vmerge(guard, val, old.read(k, self.decider(st)))
            st.reg[rid] = Dict(base, d)
        else:
            new = Store(old, k, val)
            st.reg[rid] = new if guard is True else IteC(guard, new, old)

    def rdcell(self, st, cid):
        v = st.mem.get(cid)
        if v is None:
            v = self.gcontent.get(("c", cid))
            if v is None:
                info = self.cellinfo[cid]
                v = self.undef(info[0], info[1])
                st.mem[cid] = v
        return v

    def undef(self, name, ty):
        k = self.tkind(ty)[0]
        if k in ("int", "real", "bool"):
            return T.fresh("undef_" + name, k)
        if k == "ptr":
            return Ptr(((True, "undef", 0),))
        return Opaque(name)

    # ------------------------------------------------------------- types
    def tkind(self, ty):
        s = ty if isinstance(ty, str) else qt(ty)
        s = s.strip()
        m = re.match(r"^(.*?)((?:\[\d*\])+)$", s)
        if m:
            dims = [int(x) if x else None for x in re.findall(r"\[(\d*)\]", m.group(2))]
            el = m.group(1).strip()
            return ("array", self.untypedef(el) or el, [self.mapint(d) for d in dims])
        if s.endswith("&&"):
            return ("ref", s[:-2].strip())
        if s.endswith("&"):
            return ("ref", s[:-1].strip())
        b = strip_cv(s)
        if b.endswith("*"):
            return ("ptr", b[:-1].strip())
        if b in INT_T:
            return ("int",)
        if b in REAL_T:
            return ("real", b)
        if b == "bool" or b == "_Bool":
            return ("bool",)
        if b == "void":
            return ("void",)
        if "basic_string" in b or b in ("string", "std::string"):
            return ("string",)
        u = self.untypedef(b)
        if u is not None:
            return self.tkind(u)
        return ("class", b)

    def untypedef(self, b):
        """type a (member) typedef name stands for, when unambiguous"""
        if not re.match(r"^\w+$", b):
            return None
        tb = getattr(self.ast, "_typedefs", None)
        if tb is None:
            tb = self.ast._typedefs = {}
            for n in self.ast.byid.values():
                if n.get("kind") in ("TypedefDecl", "TypeAliasDecl") and not n.get("_pattern"):
                    tb.setdefault(n.get("name"), set()).add(qt(n))
        u = tb.get(b)
        if u is not None and len(u) == 1:
            (t,) = u
            if t != b and "type-parameter" not in t:
                return t
        return None

    def mapint(self, v):
        if v is None:
            return None
        return self.nmap.get(v, v)

    def _norm(self, s):
        s = strip_cv(s)
        s = s.replace("odes::", "").replace("std::", "").replace("(anonymous namespace)::", "")
        s = s.replace("false", "0").replace("true", "1")
        return s.replace(" ", "")

    def class_by_type(self, ty):
        s = ty if isinstance(ty, str) else qt(ty)
        if self._classes is None:
            self._classes = {}
            for c in self.ast.classes.values():
                if c.get("_pattern"):
                    continue
                nm = c.get("name")
                if c["kind"] == "ClassTemplateSpecializationDecl":
                    args = []
                    for a in self.ast.targs(c):
                        a = str(a)
                        if a == "-1":
                            a = "1"
                        args.append(self._norm(a))
                    self._classes["%s<%s>" % (nm, ",".join(args))] = c
                else:
                    self._classes.setdefault(nm, c)
        k = self._norm(s)
        r = self._classes.get(k)
        if r is None and "::" in k:
            # nested class: take last component outside <>
            depth = 0
            last = 0
            for i, ch in enumerate(k):
                if ch == "<":
                    depth += 1
                elif ch == ">":
                    depth -= 1
                elif ch == ":" and depth == 0:
                    last = i + 1
            r = self._classes.get(k[last:])
        return r

    # ------------------------------------------------------------- objects
    def new_obj(self, st, cls, name):
        oid = self.nid()
        o = Obj(oid, cls, name)
        self.objs[oid] = o
        self._add_fields(st, o, cls, name)
        return oid

    def bases(self, cls):
        out = []
        for b in cls.get("bases", ()):
            t = b.get("type", {})
            c = self.class_by_type(t.get("desugaredQualType") or t.get("qualType"))
            if c is not None:
                out.append(c)
        return out

    def _add_fields(self, st, o, cls, name):
        for b in self.bases(cls):
            self._add_fields(st, o, b, name)
        for f in cls.get("inner", ()):
            if f.get("kind") == "FieldDecl":
                lv = self.new_var(st, qt(f), (name + "." if name else "") + f.get("name", "anon"))
                o.f[f["id"]] = lv
                o.n[f.get("name")] = lv

    def new_var(self, st, ty, name):
        k = self.tkind(ty)
        if k[0] == "array":
            ek = self.tkind(k[1])
            size = 1
            for d in k[2]:
                size = mul(size, d)
            if ek[0] == "class" and self.class_by_type(k[1]) is not None:
                raise Unsupported("array of objects")
            kind = {"real": "real", "int": "int", "ptr": "ptr", "bool": "bool"}.get(ek[0], "opaque")
            if kind == "bool":
                kind = "ptr"
            rid = self.new_region(st, name, size, kind, origin="array")
            return LArr(rid, 0, k[2], k[1])
        if k[0] == "class":
            c = self.class_by_type(ty)
            if c is not None:
                oid = self.new_obj(st, c, name)
                return LObj(oid)
            if self.isenum(ty):
                k = ("int",)
            elif "pair<" in ty:
                oid = self.nid()
                o = Obj(oid, {"name": "pair", "inner": []}, name)
                self.objs[oid] = o
                return LObj(oid)
        cid = self.nid()
        self.cellinfo[cid] = (name, "int" if k[0] == "int" else ty)
        return LCell(cid)

    def isenum(self, ty):
        b = strip_cv(ty).split("::")[-1]
        return any(n.get("kind") == "EnumDecl" and n.get("name") == b for n in self.ast.byid.values())

    def find_ctor(self, cls, ctype):
        want = self._norm(ctype)
        cands = []
        for m in cls.get("inner", ()):
            if m.get("kind") == "CXXConstructorDecl":
                if self._norm(m["type"].get("desugaredQualType") or m["type"]["qualType"]) == want or self._norm(m["type"]["qualType"]) == want:
                    return m
                cands.append(m)
            if m.get("kind") == "FunctionTemplateDecl":
                for mm in m.get("inner", ()):
                    if mm.get("kind") == "CXXConstructorDecl" and self._norm(mm["type"]["qualType"]) == want:
                        return mm
        return None

    def construct(self, st, oid, cls, node=None, argnodes=(), ctype="void ()", frame=None):
        """run the constructor of class cls on object oid"""
        if cls.get("name") == "OdesException":
            return
        ctor = self.find_ctor(cls, ctype)
        d = self.ast.fdef(ctor["id"]) if ctor is not None else None
        key = (cls.get("name"), "ctor")
        if key in self.contracts:
            r = self.contracts[key](self, st, oid, argnodes)
            if r is not NotImplemented:
                return
        if d is None and argnodes and len(argnodes) == 1 and ctor is not None and ("&" in ctype):
            # implicit copy
            src = self.lv(argnodes[0], st)
            self.copy_obj(st, oid, src.oid, cls)
            return
        if d is None and argnodes and ctor is None:
            try:
                src = self.lv(argnodes[0], st)
            except Unsupported:
                src = None
            if isinstance(src, LObj) and len(argnodes) == 1:
                self.copy_obj(st, oid, src.oid, cls)
                return
            raise Unsupported("constructor of %s not found: %s" % (cls.get("name"), ctype))
        if d is None:
            # implicit default ctor
            for b in self.bases(cls):
                self.construct(st, oid, b)
            for f in cls.get("inner", ()):
                if f.get("kind") == "FieldDecl":
                    lv = self.objs[oid].f[f["id"]]
                    ini = [c for c in f.get("inner", ()) if "Expr" in c.get("kind", "") or "Literal" in c.get("kind", "")]
                    if ini and f.get("hasInClassInitializer"):
                        self.init_lv(st, lv, ini[0], qt(f), oid)
                    elif isinstance(lv, LObj) and lv.oid in self.objs and self.objs[lv.oid].cls.get("id"):
                        self.construct(st, lv.oid, self.objs[lv.oid].cls)
            return
        argv = self.bind_args(st, d, argnodes)
        self.construct_with(st, oid, d, argv)

    def construct_with(self, st, oid, d, argv):
        """run constructor d with argument values argv"""
        fr = Frame(d, oid)
        self.frames.append(fr)
        try:
            for p, a in zip(A.params(d), argv):
                self.bind_param(st, fr, p, a)
            for c in d.get("inner", ()):
                if c.get("kind") != "CXXCtorInitializer":
                    continue
                if "baseInit" in c:
                    bc = self.class_by_type(c["baseInit"].get("desugaredQualType") or c["baseInit"]["qualType"])
                    e = self.unwrap(c["inner"][0])
                    if bc is not None and e["kind"] == "CXXConstructExpr":
                        self.construct(st, oid, bc, e, e.get("inner", ()), e["ctorType"]["qualType"])
                elif "anyInit" in c:
                    fid = c["anyInit"]["id"]
                    lv = self.objs[oid].f.get(fid)
                    if lv is None:
                        lv = self.objs[oid].n[c["anyInit"]["name"]]
                    e = c["inner"][0]
                    if e.get("kind") == "CXXDefaultInitExpr":
                        f = self.ast.byid.get(fid)
                        ini = [x for x in (f or {}).get("inner", ()) if x.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
                        if not ini:
                            continue
                        e = ini[0]
                    self.init_lv(st, lv, e, c["anyInit"]["type"].get("desugaredQualType") or c["anyInit"]["type"]["qualType"], oid)
            b = self.ast.body(d)
            self.exec(b, st)
            self.finish_frame(st, fr)
        finally:
            self.frames.pop()

    def copy_obj(self, st, dst, src, cls):
        D, S = self.objs[dst], self.objs[src]
        if S.cls.get("name") == "pair":
            for nme, l in S.n.items():
                if nme not in D.n:
                    cid = self.nid()
                    self.cellinfo[cid] = (nme, "pairfield")
                    D.n[nme] = LCell(cid)
                self.assign(st, D.n[nme], self.load(st, l))
            return
        for b in self.bases(cls):
            self.copy_obj(st, dst, src, b)
        for f in cls.get("inner", ()):
            if f.get("kind") == "FieldDecl":
                a, b = D.f[f["id"]], S.f[f["id"]]
                if isinstance(a, LCell):
                    st.mem[a.cid] = self.rdcell(st, b.cid)
                elif isinstance(a, LArr):
                    st.reg[a.rid] = self.content(st, b.rid)
                elif isinstance(a, LObj):
                    self.copy_obj(st, a.oid, b.oid, self.objs[a.oid].cls)

    def unwrap(self, e):
        while e.get("kind") in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
                                "ParenExpr", "ConstantExpr", "FullExpr", "CXXFunctionalCastExpr") or \
                (e.get("kind") == "ImplicitCastExpr" and e.get("castKind") in ("ConstructorConversion", "NoOp", "UserDefinedConversion")):
            if e.get("kind") == "CXXFunctionalCastExpr" and e.get("castKind") not in ("ConstructorConversion", "NoOp"):
                break
            e = e["inner"][0]
        return e

    def init_lv(self, st, lv, e, ty, oid=None):
        """initialise a fresh variable from an initialiser expression"""
        u = self.unwrap(e)
        if isinstance(lv, LObj):
            o = self.objs[lv.oid]
            if o.cls.get("name") == "pair":
                v = self.ev(e, st)
                if isinstance(v, ObjV):
                    self.copy_obj(st, lv.oid, v.oid, o.cls)
                return
            if u["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                cls = self.class_by_type(u) or o.cls
                if u.get("elidable") and u.get("inner"):
                    return self.init_lv(st, lv, u["inner"][0], ty, oid)
                self.construct(st, lv.oid, o.cls, u, [x for x in u.get("inner", ())], u["ctorType"]["qualType"])
                return
            if u["kind"] == "InitListExpr":
                fl = [f for f in o.cls.get("inner", ()) if f.get("kind") == "FieldDecl"]
                for f, x in zip(fl, u.get("inner", ())):
                    self.init_lv(st, o.f[f["id"]], x, qt(f))
                return
            v = self.ev(e, st)
            if isinstance(v, ObjV):
                self.copy_obj(st, lv.oid, v.oid, o.cls)
                return
            raise Unsupported("object initialiser " + u["kind"])
        if isinstance(lv, LArr):
            if u["kind"] == "InitListExpr":
                self.init_array(st, lv, u)
                return
            if u["kind"] in ("ImplicitValueInitExpr",):
                return
            if u["kind"] == "StringLiteral":
                return
            if u["kind"] == "CXXConstructExpr":
                return
            if u["kind"] == "ArrayInitLoopExpr":
                raise Unsupported("array copy init")
            raise Unsupported("array initialiser " + u["kind"])
        v = self.ev(e, st)
        if isinstance(lv, LCell):
            v = self.conv(v, ty)
            st.mem[lv.cid] = v if self.onstore is None else self.onstore(st, lv.cid, v)

    def init_array(self, st, lv, u):
        items = u.get("inner") or u.get("array_filler") or []
        size = 1
        for d in lv.dims:
            size = mul(size, d)
        d = {}
        idx = 0
        inner_n = 1
        for x in lv.dims[1:]:
            inner_n *= x if T.ispy(x) else 1
        for x in u.get("inner", ()):
            x2 = self.unwrap(x)
            if x2["kind"] == "InitListExpr":
                base = idx * inner_n
                for j, y in enumerate(x2.get("inner", ())):
                    d[base + j] = self.conv(self.ev(y, st), lv.elem)
            elif x2["kind"] == "ImplicitValueInitExpr":
                pass
            else:
                d[idx] = self.conv(self.ev(x, st), lv.elem)
            idx += 1
        if "array_filler" in u:
            for x in u["array_filler"]:
                if x.get("kind") == "ImplicitValueInitExpr":
                    continue
                d[idx] = self.conv(self.ev(x, st), lv.elem)
                idx += 1
        if T.ispy(size):
            k = self.tkind(lv.elem)[0]
            zero = Fraction(0) if k == "real" else 0 if k == "int" else NULL
            if k in ("real", "int"):
                for j in range(size):
                    d.setdefault(j, zero)
        st.reg[lv.rid] = Dict(self.content(st, lv.rid), d)

    def conv(self, v, ty):
        """convert scalar value to declared type"""
        k = self.tkind(ty)[0]
        if isinstance(v, (Ptr, ObjV, Opaque)):
            return v
        if k == "real":
            if isinstance(v, bool):
                return Fraction(int(v))
            if isinstance(v, int):
                return Fraction(v)
            if isinstance(v, Fraction):
                return v
            return R(v)
        if k == "int":
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Fraction):
                return int(v)
            if isinstance(v, int):
                return v
            if z3.is_real(v):
                return T.toint(v)
            return I(v)
        if k == "bool":
            if T.ispy(v):
                return bool(v)
            return v if z3.is_bool(v) else cmp("!=", v, 0)
        return v

    # ------------------------------------------------------------- lvalues
    def load(self, st, lv):
        if isinstance(lv, LCell):
            return self.rdcell(st, lv.cid)
        if isinstance(lv, LTmp):
            return lv.v
        if isinstance(lv, LObj):
            return ObjV(lv.oid)
        if isinstance(lv, LArr):
            return P(lv.rid, lv.off)
        if isinstance(lv, LElem):
            return self.rdptr(st, lv.ptr)
        raise Unsupported("load")

    def rdptr(self, st, p, key2=None):
        out = None
        alts = p.alts
        for n, (c, rid, off) in enumerate(reversed(alts)):
            if rid is None or rid == "undef":
                self.oblige(st, lnot(c), "read through null or uninitialised pointer", "bound")
                if out is None:
                    out = T.fresh("badread")
                continue
            key = off if isinstance(off, tuple) else (off,)
            if c is True:
                v = self.rd(st, rid, key)
            else:
                s2 = st.clone()
                s2.assume(c)
                v = self.rd(s2, rid, key)
            out = v if out is None else vmerge(c, v, out)
        return out

    def assign(self, st, lv, v, guard=True):
        rn = getattr(self, "rnd", None)
        if rn is not None and rn[3](self) and isinstance(v, z3.ExprRef) and z3.is_real(v) and z3.is_app(v) and v.decl().name() != "RND":
            # stores into one array (and scalars computed from it) are rounded
            if isinstance(lv, LElem) and any(r == rn[0] for _, r, _ in lv.ptr.alts):
                v = rn[1](v)
            elif isinstance(lv, LCell) and v.num_args() > 0 and v.decl().kind() != z3.Z3_OP_UNINTERPRETED and any(z3.is_app(x) and x.decl().name().startswith(rn[2]) for x in T.walk(v)):
                v = rn[1](v)
        if isinstance(lv, LCell):
            if self.onstore is not None and guard is True:
                v = self.onstore(st, lv.cid, v)
            if self.onassign is not None:
                self.onassign(st, lv.cid, v, guard)
            st.mem[lv.cid] = v if guard is True else vmerge(guard, v, self.rdcell(st, lv.cid))
            return
        if isinstance(lv, LElem):
            for c, rid, off in lv.ptr.alts:
                key = off if isinstance(off, tuple) else (off,)
                self.wr(st, rid, key, v, land(c, guard))
            return
        if isinstance(lv, LObj):
            if isinstance(v, ObjV):
                self.copy_obj(st, lv.oid, v.oid, self.objs[lv.oid].cls)
                return
        if isinstance(lv, LTmp):
            lv.v = v
            return
        raise Unsupported("assign")

    def padd(self, p, k):
        if isinstance(p, Ptr):
            return Ptr(tuple((c, r, (o if r is None else add(o, k))) for c, r, o in p.alts))
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def addr(self, lv):
        if isinstance(lv, LElem):
            return lv.ptr
        if isinstance(lv, LCell):
            return P(("cell", lv.cid), 0)
        if isinstance(lv, LArr):
            return P(lv.rid, lv.off)
        if isinstance(lv, LObj):
            return P(("obj", lv.oid), 0)
        raise Unsupported("address of temporary")

    def lv(self, e, st):
        k = e["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
            return self.lv(e["inner"][-1], st)
        if k == "MaterializeTemporaryExpr" or k == "CXXBindTemporaryExpr":
            v = self.ev(e["inner"][0], st)
            if isinstance(v, ObjV):
                return LObj(v.oid)
            return LTmp(v)
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr"):
            ck = e.get("castKind")
            if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "LValueBitCast", "BaseToDerived", "ConstructorConversion"):
                return self.lv(e["inner"][0], st)
            v = self.ev(e, st)
            return LObj(v.oid) if isinstance(v, ObjV) else LTmp(v)
        if k == "DeclRefExpr":
            return self.lv_decl(e, st)
        if k == "MemberExpr":
            return self.lv_member(e, st)
        if k == "ArraySubscriptExpr":
            b, i = e["inner"]
            iv = self.ev(i, st)
            ub = b
            while ub["kind"] in ("ParenExpr",) or (ub["kind"] == "ImplicitCastExpr" and ub.get("castKind") == "ArrayToPointerDecay"):
                ub = ub["inner"][0]
            if ub is not b and "[" in qt(ub):
                arr = self.lv(ub, st)
                if isinstance(arr, LArr):
                    if len(arr.dims) > 1:
                        w = 1
                        for d in arr.dims[1:]:
                            w = mul(w, d)
                        d0 = arr.dims[0]
                        self.oblige(st, land(cmp(">=", iv, 0), cmp("<", iv, d0)), "array row index in bounds", "bound") if self.check_bounds else None
                        return LArr(arr.rid, add(arr.off, mul(iv, w)), arr.dims[1:], arr.elem)
                    if self.check_bounds and arr.dims and not (T.ispy(arr.off) and arr.off == 0):
                        self.oblige(st, land(cmp(">=", iv, 0), cmp("<", iv, arr.dims[0])), "array column index in bounds", "bound")
                    return LElem(P(arr.rid, add(arr.off, iv)))
            p = self.ev(b, st)
            if not isinstance(p, Ptr):
                raise Unsupported("subscript of non pointer")
            return self.deref(self.padd(p, iv), qt(e))
        if k == "UnaryOperator":
            op = e["opcode"]
            if op == "*":
                p = self.ev(e["inner"][0], st)
                return self.deref(p, qt(e))
            if op in ("++", "--") and not e.get("isPostfix"):
                self.ev(e, st)
                return self.lv(e["inner"][0], st)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if e["opcode"] == ",":
                self.ev(e["inner"][0], st)
                return self.lv(e["inner"][1], st)
            return self.ev_assign(e, st, want_lv=True)
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            v = self.call(e, st)
            if isinstance(v, (LCell, LElem, LObj, LArr, LTmp)):
                return v
            if isinstance(v, ObjV):
                return LObj(v.oid)
            return LTmp(v)
        if k == "CXXThisExpr":
            return LObj(self.frames[-1].this)
        if k == "ConditionalOperator":
            c = self.evb(e["inner"][0], st)
            if T.ispy(c):
                return self.lv(e["inner"][1 if c else 2], st)
            a = self.lv(e["inner"][1], st)
            b = self.lv(e["inner"][2], st)
            return LElem(vmerge(c, self.addr(a), self.addr(b)))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            v = self.ev(e, st)
            return LObj(v.oid) if isinstance(v, ObjV) else LTmp(v)
        if k in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "StringLiteral", "CXXDefaultArgExpr"):
            return LTmp(self.ev(e, st))
        raise Unsupported("lvalue " + k)

    def deref(self, p, ty):
        if len(p.alts) >= 1 and isinstance(p.alts[0][1], tuple) and p.alts[0][1][0] == "obj":
            if len(p.alts) == 1:
                return LObj(p.alts[0][1][1])
            raise Unsupported("dereference of guarded object pointer")
        if len(p.alts) == 1 and isinstance(p.alts[0][1], tuple) and p.alts[0][1][0] == "cell":
            return LCell(p.alts[0][1][1])
        return LElem(p, ty)

    def lv_decl(self, e, st):
        rd = e["referencedDecl"]
        i = rd["id"]
        for fr in reversed(self.frames[-1:]):
            if i in fr.env:
                return fr.env[i]
        if rd["kind"] in ("EnumConstantDecl", "NonTypeTemplateParmDecl", "FunctionDecl", "CXXMethodDecl"):
            return LTmp(self.ev(e, st))
        return self.global_lv(rd, st)

    def global_lv(self, rd, st):
        i = rd["id"]
        if i in self.globals:
            return self.globals[i]
        n = self.ast.byid.get(i)
        if n is None or rd["kind"] == "VarDecl" and not [c for c in n.get("inner", ()) if "kind" in c and c["kind"] not in ("TemplateArgument",)] and not n.get("parentDeclContextId"):
            n2 = self.ast.resolve_global(rd["name"], i) if hasattr(self.ast, "resolve_global") else None
            n = n2 or n
        if n is None:
            if rd["name"] in ("cout", "cerr", "clog", "endl"):
                lv = LTmp(Opaque(rd["name"]))
                self.globals[i] = lv
                return lv
            raise Unsupported("unknown global " + rd["name"])
        tmp = State()
        lv = self.new_var(tmp, qt(n), n["name"])
        inits = [c for c in n.get("inner", ()) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        if inits:
            u = self.unwrap(inits[0])
            if isinstance(lv, LArr) and u["kind"] == "InitListExpr" and len(u.get("inner", ())) > 8:
                vals = []
                for x in u["inner"]:
                    vals.append(self.conv(self.ev(x, tmp), lv.elem))
                for x in u.get("array_filler", ()):
                    if x.get("kind") != "ImplicitValueInitExpr":
                        vals.append(self.conv(self.ev(x, tmp), lv.elem))
                kind = self.tkind(lv.elem)[0]
                tmp.reg[lv.rid] = Table(n["name"], vals, kind)
                self.regions[lv.rid].size = len(vals)
            else:
                self.init_lv(tmp, lv, inits[0], qt(n))
        elif not (isinstance(lv, LArr)):
            # static member without visible initialiser: look at other declarations
            pass
        for k, v in tmp.mem.items():
            self.gcontent[("c", k)] = v
        for k, v in tmp.reg.items():
            self.gcontent[k] = v
        self.globals[i] = lv
        return lv

    def lv_member(self, e, st):
        base = e["inner"][0]
        rid = e.get("referencedMemberDecl")
        d = self.ast.byid.get(rid)
        if d is not None and d.get("kind") == "VarDecl":
            return self.global_lv(d, st)
        if e.get("isArrow"):
            p = self.ev(base, st)
            if isinstance(p, Ptr):
                if len(p.alts) != 1 or not isinstance(p.alts[0][1], tuple):
                    raise Unsupported("arrow on ambiguous pointer")
                oid = p.alts[0][1][1]
            elif isinstance(p, ObjV):
                oid = p.oid
            else:
                raise Unsupported("arrow")
        else:
            b = self.lv(base, st)
            if isinstance(b, LObj):
                oid = b.oid
            else:
                raise Unsupported("member of non object %s" % e.get("name"))
        o = self.objs[oid]
        lv = o.f.get(rid)
        if lv is None:
            lv = o.n.get(e.get("name"))
        if lv is None:
            raise Unsupported("no field %s" % e.get("name"))
        # reference member
        return self.deref_ref(lv)

    def deref_ref(self, lv):
        if isinstance(lv, LCell) and isinstance(self.cellinfo.get(lv.cid, (0, ""))[1], str) and self.cellinfo[lv.cid][1].strip().endswith("&"):
            raise Unsupported("reference member")
        return lv

    # ------------------------------------------------------------- rvalues
    def evb(self, e, st):
        v = self.ev(e, st)
        if isinstance(v, Ptr):
            out = False
            for c, r, o in v.alts:
                if r is not None:
                    out = lor(out, c)
            return out
        if isinstance(v, (Opaque, ObjV)):
            raise Unsupported("condition on opaque value")
        if T.ispy(v):
            return bool(v)
        return T.pynum(v if z3.is_bool(v) else cmp("!=", v, 0))

    def ev(self, e, st):
        m = getattr(self, "ev_" + e["kind"], None)
        if m is None:
            raise Unsupported("expression " + e["kind"])
        return m(e, st)

    def ev_IntegerLiteral(self, e, st):
        v = int(e["value"])
        return self.nmap.get(v, v)

    def ev_FloatingLiteral(self, e, st):
        # clang prints 17 digits of the double; the value meant is the shortest
        # decimal that rounds to it
        v = e["value"]
        if v.startswith(("inf", "nan")):
            return T.fresh("inf")
        if qt(e) == "double":
            return Fraction(repr(float(v)))
        return Fraction(v)

    def ev_CXXBoolLiteralExpr(self, e, st):
        return bool(e["value"])

    def ev_CharacterLiteral(self, e, st):
        return int(e["value"])

    def ev_StringLiteral(self, e, st):
        return Opaque(e.get("value"))

    def ev_ImplicitValueInitExpr(self, e, st):
        k = self.tkind(qt(e))[0]
        return {"real": Fraction(0), "int": 0, "bool": False}.get(k, NULL)

    ev_CXXScalarValueInitExpr = ev_ImplicitValueInitExpr

    def ev_ParenExpr(self, e, st):
        return self.ev(e["inner"][0], st)

    def ev_ConstantExpr(self, e, st):
        return self.ev(e["inner"][0], st)

    ev_ExprWithCleanups = ev_ParenExpr
    ev_CXXBindTemporaryExpr = ev_ParenExpr

    def ev_MaterializeTemporaryExpr(self, e, st):
        return self.ev(e["inner"][0], st)

    def ev_SubstNonTypeTemplateParmExpr(self, e, st):
        return self.ev(e["inner"][-1], st)

    def ev_CXXNullPtrLiteralExpr(self, e, st):
        return NULL

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_CXXThisExpr(self, e, st):
        return P(("obj", self.frames[-1].this), 0)

    def ev_DeclRefExpr(self, e, st):
        rd = e["referencedDecl"]
        if rd["kind"] == "EnumConstantDecl":
            return self.enumval(rd["id"])
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return Opaque("fn:" + rd["name"])
        return self.load(st, self.lv(e, st))

    def enumval(self, i):
        for n in self.ast.byid.values():
            if n.get("kind") == "EnumDecl":
                v = 0
                for c in n.get("inner", ()):
                    if c.get("kind") != "EnumConstantDecl":
                        continue
                    ini = [x for x in c.get("inner", ()) if "kind" in x]
                    if ini:
                        v = self.ev(ini[0], State())
                    if c["id"] == i:
                        return v
                    v = v + 1
        raise Unsupported("enum constant")

    def ev_MemberExpr(self, e, st):
        return self.load(st, self.lv(e, st))

    def ev_ArraySubscriptExpr(self, e, st):
        return self.load(st, self.lv(e, st))

    def ev_CXXDefaultArgExpr(self, e, st):
        raise Unsupported("default arg outside call")

    def ev_UnaryExprOrTypeTraitExpr(self, e, st):
        t = (e.get("argType") or {}).get("qualType")
        if t in ("double",):
            return 8
        if t in ("int", "float"):
            return 4
        if t == "long double":
            return 16
        raise Unsupported("sizeof")

    def ev_ImplicitCastExpr(self, e, st):
        ck = e.get("castKind")
        s = e["inner"][0]
        if ck == "LValueToRValue":
            if s["kind"] in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):
                return self.ev(s, st)
            return self.load(st, self.lv(s, st))
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BitCast", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "BaseToDerived", "BuiltinFnToFnPtr"):
            return self.ev(s, st)
        if ck == "ArrayToPointerDecay":
            lv = self.lv(s, st)
            if isinstance(lv, LTmp):
                return lv.v
            if isinstance(lv, LArr):
                return P(lv.rid, lv.off)
            return self.addr(lv)
        if ck == "NullToPointer":
            return NULL
        v = self.ev(s, st)
        if ck in ("IntegralToFloating",):
            return self.conv(v, "double")
        if ck in ("FloatingCast",):
            src, dst = strip_cv(qt(s)), strip_cv(qt(e))
            if src == "long double" and dst == "double" and getattr(self, "trunc_hook", None):
                v = self.trunc_hook(self, st, v)
            return v
        if ck == "FloatingToIntegral":
            return T.toint(v)
        if ck == "IntegralCast":
            return self.conv(v, "int")
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return self.conv(v, "bool")
        if ck == "PointerToBoolean":
            out = False
            for c, r, o in v.alts:
                if r is not None:
                    out = lor(out, c)
            return out
        if ck in ("ToVoid",):
            return None
        raise Unsupported("cast " + str(ck))

    ev_CStyleCastExpr = ev_ImplicitCastExpr
    ev_CXXStaticCastExpr = ev_ImplicitCastExpr
    ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr
    ev_CXXConstCastExpr = ev_ImplicitCastExpr
    ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr

    def ev_UnaryOperator(self, e, st):
        op = e["opcode"]
        s = e["inner"][0]
        if op == "&":
            return self.addr(self.lv(s, st))
        if op == "*":
            return self.load(st, self.lv(e, st))
        if op in ("++", "--"):
            lv = self.lv(s, st)
            old = self.load(st, lv)
            d = 1 if op == "++" else -1
            if isinstance(old, Ptr):
                new = self.padd(old, d)
            else:
                new = add(old, Fraction(d) if T.isreal(old) else d)
            self.assign(st, lv, new)
            return old if e.get("isPostfix") else new
        v = self.ev(s, st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return lnot(self.conv(v, "bool")) if not isinstance(v, Ptr) else lnot(self.evb(s, st))
        if op == "__extension__":
            return v
        raise Unsupported("unary " + op)

    def ev_BinaryOperator(self, e, st):
        op = e["opcode"]
        a, b = e["inner"]
        if op == "=":
            return self.ev_assign(e, st)
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            va = self.evb(a, st)
            if T.ispy(va):
                if op == "&&":
                    return self.evb(b, st) if va else False
                return True if va else self.evb(b, st)
            s2 = st.clone()
            s2.assume(va if op == "&&" else lnot(va))
            s3 = st.clone()
            s3.assume(lnot(va) if op == "&&" else va)
            mem0, reg0 = dict(s2.mem), dict(s2.reg)
            vb = self.evb(b, s2)
            if s2.mem != mem0 or s2.reg != reg0 or s2.events != st.events or s2.dead:
                if s2.dead:
                    st.take(s3)
                    return op == "||"
                changed = any(s2.mem.get(k) is not v for k, v in mem0.items()) or any(s2.reg[k] is not v for k, v in reg0.items()) or len(s2.events) != len(st.events)
                if changed:
                    st.take(merge(s2, s3))
            return land(va, vb) if op == "&&" else lor(va, vb)
        va = self.ev(a, st)
        vb = self.ev(b, st)
        return self.binop(op, va, vb, e, st)

    def binop(self, op, va, vb, e, st):
        if isinstance(va, Ptr) or isinstance(vb, Ptr):
            if op == "+":
                return self.padd(va, vb) if isinstance(va, Ptr) else self.padd(vb, va)
            if op == "-":
                if isinstance(vb, Ptr):
                    if len(va.alts) == 1 and len(vb.alts) == 1 and va.alts[0][1] == vb.alts[0][1]:
                        return sub(va.alts[0][2], vb.alts[0][2])
                    raise Unsupported("pointer difference")
                return self.padd(va, neg(vb))
            if op in ("==", "!="):
                r = False
                for c1, r1, o1 in va.alts:
                    for c2, r2, o2 in vb.alts:
                        if r1 == r2:
                            r = lor(r, land(c1, c2, True if r1 is None else cmp("==", o1, o2)))
                return r if op == "==" else lnot(r)
            raise Unsupported("pointer op " + op)
        if isinstance(va, (Opaque, ObjV)) or isinstance(vb, (Opaque, ObjV)):
            raise Unsupported("operator on opaque")
        real = self.tkind(qt(e))[0] == "real" or T.isreal(va) or T.isreal(vb)
        if op == "+":
            return add(va, vb)
        if op == "-":
            return sub(va, vb)
        if op == "*":
            return mul(va, vb)
        if op == "/":
            if real:
                if not T.ispy(vb):
                    self.divs.append((st.pc, vb, self.where()))
                elif vb == 0:
                    self.divs.append((st.pc, R(0), self.where()))
                return T.rdiv(va, vb)
            self.oblige(st, cmp("!=", vb, 0), "integer division by zero", "bound")
            return self.intdiv(T.cdiv(va, vb), va, vb)
        if op == "%":
            self.oblige(st, cmp("!=", vb, 0), "integer modulo by zero", "bound")
            return T.cmod(va, vb)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if self.wild and not (T.ispy(va) and T.ispy(vb)) and (T.isreal(va) or T.isreal(vb)):
                return T.fresh("cmp", "bool")
            return cmp(op, va, vb)
        if op == "<<" and T.ispy(va) and T.ispy(vb):
            return va << vb
        if op == ">>" and T.ispy(va) and T.ispy(vb):
            return va >> vb
        if op == "&" and T.ispy(va) and T.ispy(vb):
            return va & vb
        if op in ("&", "|") and strip_cv(qt(e)) == "bool":
            return land(va, vb) if op == "&" else lor(va, vb)
        raise Unsupported("binary " + op)

    def intdiv(self, q, a, b):
        return q

    def ev_CompoundAssignOperator(self, e, st):
        return self.load(st, self.ev_assign(e, st, want_lv=True))

    def ev_assign(self, e, st, want_lv=False):
        op = e["opcode"]
        l, r = e["inner"]
        if op == "=":
            v = self.ev(r, st)
            lv = self.lv(l, st)
            if isinstance(v, ObjV) and isinstance(lv, LObj):
                self.copy_obj(st, lv.oid, v.oid, self.objs[lv.oid].cls)
                return lv if want_lv else v
            v = self.conv(v, qt(l))
            self.assign(st, lv, v)
            return lv if want_lv else v
        v = self.ev(r, st)
        lv = self.lv(l, st)
        old = self.load(st, lv)
        bop = op[:-1]
        rt = e.get("computeResultType", {}).get("qualType") or qt(l)
        if isinstance(old, Ptr):
            new = self.padd(old, v if bop == "+" else neg(v))
        else:
            if self.tkind(rt)[0] == "real":
                old2, v = self.conv(old, "double"), self.conv(v, "double")
            else:
                old2 = old
            new = self.binop(bop, old2, v, {"type": {"qualType": rt}}, st)
            if strip_cv(rt) == "long double" and strip_cv(qt(l)) == "double" and getattr(self, "trunc_hook", None):
                pass
            new = self.conv(new, qt(l))
        self.assign(st, lv, new)
        return lv if want_lv else new

    def ev_ConditionalOperator(self, e, st):
        c = self.evb(e["inner"][0], st)
        if not T.ispy(c):
            d = self.decider(st)(c)
            if d is not None:
                c = d
        if T.ispy(c):
            return self.ev(e["inner"][1 if c else 2], st)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c)
        s2.assume(lnot(c))
        a = self.ev(e["inner"][1], s1)
        b = self.ev(e["inner"][2], s2)
        self.join(st, s1, s2)
        return vmerge(c, a, b)

    def join(self, st, s1, s2):
        if s1.dead or s2.dead or len(s1.events) != len(st.events) or len(s2.events) != len(st.events) \
           or any(s1.mem.get(k) is not v for k, v in st.mem.items()) or any(s2.mem.get(k) is not v for k, v in st.mem.items()) \
           or any(s1.reg.get(k) is not v for k, v in st.reg.items()) or any(s2.reg.get(k) is not v for k, v in st.reg.items()):
            st.take(merge(s1, s2))

    def ev_CXXNewExpr(self, e, st):
        t = qt(e)
        el = self.tkind(t)[1]
        ek = self.tkind(el)[0]
        if e.get("isArray"):
            n = self.ev(e["inner"][0], st)
            if ek not in ("real", "int"):
                raise Unsupported("new[] of " + el)
            # keep allocation size obligations
            self.oblige(st, cmp(">=", n, 0), "allocation size non negative", "bound")
            rid = self.new_region(st, "heap%d" % (len(self.regions)), n, ek, origin="new[]")
            return P(rid, 0)
        raise Unsupported("new " + t)

    def ev_CXXDeleteExpr(self, e, st):
        p = self.ev(e["inner"][0], st)
        self.free(st, p, "delete[]" if e.get("isArray") else "delete")
        return None

    def free(self, st, p, how):
        for c, r, o in p.alts:
            if r is None:
                continue
            if r == "undef" or isinstance(r, tuple):
                self.oblige(st, lnot(c), "free of invalid pointer", "free")
                continue
            if r in st.freed:
                self.oblige(st, lnot(land(c, st.freed[r])), "double free of " + self.regions[r].name, "free")
            self.oblige(st, lor(lnot(c), cmp("==", o, 0)), "free of interior pointer", "free")
            want = {"new[]": "delete[]", "new": "delete", "mm": "mm"}.get(self.regions[r].origin)
            if want != how:
                self.oblige(st, lnot(c), "allocation and release of %s do not match (%s/%s)" % (self.regions[r].name, self.regions[r].origin, how), "free")
            st.freed = dict(st.freed)
            st.freed[r] = lor(st.freed.get(r, False), c)

    def ev_CXXThrowExpr(self, e, st):
        what = qt(e["inner"][0]) if e.get("inner") else ""
        self.throws.append(dict(pc=st.pc, what=what, fn=self.where(), mem=st.mem, reg=st.reg, node=e, events=st.events))
        st.dead = True
        return None

    def ev_InitListExpr(self, e, st):
        inn = e.get("inner", [])
        if len(inn) == 1 and self.tkind(qt(e))[0] in ("real", "int", "bool", "ptr"):
            return self.ev(inn[0], st)
        raise Unsupported("init list")

    def ev_CXXConstructExpr(self, e, st):
        cls = self.class_by_type(e)
        t = qt(e)
        if cls is None:
            if "pair<" in t:
                inn = e.get("inner", [])
                if len(inn) == 1:
                    v = self.ev(inn[0], st)
                    if isinstance(v, ObjV):
                        return v
                    lv = self.lv(inn[0], st)
                    return ObjV(lv.oid)
                if len(inn) == 2:
                    return self.mkpair(st, self.ev(inn[0], st), self.ev(inn[1], st))
            for x in e.get("inner", ()):
                if self.tkind(qt(x))[0] not in ("string",):
                    try:
                        self.ev(x, st)
                    except Unsupported:
                        pass
            return Opaque(t)
        if cls.get("name") == "OdesException":
            for x in e.get("inner", ()):
                self.ev(x, st)
            return Opaque("OdesException")
        if e.get("elidable") and e.get("inner"):
            return self.ev(e["inner"][0], st)
        oid = self.new_obj(st, cls, "tmp_" + cls["name"])
        self.construct(st, oid, cls, e, e.get("inner", ()), e["ctorType"]["qualType"])
        return ObjV(oid)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def mkpair(self, st, a, b):
        oid = self.nid()
        o = Obj(oid, {"name": "pair", "inner": []}, "pair")
        self.objs[oid] = o
        for nme, v in (("first", a), ("second", b)):
            cid = self.nid()
            self.cellinfo[cid] = (nme, "pairfield")
            o.n[nme] = LCell(cid)
            st.mem[cid] = v
        return ObjV(oid)

    # ------------------------------------------------------------- calls
    def ev_CallExpr(self, e, st):
        v = self.call(e, st)
        if isinstance(v, (LCell, LElem, LArr, LTmp)):
            if e.get("valueCategory") == "lvalue" and isinstance(v, LObj):
                return ObjV(v.oid)
            return self.load(st, v)
        if isinstance(v, LObj):
            return ObjV(v.oid)
        return v

    ev_CXXMemberCallExpr = ev_CallExpr
    ev_CXXOperatorCallExpr = ev_CallExpr

    def callee(self, c):
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        return c

    def call(self, e, st):
        k = e["kind"]
        c = self.callee(e["inner"][0])
        args = e["inner"][1:]
        this = None
        if c["kind"] == "MemberExpr":
            name = c["name"]
            fid = c.get("referencedMemberDecl")
            b = c["inner"][0]
            if c.get("isArrow"):
                p = self.ev(b, st)
                if isinstance(p, Ptr) and len(p.alts) == 1 and isinstance(p.alts[0][1], tuple):
                    this = p.alts[0][1][1]
                else:
                    raise Unsupported("method call through ambiguous pointer")
            else:
                bl = self.lv(b, st)
                if isinstance(bl, LObj):
                    this = bl.oid
                elif isinstance(bl, (LTmp, LCell)):
                    this = None
                elif isinstance(bl, LArr) and name in ("begin", "end", "size", "cbegin", "cend", "data"):
                    m = bl.dims[0]
                    if name == "size":
                        return m
                    return P(bl.rid, add(bl.off, m) if name in ("end", "cend") else bl.off)
            return self.invoke(e, st, fid, name, this, args, qt(c))
        if c["kind"] == "DeclRefExpr":
            rd = c["referencedDecl"]
            fid, name = rd["id"], rd["name"]
            if rd["kind"] == "CXXMethodDecl" and k == "CXXOperatorCallExpr":
                bl = self.lv(args[0], st)
                if isinstance(bl, LObj):
                    this = bl.oid
                return self.invoke(e, st, fid, name, this, args[1:], qt(c))
            return self.invoke(e, st, fid, name, None, args, qt(c))
        if c["kind"] == "CXXPseudoDestructorExpr":
            return None
        raise Unsupported("call through " + c["kind"])

    def invoke(self, e, st, fid, name, this, args, ftype):
        if st.dead:
            return None
        fn = self.ast.fdef(fid)
        decl = self.ast.byid.get(fid)
        cls = self.ast.class_of(fid) if decl is not None else None
        cname = cls.get("name") if cls is not None and cls.get("kind") != "NamespaceDecl" else None
        for key in ((cname, name), (None, name)):
            h = self.contracts.get(key)
            if h is not None and (key[0] is not None or cname is None):
                r = h(self, st, this, args, e)
                if r is not NotImplemented:
                    return r
        if fn is None:
            h = self.ext.get((cname, name)) or (self.ext.get((None, name)) if cname is None else None)
            if h is not None:
                return h(self, st, this, args, e)
            if decl is not None and cname is not None and name == "operator=" and this is not None:
                src = self.lv(args[0], st)
                self.copy_obj(st, this, src.oid, self.objs[this].cls)
                return LObj(this)
            if name in ("operator=", "operator+=") and "string" in ftype:
                return None
            r = self.builtin(e, st, name, args, cname, this)
            if r is not NotImplemented:
                return r
            g = self.ast.resolve_fn(name, ftype) if hasattr(self.ast, "resolve_fn") else None
            if g is not None:
                fn = g
            else:
                raise Unsupported("call of unknown function %s" % name)
        argv = self.bind_args(st, fn, args)
        return self.run_fn(st, fn, this, argv)

    def bind_args(self, st, fn, args):
        ps = A.params(fn)
        out = []
        for i, p in enumerate(ps):
            if i < len(args) and args[i].get("kind") != "CXXDefaultArgExpr":
                a = args[i]
            else:
                ini = [c for c in p.get("inner", ()) if "kind" in c]
                if not ini:
                    pp = None
                    out.append(Opaque("default"))
                    continue
                a = ini[0]
            out.append(self.eval_arg(st, p, a))
        return out

    def eval_arg(self, st, p, a):
        t = qt(p)
        k = self.tkind(t)
        if k[0] == "ref":
            lv = self.lv(a, st)
            return lv
        if k[0] == "string":
            return Opaque("str")
        v = self.ev(a, st)
        if isinstance(v, ObjV):
            cls = self.class_by_type(t)
            u = self.unwrap(a)
            if cls is not None:
                # by value: copy unless a prvalue was built
                if a["kind"] in ("CXXConstructExpr",) or u["kind"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    return v
                oid = self.new_obj(st, cls, "byval")
                self.copy_obj(st, oid, v.oid, cls)
                return ObjV(oid)
            return v
        return self.conv(v, t)

    def bind_param(self, st, fr, p, a):
        t = qt(p)
        if isinstance(a, (LCell, LElem, LObj, LArr)):
            fr.env[p["id"]] = a
            return
        if isinstance(a, ObjV):
            fr.env[p["id"]] = LObj(a.oid)
            return
        if isinstance(a, LTmp):
            a = a.v
            if isinstance(a, ObjV):
                fr.env[p["id"]] = LObj(a.oid)
                return
        cid = self.nid()
        self.cellinfo[cid] = (p.get("name", "arg"), re.sub(r"\[\d*\]$", "*", t.replace("&", "").strip()))
        st.mem[cid] = a
        fr.env[p["id"]] = LCell(cid)

    def run_fn(self, st, fn, this, argv):
        if len(self.frames) > 60:
            raise Unsupported("call depth")
        cls = self.ast.class_of(fn["id"])
        nm = ((cls or {}).get("name", "") + "::" if cls is not None and cls.get("kind") != "NamespaceDecl" else "") + fn.get("name", "?")
        self.inlined[nm] = self.inlined.get(nm, 0) + 1
        fr = Frame(fn, this)
        self.frames.append(fr)
        try:
            for p, a in zip(A.params(fn), argv):
                self.bind_param(st, fr, p, a)
            if st.dead:
                return None
            body = self.ast.body(fn)
            self.exec(body, st)
            return self.finish_frame(st, fr)
        finally:
            self.frames.pop()

    def finish_frame(self, st, fr):
        if not fr.returns:
            return None
        sts = []
        if not st.dead:
            fr.returns.append((st.clone(), None))
        live = [(s, v) for s, v in fr.returns if not s.dead]
        if not live:
            st.dead = True
            return None
        # stash return value in a pseudo cell, merge states
        rc = ("ret", self.nid())
        lvs = [v for s, v in live if isinstance(v, (LCell, LElem, LObj, LArr))]
        if lvs:
            if len(live) == 1:
                st.take(live[0][0])
                return live[0][1]
            ps = []
            for s, v in live:
                s.mem[rc] = self.addr(v)
            m = merge_all([s for s, v in live])
            p = m.mem.pop(rc)
            st.take(m)
            return self.deref(p, "")
        objs = any(isinstance(v, ObjV) for s, v in live)
        if objs and len(live) > 1:
            # object results: merge field-wise through a fresh object (pairs and the like)
            o0 = self.objs[live[0][1].oid]
            oid = self.nid()
            no = Obj(oid, o0.cls, "ret")
            self.objs[oid] = no
            for nme, l in o0.n.items():
                cid = self.nid()
                self.cellinfo[cid] = self.cellinfo[l.cid]
                no.n[nme] = LCell(cid)
                for fid, l2 in o0.f.items():
                    if l2 is l:
                        no.f[fid] = no.n[nme]
                for s, v in live:
                    s.mem[cid] = self.load(s, self.objs[v.oid].n[nme])
            m = merge_all([s for s, v in live])
            st.take(m)
            return ObjV(oid)
        for s, v in live:
            s.mem[rc] = v if v is not None else Opaque("void")
        m = merge_all([s for s, v in live])
        v = m.mem.pop(rc, None)
        st.take(m)
        return None if isinstance(v, Opaque) and v.what == "void" else v

    def builtin(self, e, st, name, args, cname, this):
        if name in ("operator<<", "to_string", "precision", "setprecision", "setw", "flush", "width", "setf"):
            for a in args:
                try:
                    if name == "operator<<":
                        s2 = st
                        self.ev(a, s2)
                except Unsupported:
                    pass
            return Opaque("stream")
        if name in ("endl", "scientific"):
            return Opaque("stream")
        if name == "__builtin_assume_aligned" or name == "__builtin_assume":
            v = self.ev(args[0], st)
            if name == "__builtin_assume_aligned" and getattr(self, "align_hook", None):
                self.align_hook(self, st, v, self.ev(args[1], st))
            return v
        vals = None

        def V(i):
            v = self.ev(args[i], st)
            if isinstance(v, (Ptr, Opaque, ObjV)):
                raise Unsupported("builtin %s on %r" % (name, v))
            return v
        if name in ("sqrt", "sqrtl", "sqrtf"):
            v = V(0)
            if not T.ispy(v):
                self.divs.append((st.pc, ("sqrt", R(v)), self.where()))
            return T.sqrt(v)
        if name in ("fabs", "abs", "fabsl"):
            return T.absv(V(0))
        if name == "pow":
            return T.power(V(0), V(1))
        if name in ("max", "min", "fmax", "fmin"):
            la, lb = self.lv(args[0], st), self.lv(args[1], st)
            a, b = self.load(st, la), self.load(st, lb)
            if self.wild and not (T.ispy(a) and T.ispy(b)) and (T.isreal(a) or T.isreal(b)):
                return T.ite(T.fresh("cmp", "bool"), a, b)
            c = cmp("<", a, b)
            return T.ite(c, b, a) if name.endswith("max") else T.ite(cmp("<", b, a), b, a)
        if name in ("copy", "copy_n") and len(args) == 3:
            a, b, c = (self.ev(x, st) for x in args)
            if name == "copy":
                if not (isinstance(a, Ptr) and isinstance(b, Ptr) and len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]):
                    raise Unsupported("std::copy range")
                cnt, dst = sub(b.alts[0][2], a.alts[0][2]), c
            else:
                cnt, dst = b, c
            return self.copy_range(st, a, cnt, dst)
        if name == "make_pair":
            return self.mkpair(st, V(0), V(1))
        if name in ("swap", "exchange") and len(args) == 2:
            la, lb = self.lv(args[0], st), self.lv(args[1], st)
            a, b = self.load(st, la), self.load(st, lb)
            self.assign(st, la, b)
            self.assign(st, lb, a)
            return a
        if name in ("_mm_malloc",):
            n = self.ev(args[0], st)
            n8 = T.pynum(z3.simplify(I(n) / 8)) if not T.ispy(n) else n // 8
            rid = self.new_region(st, "heap%d" % len(self.regions), n8, "real", origin="mm")
            return P(rid, 0)
        if name in ("_mm_free",):
            self.free(st, self.ev(args[0], st), "mm")
            return None
        if name in ("exp", "log", "cos", "sin", "tan", "exp2", "floor", "ceil"):
            f = z3.Function(name, z3.RealSort(), z3.RealSort())
            return f(R(V(0)))
        if name == "clear" and this is None:
            return None
        return NotImplemented

    def copy_range(self, st, src, cnt, dst):
        if not (isinstance(src, Ptr) and isinstance(dst, Ptr) and len(src.alts) == 1 and len(dst.alts) == 1):
            raise Unsupported("copy between ambiguous arrays")
        (_, rs, os_), (_, rd, od) = src.alts[0], dst.alts[0]
        if not (T.ispy(cnt) and cnt <= 4096):
            raise Unsupported("copy of a symbolic number of elements")
        if rs == rd:
            raise Unsupported("copy inside one array")
        vals = []
        for i in range(cnt):
            self.bound(st, rs, (add(os_, i),), "copy reads")
            self.bound(st, rd, (add(od, i),), "copy writes")
            vals.append(self.content(st, rs).read((add(os_, i),), self.decider(st)))
        if self.regions[rs].kind != self.regions[rd].kind:
            raise Unsupported("copy between kinds")
        for i, v in enumerate(vals):
            self.assign(st, LElem(P(rd, add(od, i)), "double"), v)
        return P(rd, add(od, cnt))

    # ------------------------------------------------------------- statements
    def exec(self, s, st):
        if st.dead:
            return
        k = s.get("kind")
        if k is None:
            return
        m = getattr(self, "x_" + k, None)
        if m is not None:
            m(s, st)
            return
        self.ev(s, st)

    def x_CompoundStmt(self, s, st):
        for c in s.get("inner", ()):
            if st.dead:
                return
            self.exec(c, st)

    def x_NullStmt(self, s, st):
        pass

    def x_AttributedStmt(self, s, st):
        for c in s.get("inner", ()):
            if not c.get("kind", "").endswith("Attr"):
                self.exec(c, st)

    def x_DeclStmt(self, s, st):
        for d in s.get("inner", ()):
            if d.get("kind") == "VarDecl":
                self.x_VarDecl(d, st)
            elif d.get("kind") in ("UsingDirectiveDecl", "StaticAssertDecl", "TypedefDecl", "TypeAliasDecl", "EmptyDecl", "UsingDecl"):
                pass
            else:
                raise Unsupported("declaration " + d.get("kind"))

    def x_VarDecl(self, d, st):
        t = qt(d)
        k = self.tkind(t)
        inits = [c for c in d.get("inner", ()) if c.get("kind") and not c["kind"].endswith("Attr") and not c["kind"].endswith("Decl")]
        fr = self.frames[-1]
        if k[0] == "ref":
            lv = self.lv(inits[0], st)
            if isinstance(lv, LTmp):
                if isinstance(lv.v, ObjV):
                    lv = LObj(lv.v.oid)
                else:
                    cid = self.nid()
                    self.cellinfo[cid] = (d["name"], k[1])
                    st.mem[cid] = lv.v
                    lv = LCell(cid)
            fr.env[d["id"]] = lv
            return
        if d.get("storageClass") == "static":
            fr.env[d["id"]] = self.global_lv({"id": d["id"], "name": d["name"], "kind": "VarDecl"}, st) if d["id"] in self.ast.byid else None
            return
        if k[0] == "class" and "initializer_list" in t:
            # std::initializer_list: model as an array region
            fr.env[d["id"]] = self.init_list_var(st, d, inits[0])
            return
        lv = self.new_var(st, t, d.get("name", "v"))
        fr.env[d["id"]] = lv
        if inits:
            self.init_lv(st, lv, inits[0], t)
        elif isinstance(lv, LCell):
            st.mem[lv.cid] = self.undef(d.get("name", "v"), "int" if self.cellinfo[lv.cid][1] == "int" else t)

    def init_list_var(self, st, d, e):
        u = self.unwrap(e)
        while u["kind"] in ("CXXStdInitializerListExpr", "MaterializeTemporaryExpr", "ExprWithCleanups", "ImplicitCastExpr", "CXXConstructExpr"):
            u = u["inner"][0]
        vals = {}
        for i, x in enumerate(u.get("inner", ())):
            vals[i] = self.ev(x, st)
        rid = self.new_region(st, d["name"], len(vals), "real", origin="array", content=Dict(None, vals))
        return LArr(rid, 0, [len(vals)], "double")

    def x_ReturnStmt(self, s, st):
        inn = s.get("inner", ())
        v = None
        fr = self.frames[-1]
        if inn:
            rt = fr.fn["type"]["qualType"].split("(")[0].strip()
            if rt.endswith("&"):
                v = self.lv(inn[0], st)
            else:
                v = self.ev(inn[0], st)
                if not isinstance(v, (Ptr, ObjV, Opaque)) and v is not None:
                    v = self.conv(v, rt)
        if not st.dead:
            fr.returns.append((st.clone(), v))
        st.dead = True

    def x_BreakStmt(self, s, st):
        self.loops[-1].breaks.append(st.clone())
        st.dead = True

    def x_ContinueStmt(self, s, st):
        for lc in reversed(self.loops):
            if not getattr(lc, "switch", False):
                lc.continues.append(st.clone())
                break
        st.dead = True

    def x_IfStmt(self, s, st):
        inn = s["inner"]
        i = 0
        if s.get("hasInit"):
            self.exec(inn[0], st)
            i += 1
        if s.get("hasVar"):
            self.exec(inn[i], st)
            i += 1
        c = self.evb(inn[i], st)
        if st.dead:
            return
        th = inn[i + 1]
        el = inn[i + 2] if len(inn) > i + 2 else None
        if not T.ispy(c):
            d = self.decider(st)(c)
            if d is not None:
                c = d
        if T.ispy(c):
            if c:
                self.exec(th, st)
            elif el is not None:
                self.exec(el, st)
            return
        s1, s2 = st.clone(), st.clone()
        s1.assume(c)
        s2.assume(lnot(c))
        self.exec(th, s1)
        if el is not None:
            self.exec(el, s2)
        if self.paths is not None and not self.insummary and not s1.dead and not s2.dead and self._intmerge(c, s1, s2):
            k = (s.get("id"), self.visits.get(s.get("id"), 0))
            self.visits[s.get("id")] = k[1] + 1
            if k not in self.paths:
                self.paths[k] = True
            if k not in self.pathuse:
                self.pathuse.append(k)
            st.take(s1 if self.paths[k] else s2)
            return
        st.take(merge_all([s1, s2]))

    def _intmerge(self, c, s1, s2):
        """an integer or pointer would become a case distinction on a real condition"""
        if self._is_intonly(B(c)):
            return False
        for k, v in s1.mem.items():
            w = s2.mem.get(k, v)
            if v is w or veq(v, w):
                continue
            if isinstance(v, Ptr) or (not isinstance(v, bool) and isinstance(v, int)) or (isinstance(v, z3.ExprRef) and z3.is_int(v)):
                return True
        return False

    def x_SwitchStmt(self, s, st):
        v = self.ev(s["inner"][0], st)
        body = s["inner"][-1]
        items = []
        for c in body.get("inner", ()):
            labs = []
            while c.get("kind") in ("CaseStmt", "DefaultStmt"):
                if c["kind"] == "CaseStmt":
                    labs.append(self.ev(c["inner"][0], st))
                else:
                    labs.append("default")
                c = c["inner"][-1]
            items.append((labs, c))
        alllabs = [l for ls, _ in items for l in ls if not isinstance(l, str)]
        lc = LoopCtx()
        lc.switch = True
        self.loops.append(lc)
        try:
            cur = st.clone()
            cur.dead = True
            for labs, stm in items:
                for l in labs:
                    c = cmp("==", v, l) if not isinstance(l, str) else lnot(lor(*[cmp("==", v, x) for x in alllabs]))
                    if c is False:
                        continue
                    e = st.clone()
                    e.assume(c)
                    cur = merge_all([cur, e]) if not cur.dead else e
                if not cur.dead:
                    self.exec(stm, cur)
            nd = lnot(lor(*[cmp("==", v, x) for x in alllabs])) if not any("default" in ls for ls, _ in items) else False
            outs = list(lc.breaks)
            if nd is not False:
                e = st.clone()
                e.assume(nd)
                outs.append(e)
            outs.append(cur)
            st.take(merge_all(outs))
        finally:
            self.loops.pop()

    def x_ForStmt(self, s, st):
        init, cv, cond, inc, body = s["inner"]
        if init.get("kind"):
            self.exec(init, st)
        self.loop(s, st, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, False)

    def x_WhileStmt(self, s, st):
        inn = s["inner"]
        self.loop(s, st, inn[0], None, inn[-1], False)

    def x_DoStmt(self, s, st):
        body, cond = s["inner"]
        self.loop(s, st, cond, None, body, True)

    def x_CXXForRangeStmt(self, s, st):
        raise Unsupported("range for")

    def x_CXXTryStmt(self, s, st):
        raise Unsupported("try")

    def _omp(self, s, st):
        # find the captured loop
        def find(n):
            if n.get("kind") == "ForStmt":
                return n
            for c in n.get("inner", ()):
                r = find(c)
                if r is not None:
                    return r
        f = None
        for c in s.get("inner", ()):
            if c.get("kind") == "CapturedStmt":
                f = find(c)
        if f is None:
            raise Unsupported("omp region without loop")
        old = self.omp
        self.omp = s
        # privatised variables: undefined inside (firstprivate: the outer value),
        # the outer variable keeps its value (lastprivate: value of the last iteration)
        from .loops import clauses, NoSummary
        keep = []
        try:
            cl = clauses(s)
        except NoSummary as x:
            raise Unsupported(str(x))
        ids = {}

        def refs(n):
            if n.get("kind") == "DeclRefExpr":
                ids[n["referencedDecl"].get("name")] = n["referencedDecl"]["id"]
            for c in n.get("inner", ()):
                refs(c)
        for c in s.get("inner", ()):
            if "kind" not in c:
                refs(c)
        for k in ("private", "firstprivate", "lastprivate"):
            for nm in cl.get(k, []):
                lv = self.frames[-1].env.get(ids.get(nm))
                if not isinstance(lv, LCell):
                    raise Unsupported("privatised variable " + nm)
                if k != "lastprivate":
                    keep.append((lv.cid, st.mem.get(lv.cid)))
                if k != "firstprivate" and lv.cid in st.mem:
                    kk = self.tkind(self.cellinfo[lv.cid][1])[0]
                    st.mem[lv.cid] = T.fresh("priv_" + nm, kk if kk in ("real", "int", "bool") else "real")
        try:
            self.exec(f, st)
        finally:
            self.omp = old
        for cid, v in keep:
            if v is not None:
                st.mem[cid] = v

    x_OMPParallelForDirective = _omp
    x_OMPParallelForSimdDirective = _omp
    x_OMPForDirective = _omp

    def x_OMPSimdDirective(self, s, st):
        self._omp(s, st)

    def loop(self, s, st, cond, inc, body, post):
        from .loops import run_loop
        omp, self.omp = self.omp, None
        run_loop(self, s, st, cond, inc, body, post, omp)
