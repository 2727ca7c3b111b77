"""Rational-function normal form.

A term is turned into a polynomial (dict monomial -> Fraction) over interned
atoms.  Equality of normal forms implies equality of the terms for all values
of the symbols for which every divisor occurring in them is nonzero (the only
side condition, listed among the assumptions of every check).

Atoms: symbols, applications f(args), inv(p), sqrt(p), pow(p,q), indicator of a
comparison ind(p<0) / ind(p==0) / boolean symbol, finite sums, int div/mod."""
import z3
from fractions import Fraction
from . import terms as T

ZERO = {}
ONE = {(): Fraction(1)}


class TooBig(Exception):
    pass


LIMIT = 60000


class Atoms:
    def __init__(self):
        self.tab = {}
        self.lst = []
        self.bvs = []         # frozenset of bound variable levels inside

    def get(self, key, bvs=frozenset()):
        i = self.tab.get(key)
        if i is None:
            i = len(self.lst)
            self.tab[key] = i
            self.lst.append(key)
            self.bvs.append(bvs)
        return i


AT = Atoms()


def pkey(p):
    return tuple(sorted(p.items()))


_pk = {}


def intern(p):
    """hashable id of a polynomial"""
    k = pkey(p)
    r = _pk.get(k)
    if r is None:
        r = len(_pk)
        _pk[k] = r
        _pl.append(p)
    return r


_pl = []


def padd(a, b, c=1):
    if not b:
        return a
    r = dict(a)
    for m, v in b.items():
        w = r.get(m)
        if w is None:
            r[m] = v * c
        else:
            w = w + v * c
            if w == 0:
                del r[m]
            else:
                r[m] = w
    return r


def pscale(a, c):
    if c == 0:
        return {}
    return {m: v * c for m, v in a.items()}


def atom(key, bvs=frozenset()):
    return {((AT.get(key, bvs), 1),): Fraction(1)}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def is_ind(a):
    return AT.lst[a][0] in ("ind", "indb")


def reduce_mono(m):
    """apply ind^k=ind, sqrt^2=arg; returns (monomial, polynomial factor or None)"""
    extra = None
    out = []
    invs = None
    for a, e in m:
        k = AT.lst[a]
        if k[0] in ("ind", "indb"):
            e = 1
        elif k[0] == "sqrt" and e >= 2:
            p = ppow(_pl[k[1]], e // 2)
            extra = p if extra is None else pmul(extra, p)
            e = e % 2
        if e:
            out.append((a, e))
    return tuple(out), extra


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    r = {}
    extras = []
    for m1, v1 in a.items():
        for m2, v2 in b.items():
            m = mmul(m1, m2)
            c = v1 * v2
            need = False
            for x, e in m:
                if e > 1 and AT.lst[x][0] in ("ind", "indb", "sqrt"):
                    need = True
                    break
            if need:
                m, ex = reduce_mono(m)
                if ex is not None:
                    extras.append(pscale(pmul({m: Fraction(1)}, ex), c))
                    continue
            w = r.get(m)
            if w is None:
                r[m] = c
            else:
                w += c
                if w == 0:
                    del r[m]
                else:
                    r[m] = w
    for ex in extras:
        r = padd(r, ex)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def pconst(p):
    """constant value or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def pbvs(p):
    s = frozenset()
    for m in p:
        for a, e in m:
            s |= AT.bvs[a]
    return s


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


class Norm:
    """normaliser with a set of known literals (dict cond-key -> bool), int decider"""

    def __init__(self, known=None, intdec=None, extra=()):
        self.extra = list(extra)
        self.memo = {}
        self.bmemo = {}
        self.known = known or {}
        self.intdec = intdec
        self.keep = []
        self.invs = {}

    # ---------------------------------------------------------------- terms
    def poly(self, e):
        if T.ispy(e):
            return const(int(e) if isinstance(e, bool) else e)
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            st = [e]
            while st:
                x = st[-1]
                xi = x.get_id()
                if xi in self.memo:
                    st.pop()
                    continue
                todo = []
                if z3.is_app(x) and not z3.is_bool(x):
                    for c in x.children():
                        if not z3.is_bool(c) and c.get_id() not in self.memo:
                            todo.append(c)
                if todo:
                    st.extend(todo)
                    continue
                self.memo[xi] = self._poly(x)
                self.keep.append(x)
                st.pop()
            r = self.memo[i]
        return r

    def _poly(self, e):
        if z3.is_int_value(e):
            return const(e.as_long())
        if z3.is_rational_value(e):
            return const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_var(e):
            raise ValueError("bound variable")
        k = e.decl().kind()
        ch = e.children()
        P = self.poly
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                p = P(c)
                if r:
                    for m, v in p.items():
                        w = r.get(m)
                        if w is None:
                            r[m] = v
                        else:
                            w += v
                            if w == 0:
                                del r[m]
                            else:
                                r[m] = w
                else:
                    r = dict(p)
            return r
        if k == z3.Z3_OP_SUB:
            r = P(ch[0])
            for c in ch[1:]:
                r = padd(r, P(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return pscale(P(ch[0]), Fraction(-1))
        if k == z3.Z3_OP_MUL:
            r = P(ch[0])
            for c in ch[1:]:
                r = pmul(r, P(c))
            return r
        if k in (z3.Z3_OP_TO_REAL,):
            return P(ch[0])
        if k == z3.Z3_OP_POWER:
            ex = pconst(P(ch[1]))
            if ex is not None and ex.denominator == 1 and 0 <= ex <= 20:
                return ppow(P(ch[0]), int(ex))
        if k == z3.Z3_OP_DIV:
            return pmul(P(ch[0]), self.pinv(P(ch[1])))
        if k == z3.Z3_OP_ITE:
            c = self.ind(ch[0])
            a, b = P(ch[1]), P(ch[2])
            cc = pconst(c)
            if cc is not None:
                return a if cc == 1 else b
            # c*a+(1-c)*b = b + c*(a-b)
            d = padd(a, b, -1)
            return padd(b, pmul(c, d))
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT, z3.Z3_OP_REM):
            ps = [P(c) for c in ch]
            cs = [pconst(p) for p in ps]
            if all(c is not None for c in cs) and k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and cs[1] > 0:
                q, r = divmod(int(cs[0]), int(cs[1]))
                return const(q if k == z3.Z3_OP_IDIV else r)
            return atom(("op%d" % k,) + tuple(intern(p) for p in ps), frozenset().union(*[pbvs(p) for p in ps]))
        if k == z3.Z3_OP_UNINTERPRETED:
            d = e.decl()
            nm = d.name()
            if d.eq(T.INV):
                return self.pinv(P(ch[0]))
            if d.eq(T.SQRT):
                return self.psqrt(P(ch[0]))
            if d.eq(T.POW):
                x, y = P(ch[0]), P(ch[1])
                return self.ppw(x, y)
            if nm in T.SUMS:
                return self.psum(e)
            ps = []
            for c in ch:
                ps.append(self.ind(c) if z3.is_bool(c) else P(c))
            bv = frozenset()
            for p in ps:
                bv |= pbvs(p)
            if nm.startswith("__bv"):
                bv |= {nm}
            return atom(("app", nm) + tuple(intern(p) for p in ps), bv)
        raise ValueError("poly: operator %s" % e.decl().name())

    def content(self, p):
        """split p = c * mono * q with q primitive (leading coefficient 1)"""
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            for a in list(common):
                common[a] = min(common[a], d.get(a, 0))
                if not common[a]:
                    del common[a]
            if not common:
                break
        mono = tuple(sorted(common.items()))
        if mono:
            neg = tuple((a, -e) for a, e in mono)
            q = {mmul(m, neg): v for m, v in p.items()}
        else:
            q = p
        lead = q[max(q)]
        if lead != 1:
            q = {m: v / lead for m, v in q.items()}
        return lead, mono, q

    def pinv(self, p):
        c = pconst(p)
        if c is not None:
            if c == 0:
                return atom(("inv0",))
            return const(1 / c)
        c, mono, q = self.content(p)
        r = const(1 / c)
        for a, e in mono:
            k = AT.lst[a]
            if k[0] in ("ind", "indb"):
                f = atom(("inv", intern({((a, 1),): Fraction(1)})), AT.bvs[a])
            elif k[0] == "inv":
                f = _pl[k[1]]
            elif k[0] == "pow":
                f = self.ppw(_pl[k[1]], pscale(_pl[k[2]], Fraction(-1)))
            else:
                f = atom(("inv", intern({((a, 1),): Fraction(1)})), AT.bvs[a])
            r = pmul(r, ppow(f, e))
        if pconst(q) is None:
            r = pmul(r, atom(("inv", intern(q)), pbvs(q)))
        return r

    def psqrt(self, p):
        c = pconst(p)
        if c is not None:
            s = T.sqrt(c)
            if T.ispy(s):
                return const(s)
        return atom(("sqrt", intern(p)), pbvs(p))

    def ppw(self, x, y):
        cy = pconst(y)
        if cy is not None and cy.denominator == 1 and 0 <= cy <= 8:
            return ppow(x, int(cy))
        if cy is not None and cy == -1:
            return self.pinv(x)
        if cy == Fraction(1, 2):
            return self.psqrt(x)
        return atom(("pow", intern(x), intern(y)), pbvs(x) | pbvs(y))

    def psum(self, e):
        Iv, N, E = T.sum_instance(e)
        lvl = self.depth(E)
        bv = z3.Int("__bv%d" % lvl)
        E2 = z3.substitute(E, (Iv, bv))
        # inside the sum 0<=bv<N may be used to decide integer conditions
        sub = Norm(self.known, self.intdec, self.extra + [bv >= 0, bv < T.I(N)])
        p = sub.poly(E2)
        self.keep.append(sub)
        n = self.poly(N)
        nm = "__bv%d" % lvl
        r = {}
        for m, v in p.items():
            out = [(a, k) for a, k in m if nm not in AT.bvs[a]]
            inn = tuple((a, k) for a, k in m if nm in AT.bvs[a])
            if not inn:
                t = pmul(n, {tuple(out): v})
            else:
                t = self.sumatom(n, inn, nm, lvl, N)
                t = pmul({tuple(out): v}, t)
            r = padd(r, t)
        return r

    def sumatom(self, n, inn, nm, lvl, N):
        bvs = frozenset()
        for a, k in inn:
            bvs |= AT.bvs[a]
        bvs = bvs - {nm}
        ni = intern(n)
        key = ("sum", ni, inn, lvl)
        if key in AT.tab:
            return {((AT.tab[key], 1),): Fraction(1)}
        # reversed form: bv -> N-1-bv
        bva = AT.get(("app", nm), frozenset({nm}))
        rev = padd(padd(n, const(1), -1), {((bva, 1),): Fraction(1)}, -1)
        try:
            q = psubst({inn: Fraction(1)}, {bva: rev}, self)
            if len(q) == 1:
                (m2, c2), = q.items()
                if c2 == 1 and all(nm in AT.bvs[a] for a, k in m2):
                    k2 = ("sum", ni, m2, lvl)
                    if k2 in AT.tab:
                        return {((AT.tab[k2], 1),): Fraction(1)}
        except (TooBig, ValueError):
            pass
        return {((AT.get(key, bvs), 1),): Fraction(1)}

    def depth(self, E):
        d = 0
        for x in T.walk(E):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in T.SUMS:
                _, _, E2 = T.sum_instance(x)
                d = max(d, 1 + self.depth(E2))
        return d

    # ---------------------------------------------------------------- booleans
    def ind(self, b):
        """polynomial of the indicator of a boolean term"""
        b = T.pynum(b)
        if T.ispy(b):
            return ONE if b else ZERO
        i = b.get_id()
        r = self.bmemo.get(i)
        if r is None:
            r = self._ind(b)
            self.bmemo[i] = r
            self.keep.append(b)
        return r

    def _ind(self, b):
        k = b.decl().kind()
        ch = b.children()
        if self.intdec is not None and len(ch) == 2 and z3.is_int(ch[0]):
            d = self.intdec(b, self.extra)
            if d is not None:
                return ONE if d else ZERO
        if k == z3.Z3_OP_NOT:
            return padd(ONE, self.ind(ch[0]), -1)
        if k == z3.Z3_OP_AND:
            r = ONE
            for c in ch:
                r = pmul(r, self.ind(c))
            return r
        if k == z3.Z3_OP_OR:
            r = ONE
            for c in ch:
                r = pmul(r, padd(ONE, self.ind(c), -1))
            return padd(ONE, r, -1)
        if k == z3.Z3_OP_IMPLIES:
            a, c = self.ind(ch[0]), self.ind(ch[1])
            return padd(ONE, pmul(a, padd(ONE, c, -1)), -1)
        if k == z3.Z3_OP_ITE:
            c = self.ind(ch[0])
            a, d = self.ind(ch[1]), self.ind(ch[2])
            return padd(d, pmul(c, padd(a, d, -1)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR):
            if z3.is_bool(ch[0]):
                a, c = self.ind(ch[0]), self.ind(ch[1])
                # a==c : 1-a-c+2ac
                r = padd(padd(padd(ONE, a, -1), c, -1), pscale(pmul(a, c), Fraction(2)))
                return r if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) else padd(ONE, r, -1)
            p = padd(self.poly(ch[0]), self.poly(ch[1]), -1)
            r = self.indeq(p, z3.is_int(ch[0]), b)
            return r if k != z3.Z3_OP_DISTINCT else padd(ONE, r, -1)
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_GE):
            x, y = self.poly(ch[0]), self.poly(ch[1])
            isint = z3.is_int(ch[0])
            if k == z3.Z3_OP_LT:
                return self.indneg(padd(x, y, -1), isint)
            if k == z3.Z3_OP_GT:
                return self.indneg(padd(y, x, -1), isint)
            if k == z3.Z3_OP_LE:
                return padd(ONE, self.indneg(padd(y, x, -1), isint), -1)
            return padd(ONE, self.indneg(padd(x, y, -1), isint), -1)
        if k == z3.Z3_OP_UNINTERPRETED:
            ps = [self.ind(c) if z3.is_bool(c) else self.poly(c) for c in ch]
            bv = frozenset()
            for p in ps:
                bv |= pbvs(p)
            return self.lit(("indb", b.decl().name()) + tuple(intern(p) for p in ps), bv)
        if k == z3.Z3_OP_TRUE:
            return ONE
        if k == z3.Z3_OP_FALSE:
            return ZERO
        raise ValueError("ind: " + b.decl().name())

    def lit(self, key, bv):
        a = AT.get(key, bv)
        v = self.known.get(a)
        if v is not None:
            return ONE if v else ZERO
        return {((a, 1),): Fraction(1)}

    def indneg(self, p, isint):
        """indicator of p<0"""
        c = pconst(p)
        if c is not None:
            return ONE if c < 0 else ZERO
        p = self.positive_part(p)
        lead = abs(p[max(p)])
        if isint:
            # p<0  <=>  not (-p-1 < 0): canonical orientation
            if p[max(p)] < 0:
                q = padd(pscale(p, Fraction(-1)), const(1), -1)
                return padd(ONE, self.lit(("ind", "lt", intern(q)), pbvs(q)), -1)
            return self.lit(("ind", "lt", intern(p)), pbvs(p))
        p = pscale(p, 1 / lead)
        # real: p<0 with lead>0 -> "lt p"; with lead<0 -> -p>0 -> "gt q"
        if p[max(p)] > 0:
            a = AT.get(("ind", "lt", intern(p)), pbvs(p))
            if a not in self.known:
                # known p>0 or p==0 ?
                g = AT.get(("ind", "gt", intern(p)), pbvs(p))
                z = AT.get(("ind", "eq", intern(p)), pbvs(p))
                if self.known.get(g) or self.known.get(z):
                    return ZERO
                if self.known.get(g) is False and self.known.get(z) is False:
                    return ONE
            return self.lit(("ind", "lt", intern(p)), pbvs(p))
        q = pscale(p, Fraction(-1))
        a = AT.get(("ind", "gt", intern(q)), pbvs(q))
        if a not in self.known:
            g = AT.get(("ind", "lt", intern(q)), pbvs(q))
            z = AT.get(("ind", "eq", intern(q)), pbvs(q))
            if self.known.get(g) or self.known.get(z):
                return ZERO
            if self.known.get(g) is False and self.known.get(z) is False:
                return ONE
        return self.lit(("ind", "gt", intern(q)), pbvs(q))

    def positive_part(self, p):
        return p

    def indeq(self, p, isint, b=None):
        c = pconst(p)
        if c is not None:
            return ONE if c == 0 else ZERO
        lead = p[max(p)]
        p = pscale(p, 1 / lead)
        return self.lit(("ind", "eq", intern(p)), pbvs(p))

    # ---------------------------------------------------------------- facts
    def learn(self, b, v=True):
        """record literals implied by boolean b == v"""
        b = T.pynum(b)
        if T.ispy(b):
            return
        k = b.decl().kind()
        ch = b.children()
        if k == z3.Z3_OP_NOT:
            return self.learn(ch[0], not v)
        if (k == z3.Z3_OP_AND and v) or (k == z3.Z3_OP_OR and not v):
            for c in ch:
                self.learn(c, v)
            return
        if k == z3.Z3_OP_IMPLIES and not v:
            self.learn(ch[0], True)
            self.learn(ch[1], False)
            return
        try:
            p = self.ind(b)
        except (ValueError, TooBig):
            return
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) >= 1 and c == 1 and v:
                for a, e in m:
                    if is_ind(a):
                        self._know(a, True)
            elif len(m) == 1 and c == 1 and not v and is_ind(m[0][0]):
                self._know(m[0][0], False)
        elif len(p) == 2 and p.get(()) == 1:
            m = [x for x in p if x != ()][0]
            if p[m] == -1:
                if len(m) == 1 and v and is_ind(m[0][0]):
                    self._know(m[0][0], False)
                elif not v:
                    for a, e in m:
                        if is_ind(a):
                            self._know(a, True)
        self.bmemo.clear()

    def _know(self, a, v):
        self.known[a] = v
        k = AT.lst[a]
        if k[0] == "ind" and v:
            for o in ("lt", "gt", "eq"):
                if o != k[1]:
                    b = AT.get(("ind", o, k[2]), AT.bvs[a])
                    self.known[b] = False


class PathNorm(Norm):
    """normaliser of one case: an undecided condition is decided here (the choices
    made are listed in `path`), so every normal form is free of conditions"""

    def __init__(self, known, path, intdec=None):
        Norm.__init__(self, known, intdec)
        self.path = path          # atom -> bool, choices to follow
        self.used = []            # atoms in the order they were met
        self.steps = 0

    def poly(self, e):
        if T.ispy(e):
            return const(int(e) if isinstance(e, bool) else e)
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            self.keep.append(e)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                c = pconst(self.ind(e.arg(0)))
                if c is not None:
                    r = self.poly(e.arg(1) if c == 1 else e.arg(2))
            elif z3.is_app(e):
                for c in e.children():
                    if not z3.is_bool(c):
                        self.poly(c)
            if r is None:
                r = self._poly(e)
            self.memo[i] = r
        return r

    def _ind(self, b):
        k = b.decl().kind()
        # lazily: a decided prefix ends the evaluation
        if k == z3.Z3_OP_AND:
            r = ONE
            for c in b.children():
                r = pmul(r, self.ind(c))
                if not r:
                    return ZERO
            return r
        if k == z3.Z3_OP_OR:
            r = ONE
            for c in b.children():
                r = pmul(r, padd(ONE, self.ind(c), -1))
                if not r:
                    return ONE
            return padd(ONE, r, -1)
        if k == z3.Z3_OP_ITE:
            c = pconst(self.ind(b.arg(0)))
            if c is not None:
                return self.ind(b.arg(1) if c == 1 else b.arg(2))
        if k == z3.Z3_OP_IMPLIES:
            c = pconst(self.ind(b.arg(0)))
            if c is not None:
                return self.ind(b.arg(1)) if c == 1 else ONE
        return Norm._ind(self, b)

    def lit(self, key, bv):
        a = AT.get(key, bv)
        v = self.known.get(a)
        if v is None and not bv:
            v = self.path.setdefault(a, True)
            self.used.append(a)
            self._know(a, v)
            if key[0] == "ind" and not v:
                o = [AT.get(("ind", x, key[2]), bv) for x in ("lt", "gt", "eq") if x != key[1]]
                kn = [self.known.get(x) for x in o]
                if kn == [False, None]:
                    self.known[o[1]] = True
                elif kn == [None, False]:
                    self.known[o[0]] = True
        if v is not None:
            return ONE if v else ZERO
        return {((a, 1),): Fraction(1)}


def psubst(p, mp, norm):
    """substitute atoms (deeply) by polynomials"""
    memo = {}

    def pa(a):
        if a in mp:
            return mp[a]
        r = memo.get(a)
        if r is not None:
            return r
        k = AT.lst[a]
        if k[0] in ("inv", "sqrt"):
            q = psubst(_pl[k[1]], mp, norm)
            r = norm.pinv(q) if k[0] == "inv" else norm.psqrt(q)
        elif k[0] == "pow":
            r = norm.ppw(psubst(_pl[k[1]], mp, norm), psubst(_pl[k[2]], mp, norm))
        elif k[0] == "app" or k[0] == "indb":
            ps = [psubst(_pl[x], mp, norm) for x in k[2:]]
            bv = frozenset()
            for q in ps:
                bv |= pbvs(q)
            if not ps:
                bv = AT.bvs[a]
            r = atom(k[:2] + tuple(intern(q) for q in ps), bv)
        elif k[0] == "ind":
            q = psubst(_pl[k[2]], mp, norm)
            if k[1] == "eq":
                r = norm.indeq(q, False)
            elif k[1] == "lt":
                r = norm.indneg(q, False)
            else:
                r = norm.indneg(pscale(q, Fraction(-1)), False)
        elif k[0].startswith("op"):
            ps = [psubst(_pl[x], mp, norm) for x in k[1:]]
            bv = frozenset()
            for q in ps:
                bv |= pbvs(q)
            r = atom((k[0],) + tuple(intern(q) for q in ps), bv)
        elif k[0] == "sum":
            n = psubst(_pl[k[1]], mp, norm)
            inn = psubst({k[2]: Fraction(1)}, mp, norm)
            nm = "__bv%d" % k[3]
            r = {}
            for m, v in inn.items():
                out = tuple((x, e) for x, e in m if nm not in AT.bvs[x])
                ii = tuple((x, e) for x, e in m if nm in AT.bvs[x])
                if not ii:
                    t = pmul(n, {out: v})
                else:
                    bvs = frozenset()
                    for x, e in ii:
                        bvs |= AT.bvs[x]
                    t = pmul({out: v}, atom(("sum", intern(n), ii, k[3]), bvs - {nm}))
                r = padd(r, t)
        else:
            r = {((a, 1),): Fraction(1)}
        memo[a] = r
        return r
    out = {}
    for m, v in p.items():
        t = const(v)
        for a, e in m:
            t = pmul(t, ppow(pa(a), e))
        out = padd(out, t)
    return out


def depth_of(a, memo={}):
    """nesting depth of inv in an atom"""
    r = memo.get(a)
    if r is not None:
        return r
    k = AT.lst[a]
    d = 0
    if k[0] in ("inv", "sqrt"):
        d = 1 + pdepth(_pl[k[1]])
    elif k[0] in ("app", "indb"):
        d = max([pdepth(_pl[x]) for x in k[2:]], default=0)
    memo[a] = d
    return d


def pdepth(p):
    return max([depth_of(a) for m in p for a, e in m], default=0)


def clear_inv(p, limit=40):
    """multiply out inverses: p == 0 iff result == 0 (divisors nonzero)"""
    for _ in range(limit):
        invs = {}
        for m in p:
            for a, e in m:
                k = AT.lst[a]
                if k[0] == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return p
        a = max(invs, key=lambda x: depth_of(x))
        kmax = invs[a]
        b = _pl[AT.lst[a][1]]
        pw = [ONE]
        for i in range(kmax):
            pw.append(pmul(pw[-1], b))
        groups = {}
        for m, v in p.items():
            e = dict(m).get(a, 0)
            m2 = tuple(x for x in m if x[0] != a)
            g = groups.setdefault(e, {})
            g[m2] = g.get(m2, 0) + v
        r = {}
        for e, g in groups.items():
            r = padd(r, pmul({m: v for m, v in g.items() if v}, pw[kmax - e]))
        p = r
    return p


def is_zero(p):
    if not p:
        return True
    q = clear_inv(p)
    return not q


def show(p, n=6):
    out = []
    for m, v in list(p.items())[:n]:
        out.append("%s*%s" % (v, "*".join(showatom(a) + ("^%d" % e if e > 1 else "") for a, e in m)))
    return " + ".join(out) + (" ..." if len(p) > n else "") if out else "0"


def showatom(a, d=0):
    k = AT.lst[a]
    if d > 3:
        return "..."
    if k[0] == "app":
        return k[1] + ("(" + ",".join(showp(_pl[x], d + 1) for x in k[2:]) + ")" if len(k) > 2 else "")
    if k[0] in ("inv", "sqrt"):
        return k[0] + "(" + showp(_pl[k[1]], d + 1) + ")"
    if k[0] == "ind":
        return "[" + showp(_pl[k[2]], d + 1) + {"lt": "<0", "gt": ">0", "eq": "==0"}[k[1]] + "]"
    if k[0] == "indb":
        return "[" + k[1] + "]"
    if k[0] == "sum":
        return "Sum(<" + showp(_pl[k[1]], d + 1) + ">," + "*".join(showatom(x, d + 1) for x, e in k[2]) + ")"
    if k[0] == "pow":
        return "pow(%s,%s)" % (showp(_pl[k[1]], d + 1), showp(_pl[k[2]], d + 1))
    return str(k)


def showp(p, d):
    out = []
    for m, v in list(p.items())[:4]:
        s = "*".join(showatom(a, d) for a, e in m for _ in range(e))
        out.append(s if v == 1 and s else (str(v) + ("*" + s if s else "")))
    return "+".join(out) + ("+.." if len(p) > 4 else "") if out else "0"


def to_z3(p, amap):
    """polynomial as a z3 real term; amap: function atom id -> z3 real"""
    r = z3.RealVal(0)
    ts = []
    for m, v in p.items():
        t = None
        for a, e in m:
            x = amap(a)
            for _ in range(e):
                t = x if t is None else t * x
        c = T.R(v)
        ts.append(c if t is None else (t if v == 1 else c * t))
    if not ts:
        return r
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r
