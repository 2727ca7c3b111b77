"""Scalar terms: python numbers (exact) or z3 expressions, with light folding.

Reals are exact rationals / mathematical reals; ints are mathematical ints.
Division by a non-constant is represented by the function inv with the axiom
b != 0  ->  b*inv(b) == 1 (added on demand by the solver layer)."""
from fractions import Fraction
import z3

INV = z3.Function("inv", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
POW = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())

_ctr = [0]
SYMS = []     # every fresh symbol (z3 const or func decl) in creation order


def fresh(hint, sort="real"):
    _ctr[0] += 1
    n = "%s!%d" % (hint, _ctr[0])
    c = z3.Real(n) if sort == "real" else z3.Int(n) if sort == "int" else z3.Bool(n)
    SYMS.append(c)
    return c


def freshfun(hint, nargs=1, sort="real", doms=None):
    _ctr[0] += 1
    doms = doms or [z3.IntSort()] * nargs
    f = z3.Function("%s!%d" % (hint, _ctr[0]), *doms,
                    z3.RealSort() if sort == "real" else z3.IntSort())
    SYMS.append(f)
    return f


def mark():
    return len(SYMS)


def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def ispy(x):
    return isinstance(x, (int, Fraction, bool))


_rv = {}


def R(x):
    """to z3 real"""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, Fraction)):
        r = _rv.get(x)
        if r is None:
            f = Fraction(x)
            r = z3.RealVal(str(f.numerator)) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)
            _rv[x] = r
        return r
    if z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if x.is_int():
        return z3.ToReal(x)
    return x


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return z3.IntVal(x.numerator)
        raise ValueError("fraction as int")
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def B(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, (int, Fraction)):
        return z3.BoolVal(x != 0)
    if z3.is_bool(x):
        return x
    return x != (0)


def pynum(x):
    """z3 numeral -> python number, else unchanged"""
    if ispy(x):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def isreal(x):
    return isinstance(x, Fraction) or (not ispy(x) and z3.is_real(x))


def _lift(a, b):
    """common numeric sort for two z3/py values"""
    if isreal(a) or isreal(b):
        return R(a), R(b)
    return I(a), I(b)


def add(a, b):
    if ispy(a) and ispy(b):
        return a + b
    if ispy(a) and a == 0:
        return b if not isinstance(a, Fraction) or isreal(b) else R(b)
    if ispy(b) and b == 0:
        return a if not isinstance(b, Fraction) or isreal(a) else R(a)
    x, y = _lift(a, b)
    r = x + y
    return z3.simplify(r) if not z3.is_real(r) else r


def neg(a):
    if ispy(a):
        return -a
    a = I(a) if z3.is_bool(a) else a
    r = -a
    return z3.simplify(r) if z3.is_int(r) else r


def sub(a, b):
    if ispy(a) and ispy(b):
        return a - b
    if ispy(b) and b == 0:
        return a if not isinstance(b, Fraction) or isreal(a) else R(a)
    x, y = _lift(a, b)
    if x.eq(y):
        return Fraction(0) if z3.is_real(x) else 0
    r = x - y
    return z3.simplify(r) if z3.is_int(r) else r


def mul(a, b):
    if ispy(a) and ispy(b):
        return a * b
    for u, v in ((a, b), (b, a)):
        if ispy(u):
            if u == 0:
                return Fraction(0) if isreal(u) or isreal(v) else 0
            if u == 1:
                return v if not isinstance(u, Fraction) or isreal(v) else R(v)
    x, y = _lift(a, b)
    r = x * y
    return z3.simplify(r) if z3.is_int(r) else r


def inv(b):
    """1/b for a real symbolic b"""
    if ispy(b):
        if b == 0:
            return INV(R(0))
        return Fraction(1) / Fraction(b)
    b = R(b)
    return _inv(z3.simplify(b, som=True))


def _inv(b):
    b2 = pynum(b)
    if ispy(b2):
        return Fraction(1) / Fraction(b2) if b2 != 0 else INV(R(0))
    if b.decl().kind() == z3.Z3_OP_MUL:
        r = Fraction(1)
        for c in b.children():
            r = mul(r, _inv(c))
        return r
    if b.decl().kind() == z3.Z3_OP_UMINUS:
        return neg(_inv(b.children()[0]))
    if b.decl().eq(INV):
        return b.children()[0]
    if b.decl().kind() == z3.Z3_OP_POWER:
        e = pynum(b.children()[1])
        if isinstance(e, (int, Fraction)) and Fraction(e).denominator == 1 and 0 < e < 10:
            x = _inv(b.children()[0])
            r = x
            for _ in range(int(e) - 1):
                r = mul(r, x)
            return r
    return INV(b)


def rdiv(a, b):
    if ispy(a) and ispy(b) and b != 0:
        return Fraction(a) / Fraction(b)
    if ispy(b) and b != 0:
        return mul(Fraction(1) / Fraction(b), R(a) if not ispy(a) else a)
    return mul(a if ispy(a) else R(a), inv(b))


def cdiv(a, b):
    """C integer division"""
    if ispy(a) and ispy(b):
        if b == 0:
            return fresh("div0", "int")
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    a, b = I(a), I(b)
    bb = pynum(b)
    if ispy(bb) and bb > 0:
        return z3.simplify(z3.If(a >= 0, a / b, -((-a) / b)))
    return z3.If(z3.And(a >= 0, b > 0), a / b,
                 z3.If(z3.And(a >= 0, b < 0), -(a / (-b)),
                       z3.If(z3.And(a < 0, b > 0), -((-a) / b), (-a) / (-b))))


def cmod(a, b):
    if ispy(a) and ispy(b):
        return a - b * cdiv(a, b) if b != 0 else fresh("mod0", "int")
    a, b = I(a), I(b)
    bb = pynum(b)
    if ispy(bb) and bb > 0:
        return z3.simplify(z3.If(a >= 0, a % b, -((-a) % b)))
    return a - b * cdiv(a, b)


def cmp(op, a, b):
    if ispy(a) and ispy(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
                "==": a == b, "!=": a != b}[op]
    if z3.is_bool(a) if not ispy(a) else isinstance(a, bool):
        if (z3.is_bool(b) if not ispy(b) else isinstance(b, bool)) and op in ("==", "!="):
            r = B(a) == B(b)
            r = z3.simplify(r)
            return pynum(r if op == "==" else z3.simplify(z3.Not(r)))
    x, y = _lift(a, b)
    if x.eq(y):
        return op in ("<=", ">=", "==")
    r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y,
         ">=": lambda: x >= y, "==": lambda: x == y, "!=": lambda: x != y}[op]()
    if z3.is_int(x):
        r = pynum(z3.simplify(r))
    return r


def lnot(a):
    if ispy(a):
        return not a
    a = B(a)
    if z3.is_not(a):
        return a.children()[0]
    return z3.Not(a)


def land(*xs):
    out = []
    for x in xs:
        if ispy(x):
            if not x:
                return False
            continue
        x = B(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if ispy(x):
            if x:
                return True
            continue
        x = B(x)
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def ite(c, a, b):
    if ispy(c):
        return a if c else b
    if a is b:
        return a
    if ispy(a) and ispy(b) and type(a) == type(b) and a == b:
        return a
    ab = isinstance(a, bool) or (not ispy(a) and z3.is_bool(a))
    bb = isinstance(b, bool) or (not ispy(b) and z3.is_bool(b))
    if ab and bb:
        if a is True:
            return lor(c, b)
        if a is False:
            return land(lnot(c), b)
        if b is True:
            return lor(lnot(c), a)
        if b is False:
            return land(c, a)
        return z3.If(c, B(a), B(b))
    x, y = _lift(a, b)
    if x.eq(y):
        return a
    return z3.If(c, x, y)


def toint(x):
    """C conversion double -> int (truncation)"""
    if ispy(x):
        return int(x)
    if z3.is_bool(x) or z3.is_int(x):
        return I(x)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def sqrt(x):
    if ispy(x):
        f = Fraction(x)
        if f >= 0:
            from math import isqrt
            a, b = isqrt(f.numerator), isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return Fraction(a, b)
        return SQRT(R(f))
    return SQRT(z3.simplify(R(x), som=True))


def power(x, y):
    if ispy(y):
        e = Fraction(y)
        if e.denominator == 1 and 0 <= e <= 8:
            r = Fraction(1)
            for _ in range(int(e)):
                r = mul(r, x if ispy(x) else R(x))
            return r
        if e == Fraction(1, 2):
            return sqrt(x)
    if ispy(x) and Fraction(x) == 1:
        return Fraction(1)
    return POW(R(x) if ispy(x) else z3.simplify(R(x), som=True), R(y) if ispy(y) else z3.simplify(R(y), som=True))


def absv(x):
    if ispy(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


# ---------------------------------------------------------------- traversal
def walk(e, seen=None):
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        if z3.is_app(x):
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())


def apps(e, decls):
    """all applications of the given func decls (list) in e"""
    ids = {d.get_id() if isinstance(d, z3.FuncDeclRef) else d.decl().get_id() for d in decls}
    if ispy(e):
        return []
    return [x for x in walk(e) if z3.is_app(x) and x.decl().get_id() in ids]


def occurs(e, decls):
    if ispy(e):
        return False
    ids = {d.get_id() if isinstance(d, z3.FuncDeclRef) else d.decl().get_id() for d in decls}
    if not ids:
        return False
    for x in walk(e):
        if z3.is_app(x) and x.decl().get_id() in ids:
            return True
    return False


def subst(e, pairs):
    """pairs: (z3 const, value)"""
    if ispy(e) or not pairs:
        return e
    ps = []
    for c, v in pairs:
        if z3.is_real(c):
            v = R(v)
        elif z3.is_int(c):
            v = I(v)
        else:
            v = B(v)
        ps.append((c, v))
    return pynum(z3.simplify(z3.substitute(e, *ps)) if z3.is_int(e) or z3.is_bool(e) else z3.substitute(e, *ps))


def eqterm(a, b):
    return cmp("==", a, b)


# ---------------------------------------------------------------- sums
SUMS = {}       # decl name -> dict(params, I, N, E, f)


def mksum(N, I_, E):
    """sum of E over 0<=I_<N (a fresh symbol with a registered meaning)"""
    E2 = E if ispy(E) else E
    if ispy(E2) and E2 == 0:
        return Fraction(0)
    if not occurs(E2, [I_]):
        return mul(R(N) if not ispy(N) else Fraction(N), E2)
    s = fresh("sum", "real")
    SUMS[s.decl().name()] = dict(params=[], I=I_, N=N, E=R(E2), f=s.decl())
    return s


def sum_instance(app):
    """(I,N,E) of a sum application, or None"""
    if not z3.is_app(app):
        return None
    d = SUMS.get(app.decl().name())
    if d is None:
        return None
    ps = list(zip(d["params"], app.children()))
    return d["I"], subst(I(d["N"]), ps), subst(d["E"], ps)


def skolem_map(syms, Ivar):
    """replacement of symbols created in a loop body by functions of the loop index"""
    out = {}
    for s in syms:
        if isinstance(s, z3.FuncDeclRef):
            if s.arity() == 0:
                continue
            doms = [z3.IntSort()] + [s.domain(i) for i in range(s.arity())]
            g = z3.Function(s.name() + "@", *doms, s.range())
            out[s.name()] = (s, g)
            if s.name() in SUMS:
                pass
        else:
            g = z3.Function(s.decl().name() + "@", z3.IntSort(), s.sort())
            out[s.decl().name()] = (s.decl(), g)
    return out


class Rewriter:
    """bottom-up rewriting of z3 terms by a callback on applications"""

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}
        self.keep = []

    def __call__(self, e):
        if e is None or ispy(e) or not isinstance(e, z3.ExprRef):
            return e
        return pynum_keep(self._go(e))

    def _go(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r
        st = [(e, 0)]
        while st:
            x, ph = st.pop()
            xi = x.get_id()
            if xi in self.memo:
                continue
            ch = x.children() if z3.is_app(x) else []
            if ph == 0:
                st.append((x, 1))
                for c in ch:
                    if c.get_id() not in self.memo:
                        st.append((c, 0))
            else:
                nch = [self.memo[c.get_id()] for c in ch]
                y = None
                if z3.is_app(x):
                    y = self.fn(x, nch)
                if y is None:
                    if all(a is b or a.eq(b) for a, b in zip(ch, nch)):
                        y = x
                    else:
                        y = rebuild(x, nch)
                if ispy(y):
                    y = R(y) if z3.is_real(x) else I(y) if z3.is_int(x) else B(y)
                elif z3.is_real(x) and z3.is_int(y):
                    y = R(y)
                self.memo[xi] = y
                self.keep.append((x, y))
        return self.memo[i]


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_SUB:
        r = ch[0]
        for c in ch[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if k == z3.Z3_OP_UNINTERPRETED:
        if x.decl().eq(INV):
            # keep canonical
            return R(inv(ch[0]))
    return x.decl()(*ch)


def pynum_keep(e):
    return e if z3.is_real(e) and not z3.is_rational_value(e) else pynum(e)
