"""Discharging obligations.

prove(ex, pc, goal) -> Result(status, backend, time, witness)
  status 'proved'   : accepted by the normal-form prover or by an SMT solver
         'refuted'  : a concrete valuation satisfies the hypotheses and falsifies
                      the goal (checked by evaluation, with true sqrt, pow, 1/x
                      and sums), i.e. the obligation does not hold
         'unknown'  : neither
"""
import math
import random
import time
import hashlib
import z3
from fractions import Fraction
from . import terms as T
from .terms import R, I, B, land, lnot
from . import poly as PL


class Result:
    def __init__(self, status, backend, t, witness=None, detail=""):
        self.status, self.backend, self.time, self.witness, self.detail = status, backend, t, witness, detail

    def __repr__(self):
        return "Result(%s,%s,%.2fs,%s)" % (self.status, self.backend, self.time, self.detail)


# ---------------------------------------------------------------- utilities
def intonly(e):
    for x in T.walk(e):
        if z3.is_real(x):
            return False
    return True


def consts(e, acc):
    for x in T.walk(e):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.decl().name() in T.SUMS:
                _, N, E = T.sum_instance(x)
                consts(N, acc)
                consts(E, acc)
            if x.num_args() == 0:
                acc[x.decl().name()] = x


# ---------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


class Valuation:
    """random but deterministic interpretation of all symbols"""

    def __init__(self, seed, ints=None, reals=None, regime=0, funhints=None):
        self.seed = seed
        self.ints = ints or {}
        self.reals = reals or {}
        self.regime = regime
        self.funhints = funhints or {}
        self.log = {}

    def rnd(self, *key):
        h = hashlib.md5(repr((self.seed,) + key).encode()).digest()
        return int.from_bytes(h[:7], "big") / float(1 << 56)

    def real(self, name, args):
        k = (name,) + tuple(round(a, 9) if isinstance(a, float) else a for a in args)
        if k in self.reals:
            return self.reals[k]
        u = self.rnd("r", k)
        w = self.rnd("s", k)
        if self.regime == 0:
            v = (0.25 + 1.5 * u) * (1 if w < 0.7 else -1)
        elif self.regime == 1:
            v = 0.1 + 2 * u
        elif self.regime == 2:
            v = 10 ** (4 * u - 2) * (1 if w < 0.5 else -1)
        elif self.regime == 3:
            v = 10 ** (6 * u - 4)
        else:
            v = [0.0, 1.0, -1.0, 0.5, 2.0, -0.5, 1e-3, 3.0][int(u * 8)]
        self.log[k] = v
        return v

    def int(self, name, args):
        k = (name,) + tuple(args)
        if k in self.ints:
            return self.ints[k]
        v = int(self.rnd("i", k) * 7)
        self.log[k] = v
        return v

    def bool(self, name, args):
        k = (name,) + tuple(args)
        if k in self.reals:
            return bool(self.reals[k])
        v = self.rnd("b", k) < 0.5
        self.log[k] = v
        return v


MATH = {"exp": math.exp, "log": math.log, "cos": math.cos, "sin": math.sin, "tan": math.tan}


def evaluate(e, val, memo=None, tables=None):
    """value of a z3 term (float / int / bool); reals carry a magnitude for tolerance"""
    memo = {} if memo is None else memo
    return _ev(e, val, memo)


def _ev(e, val, memo):
    if T.ispy(e):
        return float(e) if isinstance(e, Fraction) else e
    i = e.get_id()
    if i in memo:
        return memo[i][0]
    st = [e]
    while st:
        x = st[-1]
        xi = x.get_id()
        if xi in memo:
            st.pop()
            continue
        if not z3.is_app(x):
            raise EvalError("quantifier")
        k = x.decl().kind()
        ch = x.children()
        # lazy: ite / and / or / implies
        if k == z3.Z3_OP_ITE:
            c = ch[0].get_id()
            if c not in memo:
                st.append(ch[0])
                continue
            pick = ch[1] if memo[c][0] else ch[2]
            if pick.get_id() not in memo:
                st.append(pick)
                continue
            memo[xi] = (memo[pick.get_id()][0], x)
            st.pop()
            continue
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            done = False
            stopv = (k == z3.Z3_OP_OR)
            for c in ch:
                ci = c.get_id()
                if ci not in memo:
                    st.append(c)
                    done = True
                    break
                if bool(memo[ci][0]) == stopv:
                    memo[xi] = (stopv, x)
                    done = True
                    break
            if not done:
                memo[xi] = (not stopv, x)
            continue
        if k == z3.Z3_OP_IMPLIES:
            c = ch[0].get_id()
            if c not in memo:
                st.append(ch[0])
                continue
            if not memo[c][0]:
                memo[xi] = (True, x)
                continue
            c = ch[1].get_id()
            if c not in memo:
                st.append(ch[1])
                continue
            memo[xi] = (memo[c][0], x)
            continue
        miss = [c for c in ch if c.get_id() not in memo]
        if miss and not (k == z3.Z3_OP_UNINTERPRETED and x.decl().name() in T.SUMS and False):
            st.extend(miss)
            continue
        a = [memo[c.get_id()][0] for c in ch]
        memo[xi] = (_apply(x, k, a, val), x)
        st.pop()
    return memo[i][0]


def _apply(x, k, a, val):
    try:
        if k in (z3.Z3_OP_ANUM,):
            if z3.is_int_value(x):
                return x.as_long()
            return x.numerator_as_long() / x.denominator_as_long()
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for y in a[1:]:
                r -= y
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for y in a[1:]:
                r *= y
            return r
        if k == z3.Z3_OP_DIV:
            if abs(a[1]) < 1e-12:
                raise EvalError("division by zero")
            return a[0] / a[1]
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k == z3.Z3_OP_IDIV:
            if a[1] == 0:
                raise EvalError("div0")
            return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
        if k == z3.Z3_OP_MOD:
            return a[0] % abs(a[1])
        if k == z3.Z3_OP_TO_REAL:
            return float(a[0])
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1] or close(a[0], a[1])
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1] or close(a[0], a[1])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return a[0] == a[1] or (isinstance(a[0], float) and close(a[0], a[1]))
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_UNINTERPRETED:
            d = x.decl()
            nm = d.name()
            if d.eq(T.INV):
                if abs(a[0]) < 1e-10:
                    raise EvalError("inv of zero")
                return 1.0 / a[0]
            if d.eq(T.SQRT):
                if a[0] < 0:
                    raise EvalError("sqrt of negative")
                return math.sqrt(a[0])
            if d.eq(T.POW):
                if a[0] <= 0:
                    raise EvalError("pow of nonpositive")
                return a[0] ** a[1]
            if nm in MATH and x.num_args() == 1:
                return MATH[nm](a[0])
            if nm in T.SUMS:
                Iv, N, E = T.sum_instance(x)
                n = _ev(N, val, {})
                if n > 60:
                    raise EvalError("sum too long")
                s = 0.0
                for j in range(max(0, n)):
                    Ej = z3.substitute(E, (Iv, z3.IntVal(j)))
                    s += _ev(Ej, val, {})
                return s
            if nm in val.funhints:
                return val.funhints[nm](*a)
            if z3.is_bool(x):
                return val.bool(nm, a)
            if z3.is_int(x):
                return val.int(nm, a)
            return val.real(nm, a)
    except (OverflowError, ZeroDivisionError, ValueError) as e:
        raise EvalError(str(e))
    raise EvalError("operator %s" % x.decl().name())


def close(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def margin_true(e, val, memo):
    """evaluate a hypothesis; True only if it holds with margin for real comparisons"""
    return _sat(e, val, memo, True)


def _sat(e, val, memo, want):
    """does e evaluate to `want` robustly?"""
    if T.ispy(e):
        return bool(e) == want
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_NOT:
        return _sat(ch[0], val, memo, not want)
    if (k == z3.Z3_OP_AND and want) or (k == z3.Z3_OP_OR and not want):
        return all(_sat(c, val, memo, want) for c in ch)
    if (k == z3.Z3_OP_OR and want) or (k == z3.Z3_OP_AND and not want):
        return any(_sat(c, val, memo, want) for c in ch)
    if k == z3.Z3_OP_IMPLIES:
        if want:
            return _sat(ch[0], val, memo, False) or _sat(ch[1], val, memo, True)
        return _sat(ch[0], val, memo, True) and _sat(ch[1], val, memo, False)
    if k == z3.Z3_OP_ITE and z3.is_bool(ch[1]):
        if _sat(ch[0], val, memo, True):
            return _sat(ch[1], val, memo, want)
        if _sat(ch[0], val, memo, False):
            return _sat(ch[2], val, memo, want)
        return False
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
        for v in (True, False):
            if _sat(ch[0], val, memo, v):
                return _sat(ch[1], val, memo, v if want else not v)
        return False
    if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_real(ch[0]):
        a, b = _ev(ch[0], val, memo), _ev(ch[1], val, memo)
        if not (math.isfinite(a) and math.isfinite(b)):
            raise EvalError("not finite")
        sep = abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)) if max(abs(a), abs(b)) > 1e-3 else abs(a - b) > 1e-7 * max(abs(a), abs(b), 1e-30)
        # a definite numerical difference
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            eq = close(a, b) and abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-12)
            w = want if k == z3.Z3_OP_EQ else not want
            if w:
                return eq or a == b
            return sep and not eq
        if not sep:
            return False
        t = {z3.Z3_OP_LT: a < b, z3.Z3_OP_LE: a <= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_GE: a >= b}[k]
        return t == want
    return bool(_ev(e, val, memo)) == want


# ---------------------------------------------------------------- prover
class Prover:
    def __init__(self, ex=None, facts=(), axioms=(), timeout=8000, hints=None, small=6, trials=60):
        self.facts = list(facts)
        self.axioms = list(axioms)
        if ex is not None:
            self.facts += list(ex.facts)
            self.axioms += list(ex.axioms)
        self.timeout = timeout
        self.hints = hints          # function(seed, Valuation) -> None
        self.small = small
        self.trials = trials
        self.use_cvc5 = True
        self.splits = False

    # -------------------------------------------------- integer solver
    def intsolver(self, hyps):
        s = z3.Solver()
        s.set("timeout", 3000)
        for h in hyps:
            if intonly(h):
                s.add(h)
        return s

    def prove(self, pc, goal, name=""):
        t0 = time.time()
        goal = T.pynum(goal)
        if goal is True:
            return Result("proved", "trivial", 0.0)
        pc = [B(p) for p in pc]
        hyps = self.facts + pc
        g = B(goal)
        # split conjunctions
        k = g.decl().kind()
        if k == z3.Z3_OP_AND:
            tot = None
            for c in g.children():
                r = self.prove(pc, c, name)
                if r.status != "proved":
                    r.time = time.time() - t0
                    return r
                tot = r
            return Result("proved", tot.backend if tot else "trivial", time.time() - t0)
        if k == z3.Z3_OP_IMPLIES:
            a, c = g.children()
            return self.prove(pc + [a], c, name)
        if k == z3.Z3_OP_NOT and g.children()[0].decl().kind() == z3.Z3_OP_OR:
            return self.prove(pc, z3.And(*[z3.Not(c) for c in g.children()[0].children()]), name)
        if k == z3.Z3_OP_NOT and g.children()[0].decl().kind() == z3.Z3_OP_IMPLIES:
            a, c = g.children()[0].children()
            return self.prove(pc, z3.And(a, z3.Not(c)), name)
        # 1. normal form
        try:
            r = self.normal(hyps, g)
            if r:
                return Result("proved", "odv-normal-form", time.time() - t0)
        except (PL.TooBig, ValueError) as e:
            pass
        # integer goals
        if intonly(g):
            s = self.intsolver(hyps + self.axioms)
            s.add(z3.Not(g))
            c = s.check()
            if c == z3.unsat:
                return Result("proved", "z3", time.time() - t0)
        # 2. case analysis
        if self.splits:
            try:
                if self.cases(hyps, g):
                    return Result("proved", "odv-cases", time.time() - t0)
            except (PL.TooBig, ValueError, RecursionError):
                pass
        # 3. numeric refutation
        w = self.refute(hyps, g)
        if w is not None:
            return Result("refuted", "evaluation", time.time() - t0, w)
        # 4. SMT
        r = self.smt(hyps, g)
        if r == "proved":
            return Result("proved", "z3", time.time() - t0)
        if r == "cvc5":
            return Result("proved", "cvc5", time.time() - t0)
        if isinstance(r, Valuation):
            return Result("refuted", "evaluation", time.time() - t0, r)
        return Result("unknown", "none", time.time() - t0, detail=str(r))

    def mknorm(self, hyps):
        # orient equations  symbol == term
        pairs = self.equations(hyps)
        iso = self.intsolver(hyps)
        cache = {}

        def intdec(b, extra):
            key = (b.get_id(), tuple(x.get_id() for x in extra))
            if key in cache:
                return cache[key][0]
            res = None
            if intonly(b):
                iso.push()
                iso.add(*extra)
                iso.push()
                iso.add(z3.Not(b))
                if iso.check() == z3.unsat:
                    res = True
                iso.pop()
                if res is None:
                    iso.push()
                    iso.add(b)
                    if iso.check() == z3.unsat:
                        res = False
                    iso.pop()
                iso.pop()
            cache[key] = (res, b, extra)
            return res
        n = PL.Norm({}, intdec)
        sub = (lambda e: z3.substitute(e, *pairs)) if pairs else (lambda e: e)
        for _ in range(2):
            for h in hyps:
                try:
                    n.learn(sub(h))
                except (PL.TooBig, ValueError):
                    pass
            n.memo.clear()
            n.bmemo.clear()
        return n, sub

    def equations(self, hyps):
        pairs = []
        done = set()
        flat = []
        for h in hyps:
            if z3.is_and(h):
                flat += h.children()
            else:
                flat.append(h)
        for h in flat:
            if z3.is_eq(h) and not z3.is_bool(h.children()[0]):
                a, b = h.children()
                for x, y in ((a, b), (b, a)):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in done \
                       and not T.occurs(y, [x]) and (z3.is_int(x) == z3.is_int(y)) and x.decl().name() not in T.SUMS:
                        if pairs:
                            y = z3.substitute(y, *pairs)
                            if T.occurs(y, [x]):
                                continue
                        pairs = [(u, z3.substitute(v, (x, y))) for u, v in pairs]
                        pairs.append((x, y))
                        done.add(x.get_id())
                        break
        return pairs

    def normal(self, hyps, g):
        n, sub = self.mknorm(hyps)
        g = sub(g)
        k = g.decl().kind()
        ch = g.children()
        if k == z3.Z3_OP_EQ and not z3.is_bool(ch[0]):
            p = PL.padd(n.poly(ch[0]), n.poly(ch[1]), -1)
            if PL.is_zero(p):
                return True
            self.last = p
            return False
        p = n.ind(g)
        c = PL.pconst(p)
        return c == 1

    # -------------------------------------------------- case analysis
    def cases(self, hyps, g, limit=6000, tmax=40.0):
        """prove g by complete case analysis over the conditions it contains: in each
        case both sides are condition free and compared by normal form, or the literals
        of the case are shown contradictory / to imply the goal by the SMT solver"""
        n0, sub = self.mknorm(hyps)
        t0 = time.time()
        g = sub(g)
        k = g.decl().kind()
        ch = g.children()
        arith = len(ch) == 2 and not z3.is_bool(ch[0]) and k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT)
        hs = [sub(h) for h in hyps]
        todo = [{}]
        count = 0
        while todo:
            path = todo.pop()
            count += 1
            if count > limit or time.time() - t0 > tmax:
                return False
            n = PL.PathNorm(dict(n0.known), dict(path), n0.intdec)
            ok = None
            p = None
            if arith:
                p = PL.padd(n.poly(ch[0]), n.poly(ch[1]), -1)
                c = PL.pconst(p)
                if k == z3.Z3_OP_EQ:
                    ok = c == 0 if c is not None else (PL.is_zero(p) or None)
                elif c is not None:
                    ok = {z3.Z3_OP_LE: c <= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_GT: c > 0}[k]
            else:
                c = PL.pconst(n.ind(g))
                ok = None if c is None else c == 1
            if ok is not True:
                # the case must be impossible, or its literals must imply the goal
                dead = False
                for h in hs:
                    try:
                        if PL.pconst(n.ind(h)) == 0:
                            dead = True
                            break
                    except (PL.TooBig, ValueError):
                        pass
                if not dead and not self.leaf(n, k, p, ok):
                    return False
            seen = set()
            pref = {}
            for a in n.used:
                if a not in path and a not in seen:
                    q = dict(pref)
                    q[a] = not n.path[a]
                    todo.append(q)
                seen.add(a)
                pref[a] = n.path[a]
        return True

    def leaf(self, n, k, p, ok):
        amap = {}

        def am(a):
            r = amap.get(a)
            if r is None:
                r = amap[a] = z3.Real("a!%d" % a)
            return r
        s = z3.Solver()
        s.set("timeout", 4000)
        for a, v in n.known.items():
            ky = PL.AT.lst[a]
            if ky[0] != "ind" or PL.AT.bvs[a]:
                continue
            b = PL.to_z3(PL._pl[ky[2]], am)
            c = {"lt": b < 0, "gt": b > 0, "eq": b == 0}[ky[1]]
            s.add(c if v else z3.Not(c))
        if p is not None and ok is None:
            z = PL.to_z3(p, am)
            c = {z3.Z3_OP_EQ: z == 0, z3.Z3_OP_LE: z <= 0, z3.Z3_OP_LT: z < 0, z3.Z3_OP_GE: z >= 0, z3.Z3_OP_GT: z > 0}[k]
            s.add(z3.Not(c))
        self.atomfacts(s, amap, am)
        return s.check() == z3.unsat

    def atomfacts(self, s, amap, am):
        done = set()
        while True:
            todo = [a for a in list(amap) if a not in done]
            if not todo:
                break
            for a in todo:
                done.add(a)
                k = PL.AT.lst[a]
                x = amap[a]
                if k[0] == "inv":
                    b = PL.to_z3(PL._pl[k[1]], am)
                    s.add(z3.Implies(b != 0, b * x == 1))
                    s.add(z3.Implies(b > 0, x > 0), z3.Implies(b < 0, x < 0))
                    s.add(z3.Implies(b >= 1, x <= 1), z3.Implies(z3.And(b > 0, b <= 1), x >= 1), z3.Implies(b > 1, x < 1))
                elif k[0] == "sqrt":
                    b = PL.to_z3(PL._pl[k[1]], am)
                    s.add(z3.Implies(b >= 0, z3.And(x >= 0, x * x == b)), z3.Implies(b > 0, x > 0))
                    s.add(z3.Implies(b > 1, x > 1), z3.Implies(z3.And(b >= 0, b <= 1), x <= 1))
                elif k[0] == "pow":
                    b = PL.to_z3(PL._pl[k[1]], am)
                    s.add(z3.Implies(b > 0, x > 0))
                elif k[0] == "ind":
                    b = PL.to_z3(PL._pl[k[2]], am)
                    c = {"lt": b < 0, "gt": b > 0, "eq": b == 0}[k[1]]
                    s.add(z3.Or(z3.And(x == 1, c), z3.And(x == 0, z3.Not(c))))
                elif k[0] == "indb":
                    s.add(z3.Or(x == 0, x == 1))

    # -------------------------------------------------- refuter
    def refute(self, hyps, g, trials=None):
        trials = trials or self.trials
        syms = {}
        for h in hyps + [g]:
            consts(h, syms)
        ivars = [v for v in syms.values() if z3.is_int(v)]
        reals = [v for v in syms.values() if z3.is_real(v)]
        s = z3.Solver()
        s.set("timeout", 2000)
        for h in hyps:
            if intonly(h):
                s.add(h)
        if intonly(g):
            s.add(z3.Not(g))
        t0 = time.time()
        for tr in range(trials):
            if time.time() - t0 > 12:
                break
            rng = random.Random(tr * 7919 + 13)
            ints = {}
            s.push()
            ok = False
            for lim in (rng.choice((2, 3, 4, 5, self.small)), 12, None):
                s.push()
                if lim is not None:
                    for v in ivars:
                        s.add(v <= lim, v >= -lim)
                if s.check() == z3.sat:
                    # random choices
                    for v in rng.sample(ivars, len(ivars)):
                        x = rng.randint(0, lim if lim is not None else 8)
                        s.push()
                        s.add(v == x)
                        if s.check() != z3.sat:
                            s.pop()
                    m = s.model() if s.check() == z3.sat else None
                    if m is not None:
                        for v in ivars:
                            ints[(v.decl().name(),)] = m.eval(v, model_completion=True).as_long()
                        # values of integer functions
                        for d in m.decls():
                            if d.arity() > 0 and d.range() == z3.IntSort():
                                fi = m[d]
                                try:
                                    for row in range(fi.num_entries()):
                                        en = fi.entry(row)
                                        args = tuple(en.arg_value(q).as_long() for q in range(en.num_args()))
                                        ints[(d.name(),) + args] = en.value().as_long()
                                except (z3.Z3Exception, AttributeError):
                                    pass
                        ok = True
                    # restore solver depth
                    while s.num_scopes() > 1:
                        s.pop()
                    break
                s.pop()
            while s.num_scopes() > 0:
                s.pop()
            if not ok:
                return None if tr > 3 else None
            val = Valuation(tr, ints, {}, regime=tr % 5)
            if self.hints:
                self.hints(tr, val)
            if self.check(hyps, g, val):
                return val
            # second try: repair real scalar comparisons through the SMT solver's model
        return None

    def check(self, hyps, g, val):
        memo = {}
        try:
            self.fixeq(hyps, val)
            if not _sat(g, val, memo, False):
                return False
            for h in hyps:
                if not _sat(h, val, memo, True):
                    return False
            return True
        except EvalError:
            return False

    def fixeq(self, hyps, val):
        """make equations symbol == term true by assigning the symbol"""
        for x, y in self.equations(hyps):
            nm = x.decl().name()
            try:
                v = _ev(y, val, {})
            except EvalError:
                continue
            if z3.is_real(x):
                val.reals[(nm,)] = float(v)
            else:
                val.ints[(nm,)] = v

    # -------------------------------------------------- SMT
    def side(self, es):
        """axioms for inv, sqrt, pow, sums occurring in es"""
        ax = []
        seen = set()
        work = list(es)
        while work:
            e = work.pop()
            for x in T.walk(e, seen):
                if not z3.is_app(x) or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    continue
                d = x.decl()
                if d.eq(T.INV):
                    b = x.children()[0]
                    ax.append(z3.Implies(b != 0, b * x == 1))
                    ax.append(z3.Implies(b > 0, x > 0))
                    ax.append(z3.Implies(b < 0, x < 0))
                elif d.eq(T.SQRT):
                    b = x.children()[0]
                    ax.append(z3.Implies(b >= 0, z3.And(x >= 0, x * x == b)))
                    ax.append(z3.Implies(b > 0, x > 0))
                elif d.eq(T.POW):
                    b = x.children()[0]
                    ax.append(z3.Implies(b > 0, x > 0))
        return ax

    def smt(self, hyps, g):
        try:
            n, sub = self.mknorm(hyps)
            amap = {}
            back = {}

            def am(a):
                r = amap.get(a)
                if r is None:
                    r = z3.Real("a!%d" % a)
                    amap[a] = r
                return r
        except Exception:
            pass
        es = hyps + self.axioms + [g]
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*hyps)
        s.add(*self.axioms)
        s.add(*self.side(es))
        s.add(z3.Not(g))
        c = s.check()
        if c == z3.unsat:
            return "proved"
        if c == z3.sat:
            v = self.from_model(s.model(), hyps, g)
            if v is not None:
                return v
        # normalised version: congruence modulo rational identities
        try:
            r = self.smt_norm(hyps, g)
            if r == "proved":
                return r
            if isinstance(r, Valuation):
                return r
        except (PL.TooBig, ValueError):
            pass
        if self.use_cvc5:
            try:
                if run_cvc5(s, 10):
                    return "cvc5"
            except Exception:
                pass
        return "z3: %s" % c

    def smt_norm(self, hyps, g):
        n, sub = self.mknorm(hyps)
        n2 = PL.Norm({}, n.intdec)        # without learned literals: hypotheses stay
        amap = {}

        def am(a):
            r = amap.get(a)
            if r is None:
                r = z3.Real("a!%d" % a)
                amap[a] = r
            return r
        ax = []

        def conv(e):
            e = T.pynum(e)
            if T.ispy(e):
                return z3.BoolVal(bool(e))
            k = e.decl().kind()
            ch = e.children()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                cs = [conv(c) for c in ch]
                return z3.And(*cs) if k == z3.Z3_OP_AND else z3.Or(*cs)
            if k == z3.Z3_OP_NOT:
                return z3.Not(conv(ch[0]))
            if k == z3.Z3_OP_IMPLIES:
                return z3.Implies(conv(ch[0]), conv(ch[1]))
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
                return conv(ch[0]) == conv(ch[1])
            if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ):
                p = PL.padd(n2.poly(ch[0]), n2.poly(ch[1]), -1)
                c = PL.pconst(p)
                z = PL.to_z3(p, am)
                o = {z3.Z3_OP_LT: z < 0, z3.Z3_OP_LE: z <= 0, z3.Z3_OP_GT: z > 0, z3.Z3_OP_GE: z >= 0,
                     z3.Z3_OP_EQ: z == 0}[k]
                if z3.is_int(ch[0]) and k == z3.Z3_OP_LT:
                    o = z <= -1
                elif z3.is_int(ch[0]) and k == z3.Z3_OP_GT:
                    o = z >= 1
                return o
            if k == z3.Z3_OP_ITE:
                return z3.If(conv(ch[0]), conv(ch[1]), conv(ch[2]))
            p = n2.ind(e)
            return PL.to_z3(p, am) == 1
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for h in hyps:
            try:
                s.add(conv(sub(h)))
            except (ValueError, PL.TooBig):
                pass
        s.add(z3.Not(conv(sub(g))))
        self.atomfacts(s, amap, am)
        c = s.check()
        if c == z3.unsat:
            return "proved"
        return str(c)

    def from_model(self, m, hyps, g):
        """rebuild a valuation from an SMT model and check it by evaluation"""
        ints, reals = {}, {}

        def num(v):
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return v.numerator_as_long() / v.denominator_as_long()
            if z3.is_algebraic_value(v):
                w = v.approx(15)
                return w.numerator_as_long() / w.denominator_as_long()
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            raise ValueError
        for d in m.decls():
            if d.name() in ("inv", "sqrt", "pow"):
                continue
            try:
                if d.arity() == 0:
                    v = num(m[d])
                    if d.range() == z3.IntSort():
                        ints[(d.name(),)] = v
                    else:
                        reals[(d.name(),)] = v if isinstance(v, bool) else float(v)
                else:
                    fi = m[d]
                    for r in range(fi.num_entries()):
                        e = fi.entry(r)
                        args = tuple(num(e.arg_value(q)) for q in range(e.num_args()))
                        v = num(e.value())
                        if d.range() == z3.IntSort():
                            ints[(d.name(),) + args] = v
                        else:
                            args = tuple(round(float(a), 9) if isinstance(a, float) else a for a in args)
                            reals[(d.name(),) + args] = v if isinstance(v, bool) else float(v)
            except (ValueError, AttributeError, z3.Z3Exception):
                continue
        for reg in (0, 1, 3):
            val = Valuation(7, ints, dict(reals), regime=reg)
            if self.check(hyps, g, val):
                return val
        # only the integer part of the model, random reals
        for t in range(40):
            val = Valuation(100 + t, ints, {}, regime=t % 5)
            if self.check(hyps, g, val):
                return val
        return None


def run_cvc5(solver, secs):
    import subprocess
    import tempfile
    import os
    txt = "(set-logic ALL)\n" + solver.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (secs * 1000), fn], capture_output=True, text=True, timeout=secs + 5)
        return p.stdout.strip().startswith("unsat")
    except Exception:
        return False
    finally:
        os.unlink(fn)
