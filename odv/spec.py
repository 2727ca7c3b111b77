"""Helpers to write function contracts for code of /repo.

A Unit is one translation unit (harness instantiating the templates); a
Session is one run of the verifier on one function: state set-up
(precondition), execution, and the obligations of the postcondition."""
import gc
import multiprocessing as mp
import multiprocessing.connection as conn
import os
import signal
import sys
import time
import z3
from fractions import Fraction
from . import terms as T
from .terms import R, I, B, land, lor, lnot, ite, cmp, add, sub, mul, neg
from .mem import *
from . import ast as A
from .exec import Exec, State, Frame, Event, LoopEvents, Lam, qt, merge_all, strip_cv
from .solve import Prover, Result
from . import loops as L

N_ = z3.Int("n")


class Missing(Exception):
    """a function or class the contract is about is not there (renamed...)"""


def method(ast, cls, name, ptypes=None, nparams=None, const=None):
    """method of an instantiated class by name (and parameter types)"""
    out = []
    for m in cls.get("inner", ()):
        ms = [m]
        if m.get("kind") == "FunctionTemplateDecl":
            ms = [x for x in m.get("inner", ()) if x.get("kind") in ("CXXMethodDecl", "CXXConstructorDecl") and not x.get("_pattern")]
        for x in ms:
            if x.get("kind") not in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") or x.get("name") != name:
                continue
            d = ast.fdef(x["id"])
            if d is None:
                continue
            ps = A.params(d)
            if nparams is not None and len(ps) != nparams:
                continue
            if ptypes is not None:
                ts = [strip_cv(qt(p)).replace("odes::", "") for p in ps]
                if len(ts) != len(ptypes) or not all(w in t for w, t in zip(ptypes, ts)):
                    continue
            if const is not None and (x["type"]["qualType"].rstrip().endswith("const")) != const:
                continue
            out.append(d)
    if not out:
        raise Missing("%s::%s" % (cls.get("name"), name))
    return out[0]


def function(ast, name, nparams=None):
    """(instantiated) namespace-level function with a body"""
    out = []
    for n in ast.byid.values():
        if n.get("kind") == "FunctionDecl" and n.get("name") == name and not n.get("_pattern"):
            d = ast.fdef(n["id"])
            if d is not None and not d.get("_pattern") and (nparams is None or len(A.params(d)) == nparams):
                out.append(d)
    if not out:
        raise Missing("function " + name)
    return out[0]


def allmethods(ast, cls, name):
    out = []
    for m in cls.get("inner", ()):
        if m.get("kind") == "CXXMethodDecl" and m.get("name") == name:
            d = ast.fdef(m["id"])
            if d is not None:
                out.append(d)
    return out


class Session:
    """one verification run"""

    def __init__(self, ast, n=None, nmap=None, facts=(), **kw):
        self.ast = ast
        self.n = N_ if n is None else n
        nm = {}
        if nmap is None:
            nm = {1009: self.n, 1008: sub(self.n, 1), 2018: mul(2, self.n), 1009 * 1009: mul(self.n, self.n)} if n is None else {}
        else:
            nm = nmap
        f = [N_ >= 1] if n is None else []
        self.ex = Exec(ast, nmap=nm, facts=f + list(facts), **kw)
        self.st = State()
        self.goals = []      # (pc, goal, name)

    # ---------------------------------------------------------- set-up
    def cls(self, name, pred=None):
        cs = self.ast.find_class(name, pred)
        if not cs:
            raise Missing("class " + name)
        return cs[0]

    def array(self, name, size=None, kind="real", dims=1, align=True):
        """region holding arbitrary input values"""
        sort = z3.RealSort() if kind == "real" else z3.IntSort()
        f = T.freshfun("in_" + name, dims, kind)
        rid = self.ex.new_region(self.st, name, size, kind, origin="param", dims=dims, content=Base(f, kind), align=align)
        return rid, f

    def obj(self, cls, name):
        return self.ex.new_obj(self.st, cls, name)

    def field(self, oid, name):
        return self.ex.objs[oid].n[name]

    def setf(self, oid, name, v):
        self.ex.assign(self.st, self.field(oid, name), v)

    def getf(self, oid, name, st=None):
        return self.ex.load(st or self.st, self.field(oid, name))

    def real(self, name):
        return T.fresh(name, "real")

    def int(self, name):
        return T.fresh(name, "int")

    def read(self, rid, *key, st=None):
        st = st or self.st
        return self.ex.content(st, rid).read(tuple(key), self.ex.decider(st))

    def readp(self, p, k, st=None):
        """element k of the array pointer p designates"""
        st = st or self.st
        out = None
        for c, r, o in reversed(p.alts):
            if r is None or r == "undef":
                continue
            v = self.ex.content(st, r).read((add(o, k),), self.ex.decider(st))
            out = v if out is None else vmerge(c, v, out)
        return out

    # ---------------------------------------------------------- run
    def ctor(self, oid, *argv, nparams=None):
        """run the constructor of the object's class taking these arguments"""
        cls = self.ex.objs[oid].cls
        cs = []
        for m in cls.get("inner", ()):
            if m.get("kind") == "CXXConstructorDecl" and not m.get("isImplicit"):
                d = self.ast.fdef(m["id"])
                if d is not None and len(A.params(d)) == len(argv):
                    cs.append(d)
        if not cs:
            raise Missing("constructor of %s" % cls.get("name"))
        self.ex.inlined["%s ctor" % cls.get("name")] = self.ex.inlined.get("%s ctor" % cls.get("name"), 0) + 1
        self.ex.construct_with(self.st, oid, cs[0], list(argv))

    def run(self, fn, this, *argv):
        return self.ex.run_fn(self.st, fn, this, list(argv))

    def goal(self, g, name, pc=None, kind="post"):
        self.goals.append(dict(pc=self.st.pc if pc is None else pc, goal=B(T.pynum(g)) if T.ispy(T.pynum(g)) else g, name=name, kind=kind))

    def forall(self, lo, hi, f, name, st=None, hint="k"):
        """for all lo <= k < hi : f(k), with k arbitrary"""
        st = st or self.st
        k = T.fresh(hint, "int")
        s2 = st.clone()
        s2.assume(cmp(">=", k, lo))
        s2.assume(cmp("<", k, hi))
        if s2.dead:
            return
        g = f(k, s2)
        self.goals.append(dict(pc=s2.pc, goal=B(g) if T.ispy(g) else g, name=name, kind="post"))

    def unchanged(self, rid, before, name=None, st=None):
        """frame: region contents equal those in state `before`"""
        st = st or self.st
        rg = self.ex.regions[rid]
        if st.reg.get(rid) is before.reg.get(rid):
            self.goals.append(dict(pc=(), goal=z3.BoolVal(True), name="frame: %s unchanged" % (name or rg.name), kind="frame"))
            return
        ks = tuple(T.fresh("fr", "int") for _ in range(rg.dims))
        s2 = st.clone()
        lo = 0 if rg.dims == 1 else 1
        for k, sz in zip(ks, [rg.size] if rg.dims == 1 else rg.size):
            s2.assume(cmp(">=", k, lo))
            if sz is not None:
                s2.assume(cmp("<", k, add(sz, lo)))
        dec = self.ex.decider(s2)
        a = self.ex.content(s2, rid).read(ks, dec)
        b = self.ex.content(before, rid).read(ks, dec)
        self.goals.append(dict(pc=s2.pc, goal=B(cmp("==", a, b)), name="frame: %s unchanged" % (name or rg.name), kind="frame"))


def explore(make, limit=64):
    """path mode: run make(paths) for every combination of the case
    distinctions met; make returns a Session"""
    out = []
    todo = [{}]
    seen = set()
    while todo:
        p = todo.pop()
        key = tuple(sorted((str(k), v) for k, v in p.items()))
        if key in seen:
            continue
        seen.add(key)
        q = dict(p)
        s = make(q)
        out.append(s)
        use = s.ex.pathuse
        pref = {}
        for k in use:
            if k not in p:
                alt = dict(pref)
                alt[k] = not q[k]
                todo.append(alt)
            pref[k] = q[k]
        if len(out) > limit:
            raise Unsupported("too many paths")
    return out


def plain(r):
    """a result without solver objects (to cross a process boundary)"""
    w = r.witness
    d = r.detail
    if w is not None and not isinstance(w, str):
        out = {}
        for src in (w.ints, w.reals, w.log):
            for k, v in src.items():
                out["%s(%s)" % (k[0], ",".join(str(x) for x in k[1:])) if len(k) > 1 else str(k[0])] = str(v)
        d = "; ".join("%s=%s" % kv for kv in list(out.items())[:60]) + (" " + str(d) if d else "")
    return Result(r.status, r.backend, r.time, detail=d)


class Outcome:
    def __init__(self):
        self.proved, self.refuted, self.unknown, self.unsupported = [], [], [], []
        self.time = 0.0
        self.backends = {}
        self.functions = {}
        self.nbound = 0
        self.samples = []
        self.assumed = set()

    def note(self, name, r, fn, goal=None):
        self.time += r.time
        if r.status == "proved":
            self.proved.append(name)
            self.backends[r.backend] = self.backends.get(r.backend, 0) + 1
        elif r.status == "refuted":
            self.refuted.append((name, r, fn, goal))
        else:
            self.unknown.append((name, r, fn, goal))


class GoalTime(Exception):
    pass


GOALTIME = 150


def timed(pr, pc, goal):
    """prove with a time limit: past it the obligation stays open (never an alarm)"""
    hit = []

    def stop(*a):
        hit.append(1)
        signal.alarm(1)
        raise GoalTime()
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(GOALTIME)
    try:
        r = pr.prove(pc, goal)
        signal.alarm(0)
    except Exception:
        signal.alarm(0)
        if not hit:
            raise
        r = None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if hit and (r is None or r.status != "proved"):
        return Result("unknown", "none", time.time() - t0, detail="time limit")
    return r


def forked(k, n, fn):
    """fn(0..n-1) shared out among k forked processes"""
    counter = mp.Value("i", 0)
    live = {}
    gc.collect()
    gc.freeze()
    for w in range(min(k, n)):
        r, wr = mp.Pipe(False)

        def work(wr=wr):
            while True:
                with counter.get_lock():
                    i = counter.value
                    counter.value += 1
                if i >= n:
                    break
                try:
                    res = plain(fn(i))
                except Exception as e:      # noqa
                    res = Result("unknown", "none", 0.0, detail="engine: %s" % e)
                wr.send((i, res))
            wr.close()
            sys.stdout.flush()
            os._exit(0)
        p = mp.Process(target=work)
        p.start()
        wr.close()
        live[r] = p
    while live:
        for r in conn.wait(list(live)):
            try:
                yield r.recv()
            except EOFError:
                live.pop(r).join()


class Verdict:
    """collects the outcome of all contracts of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.out = Outcome()
        self.t0 = time.time()
        self.contracts = []
        self.bounded = []
        self.debug = False
        self.only = None
        self.tier = "quick"
        self.jobs = None
        self.recorded = 0

    def contract(self, label, fn, *a, **kw):
        """run one contract function; it returns a Session (or list) to discharge"""
        if self.only and not any(o in label for o in self.only):
            return
        if self.jobs is not None:
            self.jobs.append((label, fn, a, kw))
            return
        self.contract_now(label, fn, *a, **kw)

    def flush(self, workers=None):
        """run the queued contracts in forked worker processes"""
        jobs, self.jobs = self.jobs or [], None
        if not jobs:
            return
        workers = min(workers or max(1, min(8, (os.cpu_count() or 2))), len(jobs))
        if workers <= 1:
            for label, fn, a, kw in jobs:
                self.contract_now(label, fn, *a, **kw)
            return
        gc.collect()
        gc.freeze()
        order = list(range(len(jobs)))
        counter = mp.Value("i", 0)
        pipes = []
        for w in range(workers):
            r, wr = mp.Pipe(False)
            p = mp.Process(target=self._worker, args=(jobs, counter, wr))
            p.start()
            wr.close()
            pipes.append((p, r))
        done = {}
        live = {r: p for p, r in pipes}
        while live:
            for r in conn.wait(list(live)):
                try:
                    k, res = r.recv()
                    if k == "start":
                        done.setdefault(res, None)
                    else:
                        done[k] = res
                except EOFError:
                    p = live.pop(r)
                    p.join()
        for i, (label, fn, a, kw) in enumerate(jobs):
            res = done.get(i)
            if res is None:
                self.out.unsupported.append((label, "engine: worker process ended"))
                continue
            self.merge(res)

    def _worker(self, jobs, counter, wr):
        while True:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(jobs):
                break
            label, fn, a, kw = jobs[i]
            wr.send(("start", i))
            self.out = Outcome()
            self.contracts, self.bounded = [], []
            self.contract_now(label, fn, *a, **kw)
            o = self.out
            wr.send((i, dict(proved=o.proved, refuted=[(n, plain(r), f, str(g)[:3000] if g is not None else None) for n, r, f, g in o.refuted],
                             unknown=[(n, plain(r), f, str(g)[:3000] if g is not None else None) for n, r, f, g in o.unknown],
                             unsupported=o.unsupported, time=o.time, backends=o.backends, functions=o.functions, nbound=o.nbound,
                             assumed=sorted(o.assumed), contracts=self.contracts, bounded=self.bounded)))
        wr.close()
        sys.stdout.flush()
        os._exit(0)

    def merge(self, d):
        o = self.out
        o.proved += d["proved"]
        o.refuted += d["refuted"]
        o.unknown += d["unknown"]
        o.unsupported += d["unsupported"]
        o.time += d["time"]
        o.nbound += d["nbound"]
        o.assumed |= set(d["assumed"])
        for k, v in d["backends"].items():
            o.backends[k] = o.backends.get(k, 0) + v
        for k, v in d["functions"].items():
            o.functions[k] = o.functions.get(k, 0) + v
        self.contracts += d["contracts"]
        self.bounded += d["bounded"]

    def contract_now(self, label, fn, *a, **kw):
        t0 = time.time()
        o = self.out
        self.recorded = 0
        try:
            ss = fn(*a, **kw)
            if ss is None:
                ss = []
            if isinstance(ss, Session):
                ss = [ss]
            cnt = 0
            before = (len(o.refuted), len(o.unknown))
            for s in ss:
                cnt += self.discharge(label, s)
            cnt += self.recorded
            self.recorded = 0
            if cnt == 0:
                o.unsupported.append((label, "no obligation generated"))
            self.contracts.append(dict(contract=label, obligations=cnt, seconds=round(time.time() - t0, 2),
                                       open=len(o.unknown) - before[1], failed=len(o.refuted) - before[0]))
            if self.debug:
                print("%-60s %4d obligations %6.2fs refuted %d unknown %d" % (label, cnt, time.time() - t0, len(o.refuted) - before[0], len(o.unknown) - before[1]))
                for nm, r, f, g in o.refuted[before[0]:]:
                    print("   REFUTED", nm, f, r)
                    if g is not None:
                        print("      ", str(g)[:600].replace("\n", " "))
                for nm, r, f, g in o.unknown[before[1]:]:
                    print("   UNKNOWN", nm, f, r)
                    if g is not None:
                        print("      ", str(g)[:600].replace("\n", " "))
        except (Unsupported, Missing, L.NoSummary) as e:
            o.unsupported.append((label, "%s: %s" % (type(e).__name__, e)))
            if self.debug:
                import traceback
                traceback.print_exc()
        except (NameError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError, z3.Z3Exception, NotImplementedError) as e:
            # an engine limitation is never reported as a violation
            import traceback
            o.unsupported.append((label, "engine: %s: %s" % (type(e).__name__, e)))
            if self.debug:
                traceback.print_exc()

    def discharge(self, label, s, prover=None):
        o = self.out
        pr = getattr(s, "prover", None) or Prover(s.ex, hints=getattr(s, "hints", None))
        pr.splits = getattr(s, "splits", False)
        cnt = 0
        kinds = getattr(s, "kinds", None)
        skip = getattr(s, "skipkinds", ())
        items = [("%s: %s [%s]" % (label, ob["name"], ob["fn"]), ob["pc"], ob["goal"], "soft" if ob["kind"] == "cut" else False)
                 for ob in s.ex.obls if (kinds is None or ob["kind"] in kinds) and ob["kind"] not in skip]
        items += [("%s: %s" % (label, g["name"]), g["pc"], z3.BoolVal(bool(g["goal"])) if T.ispy(g["goal"]) else g["goal"], g.get("strong")) for g in s.goals]

        def one(it):
            nm, pc, goal, strong = it
            r = timed(pr, pc, goal)
            if r.status == "refuted" and strong == "soft":
                # an intermediate fact that is no part of the property: without it the proof is open
                r = Result("unknown", "none", r.time, detail="intermediate fact not provable")
            if r.status == "refuted" and s.ex.weak and not strong:
                r = Result("unknown", "none", r.time, detail="not provable: " + s.ex.weak)
            return r
        par = getattr(s, "par", 1)
        res = {}
        if par > 1 and len(items) > 1:
            for i, r in forked(par, len(items), lambda i: one(items[i])):
                res[i] = r
        for i, it in enumerate(items):
            r = (res[i] if i in res else Result("unknown", "none", 0.0, detail="prover process ended")) if par > 1 and len(items) > 1 else one(it)
            o.note(it[0], r, label, it[2])
            cnt += 1
        o.nbound += s.ex.nbound
        cnt += s.ex.nbound
        for k, v in s.ex.inlined.items():
            o.functions[k] = o.functions.get(k, 0) + v
        return cnt

    def record(self, label, name, ok, backend="odv-normal-form", t=0.0, witness=None, detail=""):
        self.recorded += 1
        st = "proved" if ok is True else "refuted" if ok is False else "unknown"
        self.out.note("%s: %s" % (label, name), Result(st, backend, t, witness, detail), label)
