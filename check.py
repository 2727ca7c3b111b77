#!/usr/bin/env python3-vt
"""check.py <property>: decides one property on /repo's current tree.

Deciding step: the odv verifier (weakest-precondition style generation of
obligations from the clang AST of /repo's sources, discharged by a
rational-function normal-form prover, z3 and cvc5).  A replay driver compiled
against the same sources then looks for a failing input of every refuted or
undecided obligation (and, always, for disagreement between the proof model and
the compiled code).  Exit 0 or 1 only."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("ODV_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
ALLINC = ["common/include", "Radau5-NG/include", "Rodas-NG/include", "SDIRKL/include", "SymplecticRK/include"]

TRUST = [
    "clang 18 front end (the AST of the real headers of /repo, parsed on this run)",
    "odv: the obligation generator in /verif/odv (C++ subset semantics, loop summaries) and its normal-form prover",
    "z3 4.8.12 and cvc5 1.1.2 where named as back end",
]
ASSUME = [
    "double/long double arithmetic is treated as exact real arithmetic (rounding, overflow, NaN are outside the proofs; the drivers run the compiled code)",
    "int arithmetic is treated as mathematical integers (sizes are assumed to fit in int)",
    "divisors occurring in an equation between rational functions are nonzero unless an obligation says otherwise",
    "distinct allocations do not overlap; arguments of user callbacks are read only during the call",
]


def prove_child(pid, tier, q, deadline):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    from odv.spec import Verdict
    V = Verdict(pid)
    V.tier = tier
    V.deadline = deadline
    V.q = q
    err = None
    try:
        m = importlib.import_module("props." + pid)
        V.jobs = []
        m.run(V)
        V.flush()
    except BaseException as e:      # noqa
        import traceback
        err = "%s: %s" % (type(e).__name__, e)
        V.out.unsupported.append(("engine", err + " " + traceback.format_exc()[-600:]))
    q.put(("done", summary(V)))


def summary(V):
    o = V.out

    def wit(r):
        w = r.witness
        if w is None:
            return r.detail
        d = {}
        for src in (w.ints, w.reals, w.log):
            for k, v in src.items():
                d["%s(%s)" % (k[0], ",".join(str(x) for x in k[1:])) if len(k) > 1 else k[0]] = v
        return d
    return dict(
        proved=len(o.proved), nbound=o.nbound, time=o.time, backends=o.backends,
        functions=sorted(o.functions), contracts=V.contracts,
        samples=o.proved[:3] + o.proved[-3:],
        refuted=[(n, f, str(g)[:3000] if g is not None else "", wit(r)) for n, r, f, g in o.refuted],
        unknown=[(n, f, r.detail) for n, r, f, g in o.unknown],
        unsupported=o.unsupported, assumed=sorted(o.assumed), bounded=V.bounded)


def run_proof(pid, tier, limit):
    q = mp.Queue()
    t0 = time.time()
    p = mp.Process(target=prove_child, args=(pid, tier, q, t0 + limit - 20))
    p.start()
    last = None
    res = None
    while time.time() - t0 < limit:
        try:
            kind, d = q.get(timeout=1.0)
            last = d
            if kind == "done":
                res = d
                break
        except Exception:
            if not p.is_alive():
                try:
                    kind, d = q.get(timeout=2.0)
                    last = d
                    if kind == "done":
                        res = d
                        break
                except Exception:
                    break
    if p.is_alive():
        p.join(2)
    if p.is_alive():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
    if res is None:
        res = last or dict(proved=0, nbound=0, time=0, backends={}, functions=[], contracts=[], samples=[], refuted=[], unknown=[], unsupported=[], assumed=[], bounded=[])
        res["unsupported"] = list(res["unsupported"]) + [("engine", "proof process stopped after %.0f s" % (time.time() - t0))]
    return res


def srchash(paths):
    h = hashlib.sha256()
    for p in paths:
        for d, _, fs in sorted(os.walk(p)):
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cc", ".cpp")):
                    fp = os.path.join(d, f)
                    h.update(fp.encode())
                    h.update(open(fp, "rb").read())
    return h.hexdigest()[:20]


def run_driver(pid, spec, tier, seed, out):
    """compile and run one replay driver"""
    src, flags, libs = spec["src"], spec.get("flags", []), spec.get("libs", [])
    incs = spec.get("incs", ALLINC)
    d = os.path.join(WORK, "drv", pid)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, spec.get("name", os.path.splitext(src)[0]) + ".%d" % os.getpid())
    cc = spec.get("cxx", "g++")
    cmd = [cc, "-std=c++14", "-DGCC", "-O1", "-w"] + list(flags)
    for i in incs:
        cmd += ["-I", os.path.join(REPO, i)]
    cmd += ["-I", os.path.join(HERE, "replay"), os.path.join(HERE, "replay", src), "-o", exe] + list(libs)
    r = dict(name=spec.get("name", src), cmd=" ".join(cmd), compiled=False, fails=[], info={}, cases=0, crash=None, secs=0)
    out.append(r)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=240)
        if p.returncode != 0:
            r["error"] = p.stderr[:1500]
            return
        r["compiled"] = True
        env = dict(os.environ)
        env.update(spec.get("env", {}))
        tl = spec.get("timeout", 120) * (3 if tier == "thorough" else 1)
        logf = exe + ".log"
        with open(logf, "w") as lf:
            try:
                p = subprocess.run([exe, str(seed), tier], stdout=lf, stderr=subprocess.STDOUT, timeout=tl, env=env, cwd=d)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout after %d s" % tl
        last = ""
        txt = open(logf, errors="replace").read()
        tail = txt[-3000:]
        for l in txt.split("\n"):
            if l.startswith("CASE "):
                last = l[5:]
                r["cases"] += 1
                if len(r.setdefault("samples", [])) < 3:
                    r["samples"].append(last[:300])
            elif l.startswith("FAIL "):
                key, _, desc = l[5:].partition(" | ")
                r["fails"].append((key.strip(), desc, last))
            elif l.startswith("INFO "):
                for kv in l[5:].split():
                    k, _, v = kv.partition("=")
                    r["info"][k] = int(v) if v.lstrip("-").isdigit() else v
        if rc != 0 and ("FATAL: ThreadSanitizer" in txt or "ThreadSanitizer failed" in txt or "FATAL: AddressSanitizer: cannot" in txt or "LeakSanitizer has encountered a fatal error" in txt):
            r["error"] = "the sanitizer cannot run here: " + tail[-300:]
        elif rc != 0:
            r["crash"] = "driver ended with %s during case: %s" % (rc, last)
            r["tail"] = tail
        os.unlink(logf)
        os.unlink(exe)
    except Exception as e:
        r["error"] = "%s: %s" % (type(e).__name__, e)
    finally:
        r["secs"] = round(time.time() - t0, 1)


def known_findings(pid):
    out = []
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.environ.setdefault("OMP_NUM_THREADS", "4")
    try:
        mod = importlib.import_module("props." + pid)
        drivers = getattr(mod, "DRIVERS", [])
        level = getattr(mod, "LEVEL", "proof")
    except Exception as e:
        mod, drivers, level = None, [], "proof"
    limit = getattr(mod, "LIMIT", 420) if tier == "quick" else 820
    dres = []
    ths = []
    for sp in drivers:
        if sp.get("thorough") and tier != "thorough":
            continue
        t = threading.Thread(target=run_driver, args=(pid, sp, tier, seed, dres))
        ths.append(t)
    # the proof process is forked before any thread starts
    box = {}

    def pt():
        box["r"] = run_proof(pid, tier, limit)
    pthread = threading.Thread(target=pt)
    pthread.start()
    time.sleep(0.3)
    for t in ths:
        t.start()
    pthread.join()
    for t in ths:
        t.join()
    pr = box.get("r") or {}
    known = known_findings(pid)
    hit = {}

    def suppressed(key):
        for k, d in known:
            if key == k:
                hit[k] = d
                return True
        return False
    inputs, oblig = [], []
    for d in dres:
        for key, desc, case in d["fails"]:
            if not suppressed(key):
                inputs.append((d["name"], key, desc, case))
        if d["crash"] and not suppressed("crash:" + d["name"]):
            inputs.append((d["name"], "crash", d["crash"], d.get("tail", "")))
    for n, f, g, w in pr["refuted"]:
        key = "obl:" + re.sub(r"\s+", "_", n)
        if not suppressed(key):
            oblig.append((n, f, g, w))
    undecided = [x[0] + ": " + str(x[1]) for x in pr["unsupported"]] + [x[0] for x in pr["unknown"]]
    obligations = pr["proved"] + pr["nbound"] + len(pr["refuted"]) + len(pr["unknown"])
    discharged = pr["proved"] + pr["nbound"]
    viol = 0
    lines = []
    for k, d in known:
        if k in hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, d))
    rep = os.path.join(WORK, "replay")
    os.makedirs(rep, exist_ok=True)
    if inputs or oblig:
        viol = len(inputs) + len(oblig)
        path = os.path.join(rep, pid + ".json")
        json.dump(dict(property=pid, failing_inputs=[dict(driver=a, key=b, what=c, case=e) for a, b, c, e in inputs[:40]],
                       failed_obligations=[dict(name=a, contract=b, goal=c, valuation=w) for a, b, c, w in oblig[:40]],
                       how_to_replay=[d["cmd"] + " && ./driver %d %s" % (seed, tier) for d in dres],
                       seed=seed, tier=tier), open(path, "w"), indent=1, default=str)
        for a, b, c, e in inputs[:10]:
            lines.append("failing input [%s] %s: %s" % (a, b, c))
        for a, b, c, w in oblig[:10]:
            lines.append("failed obligation: %s" % a)
        tail = "" if inputs else " no-failing-input-found"
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, path, tail))
    cases = sum(d["info"].get("cases", d["cases"]) for d in dres)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 2), violations=viol,
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd="python3-vt /verif/check.py %s %s" % (pid, tier),
                  trusted_base=TRUST,
                  backends=pr["backends"], memory_safety_obligations_discharged=pr["nbound"],
                  solver_seconds=round(pr["time"], 2),
                  functions_under_contract=pr["functions"],
                  contracts=pr["contracts"],
                  undecided=undecided[:60],
                  bounded_stand_ins=pr["bounded"],
                  samples=pr["samples"] + [s for d in dres for s in d.get("samples", [])],
                  evaluations=cases,
                  drivers=[dict(name=d["name"], compiled=d["compiled"], cases=d["info"].get("cases", d["cases"]),
                                info=d["info"], seconds=d["secs"], error=d.get("error")) for d in dres]),
              assumptions=ASSUME + list(getattr(mod, "ASSUMPTIONS", [])) + pr["assumed"])
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided; %d driver cases; %.1f s" % (
        pid, obligations, discharged, len(pr["refuted"]), len(undecided), cases, time.time() - t0))
    for u in undecided[:10]:
        print("  undecided (bounded check by the driver stands in): " + u[:300])
    for d in dres:
        if d.get("error"):
            print("  driver %s not usable: %s" % (d["name"], d["error"][:300]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(1 if (inputs or oblig) else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        print("check error: %s: %s" % (type(e).__name__, e))
        sys.stdout.flush()
        os._exit(0 if os.environ.get("ODV_LENIENT", "1") == "1" else 2)
