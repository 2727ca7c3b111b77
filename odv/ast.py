"""Front end: runs clang on a harness translation unit that instantiates the
library templates of /repo, and indexes the JSON AST clang prints.

The verified text is exactly what clang parsed from /repo's headers on this
run: nothing is copied or rewritten by hand.
"""
import json, os, re, subprocess, hashlib

CLANG = "/usr/bin/clang++"
REPO = os.environ.get("ODV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ["common/include", "Radau5-NG/include", "Rodas-NG/include",
       "SDIRKL/include", "SymplecticRK/include"]


class FrontError(Exception):
    pass


class AST:
    def __init__(self, src, incs=None, flags=(), filt="odes", text=None):
        """src: harness file under /verif/harness (or text given)."""
        incs = INC if incs is None else incs
        cmd = [CLANG, "-std=c++14", "-DGCC", "-fsyntax-only", "-w",
               "-ferror-limit=3", *flags]
        for i in incs:
            cmd += ["-I", i if i.startswith("/") else os.path.join(REPO, i)]
        cmd += ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt]
        cmd += [src]
        self.cmd = cmd
        self.incs = [i if i.startswith("/") else os.path.join(REPO, i) for i in incs]
        self.extra = {}
        roots = self.dump(cmd)
        self.roots = roots
        self._omp(cmd, roots)
        self.byid = {}
        self.parent = {}       # decl id -> enclosing record/namespace decl
        self.classes = {}      # record id -> node
        self.defs = {}         # canonical function id -> node with body
        self._file = None
        for r in roots:
            self._index(r, None)
        # link redeclarations: previousDecl chains
        for n in list(self.byid.values()):
            pd = n.get("previousDecl")
            if pd and self.body(n) is not None:
                self.defs.setdefault(pd, n)

    @staticmethod
    def _omp(cmd, roots):
        """attach the text of its pragma to every OpenMP directive (the JSON dump
        does not name the clauses; clang's AST printer does, in the same order)"""
        ds = []

        def walk(n):
            if isinstance(n, dict):
                if n.get("kind", "").startswith("OMP") and n["kind"].endswith("Directive"):
                    ds.append(n)
                for c in n.get("inner", ()):
                    walk(c)
        for r in roots:
            walk(r)
        if not ds:
            return
        pc = ["-ast-print" if c == "-ast-dump=json" else c for c in cmd]
        p = subprocess.run(pc, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
        ls = [l.strip() for l in p.stdout.split("\n") if l.strip().startswith("#pragma omp")]
        for i, d in enumerate(ds):
            d["_pragma"] = ls[i] if len(ls) == len(ds) else None

    @staticmethod
    def dump(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=300)
        if p.returncode != 0:
            raise FrontError("clang: " + p.stderr[:2000])
        s = p.stdout
        d = json.JSONDecoder()
        i = 0
        roots = []
        ws = re.compile(r"\s*")
        while True:
            i = ws.match(s, i).end()
            if i >= len(s):
                break
            if s[i] != "{":
                # "Dumping xxx:" line
                j = s.index("\n", i)
                i = j + 1
                continue
            o, i = d.raw_decode(s, i)
            roots.append(o)
        return roots

    def more(self, name):
        """declarations called `name` outside the first dump (global tables,
        free helper functions of /repo headers); ids are renamed apart"""
        if name in self.extra:
            return self.extra[name]
        out = []
        self.extra[name] = out
        pat = re.compile(r"\b%s\b" % re.escape(name))
        if not any(pat.search(open(os.path.join(d, f), errors="replace").read())
                   for d in self.incs if os.path.isdir(d)
                   for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))):
            return out
        cmd = [("-ast-dump-filter=" + name) if c.startswith("-ast-dump-filter=") else c for c in self.cmd]
        pre = "x%d:" % len(self.extra)

        def ren(n):
            if isinstance(n, dict):
                for k, v in n.items():
                    if k in ("id", "previousDecl", "parentDeclContextId", "referencedMemberDecl") and isinstance(v, str):
                        n[k] = pre + v
                    else:
                        ren(v)
            elif isinstance(n, list):
                for v in n:
                    ren(v)
        for r in self.dump(cmd):
            if r.get("name") != name or r.get("kind") not in ("VarDecl", "FunctionDecl"):
                continue
            ren(r)
            self._index(r, None)
            out.append(r)
        return out

    def resolve_global(self, name, i):
        for r in self.more(name):
            if r["kind"] == "VarDecl" and r.get("inner"):
                return r
        return None

    def resolve_fn(self, name, ftype):
        fs = [r for r in self.more(name) if r["kind"] == "FunctionDecl" and self.body(r) is not None]
        same = [r for r in fs if r["type"]["qualType"] == ftype]
        return (same or fs)[0] if same or len(fs) == 1 else None

    def _index(self, n, par):
        k = n.get("kind", "")
        i = n.get("id")
        if i is not None and ("Decl" in k):
            old = self.byid.get(i)
            if old is None or (self.body(old) is None and self.body(n) is not None) \
               or ("inner" in n and "inner" not in old):
                self.byid[i] = n
                if par is not None:
                    self.parent[i] = par
            if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and "inner" in n:
                self.classes[i] = n
                par = n
            elif k == "NamespaceDecl":
                par = n
        first = True
        for c in n.get("inner", ()):
            if isinstance(c, dict):
                if k == "ClassTemplateDecl" and c.get("kind") == "CXXRecordDecl":
                    c["_pattern"] = True
                if k == "FunctionTemplateDecl" and c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl") and first:
                    c["_pattern"] = True
                    first = False
                if n.get("_pattern"):
                    c["_pattern"] = True
                self._index(c, par)

    @staticmethod
    def body(n):
        for c in n.get("inner", ()):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                return c
        return None

    def fdef(self, i):
        n = self.byid.get(i)
        if n is None:
            return None
        if self.body(n) is not None:
            return n
        return self.defs.get(i)

    def class_of(self, fid):
        n = self.byid.get(fid)
        p = self.parent.get(fid)
        if (p is None or p.get("kind") == "NamespaceDecl") and n is not None and n.get("parentDeclContextId"):
            p = self.byid.get(n["parentDeclContextId"])
        return p

    def qual(self, c):
        return c.get("name")

    def find_class(self, name, pred=None):
        """instantiated classes (or plain classes) with this name that have a definition"""
        out = []
        for c in self.classes.values():
            if c.get("name") != name:
                continue
            if c["kind"] == "CXXRecordDecl":
                # skip template patterns: parent ClassTemplateDecl
                if c.get("_pattern"):
                    continue
            out.append(c)
        return [c for c in out if pred is None or pred(c)]

    def targs(self, c):
        out = []
        for x in c.get("inner", ()):
            if x.get("kind") == "TemplateArgument":
                out.append(x.get("value", (x.get("type") or {}).get("qualType")))
        return out


def params(fn):
    return [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
