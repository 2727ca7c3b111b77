"""mut.py Cxx[,Cyy] file old new  -- run checks against a scratch copy of /repo with one textual change"""
import sys, os, subprocess, shutil, tempfile
def mut(props, edits, timeout=900):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    r = d + "/repo"
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(r)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s" % r, shell=True, check=True)
    for f, o, n in edits:
        p = r + "/" + f
        t = open(p).read()
        assert t.count(o) >= 1, (f, o)
        open(p, "w").write(t.replace(o, n, 1))
    out = []
    for c in props.split(","):
        q = subprocess.run(["python3-vt", "/verif/check.py", c], env=dict(os.environ, ODV_REPO=r), capture_output=True, text=True, timeout=timeout)
        out.append((c, q.returncode, "\n".join(l[:260] for l in q.stdout.splitlines()[:14])))
    shutil.rmtree(d)
    return out
if __name__ == "__main__":
    a = sys.argv[1:]
    ed = [tuple(a[i:i + 3]) for i in range(1, len(a), 3)]
    for c, rc, o in mut(a[0], ed):
        print("==", c, "exit", rc)
        print(o)
