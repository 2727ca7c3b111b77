import sys, importlib
sys.path.insert(0, "/verif")
from odv.spec import Verdict
pid = sys.argv[1]
V = Verdict(pid); V.debug = True
V.only = sys.argv[2:] or None
import os
if os.environ.get("J"): V.jobs = []
importlib.import_module("props." + pid).run(V)
V.flush()
o = V.out
print("proved %d bound %d refuted %d unknown %d unsupported %d  time %.1f backends %s" % (len(o.proved), o.nbound, len(o.refuted), len(o.unknown), len(o.unsupported), o.time, o.backends))
for u in o.unsupported: print("  UNSUPPORTED", u)
