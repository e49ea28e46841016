"""Self-test: every run gives the same trace in a fresh process as in the middle of a batch."""
import os, subprocess, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as C
n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
bins = B.build(list(B.VARIANTS)); env = dict(os.environ, SIM_TRACE="1")
def traces(v, p, start, count):
    o = subprocess.run([bins[v], "run", p, "1", str(start), "1", str(count), "0", ""], stdout=subprocess.PIPE, text=True, env=env).stdout
    return {int(l.split()[1]): l.split()[2] for l in o.splitlines() if l.startswith("TRACE ")}
bad = 0
for p in C.PLAN:
    for v in ("A", "B", "C"):
        batch = traces(v, p, 0, n)
        with cf.ThreadPoolExecutor(8) as ex: single = list(ex.map(lambda k: traces(v, p, k, 1).get(k), range(n)))
        d = [k for k in range(n) if batch.get(k) != single[k]]
        bad += len(d)
        if d: print(p, v, "differ:", d[:10])
print("runs that differ between batch and fresh process:", bad); sys.exit(bad != 0)
