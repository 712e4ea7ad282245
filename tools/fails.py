"""Development aid: run one property's quick jobs and print every failing input, not only the first few. fails.py ID [max]"""
import sys, os, subprocess, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
from check import native
from specs import SPECS
pid = sys.argv[1]
cap = int(sys.argv[2]) if len(sys.argv) > 2 else 40
spec = SPECS[pid]
variant = spec["variants"][0]
eng, vs = build.build([variant])
irf, vnat = vs[variant]
jobs = []
for j in spec["jobs"]:
    jobs += subprocess.check_output([vnat, "jobs", str(j), "1" if "thorough" in sys.argv else "0"], text=True).split()
out = "/tmp/fails.jsonl"
env = dict(os.environ, SX_MAX_INSTRS=str(spec.get("max_instrs", 20_000_000)), SX_JOB_S="120")
r = subprocess.run([eng, irf, out, "8", os.environ.get("LIMIT", "330")] + jobs, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
bad = []
n = collections.Counter()
for l in open(out + ".traces", errors="replace"):
    f = l.rstrip("\n").split("\t")
    n[f[1]] += 1
    if f[1] != "ok":
        bad.append((f[0], f[1], f[3], f[4] if len(f) > 4 else ""))
print(dict(n))
c = collections.Counter((b[1], b[3]) for b in bad)
for k, v in c.most_common(20):
    print(v, k)
import re
if os.environ.get('EXCL'):
    bad = [b for b in bad if not re.search(os.environ['EXCL'], b[3])]
step = max(1, len(bad) // cap)
with ThreadPoolExecutor(8) as p:
    for b, (k, show, d) in zip(bad[::step], p.map(lambda b: native(vnat, b[0], b[2]), bad[::step])):
        print(b[0], repr(show), k, d[:200])
