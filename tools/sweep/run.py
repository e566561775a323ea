"""run.py FILE COUNT SEED [PAR]: a sample of mutants of FILE."""
import json, random, subprocess, sys, os, tempfile, shutil, concurrent.futures as cf
f, cnt, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
par = int(sys.argv[4]) if len(sys.argv) > 4 else 4
ms = [m for m in json.load(open("/tmp/kv-sweep/all.json")) if m["file"] == f]
if len(sys.argv) > 5: ms = [m for m in ms if m["Func"] in sys.argv[5].split(",")]
random.Random(seed).shuffle(ms)
log = open("/tmp/kv-sweep/log.txt", "a")
def one(m):
    d = tempfile.mkdtemp(prefix="mu", dir="/tmp/w/sweep")
    try:
        subprocess.run(["rsync","-a","--exclude",".git","/tmp/kv-sweep/repo0/",d+"/"]) if shutil.which("rsync") else subprocess.run(["cp","-a","/tmp/w/sweep/repo0/.",d])
        p = os.path.join(d, f); s = open(p,"rb").read()
        open(p,"wb").write(s[:m["A"]] + m["R"].encode() + s[m["B"]:])
        r = subprocess.run(". /opt/vp/env.sh; cd %s && go build ./... && timeout 60 go test . ./diana ./crand" % d, shell=True, executable="/bin/bash", capture_output=True, text=True)
        if r.returncode: return m, None
        try:
            r = subprocess.run(["timeout","900","python3","/tmp/kv-sweep/one.py",d,f],capture_output=True,text=True,timeout=1000)
            return m, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1]
        except subprocess.TimeoutExpired:
            return m, "TIMEOUT"
    finally:
        shutil.rmtree(d, ignore_errors=True)
done = 0
ex = cf.ThreadPoolExecutor(par)
import itertools
it = iter(ms)
pend = set()
def more():
    m = next(it, None)
    if m: pend.add(ex.submit(one, m))
for _ in range(par): more()
while pend and done < cnt:
    fin, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
    for x in fin:
        pend.discard(x)
        m, r = x.result()
        if r is not None:
            done += 1
            log.write("%s:%d %s [%s -> %s] %s\n" % (m["file"], m["Line"], m["Func"], m["What"], m["R"][:40], r)); log.flush()
        if done < cnt: more()
for x in pend: x.cancel()
ex.shutdown()
