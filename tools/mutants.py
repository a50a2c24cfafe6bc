"""Mutation testing of the checks: mutants.py OUT.jsonl [-j N] [--scale P] [--every K] [--off I] [--redo FILE] FILES...
Each mutant that builds and passes the existing tests is run, in scratch copies, through the checks in order until one reports it."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("files", nargs="*")
ap.add_argument("-j", type=int, default=2)
ap.add_argument("--scale", default="20"); ap.add_argument("--every", type=int, default=1); ap.add_argument("--off", type=int, default=0)
ap.add_argument("--redo")
a = ap.parse_intermixed_args()
subprocess.run("cd /verif/h && go build -o /tmp/mutate ./cmd/mutate", shell=True, check=True)
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           GOSUMDB="off", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", VERIF_SEED="1", VERIF_TIER="quick")
MEM = "C03 C04 C05 C06 C07 C20 C15 C14 C16 C19 C11 C21 C22".split()
BOLT = "C03 C04 C05 C06 C07 C08 C20 C15 C14 C10 C09 C16 C19 C11 C21 C22".split()
RED = "C03 C04 C05 C06 C20 C13 C12 C15 C14 C16 C19 C21 C22".split()
MAN = "C21 C01 C02 C17 C18 C22 C20 C16 C24 C23".split()
def order(f):
    if "bolt" in f: return BOLT
    if "redis" in f: return RED
    if f.startswith("provider"): return MEM
    return MAN
if a.redo:
    muts = [m for m in map(json.loads, open(a.redo)) if m["res"] == "SURVIVED"]
else:
    out = subprocess.run(["/tmp/mutate"] + a.files, cwd="/repo", env=ENV, stdout=subprocess.PIPE, text=True, check=True).stdout
    muts = [json.loads(l) for l in out.splitlines()]
    random.Random(1).shuffle(muts)
    muts = muts[a.off::a.every]
print(len(muts), "mutants", flush=True)
def ns(d, cmd, t):
    c = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && %s" % (d, d, cmd)
    p = subprocess.Popen(["unshare", "-Urmpf", "--kill-child", "sh", "-c", c], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        return 99, "TIMEOUT"
def run(m):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        subprocess.run(["git", "clone", "-q", "/verif", d + "/verif"], check=True)  # what is committed
        p = d + "/repo/" + m["File"]
        s = open(p, "rb").read()
        s = s[:m["From"]] + m["New"].encode() + s[m["To"]:]
        open(p, "wb").write(s)
        m["diff"] = subprocess.run(["git", "-C", d + "/repo", "diff", "-U2"], stdout=subprocess.PIPE, text=True).stdout
        rc, o = ns(d, "cd /repo && go build ./... && go vet . ./provider/... ", 200)
        if rc: m["res"] = "NOBUILD"; return
        for i in range(0 if a.redo or "redis" in m["File"] else 4): # the tests depend on the clock
            rc, o = ns(d, "cd /repo && timeout 60 go test -count=1 ./...", 100)
            if not rc: break
            if i == 3: m["res"] = "TESTS"; return
        for c in order(m["File"]):
            t = time.time()
            rc, o = ns(d, "cd /verif && ./check %s --scale %s --shards 4" % (c, a.scale), 900)
            if rc == 1 and "VIOLATION" in o:
                m["res"] = c; return
            if rc:
                m.setdefault("odd", []).append([c, rc, o[-800:]])
        m["res"] = "SURVIVED"
    except Exception as e:
        m["res"] = "ERROR %s" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
        with open(a.out, "a") as f: f.write(json.dumps(m) + "\n")
        print(m["res"], m["File"], m["Line"], m["Func"], m["Kind"], repr(m["New"][:60]), flush=True)
with ThreadPoolExecutor(a.j) as ex: list(ex.map(run, muts))
