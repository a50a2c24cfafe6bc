"""Runs checks against planted bugs: matrix.py [-a] [-j N] [-k SCALE] [-p CHECKS] [-d DIR] [BUG...]; every bug with its own property's check, or
with all (-a). Each runs in a mount namespace of its own, where /repo and /verif are scratch copies."""
import subprocess, sys, os, json, time, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("-a", action="store_true")
ap.add_argument("-j", type=int, default=2)
ap.add_argument("-p", default="", help="comma separated checks")
ap.add_argument("-k", default="", help="scale in percent")
ap.add_argument("-d", default="/verif/seeded")
ap.add_argument("bugs", nargs="*")
a = ap.parse_args()
S = a.d
bugs = [b for b in sorted(os.listdir(S)) if os.path.isdir(S + "/" + b) and (not a.bugs or any(b.startswith(x) for x in a.bugs))]
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]

def run(b):
    d = tempfile.mkdtemp(prefix="mx-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=seeded", "--exclude=evidence", "/verif/", d + "/verif/"], check=True) if shutil.which("rsync") else \
            subprocess.run("mkdir %s/verif; cd /verif && tar c --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar x -C %s/verif" % (d, d), shell=True, check=True)
        meta = json.load(open(S + "/" + b + "/meta.json"))
        subprocess.run(["git", "-C", d + "/repo", "apply", S + "/" + b + "/patch.diff"], check=True)
        res = []
        for p in a.p.split(",") if a.p else props if a.a else [meta["property"]]:
            t = time.time()
            env = dict(os.environ)
            env.setdefault("VERIF_SEED", "1"); env.setdefault("VERIF_TIER", "quick")
            cmd = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec ./check %s%s" % (d, d, p, " --scale " + a.k if a.k else "")
            try:
                r = subprocess.run(["unshare", "-Urm", "sh", "-c", cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                rc, out = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, out = 99, "TIMEOUT"
            caught = rc == 1 and ("VIOLATION property=%s " % p) in out
            if caught:
                res.append(p if a.a else "%s caught %.0fs" % (p, time.time() - t))
                if not a.a and os.environ.get("SHOW"):
                    res.append("\n" + out[:1500])
            elif rc != 0:
                res.append("%s rc=%d %s" % (p, rc, out[-1500:]))
            elif not a.a:
                res.append("%s MISSED %.0fs" % (p, time.time() - t))
        print(b, "[%s]" % meta["property"], " ".join(res), flush=True)
    except Exception as e:
        print(b, "ERROR", e, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)

with ThreadPoolExecutor(a.j) as ex:
    list(ex.map(run, bugs))
