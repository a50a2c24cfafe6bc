"""Makes behaviour-preserving edits on which no check may raise an alarm: quiet(id, what, edits) with edits (file, old, new).
Each is built, vetted and tested in a scratch copy, and kept as /verif/quiet/<id>/patch.diff; matrix.py -a -d /verif/quiet runs them."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import run, ENV
Q = "/verif/quiet"
ONLY = sys.argv[1:]
def quiet(id, what, edits):
    if ONLY and not any(id.startswith(x) for x in ONLY): return
    tmp = tempfile.mkdtemp(prefix="quiet-", dir="/tmp")
    try:
        c = tmp + "/repo"
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", c], check=True)
        for path, old, new in edits:
            s = open(c + "/" + path).read()
            n = s.count(old)
            if n != 1: raise SystemExit("%s: %d matches in %s of\n%s" % (id, n, path, old))
            open(c + "/" + path, "w").write(s.replace(old, new))
        run(["gofmt", "-w", "."], c)
        rc, out = run(["go", "vet", "./..."], c)
        if rc: raise SystemExit("%s: vet\n%s" % (id, out))
        for again in range(5):
            rc, out = run(["go", "test", "-count=1", ".", "./cryptoer", "./provider/bolt"], c)
            if not rc: break
        else: raise SystemExit("%s: tests\n%s" % (id, out[-2000:]))
        d = os.path.join(Q, id)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=c, stdout=subprocess.PIPE, text=True, check=True).stdout)
        json.dump({"property": "none", "what": what}, open(d + "/meta.json", "w"), indent=1)
        print(id, "ok", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
