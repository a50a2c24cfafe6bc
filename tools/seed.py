"""Makes and confirms planted bugs: seed(id, property, needs, breaks, edits, demo, pkg, ...).
A scratch copy of /repo is edited, built, tested; the demonstration has to pass without and fail with the change."""
import json, os, shutil, subprocess, sys, tempfile
SEEDED = "/verif/seeded"
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           GOSUMDB="off", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
SH = r'''#!/bin/bash
# Runs the demonstration beside this file against the module in the current directory.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
p="$PWD/@PKG@"
{
	printf '{"Replace":{'
	sep=
	for f in "$d"/*.go; do
		printf '%s"%s/zz_%s":"%s"' "$sep" "$p" "$(basename "$f")" "$f"
		sep=,
	done
	printf '}}'
} > "$t/overlay.json"
TMPDIR=$t go test -overlay "$t/overlay.json" @FLAGS@ -run '^TestDemo$' -count=1 -timeout 120s ./@PKG@
'''
def run(cmd, cwd, t=400):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def seed(id, prop, needs, breaks, edits, demo, pkg=".", flags="", extra=(), quiet=False):
    d = os.path.join(SEEDED, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/demo.sh", "w").write(SH.replace("@PKG@", pkg).replace("@FLAGS@", flags))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(demo)
    for f in extra:
        shutil.copy(f, d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        c = tmp + "/repo"
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", c], check=True)
        rc, out = run(["bash", d + "/demo.sh"], c)
        if rc:
            raise SystemExit("%s: demo fails on the unchanged tree\n%s" % (id, out[-3000:]))
        for path, old, new in edits:
            s = open(c + "/" + path).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches in %s of\n%s" % (id, s.count(old), path, old))
            s = s.replace(old, new)
            open(c + "/" + path, "w").write(s)
        rc, out = run(["gofmt", "-l", "."], c)
        if out.strip():
            run(["gofmt", "-w", "."], c)
        rc, out = run(["go", "vet", "."], c)
        rc, out = run(["go", "build", "./..."], c)
        if rc:
            raise SystemExit("%s: does not build\n%s" % (id, out))
        for i in range(2):
            for again in range(5): # the tests depend on the clock
                rc, out = run(["go", "test", "-count=1", "./..."], c)
                run(["git", "clean", "-fdq"], c)
                if not rc: break
            if rc:
                raise SystemExit("%s: tests fail\n%s" % (id, out[-3000:]))
        # the change has to touch lines of the original repository
        base = subprocess.run(["git", "-C", c, "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
        diff = subprocess.run(["git", "-C", c, "diff"], stdout=subprocess.PIPE, text=True).stdout
        orig = 0
        for path in {e[0] for e in edits}:
            blame = subprocess.run(["git", "-C", c, "blame", "-s", "-l", "--abbrev=40", "HEAD", "--", path], stdout=subprocess.PIPE, text=True).stdout.splitlines()
            hunk = subprocess.run(["git", "-C", c, "diff", "-U0", "--", path], stdout=subprocess.PIPE, text=True).stdout
            import re
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunk, re.M):
                a, n = int(m[1]), int(m[2] if m[2] is not None else 1)
                for k in range(a, a + n):
                    if base[:30] in blame[k - 1].split()[0]:
                        orig += 1
        if not orig:
            print("WARNING %s: changes no original line" % id)
        open(d + "/patch.diff", "w").write(diff)
        rc, out = run(["bash", d + "/demo.sh"], c)
        if rc == 0:
            raise SystemExit("%s: demo passes with the change" % id)
        if not quiet:
            tail = [l for l in out.splitlines() if "zz_" in l or "panic" in l or "DATA RACE" in l or "deadlock" in l][:2]
            print("%s ok (%d original lines) %s" % (id, orig, " | ".join(tail)[:200]))
    except SystemExit as e:
        print(e)
        shutil.rmtree(d + ".failed", ignore_errors=True)
        os.rename(d, d + ".failed")
        shutil.move(d + ".failed", "/tmp/")if not os.path.exists("/tmp/" + id + ".failed") else shutil.rmtree(d + ".failed")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
