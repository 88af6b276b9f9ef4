#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).

plant.py make SPEC.py      creates /verif/seeded/<id>/ from a specification
plant.py try ID [PROP..]   applies the patch to /repo, runs tests, demo and checks, and undoes it
"""
import json, os, subprocess, sys, time
REPO, SEED = os.environ.get("PLANT_REPO", "/repo"), os.environ.get("PLANT_SEED", "/verif/seeded")
DEMO = '''#!/bin/bash
# exit 0: the property holds for this program; anything else: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true
rm -rf /tmp/demo-%(id)s
mkdir -p /tmp/demo-%(id)s/src
cp "$here/main.rs" /tmp/demo-%(id)s/src/main.rs
cp "$repo/Cargo.lock" /tmp/demo-%(id)s/Cargo.lock
cat > /tmp/demo-%(id)s/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
hyperdrive = { path = "$repo" }
http = "0.1"
hyper = { version = "0.12", default-features = false }
futures = "0.1"
tokio = { version = "0.1", default-features = false, features = ["rt-full"] }
serde = { version = "1", features = ["derive"] }
[workspace]
EOF
cd /tmp/demo-%(id)s
%(run)s
s=$?
rm -rf /tmp/demo-%(id)s
exit $s
'''
RUN = '''cargo build -q --offline 2> /tmp/demo-%(id)s/log || { cat /tmp/demo-%(id)s/log; rm -rf /tmp/demo-%(id)s; exit 2; }
timeout 60 target/debug/demo'''
REJECT = '''# this program must not compile
cargo build -q --offline && s=1 || s=0
(exit $s)'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def undo():
    sh(f"git -C {REPO} checkout -- .")
def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        undo()
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f); s = open(p).read()
            assert s.count(old) >= 1, (b["id"], f, old)
            if s.count(old) > 1 and not b.get("all"):
                raise Exception((b["id"], "ambiguous", old))
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(SEED, b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh(f"git -C {REPO} diff").stdout)
        undo()
        if "demo" not in b:
            print("remade", b["id"]); continue
        open(d + "/main.rs", "w").write(b["demo"].lstrip())
        run = b.get("run", RUN)
        if b.get("reject"): run = REJECT
        open(d + "/demo.sh", "w").write(DEMO % dict(id=b["id"], run=run % dict(id=b["id"]) if "%(" in run else run))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print("made", b["id"])
def trial(i, props, nodemo=False):
    d = os.path.join(SEED, i); meta = json.load(open(d + "/meta.json"))
    out = []
    undo()
    r = sh(f"git -C {REPO} apply {d}/patch.diff")
    if r.returncode: return print(i, "PATCH DOES NOT APPLY", r.stdout)
    try:
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return print(i, "DOES NOT BUILD", b.stdout[-2000:])
        if not nodemo:
            sh("bash /opt/vp/test.sh /tmp/t.json")
            base = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open("/tmp/t.json"))
            need = set(next(v for v in base.values() if isinstance(v, list) and len(v) > 50))
            got = set(t.get("passed") or t.get("pass") or [])
            miss = need - got
            if miss: out.append("TESTS FAIL %s" % sorted(miss)[:3])
            x = sh(f"bash {d}/demo.sh", cwd=REPO); out.append("demo(bug)=%d" % x.returncode)
            if x.returncode == 0: out.append("DEMO DOES NOT FAIL")
        for p in props or [meta["property"]]:
            t0 = time.time()
            x = sh(f"VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh {p}", cwd="/verif")
            line = [l for l in x.stdout.splitlines() if "VIOLATION" in l]
            out.append("%s: exit %d %s (%.0f s)" % (p, x.returncode, "CAUGHT" if x.returncode == 1 and line else "MISSED", time.time() - t0))
            if x.returncode not in (0, 1): out.append(x.stdout[-1500:])
    finally:
        undo()
    if not nodemo:
        x = sh(f"bash {d}/demo.sh", cwd=REPO); out.append("demo(clean)=%d" % x.returncode)
        if x.returncode: out.append("DEMO FAILS ON CLEAN: " + x.stdout[-1500:])
    print(i, "|", " ; ".join(out), flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    else: trial(sys.argv[2], [a for a in sys.argv[3:] if not a.startswith("-")], "--nodemo" in sys.argv)
