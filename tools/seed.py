#!/usr/bin/env python3
"""seed.py SPEC.py — makes a planted bug under /verif/seeded from a python file defining
ID, PROP, EDITS [(file, old, new)], DEMO (rust main body), NEEDS, BREAKS; then tries it in /repo and undoes it."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# builds the demonstration against a scratch mirror of the repository and runs it
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/partial/env.sh
s=$(mktemp -d /tmp/bugi-demo.XXXXXX)
mkdir -p "$s/crate/examples"
cp -a /opt/vp/partial/crate/. "$s/crate/"
cp "$d/demo.rs" "$s/crate/examples/demo.rs"
cd "$s/crate" && CARGO_TARGET_DIR="$s/target" RUSTFLAGS="--cfg bugi_verif" timeout 250 cargo run -q --offline --example demo 2> "$s/err"
rc=$?
[ $rc -ne 0 ] && tail -5 "$s/err"
find "$s" -delete
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    out = f"{V}/seeded/{g['ID']}"
    os.makedirs(out, exist_ok=True)
    try:
        for f, a, b in g["EDITS"]:
            p = f"/repo/{f}"
            t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.rs", "w").write("#![allow(warnings)]\n" + g["DEMO"].strip() + "\n")
        open(f"{out}/demo.sh", "w").write(DEMO_SH)
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
        sh("bash /opt/vp/test.sh /tmp/seed.json")
        r = json.load(open("/tmp/seed.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        want = base.get("passed") or base.get("tests") or base
        print("tests:", len(r["passed"]), "passed", len(r["failed"]), "failed")
        d = sh(f"bash {out}/demo.sh", cwd="/repo")
        print("demo with bug:", d.returncode, d.stdout[-500:], d.stderr[-300:])
        for p in g.get("PROPS", [g["PROP"]]):
            if os.path.exists(f"{V}/spec/props.json") and p in json.load(open(f"{V}/spec/props.json")):
                c = sh(f"./check {p} quick", cwd=V)
                print(f"check {p}:", c.returncode, c.stdout[-900:], c.stderr[-300:])
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    d = sh(f"bash {out}/demo.sh", cwd="/repo")
    print("demo without:", d.returncode, d.stdout[-500:], d.stderr[-300:])


main()
