#!/usr/bin/env python3
"""plant.py BUGS.py [ID...]   writes /verif/seeded/<ID>/ from the definitions in BUGS.py and confirms each:
the patch applies to /repo's HEAD, builds, passes the stable tests, and the demonstration tells it from the original.
plant.py --run [ID...]        runs the quick check of the property of each planted bug with the bug applied.
plant.py --confirm [ID...]    confirms the planted bugs again.

A definition: bug(id, property, file, old, new, needs, what, features, main)"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
REPO = "/repo"
DEMO = '''#!/bin/bash
# Exit 0: the library behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'find "$dir" -depth -delete' EXIT
mkdir "$dir/src" && cp "$here/main.rs" "$dir/src/main.rs" || exit 2
cat > "$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
email-parser = { path = "$repo/email-parser", default-features = false, features = [%s] }
END
cd "$dir" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2> "$dir/log" || { cat "$dir/log"; exit 2; }
timeout 60 "$dir/target/debug/demo"
'''
HELP = '''#![allow(dead_code, unused_imports)]
use email_parser::prelude::*;
use email_parser::parse_message;
fn msg(more: &str) -> Vec<u8> {
    format!("From: a@b.c\\r\\nDate: 5 May 2003 18:59:03 +0000\\r\\n{}", more).into_bytes()
}
'''
BUGS = []


def bug(id, property, file, old, new, needs, what, features, main, count=1):
    BUGS.append(dict(id=id, property=property, edits=[(file, old, new)], needs=needs, what=what, features=features,
                     main=main, count=count))


def bugs(id, property, edits, needs, what, features, main):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, features=features, main=main, count=1))


def sh(cmd, cwd=REPO, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def undo():
    sh("git checkout -- .")


def suite():
    rc, out = sh("bash /opt/vp/build.sh")
    if rc:
        return "does not build: " + out[-1500:]
    sh("bash /opt/vp/test.sh /tmp/plant-o.json")
    missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open("/tmp/plant-o.json"))["passed"])
    return "tests fail: %s" % sorted(missing) if missing else ""


def confirm(d):
    patch = os.path.join(d, "patch.diff")
    rc, out = sh("bash %s/demo.sh" % d)
    if rc:
        return "the demonstration fails on the original: " + out[-1500:]
    try:
        rc, out = sh("git apply " + patch)
        if rc:
            return "does not apply: " + out
        e = suite()
        if e:
            return e
        rc, out = sh("bash %s/demo.sh" % d)
        if rc == 0:
            return "the demonstration passes with the patch"
        if rc == 2:
            return "the demonstration does not build with the patch: " + out[-1500:]
    finally:
        undo()
    return ""


def run(ids, tier="quick", only=None):
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = only or json.load(open(d + "/meta.json"))["property"]
        rc, out = sh("git apply %s/patch.diff" % d)
        if rc:
            print(i, "does not apply", out)
            continue
        try:
            t = time.time()
            rc, out = sh("VERIF_SEED=1 VERIF_TIER=%s python3 drive/check.py %s %s" % (tier, prop, tier), cwd=V, timeout=4000)
        finally:
            undo()
        v = [l for l in out.split("\n") if "VIOLATION" in l]
        n = [l for l in out.split("\n") if " rejected, " in l]
        print(i, prop, "rc=%d" % rc, "CAUGHT" if rc == 1 and v else "MISSED", n[-1:] , "%.0f s" % (time.time() - t), flush=True)
        if rc not in (0, 1):
            print(out[-1500:])


def main():
    if sh("git status --porcelain")[1].strip():
        sys.exit("/repo is not clean")
    a = sys.argv[1:]
    if a[0] == "--run":
        return run(a[1:] or sorted(os.listdir(SEEDED)))
    if a[0] == "--confirm":
        for i in a[1:] or sorted(os.listdir(SEEDED)):
            print(i, confirm(os.path.join(SEEDED, i)) or "confirmed", flush=True)
        return
    exec(compile(open(a[0]).read(), a[0], "exec"), globals())
    for b in BUGS:
        if a[1:] and b["id"] not in a[1:]:
            continue
        d = os.path.join(SEEDED, b["id"])
        bad = ""
        for file, old, new in b["edits"]:
            p = os.path.join(REPO, "email-parser/src", file)
            s = open(p).read()
            if s.count(old) < 1:
                bad = "the text is not in " + file + ": " + old
                break
            if s.count(old) > 1 and b["count"] == 1:
                bad = "the text is there %d times in %s: %s" % (s.count(old), file, old)
                break
            s = s.replace(old, new)
            open(p, "w").write(s)
        if bad:
            undo()
            print(b["id"], bad)
            continue
        rc, diff = sh("git diff")
        undo()
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % ", ".join('"%s"' % f for f in b["features"].split()))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(HELP + b["main"].lstrip("\n"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
        e = confirm(d)
        print(b["id"], e or "confirmed", flush=True)
        if e:
            sh("find %s -depth -delete" % d)


main()
