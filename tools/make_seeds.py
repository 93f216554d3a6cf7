#!/usr/bin/env python3
"""Development tool: writes seeded/<id>/ from the definitions in seeds_def.py and confirms each one in a scratch copy
of /repo (builds, passes the stable tests, demo passes without and fails with the change).  Not used by any check.
usage: make_seeds.py [ID ...]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_def import SEEDS
import seeds2_def
import seeds3_def
import seeds4_def
import seeds5_def
import seeds6_def
import seeds7_def
import seeds8_def
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0 when the property holds for the input in main.rs, non-zero otherwise; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cryptography = { path = "$repo" }
hex = "*"
[profile.dev]
opt-level = OPT
[workspace]
TOML
cd "$tmp" || exit 2
CARGO_TARGET_DIR="$tmp/target" cargo run -q --offline
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


ENV = dict(os.environ, CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="1",
           CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true")


def main():
    want = sys.argv[1:]
    if "-j" not in sys.argv:
        ids = [s["id"] for s in SEEDS if (s["id"] in want if want else not os.path.exists(os.path.join(VERIF, "seeded", s["id"], "meta.json")))]
        ps = [subprocess.Popen([sys.executable, __file__, "-j"] + ids[i::4]) for i in range(4) if ids[i::4]]
        for p in ps:
            p.wait()
        return
    want = want[1:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("passed") or base.get("stable") or base
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        scratch = os.path.join(tmp, "repo")
        shutil.copytree("/repo", scratch, symlinks=True)
        for s in SEEDS:
            if want and s["id"] not in want:
                continue
            d = os.path.join(VERIF, "seeded", s["id"])
            sh("git checkout -q -- . && git reset -q --hard", scratch)
            for f, old, new in s["edits"]:
                p = os.path.join(scratch, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT DOES NOT APPLY", f, t.count(old)); break
                open(p, "w").write(t.replace(old, new))
            else:
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", scratch).stdout)
                open(os.path.join(d, "main.rs"), "w").write(s["demo"].strip() + "\n")
                open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("OPT", str(s.get("opt", 1))))
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
                t = sh("cargo test --workspace --offline --locked --no-fail-fast 2>&1 | grep -E '^test |^error|test result'", scratch, env=dict(ENV, CARGO_TARGET_DIR=os.path.join(scratch, "target")))
                failed = [l for l in t.stdout.splitlines() if l.endswith("FAILED")]
                ok = t.stdout.count(" ... ok")
                bad = sh("bash %s/demo.sh" % d, scratch, timeout=300)
                good = sh("bash %s/demo.sh" % d, "/repo", timeout=300)
                fine = not failed and ok >= 119 and bad.returncode != 0 and good.returncode == 0
                print(s["id"], "OK" if fine else "REJECTED", "tests ok %d failed %d, demo patched %d clean %d" % (ok, len(failed), bad.returncode, good.returncode), flush=True)
                if not fine:
                    print(failed[:5], bad.stdout[-600:] if bad.returncode in (0, 101) else bad.stdout[-1500:], good.stdout[-800:])
                    if ok == 0:
                        print(sh("cargo build --offline 2>&1 | tail -30", scratch).stdout)
                    shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)


main()
