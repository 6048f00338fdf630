#!/usr/bin/env python3
"""Development tool: turns a bug definition (python file with ID, PROP, NEEDS, BREAKS, EDITS, DEMO) into
seeded/<id>/ after confirming it in a scratch copy of /repo: compiles, stable tests pass, demo passes without and
fails with the change. plant.py DEF.py..."""
import json, os, shutil, subprocess, sys

S = "/tmp/plantrepo"
DEMO_SH = r'''#!/bin/bash
# run with cwd = the repository, after a build
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
division_ecs = { path = "$repo" }
[profile.dev]
debug = 0
incremental = false
[workspace]
EOF
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true
cargo build -q --offline || exit 3
ulimit -c 0
timeout 120 "$tmp/target/debug/demo"
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)


def tests(repo):
    # the stable tests, one process each, in the scratch copy
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh("cargo nextest run -p division_ecs -p division_ecs_attributes --no-fail-fast --offline --tool-config-file vp:/opt/vp/nextest.toml", repo)
    import re
    failed = set(re.findall(r"(?:FAIL|SIGABRT|SIGSEGV|TIMEOUT)[^\n]*? division_ecs (tests::\S+)", r.stdout))
    stable = {x.split("division_ecs::", 1)[-1] for x in base["stable"]}
    if "could not compile" in r.stdout:
        return False, r.stdout
    return not (failed & stable), "\n".join("FAIL " + x for x in failed & stable)


def main():
    shutil.rmtree(S, ignore_errors=True)
    sh("cp -a /repo %s" % S)
    for d in sys.argv[1:]:
        ns = {}
        exec(open(d).read(), ns)
        bid = ns["ID"]
        sh("git checkout -q -- . && git clean -fdq src", S)
        ok = True
        for f, old, new in ns["EDITS"]:
            p = os.path.join(S, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(bid, "EDIT MATCHES", t.count(old), "in", f, repr(old[:60]))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        out = "/tmp/plant_out/" + bid
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(sh("git diff", S).stdout)
        open(out + "/demo.sh", "w").write(ns.get("DEMO_SH", DEMO_SH))
        open(out + "/demo.rs", "w").write(ns["DEMO"].lstrip())
        for k, v in ns.get("FILES", {}).items():
            open(out + "/" + k, "w").write(v)
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
        good, o = tests(S)
        if not good:
            print(bid, "TESTS FAIL / BUILD", o[-1200:] if "error" in o and "could not compile" in o else [l for l in o.splitlines() if "FAIL" in l][:4])
            continue
        bad = sh("bash %s/demo.sh" % out, S)
        clean = sh("bash %s/demo.sh" % out, "/repo")
        if clean.returncode != 0:
            print(bid, "DEMO FAILS ON CLEAN", clean.returncode, clean.stdout[-800:])
            continue
        if bad.returncode in (0, 3):
            print(bid, "DEMO DOES NOT FAIL", bad.returncode, bad.stdout[-500:])
            continue
        dst = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(bid, "KEPT; demo says:", bad.returncode, bad.stdout.strip().splitlines()[-1:] )
    shutil.rmtree(S, ignore_errors=True)


main()
