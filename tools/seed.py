"""Planted bugs: make and confirm them in a scratch copy (/tmp/sr), and run checks against them.

  seed.py make FILE.py      FILE.py defines BUGS: dicts id, property, file, old, new, needs, breaks, demo (Rust main.rs), deps
  seed.py confirm ID...     builds, tests and demonstrates each in /tmp/sr
  seed.py catch ID [PROP]   applies it to /repo, runs the property's check, undoes it
"""
import json, os, runpy, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
SR = "/tmp/sr"

DEMO = r'''#!/bin/bash
# Builds the program beside this file against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=/tmp/wu_demo_@ID@
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
@DEPS@
[profile.dev]
debug = 0
EOT
export RUSTUP_TOOLCHAIN=@TC@ CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
(cd "$work" && cargo build --offline -q 2>"$work/log") || { tail -40 "$work/log"; rm -rf /tmp/wu_demo_@ID@; exit 3; }
timeout 60 "$work/target/debug/demo"
rc=$?
rm -rf /tmp/wu_demo_@ID@
exit $rc
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    if not os.path.isdir(SR):
        sh(f"cp -a /repo {SR}")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=SR)


def make(path):
    prepare()
    for b in runpy.run_path(path)["BUGS"]:
        sh("git checkout -q -- .", cwd=SR)
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
        for f, old, new in edits:
            p = os.path.join(SR, f)
            s = open(p).read()
            n = b.get("count", 1)
            if s.count(old) != n:
                print(b["id"], "pattern found", s.count(old), "times in", f)
                break
            open(p, "w").write(s.replace(old, new))
        else:
            d = os.path.join(SEEDED, b["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", cwd=SR).stdout)
            if "demo_sh" in b:
                demo = b["demo_sh"]
            else:
                deps = b.get("deps") or ['whippyunits = { path = "$repo" }']
                demo = DEMO.replace("@ID@", b["id"]).replace("@DEPS@", "\n".join(deps)).replace("@TC@", b.get("tc", "stable"))
                open(os.path.join(d, "main.rs"), "w").write(b["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(demo)
            for n, t in b.get("files", {}).items():
                open(os.path.join(d, n), "w").write(t)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("made", b["id"])
    sh("git checkout -q -- .", cwd=SR)


def confirm(ids):
    prepare()
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    os.makedirs("/tmp/srvp", exist_ok=True)
    for f in ("env.sh", "build.sh", "test.sh", "cleanlog.py", "results.py"):
        s = open("/opt/vp/" + f).read().replace("cd /repo ", f"cd {SR} ").replace("/repo/target", SR + "/target").replace("/opt/vp", "/tmp/srvp")
        open("/tmp/srvp/" + f, "w").write(s)
    for i in ids:
        d = os.path.join(SEEDED, i)
        sh("git checkout -q -- .", cwd=SR)
        r = sh(f"bash {d}/demo.sh", cwd=SR)
        line = [f"{i}: clean demo {r.returncode}"]
        if r.returncode:
            print(r.stdout[-1500:])
        a = sh(f"git apply {d}/patch.diff", cwd=SR)
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stdout)
            continue
        r = sh(f"bash {d}/demo.sh", cwd=SR)
        line.append(f"bug demo {r.returncode} ({r.stdout.strip().splitlines()[-1][:110] if r.stdout.strip() else ''})")
        r = sh("bash /tmp/srvp/build.sh")
        if r.returncode:
            line.append("BUILD FAILS")
            print(r.stdout[-1500:])
        else:
            sh("bash /tmp/srvp/test.sh /tmp/srvp/out.json")
            out = json.load(open("/tmp/srvp/out.json"))
            missing = base - set(out["passed"])
            line.append("tests ok" if not missing else f"TESTS BROKEN {sorted(missing)[:6]}")
        print("; ".join(line), flush=True)
        sh("git checkout -q -- .", cwd=SR)


def catch(i, props):
    d = os.path.join(SEEDED, i)
    props = props or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    a = sh(f"git apply {d}/patch.diff", cwd="/repo")
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stdout)
        return
    try:
        for p in props:
            r = sh(f"timeout 890 ./check {p}", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            tail = "" if v else r.stdout[-300:]
            print(f"{i}: {p} exit {r.returncode}", v[:1], tail, flush=True)
    finally:
        sh("git checkout -q -- .", cwd="/repo")


if __name__ == "__main__":
    c, a = sys.argv[1], sys.argv[2:]
    if c == "make":
        make(a[0])
    elif c == "confirm":
        confirm(a or sorted(os.listdir(SEEDED)))
    elif c == "catch":
        if len(a) > 1 and a[1].startswith("C"):
            catch(a[0], a[1:])
        else:
            for i in a or sorted(os.listdir(SEEDED)):
                catch(i, None)
