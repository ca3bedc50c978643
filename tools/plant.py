#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/plants/*.py, and with --check confirms
each in a scratch copy: the patch applies and builds, the tests pass, the demonstration tells."""
import sys, os, json, subprocess, shutil, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
DEMO = r'''#!/bin/bash
# run in the repository: builds a copy of its sources with one more test, and runs that
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/apiformes-demo.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
tar --exclude=./target --exclude=./.git -cf - . | tar -C "$work" -xf - || exit 2
mkdir -p "$work/@CRATE@/tests"
cp "$here/demo.rs" "$work/@CRATE@/tests/planted_demo.rs" || exit 2
cd "$work" || exit 2
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$work/target"
@ENV@timeout 280 cargo test --locked --offline @ARGS@ --test planted_demo -- --nocapture
'''
def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "plants", "*.py"))):
        ns = {"HERE": HERE}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out, b["id"]
            b.setdefault("kind", ns.get("KIND"))
            b["prelude"] = ns.get("PRELUDE", "")
            out[b["id"]] = b
    return out
def run(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def write(b):
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        run(["git", "clone", "-q", "--shared", "/repo", tmp + "/r"])
        for path, old, new in b["edits"]:
            p = os.path.join(tmp, "r", path)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                raise SystemExit(f"{b['id']}: {path}: text occurs {n} times: {old[:60]!r}")
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(run(["git", "diff"], tmp + "/r").stdout)
    finally:
        shutil.rmtree(tmp)
    kinds = {
        "packet": ("packet", "-p apiformes-packet --features debug", ""),
        "server": ("server-lib", "-p apiformes-server-lib", ""),
        "noise": ("server-lib", "-p apiformes-server-lib --features noise", ""),
        "table": ("server-lib", "-p apiformes-server-lib", 'export RUSTFLAGS="--cfg apiformes_mc"\n'),
    }
    crate, args, env = kinds[b["kind"]]
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@CRATE@", crate).replace("@ARGS@", args).replace("@ENV@", env))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(b["prelude"] + b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def check(b, clean):
    """in the scratch copy /tmp/plant/wt"""
    wt = "/tmp/plant/wt"
    d = os.path.join(SEEDED, b["id"])
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=wt + "/target", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"])
    r = []
    if clean:
        c = run([d + "/demo.sh"], wt)
        r.append("clean demo %d" % c.returncode)
        if c.returncode:
            print(c.stdout[-3000:])
    a = run(["git", "apply", d + "/patch.diff"], wt)
    if a.returncode:
        return ["patch does not apply " + a.stdout]
    t = run(["cargo", "test", "--workspace", "--no-fail-fast", "--locked", "--offline", "-q"], wt, env=env)
    r.append("tests %d" % t.returncode)
    if t.returncode:
        print(t.stdout[-3000:])
    c = run([d + "/demo.sh"], wt)
    r.append("planted demo %d" % c.returncode)
    if "panicked" not in c.stdout and "timed out" not in c.stdout:
        print(c.stdout[-3000:])
    run(["git", "checkout", "--", "."], wt)
    return r
def main():
    bugs = load()
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or list(bugs)
    for n in names:
        write(bugs[n])
    if "--check" in sys.argv:
        os.makedirs("/tmp/plant", exist_ok=True)
        if not os.path.isdir("/tmp/plant/wt"):
            run(["cp", "-a", "/repo", "/tmp/plant/wt"])
        run(["git", "fetch", "-q", "/repo", "HEAD"], "/tmp/plant/wt")
        run(["git", "reset", "-q", "--hard", "FETCH_HEAD"], "/tmp/plant/wt")
        for n in names:
            print(n, "; ".join(check(bugs[n], "--fast" not in sys.argv)), flush=True)
main()
