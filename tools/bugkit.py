"""Plant a bug: used interactively while building the seeded set (no check reads /verif/seeded).
bug(id, prop, needs, what, edits=[(file, old, new)], deps=[crates], demo=rust main, deps2="extra toml lines")
makes seeded/<id>, then confirms it in a scratch copy of /repo shown at /repo in a private mount namespace."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/bg/repo"
DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds demo.rs against its crates in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
@DEPS@
TOML
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" CARGO_PROFILE_DEV_DEBUG=0 timeout 280 cargo run --offline -q
'''


def ns(cmd, **kw):
    return subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {S} /repo && cd /repo && {cmd}"], capture_output=True, text=True, **kw)


def sync():
    os.makedirs("/tmp/bg", exist_ok=True)
    if not os.path.exists(S):
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run(f"cd {S} && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach {h}", shell=True, check=True)


def bug(id, prop, needs, what, edits, demo, deps=(), deps2="", test=True, check=not os.environ.get("NOCHECK"), checkprops=None):
    sync()
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = os.path.join(S, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(id, "EDIT MATCHES", s.count(old), f, old[:60]); return
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    dl = "\n".join(f'{c} = {{ path = "$repo/crates/{c}" }}' for c in deps) + ("\n" + deps2 if deps2 else "")
    open(d + "/demo.sh", "w").write(DEMO.replace("@DEPS@", dl))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    confirm(id, prop, test, check, checkprops)


def confirm(id, prop, test=True, check=not os.environ.get("NOCHECK"), checkprops=None):
    d = os.path.join(V, "seeded", id)
    b = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    a = ns(f"bash {d}/demo.sh")
    print(id, "demo clean:", b.returncode, "patched:", a.returncode, (b.stderr[-300:] if b.returncode else ""), (a.stderr or a.stdout)[-200:])
    if test:
        t = ns("bash /opt/vp/build.sh >/tmp/bg/b.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/bg/r.json | tail -3")
        try:
            base = json.load(open("/opt/vp/BASELINE.json")); r = json.load(open("/tmp/bg/r.json"))
            def names(x): return set(x["stable"]) if "stable" in x else set(x.get("passed") or x.get("pass") or [])
            miss = sorted(names(base) - names(r))
            print(id, "tests broken:", len(miss), miss[:5])
        except Exception as ex:
            print(id, "tests:", t.stdout[-300:], ex)
    if check:
        for q in checkprops or [prop]:
            c = subprocess.run([sys.executable, V + "/check.py", q], cwd=V, env=dict(os.environ, STYX_REPO=S, VERIF_SEED="1"), capture_output=True, text=True)
            print(id, "check", q, c.returncode, c.stdout[-700:])
