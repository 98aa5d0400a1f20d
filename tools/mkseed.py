#!/usr/bin/env python3
"""mkseed.py FILE.seed...   turn seed descriptions into seeded/<id>/ and confirm them in a scratch copy of /repo.
A .seed file: python literal dict(id, property, needs, breaks, edits=[(file, old, new)], demo=<rust main.rs>)"""
import os, sys, json, subprocess, shutil, tempfile
V = "/verif"
DEMO = r'''#!/bin/bash
# exit 0 on a tree where the property holds, nonzero otherwise
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/demo/src"
cp "$HERE/main.rs" "$W/demo/src/main.rs"
cat > "$W/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
kiss_xml = { path = "$REPO" }
EOF
cp "$REPO/Cargo.lock" "$W/demo/Cargo.lock" 2>/dev/null
cd "$W/demo" || exit 3
export CARGO_TARGET_DIR="$W/t"
if ! cargo build --offline -q 2>"$W/err"; then
  rm -f Cargo.lock
  cargo build --offline -q 2>"$W/err" || { cat "$W/err"; exit 0; }
fi
mkdir -p "$W/run" && cd "$W/run" || exit 3
timeout 120 "$W/t/debug/demo" @ARGS@
rc=$?
[ $rc -eq 0 ] && exit 0
echo "demo failed with status $rc"
exit 1
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main():
    rc = 0
    for f in sys.argv[1:]:
        d = eval(open(f).read())
        wk = tempfile.mkdtemp(prefix="seedwk")
        try:
            sh(f"cp -a /repo {wk}/repo")
            r = wk + "/repo"
            for fn, old, new in d["edits"]:
                p = f"{r}/{fn}"
                s = open(p, newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    print(f, "EDIT does not match once:", s.count(old), old[:60]); rc = 1; break
                open(p, "w", newline="").write(s.replace(old, new))
            else:
                diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True).stdout
                assert subprocess.run(["git", "-C", "/repo", "apply", "--check", "-"], input=diff).returncode == 0
                out = f"{V}/seeded/{d['id']}"
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                open(out + "/patch.diff", "wb").write(diff)
                open(out + "/main.rs", "w").write(d["demo"])
                open(out + "/demo.sh", "w").write(DEMO.replace("@ARGS@", d.get("args", "")) if "demo_sh" not in d else d["demo_sh"])
                os.chmod(out + "/demo.sh", 0o755)
                json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
                env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
                t = sh("cargo test --workspace --all-features --no-fail-fast --offline 2>&1", cwd=r, env=env)
                base = json.load(open("/opt/vp/BASELINE.json"))
                okn = sum(1 for l in t.stdout.splitlines() if l.endswith("... ok"))
                failed = [l for l in t.stdout.splitlines() if l.endswith("... FAILED") or l.startswith("error")]
                a = sh(f"bash {out}/demo.sh", cwd="/repo")
                b = sh(f"bash {out}/demo.sh", cwd=r)
                good = a.returncode == 0 and b.returncode != 0 and not failed
                print(d["id"], "GOOD" if good else "BAD", "tests ok", okn, "failed", failed[:5], "demo base", a.returncode, "demo patched", b.returncode)
                if not good:
                    print(a.stdout[-800:], a.stderr[-800:], "\n--", b.stdout[-800:], b.stderr[-800:]); rc = 1
                    if failed: print(t.stdout[-1500:])
                c = sh(f"KX_REPO={r} {V}/check {d['property']}")
                print("   check:", "CAUGHT" if c.returncode == 1 else f"missed rc={c.returncode}", [l.strip()[:300] for l in c.stdout.splitlines() if l.startswith("  ")][:3])
        finally:
            shutil.rmtree(wk, ignore_errors=True)
    return rc
sys.exit(main())
