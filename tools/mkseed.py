"""Plants a bug: python3 tools/mkseed.py SPEC.py

SPEC.py defines id, prop, needs, breaks, edits [(file, old, new)], and demo (Rust source of a program)
or bad/good (programs that must be rejected / accepted). Confirms in a scratch copy that the change
compiles, passes the stable tests, and that the demonstration fails with it and passes without it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RUN = """#!/bin/bash
# exit 0 if the tree behaves, nonzero if not; run with the repository as the working directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"; cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
palmtree = { path = "$repo" }
typenum = "1.12"
generic-array = "0.14"
[workspace]
%s
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable
cd "$work" && cargo build --offline -q %s || exit 9
timeout 120 %s
"""

FAIL = """#!/bin/bash
# exit 0 if the offending program is rejected and its legitimate twin accepted
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src/bin"; cp "$here/good.rs" "$here/bad.rs" "$work/src/bin/"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
palmtree = { path = "$repo" }
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable
cd "$work" && cargo check --offline -q --bin good || exit 9
if cargo check --offline -q --bin bad 2>/dev/null; then echo "the offending program is accepted"; exit 1; fi
exit 0
"""


def sh(cmd, cwd, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main(path):
    s = runpy.run_path(path)
    out = os.path.join(VERIF, "seeded", s["id"])
    scratch = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(scratch, "repo")
    confirmed = False
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        sh("git checkout -q -- . && git clean -fdq", repo)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                print("edit matches %d times: %r" % (t.count(old), old[:80]))
                return 1
            open(p, "w").write(t.replace(old, new))
        _, diff = sh("git diff", repo)
        if os.path.exists(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        if "demo" in s:
            open(os.path.join(out, "main.rs"), "w").write(s["demo"])
            rel = s.get("release", False)
            prof = "[profile.release]\ndebug-assertions = false" if rel else ""
            exe = "target/release/demo" if rel else "target/debug/demo"
            if s.get("miri"):
                exe = ""
            open(os.path.join(out, "demo.sh"), "w").write(RUN % (prof, "--release" if rel else "", "./" + exe))
        else:
            open(os.path.join(out, "good.rs"), "w").write(s["good"])
            open(os.path.join(out, "bad.rs"), "w").write(s["bad"])
            open(os.path.join(out, "demo.sh"), "w").write(FAIL)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        # tests on the patched copy: the scripts name /repo, so run their steps here
        env = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; " % scratch
        c, o = sh(env + "cargo build --offline --all-targets 2>&1 && cargo build --offline --features test 2>&1", repo)
        if c:
            print("does not build:\n" + o[-3000:])
            return 1
        c, o = sh(env + "cargo test --offline 2>&1", repo)
        if c:
            print("tests fail:\n" + o[-2500:])
            return 1
        c1, o1 = sh("bash %s/demo.sh" % out, "/repo")
        c2, o2 = sh("bash %s/demo.sh" % out, repo)
        print("unchanged: exit %d; patched: exit %d" % (c1, c2))
        print(o1[-500:], "\n---\n", o2[-700:])
        if c1 != 0 or c2 == 0 or c2 == 9:
            print("NOT CONFIRMED")
            return 1
        confirmed = True
        print("confirmed", s["id"])
        return 0
    finally:
        shutil.rmtree(scratch)
        if not confirmed:
            shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    rc = 0
    for p in sys.argv[1:]:
        rc |= main(p)
    sys.exit(rc)
