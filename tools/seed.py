#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: turns planted-bug specs into /verif/seeded/ID and confirms each in a scratch copy of /repo:
it applies, changes original lines, builds, passes the stable tests, and its demo tells the two trees apart.
SPEC.py defines bugs = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=RUST, profile='dev'|'release')]."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedwork"
BASE = "dbe8e82"
SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'find "$work" -delete' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
palmtree = { path = "$repo" }
typenum = "1.12"
[workspace]
[profile.dev]
debug = 0
EOF
cd "$work" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTFLAGS= RUSTC_WRAPPER=
cargo build --offline -q @FLAG@ 2> build.log || { cat build.log; exit 2; }
export RUST_BACKTRACE=0
timeout 120 "$work/target/@DIR@/demo"
'''
# For properties about what compiles: each program in accept.rs or refuse.rs (one a line) is compiled on its own.
SHC = SH[:SH.index('cp "$here/demo.rs"')].replace("Builds demo.rs against the crate in the current directory and runs it", "Compiles each line of accept.rs and refuse.rs against the crate in the current directory") + SH[SH.index('cp "$repo/Cargo.lock"'):SH.index("cargo build")] + """check() {
    (cat "$here/head.rs"; echo "$1"; echo "fn main() {}") > src/main.rs
    timeout 120 cargo check --offline -q 2> check.log
}
check "" || { cat check.log; exit 2; }
while IFS= read -r line; do
    check "$line" || { echo "refused: $line"; grep -m1 error check.log; exit 1; }
done < "$here/accept.rs"
while IFS= read -r line; do
    check "$line" && { echo "accepted: $line"; exit 1; }
    grep -q "borrow\\|lifetime\\|E0599\\|E0382\\|E0597" check.log || { cat check.log; exit 2; }
done < "$here/refuse.rs"
exit 0
"""
# For properties about memory: demo.rs is run by the interpreter, with the crate's sources as they are and without its
# build script, which tells apart nightly compilers of another time.
SHM = SH[:SH.index('mkdir "$work/src"')].replace("Builds demo.rs against the crate in the current directory and runs it", "Runs demo.rs with the crate in the current directory under Miri") + r"""mkdir "$work/src" "$work/palmtree"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/palmtree/Cargo.toml" <<EOF
[package]
name = "palmtree"
version = "0.1.0"
edition = "2018"
build = false
[lib]
path = "$repo/src/lib.rs"
[dependencies]
refpool = "0.4.2"
typenum = "1.12"
arrayvec = "0.5.1"
generic-array = "0.14.2"
EOF
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
palmtree = { path = "palmtree" }
typenum = "1.12"
[workspace]
EOF
cd "$work" || exit 2
unset RUSTUP_TOOLCHAIN
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTFLAGS= RUSTC_WRAPPER=
export MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-preemption-rate=0 -Zmiri-disable-weak-memory-emulation -Zmiri-seed=1"
timeout 250 cargo +nightly miri run --offline -q @FLAG@ > run.log 2>&1
rc=$?
grep -v "^warning" run.log | tail -40
grep -q "Undefined Behavior" run.log && exit 1
[ $rc -eq 0 ] || exit 2
"""
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    if not os.path.exists(S):
        shutil.copytree("/repo", S, symlinks=True)
    rc = 0
    for b in ns["bugs"]:
        if only and b["id"] not in only:
            continue
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=S)
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(S, f)
                t = open(p).read()
                assert t.count(old) == 1, "%s: %d matches of %r" % (f, t.count(old), old[:60])
                open(p, "w").write(t.replace(old, new))
        except AssertionError as e:
            print(b["id"], "EDIT", e); rc = 1; continue
        diff = sh("git diff", cwd=S).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rel = b.get("profile") == "release"
        if "refuse" in b:
            for n in ("head", "accept", "refuse"):
                open(os.path.join(d, n + ".rs"), "w").write("".join(l + "\n" for l in b[n]))
            open(os.path.join(d, "demo.sh"), "w").write(SHC)
        elif "miri" in b:
            open(os.path.join(d, "demo.rs"), "w").write(b["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(SHM.replace("@FLAG@", "--release" if rel else ""))
        else:
            open(os.path.join(d, "demo.rs"), "w").write(b["demo"].lstrip())
            open(os.path.join(d, "demo.sh"), "w").write(SH.replace("@FLAG@", "--release" if rel else "").replace("@DIR@", "release" if rel else "debug"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # original lines?
        orig = 0
        for f in {e[0] for e in b["edits"]}:
            n = 0
            blame = sh("git blame -s HEAD -- " + f, cwd=S).stdout.splitlines()
            for l in sh("git diff -U0 -- " + f, cwd=S).stdout.splitlines():
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(",")
                    n, c = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    orig += sum(1 for x in blame[n-1:n-1+c] if BASE in x.split()[0] and len(x.split(")", 1)[-1].strip()) > 1) if c else 0
        msgs = []
        if not orig: msgs.append("NO ORIGINAL LINE")
        # build and test in the copy: the scripts name /repo, so rewrite them
        env = dict(os.environ)
        scr = {}
        for n in ("build", "test"):
            scr[n] = open("/opt/vp/%s.sh" % n).read().replace("cd /repo", "cd " + S).replace("/repo/target", S + "/target")
        r = sh(scr["build"], cwd=S, executable="/bin/bash")
        if r.returncode: msgs.append("BUILD FAILS\n" + r.stdout[-1500:])
        else:
            out = "/tmp/seedwork.json"
            open("/tmp/seedtest.sh", "w").write(scr["test"])
            sh("bash /tmp/seedtest.sh " + out)
            try:
                res = json.load(open(out))
                stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                ok = set(res.get("passed", []))
                bad = [t for t in stable if t not in ok]
                if bad: msgs.append("TESTS FAIL %s" % bad)
            except Exception as e:
                msgs.append("TEST RESULT? %r" % e)
            r = sh(os.path.join(d, "demo.sh"), cwd=S)
            if r.returncode == 0: msgs.append("DEMO PASSES PATCHED")
            dem = r.returncode, ' '.join(r.stdout.split())[:110]
            r = sh(os.path.join(d, "demo.sh"), cwd="/repo")
            if r.returncode: msgs.append("DEMO FAILS CLEAN: " + r.stdout[:1500])
            if not msgs: msgs.append("ok   (patched: exit %s %s)" % dem)
        print(b["id"], "; ".join(msgs), flush=True)
    sh("git checkout -q -- .", cwd=S)
    return rc
if __name__ == "__main__":
    sys.exit(main())
