"""mkseed.py DEFS.py [id...]: write seeded/<id>/ from definitions, verify each in a scratch
copy of /repo (builds, stable tests pass, demo passes without and fails with the change).
A definition: (id, property, needs, what, [(file, old, new)], demo) with demo
("run", features, profile, rust main) or ("reject", rust lib source) or ("accept", ...)."""
import json, os, re, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
RUN = '''#!/bin/bash
# cwd: the crate.  Exit 0 if the demonstrated behaviour is right.
here=$(cd "$(dirname "$0")" && pwd); crate=$(pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
indexing = { path = "$crate"%(feat)s }
[workspace]
EOF
cd "$t" && export RUSTFLAGS="-A dangerous_implicit_autorefs" CARGO_NET_OFFLINE=true
cargo build --offline%(rel)s --target-dir "$t/target" >"$t/log" 2>&1 || { cat "$t/log"; exit 3; }
timeout 60 "$t/target/%(dir)s/demo"
'''
TYPE = '''#!/bin/bash
# cwd: the crate.  good.rs has to compile and bad.rs must not.
here=$(cd "$(dirname "$0")" && pwd); crate=$(pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
try() {
  rm -rf "$t/src"; mkdir -p "$t/src"; cp "$here/$1.rs" "$t/src/lib.rs"
  cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
indexing = { path = "$crate", features = ["experimental_pointer_ranges"] }
[workspace]
EOF
  (cd "$t" && export RUSTFLAGS="-A dangerous_implicit_autorefs" CARGO_NET_OFFLINE=true; cargo check --offline --target-dir "$t/target") >"$t/log" 2>&1
}
try good || { cat "$t/log"; exit 3; }
if try bad; then echo "bad.rs compiles"; exit 1; fi
exit 0
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def fresh():
    if not os.path.isdir(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    sh(["git", "checkout", "-q", "--", "."], W)
    os.makedirs("/tmp/seedvp", exist_ok=True)
    for f in ("env.sh", "build.sh", "test.sh", "results.py"):
        s = open("/opt/vp/" + f).read().replace("/repo", W).replace("/opt/vp", "/tmp/seedvp")
        open("/tmp/seedvp/" + f, "w").write(s)


def main():
    defs = {}
    exec(open(sys.argv[1]).read(), defs)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for (sid, prop, needs, what, edits, demo) in defs["SEEDS"]:
        if sys.argv[2:] and sid not in sys.argv[2:]:
            continue
        fresh()
        d = os.path.join(R, "seeded", sid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if demo[0] == "run":
            _, feat, prof, src = demo
            f = ', features = ["%s"]' % feat if feat else ""
            open(os.path.join(d, "demo.sh"), "w").write(RUN % {"feat": f, "rel": " --release" if prof == "release" else "", "dir": prof})
            open(os.path.join(d, "demo.rs"), "w").write(src.lstrip("\n"))
        else:
            _, good, bad = demo
            open(os.path.join(d, "demo.sh"), "w").write(TYPE)
            open(os.path.join(d, "good.rs"), "w").write(good.lstrip("\n"))
            open(os.path.join(d, "bad.rs"), "w").write(bad.lstrip("\n"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        dm = os.path.join(d, "demo.sh")
        p = sh(["bash", dm], W)
        ok = True
        if p.returncode != 0:
            print(sid, "BAD: demo fails on the unchanged tree:", p.stdout.decode()[-1500:]); ok = False
        for f, old, new in edits:
            pth = os.path.join(W, "src", f)
            s = open(pth).read()
            if s.count(old) != 1:
                print(sid, "BAD: %d matches in %s: %s" % (s.count(old), f, old)); ok = False
            open(pth, "w").write(s.replace(old, new, 1))
        open(os.path.join(d, "patch.diff"), "wb").write(sh(["git", "diff"], W).stdout)
        p = sh(["bash", "/tmp/seedvp/build.sh"], W)
        if p.returncode != 0:
            print(sid, "BAD: does not build", p.stdout.decode()[-2500:]); ok = False
        else:
            sh(["bash", "/tmp/seedvp/test.sh", "/tmp/seedvp/out.json"], W)
            miss = stable - set(json.load(open("/tmp/seedvp/out.json"))["passed"])
            if miss:
                print(sid, "BAD: tests fail:", sorted(miss)[:6]); ok = False
        p = sh(["bash", dm], W)
        if p.returncode == 0:
            print(sid, "BAD: demo passes with the change"); ok = False
        elif p.returncode == 3:
            print(sid, "BAD: demo does not build with the change", p.stdout.decode()[-1500:]); ok = False
        if ok:
            print(sid, "ok; demo rc", p.returncode, p.stdout.decode().strip().splitlines()[-1:][0:1])
        sh(["git", "checkout", "-q", "--", "."], W)
        sys.stdout.flush()


main()
