"""Writes /verif/seeded/<id>/ from tools/seeds.py and confirms each change in a
scratch copy of /repo: patch applies, /opt/vp-style scope still compiles, demo
passes before and fails after.   mkseed.py [id ...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from seeds import SEEDS

HEAD = """#!/bin/bash
# exit 0 when the behaviour in main.rs holds, nonzero otherwise (cwd: the repository)
set -u
HERE=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PATH=/root/.cargo/bin:$PATH
"""
SHAPE = HEAD + """sed "s#@REPO@#$R#" "$HERE/main.rs" > "$W/main.rs"
rustc --edition 2021 --cap-lints allow -o "$W/demo" "$W/main.rs" || exit 1
"$W/demo"
"""
# a program that must be rejected by the compiler
REJ = HEAD + """sed "s#@REPO@#$R#" "$HERE/main.rs" > "$W/main.rs"
rustc --edition 2021 --cap-lints allow -o "$W/demo" "$W/main.rs" || exit 1
sed "s#@REPO@#$R#" "$HERE/must_not_compile.rs" > "$W/bad.rs"
! rustc --edition 2021 --cap-lints allow -o "$W/bad" "$W/bad.rs"
"""
LIB = HEAD + """cp -r "$HERE/approx_cmp" "$W/approx_cmp"; mkdir -p "$W/p/.cargo" "$W/p/src"; mkdir "$W/vend"; mv "$W/approx_cmp" "$W/vend/"
cp "$HERE/main.rs" "$W/p/src/main.rs"; cp "$HERE/lock" "$W/p/Cargo.lock"
cat > "$W/p/.cargo/config.toml" <<X
[source."git+https://github.com/lambdaxymox/approx_cmp/"]
git = "https://github.com/lambdaxymox/approx_cmp/"
replace-with = "vend"
[source.vend]
directory = "$W/vend"
[net]
offline = true
X
cat > "$W/p/Cargo.toml" <<X
[package]
name = "htf"
version = "0.1.0"
edition = "2021"
[dependencies]
cglinalg = { path = "$R" }
approx_cmp = { git = "https://github.com/lambdaxymox/approx_cmp/" }
[profile.dev]
debug = 0
[workspace]
X
cd "$W/p" && CARGO_TARGET_DIR="$W/t" cargo run -q --offline 2> "$W/err"; rc=$?
[ $rc = 0 ] || tail -20 "$W/err"
exit $rc
"""


def sh(c, cwd):
    return subprocess.run(c, cwd=cwd, shell=isinstance(c, str), capture_output=True, text=True)


def main():
    want = sys.argv[1:]
    S = "/tmp/seedrepo"
    shutil.rmtree(S, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", S], "/")
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        d = "%s/seeded/%s" % (V, s["id"])
        sh("git checkout -q .", S)
        ok = True
        for f, old, new in s["edits"]:
            t = open(S + "/" + f).read()
            if t.count(old) < 1:
                print("NO MATCH", s["id"], f, old[:60]); ok = False; break
            n = s.get("nth", 0)
            pos = -1
            for _ in range(n + 1):
                pos = t.index(old, pos + 1)
            t = t[:pos] + new + t[pos + len(old):]
            open(S + "/" + f, "w").write(t)
        if not ok:
            continue
        patch = sh("git diff", S).stdout
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/main.rs", "w").write(s["demo"])
        if s.get("kind", "lib") == "lib":
            open(d + "/demo.sh", "w").write(LIB)
            shutil.copytree(V + "/vend/approx_cmp", d + "/approx_cmp")
            shutil.copy(V + "/harness/tf/Cargo.lock", d + "/lock")
        elif s["kind"] == "librej":
            open(d + "/demo.sh", "w").write(LIB.replace("exit $rc\n", "[ $rc = 0 ] || exit $rc\ncp \"$HERE/must_not_compile.rs\" src/main.rs\n! CARGO_TARGET_DIR=\"$W/t\" cargo build -q --offline 2> \"$W/err\"\n"))
            open(d + "/must_not_compile.rs", "w").write(s["bad"])
            shutil.copytree(V + "/vend/approx_cmp", d + "/approx_cmp")
            shutil.copy(V + "/harness/tf/Cargo.lock", d + "/lock")
        elif s["kind"] == "rej":
            open(d + "/demo.sh", "w").write(REJ)
            open(d + "/must_not_compile.rs", "w").write(s["bad"])
        else:
            open(d + "/demo.sh", "w").write(SHAPE)
        os.chmod(d + "/demo.sh", 0o755)
        bad = sh(["bash", d + "/demo.sh"], S)
        scope = sh("cp /opt/vp/scope.rs /tmp/seedscope.rs; sed -i 's#/repo/#%s/#' /tmp/seedscope.rs; rustc --edition 2021 --test --cap-lints allow -o /tmp/seedscope /tmp/seedscope.rs && /tmp/seedscope" % S, S)
        sh("git checkout -q .", S)
        good = sh(["bash", d + "/demo.sh"], S)
        st = "ok" if good.returncode == 0 and bad.returncode != 0 and scope.returncode == 0 else "BAD"
        print(s["id"], st, "good", good.returncode, "with", bad.returncode, "scope", scope.returncode, (good.stdout + good.stderr)[-600:] if good.returncode else "", bad.stdout[-250:].replace("\n", " | "), scope.stderr[-300:] if scope.returncode else "", flush=True)
    shutil.rmtree(S, ignore_errors=True)


main()
