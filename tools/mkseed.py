#!/usr/bin/env python3
"""make /verif/seeded/<id>/ from a definition: edits of /repo files, a demo main.rs.
usage: mkseed.py FILE.py [id...]   FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=...)]"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# runs in the repository; exit 0: behaves as specified
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
graviola = { path = "$PWD/graviola"@FEAT@ }
@DEPS@
[workspace]
[profile.release]
debug-assertions = false
E
cp Cargo.lock "$T/Cargo.lock" 2>/dev/null
@RF@cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 250 cargo run --offline -q --release
'''
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(H, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f . && git -c user.name=a -c user.email=a@b commit -qm x" % (t, t), shell=True, check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(t, f)
        x = open(p).read()
        assert x.count(old) == 1, (s["id"], f, x.count(old))
        open(p, "w").write(x.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(s["main"].lstrip())
    deps = s.get("deps", "").replace("@", "$PWD")
    open(d + "/demo.sh", "w").write(DEMO.replace("@FEAT@", s.get("feat", "")).replace("@DEPS@", deps).replace("@RF@", "export RUSTFLAGS='%s'\n" % s["rustflags"] if "rustflags" in s else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
    print("made", s["id"])
