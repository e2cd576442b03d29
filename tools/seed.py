"""seed.py DEFS.py [ID..]: write seeded/<id>/ from definitions, and try each demonstration.

A definitions file sets SEEDS = [dict(id, prop, file, edits=[(old, new)..], main, needs, breaks,
toml=None, features=[], expect='run'|'sh', sh=None)]. A demonstration is a crate with main.rs."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
DEMO = """#!/bin/sh
# cwd: the hooq checkout. Builds the crate beside this file against it and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" && cp "$D"/*.rs "$W/src/" && cp "$R/Cargo.lock" "$W/" || exit 1
[ -f "$D/hooq.toml" ] && cp "$D/hooq.toml" "$W/"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
@DEPS@
[workspace]
EOF
cd "$W" || exit 1
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_TARGET_DIR="${SEED_TARGET:-$W/target}" CARGO_NET_OFFLINE=true
@RUN@
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    shutil.rmtree(WT, ignore_errors=True)
    sh(f"git -C /repo worktree prune; git -C /repo worktree add --detach {WT} HEAD")
    env = dict(os.environ, SEED_TARGET="/tmp/seedtarget")
    for s in seeds:
        if only and s["id"] not in only:
            continue
        sh(f"git -C {WT} checkout -q -- .")
        edits = s["edits"] if isinstance(s["edits"][0], (list, tuple)) else [s["edits"]]
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        deps = [f'hooq = {{ path = "$R/hooq", features = {json.dumps(s.get("features", []))} }}'] + s.get("deps", [])
        files = dict(s.get("files", {}))
        if "main" in s:
            files["main.rs"] = s["main"]
        for n, t in files.items():
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t.lstrip("\n"))
        if s.get("toml"):
            with open(os.path.join(d, "hooq.toml"), "w") as f:
                f.write(s["toml"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO.replace("@DEPS@", "\n".join(deps)).replace("@RUN@", s.get("run", "cargo run -q --offline")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        r = sh(f"sh {d}/demo.sh", cwd=WT, env=env)
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:], r.stderr[-1500:])
            continue
        ok = True
        for e in edits:
            fn, old, new = e if len(e) == 3 else (s["file"], *e)
            p = os.path.join(WT, fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "edit matches", t.count(old), "times:", old[:60])
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            continue
        diff = sh(f"git -C {WT} diff").stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        r = sh(f"sh {d}/demo.sh", cwd=WT, env=env)
        w = sh("grep -rn '^error' || true", input=r.stderr)
        print(s["id"], "ok" if r.returncode else "DEMO PASSES WITH THE PATCH", (r.stderr.strip().split("\n") or [""])[:3])
    sh(f"git -C /repo worktree remove --force {WT}")


main()
