#!/usr/bin/env python3
"""Plants a bug:  python3 tools/plant.py <definition.py> ...

A definition is a Python file with ID, PROPERTY, NEEDS, BREAKS, EDITS (a list
of (file under aftermath-core, old text, new text)), KIND ("tree" or
"editor": which crates the demonstration uses) and DEMO (main.rs).  Writes
seeded/<ID>/ after confirming in a scratch copy of /repo that the change
applies, builds, passes the repository's stable tests, and that the
demonstration passes without it and fails with it.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TESTS = """set -e
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/tmp/plant_target
mkdir -p /tmp/plant_ws && cd /tmp/plant_ws
rm -f input_tree && ln -sfn %s/aftermath-core/input_tree input_tree
printf '[workspace]\\nresolver = "2"\\nmembers = ["input_tree"]\\n' > Cargo.toml
cp %s/aftermath-core/Cargo.lock Cargo.lock
cargo test --workspace --features input_tree/wasm --no-fail-fast --offline 2>&1
"""
DEMO_TREE = """#!/bin/bash
# exit 0: the property holds; run with the repository as working directory
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$HERE/demo.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
DEPS
EOF
cp "$REPO/aftermath-core/Cargo.lock" "$W/Cargo.lock"
cd "$W"
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" RUSTFLAGS=-Awarnings
cargo build --offline --quiet
timeout 60 "$W/target/debug/demo"
"""
DEPS = {
    "tree": 'input_tree = { path = "$REPO/aftermath-core/input_tree" }',
    "serial": 'input_tree = { path = "$REPO/aftermath-core/input_tree" }\nserialization = { path = "$REPO/aftermath-core/serialization" }',
    "editor": 'input_tree = { path = "$REPO/aftermath-core/input_tree" }\nserialization = { path = "$REPO/aftermath-core/serialization" }\n'
              'parser = { path = "$REPO/aftermath-core/parser" }\ncaret = { path = "$REPO/aftermath-core/caret" }\n'
              '[patch."https://github.com/zesterer/chumsky.git"]\nchumsky = { path = "$HERE/chumsky" }',
}
DEPS["web"] = (DEPS["editor"].replace('[patch', 'aftermath-core = { path = "$REPO/aftermath-core/web" }\nwasm-bindgen = "0.2"\nserde_json = "1.0"\n[patch')
               + "\n[patch.crates-io]\n" + "\n".join('%s = { path = "$HERE/wasm/%s" }' % (w, w) for w in
                 ("wasm-bindgen", "serde-wasm-bindgen", "tsify", "console_log", "console_error_panic_hook", "lol_alloc")))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(copy):
    p = run(["bash", "-c", TESTS % (copy, copy)])
    return p.returncode == 0 and len(re.findall(r"^test .* ok$", p.stdout, re.M)) >= 16, p.stdout


def main(path):
    d = runpy.run_path(path)
    out = os.path.join(HERE, "seeded", d["ID"])
    work = tempfile.mkdtemp(prefix="plant_")
    copy = os.path.join(work, "repo")
    try:
        run(["git", "-C", REPO, "worktree", "prune"])
        subprocess.check_call(["git", "clone", "-q", REPO, copy])
        stage = os.path.join(work, "demo")
        os.makedirs(stage)
        script = DEMO_TREE.replace("DEPS", DEPS[d["KIND"]])
        if d["KIND"] in ("editor", "web"):
            # the real lock file names chumsky by its git revision
            script = script.replace('cp "$REPO/aftermath-core/Cargo.lock" "$W/Cargo.lock"\n', 'cp "$HERE/demo.lock" "$W/Cargo.lock" 2>/dev/null || true\n')
            shutil.copy(os.path.join(HERE, "harness", "Cargo.lock"), os.path.join(stage, "demo.lock"))
            shutil.copytree(os.path.join(HERE, "harness", "chumsky"), os.path.join(stage, "chumsky"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        if d["KIND"] == "web":
            shutil.copytree(os.path.join(HERE, "harness", "wasm"), os.path.join(stage, "wasm"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        with open(os.path.join(stage, "demo.sh"), "w") as f:
            f.write(script)
        os.chmod(os.path.join(stage, "demo.sh"), 0o755)
        with open(os.path.join(stage, "demo.rs"), "w") as f:
            f.write(d["DEMO"])
        before = run(["bash", os.path.join(stage, "demo.sh")], cwd=copy)
        if before.returncode != 0:
            return "%s: the demonstration fails without the change:\n%s" % (d["ID"], before.stdout[-3000:])
        for file, old, new in d["EDITS"]:
            p = os.path.join(copy, "aftermath-core", file)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d places in %s for %r" % (d["ID"], s.count(old), file, old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
        ok, text = stable(copy)
        if not ok:
            return "%s: the stable tests fail with the change:\n%s" % (d["ID"], text[-2500:])
        after = run(["bash", os.path.join(stage, "demo.sh")], cwd=copy)
        if after.returncode == 0:
            return "%s: the demonstration passes with the change" % d["ID"]
        if "could not compile" in after.stdout:
            return "%s: does not build with the change:\n%s" % (d["ID"], after.stdout[-2500:])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        with open(os.path.join(out, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(out, "meta.json"), "w") as f:
            json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]), f, indent=1)
        return "%s: planted (%s)" % (d["ID"], after.stdout.strip().split("\n")[-1][:150])
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    for p in sys.argv[1:]:
        print(main(p), flush=True)
