#!/usr/bin/env python3
"""Copies /repo's crates into a generated cargo workspace (default /verif/target/stage) in which every
dependency that cannot be fetched offline, and every source of nondeterminism, is a path dependency on
the simulator's shim crates.  Source files are copied verbatim, and only when their content changed."""
import os, sys, shutil, tomllib, json
REPO = os.environ.get("SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIMS = os.path.join(HERE, "sim", "shims")

def shim_table():
    t = {}
    for d in sorted(os.listdir(SHIMS)):
        p = os.path.join(SHIMS, d, "Cargo.toml")
        if os.path.exists(p):
            with open(p, "rb") as f: m = tomllib.load(f)
            t[m["package"]["name"]] = (os.path.join(SHIMS, d), set(m.get("features", {})))
    return t

def q(v): return json.dumps(v)
def toml_val(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, str): return q(v)
    if isinstance(v, list): return "[" + ", ".join(toml_val(x) for x in v) + "]"
    if isinstance(v, dict): return "{ " + ", ".join(f"{q(k)} = {toml_val(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)

def conv(name, spec, shims, src_dir):
    """one dependency entry -> entry of the generated manifest"""
    if isinstance(spec, str): spec = {"version": spec}
    spec = dict(spec)
    pkg = spec.get("package", name)
    if spec.get("workspace"): return spec
    if pkg in shims:
        path, feats = shims[pkg]
        out = {"path": path}
        if pkg != name: out["package"] = pkg
        f = [x for x in spec.get("features", []) if x in feats]
        if f: out["features"] = f
        if spec.get("optional"): out["optional"] = True
        return out
    if "git" in spec:
        raise SystemExit(f"stage: no shim for git dependency {name}")
    if pkg == "tracing-subscriber" and "features" in spec:  # log timestamps need crates that are not cached
        spec["features"] = [f for f in spec["features"] if f not in ("local-time", "time")]
    return spec

def emit_table(out, head, table):
    out.append(f"[{head}]")
    for k, v in table.items(): out.append(f"{q(k)} = {toml_val(v)}")
    out.append("")

def write_if_changed(path, data):
    if isinstance(data, str): data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data: return
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(data)

def sync(src, dst, skip):
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if not skip(os.path.relpath(os.path.join(root, d), src))]
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), src)
            if rel == "Cargo.toml" or skip(rel): continue
            want.add(rel)
            with open(os.path.join(root, f), "rb") as fh: write_if_changed(os.path.join(dst, rel), fh.read())
    for root, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel != "Cargo.toml" and rel not in want: os.remove(os.path.join(root, f))

def stage(out_dir, with_tests=False):
    shims = shim_table()
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f: root = tomllib.load(f)
    crates_dir = os.path.join(REPO, "crates")
    names = sorted(d for d in os.listdir(crates_dir) if os.path.exists(os.path.join(crates_dir, d, "Cargo.toml")))
    drop = set() if with_tests else {"ide-tests", "ide-tests-corpus", "test-utils"}
    names = [n for n in names if n not in drop]
    out = []
    out += ["[workspace]", "members = " + toml_val([f"crates/{n}" for n in names]), 'resolver = "3"', ""]
    wp = dict(root["workspace"].get("package", {})); wp.pop("rust-version", None)
    emit_table(out, "workspace.package", wp)
    emit_table(out, "workspace.dependencies", {k: conv(k, v, shims, REPO) for k, v in root["workspace"]["dependencies"].items()})
    out += ["[profile.dev]", "opt-level = 1", 'debug = "line-tables-only"', "debug-assertions = false", "overflow-checks = false", ""]
    write_if_changed(os.path.join(out_dir, "Cargo.toml"), "\n".join(out))
    for n in names:
        src = os.path.join(crates_dir, n); dst = os.path.join(out_dir, "crates", n)
        sync(src, dst, (lambda rel: False) if with_tests else (lambda rel: rel.split(os.sep)[0] in ("tests", "benches", "examples", "target")))
        with open(os.path.join(src, "Cargo.toml"), "rb") as f: m = tomllib.load(f)
        o = []
        pk = dict(m["package"]); pk.pop("rust-version", None)
        if not with_tests: pk["autotests"] = False
        emit_table(o, "package", pk)
        if "lib" in m: emit_table(o, "lib", m["lib"])
        for b in m.get("bin", []): emit_table(o, "[bin]", b)
        if with_tests:
            for b in m.get("test", []): emit_table(o, "[test]", b)
        if "features" in m: emit_table(o, "features", m["features"])
        def deps(key, table):
            emit_table(o, key, {k: conv(k, v, shims, src) for k, v in table.items()})
        deps("dependencies", m.get("dependencies", {}))
        if with_tests: deps("dev-dependencies", m.get("dev-dependencies", {}))
        if "lints" in m: pass
        write_if_changed(os.path.join(dst, "Cargo.toml"), "\n".join(o))
    # crates that disappeared
    cd = os.path.join(out_dir, "crates")
    for d in os.listdir(cd):
        if d not in names: shutil.rmtree(os.path.join(cd, d))

if __name__ == "__main__":
    args = sys.argv[1:]
    t = "--tests" in args
    args = [a for a in args if a != "--tests"]
    stage(args[0] if args else os.path.join(HERE, "target", "stage"), t)
