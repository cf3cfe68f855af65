"""Build pipeline shared by all checks: /repo sources -> LLVM IR + native replay binary; engine build."""
import os, sys, re, subprocess, fcntl, hashlib, glob, shutil, time, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RUMPY_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"

def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", PYO3_PYTHON="/opt/vp/venv/bin/python", RUSTUP_TOOLCHAIN=TOOLCHAIN)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:]); raise SystemExit("build step failed: " + " ".join(map(str, cmd)) + "\nINCONCLUSIVE")
    return r.stdout

def llvm_tool(name):
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    p = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin", name)
    if os.path.exists(p): return p
    c = sorted(glob.glob(os.path.expanduser("~/.rustup/toolchains/stable*/lib/rustlib/*/bin/" + name)))
    return c[0]

def stale(out, srcs):
    if not os.path.exists(out): return True
    t = os.path.getmtime(out)
    return any(os.path.getmtime(s) > t for s in srcs)

def build_engine():
    out = os.path.join(BUILD, "sx"); srcs = sorted(glob.glob(os.path.join(ROOT, "engine/*.h")) + glob.glob(os.path.join(ROOT, "engine/*.cpp")))
    if stale(out, srcs):
        tmp = out + ".tmp%d" % os.getpid()
        run(["g++", "-std=c++17", "-O2", "-w", "-I", Z3 + "/include", os.path.join(ROOT, "engine/sx.cpp"), "-o", tmp, "-L", Z3 + "/lib", "-l:" + os.path.basename(sorted(glob.glob(Z3 + "/lib/libz3.so.*"))[0]), "-Wl,-rpath," + Z3 + "/lib"])
        os.replace(tmp, out)
    return out

KEYWORDS = {"where", "mod", "abstract", "type", "match", "move", "ref", "in", "as", "loop", "box", "yield", "try"}

def copy_sources(dst):
    """Mirror /repo/src into dst. The only edits: private `mod x;` in the binding layer become `pub mod x;`
    so that harnesses can name the registered entry points."""
    src = os.path.join(REPO, "src"); seen = set()
    for d, _, fs in os.walk(src):
        for f in fs:
            p = os.path.join(d, f); r = os.path.relpath(p, src)
            if r == "lib.rs" or r == "main.rs": continue
            s = open(p, encoding="utf-8", errors="surrogateescape").read()
            if r.startswith("python") and r.endswith(".rs"):
                s = re.sub(r"^(\s*)mod(\s+\w+\s*;)", r"\1pub mod\2", s, flags=re.M)
            q = os.path.join(dst, r); seen.add(q)
            write_if_changed(q, s)
    for d, _, fs in os.walk(dst):
        for f in fs:
            q = os.path.join(d, f)
            if q not in seen and f != "main.rs": os.unlink(q)

def gen_np():
    """`np::<name>` = the argument-binding wrapper of every function registered with the Python module."""
    base = os.path.join(REPO, "src/python"); tops, subs = {}, {}
    for f in sorted(glob.glob(base + "/**/*.rs", recursive=True)):
        t = open(f).read(); rel = os.path.relpath(f, base)[:-3].split(os.sep)
        if rel[-1] == "mod": rel = rel[:-1]
        for m in re.finditer(r"wrap_pyfunction!\(\s*([\w:#]+)\s*,", t):
            path = m.group(1).split("::")
            if path[0] == "crate": path = path[1:]
            elif path[0] == "super": path = ["python"] + rel[:-1] + path[1:]
            elif path[0] == "self": path = ["python"] + rel + path[1:]
            else: path = ["python"] + rel + path
            fn = path[-1].replace("r#", ""); mod = path[:-1]
            name = fn
            g = os.path.join(REPO, "src", *mod)
            for cand in (g + ".rs", os.path.join(g, "mod.rs")):
                if os.path.exists(cand):
                    for a in re.finditer(r"((?:\s*#\[[^\n]*\]|\s*//[^\n]*)+)\s*(?:pub(?:\([a-z]+\))?\s+)?fn\s+(?:r#)?" + fn + r"\b", open(cand).read()):
                        n = re.search(r'name\s*=\s*"(\w+)"', a.group(1))
                        if n: name = n.group(1)
            al = re.search(r'\.add\(\s*"(\w+)"\s*,\s*$', t[:m.start()])
            if al: name = al.group(1)
            top = (not rel) or re.search(r"fn\s+register_module\b", t)
            (tops if top else subs.setdefault(rel[-1], {}))[name] = "::".join(["crate"] + mod + ["__w_" + fn])
    def esc(n): return "r#" + n if n in KEYWORDS else n
    o = ["pub mod np {"]
    for n, p in sorted(tops.items()): o.append("  pub use %s as %s;" % (p, esc(n)))
    for s, d in sorted(subs.items()):
        s2 = s + "_" if s in tops else s
        o.append("  pub mod %s {" % (s2 if s2 != "char" else "chr"))
        for n, p in sorted(d.items()): o.append("    pub use %s as %s;" % (p, esc(n)))
        o.append("  }")
    o.append("}")
    return "\n".join(o)

def gen_main(groups):
    lib = open(os.path.join(REPO, "src/lib.rs")).read()
    o = ["// generated by bin/vx.py from /repo/src/lib.rs - do not edit", "#![allow(warnings)]", "#![no_main]", lib]
    H = os.path.join(ROOT, "harness/src")
    o.append(gen_np())
    o.append('#[path = "%s/sx.rs"] pub mod sx;' % H)
    o.append('#[path = "%s/util.rs"] #[macro_use] pub mod util;' % H)
    for g in groups: o.append('#[path = "%s/%s.rs"] pub mod %s;' % (H, g, g))
    o.append("static GROUPS: &[&[(&str, fn())]] = &[%s];" % ", ".join(g + "::H" for g in groups))
    o.append('''
#[no_mangle] pub extern "C" fn sx_main() -> i32 { let mut k = sx::pick() as usize; for g in GROUPS { if k < g.len() { util::init(); (g[k].1)(); return 0; } k -= g.len(); } 2 }
#[no_mangle] pub extern "C" fn sx_count() -> i32 { GROUPS.iter().map(|g| g.len()).sum::<usize>() as i32 }
#[no_mangle] pub extern "C" fn sx_name(i: i32, b: *mut u8, n: usize) { let mut k = i as usize; for g in GROUPS { if k < g.len() { let s = g[k].0.as_bytes(); let m = s.len().min(n - 1); unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), b, m); *b.add(m) = 0; } return; } k -= g.len(); } }
''')
    return "\n".join(o)

def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p, encoding="utf-8", errors="surrogateescape").read() == s: return
    open(p, "w", encoding="utf-8", errors="surrogateescape").write(s)

def build(groups=None, tag="all"):
    """Compile harness groups against /repo's working tree. Returns dict(ir, exe, names)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        engine = build_engine()
        H = os.path.join(ROOT, "harness")
        if groups is None:
            groups = sorted(os.path.basename(f)[:-3] for f in glob.glob(H + "/src/t_*.rs"))
        obj = os.path.join(BUILD, "sx_native.o")
        if stale(obj, [H + "/c/sx_native.c"]): run(["gcc", "-O1", "-c", H + "/c/sx_native.c", "-o", obj])
        gen = os.path.join(BUILD, "gen/src"); os.makedirs(gen, exist_ok=True)
        copy_sources(gen); write_if_changed(os.path.join(gen, "main.rs"), gen_main(groups))
        tgt = os.path.join(BUILD, "target")
        out = subprocess.run(["cargo", "rustc", "--offline", "--locked", "--profile", "sx", "--manifest-path", H + "/Cargo.toml", "--target-dir", tgt, "--", "-C", "save-temps", "-C", "link-arg=" + obj], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if out.returncode != 0:
            sys.stdout.write(out.stdout[-8000:]); print("INCONCLUSIVE: harness build failed"); sys.exit(2)
        exe = os.path.join(tgt, "sx/rumpy-sx")
        bcs = [f for f in glob.glob(tgt + "/sx/deps/rumpy_sx-*.rcgu.bc") if re.search(r"cgu\.0\.rcgu\.bc$", f)]
        bc = max(bcs, key=os.path.getmtime)
        for f in glob.glob(tgt + "/sx/deps/rumpy_sx-*"):
            if f.endswith((".rcgu.bc", ".rcgu.o", ".no-opt.bc", "lto.input.bc", "after-restriction.bc")) and f != bc: 
                try: os.unlink(f)
                except OSError: pass
        ir = os.path.join(BUILD, "ir-%s.ll" % tag); nexe = os.path.join(BUILD, "native-%s" % tag)
        if stale(ir, [bc]): run([llvm_tool("llvm-dis"), bc, "-o", ir])
        if stale(nexe, [exe]): shutil.copy(exe, nexe + ".t"); os.replace(nexe + ".t", nexe)
        names = run([nexe, "--list"]).split()
        return dict(ir=ir, exe=nexe, names=names, engine=engine, build_s=round(time.time() - t0, 2), groups=groups)

if __name__ == "__main__":
    b = build(sys.argv[1:] or None); print({k: v for k, v in b.items() if k != "names"}); print(len(b["names"]), "harnesses")
