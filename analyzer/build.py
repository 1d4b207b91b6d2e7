"""Builds the driver and produces MIR dumps of /repo's current working tree."""
import os, subprocess, sys, json, hashlib, shutil, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OPG_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
RFLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Awarnings"
_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
    return _sysroot


def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, text=True, capture_output=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


class BuildError(Exception):
    def __init__(self, what, log):
        Exception.__init__(self, what)
        self.what, self.log = what, log


def lock():
    os.makedirs(TARGET, exist_ok=True)
    f = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    exe = os.path.join(TARGET, "driver", "debug", "mirdump")
    rc, log = run(["cargo", "+nightly", "build", "--offline", "--manifest-path", VERIF + "/driver/Cargo.toml",
                   "--target-dir", TARGET + "/driver"])
    if rc != 0:
        raise BuildError("driver", log)
    return exe


def repo_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    for root in (REPO, VERIF + "/witness", VERIF + "/driver/src", VERIF + "/analyzer"):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__", "gen"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".py", ".md")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def stage(name, files=None, template=None):
    """copy a witness crate template to the scratch area, with the path of the analysed tree filled in"""
    src = os.path.join(VERIF, "witness", template or name)
    dst = os.path.join(TARGET, "gen", name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    t = open(dst + "/Cargo.toml.in").read().replace("@REPO@", REPO).replace("@NAME@", name).replace("@VERIF@", VERIF)
    open(dst + "/Cargo.toml", "w").write(t)
    for p, c in (files or {}).items():
        os.makedirs(os.path.dirname(os.path.join(dst, p)), exist_ok=True)
        open(os.path.join(dst, p), "w").write(c)
    return dst


def seed_lock(dst):
    """put the committed lock file next to a generated manifest"""
    src = VERIF + "/witness/Cargo.lock.seed"
    if not os.path.exists(dst + "/Cargo.lock") and os.path.exists(src):
        shutil.copy(src, dst + "/Cargo.lock")


def forget(tdir, crates=()):
    """cargo's freshness test must never skip the analysed crates, whatever their time stamps say"""
    names = set(crates) | {"opg", "opg_derive"}
    for base in (os.path.join(tdir, "debug", ".fingerprint"), os.path.join(tdir, "debug", "build")):
        if os.path.isdir(base):
            for d in os.listdir(base):
                if d in names or d.rsplit("-", 1)[0] in names:
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)


def dump(manifest_dir, crates, features=None, tag="w", deps=False, target=None):
    """cargo check with the driver as wrapper; returns {crate: path of dump}"""
    exe = driver()
    out = os.path.join(TARGET, "dump", tag)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    seed_lock(manifest_dir)
    tdir = target or (TARGET + "/check")
    cmd = ["cargo", "+nightly", "check", "--offline", "--manifest-path", manifest_dir + "/Cargo.toml", "--target-dir", tdir]
    if features:
        cmd += ["--features", features]
    env = {"RUSTFLAGS": RFLAGS, "MIRDUMP_CRATES": ",".join(crates), "MIRDUMP_OUT": out, "RUSTC_WRAPPER" if deps else "RUSTC_WORKSPACE_WRAPPER": exe}
    forget(tdir, crates)
    rc, log = run(cmd, env)
    if rc != 0:
        raise BuildError(tag, log)
    res = {}
    for c in crates:
        p = os.path.join(out, c + ".json")
        if not os.path.exists(p):
            raise BuildError(tag, "no dump for " + c + "\n" + log)
        res[c] = p
    return res


def load(p):
    with open(p) as f:
        return json.load(f)


def externs(features=None):
    """artifacts of the analysed crates and their dependencies, for compiling single witness files"""
    d = stage("wext", {"src/lib.rs": "pub use opg; pub use serde; pub use uuid; pub use chrono; pub use wattr;\n"}, template="wgen")
    seed_lock(d)
    tdir = TARGET + "/ext"
    forget(tdir, ["wext"])
    cmd = ["cargo", "+nightly", "check", "--offline", "--message-format=json", "--manifest-path", d + "/Cargo.toml", "--target-dir", tdir]
    if features:
        cmd += ["--features", features]
    e = dict(os.environ)
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTFLAGS"] = "-Awarnings"
    p = subprocess.run(cmd, env=e, text=True, capture_output=True, timeout=800)
    if p.returncode != 0:
        log = p.stderr
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
                if m.get("reason") == "compiler-message":
                    log += m["message"].get("rendered") or ""
            except ValueError:
                pass
        raise BuildError("the library", log)
    ext, dirs = {}, set()
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rmeta", ".so")):
                    dirs.add(os.path.dirname(f))
                    if m["target"]["name"] in ("opg", "serde", "uuid", "chrono", "serde_derive", "opg_derive", "wattr"):
                        ext[m["target"]["name"]] = f
    return ext, sorted(dirs)


def compile_snippets(snips, ext=None, edition="2018"):
    """[(name, text)] -> {name: [error messages]}, each compiled on its own (metadata only)"""
    from concurrent.futures import ThreadPoolExecutor
    import tempfile
    ext = ext or externs()
    base = tempfile.mkdtemp(prefix="snip", dir=TARGET)
    args = []
    for n in ("opg", "serde", "uuid", "chrono", "wattr"):
        if n in ext[0]:
            args += ["--extern", "%s=%s" % (n, ext[0][n])]
    for d in ext[1]:
        args += ["-L", "dependency=" + d]
    rustc = os.path.join(sysroot(), "bin", "rustc")

    def one(x):
        i, (name, text) = x
        src = os.path.join(base, "s%d.rs" % i)
        open(src, "w").write(text)
        p = subprocess.run([rustc, "--edition", edition, "--crate-type", "lib", "--crate-name", "s%d" % i, "--emit=metadata", "--out-dir", base,
                            "--error-format=json", "-Awarnings"] + args + [src], text=True, capture_output=True, timeout=300)
        errs = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level") == "error" and not m["message"].startswith("aborting due to"):
                sp = [s for s in m.get("spans", []) if s.get("is_primary")]
                errs.append("%s%s" % (m["message"], " at line %d" % sp[0]["line_start"] if sp else ""))
        if p.returncode != 0 and not errs:
            errs.append("compiler ended with %d: %s" % (p.returncode, p.stderr[-300:]))
        return name, errs
    try:
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, enumerate(snips)))
    finally:
        shutil.rmtree(base, ignore_errors=True)
