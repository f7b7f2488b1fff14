"""Extraction of the compiler's own view of /repo: MIR of each crate under each
feature configuration, built from the current working tree.  Nothing of /repo is
executed: cargo builds the crates and rustc prints their MIR."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DIMAN_REPO", "/repo")
TOOLCHAIN = "nightly-2024-10-20-x86_64-unknown-linux-gnu"
CACHE = os.environ.get("DIMAN_CACHE", os.path.join(VERIF, ".cache"))

# The five feature sets of .github/workflows/rust.yml
CONFIGS = {
    "default": dict(default=True, features=[]),
    "no-rational": dict(default=True, features=["glam", "glam-vec2", "glam-dvec2", "glam-vec3", "glam-dvec3",
                                                 "f32", "f64", "si", "mpi", "hdf5", "rand", "serde"]),
    "all-features": dict(default=True, features=["glam", "glam-vec2", "glam-dvec2", "glam-vec3", "glam-dvec3",
                                                  "f32", "f64", "si", "mpi", "hdf5", "rand", "serde",
                                                  "rational-dimensions", "num-traits-libm", "std"]),
    "nostd": dict(default=False, features=["f32", "f64", "si"]),
    "nostd-libm": dict(default=False, features=["f32", "f64", "si", "num-traits-libm"]),
}
# Further supported combinations of features, built on demand.
def _x(name, *features, default=False):
    return "x-" + name, dict(default=default, features=list(features))


EXTRA = dict([
    _x("none"), _x("f32", "f32"), _x("f64", "f64"), _x("f32-si", "f32", "si"), _x("f64-si", "f64", "si"), _x("f64-libm", "f64", "num-traits-libm"),
    _x("f32-si-libm", "f32", "si", "num-traits-libm"), _x("f64-si-libm", "f64", "si", "num-traits-libm"),
    _x("std", "std"), _x("std-f32-si", "std", "f32", "si"), _x("std-f64-si", "std", "f64", "si"), _x("std-si", "std", "si"),
    _x("std-libm", "std", "f32", "f64", "si", "num-traits-libm"),
    _x("serde-f32", "std", "f32", "si", "serde"), _x("serde-f64", "std", "f64", "si", "serde"),
    _x("serde-dvec3", "std", "si", "glam-dvec3", "serde"), _x("rand-f64", "f64", "si", "rand"), _x("rand-f32-std", "std", "f32", "si", "rand"),
    _x("mpi-f64", "std", "f64", "si", "mpi"), _x("mpi-dvec2", "std", "f64", "si", "mpi", "glam-dvec2"),
    _x("hdf5-f64", "std", "f64", "si", "hdf5"), _x("hdf5-vec3", "std", "f32", "si", "hdf5", "glam-vec3"),
    _x("vec2", "std", "si", "glam-vec2"), _x("dvec2", "std", "si", "glam-dvec2"), _x("vec3", "std", "si", "glam-vec3"),
    _x("dvec3", "std", "si", "glam-dvec3"), _x("vec2-nostd", "si", "glam-vec2"), _x("glam-f64", "std", "si", "glam", "f64"),
    _x("rational-f64", "std", "f64", "si", "rational-dimensions"), _x("rational-default", "rational-dimensions", default=True),
    _x("rational-libm", "num-traits-libm", "f64", "si", "rational-dimensions"),
    _x("rational-serde", "std", "f64", "si", "rational-dimensions", "serde"),
    _x("default-serde", "serde", default=True), _x("default-rand", "rand", default=True), _x("default-mpi", "mpi", default=True),
    _x("default-hdf5", "hdf5", default=True), _x("default-vec3", "glam-vec3", default=True),
])
# built with the settings of an ordinary release build (`released`)
RELEASE = dict([_x("release", default=True), _x("release-vectors", "std", "f32", "f64", "si", "glam-vec2", "glam-dvec2", "glam-vec3", "glam-dvec3",
                                                "rational-dimensions"),
                _x("release-nostd", "f32", "f64", "si"), _x("release-libm", "f32", "f64", "si", "num-traits-libm")])
IMPLIED = {"glam-vec2": ("glam", "f32"), "glam-dvec2": ("glam", "f64"), "glam-vec3": ("glam", "f32"), "glam-dvec3": ("glam", "f64")}


def spec(config):
    return CONFIGS.get(config) or EXTRA.get(config) or RELEASE[config]


def features(config):
    c = spec(config)
    out = set(c["features"]) | ({"f32", "f64", "si", "std"} if c["default"] else set())
    for f in list(out):
        out.update(IMPLIED.get(f, ()))
    return out


# features of the member crates (the default features of diman forward to theirs)
US_FEATURES = {"glam", "glam-vec2", "glam-dvec2", "glam-vec3", "glam-dvec3", "f32", "f64", "mpi", "serde", "rand",
               "hdf5", "rational-dimensions", "num-traits-libm", "std"}
LIB_FEATURES = {"num-traits-libm", "std"}


class ExtractError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO") and not k.startswith("RUST")}
    e.update(HOME=e.get("HOME", "/root"), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0", RUSTC_ICE="0",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_TARGET_DIR=os.path.join(CACHE, "target"),
             # every crate's metadata carries the MIR of every function, so that a
             # witness crate sees (and LLVM inlines) the bodies of diman and diman_lib
             RUSTFLAGS="-Zcross-crate-inline-threshold=always -Zalways-encode-mir")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "crates"):
        for d, dirs, fs in os.walk(os.path.join(REPO, base)):
            dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", ".git"))
            files += [os.path.join(d, f) for f in fs if f.endswith((".rs", ".toml"))]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(REPO, "README.md")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:16]


def ensure_lock():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.isfile(lock):
        for cand in ("/opt/vp/Cargo.lock", os.path.join(VERIF, "data", "Cargo.lock")):
            if os.path.isfile(cand):
                shutil.copy(cand, lock)
                return


class Lock:
    def __enter__(self):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def flags(config, universe=None):
    c = spec(config)
    feats = [f for f in c["features"] if universe is None or f in universe]
    if universe is not None and c["default"]:
        for f in ("f32", "f64", "std"):
            if f in universe and f not in feats:
                feats.append(f)
    out = []
    if universe is not None or not c["default"]:
        out.append("--no-default-features")
    if feats:
        out += ["--features", ",".join(feats)]
    return out


def run_cargo(args, what):
    p = subprocess.run(["cargo"] + args, env=env(), capture_output=True, text=True, cwd=CACHE)
    if p.returncode != 0:
        raise BuildError("%s failed to build:\n%s" % (what, p.stderr[-6000:]))
    return p.stdout


class BuildError(ExtractError):
    """The tree itself does not build."""


def outdir():
    d = os.path.join(CACHE, "mir", tree_hash())
    if not os.path.isdir(d):
        base = os.path.join(CACHE, "mir")
        if os.path.isdir(base):  # keep the few most recent trees
            def age(p):
                try:
                    return os.path.getmtime(p)
                except OSError:  # another thread removed it
                    return 0
            for o in sorted((os.path.join(base, x) for x in os.listdir(base)), key=age)[:-4]:
                shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d


CRATES = {
    "diman": ("Cargo.toml", "diman", None),
    "us": ("crates/diman_unit_system/Cargo.toml", "diman_unit_system", US_FEATURES),
    "lib": ("crates/diman_lib/Cargo.toml", "diman_lib", LIB_FEATURES),
}
WORKSPACE = ("diman", "diman_lib", "diman_unit_system")


def mir(crate, config, verbose=None):
    """Path of the MIR text of `crate` (diman | us | lib) under `config`.  Building
    diman also leaves its metadata and that of its dependencies in ext-<config>/."""
    if verbose is None:
        verbose = crate == "diman"
    d = outdir()
    path = os.path.join(d, "%s-%s%s.mir" % (crate, config, "-v" if verbose else ""))
    if os.path.isfile(path):
        return path
    manifest, name, universe = CRATES[crate]
    with Lock():
        if os.path.isfile(path):
            return path
        ensure_lock()
        tmp = path + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        # cargo's freshness check goes by modification times and skips the compiler
        # on a warm directory: forget the workspace crates first
        fp = os.path.join(CACHE, "target", "debug", ".fingerprint")
        forget = WORKSPACE if not os.path.isfile(os.path.join(d, "built-" + config)) else (name,)
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if re.fullmatch("(" + "|".join(forget) + r")-[0-9a-f]{16}", x):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        out = run_cargo(["rustc", "--offline", "--lib"] + (["--profile=check"] if crate != "us" else []) +
                        ["--manifest-path", os.path.join(REPO, manifest), "--message-format=json"] +
                        flags(config, universe) + ["--"] + (["-Zverbose-internals"] if verbose else []) +
                        ["--emit=mir=" + tmp, "--cap-lints", "allow"], "%s [%s]" % (name, config))
        if not os.path.isfile(tmp):
            raise ExtractError("no MIR emitted for %s [%s]" % (name, config))
        if crate == "diman":
            ext = os.path.join(d, "ext-" + config)
            shutil.rmtree(ext, ignore_errors=True)
            os.makedirs(ext)
            exts = {}
            for line in out.splitlines():
                if not line.startswith("{"):
                    continue
                m = json.loads(line)
                if m.get("reason") != "compiler-artifact" or "custom-build" in m["target"]["kind"]:
                    continue
                n = m["target"]["name"].replace("-", "_")
                for f in m["filenames"]:
                    if f.endswith((".rmeta", ".so")):
                        if n in WORKSPACE:
                            shutil.copy(f, ext)
                            f = os.path.join(ext, os.path.basename(f))
                        exts.setdefault(n, [])
                        if f not in exts[n]:
                            exts[n].append(f)
            json.dump(exts, open(os.path.join(ext, "externs.json"), "w"))
            open(os.path.join(d, "built-" + config), "w").close()
        os.rename(tmp, path)
    return path


def externs(config):
    mir("diman", config)
    ext = os.path.join(outdir(), "ext-" + config)
    return ext, json.load(open(os.path.join(ext, "externs.json")))


def released(config):
    """The artifacts of diman and its dependencies as `cargo build --release` makes them."""
    d = outdir()
    path = os.path.join(d, "release-%s.json" % config)
    if not os.path.isfile(path):
        with Lock():
            if os.path.isfile(path):
                return json.load(open(path))
            ensure_lock()
            target = os.path.join(CACHE, "release")
            fp = os.path.join(target, "release", ".fingerprint")
            if not [f for f in os.listdir(d) if f.startswith("release-")] and os.path.isdir(fp):
                for x in os.listdir(fp):  # see above
                    if re.fullmatch("(" + "|".join(WORKSPACE) + r")-[0-9a-f]{16}", x):
                        shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            e = env()
            del e["RUSTFLAGS"]
            e["CARGO_TARGET_DIR"] = target
            p = subprocess.run(["cargo", "build", "--offline", "--release", "--lib", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                                "--message-format=json"] + flags(config), env=e, capture_output=True, text=True, cwd=CACHE)
            if p.returncode != 0:
                raise BuildError("diman [%s] failed to build:\n%s" % (config, p.stderr[-6000:]))
            own = os.path.join(d, "own-" + config)
            shutil.rmtree(own, ignore_errors=True)
            os.makedirs(own)
            exts = {}
            for line in p.stdout.splitlines():
                m = json.loads(line) if line.startswith("{") else {}
                if m.get("reason") == "compiler-artifact" and "custom-build" not in m["target"]["kind"]:
                    n = m["target"]["name"].replace("-", "_")
                    for f in m["filenames"]:
                        if f.endswith((".rmeta", ".so")):
                            if n in WORKSPACE:
                                shutil.copy(f, own)
                                f = os.path.join(own, os.path.basename(f))
                            exts[n] = f
            json.dump([own, exts], open(path + ".tmp", "w"))
            os.rename(path + ".tmp", path)
    return json.load(open(path))


CRATE_OF = {"hdf5": "hdf5_metno"}


def rustc(config, src, out_args, uses=(), cfgs=(), crate_name="witness", opt=False, json_errors=True, timeout=600):
    """Compile a witness crate against this tree's diman; returns the process."""
    release = config in RELEASE
    cmd = ["rustc", "--edition=2021", "--crate-type=lib", "--crate-name", crate_name, src]
    if release:
        ext, exts = released(config)
        exts = {n: [f] for n, f in exts.items()}
        cmd += ["-L", "dependency=" + ext, "-L", "dependency=" + os.path.join(CACHE, "release", "release", "deps")]
    else:
        ext, exts = externs(config)
        cmd += ["-Cpanic=abort", "-L", "dependency=" + ext, "-L", "dependency=" + os.path.join(CACHE, "target", "debug", "deps")]
    for c in ("diman",) + tuple(uses):
        n = CRATE_OF.get(c, c)
        fs = exts.get(n) or exts.get(c) or []
        fs = [f for f in fs if f.endswith(".rmeta")] or fs
        if not fs:
            raise ExtractError("crate %s is not among the dependencies of diman [%s]" % (c, config))
        cmd += ["--extern", "%s=%s" % (c, fs[-1])]
    if release:
        cmd += ["-Copt-level=3", "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Ccodegen-units=1", "-Cdebuginfo=0"]
    elif opt:
        cmd += ["-Copt-level=3", "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Ccodegen-units=1", "-Cllvm-args=-inline-threshold=100000", "-Cdebuginfo=0"]
    for c in cfgs:
        cmd += ["--cfg", c]
    if json_errors:
        cmd.append("--error-format=json")
    cmd += list(out_args)
    return subprocess.run(cmd, env=env(), capture_output=True, text=True, cwd=CACHE, timeout=timeout)


if __name__ == "__main__":
    t = time.time()
    for c in CONFIGS:
        mir("diman", c)
        print("diman", c, "%.1fs" % (time.time() - t), flush=True)
    for c in ("default", "no-rational", "all-features"):
        mir("us", c)
        print("us", c, "%.1fs" % (time.time() - t), flush=True)
    for c in CONFIGS:
        mir("lib", c)
    for c in RELEASE:
        released(c)
        print("release", c, "%.1fs" % (time.time() - t), flush=True)
    print("done %.1fs" % (time.time() - t))
