"""Builds the dependencies and the MIR driver, and dumps /repo's current source."""
import fcntl
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PALM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
            if k not in ("CARGO_HOME",):
                del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "")
    return e


def run(cmd, cwd=None, extra=None):
    e = env()
    if extra:
        e.update(extra)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = run(["rustc", "+nightly", "--print", "sysroot"])
        if r.returncode != 0:
            raise BuildError("no nightly toolchain: " + r.stderr)
        _sysroot = r.stdout.strip()
    return _sysroot


def native_lib():
    """The compiled part of the numeric domain."""
    src = os.path.join(VERIF, "native", "fm.cpp")
    lib = os.path.join(BUILD, "libfm-%s.so" % file_hash(src))
    if not os.path.exists(lib):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (lib, os.getpid())
        r = run(["g++", "-O2", "-shared", "-fPIC", "-o", tmp, src])
        if r.returncode != 0:
            raise BuildError(r.stderr)
        os.replace(tmp, lib)
    return lib


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ensure_deps():
    """Returns (externs, dirs): the rlibs of the crates palmtree depends on."""
    stamp = os.path.join(BUILD, "deps.json")
    want = file_hash(os.path.join(VERIF, "deps/Cargo.toml"), os.path.join(VERIF, "deps/Cargo.lock"))
    if os.path.exists(stamp):
        d = json.load(open(stamp))
        if d.get("hash") == want and all(os.path.exists(p) for p in d["externs"].values()):
            return d["externs"], d["dirs"]
    r = run(["cargo", "+nightly", "build", "--offline", "--locked", "--message-format=json",
             "--manifest-path", os.path.join(VERIF, "deps/Cargo.toml"),
             "--target-dir", os.path.join(BUILD, "deps")])
    if r.returncode != 0:
        raise BuildError("building the dependencies failed:\n" + r.stderr)
    externs, dirs = {}, set()
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                dirs.add(os.path.dirname(f))
                if f.endswith(".rlib"):
                    externs[m["target"]["name"].replace("-", "_")] = f
    externs = {k: v for k, v in externs.items() if k in ("typenum", "arrayvec", "generic_array", "refpool", "arbitrary")}
    d = {"hash": want, "externs": externs, "dirs": sorted(dirs)}
    json.dump(d, open(stamp, "w"))
    return d["externs"], d["dirs"]


def ensure_driver():
    exe = os.path.join(BUILD, "driver/release/palm-driver")
    stamp = os.path.join(BUILD, "driver.hash")
    want = file_hash(os.path.join(VERIF, "driver/src/main.rs"), os.path.join(VERIF, "driver/Cargo.toml"),
                     os.path.join(VERIF, "driver/Cargo.lock"))
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe, want
    r = run(["cargo", "+nightly", "build", "--release", "--offline", "--locked",
             "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml"),
             "--target-dir", os.path.join(BUILD, "driver")])
    if r.returncode != 0:
        raise BuildError("building the driver failed:\n" + r.stderr)
    open(stamp, "w").write(want)
    return exe, want


def dep_args():
    externs, dirs = ensure_deps()
    out = []
    for n, p in sorted(externs.items()):
        out += ["--extern", "%s=%s" % (n, p)]
        meta = p[:-len(".rlib")] + ".rmeta"
        if os.path.exists(meta):
            out += ["--extern", "%s=%s" % (n, meta)]
    for d in dirs:
        out += ["-L", "dependency=" + d]
    return out


def repo_sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".rs"):
                out.append(os.path.join(base, f))
    for f in ("Cargo.toml", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def repo_edition():
    import re
    try:
        m = re.search(r'^edition\s*=\s*"(\d+)"', open(os.path.join(REPO, "Cargo.toml")).read(), re.M)
        return m.group(1) if m else "2018"
    except OSError:
        return "2018"


BASE_FLAGS = ["--crate-name", "palmtree", "--crate-type", "rlib", "--cap-lints", "allow"]


class CompileError(Exception):
    """/repo's source does not compile in this configuration."""


def dump(debug=True, features=()):
    """MIR dump (parsed) of /repo's current source in one configuration."""
    with Lock():
        exe, dh = ensure_driver()
        deps = dep_args()
        src = file_hash(*repo_sources())
        tag = "%s-%s-%s-%s" % (src, dh, "d" if debug else "r", "_".join(features) or "none")
        out = os.path.join(BUILD, "dump-%s.json" % tag)
        if not os.path.exists(out):
            for f in sorted(os.listdir(BUILD)):
                if f.startswith("dump-") and not f.startswith("dump-%s-%s" % (src, dh)):
                    os.unlink(os.path.join(BUILD, f))
            flag = "on" if debug else "off"
            args = [exe, out + ".tmp", os.path.join(REPO, "src/lib.rs"), "--edition", repo_edition()] + BASE_FLAGS + [
                "--sysroot", sysroot(), "--emit", "metadata", "-o", os.path.join(BUILD, "unused.rmeta"),
                "-C", "debug-assertions=" + flag, "-C", "overflow-checks=" + flag,
                "-Zmir-opt-level=0", "-Zinline-mir=no", "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"] + deps
            for f in features:
                args += ["--cfg", 'feature="%s"' % f]
            r = run(args, extra={"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib")})
            if not os.path.exists(out + ".tmp"):
                raise CompileError(r.stderr[-4000:])
            os.rename(out + ".tmp", out)
        return json.load(open(out))


def compile_repo(debug=True):
    """Compiles /repo's current source to an rlib with nightly; returns its path."""
    with Lock():
        deps = dep_args()
        src = file_hash(*repo_sources())
        out = os.path.join(BUILD, "rlib-%s-%s" % (src, "d" if debug else "r"))
        lib = os.path.join(out, "libpalmtree.rlib")
        if not os.path.exists(lib):
            for f in sorted(os.listdir(BUILD)):
                if f.startswith("rlib-") and not f.startswith("rlib-" + src):
                    p = os.path.join(BUILD, f)
                    for g in os.listdir(p):
                        os.unlink(os.path.join(p, g))
                    os.rmdir(p)
            os.makedirs(out, exist_ok=True)
            flag = "on" if debug else "off"
            r = run(["rustc", "+nightly", os.path.join(REPO, "src/lib.rs"), "--edition", repo_edition()] + BASE_FLAGS +
                    ["--emit", "link=" + lib, "-C", "debug-assertions=" + flag] + deps)
            if r.returncode != 0 or not os.path.exists(lib):
                raise CompileError(r.stderr[-4000:])
        return lib, deps


if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        with Lock():
            ensure_deps()
            ensure_driver()
        print("built")
