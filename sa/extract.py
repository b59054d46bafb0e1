"""Builds the MIR driver and runs it over /repo's current tree; caches by content hash."""
import fcntl, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
DRIVER = os.path.join(CACHE, "driver", "debug", "mirdump")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["RUSTC_WRAPPER"] = ""
    return e


def sysroot_lib():
    r = subprocess.run(["rustc", "--print", "sysroot"], env=env(), capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr)
    return os.path.join(r.stdout.strip(), "lib")


def build_driver():
    src = os.path.join(VERIF, "driver")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(CACHE, "driver", "stamp")
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(src, "Cargo.toml")],
                       env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("driver build failed\n" + r.stderr[-4000:])
    open(stamp, "w").write(h.hexdigest())


def repo_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not (root == REPO and d in (".git", "target")))
        for f in sorted(files):
            p = os.path.join(root, f)
            out.append((os.path.relpath(p, REPO), p))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, "driver", "src", "main.rs"), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for rel, p in files:
        h.update(rel.encode() + b"\0")
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def extract(profile="dev"):
    """profile 'dev' or 'release'. Returns the directory with one JSON per crate."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        files = repo_files()
        key = tree_hash(files)
        out = os.path.join(CACHE, "dumps", key + "-" + profile)
        if os.path.exists(os.path.join(out, "OK")):
            return out
        # keep the cache small
        dd = os.path.join(CACHE, "dumps")
        if os.path.isdir(dd) and len(os.listdir(dd)) > 40:
            for x in sorted(os.listdir(dd), key=lambda n: os.path.getmtime(os.path.join(dd, n)))[:20]:
                shutil.rmtree(os.path.join(dd, x))
        mirror = os.path.join(CACHE, "mirror")
        if os.path.isdir(mirror):
            shutil.rmtree(mirror)
        for rel, p in files:
            d = os.path.join(mirror, rel)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            if os.path.isfile(p):
                shutil.copyfile(p, d)
        if not os.path.exists(os.path.join(mirror, "Cargo.lock")):
            shutil.copyfile(os.path.join(VERIF, "driver", "repo.Cargo.lock"), os.path.join(mirror, "Cargo.lock"))
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        e["VP_OUT"] = out
        lib = sysroot_lib()
        e["LD_LIBRARY_PATH"] = lib + (":" + e["LD_LIBRARY_PATH"] if e.get("LD_LIBRARY_PATH") else "")
        prof = "debug" if profile == "dev" else "release"
        fp = os.path.join(CACHE, "target", prof, ".fingerprint")
        if os.path.isdir(fp):  # cargo's freshness cache would skip the wrapper
            for n in os.listdir(fp):
                if n.startswith("stringology-"):
                    shutil.rmtree(os.path.join(fp, n))
        cmd = ["cargo", "check", "--offline", "--lib", "--bins"]
        if profile == "release":
            cmd.append("--release")
        r = subprocess.run(cmd, cwd=mirror, env=e, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("cargo check of the current tree failed\n" + r.stderr[-4000:])
        open(os.path.join(out, "OK"), "w").write("ok")
        shutil.rmtree(mirror)
        return out


if __name__ == "__main__":
    try:
        build_driver()
        for p in sys.argv[1:] or ["dev"]:
            print(extract(p))
    except BuildError as x:
        print(x)
        sys.exit(2)
