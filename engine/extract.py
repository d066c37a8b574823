#!/usr/bin/env python3
"""Facts for /repo's current tree: builds the driver, lays out a workspace of symlinks into /repo,
type-checks it through the driver and caches the result under the hash of every file it reads."""
import fcntl, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen

REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(ROOT, ".work"))
CRATES = ["ringrtc", "mrp", "protobuf"]
FEATURES = "ringrtc/check-all,ringrtc/simnet,ringrtc/sim_http,ringrtc/virtual_audio,ringrtc/assets"
DRIVER = os.path.join(HERE, "driver", "target", "debug", "mirfacts")


class ExtractError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    roots = ["Cargo.toml", "Cargo.lock", "mrp", "protobuf", "src/rust"]
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b"?")
    for d, ds, fs in os.walk(HERE):
        ds[:] = sorted(x for x in ds if x not in ("target", "__pycache__"))
        for f in sorted(fs):
            if f in ("gen.py", "extract.py", "main.rs", "Cargo.toml"):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:24]


def run(cmd, cwd, env, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def base_env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_driver():
    d = os.path.join(HERE, "driver")
    rc, out = run(["cargo", "+nightly", "build", "--offline"], d, base_env(), 900)
    if rc or not os.path.exists(DRIVER):
        raise ExtractError("driver build failed:\n" + out[-3000:])


def extract(force=False):
    """-> directory with the three facts files"""
    os.makedirs(WORK, exist_ok=True)
    key = tree_hash()
    out = os.path.join(WORK, "facts", key)
    def ready():
        return all(os.path.exists(os.path.join(out, c + ".jsonl")) for c in CRATES)
    if ready() and not force:
        return out
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if ready() and not force:
            return out
        if not os.path.exists(DRIVER):
            build_driver()
        ws = os.path.join(WORK, "ws")
        tgt = os.path.join(WORK, "tgt")
        gen.gen(REPO, ws)
        env = base_env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
        tmp = out + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true", CARGO_PROFILE_DEV_DEBUG="0",
                   LD_LIBRARY_PATH=sysroot + "/lib", MIRFACTS_OUT=tmp, MIRFACTS_CRATES=",".join(CRATES),
                   RUSTC_WORKSPACE_WRAPPER=DRIVER, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
        for c in CRATES:
            for base in ("debug/build", "debug/.fingerprint"):
                b = os.path.join(tgt, base)
                if os.path.isdir(b):
                    for n in os.listdir(b):
                        if n == c or n.startswith(c + "-"):
                            shutil.rmtree(os.path.join(b, n), ignore_errors=True)
        rc, log = run(["cargo", "+nightly", "check", "--offline", "-p", "ringrtc", "--features", FEATURES], ws, env)
        miss = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".jsonl"))]
        if rc or miss:
            raise ExtractError("type-checking /repo through the driver failed (rc=%s, missing=%s):\n%s" % (rc, miss, log[-4000:]))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        fd = os.path.join(WORK, "facts")
        olds = sorted((os.path.getmtime(os.path.join(fd, n)), n) for n in os.listdir(fd))
        for _, n in olds[:-6]:
            if n != key:
                shutil.rmtree(os.path.join(fd, n), ignore_errors=True)
    return out


if __name__ == "__main__":
    t = time.time()
    if "--driver" in sys.argv:
        build_driver()
    print(extract("--force" in sys.argv), "%.1fs" % (time.time() - t))
