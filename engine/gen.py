#!/usr/bin/env python3
"""Writes a cargo workspace over ALL of ringrtc's Rust code, for type-checking only.

Every source file is a symlink into REPO, so the compiler reads /repo's own code.  Four files are
made here at each run:
  Cargo.toml            members mrp, protobuf, src/rust; no git [patch]
  src/rust/Cargo.toml   /repo's, with the three git-only dependencies pointed at /verif/stubs,
                        no bins/tests, lib crate type
  src/rust/build.rs     empty: nothing is linked
  Cargo.lock            /repo's, pruned offline by cargo
"""
import os, re, sys, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), "stubs")


def gen(repo, ws, stubs=STUBS, tests=False):
    def read(p):
        with open(os.path.join(repo, p), encoding="utf-8") as f:
            return f.read()

    def write(p, text):
        p = os.path.join(ws, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if os.path.islink(p):
            os.unlink(p)
        try:
            with open(p, encoding="utf-8") as f:
                if f.read() == text:
                    return
        except FileNotFoundError:
            pass
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)

    def link(p):
        dst = os.path.join(ws, p)
        src = os.path.join(repo, p)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.islink(dst):
            if os.readlink(dst) == src:
                return
            os.unlink(dst)
        elif os.path.isdir(dst):
            shutil.rmtree(dst)
        elif os.path.exists(dst):
            os.unlink(dst)
        os.symlink(src, dst)

    # the resolver keeps the repo's own [workspace] keys
    t = read("Cargo.toml")
    t = re.sub(r"^\[patch\.crates-io\]\n.*?(?=^\[|\Z)", "", t, flags=re.M | re.S)
    t = re.sub(r'^members = \[.*?^\]', 'members = ["mrp", "protobuf", "src/rust"]', t, count=1, flags=re.M | re.S)
    write("Cargo.toml", t)
    m = read("src/rust/Cargo.toml")
    if not tests:
        m = re.sub(r"^\[\[(?:bin|test)\]\]\n.*?(?=^\[|\Z)", "", m, flags=re.M | re.S)
        m = m.replace("[package]\n", "[package]\nautobins = false\nautotests = false\n", 1)
    else:
        m = re.sub(r"^\[\[(?:bin)\]\]\n.*?(?=^\[|\Z)", "", m, flags=re.M | re.S)
        m = m.replace("[package]\n", "[package]\nautobins = false\n", 1)
    for c, feat in (("zkgroup", ""), ("libsignal-core", ""), ("x25519-dalek", ', features = ["static_secrets"]')):
        m = re.sub(rf"^{c}\s*=[^\n]*$", f'{c} = {{ path = "{stubs}/{c}"{feat} }}', m, flags=re.M)
    m = m.replace('crate-type = ["cdylib", "staticlib", "lib"]', 'crate-type = ["lib"]')
    write("src/rust/Cargo.toml", m)
    write("src/rust/build.rs", "fn main() { println!(\"cargo:rerun-if-changed=build.rs\"); }\n")
    link("src/rust/src")
    link("src/rust/regex-aot")
    if tests:
        link("src/rust/tests")
    link("mrp")
    link("protobuf")
    write(".cargo/config.toml", "[target.x86_64-unknown-linux-gnu.cubeb]\nrustc-cfg = []\n")
    lock = read("Cargo.lock")
    seed = os.path.join(ws, "Cargo.lock.repo")
    if not os.path.exists(seed) or open(seed, encoding="utf-8").read() != lock:
        write("Cargo.lock", lock)
        write("Cargo.lock.repo", lock)


if __name__ == "__main__":
    gen(sys.argv[1], sys.argv[2], *(sys.argv[3:4] or [STUBS]), tests="--tests" in sys.argv)
