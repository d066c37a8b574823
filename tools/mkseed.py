#!/usr/bin/env python3
"""writes seeded/<id>/ from a spec: mkseed.seed(id, prop, file, old, new, pkg, src, demo, needs, breaks)
and checks it in a scratch copy: `python3 tools/mkseed.py verify ID...` (patch applies, stable tests pass, demo 0 / nonzero)"""
import difflib, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, pkg, src, demo, needs, breaks, script=None):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for f, old, new in edits:
        t = files.get(f) or (open("/repo/" + f).read(),) * 2
        assert t[1].count(old) == 1, (f, old, t[1].count(old))
        files[f] = (t[0], t[1].replace(old, new))
    for f, (a, b) in files.items():
        diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(demo)
    shutil.copy(V + "/tools/seedkit/demolib.sh", d)
    open(d + "/demo.sh", "w").write(script or '#!/bin/bash\n. "$(dirname "$0")/demolib.sh"\nrun_demo %s %s demo.rs\n' % (src, pkg))
    os.chmod(d + "/demo.sh", 0o755)


def sh(cmd, cwd, log):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=open(log, "w"), stderr=subprocess.STDOUT).returncode


def verify(id):
    t = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    d = os.path.join(V, "seeded", id)
    try:
        subprocess.check_call("mkdir %s/repo %s/d && git -C /repo archive HEAD | tar -C %s/repo -xf - && cp %s/* %s/d/ && rm %s/d/*.diff %s/d/meta.json" % (t, t, t, d, t, t, t), shell=True)
        r0 = sh(t + "/d/demo.sh", t + "/repo", t + "/log0")
        if sh("git init -q . && git apply %s/patch.diff" % d, t + "/repo", t + "/logp"):
            return id + ": patch does not apply"
        r1 = sh(t + "/d/demo.sh", t + "/repo", t + "/log1")
        cmd = ". /opt/vp/env.sh; cp -a /opt/vp/target {t}/target; export CARGO_TARGET_DIR={t}/target; sed 's#\"/repo\"#\"{t}/repo\"#; s#\"/opt/vp/ws\"#\"{t}/ws\"#' /opt/vp/gen.py > {t}/gen.py; python3 {t}/gen.py && cd {t}/ws && cargo test --workspace --no-fail-fast --offline --features $FEATURES -- --test-threads 8 --skip webrtc::audio_device_module::audio_device_module_tests".format(t=t)
        rt = sh(cmd, t + "/repo", t + "/logt")
        log = open(t + "/logt").read()
        fails = re.findall(r"^test (.*) \.\.\. FAILED", log, re.M)
        npass = len(re.findall(r"^test .* \.\.\. ok", log, re.M))
        s = "%s: clean demo %d, patched demo %d, tests %d (%d ok)%s" % (id, r0, r1, rt, npass, " FAILED " + str(fails) if fails else "")
        if r0 or not r1 or rt:
            for l in ["log0"] * bool(r0) + ["log1"] + ["logt"] * bool(rt):
                s += "\n--- " + l + "\n" + open(t + "/" + l).read()[-900:]
        elif "could not compile" in open(t + "/log1").read():
            s += "\n" + open(t + "/log1").read()[-900:]
        return s
    finally:
        shutil.rmtree(t)


if __name__ == "__main__" and sys.argv[1] == "verify":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(verify, sys.argv[2:]):
            print(r, flush=True)
