#!/usr/bin/env python3
"""mutate.py [-j N] [filter]: runs the checks named by each entry of mutants.py on a changed scratch copy of /repo.
Entries: (name, [properties], file, old, new, expect) with expect 'bad' (must be reported) or 'ok' (must be quiet).
old/new may be lists for several replacements; scratch lives in /tmp/mut and is removed with --clean."""
import os, re, shutil, subprocess, sys, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/mut"
args = sys.argv[1:]
if "--clean" in args:
    shutil.rmtree(BASE, ignore_errors=True)
    sys.exit(0)
N = 6
if "-j" in args:
    i = args.index("-j")
    N = int(args[i + 1])
    del args[i:i + 2]
pat = re.compile(args[0] if args else ".")
M = []
exec(open(os.path.join(ROOT, "tools", "mutants.py")).read())
sys.path.insert(0, os.path.join(ROOT, "tools"))
import seeds
for a, k in seeds.S:
    M.append(("seed-" + a[0], [a[1]], [e[0] for e in a[2]], [e[1] for e in a[2]], [e[2] for e in a[2]], "bad"))
todo = queue.Queue()
sel = [m for m in M if pat.search(m[0]) or any(pat.fullmatch(p) for p in m[1])]
for m in sel:
    todo.put(m)
out = []
lock = threading.Lock()


def prep(k):
    d = os.path.join(BASE, "w%s" % k)
    repo, work = d + "/repo", d + "/work"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "target", "--exclude", "out", os.environ.get("MUTATE_BASE", "/repo") + "/", repo + "/"], check=True) if shutil.which("rsync") else copy(repo)
    if not os.path.exists(work + "/tgt"):
        os.makedirs(work, exist_ok=True)
        subprocess.run(["cp", "-a", os.path.join(ROOT, ".work", "tgt"), work + "/tgt"], check=True)
    return repo, work


def copy(repo):
    shutil.rmtree(repo, ignore_errors=True)
    os.makedirs(repo)
    for x in ("Cargo.toml", "Cargo.lock", "mrp", "protobuf", "src", "call_sim", "regex-aot"):
        p = os.environ.get("MUTATE_BASE", "/repo") + "/" + x
        if os.path.exists(p):
            subprocess.run(["cp", "-a", p, repo + "/"], check=True)


def apply_only(name):
    """leave a scratch copy with one entry applied in /tmp/mut/dbg"""
    global BASE
    repo, wk = prep("dbg")
    for m in M:
        if m[0] == name:
            olds, news = (m[3], m[4]) if isinstance(m[3], list) else ([m[3]], [m[4]])
            files = m[2] if isinstance(m[2], list) else [m[2]] * len(olds)
            for f, o, n in zip(files, olds, news):
                p = os.path.join(repo, f)
                s = open(p).read()
                open(p, "w").write(s.replace(o, n, 1))
    print("export VERIF_REPO=%s VERIF_WORK=%s VERIF_EVIDENCE=/tmp/mut/ev" % (repo, wk))


def work(k):
    repo, wk = prep(k)
    while True:
        try:
            m = todo.get_nowait()
        except queue.Empty:
            return
        name, props, file, old, new, expect = m[:6]
        olds, news = (old, new) if isinstance(old, list) else ([old], [new])
        files = file if isinstance(file, list) else [file] * len(olds)
        saved = {}
        bad = None
        for f, o, n in zip(files, olds, news):
            p = os.path.join(repo, f)
            s = open(p).read()
            saved.setdefault(p, s)
            if s.count(o) < 1:
                bad = "no match for %r in %s" % (o[:60], f)
                break
            s = s.replace(o, n, 1)
            open(p, "w").write(s)
        res = []
        if bad is None:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_WORK=wk, VERIF_EVIDENCE=os.path.join(BASE, "w%s" % k, "ev"))
            for pr in props:
                r = subprocess.run([sys.executable, os.path.join(ROOT, "checks", "run.py"), pr], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                hit = "VIOLATION property=%s" % pr in r.stdout and r.returncode == 1
                first = [l for l in r.stdout.splitlines() if l.strip() and not l.startswith("    ")]
                if "type-checking /repo" in r.stdout:
                    hit = None
                    first = [l for l in r.stdout.splitlines() if l.startswith("error")] or first
                res.append((pr, hit, first[0][:170] if first else "", len([l for l in first if "/" in l and not l.startswith("VIOL")])))
        for p, s in saved.items():
            open(p, "w").write(s)
        with lock:
            if bad:
                line = "?? %s: %s" % (name, bad)
            else:
                hits = [h for _, h, _, _ in res]
                good = None in hits and "BUILD" or (any(hits) if expect == "bad" else not any(hits))
                line = "%s %s [%s] %s" % ("??" if good == "BUILD" else "ok" if good else "XX", name, expect, " | ".join("%s:%s %s" % (p, {True: "caught", False: "quiet", None: "no build"}[h], f if (h or h is None) else "") for p, h, f, _ in res))
            out.append(line)
            print(line, flush=True)


if "--apply" in args:
    apply_only(args[args.index("--apply") + 1])
    sys.exit(0)
ts = [threading.Thread(target=work, args=(k,)) for k in range(min(N, len(sel)))]
for t in ts:
    t.start()
for t in ts:
    t.join()
print("%d run, %d unexpected" % (len(out), sum(1 for l in out if not l.startswith("ok"))))
