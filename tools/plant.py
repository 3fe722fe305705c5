#!/opt/horus-venv/bin/python
"""developer tool for planted bugs.
  plant.py make SPEC.py [ID..]   build seeded/<id>/ from a spec (list BUGS of dicts) using a scratch copy /tmp/w-<id>
  plant.py check ID [RUNS]       run the property's check (and any others given with -p) against a scratch copy
  plant.py full ID..             apply to /repo: stable tests + demo (patched and clean), revert
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy(i):
    w = "/tmp/w-" + i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w))
    return w


def make(b):
    i = b["id"]
    w = copy(i)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        n = s.count(old)
        assert n == b.get("count", 1), "%s: %d matches in %s for %r" % (i, n, f, old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(SEED, i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run("git -C %s diff" % w, shell=True, stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for name, text in b.get("files", {}).items():
        if text is None:
            continue
        open(os.path.join(d, name), "w").write(text)
        if name.endswith(".sh"):
            os.chmod(os.path.join(d, name), 0o755)
    shutil.rmtree(w)
    print("made", i, len(diff), "bytes")


def check(i, prop=None, runs=None, tier="quick"):
    m = json.load(open(os.path.join(SEED, i, "meta.json")))
    w = copy(i)
    r = sh("cd %s && git apply %s/patch.diff" % (w, os.path.join(SEED, i)))
    assert r.returncode == 0, r.stdout
    env = dict(os.environ, VERIF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
    if runs:
        env["VERIF_RUNS"] = str(runs)
    r = sh("cd %s && bin/check %s %s" % (V, prop or m["property"], tier), env=env)
    shutil.rmtree(w)
    lines = [l for l in r.stdout.splitlines() if l.startswith(("violation", "VIOLATION", "HARNESS", "NONDET", "OK", "Traceback")) or "runs," in l]
    print("%s vs %s: exit %d  %s" % (i, prop or m["property"], r.returncode, " | ".join(l[:260] for l in lines)))
    return r.returncode


def full(i):
    d = os.path.join(SEED, i)
    out = []
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip() == ""
    tmp = "/tmp/demo-" + i
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash /opt/vp/build.sh")
    r = sh("cd /repo && timeout 300 bash %s/demo.sh" % tmp)
    out.append("clean demo %d" % r.returncode)
    if r.returncode:
        out.append(r.stdout[-800:])
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        assert r.returncode == 0, r.stdout
        sh("bash /opt/vp/test.sh /tmp/t.json")
        t = json.load(open("/tmp/t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        out.append("missing tests %s" % [x for x in base if x not in t["passed"]])
        r = sh("cd /repo && timeout 300 bash %s/demo.sh" % tmp)
        out.append("patched demo %d: %s" % (r.returncode, r.stdout[-300:].strip()))
    finally:
        sh("git -C /repo checkout -- .")
    sh("git -C /repo clean -nd")
    shutil.rmtree(tmp)
    print(i, "; ".join(out), flush=True)


cmd = sys.argv[1]
if cmd == "make":
    ns = {"__file__": sys.argv[2]}
    sys.path.insert(0, os.path.join(V, "lib"))
    sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[2])))
    exec(open(sys.argv[2]).read(), ns)
    for b in ns["BUGS"]:
        if len(sys.argv) < 4 or b["id"] in sys.argv[3:]:
            make(b)
elif cmd == "check":
    a = sys.argv[2:]
    prop = None
    if "-p" in a:
        k = a.index("-p")
        prop = a[k + 1]
        del a[k:k + 2]
    for i in a:
        check(i, prop)
elif cmd == "full":
    for i in sys.argv[2:]:
        full(i)
