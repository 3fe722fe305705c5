"""Builds what the simulators need from /repo's current working tree, under /verif/build, keyed by a hash of the sources."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from driver import BUILD, REPO, VERIF, HarnessError

DEFS = ["-DHORUS_L2_RX", "-DINTERLEAVER", "-DSCRAMBLER", "-DRUN_TIME_TABLES"]
PY = "/opt/horus-venv/bin/python"


def sources():
    """the modem library's own source list (what the project ships)"""
    t = open(os.path.join(REPO, "horusdemodlib", "horus_api_build.py")).read()
    m = re.search(r"sources\s*=\s*\[(.*?)\]", t, re.S)
    s = re.findall(r"[\"']\.?/?(src/[A-Za-z0-9_]+\.c)[\"']", m.group(1)) if m else []
    if not s:
        s = ["src/" + x for x in ("fsk.c kiss_fft.c kiss_fftr.c mpdecode_core.c H_256_768_22.c H_128_384_23.c golay23.c phi0.c horus_api.c horus_l2.c").split()]
    return [os.path.join(REPO, x) for x in s]


def _key(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(set(files)):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def _csrc():
    return glob.glob(os.path.join(REPO, "src", "*.c")) + glob.glob(os.path.join(REPO, "src", "*.h"))


def _locked(target, make):
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(target):
        return target
    with open(os.path.join(BUILD, ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(target):
            make(target)
    return target


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise HarnessError("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-3000:]))


FLAVOURS = {
    "plain": ["-O2", "-g0", "-ftrivial-auto-var-init=pattern"],
    "mt": ["-O1", "-g0", "-ftrivial-auto-var-init=pattern", "-fsanitize=thread"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow",
             "-fsanitize-recover=float-divide-by-zero"],
}


def c_program(name, main_c, flavour="plain", extra=(), repo_extra=()):
    srcs = sources() + [os.path.join(REPO, "src", x) for x in repo_extra]
    flags = FLAVOURS[flavour] + DEFS + ["-w", "-std=gnu11", "-I" + os.path.join(REPO, "src")] + list(extra)
    key = _key(_csrc() + [os.path.join(REPO, "horusdemodlib", "horus_api_build.py"), main_c] + glob.glob(os.path.join(os.path.dirname(main_c), "*.h")), (name, flavour, flags, repo_extra))
    target = os.path.join(BUILD, "%s-%s-%s" % (name, flavour, key))

    def make(t):
        d = t + ".d"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        procs, objs = [], []
        for s in srcs + [main_c]:
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            fl = [f for f in flags if f != "-fsanitize=thread"] + ["-DMT"] if s == main_c and flavour == "mt" else flags
            procs.append((s, subprocess.Popen(["gcc", "-c", s, "-o", o] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                raise HarnessError("compile failed: %s\n%s" % (s, out.decode(errors="replace")[-3000:]))
        run(["gcc", "-o", t + ".tmp"] + objs + [f for f in flags if f.startswith("-fsanitize") and f != "-fsanitize=thread" or f.startswith("-Wl")] + ["-lm"])
        shutil.rmtree(d)
        os.rename(t + ".tmp", t)
    return _locked(target, make)


def c_codec(main_c):
    """the generated Horus Binary v3 codec, every source in its directory as the project's CMake file takes them, with a simulated node"""
    d0 = os.path.join(REPO, "horusbinaryv3", "clib")
    srcs = sorted(glob.glob(os.path.join(d0, "*.c")))
    flags = ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DASN_DISABLE_OER_SUPPORT=1", "-I" + d0]
    link = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free")]
    key = _key(srcs + glob.glob(os.path.join(d0, "*.h")) + [main_c], (flags, link))
    target = os.path.join(BUILD, "csim-" + key)

    def make(t):
        d = t + ".d"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        todo, running, objs = srcs + [main_c], [], []
        while todo or running:
            while todo and len(running) < 8:
                s = todo.pop()
                objs.append(os.path.join(d, os.path.basename(s) + ".o"))
                running.append((s, subprocess.Popen(["gcc", "-c", s, "-o", objs[-1]] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            s, p = running.pop(0)
            out = p.communicate()[0]
            if p.returncode:
                raise HarnessError("compile failed: %s\n%s" % (s, out.decode(errors="replace")[-3000:]))
        run(["gcc", "-o", t + ".tmp"] + objs + ["-fsanitize=address,undefined"] + link + ["-lm"])
        shutil.rmtree(d)
        os.rename(t + ".tmp", t)
    return _locked(target, make)


def tsim(main_c):
    """the tools of the transmit/test chain in one program: every tool with a private, localised copy of the libraries it links"""
    cl = os.path.join(REPO, "horusbinaryv3", "clib")
    src = os.path.join(REPO, "src")
    tools = {"gen": ["horus_gen_test_bits.c"], "get": ["fsk_get_test_bits.c"], "put": ["fsk_put_test_bits.c"], "mod": ["fsk_mod.c"],
             "demod": ["fsk_demod.c", "modem_probe.c", "octave.c"], "horus": ["horus_demod.c"]}
    base = ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
    asan = base + FLAVOURS["asan"][3:] + DEFS + ["-std=gnu11", "-I" + src, "-I" + cl, "-DASN_DISABLE_OER_SUPPORT=1"]
    codec = base + ["-DASN_DISABLE_OER_SUPPORT=1", "-I" + cl]
    ren = ["-Dexit=sim_exit", "-Dfopen=sim_fopen", "-Dtime=sim_time", "-Dsignal=sim_signal", "-D_exit=sim__exit", "-D_Exit=sim__exit", "-Dquick_exit=sim__exit"]
    ccs = sorted(glob.glob(os.path.join(cl, "*.c")))
    key = _key(_csrc() + ccs + glob.glob(os.path.join(cl, "*.h")) + [main_c], (asan, codec, ren, tools, sources(), 1))
    target = os.path.join(BUILD, "tsim-" + key)

    def make(t):
        d = t + ".d"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        jobs = [(s, "c_" + os.path.basename(s) + ".o", codec) for s in ccs] + [(s, "l_" + os.path.basename(s) + ".o", asan) for s in sources()]
        for n, fs in tools.items():
            jobs += [(os.path.join(src, f), "t_%s_%s.o" % (n, f), asan + ren + ["-Dmain=%s_main" % n]) for f in fs]
        jobs.append((main_c, "main.o", base + ["-fsanitize=address"]))
        running, todo = [], list(jobs)
        while todo or running:
            while todo and len(running) < 8:
                s, o, fl = todo.pop()
                running.append((s, subprocess.Popen(["gcc", "-c", s, "-o", os.path.join(d, o)] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
            s, p = running.pop(0)
            out = p.communicate()[0]
            if p.returncode:
                raise HarnessError("compile failed: %s\n%s" % (s, out.decode(errors="replace")[-3000:]))
        o = lambda x: os.path.join(d, x)
        run(["ar", "rcs", o("c.a")] + sorted(glob.glob(o("c_*.o"))))
        run(["ar", "rcs", o("l.a")] + sorted(glob.glob(o("l_*.o"))))
        outs = []
        for n in tools:
            run(["ld", "-r", "-o", o("T%s.o" % n)] + sorted(glob.glob(o("t_%s_*.o" % n))) + ["--start-group", o("l.a"), o("c.a"), "--end-group"])
            run(["objcopy", "--keep-global-symbol=%s_main" % n, o("T%s.o" % n)])
            outs.append(o("T%s.o" % n))
        run(["gcc", "-o", t + ".tmp", o("main.o")] + outs + ["-fsanitize=address,undefined", "-lm", "-lpthread"])
        shutil.rmtree(d)
        os.rename(t + ".tmp", t)
    return _locked(target, make)


def cffi():
    """builds the project's Python extension from the working tree with the project's own cffi hook; returns its directory"""
    key = _key(_csrc() + [os.path.join(REPO, "horusdemodlib", "horus_api_build.py"), os.path.join(REPO, "build_lib.py")], "cffi1")
    target = os.path.join(BUILD, "cffi-" + key)

    def make(t):
        tmp = t + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # the hook names its sources relative to the tree: build in a copy so that nothing is written in /repo
        for d in ("src", "horusdemodlib"):
            shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, "t", d), ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy(os.path.join(REPO, "build_lib.py"), os.path.join(tmp, "t"))
        code = ("import sys,os;os.chdir(sys.argv[1]);sys.path.insert(0,sys.argv[1]);from setuptools import setup;import build_lib;"
                "k={'name':'horusdemodlib','version':'0','packages':[],'py_modules':[]};build_lib.build(k);"
                "setup(script_name='b.py',script_args=['-q','build_ext','--force','--build-lib',sys.argv[2],'--build-temp',sys.argv[3]],**k)")
        env = dict(os.environ, CC="gcc", PYTHONDONTWRITEBYTECODE="1", CFLAGS="-w -O2 -ftrivial-auto-var-init=pattern")
        run([PY, "-c", code, os.path.join(tmp, "t"), os.path.join(tmp, "lib"), os.path.join(tmp, "bt")], env=env)
        shutil.rmtree(os.path.join(tmp, "t"))
        shutil.rmtree(os.path.join(tmp, "bt"), ignore_errors=True)
        os.rename(tmp, t)
    return os.path.join(_locked(target, make), "lib")


def prune(keep=6):
    """old build products of other source states"""
    ents = sorted((os.path.getmtime(p), p) for p in glob.glob(os.path.join(BUILD, "*-*")))
    for _, p in ents[:-40]:
        shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
