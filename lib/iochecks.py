"""M09, M10: the streaming wrapper and the command-line demodulators under every division and timing of their input."""
import io, json, os, random, shutil, subprocess, sys, tempfile, warnings
import build, driver, forkrun
import horusref as R
import msimlib as S
import mchecks as C
from driver import Check, list_shrinks, HarnessError

RATES = [300, 500, 600, 1000, 1000, 1200, 1500, 2000]      # 48000/rate divisible by 8
SRATES = [48000, 48000, 48000, 8000, 16000, 24000, 44100, 22050, 96000, 12000]


def air_for(rng, fs, m, quad, nseg=None, short=True):
    """one channel with packets for a receiver whose input rate is fs (the receiver itself runs at 48 kHz)"""
    rates = [r for r in RATES if r * (m + 3) * 1.2 < fs / 2] or [300]
    if fs <= 12000:
        rates = [300, 400, 500]
    rs = rng.choice(rates)
    a = C.pick_air(rng, m, [(fs, rs, 8)], 0)
    a["quad"] = quad
    a["lim"] = None
    amp = rng.choice([400, 3000, 12000, 28000])
    segs, last = [], None
    for _ in range(nseg or rng.choice([1, 1, 2])):
        for _ in range(rng.choice([0, 0, 1])):
            segs.append(C.junk_seg(rng, a, amp))
        segs.append({"t": "x", "s": "zero %d" % rng.randrange(1, int(50 * fs / rs))})
        if m == 4:
            its = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.2:
                    its += C.junk_items(rng)
                if not last or rng.random() < 0.75:
                    last = C.payload(rng)       # otherwise the packet repeats the one before it, byte for byte
                p = last
                it = {"p": p.hex()}
                if rng.random() < 0.3:
                    it["flips"] = C.flips_in_budget(rng, p, False)
                its.append(it)
            segs.append({"t": "burst", "rs": rs, "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3), "pre": C.PRESYM, "rot": 5, "post": rng.choice([2, 70]), "items": its})
        else:
            data, stop = R.RTTY[a.setdefault("mode", rng.choice([89, 90, 91]))]
            a["data"], a["stop"] = data, stop
            its = [{"bits": "10" * 110}, {"idle": 20}]
            for _ in range(rng.choice([1, 2, 3])):
                if rng.random() < 0.3:
                    its.append(C.rtty_junk(rng))
                if not last or rng.random() < 0.75:
                    last = C.sentence(rng)
                its += [{"idle": rng.choice([5, 40])}, {"txt": last.hex(), "track": 1}]
            segs.append(C.rtty_seg(rng, a, amp, its + [{"idle": 10}]))
        segs.append(C.guard(a))
    air = {"fs": fs, "quad": quad, "segs": segs}
    if rng.random() < 0.3:
        air["awgn"] = [amp / rng.choice([15, 40]), rng.getrandbits(31)]
    C.tail(air, rs, rng.choice([0, 1, 3, 9]) if m == 4 else 36)
    return air, {"mode": 0 if m == 4 else a["mode"], "rs": rs, "sp": a["sp"] if a["mask"] else -1, "iq": quad, "sr": fs}


def pcm(binary, airs, ops=()):
    """samples of every channel (bytes) and the msim log"""
    d = tempfile.mkdtemp(prefix="vpcm")
    try:
        plan = {"airs": airs, "stations": [], "ops": [["pcm_out", i, os.path.join(d, "%d" % i)] for i in range(len(airs))]}
        log, err, rc = S.run_msim(binary, plan)
        if rc != 0:
            raise HarnessError("msim: %s %s" % (rc, err[-300:]))
        return [open(os.path.join(d, "%d" % i), "rb").read() for i in range(len(airs))], log
    finally:
        shutil.rmtree(d)


def load_ext():
    lib = build.cffi()
    if lib not in sys.path:
        sys.path.insert(0, lib)
        sys.path.insert(0, driver.REPO)
    warnings.simplefilter("ignore")


def reference(st, data):
    """the C library driven block by block on the same samples -> (good packets as (block, text, bytes consumed), blocks)"""
    import _horus_api_cffi as X
    import audioop
    ffi, api = X.ffi, X.lib
    ch = 1 + st["iq"]
    data = data[:len(data) // (2 * ch) * 2 * ch]
    if st["sr"] != 48000:
        data = audioop.ratecv(data, 2, ch, st["sr"], 48000, None)[0]
    h = api.horus_open_advanced(st["mode"], st["rs"], st["sp"])
    if st.get("lim"):
        api.horus_set_freq_est_limits(h, st["lim"][0], st["lim"][1])
    n = api.horus_get_max_ascii_out_len(h)
    out, pos, blk = [], 0, 0
    ends = []
    while True:
        k = api.horus_nin(h) * 2 * ch
        if pos + k > len(data):
            break
        buf = ffi.new("char[]", bytes(data[pos:pos + k]))
        o = ffi.new("char[]", n)
        r = api.horus_rx(h, o, ffi.cast("short *", buf), st["iq"])
        pos += k
        blk += 1
        if r and api.horus_crc_ok(h):
            t = bytes(ffi.buffer(o)).split(b"\0")[0].decode("latin-1")
            out.append((blk, t, pos))
        ends.append(pos)
    left = pos
    api.horus_close(h)
    return out, blk, left


class M09(Check):
    id = "M09"
    quick_runs = 600
    thorough_runs = 40000
    rule = "seeded audio for 1-3 receivers and a seeded division of each stream into pieces, interleaved between receivers; non-trivial = at least one packet expected from the block-by-block reference"
    real = ["horusdemodlib/demod.py (HorusLib)", "the project's cffi extension built from the working tree", "audioop"]
    stubs = ["audio source (msim transmitter and channel)", "scheduler of add_samples calls"]
    state_measure = "distinct (receiver configuration, division style, buffer residue mod block at packet) tuples"
    assumptions = ["the reference drives the same C library block by block; its own correctness is M01-M05", "sampled seeds"]

    def build(self):
        self.bin = build.c_program("msim", C.MAIN, "plain")
        load_ext()
        import horusdemodlib.demod as D
        import logging
        logging.disable(logging.CRITICAL)
        self.D = D

    def gen(self, rng, tier, i):
        n = rng.choice([1, 1, 2, 3])
        airs, sts = [], []
        for _ in range(n):
            fs = rng.choice(SRATES)
            a, s = air_for(rng, fs, rng.choice([4, 4, 2]), 1 if rng.random() < 0.3 else 0, nseg=rng.choice([1, 1, 2]))
            airs.append(a)
            k = rng.randrange(9)
            if k == 0:
                pat = [1]
            elif k == 1:
                pat = [rng.choice([2, 3, 4, 5, 7])]
            elif k == 2:
                pat = [rng.randrange(1, 4000) | 1 for _ in range(rng.randrange(1, 6))]
            elif k == 3:
                pat = [rng.choice([0, 0, 1, 2, 511, 4096, 9601]) for _ in range(rng.randrange(2, 8))] + [333]
            elif k == 4:
                pat = [-1]
            elif k == 5:
                pat = [rng.choice([-1, -2, -3]) for _ in range(rng.randrange(1, 5))]
            elif k == 6:
                pat = [1 << 24]
            elif k == 7:
                pat = [rng.randrange(20000, 200000), rng.randrange(1, 50)]
            else:
                pat = [rng.choice([-1, -2, -3, 0, 1, 2, 3, 1000, 4801, 30000]) for _ in range(rng.randrange(2, 12))] + [777]
            s["pat"] = pat
            s["cut"] = 1 if (fs == 48000 and rng.random() < 0.4) else 0
            s["api"] = "demodulate" if fs == 48000 and rng.random() < 0.08 else "add_samples"
            sts.append(s)
        order = [rng.randrange(n) for _ in range(rng.randrange(1, 9))]
        return {"airs": airs, "stations": sts, "order": order}

    def execute(self, plan):
        datas, _ = pcm(self.bin, plan["airs"])
        status, v = forkrun.call(self.child, plan, datas, timeout=150)
        if status != "ok":
            log = "child %s\n%s\n" % (status, (v or "").strip().splitlines()[-1] if v else "")
            return log, {"nontrivial": 1, "child_" + status.split()[0]: 1}
        facts = v["facts"]
        facts["_states"] = set(tuple(x) for x in v["states"])
        return v["log"], facts

    def child(self, plan, datas):
        log, facts, states = [], {"sim_s": 0.0, "nontrivial": 0}, []

        def add(k, n=1):
            facts[k] = facts.get(k, 0) + n
        libs, pos, got, refs = [], [], [], []
        for i, s in enumerate(plan["stations"]):
            data = datas[i]
            ref, blks, left = reference(s, data)
            if s["cut"] and ref:
                data = data[:ref[-1][2]]        # the stream ends exactly with the block that completes the last packet
                ref, blks, left = reference(s, data)
                add("fault_end_at_block")
            datas[i] = data
            refs.append(ref)
            add("reach_packets", len(ref))
            facts["nontrivial"] = max(facts["nontrivial"], 1 if ref else 0)
            add("sim_s", len(data) / 2 / (1 + s["iq"]) / s["sr"])
            got.append([])
            mode = {0: self.D.Mode.BINARY, 89: self.D.Mode.RTTY_7N1, 90: self.D.Mode.RTTY_7N2, 91: self.D.Mode.RTTY_8N2}[s["mode"]]

            def cb(f, i=i):
                got[i].append([1 if f.crc_pass else 0, f.data.hex().upper() if isinstance(f.data, (bytes, bytearray)) else "T" + str(f.data)])
            libs.append(self.D.HorusLib(mode=mode, rate=s["rs"], tone_spacing=s["sp"], stereo_iq=bool(s["iq"]), sample_rate=s["sr"], callback=cb))
            pos.append(0)
        pi = [0] * len(libs)
        k, live = 0, set(range(len(libs)))
        err = {}
        while live:
            i = plan["order"][k % len(plan["order"])] % len(libs)
            k += 1
            if i not in live:
                i = sorted(live)[0]
            s, d = plan["stations"][i], datas[i]
            nb = libs[i].nin * 2 * (1 + s["iq"])
            c = s["pat"][pi[i] % len(s["pat"])]
            pi[i] += 1
            for _ in range(64 if 0 < c < 64 else 1):
                if s["api"] == "demodulate":
                    c = nb = libs[i].nin * 2 * (1 + s["iq"])
                n = {-1: nb, -2: max(0, nb - 1), -3: nb + 1}.get(c, c)
                piece = d[pos[i]:pos[i] + n]
                pos[i] += len(piece)
                try:
                    if s["api"] == "demodulate":
                        f = libs[i].demodulate(piece)
                        if f.data:
                            got[i].append([1 if f.crc_pass else 0, f.data.hex().upper() if isinstance(f.data, (bytes, bytearray)) else "T" + str(f.data)])
                    else:
                        libs[i].add_samples(piece)
                except Exception as e:
                    err[i] = repr(e)
                    live.discard(i)
                    break
                add("calls")
                if n == 0:
                    add("fault_empty_piece")
                elif n == 1:
                    add("fault_single_byte")
                elif n & 1:
                    add("fault_odd_piece")
                if pos[i] >= len(d):
                    live.discard(i)
                    break
        for i, s in enumerate(plan["stations"]):
            libs[i].close()
            if s["sr"] != 48000:
                add("fault_resampled")
            if s["iq"]:
                add("fault_iq")
            states.append([s["sr"], s["rs"], s["mode"], s["iq"], tuple(s["pat"])[:2] and s["pat"][0], len(refs[i])])
            for b, t, p in refs[i]:
                log.append("ref %d blk %d %s" % (i, b, t))
            for c, t in got[i]:
                log.append("got %d crc %d %s" % (i, c, t))
            if i in err:
                log.append("raised %d %s" % (i, err[i]))
        return {"log": "\n".join(log) + "\n", "facts": facts, "states": states}

    def judge(self, plan, log, facts):
        if log.startswith("child"):
            return [("crash", "the process driving the wrapper ended: %s" % log.strip()[:300])]
        out = []
        for i, s in enumerate(plan["stations"]):
            ref = [l.split(" ", 4)[4] for l in log.splitlines() if l.startswith("ref %d " % i)]
            got = [l.split(" ", 4)[4] for l in log.splitlines() if l.startswith("got %d crc 1" % i)]
            got = [g[1:] if s["mode"] else g for g in got]
            if s["mode"] == 0:
                ref = [r.upper() for r in ref]
            for l in log.splitlines():
                if l.startswith("raised %d " % i):
                    out.append(("raised", "add_samples raised %s" % l[:200]))
            if got != ref:
                out.append(("differs", "receiver %d (%s, input %d Hz, pieces %s): block-by-block gives %d packets %s, the wrapper %d %s" % (
                    i, s["api"], s["sr"], s["pat"][:6], len(ref), [r[:40] for r in ref[:4]], len(got), [g[:40] for g in got[:4]])))
        return out

    def shrink(self, plan):
        cp = lambda: json.loads(json.dumps(plan))
        for i in range(len(plan["stations"])):
            if len(plan["stations"]) > 1:
                p = cp()
                del p["stations"][i], p["airs"][i]
                yield p
        if len(plan["order"]) > 1:
            p = cp()
            p["order"] = p["order"][:len(p["order"]) // 2]
            yield p
        for i, a in enumerate(plan["airs"]):
            for cand in list_shrinks(a["segs"]):
                p = cp()
                p["airs"][i]["segs"] = cand
                yield p
            for j, s in enumerate(a["segs"]):
                for cand in list_shrinks(s.get("items", [])):
                    p = cp()
                    p["airs"][i]["segs"][j]["items"] = cand
                    yield p
            for cand in list_shrinks(plan["stations"][i]["pat"]):
                if cand and any(c > 0 or c < 0 for c in cand):
                    p = cp()
                    p["stations"][i]["pat"] = cand
                    yield p

    def describe(self, plan):
        return "order %s stations %s\n%s" % (plan["order"], json.dumps(plan["stations"]), S.render({"airs": plan["airs"], "stations": [], "ops": []})[:1800])


class RawScript(io.RawIOBase):
    """an input whose reads return what the script says; every request is recorded"""

    def __init__(self, data, pat, ev, watch):
        super().__init__()
        self.d, self.pat, self.ev, self.watch, self.p, self.i = data, pat, ev, watch, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        self.watch()
        self.ev.append(["R", self.p])
        k = self.pat[self.i % len(self.pat)]
        self.i += 1
        k = min(len(b) if k <= 0 else min(k, len(b)), len(self.d) - self.p)
        b[:k] = self.d[self.p:self.p + k]
        self.p += k
        return k


class RawSink(io.RawIOBase):
    def __init__(self, ev):
        super().__init__()
        self.ev = ev

    def writable(self):
        return True

    def write(self, b):
        self.ev.append(["W", bytes(b).hex()])
        return len(b)


class FakeStd:
    def __init__(self, raw):
        self.buffer = io.BufferedReader(raw)


class M10(Check):
    id = "M10"
    quick_runs = 900
    thorough_runs = 40000
    rule = ("seeded audio, options and two schedules of read results per run for one of the two tools (C horus_demod / Python horus_demod); "
            "non-trivial = the block-by-block reference contains at least one packet")
    real = ["src/horus_demod.c main() and the modem library (ASan/UBSan build)", "horusdemodlib/demod.py main() and its extension"]
    stubs = ["stdin/stdout (scripted reads; recorded writes)", "audio source"]
    state_measure = "distinct (tool, options, input kind, read pattern, end of input relative to block) tuples"
    assumptions = ["visibility before each read is demanded at 48 kHz input, where the tools read exactly one block at a time", "sampled seeds"]

    def build(self):
        self.bin = build.c_program("msim", C.MAIN, "plain")
        self.cli = build.c_program("cli", os.path.join(driver.VERIF, "msim", "cli.c"), "asan")
        load_ext()
        import horusdemodlib.demod as D
        import logging
        logging.disable(logging.CRITICAL)
        self.D = D

    def gen(self, rng, tier, i):
        tool = rng.choice(["c", "py"])
        fs = 48000 if tool == "c" or rng.random() < 0.5 else rng.choice(SRATES)
        m = rng.choice([4, 4, 2])
        a, s = air_for(rng, fs, m, 1 if rng.random() < 0.3 else 0)
        s["tool"] = tool
        s["opts"] = [o for o, p in (("-c", .4), ("-t", .3), ("-g", .25), ("-v", .12)) if rng.random() < p]
        s["trate"] = rng.choice([0, 1, 5, 50])
        s["named_in"] = 1 if rng.random() < 0.25 else 0
        s["named_out"] = 1 if rng.random() < 0.25 else 0
        s["seek"] = rng.choice([0, 0, 1])
        s["end"] = rng.choice(["e", "e", "e", "i"]) if tool == "c" else "e"
        s["cut"] = rng.choice(["none", "none", "block", "byte", "empty", "short", "midpacket"])
        s["cutr"] = rng.random()
        pats = []
        for _ in range(2):
            k = rng.randrange(7)
            if k == 0:
                p = [rng.choice([1, 3, 255]), rng.choice([100, 777, 5000])]
            elif k == 1:
                p = [4096]
            elif k == 2:
                p = [0]
            elif k == 3:
                p = [rng.randrange(1, 9000) for _ in range(rng.randrange(1, 30))]
            elif k == 4:
                p = [65536, 1]
            elif k == 5:
                p = [rng.choice([511, 512, 513, 1023, 2047])]
            else:
                p = [rng.choice([1, 2, 3, 64, 4095, 4096, 4097, 65536]) for _ in range(rng.randrange(2, 9))]
            pats.append(p)
        s["pats"] = pats
        if rng.random() < 0.2:
            s["lim"] = [100, int(min(23000, fs / 2 - 200))]
        return {"air": a, "st": s}

    def execute(self, plan):
        data = pcm(self.bin, [plan["air"]])[0][0]
        s = plan["st"]
        status, v = forkrun.call(self.child, plan, data, timeout=280)
        if status != "ok":
            return "child %s\n%s\n" % (status, (v or "").strip().splitlines()[-1] if v else ""), {"nontrivial": 1}
        facts = v["facts"]
        facts["_states"] = set(tuple(x) for x in v["states"])
        return v["log"], facts

    def args(self, s, pcmf, outf):
        m = {0: "binary", 89: "rtty7n1", 90: "rtty7n2", 91: "rtty8n2"}[s["mode"]]
        o = ["-m", m]
        eq = (lambda k, v: ["--%s=%s" % (k, v)])
        o += eq("rate", s["rs"])
        if s["sp"] > 0:
            o += eq("tonespacing", s["sp"])
        if s["iq"]:
            o.append("-q")
        if s.get("lim"):
            o += eq("fsk_lower", s["lim"][0]) + eq("fsk_upper", s["lim"][1])
        for x in s["opts"]:
            if x == "-t" and s["trate"]:
                o.append("-t%d" % s["trate"] if s["tool"] == "c" else "--stats=%d" % s["trate"])
            elif x == "-t" and s["tool"] == "py":
                o += ["--stats=8"]
            else:
                o.append(x)
        if s["tool"] == "py" and s["sr"] != 48000:
            o += eq("sample-rate", s["sr"])
        return o + [pcmf if s["named_in"] else "-", outf if s["named_out"] else "-"]

    def child(self, plan, data):
        s = plan["st"]
        log, facts = [], {"sim_s": 0.0, "nontrivial": 0}
        nul = os.open(os.devnull, os.O_WRONLY)
        os.dup2(nul, 2)
        ref, blks, left = reference(s, data)
        ch = 2 * (1 + s["iq"])
        if s["cut"] == "block" and ref:
            p = ref[int(s["cutr"] * len(ref))][2]
            data = data[:p if s["sr"] == 48000 else (p // ch * s["sr"] // 48000 + 3) * ch]
        elif s["cut"] == "byte":
            data = data[:len(data) - 1 - int(s["cutr"] * 3000)]
        elif s["cut"] == "empty":
            data = b""
        elif s["cut"] == "short":
            data = data[:int(s["cutr"] * 3000)]
        elif s["cut"] == "midpacket":
            data = data[:int(len(data) * s["cutr"])]
        if s["cut"] != "none":
            facts["fault_end_" + s["cut"]] = 1
            ref, blks, left = reference(s, data)
        facts["sim_s"] = len(data) / ch / s["sr"]
        facts["nontrivial"] = 1 if ref else 0
        facts["reach_packets"] = len(ref)
        facts["tool_" + s["tool"]] = 1
        for b, t, p in ref:
            log.append("ref blk %d upto %d %s" % (b, p, t.encode("latin-1").hex()))
        d = tempfile.mkdtemp(prefix="vcli")
        states = []
        try:
            pf = os.path.join(d, "in.raw")
            with open(pf, "wb") as f:
                f.write(data)
            for n, pat in enumerate(s["pats"]):
                of = os.path.join(d, "out%d" % n)
                ev, rc = (self.run_c if s["tool"] == "c" else self.run_py)(s, pf, of, pat, data)
                log.append("schedule %d result %s" % (n, rc))
                for e in ev:
                    log.append("%d %s %s" % (n, e[0], e[1]))
                if s["named_out"]:
                    log.append("%d O %s" % (n, open(of, "rb").read().hex() if os.path.exists(of) else "-"))
                facts["reads"] = facts.get("reads", 0) + sum(1 for e in ev if e[0] == "R")
                if any(0 < x < 4096 for x in pat):
                    facts["fault_short_reads"] = facts.get("fault_short_reads", 0) + 1
                states.append([s["tool"], " ".join(s["opts"]), s["named_in"], s["named_out"], s["seek"], pat[0], s["cut"], len(data) % 4])
            if s["end"] == "i":
                facts["fault_read_error"] = 1
        finally:
            shutil.rmtree(d)
        return {"log": "\n".join(log) + "\n", "facts": facts, "states": states}

    def run_c(self, s, pf, of, pat, data):
        cmd = [self.cli, pf, ",".join(map(str, pat)), str(s["seek"]), s["end"], of if s["named_out"] else "-", "--"] + self.args(s, pf, of)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:malloc_fill_byte=170:max_malloc_fill_size=100000000")
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return [], "hang"
        ev, ret = [], None
        for l in p.stdout.decode().splitlines():
            k, _, x = l.partition(" ")
            if k in ("R", "F"):
                ev.append([k, int(x)])
            elif k == "W":
                ev.append([k, x])
            elif k == "RET":
                ret = int(x)
        rc = "ret %s" % ret if ret is not None else "ended %d" % p.returncode
        e = p.stderr.decode(errors="replace")
        for l in e.splitlines():
            if "ERROR: AddressSanitizer" in l or ("runtime error" in l and "division by zero" not in l):
                rc = "sanitizer " + l.split("==")[-1].split(" 0x")[0].strip()[-160:]
                break
        return ev, rc

    def run_py(self, s, pf, of, pat, data):
        status, v = forkrun.call(self._py, s, pf, of, pat, data, timeout=120)
        if status != "ok":
            return [], status if status == "timeout" else "%s %s" % (status, (v or "").strip().splitlines()[-1] if v else "")
        return v["ev"], v["rc"]

    def _py(self, s, pf, of, pat, data):
        ev = []

        def watch():
            if s["named_out"]:
                ev.append(["F", os.path.getsize(of) if os.path.exists(of) else 0])
        raw = RawScript(data, pat, ev, watch)
        out = io.TextIOWrapper(io.BufferedWriter(RawSink(ev)), encoding="utf-8")
        sys.stdout = out
        sys.stderr = open(os.devnull, "w")
        sys.argv = ["horus_demod"] + self.args(s, pf, of)
        real_open = open

        def fake_open(p, mode="r", *a, **k):
            if p == pf and "b" in mode and "r" in mode:
                return io.BufferedReader(raw)
            return real_open(p, mode, *a, **k)
        if s["named_in"]:
            sys.stdin = FakeStd(RawScript(b"", [0], [], lambda: None))
            self.D.open = fake_open
        else:
            sys.stdin = FakeStd(raw)
        try:
            r = self.D.main()
            rc = "ret 0"
        except SystemExit as e:
            rc = "ret %s" % (e.code or 0)
        except BaseException as e:
            rc = "raised %r" % e
        out.flush()
        import gc
        gc.collect()
        return {"ev": ev, "rc": rc}

    def judge(self, plan, log, facts):
        s = plan["st"]
        if log.startswith("child"):
            return [("harness-child", log[:300])]
        ref, scheds = [], {}
        cur = None
        for l in log.splitlines():
            w = l.split(" ")
            if w[0] == "ref":
                ref.append((int(w[4]), bytes.fromhex(w[5]) if len(w) > 5 else b""))
            elif w[0] == "schedule":
                cur = scheds.setdefault(int(w[1]), {"rc": " ".join(w[3:]), "ev": [], "O": b""})
            elif w[1] in ("R", "F"):
                cur["ev"].append((w[1], int(w[2])))
            elif w[1] == "W":
                cur["ev"].append(("W", bytes.fromhex(w[2])))
            elif w[1] == "O":
                cur["O"] = bytes.fromhex(w[2]) if w[2] != "-" else b""
        verbose = "-v" in s["opts"]
        suffix = b"  CRC OK" if "-c" in s["opts"] else b""
        up = (lambda t: t.upper()) if s["mode"] == 0 else (lambda t: t)
        exp = [up(t) + suffix for _, t in ref] if not verbose else [up(t) for _, t in ref]
        out = []
        texts = []

        def lines(b):
            ls = [x for x in b.replace(b"\r\n", b"\n").split(b"\n")]
            tail = ls.pop()
            ls = [x for x in ls if not x.startswith(b"{")]
            if verbose:
                ls = [x.split(b"  CRC")[0] for x in ls]
            if s["mode"] == 0:
                ls = [x.upper() if not suffix or verbose else x.replace(suffix, b"").upper() + (suffix if suffix in x else b"") for x in ls]
            return ls, tail
        for n, sc in sorted(scheds.items()):
            if sc["rc"] != "ret 0":
                out.append(("abnormal-end", "%s tool, schedule %d: %s" % (s["tool"], n, sc["rc"][:300])))
                continue
            std = b"".join(x for k, x in sc["ev"] if k == "W")
            full = sc["O"] if s["named_out"] else std
            texts.append((full, std))
            ls, tail = lines(full)
            good = ls
            if verbose:           # damaged packets are shown too: the good ones must be there, once each and in order
                good = [x for x in ls if x in exp]
            if good != exp or (tail and not tail.startswith(b"{")):
                out.append(("lines-differ", "%s tool, options %s, read sizes %s: the input blocks contain %d packets %s, printed %s" % (
                    s["tool"], s["opts"], plan["st"]["pats"][n][:6], len(exp), exp[:3], (ls + [tail])[:5])))
                continue
            if s["sr"] == 48000:
                acc, flen = b"", 0
                for k, x in sc["ev"]:
                    if k == "W":
                        acc += x
                    elif k == "F":
                        flen = x
                    else:
                        vis = full[:flen] if s["named_out"] else acc
                        got = len([y for y in lines(vis)[0] if not verbose or y in exp])
                        need = sum(1 for p, _ in ref if p <= x)
                        if got < need:
                            out.append(("not-visible", "%s tool, schedule %d: after %d bytes delivered (%d packets complete) it asked for more input with only %d of them visible to the reader of its output" % (
                                s["tool"], n, x, need, got)))
                            break
        if len(texts) == 2 and texts[0] != texts[1]:
            out.append(("schedule-dependent", "%s tool: the output bytes differ between read schedules %s and %s" % (s["tool"], s["pats"][0][:6], s["pats"][1][:6])))
        return out

    def shrink(self, plan):
        cp = lambda: json.loads(json.dumps(plan))
        if len(plan["st"]["pats"]) > 1:
            for i in (0, 1):
                p = cp()
                del p["st"]["pats"][i]
                yield p
        for k, v in (("opts", []), ("cut", "none"), ("named_in", 0), ("named_out", 0)):
            if plan["st"][k] != v:
                p = cp()
                p["st"][k] = v
                yield p
        a = plan["air"]
        for cand in list_shrinks(a["segs"]):
            p = cp()
            p["air"]["segs"] = cand
            yield p
        for j, sg in enumerate(a["segs"]):
            for cand in list_shrinks(sg.get("items", [])):
                p = cp()
                p["air"]["segs"][j]["items"] = cand
                yield p
        for i, pt in enumerate(plan["st"]["pats"]):
            for cand in list_shrinks(pt):
                if cand:
                    p = cp()
                    p["st"]["pats"][i] = cand
                    yield p

    def describe(self, plan):
        return "%s\n%s" % (json.dumps(plan["st"]), S.render({"airs": [plan["air"]], "stations": [], "ops": []})[:1800])
