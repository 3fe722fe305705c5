"""T01: the transmit and test tool chain, run as one simulated shell pipeline (tsim)."""
import array, ctypes, json, os, re, shutil, struct, subprocess, tempfile
import build, driver
import horusref as R
import mchecks as C
from driver import Check, HarnessError

MAIN = os.path.join(driver.VERIF, "msim", "tsim.c")
FRAME = {0: 22, 1: 32, 2: 32, 3: 64, 4: 128}
CFG = {4: [(8000, 500), (8000, 250), (9600, 300), (16000, 1000), (16000, 500), (48000, 1200), (48000, 600), (8000, 100)],
       2: [(8000, 500), (8000, 250), (9600, 300), (16000, 1000), (8000, 200), (48000, 1200), (48000, 600), (8000, 100)]}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:malloc_fill_byte=170:max_malloc_fill_size=100000000")


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def test_frame(n):
    lc = ctypes.CDLL(None)
    lc.srand(158324)
    return [lc.rand() & 1 for _ in range(n)]


def count_frames(bits, fsize, thresh=0.1):
    """what a sliding comparison against the known frame must report: (frames, bits, errors) after every counted frame"""
    tx = test_frame(fsize)
    t = sum(b << (fsize - 1 - i) for i, b in enumerate(tx))
    mask = (1 << fsize) - 1
    w = n = tot = err = 0
    lim = f32(f32(thresh) * fsize)
    out = []
    for b in bits:
        w = ((w << 1) | b) & mask if b in (0, 1) else w
        e = bin(w ^ t).count("1")
        if e < lim:
            n += 1
            tot += fsize
            err += e
            out.append((n, tot, err, e))
    return out


def tones(rng, m, fs, rs):
    mask = rng.random() < 0.35
    n = m - 1
    top = fs / 2 - 1.5 * rs
    spmax = min((top - 2 * rs) / n, 3.2 * rs, fs / 3 / n - 1)
    hs = [1, 1, 2, 2.1, 3] if not mask else [1, 1.35, 1.7, 2, 2.5, 2.7, 3]
    ok = [h for h in hs if int(h * rs) <= spmax]
    sp = int(rs * rng.choice(ok or [1]))
    lo, hi = int(1.6 * rs) + 1, int(top - n * sp)
    f1 = rng.randrange(lo, max(hi, lo) + 1)
    return f1, sp, mask


def pattern(rng, big):
    k = rng.randrange(6)
    if k == 0:
        return [0]
    if k == 1:
        return [rng.choice([1, 2, 3, 5, 7]) if not big else rng.choice([63, 101, 255])]
    if k == 2:
        return [rng.randrange(1, 600) for _ in range(rng.randrange(1, 9))] if big else [rng.randrange(1, 60) for _ in range(rng.randrange(1, 9))]
    if k == 3:
        return [4096]
    if k == 4:
        return [4095, 1, rng.randrange(1, 3000)]
    return [1, 65536]


class T01(Check):
    id = "T01"
    quick_runs = 1200
    thorough_runs = 200000
    rule = "seeded pipeline, options, signal and schedule of the pipes; non-trivial = at least one frame or bit block crosses the whole chain"
    real = ["main() of horus_gen_test_bits, fsk_mod, horus_demod, fsk_get_test_bits, fsk_demod, fsk_put_test_bits and the libraries they link (ASan/UBSan; the ASN.1 codec without)"]
    stubs = ["pipes, process scheduling, stdio streams, time(), signal(), exit()", "the audio channel between modulator and demodulator"]
    state_measure = "distinct (pipeline, mode, rates, options, fault kind) tuples; interleavings = distinct schedule hashes"
    assumptions = ["each tool is the only writer of its pipe", "the audio channel keeps sample timing (no resampling)", "sampled seeds"]

    def build(self):
        self.bin = build.tsim(MAIN)
        import asn1tools
        import warnings
        warnings.simplefilter("ignore")
        p = os.path.join(driver.REPO, "horusbinaryv3", "HorusBinaryV3.asn1")
        self.asn = asn1tools.compile_files(p, "uper")

    # ---------------------------------------------------------------- plans
    def gen(self, rng, tier, i):
        kind = rng.choice(["horus"] * 5 + ["demod"] * 4 + ["bits"] * 2 + ["cdemod"] * 2 + ["gen"])
        nodes, pl = [], {"kind": kind, "seed": rng.getrandbits(60), "sticky": rng.choice([0, 30, 60, 90, 98])}
        if kind == "gen":
            mode = rng.randrange(5)
            pl.update(mode=mode, n=rng.choice([1, 50, 256, 257, 258, 300]) if mode < 3 else rng.choice([1, 30, 130]), rs=100, fs=8000, f1=1000, sp=100, m=4)
            nodes.append(["gen", str(mode), str(pl["n"])])
            tail = [["@bits"]]
        elif kind == "horus":
            mode = rng.randrange(5)
            flen = R.tx_bytes(FRAME[mode]) * 8
            n = rng.choice([1, 2, 3, 3, 4, 5, 8])
            n = max(1, min(n, 6000 // flen))
            rs = rng.choice([300, 400, 500, 600, 1000, 1200] + [100])
            if rs == 100:
                n = min(n, max(1, 1500 // flen))
            f1, sp, mask = tones(rng, 4, 48000, rs)
            f1 = min(f1, 9000)
            pl.update(mode=mode, n=n, rs=rs, fs=48000, f1=f1, sp=sp, m=4)
            nodes.append(["gen", str(mode), str(n)])
            fl = []
            for k in range(n):
                r = rng.random()
                if r < 0.25:
                    fl += [k * flen + x for x in C.flips_in_budget(rng, bytes(FRAME[mode]), rng.random() < 0.3)]
                elif r < 0.32:
                    fl += [k * flen + x for x in C.flips_over_budget(rng, bytes(FRAME[mode]))]
            lead = "".join(rng.choice("01") for _ in range(rng.choice([0, 0, 0, 1, 2, 7, 60, 100, 200])))
            if fl or lead or rng.random() < 0.2:
                nodes.append(["@bits"] + (["flip=" + ",".join(map(str, sorted(set(fl))))] if fl else []) + (["lead=" + lead] if lead else []))
            h = ["horus", "-m", "binary"]
            if rs != 100 or rng.random() < 0.5:
                h.append("--rate=%d" % rs)
            if mask:
                h.append("--tonespacing=%d" % sp)
            if rng.random() < 0.3:
                h.append("-c")
            tail = [h + [rng.choice(["-", "-", "NAMED_IN"]), rng.choice(["-", "-", "NAMED_OUT"])]]
        else:
            m = rng.choice([2, 4])
            fs, rs = rng.choice(CFG[m])
            f1, sp, mask = tones(rng, m, fs, rs)
            fsize = rng.choice([100, 100, 100, rng.randrange(20, 400)])
            nb = rng.choice([1, 3, 8, 20, 40]) * 100 + rng.randrange(0, 150)
            nb = max(nb, fsize)
            if kind == "bits":
                nb *= rng.choice([1, 1, 4])
            pl.update(m=m, fs=fs, rs=rs, f1=f1, sp=sp, fsize=fsize, nb=nb)
            nodes.append(["get", "-" if rng.random() < 0.7 else "NAMED_OUT", str(nb)] + ([str(fsize)] if fsize != 100 else []))
            tot = nb // fsize * fsize
            dens = rng.choice([0, 0, 0.002, 0.03, 0.09, 0.2])
            fl = [x for x in range(tot) if rng.random() < dens]
            lead = "".join(rng.choice("01") for _ in range(rng.choice([0, 0, 1, 13, 77, 200])))
            cut = rng.choice([None, None, rng.randrange(tot + 1)])
            if fl or lead or cut is not None:
                nodes.append(["@bits"] + (["flip=" + ",".join(map(str, fl))] if fl else []) + (["lead=" + lead] if lead else []) + (["cut=%d" % cut] if cut is not None else []))
            d = ["demod"]
            pl["nsym"] = 50
            if rng.random() < 0.2:
                pl["nsym"] = rng.choice([20, 40, 60, 100])
                d.append("--nsym=%d" % pl["nsym"])
            ps = [p for p in (4, 5, 8, 10, 16, 20) if (fs // rs) % p == 0 and p >= 8]
            if ps and ((fs // rs) % 8 or rng.random() < 0.4):
                d += ["-p", str(rng.choice(ps))]
            if mask:
                d += ["--mask=%d" % sp]
            soft = rng.random() < 0.3
            if soft:
                d.append("-s")
            if rng.random() < 0.4:
                d.append("-f")
            if rng.random() < 0.35:
                d.append("-t%s" % rng.choice(["", "", "1", "5", "50", "0"]))
            if kind == "cdemod":
                u8 = rng.random() < 0.5
                d.append(rng.choice(["-d", "--cu8"]) if u8 else rng.choice(["-c", "--cs16"]))
                pl["u8"] = u8
                if rng.random() < 0.5:
                    f1 = -f1 - (m - 1) * sp
                    pl["f1"] = f1
            if rng.random() < 0.25:
                lo, hi = int(f1 - 1.4 * rs), int(f1 + (m - 1) * sp + 1.4 * rs)
                d += ["--fsk_lower=%d" % max(lo, -fs // 2 if kind == "cdemod" else 0), "--fsk_upper=%d" % min(hi, fs // 2)]
            pl["soft"] = soft
            d += [str(m), str(fs), str(rs), rng.choice(["-", "-", "NAMED_IN"]), rng.choice(["-", "-", "NAMED_OUT"])]
            tail = [d]
            if not soft:
                pb = ["putb"]
                pl["thresh"] = None
                if rng.random() < 0.5:
                    pb.append("-q")
                if rng.random() < 0.3:
                    pl["thresh"] = rng.choice(["0.05", "0.2", "0.3", "0.01"])
                    pb += ["-t", pl["thresh"]]
                pl["bpass"] = rng.choice([None, "0", "0.001", "0.05", "0.5", "1"])
                pl["ppass"] = rng.choice([None, 0, 1, 3, nb // fsize, nb // fsize + 1])
                if pl["bpass"]:
                    pb += ["-b", pl["bpass"]]
                if pl["ppass"] is not None:
                    pb += ["-p", str(pl["ppass"])]
                if fsize != 100:
                    pb += ["-f", str(fsize)]
                tail.append(pb + ["-" if rng.random() < 0.7 else "NAMED_IN"])
            if kind == "bits":
                tail = tail[1:] or [["putb", "-"]]
                pl.setdefault("thresh", None)
                pl.setdefault("bpass", None)
                pl.setdefault("ppass", None)
                if tail == [["putb", "-"]] and fsize != 100:
                    tail = [["putb", "-f", str(fsize), "-"]]
        if kind not in ("bits", "gen"):
            amp = rng.choice([0.05, 0.3, 1, 1, 4, 12])
            noise = 0 if rng.random() < 0.5 else 2000 * amp / rng.choice([12, 25, 60])
            lead_s = rng.choice([0, 0, 0, 1, 7, rng.randrange(1, 60) * fs_ts(pl), rng.randrange(1, 5000)])
            trail = rng.choice([0, 60, 130, 200]) * fs_ts(pl) + rng.choice([0, 3])
            pl.update(noise=round(noise, 2), lead_s=lead_s, trail=trail, gain=amp)
            ppm = rng.choice([0, 0, 0, 20, -20, 150, -150, 400, -400]) if kind != "cdemod" else 0
            pl["ppm"] = ppm
            sd = (["ppm=%d" % ppm] if ppm else []) + ["noise=%.2f" % noise, "seed=%d" % rng.randrange(1, 10 ** 6), "lead=%d" % lead_s, "trail=%d" % trail]
            q = ["m=%d" % pl["m"], "fs=%d" % pl["fs"], "rs=%d" % pl["rs"], "f1=%d" % pl["f1"], "sp=%d" % pl["sp"]]
            if kind == "cdemod":
                nodes.append(["@cmod"] + q + sd + ["amp=%g" % (2000 * max(amp, 1)), "u8=%d" % pl["u8"]])
                pl["gain"] = max(amp, 1)
            else:
                nodes.append(["mod"] + (["-p", str(pl["fs"] // pl["rs"])] if rng.random() < 0.2 else []) + [str(pl["m"]), str(pl["fs"]), str(pl["rs"]), str(pl["f1"]), str(pl["sp"]), "-" if rng.random() < 0.75 else "NAMED_IN", "-" if rng.random() < 0.75 else "NAMED_OUT"])
                nodes.append(["@audio"] + q + ["gain=%g" % amp] + sd + (["cut=%d" % rng.randrange(0, 60 * fs_ts(pl))] if rng.random() < 0.08 else []))
        nodes += tail
        pl["nodes"] = nodes
        bit_end = next((k for k, x in enumerate(nodes) if x[0] in ("mod", "@cmod")), len(nodes))
        links = []
        for k in range(len(nodes)):
            big = bit_end <= k < len(nodes) - 1 and nodes[k][0] != "demod"
            links.append({"cap": rng.choice([1, 3, 64, 4096, 65536] if not big else [512, 4096, 65536, 65536]) if rng.random() < 0.6 else 65536})
        pl["caps"] = [l["cap"] for l in links]
        pl["rpat"] = [pattern(rng, k > bit_end and nodes[k][0] != "putb") if rng.random() < 0.6 else [0] for k in range(len(nodes))]
        pl["wpat"] = [pattern(rng, k >= bit_end and nodes[k][0] != "demod") if rng.random() < 0.3 else [0] for k in range(len(nodes))]
        pl["stalls"] = [[rng.randrange(len(nodes)), rng.randrange(1, 3000), rng.choice([10, 1000, 100000])] for _ in range(rng.choice([0, 0, 1, 3]))]
        pl["kill"] = [rng.randrange(len(nodes)), int(10 ** rng.uniform(0, 4))] if rng.random() < 0.15 else None
        pl["term"] = None
        if pl["kill"] is None and any(x[0] == "demod" for x in nodes) and rng.random() < 0.12:
            pl["term"] = [next(k for k, x in enumerate(nodes) if x[0] == "demod"), int(10 ** rng.uniform(0, 2.5))]
        pl["eio"] = [rng.randrange(1, len(nodes)), int(10 ** rng.uniform(0, 2.5))] if pl["kill"] is None and pl["term"] is None and rng.random() < 0.12 else None
        return pl

    # ---------------------------------------------------------------- running
    def run_tsim(self, text):
        try:
            p = subprocess.run([self.bin], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=240)
        except subprocess.TimeoutExpired:
            return "hang", "", "wall-clock limit"
        return p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1")

    def execute(self, plan):
        d = tempfile.mkdtemp(prefix="vtsim")
        try:
            return self._execute(plan, d)
        finally:
            shutil.rmtree(d)

    def _execute(self, plan, d):
        nodes = plan["nodes"]
        facts = {"nontrivial": 0, "pipe_" + plan["kind"]: 1}
        t = ["seed %d" % plan["seed"], "sticky %d" % plan["sticky"], "steps 20000000"] + ["node " + " ".join(x) for x in nodes]
        for k in range(len(nodes)):
            t += ["cap %d %d" % (k, plan["caps"][k]), "rec %d %s/l%d" % (k, d, k)]
            if plan["rpat"][k] != [0]:
                t.append("rpat %d %s" % (k, ",".join(map(str, plan["rpat"][k]))))
            if plan["wpat"][k] != [0]:
                t.append("wpat %d %s" % (k, ",".join(map(str, plan["wpat"][k]))))
            io = nodes[k]
            ts = plan["fs"] // plan["rs"]
            bps = 2 if plan["m"] == 4 else 1
            if io[0] == "mod" and io[-2] == "-":
                t.append("late %d %d %d" % (k, 50 * bps, 50 * ts * 2))
            if io[0] == "demod" and io[-2] == "-":
                sz = (2 if plan.get("u8") else 4) if plan["kind"] == "cdemod" else 2
                t.append("late %d %d %d" % (k, (plan["nsym"] + 1) * ts * sz, plan["nsym"] * bps * (4 if plan["soft"] else 1)))
        t += ["stall %d %d %d" % tuple(s) for s in plan["stalls"]]
        if plan["kill"]:
            t.append("kill %d %d" % tuple(plan["kill"]))
        if plan["term"]:
            t.append("term %d %d" % tuple(plan["term"]))
            facts["fault_sigterm"] = 1
        if plan["eio"]:
            t.append("eio %d %d" % tuple(plan["eio"]))
        rc, out, err = self.run_tsim("\n".join(t) + "\n")
        log = [l for l in out.splitlines() if not l.startswith("audio ") or len(l) < 60000]
        states = set()
        if rc not in (0, 7):
            e = [l for l in err.splitlines() if "ERROR: Addr" in l or "runtime error" in l or "ssertion" in l]
            why = re.sub(r"0x[0-9a-f]+|==\d+==", "", e[0].split("/")[-1]) if e else err[-200:]
            return "CRASH %s %s\n" % (rc, why), dict(facts, nontrivial=1)
        ends, used = {}, {}
        for l in log:
            w = l.split(" ")
            if w[0] == "node":
                ends[int(w[1])] = l.split(" ", 3)[3].split(" reads")[0]
            elif w[0] == "link":
                used[int(w[1])] = int(w[5])
            elif w[0] == "steps":
                facts["steps"] = int(w[1])
                facts["switches"] = int(w[3])
                states.add(w[5])
        data = {k: open("%s/l%d" % (d, k), "rb").read() for k in range(len(nodes)) if os.path.exists("%s/l%d" % (d, k))}
        # every tool again by itself on the bytes it consumed
        if rc == 0:
            for k, nd in enumerate(nodes):
                if nd[0].startswith("@"):
                    continue
                tt = ["seed 1", "sticky 100"]
                if k:
                    with open("%s/i%d" % (d, k), "wb") as f:
                        f.write(data[k - 1][:used[k - 1]])
                    tt.append("node @file %s/i%d" % (d, k))
                tt += ["node " + " ".join(nd), "rec %d %s/o%d" % (1 if k else 0, d, k)]
                r2, o2, e2 = self.run_tsim("\n".join(tt) + "\n")
                j = 1 if k else 0
                alone = open("%s/o%d" % (d, k), "rb").read() if r2 == 0 else b""
                a_end = next((l.split(" ", 3)[3].split(" reads")[0] for l in o2.splitlines() if l.startswith("node %d " % j)), "crash %s" % r2)
                norm = lambda ls: [re.sub(r'"secs": \d+', '"secs": T', l.split(" ", 2)[2]) for l in ls]
                e_here = norm(l for l in log if l.startswith("err %d " % k))
                e_alone = norm(l for l in o2.splitlines() if l.startswith("err %d " % j))
                log.append("alone %d %s %s out %s err %s" % (k, nd[0], a_end.replace(" ", "_"), "same" if alone == data[k] else "prefix" if alone.startswith(data[k]) else "differs", "same" if e_here == e_alone else "differs"))
        for k, nd in enumerate(nodes):
            b = data.get(k, b"")
            if nd[0] in ("gen", "get", "@bits") or (nd[0] == "demod" and not plan["soft"]):
                log.append("bits %d %s" % (k, "".join("01"[x] if x < 2 else "?" for x in b)))
            elif nd[0] == "demod":
                a = array.array("f")
                a.frombytes(b[:len(b) // 4 * 4])
                log.append("soft %d bytes %d bad %d bits %s" % (k, len(b), sum(1 for x in a if x != x or abs(x) == float("inf")), "".join("1" if (x < 0 if plan["m"] == 2 else x > 0) else "0" for x in a)))
                hard = [x for x in nd if x != "-s"]
                hb = self.alone(["%s/i%d" % (d, k)], hard, d) if rc == 0 else b""
                sm = sum(1 for x, y in zip(a, hb) if (x < 0) != (y == 1) and abs(x) > 1e-4) if plan["m"] == 2 else 0     # a tie leaves the sign open
                log.append("hard %d bits %d disagree %d" % (k, len(hb), sm))
            elif nd[0] == "horus":
                for l in b.decode("latin-1").splitlines():
                    log.append("out %s" % l)
                if b and not b.endswith(b"\n"):
                    log.append("out-unfinished")
        big = [len(b) for k, b in data.items() if nodes[k][0] in ("mod", "@audio", "@cmod")]
        facts["sim_s"] = (max(big) / 2 / plan["fs"]) if big else 0.0
        n = sum(1 for l in log if l.startswith("out ")) + (1 if data.get(len(nodes) - 1) or any(l.startswith("err") and "bits tested" in l for l in log) else 0)
        facts["nontrivial"] = 1 if n else 0
        facts["reach_frames_out"] = sum(1 for l in log if l.startswith("out "))
        if plan["kill"] and "killed" in ends.values():
            facts["fault_kill"] = 1
        if "sigpipe" in ends.values():
            facts["fault_sigpipe"] = 1
        if plan["eio"]:
            facts["fault_read_error"] = 1
        facts["fault_stall"] = len(plan["stalls"])
        facts["fault_short_reads"] = sum(1 for p in plan["rpat"] if p != [0])
        facts["fault_short_writes"] = sum(1 for p in plan["wpat"] if p != [0])
        facts["fault_tiny_pipe"] = sum(1 for c in plan["caps"] if c < 100)
        facts["fault_bit_errors"] = sum(x.count(",") + 1 for nd in nodes if nd[0] == "@bits" for x in nd if x.startswith("flip="))
        if plan.get("noise"):
            facts["fault_noise"] = 1
        facts["_states"] = states
        return "\n".join(log) + "\n", facts

    def alone(self, files, nd, d):
        r, o, e = self.run_tsim("seed 1\nsticky 100\nnode @file %s\nnode %s\nrec 1 %s/h\n" % (files[0], " ".join(nd), d))
        return open("%s/h" % d, "rb").read() if r == 0 else b""

    # ---------------------------------------------------------------- judging
    def judge(self, plan, log, facts):
        nodes = plan["nodes"]
        ls = log.splitlines()
        out = []
        if log.startswith("CRASH"):
            return [("crash", "a tool ended abnormally: %s" % log[:300])]
        if any(l.startswith("STOP") for l in ls):
            return [("hang", "the pipeline made no progress: %s" % [l for l in ls if l.startswith("STOP")][0])]
        ends, bits, errs, alone, hard = {}, {}, {}, {}, {}
        audio = None
        for l in ls:
            w = l.split(" ")
            if w[0] == "node":
                ends[int(w[1])] = l.split(" ", 3)[3].split(" reads")[0]
            elif w[0] == "bits":
                bits[int(w[1])] = w[2]
            elif w[0] == "soft":
                bits[int(w[1])] = w[7] if len(w) > 7 else ""
                if w[5] != "0":
                    out.append(("soft-bad", "fsk_demod -s wrote %s values that are not finite" % w[5]))
            elif w[0] == "hard":
                hard[int(w[1])] = (int(w[3]), int(w[5]))
            elif w[0] == "err":
                errs.setdefault(int(w[1]), []).append(l.split(" ", 2)[2] if len(w) > 2 else "")
            elif w[0] == "alone":
                alone[int(w[1])] = w
            elif w[0] == "LATE":
                out.append(("not-prompt", "%s asked for more input having read %s bytes and delivered %s" % (w[2], w[4], w[6])))
            elif w[0] == "audio":
                audio = {w[i]: w[i + 1] for i in range(1, len(w) - 1, 2)}
        if len(ends) < len(nodes):
            return [("crash", "the process of a tool ended in a way the simulator does not offer; nodes that ended: %s" % ends)]
        for k, nd in enumerate(nodes):
            e = ends[k]
            ok = e == "exit 0" or (nd[0] == "putb" and e == "exit 1")
            if e in ("killed", "sigpipe"):
                ok = (e == "killed" and plan["kill"] and plan["kill"][0] == k) or (e == "sigpipe" and any(ends[j] != "exit 0" or True for j in range(k + 1, len(nodes))))
            if not ok:
                out.append(("status", "%s ended with %s" % (nd[0], e)))
            if k in alone:
                a = alone[k]
                if e in ("killed", "sigpipe"):
                    if a[5] == "differs":
                        out.append(("not-a-prefix", "%s: what it delivered before it was killed is not the beginning of its output" % nd[0]))
                elif a[5] != "same" or a[7] != "same" or a[3] != e.replace(" ", "_"):
                    out.append(("depends-on-pipes", "%s: on the same input read in one piece it gives another result (output %s, messages %s, ends %s / %s)" % (nd[0], a[5], a[7], e, a[3])))
        for k, b in bits.items():
            if "?" in b:
                out.append(("not-a-bit", "%s wrote a byte that is neither 0 nor 1" % nodes[k][0]))
                return out
        if out:
            return out
        whole = lambda k: ends[k] == "exit 0"
        # ---- sources
        if nodes[0][0] == "gen":
            out += self.judge_gen(plan, bits[0], whole(0))
        else:
            fr = "".join(map(str, test_frame(plan["fsize"])))
            want = fr * (plan["nb"] // plan["fsize"])
            if (bits[0] != want) if whole(0) else not want.startswith(bits[0]):
                out.append(("source", "fsk_get_test_bits %d (frame %d) wrote %d bits, not the test sequence repeated %d times" % (plan["nb"], plan["fsize"], len(bits[0]), plan["nb"] // plan["fsize"])))
        # ---- modulator
        src = next((k for k in reversed(range(len(nodes))) if nodes[k][0] in ("@bits",)), 0)
        sent = bits[src]
        bps = 2 if plan["m"] == 4 else 1
        blk = 50 * bps
        ts = plan["fs"] // plan["rs"]
        mi = next((k for k, x in enumerate(nodes) if x[0] == "mod"), None)
        if mi is not None and audio is not None and not out:
            full = sent[:len(sent) // blk * blk]
            syms = [int(full[i:i + bps], 2) for i in range(0, len(full), bps)]
            got = audio.get("sym", "")
            calm = whole(mi) and whole(src) and mi + 1 in ends and whole(mi + 1) and not plan["eio"] and not plan["term"] and not any(x.startswith("cut=") for x in nodes[mi + 1])
            want = "".join(map(str, syms))
            if (got != want) if calm else not want.startswith(got):
                k = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                out.append(("modulated", "%d bits given, %d complete symbols expected, %d found in the audio; first difference at symbol %d" % (len(sent), len(want), len(got), k)))
            if calm and int(audio["samples"]) != len(syms) * ts:
                out.append(("modulated", "%d samples written for %d symbols of %d samples" % (int(audio["samples"]), len(syms), ts)))
            if syms and got:
                import math
                mx = max(int(audio["max"]), -int(audio["min"]))
                fmax = plan["f1"] + max(syms[:len(got) + 1]) * plan["sp"]
                lim = 2 * mx * math.sin(math.pi * min(fmax / plan["fs"], 0.5)) * 1.02 + 4
                if len(got) >= 5 and float(audio["worst"]) > lim:
                    out.append(("phase-jump", "the waveform steps by %s between neighbouring samples; at most %.0f with continuous phase" % (audio["worst"], lim)))
                if len(got) >= 20 and abs(float(audio["rms"]) * math.sqrt(2) / mx - 1) > 0.03:
                    out.append(("level", "rms %s for a peak of %d: not a constant-envelope signal" % (audio["rms"], mx)))
        if out:
            return out
        # ---- receivers
        if plan["kind"] == "horus":
            out += self.judge_horus(plan, bits[0], sent, audio, ends, [l[4:] for l in ls if l.startswith("out ")], "out-unfinished" in ls)
        elif plan["kind"] in ("demod", "cdemod"):
            out += self.judge_demod(plan, sent, bits, hard, ends, errs)
        pi = next((k for k, x in enumerate(nodes) if x[0] == "putb"), None)
        if pi is not None and not (plan["kill"] and plan["kill"][0] == pi) and ends[pi] != "sigpipe":
            out += self.judge_putb(plan, nodes, pi, bits, ls, errs.get(pi, []), ends[pi])
        return out

    def judge_gen(self, plan, bits, whole):
        n, size = plan["n"], FRAME[plan["mode"]]
        fl = R.tx_bytes(size) * 8
        out = []
        if whole and len(bits) != n * fl:
            return [("source", "horus_gen_test_bits %d %d wrote %d bits, %d expected" % (plan["mode"], n, len(bits), n * fl))]
        for k in range(len(bits) // fl):
            fb = [int(x) for x in bits[k * fl:(k + 1) * fl]]
            p = R.decode(fb, size)
            m = plan["mode"]
            if m == 0:
                want = struct.pack("<BHBBBffHBBbB", 0, k, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
            elif m == 1:
                want = struct.pack("<HHBBBffHBBbBBfBBH", 256, k, 12, 34, 56, 0, 0, 0, 0, 0, 0, 0, 1, 1.23456789, 200, 123, 1234)
            if m < 2:
                want += struct.pack("<H", R.crc16(want))
                if p != want or fb != R.encode(want):
                    out.append(("source", "frame %d of mode %d is not the documented test packet: %s" % (k, m, p.hex() if p else p)))
            else:
                try:
                    assert struct.unpack("<H", p[:2])[0] == R.crc16(p[2:])
                    t = self.asn.decode("Telemetry", p[2:])
                    assert t["payloadCallsign"] == "4FSKTEST-V2" and t["sequenceNumber"] == k and fb == R.encode(p)
                    assert len(t.get("extraSensors") or []) == (0 if m == 2 else 4) and (m != 4 or t["customData"] == b"WOOF" * 8)
                except Exception as e:
                    out.append(("source", "frame %d of mode %d does not carry the test telemetry with sequence number %d: %r" % (k, m, k, e)))
        return out[:3]

    def judge_horus(self, plan, src, sent, audio, ends, lines, unfinished):
        nodes = plan["nodes"]
        size = FRAME[plan["mode"]]
        fl = R.tx_bytes(size) * 8
        lead = max([len(x) - 5 for nd in nodes if nd[0] == "@bits" for x in nd if x.startswith("lead=")] + [0])
        crc = "-c" in nodes[-1]
        faulty = bool(plan["kill"] or plan["eio"] or plan["term"] or any(x.startswith("cut=") for nd in nodes for x in nd))
        got_syms = len(audio.get("sym", "")) if audio else 0
        mod_bits = got_syms * 2
        trail_syms = plan["trail"] // (plan["fs"] // plan["rs"])
        must, may = [], []
        for k in range(plan["n"]):
            a = lead + k * fl
            if a + fl > len(sent):      # cut off: what is missing may still lie within the error budget
                p = R.decode([int(x) for x in src[k * fl:(k + 1) * fl]], size)
                if p:
                    may.append((k, p.hex().upper()))
                break
            p = R.decode([int(x) for x in sent[a:a + fl]], size)
            if not p or len(R.crc_kind(p)) != 1:
                continue
            item = (k, p.hex().upper())
            after = (mod_bits - (a + fl)) / 2 + (trail_syms if not faulty and not plan["noise"] else 0)
            if a + fl <= mod_bits and after >= 55 and not faulty and (k or lead >= 120 or (nodes[1][0] == "mod" and not plan["lead_s"])):
                must.append(item)
            may.append(item)
        got = []
        for l in lines:
            t = l.strip()
            if crc and t.endswith("CRC OK"):
                t = t[:-6].strip()
            got.append(t.upper())
        out = []
        seq = [t for _, t in may]
        it = iter(seq)
        if not all(g in it for g in got):
            out.append(("extra", "horus_demod printed %s; frames in the signal %s" % ([g[:24] for g in got], [s[:24] for s in seq])))
        miss = [k for k, t in must if t not in got]
        if miss:
            out.append(("lost", "frames %s of %d (mode %d, %d baud, %d bits modulated) never came out of horus_demod" % (miss, plan["n"], plan["mode"], plan["rs"], mod_bits)))
        if unfinished and not faulty:
            out.append(("unfinished", "horus_demod's output ends inside a line"))
        return out

    def judge_demod(self, plan, sent, bits, hard, ends, errs):
        nodes = plan["nodes"]
        k = next(i for i, x in enumerate(nodes) if x[0] == "demod")
        out = []
        rx = bits[k]
        if plan["soft"] and ends[k] == "exit 0" and hard.get(k) != (len(rx), 0):
            out.append(("soft-hard", "the signs of fsk_demod -s disagree with its hard decisions"))
        bps = 2 if plan["m"] == 4 else 1
        ns = plan["nsym"]
        blk = ns * bps
        faulty = bool(plan["kill"] or plan["eio"] or plan["term"] or any(x.startswith("cut=") for nd in nodes if nd[0] == "@audio" for x in nd))
        full = sent[:len(sent) // (50 * bps) * (50 * bps)] if any(x[0] == "mod" for x in nodes) else sent[:len(sent) // bps * bps]
        if len(rx) % blk:
            if ends[k] == "exit 0":
                out.append(("partial-block", "fsk_demod wrote %d bits, not a multiple of %d" % (len(rx), blk)))
        if not faulty and ends[k] == "exit 0":
            ts = plan["fs"] // plan["rs"]
            total = plan["lead_s"] + plan["trail"] + len(full) // bps * ts
            if abs(len(rx) // blk - total / (ns * ts)) > 1.6:
                out.append(("block-count", "%.2f blocks of audio gave %d blocks of bits" % (total / (ns * ts), len(rx) // blk)))
            skip = (10 if ns >= 50 else 120) if plan["lead_s"] == 0 else max(2 * blk, 200)
            core = full[skip:]
            end = min(len(core) - (blk if plan["trail"] else 0), len(rx) + blk)      # the estimators see the end of the signal
            if plan["trail"] < (ns + 5) * ts:
                end = min(end, len(core) - (ns + 5) * bps)
            core = core[:max(end, 0)]
            if len(core) > 60 and core not in rx:
                out.append(("bits-lost", "%d bits sent after acquisition do not come out of fsk_demod in one piece (%d received)" % (len(core), len(rx))))
            if plan["lead_s"] == 0 and plan["trail"] == 0 and len(core) > 300:
                for n, l in enumerate(errs.get(k, [])):
                    if l.startswith("{") and n > 3:
                        j = json.loads(l)
                        est = [j["f%d_est" % (q + 1)] for q in range(plan["m"])]
                        if any(abs(e - (plan["f1"] + q * plan["sp"])) > 0.7 * plan["rs"] for q, e in enumerate(est)):
                            out.append(("stats-tones", "fsk_demod -t reports tones %s; sent %s" % (est, [plan["f1"] + q * plan["sp"] for q in range(plan["m"])])))
                            break
        if ends[k] == "exit 0" and any(x.startswith("-t") for x in nodes[k]) and "-f" not in nodes[k] and len(rx) // blk >= 2 and not any(l.startswith("{") for l in errs.get(k, [])):
            out.append(("stats-missing", "fsk_demod -t printed no statistics in %d blocks" % (len(rx) // blk)))
        # messages
        for l in errs.get(k, []):
            if l.startswith("{"):
                try:
                    j = json.loads(l)
                except ValueError:
                    out.append(("stats-json", "fsk_demod -t wrote a line that is not JSON: %s" % l[:160]))
                    break
        if "-f" in nodes[k] and ends[k] in ("exit 0",):
            ref = count_frames([int(x) for x in rx], 100)
            rep = []
            stats = any(x.startswith("-t") for x in nodes[k])
            for l in errs.get(k, []):
                m = re.match(r"errs: (\d+) FSK BER (\S+), bits tested (\d+), bit errors (\d+)", l)
                if m and not stats:
                    rep.append((int(m.group(3)), int(m.group(4)), int(m.group(1))))
                elif l.startswith("{") and stats:
                    j = json.loads(l)
                    rep.append((j["frames"], j["bits"], j["errs"]))
            if not stats:
                want = [(t, e, x) for _, t, e, x in ref]
                if rep != want:
                    out.append(("frame-report", "fsk_demod -f reported %s, its own output holds %s" % (rep[-3:], want[-3:])))
            elif ref and (not rep or rep[-1] != ref[-1][:3]):
                out.append(("frame-report", "fsk_demod -f -t last reported %s, its own output holds %s" % (rep[-1:], ref[-1][:3])))
        return out[:3]

    def judge_putb(self, plan, nodes, pi, bits, ls, errs, end):
        used = next(int(l.split(" ")[5]) for l in ls if l.startswith("link %d " % (pi - 1)))
        rx = [int(x) for x in bits[pi - 1][:used]]
        ref = count_frames(rx, plan["fsize"], float(plan["thresh"] or 0.1))
        n, tot, er = ref[-1][:3] if ref else (0, 0, 0)
        ber = f32(f32(er) / f32(tot)) if tot else 0.5
        ok = n >= (plan["ppass"] or 0) and ber <= f32(float(plan["bpass"] or 0))
        out = []
        m = re.match(r"\[(\d+)\] BER (\S+), bits tested +(\d+), bit errors +(\d+)", errs[-2] if len(errs) > 1 else "")
        if not m or (int(m.group(1)), int(m.group(3)), int(m.group(4))) != (n, tot, er) or m.group(2) != "%.3f" % ber:
            out.append(("ber-report", "fsk_put_test_bits reported %r; its input holds %d frames, %d bits, %d errors (BER %.3f)" % (errs[-2:], n, tot, er, ber)))
        elif (errs[-1] == "PASS") != ok or (end == "exit 0") != ok:
            out.append(("verdict", "fsk_put_test_bits said %s and ended with %s for %d frames, BER %.4f, thresholds %s / %s" % (errs[-1], end, n, ber, plan["ppass"], plan["bpass"])))
        if plan["kind"] == "bits" and not plan["kill"] and not plan["eio"] and nodes[1][0] == "putb" and n < plan["nb"] // plan["fsize"]:
            out.append(("frames", "%d frames generated, %d recognised" % (plan["nb"] // plan["fsize"], n)))
        return out

    def shrink(self, plan):
        cp = lambda: json.loads(json.dumps(plan))
        for k in ("kill", "eio", "term"):
            if plan[k]:
                p = cp()
                p[k] = None
                yield p
        if plan["stalls"]:
            p = cp()
            p["stalls"] = []
            yield p
        p = cp()
        p["caps"] = [65536] * len(p["caps"])
        p["rpat"] = [[0]] * len(p["rpat"])
        p["wpat"] = [[0]] * len(p["wpat"])
        if p != plan:
            yield p
        for f in ("rpat", "wpat"):
            for k in range(len(plan[f])):
                if plan[f][k] != [0]:
                    p = cp()
                    p[f][k] = [0]
                    yield p
        for i, nd in enumerate(plan["nodes"]):
            for j, x in enumerate(nd):
                if x.startswith("flip="):
                    xs = x[5:].split(",")
                    for c in driver.list_shrinks(xs):
                        p = cp()
                        if c:
                            p["nodes"][i][j] = "flip=" + ",".join(c)
                        else:
                            del p["nodes"][i][j]
                        yield p

    def describe(self, plan):
        return " | ".join(" ".join(x) for x in plan["nodes"])[:900] + "\n" + json.dumps({k: v for k, v in plan.items() if k != "nodes"})


def fs_ts(pl):
    return pl["fs"] // pl["rs"]
