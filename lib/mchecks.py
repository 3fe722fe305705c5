"""Modem properties M01..M11 decided with msim."""
import json, math, os, re
import build, driver
import horusref as R
import msimlib as S
from driver import Check, list_shrinks, HarnessError

MAIN = os.path.join(driver.VERIF, "msim", "msim.c")

CFG4 = [  # fs, rs, P (4FSK); weights favour cheap ones
    (8000, 500, 8), (8000, 500, 8), (8000, 500, 16), (8000, 250, 8), (9600, 300, 8), (16000, 1000, 8), (16000, 500, 8), (12000, 600, 10),
    (48000, 1200, 8), (48000, 600, 8), (8000, 100, 10), (48000, 300, 8)]
CFG2 = [(8000, 500, 8), (8000, 500, 8), (8000, 400, 10), (9600, 300, 8), (16000, 1000, 8), (8000, 200, 8), (48000, 1200, 8), (48000, 600, 10), (8000, 100, 8)]


def pick_air(rng, m, cfgs, quad_p=0.25, big=False):
    """radio parameters of one channel: dict(fs, rs, P, quad, f1, sp, lim, mask)"""
    fs, rs, P = rng.choice(cfgs)
    if big:
        fs, rs, P = (48000, 100, 8)
    quad = 1 if rng.random() < quad_p else 0
    n = m - 1
    # tone spacing: at least the symbol rate
    top = fs / 2 - 1.5 * rs
    spmax = min((top - 2 * rs) / n, 3.2 * rs, fs / 3 / n - 1)
    mask = rng.random() < 0.35
    # spacings the peak-picking estimator resolves on any data; with a configured spacing (mask) any spacing does
    hs = [1, 1, 2, 2.1, 3] if not mask else [1, 1.35, 1.7, 2, 2.5, 2.7, 3, rng.uniform(1, 3.2)]
    ok = [h for h in hs if int(h * rs) <= spmax]
    sp = int(rs * rng.choice(ok or [1]))
    lo = 1.6 * rs
    hi = top - n * sp
    if hi < lo:
        hi = lo
    f1 = round(rng.uniform(lo, hi), 2)
    lim = None
    if quad and rng.random() < 0.4:
        f1 = round(rng.uniform(-fs / 2 + 1.6 * rs, fs / 2 - 1.6 * rs - n * sp), 2)
        if f1 < 1.6 * rs:
            lim = [max(-fs / 2 + 1, f1 - 1.5 * rs), min(fs / 2 - 1, f1 + n * sp + 1.5 * rs)]
    elif rng.random() < 0.25:
        lim = [max(0, f1 - rng.uniform(1.2, 3) * rs), min(fs / 2, f1 + n * sp + rng.uniform(1.2, 3) * rs)]
    return {"fs": fs, "rs": rs, "P": P, "quad": quad, "f1": f1, "sp": sp, "lim": lim, "mask": mask}


def payload(rng, kind=None):
    kind = kind or rng.choice(["v1", "v1", "v2", "v2", "v3-32", "v3-48", "v3-64", "v3-96", "v3-128"])
    style = rng.random()
    n = {"v1": 22, "v2": 32}.get(kind) or int(kind[3:])

    def body(k):
        if style < 0.1:
            return bytes(k)
        if style < 0.15:
            return b"\xff" * k
        if style < 0.2:
            return bytes([rng.choice([0x24, 0x00, 0xff]) for _ in range(k)])
        return bytes(rng.getrandbits(8) for _ in range(k))
    while True:
        p = R.seal(body(n - 2), 3 if kind.startswith("v3") else 1)
        if len(R.crc_kind(p)) == 1 and not R.premature(R.encode(p), n):
            return p
        style = 0.9


def flips_in_budget(rng, p, heavy):
    n = len(p)
    pos = R.air_positions(R.tx_bytes(n))
    fl = []
    if rng.random() < 0.5:
        fl.append(rng.randrange(16))
    for d, q in R.codewords(n):
        k = 3 if heavy else rng.choice([0, 0, 1, 2, 3])
        for x in rng.sample(d + q, k):
            fl.append(pos[x])
    return sorted(set(fl))


def awkward(rng, how):
    """(payload, bit errors): a frame whose own bits contain sync words, a run of sync words or another whole packet"""
    kind = rng.choice(["v1", "v2", "v3-32", "v3-48", "v3-64", "v3-96", "v3-128", "v3-128"])
    n = {"v1": 22, "v2": 32}.get(kind) or int(kind[3:])
    ver = 3 if kind.startswith("v3") else 1
    tot = 8 * R.tx_bytes(n)
    uw = [0, 0, 1, 0, 0, 1, 0, 0] * 2
    aim = {}
    if how == "words":
        for _ in range(rng.choice([1, 2, 5, max(1, tot // 60)])):
            a = rng.randrange(16, tot - 16)
            aim.update((a + j, b) for j, b in enumerate(uw))
    elif how == "run":
        st = rng.choice([16, 24, 16 + rng.randrange(200)])
        ln = min(tot - st, int(8 * (n - 2) * 16 / 15 * rng.choice([1, 1, rng.random()])))
        aim.update((a, uw[(a - st) % 8]) for a in range(st, st + max(ln, 16)) if a < tot)
        for b in range(st, st + max(ln, 16) - 16, 16):
            aim[b + rng.choice([3, 4])] = 1
    else:
        inner = R.encode(payload(rng, rng.choice(["v1", "v1", "v2", "v3-32"]) if n > 64 else "v1"))
        if len(inner) + 40 > 8 * (n - 2):
            inner = list(R.encode(R.seal(bytes(20), 1)))[:16 + rng.randrange(8 * (n - 2) - 40)]
        st = rng.randrange(16, tot - len(inner))
        aim.update((st + j, b) for j, b in enumerate(inner))
    want = list(aim.items())
    p = R.craft(n, ver, want, rng)
    bits = R.encode(p)
    fl = []
    if rng.random() < 0.7:                  # bit errors which bring it still closer to that
        m = R.air_positions(R.tx_bytes(n))
        for d, q in R.codewords(n):
            bad = [m[x] for x in d + q if aim.get(m[x], bits[m[x]]) != bits[m[x]]]
            fl += rng.sample(bad, min(3, len(bad)))
    return p, sorted(fl)


def flips_over_budget(rng, p):
    n = len(p)
    pos = R.air_positions(R.tx_bytes(n))
    fl = []
    for d, q in R.codewords(n):
        k = rng.choice([0, 1, 3])
        for x in rng.sample(d + q, k):
            fl.append(pos[x])
    for d, q in rng.sample(R.codewords(n), rng.choice([1, 1, 2])):
        for x in rng.sample(d + q, rng.choice([4, 5, 7])):
            fl.append(pos[x])
    return sorted(set(fl))


def junk_seg(rng, a, amp):
    """something on the channel that is not a packet; level comparable to the signal"""
    rs, fs = a["rs"], a["fs"]
    n = int(rng.choice([1, 7, fs / rs * 3, fs / rs * 50, fs / rs * 50 * rng.uniform(1, 6)]))
    n = max(1, n)
    k = rng.randrange(9)
    sd = rng.getrandbits(31)
    if k <= 1:
        return {"t": "x", "s": "noise %d %g %d" % (n, amp * rng.choice([0.01, 0.1, 0.5]), sd)}
    if k == 2:
        return {"t": "x", "s": "zero %d" % n}
    if k == 3:
        return {"t": "x", "s": "tone %d %g %g" % (n, rng.uniform(0, fs / 2), amp * rng.choice([0.1, 0.5, 1]))}
    if k == 4:
        return {"t": "x", "s": "sweep %d %g %g %g" % (n, rng.uniform(0, fs / 2), rng.uniform(0, fs / 2), amp * rng.choice([0.1, 0.5, 1]))}
    if k == 5:
        return {"t": "x", "s": "pcm %d %g %d" % (n, amp * rng.choice([0.1, 1]), sd)}
    if k == 6:
        return {"t": "x", "s": "impulse %d %d %g" % (n, rng.randrange(2, 400), min(32767, amp * 3))}
    if k == 7:
        return {"t": "x", "s": "dc %d %g" % (n, amp * rng.choice([-0.3, 0.3]))}
    return {"t": "x", "s": "square %d %d %g" % (n, rng.randrange(1, 200), amp * 0.3)}


def junk_item(rng):
    """damaged traffic inside a burst"""
    k = rng.randrange(8)
    if k == 0:
        return {"bits": "".join(rng.choice("01") for _ in range(2 * rng.randrange(1, 300)))}
    if k == 1:
        return {"raw": "24" * rng.choice([1, 2, 3, 5, 20, 40, 70, 120])}
    if k == 2:
        return {"raw": rng.choice(["00", "ff", "55", "1b", "92"]) * rng.randrange(1, 100)}
    if k == 3:
        return {"raw": "2424" + bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 260))).hex()}
    p = payload(rng)
    it = {"p": p.hex()}
    if k == 4:
        it["flips"] = flips_over_budget(rng, p)
    elif k == 5:
        it["cut"] = rng.randrange(10, 8 * R.tx_bytes(len(p)) - 1) & ~1
    elif k == 6:
        it["slip"] = [rng.randrange(20, 4 * R.tx_bytes(len(p)) - 20), rng.choice([-1, 1]) * rng.choice([1, 3, 8, 40])]
        it["flips"] = flips_over_budget(rng, p)
    else:
        it["flips"] = sorted({rng.randrange(16), rng.randrange(16)} | set(flips_in_budget(rng, p, False)))
    return it


def retrain(rng, n=None):
    """signal with all tones present, so that the tone estimators recover from whatever preceded it"""
    k = rng.randrange(200)
    sy = S.TRAIN[4 * k:4 * k + (n or rng.choice([150, 160, 173]))]
    return {"bits": "".join(format(int(c), "02b") for c in sy)}


def junk_items(rng):
    it = junk_item(rng)
    return [it, retrain(rng)]


PRESYM = 250        # symbols of preamble that re-train the estimators after arbitrary signal


def guard(a, k=60):
    return {"t": "x", "g": 1, "s": "zero %d" % int(k * a["fs"] / a["rs"])}


def guards_kept(old, new):
    """a smaller channel history keeps the silent gaps next to the bursts it keeps"""
    ids = {id(s) for s in new}
    for j, s in enumerate(old):
        if "items" in s and id(s) in ids:
            for k in (j - 1, j + 1):
                if 0 <= k < len(old) and old[k].get("g") and id(old[k]) not in ids:
                    return False
    return True


class MCheck(Check):
    flavour = "plain"
    real = ["src/horus_api.c", "src/horus_l2.c", "src/fsk.c", "src/golay23.c", "src/kiss_fft.c (compiled from the working tree)"]
    stubs = ["transmitter and radio channel (msim.c air model + lib/horusref.py encoder)", "caller's schedule"]
    state_measure = "distinct (receiver configuration, block phase of frame start mod block, delivered/not) tuples"
    assumptions = ["the air model's FSK modulator is ideal (continuous phase, exact tones)", "sampled seeds, not enumeration"]

    def build(self):
        self.bin = build.c_program("msim", MAIN, self.flavour)

    def execute(self, plan):
        log, err, rc = S.run_msim(self.bin, plan)
        facts = {"nontrivial": 1}
        if log == "TIMEOUT\n":
            log += "rc timeout\n"
        else:
            log += "rc %s\n" % rc
            if rc != 0:
                log += "stderr " + canon_err(err) + "\n"
        if rc in (3, 4):
            raise HarnessError("msim rejected the plan: %s" % err[-500:])
        sim = 0.0
        st = set()
        d = S.parse(log)
        for i, s in enumerate(plan["stations"]):
            fs = plan["airs"][s["air"]]["fs"]
            if i in d["ends"]:
                sim += d["ends"][i][0] / fs
        facts["sim_s"] = sim
        facts["blocks"] = sum(e[1] for e in d["ends"].values())
        facts["packets_delivered"] = sum(len(x) for x in d["pkts"].values())
        for a, it, m0, m1, seg in S.blocks_marks(plan):
            if m0 < len(d["marks"]):
                for i, s in enumerate(plan["stations"]):
                    if s["air"] == a:
                        st.add((plan["airs"][a]["fs"], seg["rs"], s["mode"], s["sp"] > 0, int(16 * ((d["marks"][m0] * seg["rs"] / plan["airs"][a]["fs"] / 50) % 1)), bool(it.get("flips")), len(it.get("p", it.get("txt", "")))))
        facts["_states"] = st
        self.count(plan, facts)
        return log, facts

    def count(self, plan, facts):
        def add(k, n=1):
            facts[k] = facts.get(k, 0) + n
        for air in plan["airs"]:
            if air.get("awgn"):
                add("fault_awgn")
            for s in air["segs"]:
                if s["t"] == "x":
                    add("fault_" + s["s"].split()[0])
                    continue
                if s.get("ppm"):
                    add("fault_clock_skew")
                if s.get("frac"):
                    add("fault_subsample_phase")
                for it in s["items"]:
                    if "p" in it or "txt" in it:
                        add("frames")
                    if it.get("flips"):
                        add("fault_bit_errors", len(it["flips"]))
                    if it.get("cut") is not None:
                        add("fault_truncated")
                    if it.get("slip"):
                        add("fault_slip")
                    if "bits" in it or "raw" in it:
                        add("fault_junk_bits")
        for op in plan["ops"]:
            if op[0] in ("poke", "verbose", "fill", "close"):
                add("sched_" + op[0])

    def crash(self, plan, log):
        d = S.parse(log)
        out = []
        if "rc timeout" in log:
            out.append(("hang", "receiver did not finish within the time limit"))
        elif not re.search(r"^rc 0$", log, re.M):
            m = re.search(r"^rc (\S+)\n?(.*)", log, re.M | re.S)
            out.append(("crash", "receiver process ended abnormally: %s" % (m.group(0)[:400] if m else "?")))
        for b in d["bad"]:
            out.append((b.split()[0].lower(), b))
        return d, out

    def shrink(self, plan):
        for ai, a in enumerate(plan["airs"]):
            for cand in list_shrinks(a["segs"]):
                if not guards_kept(a["segs"], cand):
                    continue
                p = json.loads(json.dumps(plan))
                p["airs"][ai]["segs"] = cand
                yield p
            for si, s in enumerate(a["segs"]):
                if "items" in s:
                    for cand in list_shrinks(s["items"]):
                        p = json.loads(json.dumps(plan))
                        p["airs"][ai]["segs"][si]["items"] = cand
                        yield p
                    for ii, it in enumerate(s["items"]):
                        if it.get("flips"):
                            for cand in list_shrinks(it["flips"]):
                                p = json.loads(json.dumps(plan))
                                p["airs"][ai]["segs"][si]["items"][ii]["flips"] = cand
                                yield p
            if a.get("awgn"):
                p = json.loads(json.dumps(plan))
                p["airs"][ai]["awgn"] = None
                yield p
        for cand in list_shrinks(plan["ops"]):
            p = json.loads(json.dumps(plan))
            p["ops"] = cand
            yield p

    def describe(self, plan):
        return S.render(plan)[:3000]


def canon_err(err):
    """sanitizer / assert text without addresses"""
    keep = []
    for l in err.splitlines():
        if "runtime error" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l or "SUMMARY" in l:
            l = re.sub(r"0x[0-9a-f]+", "0x", l)
            l = re.sub(r"==\d+==", "", l)
            keep.append(l)
    return " | ".join(keep[:3])[:600]


def tail(air, rs, blocks=10):
    air["tailn"] = int(blocks * 52 * air["fs"] / rs)


def four_fsk_plan(rng, items_fn, kinds=None, nseg=None, quad_p=0.25, big=False):
    a = pick_air(rng, 4, CFG4, quad_p, big)
    amp = rng.choice([200, 1000, 5000, 15000, 28000])
    segs = []
    for _ in range(nseg or rng.randrange(1, 4)):
        for _ in range(rng.choice([0, 0, 1, 2])):
            segs.append(junk_seg(rng, a, amp))
        if segs and rng.random() < 0.6:
            # a small extra offset so that symbol phase falls anywhere in a block
            segs.append({"t": "x", "s": "zero %d" % rng.randrange(1, int(50 * a["fs"] / a["rs"]))})
        segs.append({"t": "burst", "rs": a["rs"], "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3),
                     "pre": PRESYM + rng.randrange(100), "rot": rng.randrange(0 if a["sp"] >= 1.3 * a["rs"] else 4, 8), "post": rng.choice([2, 60, 66, 80]), "items": items_fn(rng, a)})
        segs.append(guard(a))
    air = {"fs": a["fs"], "quad": a["quad"], "segs": segs}
    if rng.random() < 0.4:
        air["awgn"] = [amp / rng.choice([12, 20, 60]), rng.getrandbits(31)]
    tail(air, a["rs"])
    st = {"air": 0, "mode": 0, "rs": a["rs"], "sp": a["sp"] if a["mask"] else -1, "P": a["P"], "lim": a["lim"]}
    return {"airs": [air], "stations": [st], "ops": []}, a


def in_order_feed(rng, k=0):
    return [["open", k], ["feedall", k]]


class M01(MCheck):
    id = "M01"
    quick_runs = 2000
    thorough_runs = 60000
    rule = "seeded plan: channel history (noise, interference, damaged frames, sync runs) then frames with bit errors within budget; non-trivial = at least one in-budget frame expected"

    def gen(self, rng, tier, i):
        if rng.random() < 0.03:
            return self.run_plan(rng)

        def items(rng, a):
            out = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    out += junk_items(rng)
                p = payload(rng)
                it = {"p": p.hex()}
                r = rng.random()
                if r < 0.75:
                    it["flips"] = flips_in_budget(rng, p, r < 0.3)
                if rng.random() < 0.12:
                    p, fl = awkward(rng, rng.choice(["words", "words", "inner"]))
                    if len(R.crc_kind(p)) == 1 and not R.premature(R.encode(p), len(p)):
                        it = {"p": p.hex(), "flips": fl}
                out.append(it)
                if rng.random() < 0.8:
                    out.append(retrain(rng, rng.choice([60, 61, 75, 100])))
            return out
        plan, a = four_fsk_plan(rng, items, big=(i % 40 == 7))
        plan["ops"] = in_order_feed(rng)
        return plan

    def run_plan(self, rng):
        """a clean channel, and frames which are runs of sync words: the bookkeeping of the deframer at its fullest"""
        # spacing and limits such that the tone estimators cannot confuse a tone that is hardly ever sent
        fs, rs, P = rng.choice([c for c in CFG4 if c[1] >= 300])
        hs = [h for h in (2, 3) if 3 * h * rs < fs / 2 - 5 * rs and 3 * h * rs < fs / 3 - 1]
        if not hs:
            fs, rs, P, hs = 48000, 600, 8, [2, 3]
        a = {"fs": fs, "rs": rs, "P": P, "quad": 0, "sp": int(rng.choice(hs) * rs), "lim": None, "mask": True}
        a["f1"] = round(rng.uniform(1.6 * rs, max(1.6 * rs, fs / 2 - 1.5 * rs - 3 * a["sp"])), 2)
        a["lim"] = [max(0, a["f1"] - 1.3 * rs), a["f1"] + 3 * a["sp"] + 1.3 * rs]
        amp = rng.choice([5000, 15000])
        segs = []
        for _ in range(rng.choice([1, 2])):
            items = []
            for _ in range(rng.choice([1, 1, 2])):
                p, fl = awkward(rng, "run")
                if len(R.crc_kind(p)) != 1 or R.premature(R.encode(p), len(p)):
                    continue
                if rng.random() < 0.4:      # a run of sync words that belongs to no frame
                    n = rng.randrange(60, 240)
                    items += [{"bits": "".join(rng.choice(["00100100", "00110100", "00101100"]) if k & 1 else "00100100" for k in range(n))}, retrain(rng, 100)]
                items += [{"p": p.hex(), "flips": fl}, retrain(rng, 100)]
            segs.append({"t": "burst", "rs": rs, "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3),
                         "pre": PRESYM + rng.randrange(100), "rot": 0, "post": 80, "items": items})
            segs.append(guard(a))
        air = {"fs": fs, "quad": 0, "segs": segs}
        tail(air, rs)
        st = {"air": 0, "mode": 0, "rs": rs, "sp": a["sp"], "P": P, "lim": a["lim"]}
        return {"airs": [air], "stations": [st], "ops": in_order_feed(rng)}

    def judge(self, plan, log, facts):
        d, v = self.crash(plan, log)
        v = stopped(v)
        if v:
            return v
        for i, s in enumerate(plan["stations"]):
            air = plan["airs"][s["air"]]
            if not ran_to_end(plan, d, i):
                continue
            pk = list(d["pkts"].get(i, []))
            for a, it, m0, m1, seg in S.blocks_marks(plan):
                if a != s["air"] or not S.frame_good(it):
                    continue
                if m1 >= len(d["marks"]):
                    raise HarnessError("marks missing")
                end = d["marks"][m1]
                blk = 50 * air["fs"] / s["rs"]
                # the block in which the last bit arrives ends at the latest 1 block later; four more are allowed
                late = end + blk * 5 + 2 * air["fs"] / s["rs"]
                facts["reach_good_frames"] = facts.get("reach_good_frames", 0) + 1
                want = it["p"].lower()
                hit = [p for p in pk if p["text"].lower() == want and p["crc"] == 1 and p["pos"] >= end - blk and p["pos"] <= late]
                if not hit:
                    if coincidence(it) or S.hidden_tone(self.bin, air, s, seg, d["marks"][m0], end):
                        continue
                    anyhit = [p for p in pk if p["text"].lower() == want]
                    v.append(("late" if anyhit else "lost", "frame of %d bytes ending at sample %d (%d bit errors, in budget) was %s" % (
                        len(it["p"]) // 2, end, len(it.get("flips", ())), "delivered at %s, later than %d" % ([p["pos"] for p in anyhit], late) if anyhit else "not delivered")))
                else:
                    pk.remove(hit[0])
        return v


def stopped(v):
    """the ways in which a receiver stops receiving altogether"""
    return [x for x in v if x[0] in ("crash", "hang", "badnin")]


def ran_to_end(plan, d, i):
    """the schedule opened the receiver and fed it the whole stream"""
    return i in d["opens"] and i in d["ends"] and ["open", i] == [o for o in plan["ops"] if o[0] in ("open", "feed", "feedall", "feedstat") and o[1] == i][0][:2]


def coincidence(it):
    """with its bit errors, a prefix of the frame happens to be a checksum-valid smaller packet"""
    return R.premature(S.item_bits(it), len(it["p"]) // 2)


# ---------------------------------------------------------------------------------------------- RTTY
PRINT = [c for c in range(33, 127) if c not in (0x24, 0x2A)]


def crc_step(s, b):
    return ((s << 8) & 0xFFFF) ^ _T[(s >> 8) ^ b]


def _mk(i):
    c = i << 8
    for _ in range(8):
        c = ((c << 1) ^ 0x1021) & 0xFFFF if c & 0x8000 else (c << 1) & 0xFFFF
    return c


_T = [_mk(i) for i in range(256)]
_TI = {t & 255: i for i, t in enumerate(_T)}


def crc_suffix(rng, body, target):
    """4 characters that make the checksum of body+them equal to target"""
    s = 0xFFFF
    for b in body:
        s = crc_step(s, b)
    al = list(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789,.-")
    rng.shuffle(al)
    fw = {}
    for x in al:
        sx = crc_step(s, x)
        for y in al:
            fw[crc_step(sx, y)] = (x, y)
    for w in al:
        t = _TI[target & 255]
        s1 = ((t ^ w) << 8) | ((target ^ _T[t]) >> 8)
        for z in al:
            t2 = _TI[s1 & 255]
            s2 = ((t2 ^ z) << 8) | ((s1 ^ _T[t2]) >> 8)
            if s2 in fw:
                return body + bytes(fw[s2]) + bytes([z, w])
    return None


def ukhas_body(rng, total=None):
    call = "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-") for _ in range(rng.randrange(3, 9)))
    s = "%s,%d,%02d:%02d:%02d,%.5f,%.5f,%d" % (call, rng.randrange(100000), rng.randrange(24), rng.randrange(60), rng.randrange(60),
                                              rng.uniform(-90, 90), rng.uniform(-180, 180), rng.randrange(40000))
    total = total or rng.choice([20, 40, 60, 80, 99, 100, rng.randrange(16, 101)])
    # total counts the sentence without $ : body + '*' + 4
    while len(s) + 5 < total:
        s += "," + "".join(chr(rng.choice(PRINT)) for _ in range(rng.randrange(1, 8)))
    return s[:max(6, total - 5)].encode()


def rtty_air(rng):
    a = pick_air(rng, 2, CFG2, 0.2)
    mode = rng.choice([89, 90, 91])
    a["mode"] = mode
    a["data"], a["stop"] = R.RTTY[mode]
    if not a["mask"]:
        top = a["fs"] / 2 - 1.5 * a["rs"]
        hs = [h for h in (1, 2, 3, 4, 4.5, 8.5) if a["lim"] is None and a["f1"] > 0 and a["f1"] + h * a["rs"] < top and h * a["rs"] * 3 < a["fs"]]
        if hs:
            a["sp"] = int(rng.choice(hs) * a["rs"])
    return a


def rtty_seg(rng, a, amp, items):
    return {"t": "rtty", "rs": a["rs"], "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3), "data": a["data"], "stop": a["stop"], "items": items}


def sentence(rng, body=None, dollars=None):
    b = R.rtty_sentence(body or ukhas_body(rng))
    return b"$" * (dollars or rng.choice([2, 2, 3, 4, 5, 7, 8])) + b + rng.choice([b"\n", b"\r\n", b""])


def rtty_plan(rng, items_fn, nseg=None):
    a = rtty_air(rng)
    amp = rng.choice([200, 1000, 5000, 15000, 28000])
    segs = []
    for _ in range(nseg or rng.randrange(1, 3)):
        for _ in range(rng.choice([0, 0, 1, 2])):
            segs.append(junk_seg(rng, a, amp))
        if segs and rng.random() < 0.6:
            segs.append({"t": "x", "s": "zero %d" % rng.randrange(1, int(50 * a["fs"] / a["rs"]))})
        segs.append(rtty_seg(rng, a, amp, items_fn(rng, a)))
        segs.append(guard(a))
    air = {"fs": a["fs"], "quad": a["quad"], "segs": segs}
    if rng.random() < 0.4:
        air["awgn"] = [amp / rng.choice([12, 20, 60]), rng.getrandbits(31)]
    tail(air, a["rs"], 34)
    st = {"air": 0, "mode": a["mode"], "rs": a["rs"], "sp": a["sp"] if a["mask"] else -1, "P": a["P"], "lim": a["lim"]}
    return {"airs": [air], "stations": [st], "ops": in_order_feed(rng)}, a


def rtty_junk(rng):
    k = rng.randrange(7)
    rb = lambda n: bytes(rng.choice(PRINT) for _ in range(n)).hex()
    if k == 0:
        return {"txt": rb(rng.randrange(1, 60))}
    if k == 1:
        return {"txt": (b"$" * rng.choice([1, 3, 9, 20, 40, 100])).hex()}
    if k == 2:
        b = sentence(rng)
        j = rng.randrange(3, len(b))
        return {"txt": (b[:j] + bytes([b[j] ^ 1]) + b[j + 1:]).hex()}
    if k == 3:
        b = sentence(rng)
        return {"txt": b[:rng.randrange(2, len(b))].hex()}
    if k == 4:
        return {"txt": (b"$$" + bytes(rng.choice(PRINT) for _ in range(rng.randrange(100, 200)))).hex() + rng.choice(["", "2a31323334"])}
    if k == 5:
        return {"bits": "".join(rng.choice("01") for _ in range(rng.randrange(1, 300)))}
    return {"txt": rb(3) + "2a" + rb(rng.randrange(1, 8))}


def norm_rtty(t):
    return S.untext(t).lstrip(b"$")


class M04(MCheck):
    id = "M04"
    quick_runs = 4000
    thorough_runs = 40000
    rule = "seeded RTTY traffic: damaged/over-long/unterminated sentences, random bits, idle, then sentences; non-trivial = at least one sentence expected"

    def gen(self, rng, tier, i):
        def items(rng, a):
            out = [{"idle": rng.choice([0, 5, 50, 200])}, {"txt": bytes(rng.choice(PRINT) for _ in range(30)).hex()}]
            for _ in range(rng.choice([1, 1, 2, 3])):
                for _ in range(rng.choice([0, 0, 1, 2])):
                    out.append(rtty_junk(rng))
                out.append({"idle": rng.choice([0, 1, 3, 20, 60, 300, rng.randrange(S.MAXIDLE)])})
                out.append({"txt": sentence(rng).hex(), "track": 1})
            out.append({"idle": rng.choice([0, 10, 100])})
            return out
        return rtty_plan(rng, items)[0]

    def judge(self, plan, log, facts):
        d, v = self.crash(plan, log)
        v = stopped(v)
        if v:
            return v
        s = plan["stations"][0]
        if not ran_to_end(plan, d, 0):
            return []
        pk = list(d["pkts"].get(0, []))
        for a, it, m0, m1, seg in S.blocks_marks(plan):
            want = bytes.fromhex(it["txt"]).lstrip(b"$").rstrip(b"\r\n")
            if not it["trained"] or not R.rtty_ok(want):
                continue
            facts["reach_sentences"] = facts.get("reach_sentences", 0) + 1
            hit = [p for p in pk if p["crc"] == 1 and norm_rtty(p["text"]) == want]
            if not hit:
                v.append(("lost", "sentence %r ending at sample %d not delivered" % (want, d["marks"][m1])))
            else:
                pk.remove(hit[0])
        return v


# ---------------------------------------------------------------------------------------------- M02
LEGAL = (22,) + R.SIZES_V3


def near_miss(rng):
    """a correctly encoded frame whose own checksum does not verify, or that is cut short, or has a size that is not a packet"""
    k = rng.randrange(9)
    if k <= 2:
        p = bytearray(payload(rng))
        n = len(p)
        lo = n - 2 if R.crc_kind(bytes(p)) != [3] and 3 not in R.crc_kind(bytes(p)) else 0
        j = rng.choice([lo, lo + 1]) if rng.random() < 0.7 else rng.randrange(n)
        p[j] ^= rng.choice([1 << rng.randrange(8), 0xff, rng.randrange(1, 256)])
        return {"p": bytes(p).hex()}
    if k == 3:      # checksum at the other end than the size allows, or for another part of the payload
        n = rng.choice(LEGAL)
        body = bytes(rng.getrandbits(8) for _ in range(n - 2))
        c = rng.choice([R.crc16(body), R.crc16(body[:-1]), R.crc16(body[1:]), 0, 0xFFFF, R.crc16(body[:20]), R.crc16(body[:30]), R.crc16(body) ^ 0xFFFF])
        b = bytes([c & 255, c >> 8]) if rng.random() < 0.7 else bytes([c >> 8, c & 255])
        return {"p": (body + b if rng.random() < 0.5 else b + body).hex()}
    if k == 4:      # not a packet size
        n = rng.choice([16, 20, 24, 30, 33, 40, 56, 63, 65, 72, 80, 95, 100, 112, 127])
        body = bytes(rng.getrandbits(8) for _ in range(n - 2))
        return {"p": R.seal(body, rng.choice([1, 3])).hex()}
    p = payload(rng)
    if k == 5:
        return {"p": p.hex(), "flips": flips_over_budget(rng, p)}
    if k == 6:
        return {"p": p.hex(), "cut": rng.randrange(30, 8 * R.tx_bytes(len(p)) - 1) & ~1}
    if k == 7:
        return {"p": p.hex(), "slip": [rng.randrange(20, 4 * R.tx_bytes(len(p)) - 10), rng.choice([-1, 1]) * rng.choice([1, 3, 8, 40])]}
    it = {"p": p.hex(), "flips": sorted({rng.randrange(16) for _ in range(rng.randrange(1, 4))})}
    return it


ALIAS = {}
for _d in range(16):
    _h = "0123456789ABCDEF"[_d]
    _al = {chr((ord("0") + _d)), chr(ord("A") + _d - 10) if _d >= 0 else "", chr(ord("a") + _d - 10)}
    for _c in range(33, 127):
        ch = chr(_c)
        if ch in "0123456789abcdefABCDEF*$":
            continue
        if (_c & 15) == _d or (_c - 48) & 15 == _d or (_c - 55) & 15 == _d or (_c - 87) & 15 == _d or (_c % 16) == _d:
            ALIAS.setdefault(_d, set()).add(ch)


def rtty_near(rng):
    b = ukhas_body(rng)
    d = b"$" * rng.choice([2, 3, 5, 8])
    end = rng.choice([b"\n", b"\r\n", b""])
    k = rng.randrange(8)
    if k == 0:
        c = R.crc16(b) ^ (1 << rng.randrange(16))
        return d + b + b"*%04X" % c + end
    if k == 1:
        s = bytearray(b + b"*%04X" % R.crc16(b))
        j = rng.randrange(len(s))
        s[j] ^= 1 << rng.randrange(7)
        return d + bytes(s) + end
    if k == 2:      # non-hex characters that a careless parser takes for the right digits
        h = list("%04X" % R.crc16(b))
        for j in rng.sample(range(4), rng.choice([1, 1, 2, 4])):
            h[j] = rng.choice(sorted(ALIAS.get(int(h[j], 16), {"?"})))
        return d + b + b"*" + "".join(h).encode() + end
    if k == 3:      # ... or for all ones / nothing
        t, txt = rng.choice([(0xFFFF, None), (0xFFFF, None), (0x0000, None), (0x0012, "0x12"), (0x0012, "  12"), (0x0012, "+012"), (0x0001, "   1"), (0, "    "), (0xFFFF, "-001"), (0xFF00, None),
                             (0x0FFF, None), (0x00FF, None), (0x000F, None), (0x1FFF, "1GHI"), (0x12FF, "12GH"), (0x123F, "123G"), (0x0ABC, "ABC\n"), (0x00AB, "AB\r\n"), (0x000A, "A\r\n\n")])
        nb = crc_suffix(rng, b, t)
        if nb is None or len(nb) > 95:
            nb = b
        if txt is None:
            txt = "".join(rng.choice("GHIJKLMNOPQRSTUVWXYZghijklmnopqrstuvwxyz!#%&()/:;<=>?@[]^_{|}~.,- ") for _ in range(4))
        return d + nb + b"*" + txt.encode() + end
    if k == 4:      # the checksum arrives late or not at all
        n = rng.randrange(100, 135)
        bb = bytes(rng.choice(PRINT) for _ in range(n))
        return d + bb + b"*%04X" % R.crc16(bb) + end
    if k == 5:
        s = d + b + b"*%04X" % R.crc16(b)
        return s[:len(s) - rng.randrange(1, 6)] + rng.choice([b"", b"\n", b"\x00"])
    if k == 6:      # checksum of another range
        c = rng.choice([R.crc16(d + b), R.crc16(b + b"*"), R.crc16(b[1:]), R.crc16(b[:-1]), R.crc16(b"$" + b)])
        return d + b + b"*%04X" % c + end
    return d + bytes(rng.getrandbits(7) for _ in range(rng.randrange(3, 130))) + b"*" + bytes(rng.choice(b"0123456789ABCDEFGZ") for _ in range(4)) + end


class M02(MCheck):
    id = "M02"
    quick_runs = 3500
    thorough_runs = 60000
    rule = "seeded near-miss traffic (wrong checksum under a valid inner code, aliasing checksum digits, illegal sizes, cut and slipped frames, late or unfinished sentences) mixed with good packets; every packet reported good is re-verified; non-trivial = all runs"

    def gen(self, rng, tier, i):
        if i % 2:
            def items(rng, a):
                out = [{"txt": bytes(rng.choice(PRINT) for _ in range(30)).hex()}]
                for _ in range(rng.randrange(1, 5)):
                    r = rng.random()
                    if r < 0.25:
                        out.append({"txt": sentence(rng).hex()})
                    elif r < 0.85:
                        out.append({"txt": rtty_near(rng).hex()})
                    else:
                        out.append(rtty_junk(rng))
                    out.append({"idle": rng.choice([0, 1, 3, 20, 60])})
                return out
            return rtty_plan(rng, items)[0]

        def items(rng, a):
            out = []
            for _ in range(rng.randrange(1, 5)):
                r = rng.random()
                if r < 0.2:
                    out.append({"p": payload(rng).hex()})
                elif r < 0.85:
                    out.append(near_miss(rng))
                else:
                    out.append(junk_item(rng))
                out.append(retrain(rng, rng.choice([3, 20, 61, 150])))
            return out
        plan, a = four_fsk_plan(rng, items)
        plan["ops"] = in_order_feed(rng)
        return plan

    def judge(self, plan, log, facts):
        d, v = self.crash(plan, log)
        v = []      # abnormal ends belong to M05
        for i, s in enumerate(plan["stations"]):
            for kind in ("pkts", "left"):
                for p in d[kind].get(i, []):
                    if p["crc"] != 1:
                        continue
                    facts["reach_reported_good"] = facts.get("reach_reported_good", 0) + 1
                    m = verify_reported(s["mode"], p, kind == "left")
                    if m:
                        v.append(("unverified" if kind == "pkts" else "stale-status", "block %d: %s" % (p["blk"], m)))
        return v


def verify_reported(mode, p, left):
    if mode == 0:
        t = p["text"]
        if not re.fullmatch(r"([0-9A-Fa-f]{2})+", t):
            return "text %r reported good is not a hex packet" % t[:80]
        b = bytes.fromhex(t)
        if len(b) not in LEGAL:
            return "%d byte payload reported good (not a packet size): %s" % (len(b), t)
        k = R.crc_kind(b)
        if not k:
            return "%d byte payload reported good but its checksum does not verify: %s" % (len(b), t)
        if not left and p["ver"] not in k:
            return "payload verifies as version %s but was reported as version %d: %s" % (k, p["ver"], t)
        return None
    t = S.untext(p["text"])
    if not R.rtty_ok(t):
        return "sentence %r reported good but its checksum does not verify" % t
    return None


# ---------------------------------------------------------------------------------------------- M03
def order_match(sent, got):
    """sent: [(key, must)], got: [key].  None if got is an in-order selection of sent containing every must, else the reason"""
    n, m = len(sent), len(got)
    # reach[j] after i sent: first j got are explained
    cur = {0}
    for i, (k, must) in enumerate(sent):
        nxt = set()
        for j in cur:
            if not must:
                nxt.add(j)
            if j < m and got[j] == k:
                nxt.add(j + 1)
        if not nxt:
            far = max(cur)
            return "transmission %d (%s) was not delivered in its turn; delivered so far %d of %d, next delivered: %s" % (i, k[:60], far, m, [g[:60] for g in got[far:far + 2]])
        cur = nxt
    if m not in cur:
        far = max(cur)
        return "delivered packet %d (%s) was not sent at that point (repeat, swap or invention)" % (far, got[far][:80])
    return None


class M03(MCheck):
    id = "M03"
    quick_runs = 2000
    thorough_runs = 50000
    rule = "seeded sequences of 2..10 packets (repeats of the same packet included) with damaged ones, gaps and sync runs between; the delivered list is matched against the sent list; non-trivial = at least two packets must be delivered"

    def gen(self, rng, tier, i):
        if i % 3 == 0:
            def items(rng, a):
                out = [{"txt": bytes(rng.choice(PRINT) for _ in range(40)).hex()}]
                prev = None
                for _ in range(rng.randrange(2, 7)):
                    if rng.random() < 0.3:
                        j = rtty_junk(rng)
                        out.append(j)
                    if rng.random() < 0.25:
                        out.append({"txt": (b"$" * rng.choice([1, 4, 10, 30, 118])).hex()})
                    out.append({"idle": rng.choice([0, 0, 1, 3, 20, 300])})
                    prev = prev if (prev and rng.random() < 0.15) else sentence(rng)
                    out.append({"txt": prev.hex(), "track": 1})
                return out
            return rtty_plan(rng, items, nseg=rng.choice([1, 1, 2]))[0]

        def items(rng, a):
            out, prev = [], None
            for _ in range(rng.randrange(2, 6)):
                if rng.random() < 0.3:
                    out += junk_items(rng)
                prev = prev if (prev and rng.random() < 0.2) else payload(rng)
                it = {"p": prev.hex()}
                if rng.random() < 0.3:
                    it["flips"] = flips_in_budget(rng, prev, rng.random() < 0.3)
                elif rng.random() < 0.15:
                    it["flips"] = flips_over_budget(rng, prev)
                out.append(it)
                if rng.random() < 0.5:
                    out.append({"raw": "24" * rng.choice([1, 4, 16, 40])})
                    out.append(retrain(rng))
                elif rng.random() < 0.5:
                    out.append(retrain(rng, rng.choice([1, 5, 20, 61])))
            return out
        plan, a = four_fsk_plan(rng, items, nseg=rng.choice([1, 1, 2]))
        plan["ops"] = in_order_feed(rng)
        return plan

    def judge(self, plan, log, facts):
        d, v = self.crash(plan, log)
        v = stopped(v)
        if v:
            return v
        s = plan["stations"][0]
        if not ran_to_end(plan, d, 0):
            return []
        v = []
        sent, pos, at = [], [], []
        for a, it, m0, m1, seg in S.blocks_marks(plan):
            if m1 >= len(d["marks"]):
                raise HarnessError("marks missing")
            if "p" in it:
                b = bytes.fromhex(it["p"])
                must = S.frame_good(it) and not coincidence(it)
                if not R.crc_kind(b) or len(b) not in LEGAL:
                    continue
                sent.append((it["p"].lower(), must))
            else:
                t = bytes.fromhex(it["txt"]).lstrip(b"$").rstrip(b"\r\n")
                if not R.rtty_ok(t):
                    continue
                sent.append((t.hex(), bool(it["trained"])))
            pos.append(d["marks"][m1])
            at.append((seg, d["marks"][m0]))
        # untracked junk sentences may verify by construction only if they were sentences: treat any text sent as 'may'
        known = {k for k, _ in sent}
        got, odd = [], 0
        blk = 50 * plan["airs"][0]["fs"] / s["rs"]
        for p in d["pkts"].get(0, []):
            if p["crc"] != 1:
                continue
            k = p["text"].lower() if s["mode"] == 0 else norm_rtty(p["text"]).hex()
            if k not in known:
                # a checksum-valid packet by coincidence in junk: p < 1e-2 per run; more than two are not coincidence
                if verify_reported(s["mode"], p, True) is None and not near_sent(k, known):
                    odd += 1
                    if odd <= 2:
                        facts["coincidences"] = facts.get("coincidences", 0) + 1
                        continue
                v.append(("invented", "delivered %s, which was never sent" % k[:120]))
                continue
            got.append(k)
            if not any(kk == k and p["pos"] >= e - blk for (kk, _), e in zip(sent, pos)):
                v.append(("early", "delivered before it was transmitted: %s" % k[:80]))
        facts["reach_must_deliver"] = sum(1 for _, m in sent if m)
        facts["nontrivial"] = int(facts["reach_must_deliver"] >= 2)
        why = order_match(sent, got)
        if why and s["mode"] == 0:
            why = order_match([(k, must and not S.hidden_tone(self.bin, plan["airs"][0], s, sg, m, e)) for (k, must), (sg, m), e in zip(sent, at, pos)], got)
        if why:
            v.append(("order", why))
        return v


def near_sent(k, known):
    b = bytes.fromhex(k)
    for o in known:
        c = bytes.fromhex(o)
        if len(b) >= 8 and (c.startswith(b[:len(b) - 6]) or c.endswith(b[6:]) or b[2:-6] in c):
            return True
    return False


# ---------------------------------------------------------------------------------------------- M05
def wild_air(rng, m):
    if rng.random() < 0.6:
        a = pick_air(rng, m, CFG4 if m == 4 else CFG2, 0.35)
    else:
        fs = rng.choice([8000, 8000, 9600, 16000, 48000, 24000, 12000])
        divs = [r for r in range(50, 2401, 25) if fs % r == 0 and fs // r >= 8]
        rs = rng.choice(divs)
        ps = [p for p in range(4, 41) if (fs // rs) % p == 0] or [fs // rs]
        a = {"fs": fs, "rs": rs, "P": rng.choice(ps), "quad": int(rng.random() < 0.35), "lim": None, "mask": rng.random() < 0.5,
             "sp": max(rs, min(int(rng.choice([1, 1, 1.5, 2, 3]) * rs), int((fs / 2 - 2 * rs) / 3)))}
        a["f1"] = rng.uniform(1.6 * rs, max(1.7 * rs, fs / 2 - 1.5 * rs - 3 * a["sp"]))
        if rng.random() < 0.3:
            lo = rng.choice([0, rng.uniform(0, fs / 3)])
            a["lim"] = [lo, rng.uniform(lo + 5, fs / 2)]
    return a


def wild_seg(rng, a):
    rs, fs = a["rs"], a["fs"]
    n = max(1, int(rng.choice([1, 2, 13, fs / rs * 3, fs / rs * 50, fs / rs * 50 * rng.uniform(1, 8)])))
    sd = rng.getrandbits(31)
    k = rng.randrange(12)
    amp = rng.choice([1, 30, 1000, 32767, 60000])
    f = lambda: rng.uniform(-fs / 2 if a["quad"] else 0, fs / 2)
    x = ["noise %d %g %d" % (n, amp, sd), "zero %d" % n, "tone %d %g %g" % (n, f(), amp), "sweep %d %g %g %g" % (n, f(), f(), amp),
         "pcm %d %g %d" % (n, amp, sd), "pm %d %d" % (n, sd), "impulse %d %d %g" % (n, rng.randrange(1, 999), amp), "dc %d %g" % (n, rng.choice([-1, 1]) * amp),
         "square %d %d %g" % (n, rng.randrange(1, 300), amp), "drop %d" % n, "dup %d" % n,
         "raw " + "".join(rng.choice(["0080", "ff7f", "0000", "0100", "ffff", "%04x" % rng.getrandbits(16)]) for _ in range(rng.randrange(1, 400)))][k]
    return {"t": "x", "s": x}


class M05(MCheck):
    id = "M05"
    flavour = "asan"
    quick_runs = 1500
    thorough_runs = 40000
    rule = "seeded hostile streams over wide configurations under AddressSanitizer/UBSan, exact-size buffers with canaries, status and statistics reads and verbose switching between blocks, then a clean packet; non-trivial = at least 3 blocks demodulated"
    assumptions = MCheck.assumptions + ["supported configuration = the demodulator's documented preconditions (Fs multiple of Rs, Rs*P divides Fs, P >= 4, one frequency bin inside the limits)"]

    def gen(self, rng, tier, i):
        rtty = rng.random() < 0.5
        m = 2 if rtty else 4
        tame = i % 3 != 0
        a = wild_air(rng, m)
        if tame:
            a = rtty_air(rng) if rtty else pick_air(rng, 4, CFG4, 0.3)
        mode = rng.choice([89, 90, 91]) if rtty else 0
        if tame and rtty:
            mode = a["mode"]
        a["mode"] = mode
        if rtty:
            a["data"], a["stop"] = R.RTTY[mode]
        amp = rng.choice([1000, 5000, 15000, 28000])
        segs = []
        for _ in range(rng.randrange(1, 6)):
            if rng.random() < 0.5:
                segs.append(wild_seg(rng, a))
                continue
            ppm = rng.choice([0, 0, 900, -900, 20000, -20000])
            if rtty:
                its = [{"txt": bytes(rng.choice(PRINT) for _ in range(30)).hex()}]
                for _ in range(rng.randrange(1, 4)):
                    r = rng.random()
                    if r < 0.4:
                        its.append({"txt": rtty_near(rng).hex()})
                    elif r < 0.6:
                        its.append({"txt": sentence(rng).hex()})
                    elif r < 0.8:
                        its.append({"txt": (b"$" * rng.choice([2, 3, 9, 60, 118, 130]) + bytes(rng.choice(PRINT) for _ in range(rng.choice([0, 1, 100, 104, 105, 106, 110, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121]))) + b"*").hex()
                                    + bytes(rng.choice(PRINT) for _ in range(rng.randrange(0, 6))).hex()})
                    else:
                        its.append(rtty_junk(rng))
                sg = rtty_seg(rng, a, amp, its)
            else:
                its = [junk_item(rng) if rng.random() < 0.6 else near_miss(rng) for _ in range(rng.randrange(1, 5))]
                sg = {"t": "burst", "rs": a["rs"], "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": rng.random(), "pre": rng.randrange(0, 300), "rot": rng.randrange(8), "post": rng.randrange(0, 70), "items": its}
            if ppm:
                sg["ppm"] = ppm
            segs.append(sg)
        if tame:
            segs.append(guard(a, 400))
            segs.append({"t": "x", "s": "noise %d %g %d" % (int(500 * a["fs"] / a["rs"]), amp / 30, rng.getrandbits(31))})
            if rtty:
                segs.append(rtty_seg(rng, a, amp, [{"txt": bytes(rng.choice(PRINT) for _ in range(60)).hex(), "idle_": 1}, {"txt": sentence(rng).hex(), "track": 1}, {"idle": 5}]))
            else:
                segs.append({"t": "burst", "rs": a["rs"], "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3), "pre": 400, "rot": 4, "post": 70, "items": [{"p": payload(rng).hex()}]})
            segs.append(guard(a))
        air = {"fs": a["fs"], "quad": a["quad"], "segs": segs}
        if rng.random() < 0.3:
            air["awgn"] = [amp / rng.choice([20, 60]) if tame else rng.choice([1, 100, 20000]), rng.getrandbits(31)]
        if tame:
            tail(air, a["rs"], 34 if rtty else 10)
        st = {"air": 0, "mode": mode, "rs": a["rs"], "sp": a["sp"] if a["mask"] else -1, "P": a["P"], "lim": a["lim"]}
        ops = [["open", 0]]
        if rng.random() < 0.2:
            ops += [["stats", 0], ["xstats", 0]]
        for _ in range(rng.randrange(0, 12)):
            ops.append(["feed", 0, rng.choice([1, 1, 2, 5, 20])])
            r = rng.random()
            ops.append(["poke", 0] if r < 0.6 else ["verbose", 0, rng.choice([0, 1])] if r < 0.75 else ["stats", 0])
        ops += [["verbose", 0, 0], ["feedall", 0], ["poke", 0], ["close", 0]]
        if rng.random() < 0.3:
            ops += [["rewind", 0], ["open", 0], ["feed", 0, 3], ["close", 0]]
        return {"airs": [air], "stations": [st], "ops": ops, "tame": int(tame)}

    def execute(self, plan):
        log, facts = MCheck.execute(self, plan)
        facts["nontrivial"] = int(facts.get("blocks", 0) >= 3)
        return log, facts

    def judge(self, plan, log, facts):
        d, v = self.crash(plan, log)
        if v or not plan.get("tame"):
            return v
        if not ran_to_end(plan, d, 0):
            return v
        # recovery: the clean packet in the last burst is delivered
        last = [s for s in plan["airs"][0]["segs"] if "items" in s]
        bm = S.blocks_marks(plan)
        if not last or not bm:
            return v
        a, it, m0, m1, seg = bm[-1]
        segs = plan["airs"][0]["segs"]
        if seg is not last[-1] or len(segs) < 4 or segs[-2] is not seg or not segs[-3]["s"].startswith("noise") or not (it.get("track") or it.get("trained") == 2 and seg.get("pre", 0) >= 400):
            return v
        if not segs[-4]["s"].startswith("zero"):
            return v
        pk = d["pkts"].get(0, [])
        facts["reach_recovery"] = 1
        if "p" in it:
            ok = any(p["crc"] == 1 and p["text"].lower() == it["p"].lower() for p in pk) or coincidence(it) or S.hidden_tone(self.bin, plan["airs"][0], plan["stations"][0], seg, d["marks"][m0], d["marks"][m1])
        else:
            w = bytes.fromhex(it["txt"]).lstrip(b"$").rstrip(b"\r\n")
            ok = not it["trained"] or not R.rtty_ok(w) or any(p["crc"] == 1 and norm_rtty(p["text"]) == w for p in pk)
        if not ok:
            v.append(("no-recovery", "clean packet sent after the hostile stream was not delivered"))
        return v


# ---------------------------------------------------------------------------------------------- M06
def sub_plan(plan, i, fill):
    """station i alone on its stream, each session fed with the same number of blocks"""
    p = {"airs": plan["airs"], "stations": plan["stations"], "ops": [], "fill": fill}
    for op in plan["ops"]:
        if len(op) > 1 and op[1] == i and op[0] in ("open", "close", "feed", "feedall", "rewind"):
            p["ops"].append(op)
    return p


STFIELDS = re.compile(r"^(pkt|left|snr|xst|open|end|BADNIN|OVERRUN|UNTERMINATED) (\d+) ")


def sibling(rng, s, airs):
    """change exactly one parameter of a receiver's configuration"""
    air = airs[s["air"]]
    ts = air["fs"] // s["rs"]
    how = rng.choice(["fs", "fs", "fs", "sp", "sp", "P", "lim"])
    if how == "fs" and air["fs"] <= 24000:      # the same transmission, sampled faster
        air = json.loads(json.dumps(air))
        q = s["rs"] * s["P"]
        air["fs"] += q * rng.randrange(1, max(2, air["fs"] // q + 1))
        s["air"] = len(airs)
        airs.append(air)
    elif how == "sp":
        s["sp"] = rng.choice([x for x in (-1, s["rs"], int(1.35 * s["rs"]), 2 * s["rs"], s["sp"] + 10) if x != s["sp"] and x * 3 < air["fs"] / 3])
    elif how == "P":
        s["P"] = rng.choice([p for p in (4, 5, 6, 8, 10, 12, 16) if ts % p == 0 and p != s["P"]] or [s["P"]])
    elif s["lim"]:
        s["lim"] = None
    else:
        s["lim"] = [air["fs"] / 16, air["fs"] / 2]


class M06(MCheck):
    id = "M06"
    quick_runs = 1400
    thorough_runs = 20000
    rule = "seeded interleavings of 2..4 receivers (block by block, with statistics reads, opens and closes between) against each receiver alone in its own process with other allocator contents; non-trivial = at least two receivers delivered packets"

    def gen(self, rng, tier, i):
        airs, sts = [], []
        for k in range(rng.choice([2, 2, 3, 4])):
            if k and rng.random() < 0.3:
                s = dict(rng.choice(sts))      # same stream, perhaps other configuration
                r = rng.random()
                if r < 0.3:
                    s["mode"] = rng.choice([89, 90, 91]) if s["mode"] else 0
                elif r < 0.8:
                    sibling(rng, s, airs)
                sts.append(s)
                continue
            if rng.random() < 0.5:
                def items(rng, a):
                    out = []
                    for _ in range(rng.randrange(1, 3)):
                        if rng.random() < 0.3:
                            out += junk_items(rng)
                        out += [{"p": payload(rng).hex()}, retrain(rng, 20)]
                    return out
                p, a = four_fsk_plan(rng, items, nseg=1)
            else:
                def items(rng, a):
                    out = [{"txt": bytes(rng.choice(PRINT) for _ in range(30)).hex()}]
                    for _ in range(rng.randrange(1, 3)):
                        if rng.random() < 0.3:
                            out.append(rtty_junk(rng))
                        out += [{"txt": sentence(rng).hex(), "track": 1}, {"idle": 10}]
                    return out
                p, a = rtty_plan(rng, items, nseg=1)
            s = p["stations"][0]
            s["air"] = len(airs)
            airs += p["airs"]
            sts.append(s)
        n = len(sts)
        ops = []
        opened = [False] * n
        for _ in range(rng.randrange(20, 90)):
            k = rng.randrange(n)
            if not opened[k]:
                ops.append(["open", k])
                opened[k] = True
                if rng.random() < 0.7:
                    ops.append(["xstats", k])
                continue
            r = rng.random()
            if r < 0.62:
                ops.append(["feed", k, rng.choice([1, 1, 1, 2, 3, 9])])
            elif r < 0.72:
                ops.append(["xstats", k])
            elif r < 0.78:
                ops.append(["stats", k])
            elif r < 0.92:
                ops.append(["poke", k])
            elif r < 0.95:
                ops.append(["verbose", k, rng.choice([0, 1])])
            elif r < 0.97:
                ops += [["close", k], ["open", k], ["rewind", k]]
        for k in rng.sample(range(n), n):
            if not opened[k]:
                ops.append(["open", k])
            ops += [["verbose", k, 0], ["feedall", k]]
            ops.append(["xstats", k])
            if rng.random() < 0.5:
                ops.append(["close", k])
        return {"airs": airs, "stations": sts, "ops": ops, "fill": rng.choice([0x11, 0xAA, 0x7E, 0xFE, 0]), "fill2": rng.choice([0x33, 0x80, 0xFF, 0x01])}

    def execute(self, plan):
        log, facts = MCheck.execute(self, plan)
        n = len(plan["stations"])
        out = [log]
        st = set()
        for i in range(n):
            sub = sub_plan(plan, i, plan["fill2"])
            # the same statistics reads at the same blocks so that they can be compared
            sub["ops"] = [op for op in plan["ops"] if len(op) > 1 and op[1] == i and op[0] in ("open", "close", "feed", "feedall", "rewind", "xstats", "stats")]
            l1, err, rc = S.run_msim(self.bin, sub)
            out.append("solo %d rc %s\n" % (i, rc) + "".join(l for l in l1.splitlines(True) if not l.startswith("mark")))
            bare = sub_plan(plan, i, plan["fill2"] ^ 0x55)
            l2, err, rc = S.run_msim(self.bin, bare)
            out.append("bare %d rc %s\n" % (i, rc) + "".join(l for l in l2.splitlines(True) if not l.startswith("mark")))
        if not re.search(r"^rc 0$", log, re.M):
            # does it end abnormally whatever fresh memory contains?
            l3, err, rc = S.run_msim(self.bin, dict(plan, fill=0))
            out.append("solo -1 rc %s\n" % rc)
        seq, last = 0, None
        for op in plan["ops"]:
            if op[0] == "feed" and op[1] != last:
                seq += 1
                last = op[1]
        facts["reach_switches"] = seq
        facts["fault_heap_fill"] = 2 * n
        facts["nontrivial"] = int(sum(1 for x in S.parse(log)["pkts"].values() if x) >= 2)
        return "".join(out), facts

    def judge(self, plan, log, facts):
        parts = re.split(r"^((?:solo|bare) \d+ rc .*\n)", log, flags=re.M)
        mixed = parts[0]
        v = []
        rcs = [h.split()[3] for h in parts[1::2]]
        if not re.search(r"^rc 0$", mixed, re.M):
            if "-1 rc 0\n" in log or all(r == "0" for r in rcs[:-1]):
                v.append(("abnormal-end", "the receivers together ended abnormally (%s); each alone: %s; with other allocator contents: %s" % (
                    re.search(r"^rc \S+", mixed, re.M).group(0), rcs[:-1], rcs[-1])))
            return v
        for h, body in zip(parts[1::2], parts[2::2]):
            kind, i, _, rc = h.split()
            i = int(i)
            if rc != "0":
                v.append(("abnormal-end", "station %d works among the others but ends abnormally alone with other allocator contents (%s)" % (i, rc)))
                continue
            keep = ("pkt", "left", "snr", "xst", "open", "end") if kind == "solo" else ("pkt", "left", "open", "end")

            def pick(t):
                return [l for l in t.splitlines() if STFIELDS.match(l) and int(l.split()[1]) == i and l.split()[0] in keep]
            A, B = pick(mixed), pick(body)
            facts["reach_compared_lines"] = facts.get("reach_compared_lines", 0) + len(A)
            if A != B:
                k = next((j for j in range(min(len(A), len(B))) if A[j] != B[j]), min(len(A), len(B)))
                v.append(("interference" if kind == "solo" else "reads-change-output", "station %d: with others: %s | alone: %s" % (i, A[k:k + 1], B[k:k + 1])))
        return v


# ---------------------------------------------------------------------------------------------- M12
class M12(MCheck):
    id = "M12"
    flavour = "mt"
    quick_runs = 1000
    thorough_runs = 8000
    rule = ("seeded thread schedules over 2..5 threads, switching between any two memory accesses of the library's code: receivers of any mode which open, "
            "receive, are asked and close, and encoders; each thread's report against the same thread run to completion on its own; non-trivial = at least two threads delivered, or one did while others came and went")
    stubs = MCheck.stubs + ["the threads (fibers) and the processor's scheduler (msim/fibers.h)"]
    state_measure = "distinct (kinds of the threads, scale of the time slices, number of switches by powers of two) tuples"
    assumptions = MCheck.assumptions + ["threads switch between memory accesses, sequentially consistent; the C library's own functions are not interrupted"]

    def gen(self, rng, tier, i):
        airs, sts, lists = [], [], []
        shape = rng.choice(["codec", "codec", "mixed", "mixed", "alike", "churn"])
        kind = rng.choice(["v1", "v2", "v3-32", "v3-48"])
        for k in range(0 if shape == "codec" else rng.choice([2, 3]) if shape == "alike" else rng.choice([2, 2, 3, 4])):
            if k and rng.random() < (0.8 if shape == "churn" else 0.35):       # the same stream, or nearly the same receiver
                s = dict(rng.choice(sts))
                if rng.random() < 0.4:
                    sibling(rng, s, airs)
                sts.append(s)
                continue
            if rng.random() < 0.6 or shape == "alike":
                def items(rng, a):
                    out = []
                    for _ in range(rng.randrange(1, 4 if shape == "alike" else 3)):
                        p = payload(rng, kind if shape == "alike" else None)
                        out += [{"p": p.hex(), "flips": flips_in_budget(rng, p, True) if rng.random() < 0.5 else []}, retrain(rng, 20)]
                    return out
                p, a = four_fsk_plan(rng, items, nseg=1)
            else:
                def items(rng, a):
                    out = [{"txt": bytes(rng.choice(PRINT) for _ in range(30)).hex()}]
                    for _ in range(rng.randrange(1, 3)):
                        out += [{"txt": sentence(rng).hex(), "track": 1}, {"idle": 10}]
                    return out
                p, a = rtty_plan(rng, items, nseg=1)
            s = p["stations"][0]
            s["air"] = len(airs)
            airs += p["airs"]
            sts.append(s)
        for k in range(len(sts)):
            ops = [["open", k]]
            for _ in range(rng.choice([0, 0, 2, 6])):
                ops.append(rng.choice([["feed", k, rng.choice([1, 2, 5])], ["xstats", k], ["poke", k], ["stats", k]]))
            if shape == "churn" and k:
                for _ in range(rng.randrange(3, 30)):
                    ops += [["close", k], ["open", k], ["feed", k, rng.choice([0, 0, 1, 2])]]
                ops += [["xstats", k], ["close", k]]
            else:
                if rng.random() < 0.3:
                    ops += [["close", k], ["open", k], ["rewind", k]]
                ops += [["feedall", k], ["xstats", k]]
                if rng.random() < 0.7:
                    ops.append(["close", k])
            lists.append(ops)
        for k in range(rng.choice([2, 3, 4]) if shape == "codec" else rng.choice([0, 0, 1, 2])):
            ops = [["l2init"]]
            for _ in range(rng.randrange(1, 30)):
                p = payload(rng) if rng.random() < 0.8 else bytes(rng.getrandbits(8) for _ in range(rng.randrange(1, 129)))
                fl = flips_in_budget(rng, p, True) if len(p) in LEGAL and rng.random() < 0.6 else []
                ops.append(["codec", len(sts) + k, rng.choice([0, 1]), p.hex(), ",".join(map(str, fl)) or "-"])
                if rng.random() < 0.05:
                    ops.append(["l2init"])
            lists.append(ops)
        # time slices of all scales; or few switches, and threads held at places in the code
        lo = rng.choice([1, 3, 30, 30, 300, 300, 3000, 3000])
        par = [rng.getrandbits(60), lo, lo * rng.choice([30, 300, 3000]), -1, 0, 5, 5]
        if rng.random() < 0.7:
            par[1:] = [1000, 10 ** rng.choice([4, 5, 6]), -1, rng.choice([-1, -1, 1]) * rng.choice([60, 300, 1000]), rng.choice([4, 5, 6, 7] if sts else [4, 5]), rng.choice([4, 5, 6, 7])]
        return {"airs": airs, "stations": sts, "ops": [], "lists": lists, "fill": rng.choice([0x11, 0xAA, 0xFE, 0]), "par": par}

    def execute(self, plan):
        par = dict(plan, ops=[["fib", k] + op for k, ops in enumerate(plan["lists"]) for op in ops] + [["par"] + plan["par"]])
        seq = dict(plan, ops=[op for ops in plan["lists"] for op in ops])
        log, facts = MCheck.execute(self, par)
        l1, err, rc = S.run_msim(self.bin, seq)
        log += "alone rc %s\n" % rc + "".join(l for l in l1.splitlines(True) if not l.startswith("mark"))
        d = S.parse(log.split("alone rc")[0])
        m = re.search(r"^par switches (\d+) accesses (\d+) held (\d+)", log, re.M)
        sw, ac = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        facts["fault_thread_held"] = int(m.group(3)) if m else 0
        facts["fault_thread_switch"] = sw
        facts["reach_preemption_points"] = ac
        facts["nontrivial"] = int(sum(1 for x in d["pkts"].values() if x) >= 2 or (not plan["stations"] and sw > 1) or (sw > 10 and bool(d["pkts"])))
        facts["_states"] = {(tuple(sorted(str(s["mode"]) for s in plan["stations"])) + ("enc",) * (len(plan["lists"]) - len(plan["stations"])), plan["par"][1], plan["par"][4], sw.bit_length())}
        return log, facts

    def judge(self, plan, log, facts):
        mixed, alone = log.split("alone rc ")
        rc1 = alone.split("\n", 1)[0]
        if not re.search(r"^rc 0$", mixed, re.M):
            r = (re.search(r"^rc \S+.*", mixed, re.M | re.S) or [mixed[-200:]])[0][:300]
            return [("abnormal-end", "the threads together ended abnormally (%s), one after the other: rc %s" % (r, rc1))] if rc1 == "0" else []
        v = []
        for i in range(len(plan["lists"])):
            def pick(t):
                return [l for l in t.splitlines() if re.match(r"^[A-Za-z]+ %d " % i, l) and l.split()[0] not in ("mark", "par", "rc")]
            A, B = pick(mixed), pick(alone)
            facts["reach_compared_lines"] = facts.get("reach_compared_lines", 0) + len(A)
            if A != B:
                k = next((j for j in range(min(len(A), len(B))) if A[j] != B[j]), min(len(A), len(B)))
                v.append(("interference", "thread %d: among the others: %s | alone: %s" % (i, A[k:k + 1], B[k:k + 1])))
            for op in plan["lists"][i]:
                if op[0] == "codec" and len(op[3]) // 2 in LEGAL and "hex " + R.msb_bytes(R.encode(bytes.fromhex(op[3]))).hex() not in mixed:
                    v.append(("wrong-frame", "packet %s was not encoded as it should be" % op[3]))
                if op[0] == "codec" and len(op[3]) // 2 in LEGAL and op[2] and "dec %d hex %s\n" % (i, op[3]) not in mixed:
                    v.append(("wrong-frame", "packet %s did not come back from the decoder" % op[3]))
        return v

    def shrink(self, plan):
        for k in range(len(plan["lists"])):
            if plan["lists"][k]:
                yield dict(plan, lists=plan["lists"][:k] + [[]] + plan["lists"][k + 1:])
        last = plan["par"][3]
        if last < 0:
            for n in (10, 100, 1000, 10000, 100000, 1000000):
                yield dict(plan, par=plan["par"][:3] + [n] + plan["par"][4:])
        else:
            for n in (0, 1, 2, last // 10, last // 2, last * 3 // 4, last * 7 // 8, last * 15 // 16, last - 1):
                if 0 <= n < last:
                    yield dict(plan, par=plan["par"][:3] + [n] + plan["par"][4:])
        for k, ops in enumerate(plan["lists"]):
            for cand in list_shrinks(ops):
                yield dict(plan, lists=plan["lists"][:k] + [cand] + plan["lists"][k + 1:])
        for p in MCheck.shrink(self, plan):
            yield p


# ---------------------------------------------------------------------------------------------- M07
class M07(MCheck):
    id = "M07"
    quick_runs = 2000
    thorough_runs = 20000
    rule = "seeded open/feed/statistics/close schedules over several modes; heap in use before and after compared exactly (tcache off); non-trivial = at least three receivers were opened and closed"
    real = MCheck.real + ["glibc allocator accounting (mallinfo2)"]

    def gen(self, rng, tier, i):
        n = rng.randrange(1, 5)
        airs, sts = [], []
        for k in range(n):
            mode = rng.choice([0, 0, 89, 90, 91])
            if mode:
                a = rtty_air(rng)
                a["mode"] = mode
                a["data"], a["stop"] = R.RTTY[mode]
                seg = rtty_seg(rng, a, 5000, [{"txt": bytes(rng.choice(PRINT) for _ in range(30)).hex()}, {"txt": sentence(rng).hex()}, {"idle": 1500}])
            else:
                a = pick_air(rng, 4, CFG4)
                seg = {"t": "burst", "rs": a["rs"], "f1": a["f1"], "sp": a["sp"], "amp": 5000, "frac": 0, "pre": 260, "rot": 4, "post": 100, "items": [{"p": payload(rng).hex()}, retrain(rng)]}
            airs.append({"fs": a["fs"], "quad": a["quad"], "segs": [junk_seg(rng, a, 5000), seg, guard(a, 200)]})
            sts.append({"air": k, "mode": mode, "rs": a["rs"], "sp": a["sp"] if a["mask"] else -1, "P": a["P"], "lim": a["lim"]})

        def cycle():
            ops, opened = [], [0] * n
            for _ in range(rng.randrange(4, 40)):
                k = rng.randrange(n)
                if not opened[k]:
                    ops += [["open", k]]
                    opened[k] = 1
                else:
                    r = rng.random()
                    if r < 0.6:
                        ops.append(["feed", k, rng.choice([1, 3, 30])])
                    elif r < 0.8:
                        ops.append([rng.choice(["poke", "stats", "xstats"]), k])
                    elif r < 0.83:
                        ops += [["verbose", k, 1], ["feed", k, 2], ["verbose", k, 0]]
                    else:
                        ops += [["close", k], ["rewind", k]]
                        opened[k] = 0
            for k in range(n):
                if opened[k]:
                    ops += [["close", k], ["rewind", k]]
            return ops
        warm = []
        for k in range(n):
            warm += [["open", k], ["feed", k, 5], ["stats", k], ["xstats", k], ["poke", k], ["close", k], ["rewind", k]]
        ops = [["mmapoff"]] + warm + [["heap"]] + cycle() + [["heap"]] + cycle() + [["heap"]]
        return {"airs": airs, "stations": sts, "ops": ops}

    def execute(self, plan):
        log, err, rc = S.run_msim(self.bin, plan, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
        facts = {"nontrivial": 1}
        self.count(plan, facts)
        base = re.search(r"^heap (\d+)", log, re.M)
        base = int(base.group(1)) if base else 0
        log = re.sub(r"^heap (\d+)", lambda m: "heap %d" % (int(m.group(1)) - base), log, flags=re.M)
        log += "rc %s\n" % rc
        facts["reach_opens"] = sum(1 for l in log.splitlines() if l.startswith("open "))
        facts["packets_delivered"] = sum(1 for l in log.splitlines() if l.startswith("pkt "))
        facts["nontrivial"] = int(facts["reach_opens"] >= 3)
        facts["_states"] = {tuple((s["mode"], s["rs"], s["sp"] > 0) for s in plan["stations"])}
        return log, facts

    def judge(self, plan, log, facts):
        d = S.parse(log)
        if "\nrc 0\n" not in log:
            return [("abnormal-end", "opening, feeding and closing receivers did not complete: %s" % log.splitlines()[-1][:200])]
        v, last, opened = [], None, {}
        # only heap readings with nothing open count
        live = set()
        opens = 0
        for l in log.splitlines():
            w = l.split()
            if w[0] == "open":
                live.add(w[1])
                opens += 1
            elif w[0] == "close":
                live.discard(w[1])
            elif w[0] == "heap":
                if live:
                    last = None
                    continue
                # the first reading counts as baseline only after every station was opened, read and closed once
                x = int(w[1])
                if last is not None and warmed(plan) and x != last[0]:
                    v.append(("leak", "%d bytes more in use after %d receivers were opened and closed" % (x - last[0], opens - last[1])))
                last = (x, opens)
        return v


def warmed(plan):
    ops = [tuple(o) for o in plan["ops"]]
    k = ops.index(("heap",)) if ("heap",) in ops else 0
    pre = ops[:k]
    return ("mmapoff",) in pre and all(any(o[0] == w and o[1] == i for o in pre if len(o) > 1) for o2 in ops if len(o2) > 1 for i in [o2[1]] for w in ("open", "feed", "stats", "xstats", "poke", "close"))


# ---------------------------------------------------------------------------------------------- M08
class M08(MCheck):
    id = "M08"
    quick_runs = 5000
    thorough_runs = 40000
    rule = "seeded transmitters with clock error to 1000 ppm, any carrier, level, sub-sample start, carrier drift and steps and gaps between packets; non-trivial = at least one packet expected"

    def gen(self, rng, tier, i):
        rtty = rng.random() < 0.4
        a = rtty_air(rng) if rtty else pick_air(rng, 4, CFG4, 0.3, i % 60 == 7)
        segs = []
        n = 1 if rtty else 3
        if a["quad"] and a["lim"] and rng.random() < 0.3:       # at the very bottom of the spectrum
            a["f1"] = round(-a["fs"] / 2 + rng.uniform(0.45, 0.9) * a["rs"], 2)
            a["lim"] = [-a["fs"] / 2, min(a["fs"] / 2, a["f1"] + n * a["sp"] + rng.uniform(1.2, 3) * a["rs"])]
        top = a["fs"] / 2 - 1.5 * a["rs"] - n * a["sp"]
        amp = 0
        for _ in range(rng.randrange(1, 4)):
            old = amp
            amp = rng.choice([200, 205, 1000, 8000, 20000, 32000, 32767])
            if old and amp < old / 4:       # the estimators' memory of a much stronger signal has to fade
                segs.append(guard(a, 700))
            f1 = a["f1"]
            if segs and a["lim"] is None and rng.random() < 0.6:
                f1 = round(rng.uniform(1.6 * a["rs"], max(top, 1.61 * a["rs"])), 2)
            r = rng.random()
            if r < 0.5:
                segs.append({"t": "x", "s": "zero %d" % rng.randrange(1, int(300 * a["fs"] / a["rs"]))})
            elif r < 0.7:
                segs.append({"t": "x", "s": "noise %d %g %d" % (rng.randrange(1, int(300 * a["fs"] / a["rs"])), amp * rng.choice([0.01, 0.05]), rng.getrandbits(31))})
            ppm = rng.choice([0, 1000, -1000, 300, -300, rng.uniform(-1000, 1000), rng.uniform(-1000, 1000)])
            if rtty:
                its = [{"txt": bytes(rng.choice(PRINT) for _ in range(70)).hex()}]
                for _ in range(rng.choice([1, 1, 2])):
                    its += [{"idle": rng.choice([0, 5, 60])}, {"txt": sentence(rng).hex(), "track": 1}]
                its.append({"idle": 3})
                sg = rtty_seg(rng, a, amp, its)
                sg["f1"] = f1
            else:
                its = []
                for _ in range(rng.choice([1, 1, 2])):
                    its += [{"p": payload(rng).hex()}, retrain(rng, rng.choice([70, 140]))]
                sg = {"t": "burst", "rs": a["rs"], "f1": f1, "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3), "pre": PRESYM + 50 + rng.randrange(100),
                      "rot": rng.randrange(0 if a["sp"] >= 1.3 * a["rs"] else 4, 8), "post": 70, "items": its}
            sg["ppm"] = ppm
            if rng.random() < 0.3:
                sg["drift"] = round(rng.uniform(-1, 1) * a["rs"] * a["rs"] / 8000, 4)      # at most rs/8 per 1000 symbols
            segs.append(sg)
            if rtty:
                segs.append(guard(a))
            if rng.random() < 0.3:
                segs.append({"t": "x", "s": "drop %d" % rng.randrange(1, int(a["fs"] / a["rs"]))} if rng.random() < 0.5 else {"t": "x", "s": "dup %d" % rng.randrange(1, int(3 * a["fs"] / a["rs"]))})
        segs.append(guard(a))
        air = {"fs": a["fs"], "quad": a["quad"], "segs": segs}
        tail(air, a["rs"], 34 if rtty else 10)
        st = {"air": 0, "mode": a.get("mode", 0), "rs": a["rs"], "sp": a["sp"] if a["mask"] else -1, "P": a["P"], "lim": a["lim"]}
        return {"airs": [air], "stations": [st], "ops": in_order_feed(rng)}

    def judge(self, plan, log, facts):
        d, v = self.crash(plan, log)
        v = stopped(v)
        if v or not ran_to_end(plan, d, 0):
            return v
        s = plan["stations"][0]
        pk = list(d["pkts"].get(0, []))
        n = 0
        for a, it, m0, m1, seg in S.blocks_marks(plan):
            if not it["trained"] or it.get("flips") or it.get("cut") is not None or it.get("slip"):
                continue
            if "p" in it:
                if it["trained"] != 2 or not R.crc_kind(bytes.fromhex(it["p"])) or coincidence(it) or seg.get("pre", 0) < PRESYM:
                    continue
                hit = [p for p in pk if p["crc"] == 1 and p["text"].lower() == it["p"].lower()]
            else:
                w = bytes.fromhex(it["txt"]).lstrip(b"$").rstrip(b"\r\n")
                if not R.rtty_ok(w):
                    continue
                hit = [p for p in pk if p["crc"] == 1 and norm_rtty(p["text"]) == w]
            n += 1
            if not hit and not ("p" in it and S.hidden_tone(self.bin, plan["airs"][0], s, seg, d["marks"][m0], d["marks"][m1])):
                v.append(("missed", "clean packet (clock %+g ppm, carrier %g Hz, amplitude %g, drift %g Hz/s) ending at sample %d was not decoded" % (seg.get("ppm", 0), seg["f1"], seg["amp"], seg.get("drift", 0), d["marks"][m1])))
        facts["reach_clean_packets"] = n
        facts["nontrivial"] = int(n > 0)
        return v


# ---------------------------------------------------------------------------------------------- M11
def mark(n):
    return {"t": "x", "s": "mark %s" % n}


class M11(MCheck):
    id = "M11"
    quick_runs = 5000
    thorough_runs = 40000
    rule = "seeded signal histories (silence, noise, interference, bursts with clock error and level changes), statistics read before the first and after every few blocks; non-trivial = statistics read during a settled clean signal"

    def gen(self, rng, tier, i):
        rtty = rng.random() < 0.4
        a = rtty_air(rng) if rtty else pick_air(rng, 4, CFG4, 0.3)
        amp = rng.choice([500, 3000, 12000, 30000])
        segs, known = [], []
        if a["lim"] and rng.random() < 0.7:
            # a steady carrier outside the search limits
            lo, hi = a["lim"]
            bot = -a["fs"] / 2 if a["quad"] else 0
            spots = [f for f in (lo - 8 * a["rs"], lo - 20 * a["rs"], hi + 8 * a["rs"], hi + 20 * a["rs"]) if bot + 2 * a["rs"] < f < a["fs"] / 2 - 2 * a["rs"]]
            if spots:
                amp = min(amp, 15000)
                segs.append({"t": "x", "s": "intf %g %g" % (rng.choice(spots), amp * rng.choice([0.5, 1]))})
        for _ in range(rng.randrange(0, 3)):
            segs.append(junk_seg(rng, a, amp))
        if rng.random() < 0.3:
            segs.append({"t": "x", "s": "pm %d %d" % (rng.randrange(1, 9000), rng.getrandbits(31))})
        segs += [mark("n0"), {"t": "x", "s": "noise %d %g %d" % (int(800 * a["fs"] / a["rs"]), amp / 3, rng.getrandbits(31))}, mark("n1")]
        ppm = rng.choice([0, 1000, -1000, 400, -400, 320, -320, round(rng.uniform(-1000, 1000))])
        if rtty:
            its = [{"txt": bytes(rng.choice(PRINT) for _ in range(1900 // (a["data"] + a["stop"] + 1))).hex()}]
            sg = rtty_seg(rng, a, amp, its)
        else:
            sg = {"t": "burst", "rs": a["rs"], "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3), "pre": 0, "rot": 0, "post": 0, "items": [retrain(rng, 700), {"raw": R_hex(payload(rng))}, retrain(rng, 700)]}
        sg["ppm"] = ppm
        segs += [guard(a, 100), mark("s0"), sg, mark("s1"), guard(a)]
        if rng.random() < 0.4:
            segs.append(junk_seg(rng, a, amp))
        air = {"fs": a["fs"], "quad": a["quad"], "segs": segs}
        st = {"air": 0, "mode": a.get("mode", 0), "rs": a["rs"], "sp": a["sp"] if a["mask"] else -1, "P": a["P"], "lim": a["lim"]}
        tail(air, a["rs"], 5)
        return {"airs": [air], "stations": [st], "ops": [["open", 0], ["stats", 0], ["feedstat", 0, rng.choice([1, 1, 2, 3])], ["stats", 0]], "fill": rng.choice([0, 0, 0x11, 0x80, 0xAA])}

    def shrink(self, plan):
        return iter(())

    def judge(self, plan, log, facts):
        d, v = self.crash(plan, log)
        v = stopped(v)
        if v:
            return v
        air, s = plan["airs"][0], plan["stations"][0]
        fs, rs = air["fs"], s["rs"]
        seg = [x for x in air["segs"] if "items" in x][0]
        n0, n1, s0, s1 = d["marks"]
        ndft = 2 ** math.ceil(math.log2(fs / (0.1 * rs)))
        m = 2 if s["mode"] else 4
        true = [seg["f1"] + k * seg["sp"] for k in range(m)]
        blk = 50 * fs / rs
        # data modulation biases the spectral peaks unless the tones are whole multiples (2 or more) of the symbol rate apart
        tol = (0.1 if seg["sp"] % rs == 0 and seg["sp"] >= 2 * rs else 0.5) * rs + fs / ndft + 1.5
        noise_snr, clean_snr, ppms = [], [], []
        snr0 = 10 * math.log10(rs * math.log2(m) / 3000)      # nothing received, referred to 3 kHz
        for l in d["stats"].get(0, []):
            w = l.split()
            if w[0] == "snr":
                if w[3] == "0" and not (abs(float(w[9])) < 0.01 or abs(float(w[9]) - snr0) < 0.01):
                    v.append(("not-zero-initially", l))
                if not math.isfinite(float(w[9])) or w[7] != "0":
                    v.append(("not-finite", l))
                continue
            k = dict(zip(w[2:], w[3:]))
            pos, b = int(k["pos"]), int(k["blk"])
            f = [float(x) for x in w[w.index("f") + 1:]]
            vals = [float(k[x]) for x in ("snr", "ppm", "foff", "timing")] + f
            facts["reach_stats_reads"] = facts.get("reach_stats_reads", 0) + 1
            if not all(math.isfinite(x) for x in vals) or k["eyebad"] != "0":
                v.append(("not-finite", l))
                continue
            if b == 0 and (not (abs(float(k["snr"])) < 0.01 or abs(float(k["snr"]) - snr0) < 0.01) or any(float(k[x]) for x in ("ppm", "foff", "timing", "nr", "nc", "eyemax")) or any(f)):
                v.append(("not-zero-initially", l))
            if n0 + 4 * blk < pos < n1:
                noise_snr.append(float(k["snr"]))
            if s0 + 8 * blk < pos < s1 - 1:
                facts["reach_settled"] = facts.get("reach_settled", 0) + 1
                clean_snr.append(float(k["snr"]))
                if pos > s0 + 20 * blk:
                    ppms.append(float(k["ppm"]))
                if any(abs(x - t) > tol for x, t in zip(f, true)):
                    v.append(("tone-estimate", "true tones %s (tolerance %.1f Hz): %s" % (true, tol, l)))
                if any(x >= y for x, y in zip(f, f[1:])):
                    v.append(("tone-order", l))
                lo, hi = s["lim"] or (0, fs)
                if not (lo - tol <= f[0] and f[-1] <= hi + tol):
                    v.append(("tone-limits", l))
        facts["nontrivial"] = int(bool(clean_snr))
        if noise_snr and clean_snr:
            facts["reach_snr_compared"] = 1
            if max(noise_snr) >= min(clean_snr):
                v.append(("snr", "SNR on noise up to %.1f dB, on the clean signal down to %.1f dB" % (max(noise_snr), min(clean_snr))))
        if ppms and abs(seg["ppm"]) > 300 and not air.get("awgn"):
            facts["reach_clock_sign"] = 1
            if any((x > 0) != (ppms[-1] > 0) for x in ppms[-3:]) or (ppms[-1] > 0) != (seg["ppm"] > 0):
                v.append(("clock-sign", "transmitter clock %+g ppm, reported %s" % (seg["ppm"], ppms[-3:])))
        return v


def R_hex(p):
    return R.msb_bytes(R.encode(p)).hex()
