"""Plans for msim: the semantic form (dict), its text rendering, log parsing and generic generators."""
import hashlib, os, re, subprocess
import build, driver
import horusref as R

HEX = "0123456789abcdef"


def syms4(bits):
    if len(bits) & 1:
        bits = bits + [0]
    return "".join(HEX[bits[i] * 2 + bits[i + 1]] for i in range(0, len(bits), 2))


def syms2(bits):
    return "".join("1" if b else "0" for b in bits)


PRE = "0123" * 400


_rr = __import__("random").Random(7)
TRAIN = "".join("".join(_rr.sample("0123", 4)) for _ in range(400))    # every tone in every four symbols, aperiodic


def preamble(n, rot=0):
    """rot < 4: the transmitters' own 0x1b preamble; otherwise an aperiodic training sequence"""
    return PRE[rot:rot + n] if rot < 4 else TRAIN[rot:rot + n]


def item_bits(it):
    if "bits" in it:
        return [int(c) for c in it["bits"]]
    if "air" in it:                         # as the project's own encoder sends it
        b = [int(c) for c in it["air"]]
    elif "raw" in it:                       # raw bytes, MSB first
        b = R.msb_bits(bytes.fromhex(it["raw"]))
    else:
        b = list(R.encode(bytes.fromhex(it["p"])))
    for f in it.get("flips", ()):
        if f < len(b):
            b[f] ^= 1
    if it.get("cut") is not None:
        b = b[:it["cut"]]
    return b


def frame_good(it, budget=3):
    """within the correction budget, complete and unslipped"""
    if not it.get("trained", 2):
        return False
    if it.get("trained") == 1:
        budget = min(budget, 1)
    if "p" not in it or it.get("cut") is not None or it.get("slip"):
        return False
    p = bytes.fromhex(it["p"])
    if not R.crc_kind(p):
        return False
    fl = set(it.get("flips", ()))
    if not fl:
        return True
    if len([f for f in fl if f < 16]) > (1 if budget == 3 else 0):
        return False
    pos = R.air_positions(R.tx_bytes(len(p)))
    inv = {a: i for i, a in enumerate(pos)}
    pl = {inv[f] for f in fl if f in inv}
    return all(len(pl.intersection(d)) + len(pl.intersection(q)) <= budget for d, q in R.codewords(len(p)))


def seg_symbols(seg):
    """symbol string of a burst and, for each tracked item, the index of its first symbol and whether a slip lies before it"""
    s = preamble(seg.get("pre", 0), seg.get("rot", 0))
    starts, slip = [], -10 ** 9
    for it in seg["items"]:
        x = syms4(item_bits(it))
        if it.get("slip"):
            slip = len(s) + it["slip"][0]
        if "p" in it:
            starts.append((it, len(s), slip))
        s += x
    return s, starts


def _mixed(w):
    return all(all(w[j:j + 40].count(c) >= 3 for c in "0123") for j in range(0, max(1, len(w) - 39), 10))


def trained(seg, need=140, after=60):
    """for each frame of a burst: 0 = its bits need not reach the receiver (it follows, or is followed in the same
    demodulation block by, signal that misleads the tone/timing estimators); 1 = the last symbols may be lost to the end of the
    transmission (budget for injected errors: one per code word); 2 = every bit reaches the receiver"""
    s, starts = seg_symbols(seg)
    s += preamble(seg.get("post", 0), 5)
    out = []
    for k, (it, st, slip) in enumerate(starts):
        w = s[max(0, st - need):st]
        ok = len(w) >= need and st - slip >= need and _mixed(w)
        en = st + len(syms4(item_bits(it)))
        w = s[en:en + after]
        if not ok:
            out.append(0)
        elif len(w) == after and _mixed(w):
            out.append(2)
        elif len(w) < 4:
            out.append(1)
        else:
            out.append(0)
    return out


def item_rtty(seg, it):
    if "idle" in it:
        return ("1" if it.get("v", 1) else "0") * it["idle"]
    if "bits" in it:
        return it["bits"]
    b = R.rtty_bits(bytes.fromhex(it["txt"]), seg["data"], it.get("stop", seg["stop"]))
    for f in it.get("flips", ()):
        if f < len(b):
            b[f] ^= 1
    return syms2(b)


MAXIDLE = 400


def trained_rtty(seg, need=200):
    """for each tracked sentence: preceded by at most MAXIDLE equal bits and before those by `need` bits using both tones"""
    s, out = "", []
    for it in seg["items"]:
        if it.get("track"):
            k = len(s)
            while k > 0 and s[k - 1] == s[-1] and len(s) - k <= MAXIDLE:
                k -= 1
            w = s[max(0, k - need):k]
            out.append(len(s) - k <= MAXIDLE and len(w) == need and all(3 <= w[j:j + 40].count("1") <= 37 for j in range(0, need - 39, 10)))
        s += item_rtty(seg, it)
    return out


def render_seg(seg, quad):
    t = seg["t"]
    if t == "x":
        return ["seg " + seg["s"]]
    if t == "burst":
        s = preamble(seg.get("pre", 0), seg.get("rot", 0))
        for it in seg["items"]:
            x = syms4(item_bits(it))
            if it.get("slip"):
                k, n = it["slip"]
                x = x[:k] + ("D%d;" % n if n > 0 else "R%d;" % -n) + x[k:]
            s += ("M" + x + "M") if "p" in it else x
        s += preamble(seg.get("post", 0), 5)
        return ["seg fsk %g %g %g %g %g %g %g %s" % (seg["rs"], seg["f1"], seg["sp"], seg["amp"], seg.get("ppm", 0), seg.get("frac", 0), seg.get("drift", 0), s)]
    if t == "rtty":
        s = ""
        for it in seg["items"]:
            x = item_rtty(seg, it)
            s += "M" + x + "M" if it.get("track") else x
        return ["seg fsk %g %g %g %g %g %g %g %s" % (seg["rs"], seg["f1"], seg["sp"], seg["amp"], seg.get("ppm", 0), seg.get("frac", 0), seg.get("drift", 0), s)]
    raise ValueError(t)


def tail_blocks(air):
    return air.get("tail", 8)


def render(plan):
    L = []
    if "fill" in plan:
        L.append("fill %d" % plan["fill"])
    for i, a in enumerate(plan["airs"]):
        L.append("air %d %d %d" % (i, a["fs"], a["quad"]))
        if a.get("awgn"):
            L.append("seg awgn %g %d" % tuple(a["awgn"]))
        for s in a["segs"]:
            L += render_seg(s, a["quad"])
        if a.get("tailn"):
            L.append("seg zero %d" % a["tailn"])
    for i, s in enumerate(plan["stations"]):
        lim = " %g %g" % tuple(s["lim"]) if s.get("lim") else ""
        L.append("station %d %d %d %d %d %d%s" % (i, s["air"], s["mode"], s["rs"], s["sp"], s["P"], lim))
    for op in plan["ops"]:
        L.append(" ".join(str(x) for x in op))
    return "\n".join(L) + "\n"


def parse(log):
    """-> dict(marks={air: [pos..]}, pkts={st: [dict]}, ...)"""
    marks, pkts, left, bad, sts, heap, opens, ends = [], {}, {}, [], {}, [], {}, {}
    for l in log.splitlines():
        w = l.split(" ")
        if w[0] == "mark":
            marks.append(int(w[1]))
        elif w[0] in ("pkt", "left"):
            d = dict(zip(w[2::2], w[3::2]))
            (pkts if w[0] == "pkt" else left).setdefault(int(w[1]), []).append(
                {"blk": int(d["blk"]), "pos": int(d["pos"]), "crc": int(d["crc"]), "ver": int(d.get("ver", 0)), "text": d.get("text", "")})
        elif w[0] in ("BADNIN", "OVERRUN", "UNTERMINATED"):
            bad.append(l)
        elif w[0] == "xst" or w[0] == "snr":
            sts.setdefault(int(w[1]), []).append(l)
        elif w[0] == "heap":
            heap.append(int(w[1]))
        elif w[0] == "open":
            opens[int(w[1])] = (int(w[3]), int(w[5]))
        elif w[0] == "end":
            ends[int(w[1])] = (int(w[3]), int(w[5]), int(w[7]))
    return {"marks": marks, "pkts": pkts, "left": left, "bad": bad, "stats": sts, "heap": heap, "opens": opens, "ends": ends, "done": log.rstrip().endswith("done")}


def untext(t):
    out = bytearray()
    i = 0
    while i < len(t):
        if t[i] == "\\":
            out.append(int(t[i + 2:i + 4], 16))
            i += 4
        else:
            out.append(ord(t[i]))
            i += 1
    return bytes(out)


def run_msim(binary, plan, timeout=240, env=None):
    text = render(plan)
    e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0", "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=0", "PATH": os.environ.get("PATH", "")}
    if env:
        e.update(env)
    try:
        p = subprocess.run([binary], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return "TIMEOUT\n", "", None
    return p.stdout.decode("latin-1"), p.stderr.decode("latin-1"), p.returncode


def hidden_tone(binary, air, st, seg, s0, s1):
    """a frame sent between samples s0 and s1 without a tone mask: some block's spectrum does not show its four tones (see stands_out
    in msim.c), so its bits need not have reached the receiver"""
    if st.get("mode") != 0 or st.get("sp", -1) > 0:
        return False
    lo, hi = st.get("lim") or (0, air["fs"] / 2)
    log, err, rc = run_msim(binary, {"airs": [air], "stations": [], "ops": [["est", 0, s0, s1, st["rs"], seg["f1"], seg["sp"], lo, hi]]})
    m = re.search(r"^est (\d)", log, re.M)
    if rc != 0 or not m:
        raise RuntimeError("msim: %s %s" % (rc, err[-300:]))
    return m.group(1) == "0"


def blocks_marks(plan):
    """serial numbers of the mark pairs for tracked items, in rendering order: list of (air, item, start_mark, end_mark, seg)"""
    out, k = [], 0
    for a, air in enumerate(plan["airs"]):
        for seg in air["segs"]:
            tr = trained(seg) if seg["t"] == "burst" else trained_rtty(seg) if seg["t"] == "rtty" else []
            j = 0
            for it in seg.get("items", ()):
                if ("p" in it) or it.get("track"):
                    it = dict(it, trained=tr[j])
                    j += 1
                    out.append((a, it, k, k + 1, seg))
                    k += 2
    return out
