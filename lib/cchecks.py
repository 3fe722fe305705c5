"""C01: payloads and relays that use the generated Horus Binary v3 C codec (horusbinaryv3/clib), the radio link, and the station's Python decoder."""
import json, math, os, random, re, struct, subprocess
import build
import horusref as R
import station as S
from driver import Check, REPO, VERIF, list_shrinks

CALL = "-/abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
NAME = "abcdefghijklmnopqrstuvwxyz0123456789-"
STR = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ +/=-."
SIZES = (32, 48, 64, 96, 128)
TOP = (("seq", "sequenceNumber", 0, 65535), ("tod", "timeOfDaySeconds", -1, 86400), ("lat", "latitude", -9000000, 9000000), ("lon", "longitude", -18000000, 18000000), ("alt", "altitudeMeters", -1000, 50000))
OPT = (("vh", "velocityHorizontalKilometersPerHour", 0, 512), ("sats", "gnssSatellitesVisible", 0, 31), ("asc", "ascentRateCentimetersPerSecond", -32767, 32767), ("pres", "pressurehPa-x10", 0, 12000),
       ("hum", "humidityPercentage", 0, 100))
TEMP = (("ti", "internal"), ("te", "external"), ("t1", "custom1"), ("t2", "custom2"))
MV = (("mb", "battery"), ("ms", "solar"), ("m1", "custom1"), ("m2", "custom2"))
PSM = ["psmNotActive", "enabled", "acquisition", "tracking", "optimised", "inactive"]


def num(rng, lo, hi):
    r = rng.random()
    return lo if r < 0.1 else hi if r < 0.2 else rng.choice([max(lo, min(hi, x)) for x in (0, 1, -1, 127, 128, 255, 256, 1023)]) if r < 0.35 else rng.randint(lo, hi)


def integer(rng):
    return rng.choice([0, 1, -1, 127, 128, -128, -129, 255, 32767, 32768, -32768, -32769, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 63 - 1, -2 ** 63, rng.randrange(-1000, 1000), rng.getrandbits(40), -rng.getrandbits(55)])


def real(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.1, 1.5, 1e300, -1e-300, 2.2250738585072014e-308, 5e-324, -2.2250738585072009e-308, math.ldexp(rng.getrandbits(52), -1074), 2.0 ** 52 + 1, math.pi, 101325.25, -273.15, float("inf"), float("-inf"), float("nan"), rng.uniform(-1000, 1000), struct.unpack("<f", struct.pack("<f", rng.uniform(-100, 100)))[0],
                       float(rng.randrange(-5000, 5000)), rng.gauss(0, 1) * 10.0 ** rng.randrange(-30, 30)])


def text(rng, alphabet, lo, hi):
    return "".join(rng.choice(alphabet) for _ in range(rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, min(hi, 8))])))


def record(rng, big=False):
    """a telemetry record in token form: what the payload's program fills its structures with"""
    p = 0.6 if big else rng.choice([0, 0.15, 0.4, 0.8])
    t = [["call", text(rng, CALL, 1, 15)]] + [[k, num(rng, lo, hi)] for k, _, lo, hi in TOP]
    if rng.random() < p:
        t.append(["ex", 1])
        for _ in range(rng.randrange(1, 5)):
            t.append(["s", 1])
            if rng.random() < 0.6:
                t.append(["sn", text(rng, NAME, 1, 20 if big else 8)])
            k = rng.randrange(5)
            if k == 0:
                t.append(["si", [integer(rng) for _ in range(rng.randrange(1, 5))]])
            elif k == 1:
                t.append(["sr", [struct.pack(">d", real(rng)).hex() for _ in range(rng.randrange(1, 5))]])
            elif k == 2:
                t.append(["ss", text(rng, STR, 0, 255 if big and rng.random() < 0.2 else 20)])
            elif k == 3:
                t.append(["sb", "".join(rng.choice("01") for _ in range(8))])
    for k, _, lo, hi in OPT[:4]:
        if rng.random() < p:
            t.append([k, num(rng, lo, hi)])
    if rng.random() < p:
        t.append(["temp", 1])
        t += [[k, num(rng, -1023, 1023)] for k, _ in TEMP if rng.random() < 0.6]
    if rng.random() < p:
        t.append(["hum", num(rng, 0, 100)])
    if rng.random() < p:
        t.append(["mv", 1])
        t += [[k, num(rng, 0, 16383)] for k, _ in MV if rng.random() < 0.6]
    if rng.random() < p:
        t.append(["cnt", [integer(rng) for _ in range(rng.randrange(1, 9))]])
    if rng.random() < p:
        t.append(["psm", rng.randrange(6)])
    if rng.random() < p:
        t.append(["cd", bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 16, 60, 127, 128, 255] if big else [0, 1, 5, 20]))).hex()])
    return t


def spoil(rng, t):
    """one value outside the documented ranges; '' for none"""
    t = json.loads(json.dumps(t))
    ks = [i for i, (k, v) in enumerate(t) if k in SPOIL]
    i = rng.choice(ks)
    t[i][1] = rng.choice(SPOIL[t[i][0]])
    return t


SPOIL = {k: [lo - 1, hi + 1, 2 ** 31, -2 ** 31, 2 ** 40] for k, _, lo, hi in TOP + OPT}
SPOIL.update({k: [-1024, 1024, 32767] for k, _ in TEMP})
SPOIL.update({k: [-1, 16384, 65536] for k, _ in MV})
SPOIL.update({"call": ["", "A" * 16, "VK5_X", "A B"], "sn": ["", "a" * 21, "ABC", "a_b"], "ss": ["a" * 256, "a,b", "\x01"], "si": [[], [1, 2, 3, 4, 5]], "cnt": [[], [1] * 9], "psm": [6, 7, 8, -1, 100]})


def tree(t):
    """token form -> the station's form of the same record"""
    m, s = {}, None
    names = {k: n for k, n, _, _ in TOP + OPT}
    for k, v in t:
        if k == "call":
            m["payloadCallsign"] = v
        elif k in names:
            m[names[k]] = v
        elif k == "ex":
            m["extraSensors"] = []
        elif k == "s":
            s = {}
            m["extraSensors"].append(s)
        elif k == "sn":
            s["name"] = v
        elif k == "si":
            s["values"] = ("horusInt", list(v))
        elif k == "sr":
            s["values"] = ("horusReal", [struct.unpack(">d", bytes.fromhex(x))[0] for x in v])
        elif k == "ss":
            s["values"] = ("horusStr", v)
        elif k == "sb":
            s["values"] = ("horusBool", {"b%d" % i: c == "1" for i, c in enumerate(v)})
        elif k == "temp":
            m["temperatureCelsius-x10"] = {}
        elif k in dict(TEMP):
            m["temperatureCelsius-x10"][dict(TEMP)[k]] = v
        elif k == "mv":
            m["milliVolts"] = {}
        elif k in dict(MV):
            m["milliVolts"][dict(MV)[k]] = v
        elif k == "cnt":
            m["counts"] = list(v)
        elif k == "psm":
            m["gnssPowerSaveState"] = PSM[v] if 0 <= v < 6 else v
        elif k == "cd":
            m["customData"] = bytes.fromhex(v)
    return m


def toks(t):
    """token form -> csim text"""
    o = []
    for k, v in t:
        if k in ("call", "sn", "ss"):
            v = v.encode("latin-1").hex() or "-"
        elif k == "cd":
            v = v or "-"
        elif isinstance(v, list):
            v = ",".join(str(x) for x in v)
        o.append("%s=%s" % (k, v))
    return " ".join(o)


def untok(line):
    """what csim shows of a decoded record -> the station's form"""
    t = []
    for w in line:
        k, v = w.split("=", 1)
        if k in ("call", "sn", "ss"):
            t.append([k, "" if v == "-" else bytes.fromhex(v).decode("latin-1")])
        elif k == "cd":
            t.append([k, "" if v == "-" else v])
        elif k in ("si", "cnt"):
            t.append([k, [int(x) for x in v.split(",")] if v else []])
        elif k == "sr":
            t.append([k, v.split(",") if v else []])
        elif k in ("sb", "sv"):
            t.append([k, v])
        else:
            t.append([k, int(v)])
    return t


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) == type(b) and a == b


ORDER = "".join(sorted(STR))


def retext(m, f):
    """the record with each text sensor's characters replaced"""
    m = dict(m)
    if "extraSensors" in m:
        m["extraSensors"] = [dict(s, values=("horusStr", "".join(f(c) for c in s["values"][1]))) if s.get("values", ("",))[0] == "horusStr" else s for s in m["extraSensors"]]
    return m


# known finding: the C codec sends a text character as its value, the station's codec as its place in the alphabet
def c_to_station(c):
    return ORDER[ord(c)] if ord(c) < len(ORDER) else None


def station_to_c(c):
    return chr(ORDER.index(c))


def texts(m):
    return "".join(s["values"][1] for s in m.get("extraSensors", []) if s.get("values", ("",))[0] == "horusStr")


class C01(Check):
    id = "C01"
    quick_runs, thorough_runs = 5000, 200000
    rule = "records made, sent, damaged and received by simulated nodes; non-trivial = at least one record crossed the link undamaged and at least one fault fired"
    real = ["horusbinaryv3/clib (every source the project builds), compiled with ASan and UBSan", "horusbinaryv3/HorusBinaryV3.asn1 and horusdemodlib.decoder with asn1tools", "horusdemodlib.checksums"]
    stubs = ["payload and relay programs (csim/csim.c)", "allocator (seeded failures, fill pattern, accounting)", "output consumer of the encoder", "radio link (bit errors, truncation, padding to packet size)"]
    assumptions = ["the node has 16 MB of memory", "the station's codec is asn1tools with the project's schema, as in horusdemodlib.decoder"]
    state_measure = "distinct event logs"

    def build(self):
        S.load()
        S.asn()
        self.bin = build.c_codec(os.path.join(VERIF, "csim", "csim.c"))

    # ------------------------------------------------------------------ generation
    def gen(self, rng, tier, i):
        recs = []
        for _ in range(rng.randrange(1, 6)):
            t = record(rng, rng.random() < 0.25)
            recs.append(spoil(rng, t) if rng.random() < 0.12 else t)
        steps = []
        # none, every allocation of the call in turn, one (or it and all later ones) at a given part of the call
        fault = lambda: 0 if rng.random() < 0.45 else "each" if rng.random() < 0.08 else [rng.random(), rng.choice([1, -1])]
        for _ in range(rng.randrange(4, 24)):
            k = rng.random()
            n = rng.randrange(len(recs))
            if k < 0.4:
                mode = rng.choice(["buf", "buf", "new", "cb"])
                steps.append({"op": "enc", "rec": n, "mode": mode, "size": rng.choice(["fit", "fit", "short", "far"]) if mode == "buf" else rng.choice([0, 0, 1, 2, 5]) if mode == "cb" else 0,
                              "cut": rng.random(), "fail": fault()})
            elif k < 0.85:
                st = {"op": "dec", "rec": n, "from": rng.choice(["c", "py"]), "pad": rng.choice([0, 1, 1]), "fail": fault(), "stack": rng.choice([0, 0, 0, 0, 100000, 2000]), "reuse": int(rng.random() < 0.4)}
                if st["from"] == "py" and rng.random() < 0.3:
                    st["via"] = rng.choice(["sondehub", "nohub"])
                r = rng.random()
                if r < 0.25:
                    st["flips"] = [rng.random() for _ in range(rng.choice([1, 1, 2, 5, 40]))]
                elif r < 0.4:
                    st["cut"] = rng.random()
                elif r < 0.45:
                    st["burst"] = [rng.random(), rng.getrandbits(64)]
                steps.append(st)
            else:
                steps.append({"op": "raw", "hex": bytes(rng.choice([rng.randrange(256), 0xff, 0, 0x80]) for _ in range(rng.choice([0, 1, 10, 30, 62, 126, 400]))).hex(), "fail": fault(), "stack": 0, "reuse": int(rng.random() < 0.4)})
        return {"fill": rng.choice([0, 0xa5, 0xff]), "recs": recs, "steps": steps}

    # ------------------------------------------------------------------ execution
    def csim(self, lines):
        p = subprocess.Popen([self.bin], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            o, e = p.communicate("\n".join(lines).encode() + b"\n", timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return "", "", "timeout"
        return o.decode("latin-1"), e.decode("latin-1"), p.returncode

    def execute(self, plan):
        import horusdemodlib.decoder as D
        facts = {"records": len(plan["recs"])}
        add = lambda k, n=1: facts.__setitem__(k, facts.get(k, 0) + n)
        out = []
        pre = ["fill %d" % plan["fill"]] + ["rec %d %s" % (i, toks(t)) for i, t in enumerate(plan["recs"])]
        # the payload's plain encodings, and the station side's
        o, e, rc = self.csim(pre + [x for i in range(len(plan["recs"])) for x in ("enc %d new 0 0" % i, "chk %d" % i)])
        out.append("plain rc %s %s" % (rc, canon(e)))
        for i, l in enumerate(l for l in o.splitlines() if l.startswith("chk ")):
            out.append("checked %d %s" % (i, l))
        chex = {}
        for i, l in enumerate(l for l in o.splitlines() if l.startswith("enc ")):
            out.append("plain %d %s" % (i, l))
            m = re.search(r" hex=([0-9a-f]+)$", l)
            if m:
                chex[i] = m.group(1)
        py = {}
        for i, t in enumerate(plan["recs"]):
            try:
                py[i] = bytes(D.HORUS_ASN.encode("Telemetry", tree(t), check_constraints=True)).hex()
            except Exception as x:
                out.append("py %d refuses: %s" % (i, type(x).__name__))
                continue
            out.append("py %d %s" % (i, py[i]))
        # what the station makes of the payload's packets
        for i in range(len(plan["recs"])):
            if i in chex:
                body = bytes.fromhex(chex[i])
                size = next((s for s in SIZES if s - 2 >= len(body)), None)
                if size is None:
                    try:
                        r = D.HORUS_ASN.decode("Telemetry", body, check_constraints=True)
                        out.append("station %d tree %s" % (i, show(r)))
                    except Exception as x:
                        out.append("station %d refuses: %s %s" % (i, type(x).__name__, str(x)[:80]))
                    continue
                body = body.ljust(size - 2, b"\0")
                pk = struct.pack("<H", R.crc16(body)) + body
                try:
                    d = D.decode_packet(pk)
                    r = D.HORUS_ASN.decode("Telemetry", body, check_constraints=True)
                    out.append("station %d tree %s" % (i, show(r)))
                    out.append("station %d telem %s" % (i, json.dumps([d.get(k) for k in ("callsign", "sequence_number", "latitude", "longitude", "altitude")])))
                    add("reach_packets_crossed_undamaged")
                except Exception as x:
                    out.append("station %d refuses: %s %s" % (i, type(x).__name__, str(x)[:80]))
        # how many allocations each call makes, then the schedule with its faults
        count = {}
        lines, meta, _ = self.script(plan, pre, py, chex, None, None)
        o, e, rc = self.csim(lines)
        for (k, kind, a, b), l in zip(meta, (l for l in o.splitlines() if l.startswith(("enc ", "dec ")))):
            m = re.search(r" allocs=(\d+)", l)
            count[k] = int(m.group(1)) if m else 0
        lines, meta, damage = self.script(plan, pre, py, chex, count, add)
        o, e, rc = self.csim(lines)
        res = [l for l in o.splitlines() if l.startswith(("enc ", "dec "))]
        again, seen = [], set()
        for (k, kind, a, b), l in zip(meta, res):
            m = re.search(r" re=([0-9a-f]+) ", l)
            if m and m.group(1) not in seen:
                seen.add(m.group(1))
                again.append(m.group(1))
        if again:
            o2, e2, rc2 = self.csim(pre[:1] + ["dec %s 0 0 0" % h for h in again])
            for h, l in zip(again, (l for l in o2.splitlines() if l.startswith("dec "))):
                out.append("relay %s %s" % (h, l))
            add("reach_packets_passed_on", len(again))
            if rc2:
                out.append("relay-rc %s %s" % (rc2, canon(e2)))
        return self.finish(plan, out, add, facts, meta, o, e, rc, res)

    def script(self, plan, pre, py, chex, count, add):
        import horusdemodlib.decoder as D
        lines, meta = list(pre), []

        def fails(st, k):
            f = st["fail"]
            if count is None:
                return [0]
            n = count.get(k, 0)
            if f == "each":
                return list(range(1, min(n, 200) + 1)) or [0]
            if isinstance(f, list):
                return [f[1] * (1 + int(f[0] * n))]
            return [f]
        for k, st in enumerate(plan["steps"]):
            if st["op"] == "enc":
                need = len(py.get(st["rec"], "")) // 2 or 20
                size = st["size"]
                if st["mode"] == "buf":
                    size = need if size == "fit" else int(st["cut"] * need) if size == "short" else need + 50
                for f in fails(st, k):
                    lines.append("enc %d %s %d %d" % (st["rec"], st["mode"], size, f))
                    meta.append((k, "enc", size, need))
                if count is not None and st["fail"] or (st["mode"] == "buf" and size < need) or (st["mode"] == "cb" and size):
                    lines.append("enc %d new 0 0" % st["rec"])          # memory is back: the same call again
                    meta.append((k, "again", 0, need))
            else:
                h, dmg = st.get("hex"), "raw"
                if st["op"] == "dec":
                    dmg = ""
                    if st["from"] == "c":
                        h = chex.get(st["rec"])
                    else:
                        h = py.get(st["rec"])
                        if h and st.get("via"):
                            h = bytes(D.HORUS_ASN.encode("Telemetry", dict(tree(plan["recs"][st["rec"]]), via=st["via"]), check_constraints=True)).hex()
                    if h is None:
                        continue
                    b = bytearray.fromhex(h)
                    if st["pad"]:
                        b += bytes(next((s for s in SIZES if s - 2 >= len(b)), len(b) + 2) - 2 - len(b))
                    if "flips" in st:
                        dmg = "flips"
                        for x in st["flips"]:
                            j = int(x * len(b) * 8)
                            b[j // 8] ^= 128 >> (j % 8)
                    if "burst" in st:
                        dmg = "burst"
                        j = int(st["burst"][0] * len(b))
                        nb = random.Random(st["burst"][1])
                        for q in range(j, min(len(b), j + 8)):
                            b[q] = nb.randrange(256)
                    if "cut" in st:
                        dmg = "cut"
                        b = b[:int(st["cut"] * len(bytes.fromhex(h)))]
                    h = bytes(b).hex()
                for f in fails(st, k):
                    lines.append("dec %s %d %d %d" % (h or "-", f, st["stack"], st["reuse"]))
                    meta.append((k, "dec", dmg, h or ""))
                if count is not None and st["fail"] and not dmg:
                    lines.append("dec %s 0 0 %d" % (h, st["reuse"]))
                    meta.append((k, "dagain", dmg, h))
                if dmg and add:
                    add("fault_" + {"raw": "arbitrary_input", "flips": "bit_errors", "burst": "error_burst", "cut": "truncated"}[dmg])
                    add("fault_any")
        return lines, meta, None

    def finish(self, plan, out, add, facts, meta, o, e, rc, res):
        for (k, kind, a, b), l in zip(meta, res):
            out.append("step %d %s %s %s" % (k, kind, a if kind != "dec" else a or "intact", l))
            if " failed=0" not in l and "failed=" in l:
                add("fault_allocation_failed")
                add("fault_any")
            if kind == "enc" and plan["steps"][k]["mode"] == "cb" and a and int(re.search(r"calls=(\d+)", l).group(1)) >= a:
                add("fault_output_refused")
                add("fault_any")
            if kind == "enc" and plan["steps"][k]["mode"] == "buf" and a < b:
                add("fault_buffer_too_small")
                add("fault_any")
            add("codec_calls")
        for l in o.splitlines():
            if l.startswith(("end ", "badfree")):
                out.append(l)
        out.append("rc %s %s results %d of %d" % (rc, canon(e), len(res), len(meta)))
        fired = facts.pop("fault_any", 0)
        facts["nontrivial"] = int(bool(fired and facts.get("reach_packets_crossed_undamaged")))
        self.last = None
        return "\n".join(out) + "\n", facts

    # ------------------------------------------------------------------ oracle
    def judge(self, plan, log, facts):
        import horusdemodlib.decoder as D
        v = []
        L = log.splitlines()
        m0 = re.match(r"plain rc (\S+) ?(.*)", L[0])
        if m0.group(1) != "0":
            return [("hang" if m0.group(1) == "timeout" else "crash", "encoding ended with %s: %s" % (m0.group(1), m0.group(2)[:300]))]
        mend = re.match(r"rc (\S+) ?(.*) results (\d+) of (\d+)", L[-1])
        if mend.group(1) != "0":
            last = [l for l in L if l.startswith("step")][-1:]
            return [("hang" if mend.group(1) == "timeout" else "crash", "the node's process ended with %s: %s; last completed %s" % (mend.group(1), mend.group(2)[:300], (last or ["none"])[0][:120]))]
        if "badfree" in L:
            return [("crash", "memory which was not allocated is freed")]
        accepted = {}
        py, valid, plain, st_tree, st_ref, telem = {}, {}, {}, {}, {}, {}
        for l in L:
            w = l.split(" ", 2)
            if w[0] == "py":
                valid[int(w[1])] = not w[2].startswith("refuses")
                py[int(w[1])] = w[2]
            elif w[0] == "checked":
                accepted[int(w[1])] = w[2].startswith("chk 0 ")
                if not w[2].endswith("live=0"):
                    v.append(("leak", "checking the constraints of record %s leaves memory allocated: %s" % (w[1], w[2])))
            elif w[0] == "plain" and w[1].isdigit():
                plain[int(w[1])] = parse(w[2])
            elif w[0] == "station":
                i, rest = int(w[1]), w[2]
                if rest.startswith("tree "):
                    st_tree[i] = unshow(rest[5:])
                elif rest.startswith("telem "):
                    telem[i] = json.loads(rest[6:])
                else:
                    st_ref[i] = rest
        for i, t in enumerate(plan["recs"]):
            m, p = tree(t), plain.get(i)
            if p is None:
                return [("crash", "no result for record %d" % i)]
            if p["live"]:
                v.append(("leak", "encoding record %d leaves %d blocks allocated" % (i, p["live"])))
            if not valid[i]:
                if p["encoded"] >= 0 and accepted.get(i) and i in st_tree and not eq(st_tree[i], m):
                    v.append(("out-of-range-sent", "a record with a value outside its range (%s) is encoded without an error and arrives as another record: %s" % (", ".join("%s=%s" % (k, x) for k, x in t if k not in ("ex", "s", "temp", "mv"))[:300], differs(st_tree[i], m))))
                continue
            if not accepted.get(i):
                v.append(("not-accepted", "the C library's constraint check refuses a valid record: %s" % toks(t)[:200]))
            if p["encoded"] < 0:
                v.append(("not-encodable", "a valid record is refused by the C encoder: %s" % toks(t)[:200]))
            elif i in st_ref or not eq(st_tree.get(i), m):
                if any(c_to_station(c) is None for c in texts(m)) if i in st_ref and "horusStr: Expected a value" in st_ref[i] else i in st_tree and texts(m) and None not in [c_to_station(c) for c in texts(m)] and eq(st_tree[i], retext(m, c_to_station)):
                    v.append(("text-sensor-alphabet", "a text sensor value from the C encoder is not what the station decodes (%s)" % (st_ref.get(i) or differs(st_tree[i], m))))
                else:
                    v.append(("other-record", "the station decodes the C encoder's packet differently: %s" % (st_ref.get(i) or differs(st_tree.get(i), m))))
            elif i in telem and (telem[i][0] != m["payloadCallsign"] or telem[i][1] != m["sequenceNumber"] or abs(telem[i][2] - m["latitude"] / 1e5) > 1e-9 or abs(telem[i][3] - m["longitude"] / 1e5) > 1e-9):
                v.append(("other-telemetry", "the station's telemetry %s is not the record sent" % telem[i]))
        relay = {}
        for l in L:
            if l.startswith("relay-rc "):
                return [("crash", "decoding what was passed on ended with " + l[9:300])]
            if l.startswith("relay "):
                _, h, rest = l.split(" ", 2)
                relay[h] = parse(rest)
        for l in L:
            if l.startswith("end ") and l != "end live=0":
                v.append(("leak", "when everything was released: %s" % l))
            if not l.startswith("step "):
                continue
            _, k, kind, a, rest = l.split(" ", 4)
            st = plan["steps"][int(k)]
            i = st.get("rec")
            d = parse(rest)
            if d["live"]:
                v.append(("leak", "%d blocks are left allocated after %s" % (d["live"], l[:160])))
            if kind in ("enc", "again"):
                need = (plain[i]["encoded"] if plain[i]["encoded"] >= 0 else 0)
                if d["encoded"] >= 0 and d.get("hex") != plain[i].get("hex"):
                    v.append(("other-encoding", "the same record is encoded differently: %s, before %s" % (l[:160], plain[i].get("hex", "")[:80])))
                may_fail = d["failed"] or plain[i]["encoded"] < 0 or (kind == "enc" and st["mode"] == "buf" and int(a) < plain[i]["encoded"]) or (kind == "enc" and st["mode"] == "cb" and int(a) and d["calls"] >= int(a))
                if d["encoded"] < 0 and not may_fail:
                    v.append(("encode-failed", "encoding fails although nothing is short: %s" % l[:200]))
                if kind == "enc" and d["encoded"] >= 0 and st["mode"] == "cb" and int(a) and d["calls"] >= int(a):
                    v.append(("refusal-ignored", "the output refused data and encoding still reports success: %s" % l[:200]))
                if kind == "enc" and d["encoded"] >= 0 and st["mode"] == "buf" and int(a) * 8 < need and len(d.get("hex", "")) // 2 > int(a):
                    v.append(("overrun", "more bytes than the buffer holds: %s" % l[:200]))
            else:
                if d["code"] == 0 and d.get("re"):
                    if d["re"] == "refused":
                        v.append(("not-passed-on", "a decoded record within its ranges is refused by the encoder: %s" % l[:300]))
                    elif d["re"] not in relay or relay[d["re"]]["code"] != 0 or not eq(relay[d["re"]]["tree"], d["tree"]):
                        v.append(("passed-on-changed", "a decoded record encoded again arrives as another one: %s, then %s" % (l[:300], str(relay.get(d["re"]))[:300])))
                if st["op"] == "raw" or a != "intact" and kind == "dec":
                    continue
                m = tree(plan["recs"][i])
                if st["from"] == "py" and not valid[i] or st["from"] == "c" and (plain[i]["encoded"] < 0 or not valid[i]):
                    continue
                if d["code"] != 0:
                    if not (d["failed"] or st["stack"] and kind == "dec"):
                        v.append(("extension-refused" if st.get("via") else "not-decodable", "a valid encoding%s is refused by the C decoder (code %d): %s" % (" with a field it does not know" if st.get("via") else "", d["code"], toks(plan["recs"][i])[:200])))
                elif not eq(d["tree"], m):
                    if st["from"] == "py" and texts(m) and eq(d["tree"], retext(m, station_to_c)):
                        v.append(("text-sensor-alphabet", "a text sensor value encoded by the Python codec is not what the C decoder gives (%s)" % differs(d["tree"], m)))
                    else:
                        v.append(("other-record", "the C decoder makes another record: %s" % differs(d["tree"], m)))
        seen, o = set(), []
        for c, msg in v:
            if c not in seen:
                seen.add(c)
                o.append((c, msg))
        return o

    def shrink(self, plan):
        cp = lambda: json.loads(json.dumps(plan))
        for cand in list_shrinks(plan["steps"]):
            p = cp()
            p["steps"] = cand
            yield p
        used = {s.get("rec") for s in plan["steps"]}
        if len(plan["recs"]) > 1:
            for j in range(len(plan["recs"])):
                p = cp()
                del p["recs"][j]
                p["steps"] = [dict(s, rec=s["rec"] - (s["rec"] > j)) if "rec" in s else s for s in p["steps"] if s.get("rec") != j]
                yield p
        for j, t in enumerate(plan["recs"]):
            for q in range(len(t) - 1, 5, -1):
                k = t[q][0]
                if k in ("ex", "s", "temp", "mv"):
                    dep = {"temp": dict(TEMP), "mv": dict(MV)}.get(k)
                    if dep and any(x[0] in dep for x in t):
                        continue
                    if k in ("ex", "s") and (k == "ex" and len([x for x in t if x[0] == "s"]) or k == "s" and q + 1 < len(t) and t[q + 1][0] in ("sn", "si", "sr", "ss", "sb") or k == "s" and len([x for x in t if x[0] == "s"]) == 1 and False):
                        continue
                p = cp()
                del p["recs"][j][q]
                yield p


def canon(err):
    keep = []
    for l in err.splitlines():
        if "runtime error" in l or "ERROR: AddressSanitizer" in l or "Assertion" in l:
            l = re.sub(r"0x[0-9a-f]+", "0x", l)
            l = re.sub(r"==\d+==|T\d+|pc 0x.*|\(pid.*", "", l)
            keep.append(l.replace(REPO, ""))
    return " | ".join(keep[:2])[:400]


def parse(l):
    d = {"live": 0, "failed": 0, "calls": 0}
    w = l.split()
    d["encoded" if w[0] == "enc" else "code"] = int(w[1])
    rec = []
    for x in w[2:]:
        k, y = x.split("=", 1)
        if k in ("live", "failed", "calls", "allocs", "consumed", "peak"):
            d[k] = int(y)
        elif k in ("hex", "re"):
            d[k] = y
        else:
            rec.append(x)
    if w[0] == "dec" and d["code"] == 0:
        d["tree"] = tree(untok(rec))
    return d


def show(m):
    def f(x):
        if isinstance(x, dict):
            return {"d": [[k, f(v)] for k, v in sorted(x.items())]}
        if isinstance(x, tuple):
            return {"t": [f(y) for y in x]}
        if isinstance(x, list):
            return [f(y) for y in x]
        if isinstance(x, (bytes, bytearray)):
            return {"b": bytes(x).hex()}
        if isinstance(x, float):
            return {"f": struct.pack(">d", x).hex()}
        return x
    return json.dumps(f(m))


def unshow(s):
    def g(x):
        if isinstance(x, list):
            return [g(y) for y in x]
        if isinstance(x, dict):
            (k, v), = x.items()
            return {"d": lambda: {a: g(b) for a, b in v}, "t": lambda: tuple(g(y) for y in v), "b": lambda: bytes.fromhex(v), "f": lambda: struct.unpack(">d", bytes.fromhex(v))[0]}[k]()
        return x
    return g(json.loads(s))


def differs(a, b, at=""):
    """the first difference between two records"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(b) + [k for k in a if k not in b]:
            if not eq(a.get(k), b.get(k)):
                return differs(a.get(k), b.get(k), (at + "." if at else "") + k)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for j, (x, y) in enumerate(zip(a, b)):
            if not eq(x, y):
                return differs(x, y, "%s[%d]" % (at, j))
    return ("%s is %r, sent %r" % (at or "record", a, b))[:300]
