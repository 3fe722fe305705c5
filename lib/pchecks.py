"""P01-P15: the station software (telemetry handler, uploader, lists, statistics, announcements) inside the simulator."""
import calendar, datetime, json, math, random, struct, sys, threading, time
import station as S
import horusref as R
from driver import Check, list_shrinks

ROOT = "/vsim/"
LOG = ROOT + "telemetry.log"
IDS = ROOT + "payload_id_list.txt"
FLD = ROOT + "custom_field_list.json"
TZS = [None, None, "UTC0", "ACST-9:30ACDT,M10.1.0,M4.1.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "HST10"]
UNK = "UNKNOWN_PAYLOAD_ID"
REAL = ["horusdemodlib.uploader main() and its argument, configuration and input handling", "SondehubAmateurUploader and its thread", "decoder, delegates, checksums, payload lists, demodstats, horusudp, utils",
        "requests (session, request preparation, JSON) above the transport adapter", "queue.Queue, threading.Thread/Event/Condition, logging, dateutil, asn1tools, TextIOWrapper and buffered I/O"]
STUBS = ["HTTP transport adapter (scripted server)", "UDP socket object", "disk (simulated files with page cache and power-loss model)", "stdin byte source", "clocks, sleep, locks, thread start/join/scheduling",
         "the radio and modem (lines are made from a reference packer)"]


class PCheck(Check):
    real, stubs = REAL, STUBS
    state_measure = "distinct canonical event logs (every task switch visible in file, socket, HTTP, input and thread events)"
    assumptions = ["threads interleave at source lines of horusdemodlib and at every blocking or I/O call (the interpreter's real switch points are finer inside C calls, which are atomic under the GIL)",
                   "the process is not stopped inside a single simulated system call", "log lines of the Python logging module are not part of any property"]

    def build(self):
        S.load()
        S.asn()

    # plan: {epoch, tz, files{path:text}, boots:[{argv|fn, items, cfg, fresh}], ...}
    def execute(self, plan):
        files0 = {p: t.encode("utf-8").hex() for p, t in plan["files"].items()}
        files, boots = files0, []
        for b in plan["boots"]:
            cfg = dict(b["cfg"], epoch=plan["epoch"] + b.get("at", 0))
            if b.get("items") is not None:
                cfg["stdin"] = S.stdin_of(self.items(plan, b))
            r = S.boot(cfg, files0 if b.get("fresh") else files, argv=b.get("argv"), fn=(__name__, b["fn"], b["arg"]) if "fn" in b else None, tz=plan.get("tz"))
            files = r["files"]
            boots.append(r)
        return S.canon(boots), S.facts_of(boots, **self.extra_facts(plan))

    def items(self, plan, b):
        return b["items"]

    def extra_facts(self, plan):
        f = {"input_lines": sum(len(b.get("items") or ()) for b in plan["boots"])}
        f["packets"] = sum(1 for b in plan["boots"] for _, it in b.get("items") or () if "p" in it)
        return f

    def shrink(self, plan):
        cp = lambda: json.loads(json.dumps(plan))
        for i, b in enumerate(plan["boots"]):
            if b.get("items"):
                for cand in list_shrinks(b["items"]):
                    p = cp()
                    p["boots"][i]["items"] = cand
                    yield p
            c = b["cfg"]
            for k in ("p_pre", "p_stall"):
                if c.get(k):
                    p = cp()
                    p["boots"][i]["cfg"][k] = 0
                    yield p
            for k in ("udp", "fs", "clock"):
                if c.get(k):
                    for cand in list_shrinks(c[k]):
                        p = cp()
                        p["boots"][i]["cfg"][k] = cand
                        yield p
            for ep, st in (c.get("http") or {}).items():
                for k in ("windows", "script"):
                    if st.get(k):
                        for cand in list_shrinks(st[k]):
                            p = cp()
                            p["boots"][i]["cfg"]["http"][ep][k] = cand
                            yield p
            if isinstance(b.get("arg"), dict):
                for k, v in b["arg"].items():
                    if isinstance(v, list):
                        for cand in list_shrinks(v):
                            p = cp()
                            p["boots"][i]["arg"][k] = cand
                            yield p
        if plan.get("tz"):
            p = cp()
            p["tz"] = None
            yield p

    def describe(self, plan):
        return json.dumps({k: v for k, v in plan.items() if k not in ("names", "fields", "files")})[:3000]


# ------------------------------------------------------------------------------------------------ generator pieces
def epoch(rng):
    """receiver clock at start: anything, and often shortly before a day, month or year boundary"""
    if rng.random() < 0.5:
        return float(rng.randrange(1704067200, 1893456000)) + rng.choice([0, round(rng.random(), 3)])
    y = rng.choice([2024, 2025, 2027, 2028])
    mo, d = rng.choice([(1, 1), (3, 1), (2, 29) if y % 4 == 0 else (2, 28), (7, 1), (12, 31), (10, 5)])
    return float(calendar.timegm((y, mo, d, 0, 0, 0)) - rng.randrange(0, 400)) + rng.choice([0, round(rng.random(), 3)])


def base_cfg(rng, end, pre=True):
    p = rng.choice([0, 0.003, 0.02, 0.1, 0.3]) if pre else 0
    return {"seed": rng.getrandbits(48), "p_pre": p, "p_stall": rng.choice([0, 0.05]) if p else 0, "limit": end + 1200, "http": {}, "watch": [LOG]}


def ok_server(names=None, fields=None, d=0.2):
    h = {"telemetry": {"default": {"s": 200, "d": d}}, "listeners": {"default": {"s": 200, "d": d}}}
    h["ids"] = {"default": {"s": 200, "d": d, "b": S.list_text(names or {})}}
    h["fields"] = {"default": {"s": 200, "d": d, "b": S.fields_text(fields or {})}}
    return h


def behaviour(rng):
    k = rng.randrange(9)
    if k < 3:
        return {"s": rng.choice([500, 501, 502, 503, 504]), "d": rng.choice([0.05, 0.3, 2, 5.5])}
    if k == 3:
        return {"s": 202, "d": 0.2, "b": rng.choice([None, "not json", '{"message": "x"}', '{"errors": [{"error_message": "e", "payload": {}}], "warnings": [{"warning_message": "w"}]}', "[]", '{"errors": 5}'])}
    if k == 4:
        return {"s": rng.choice([400, 403, 404, 413, 429]), "d": 0.2}
    if k == 5:
        return {"s": "conn", "d": rng.choice([0, 0.1, 3])}
    if k == 6:
        return {"s": rng.choice(["ctimeout", "rtimeout"])}
    if k == 7:
        return {"s": "lost", "d": rng.choice([0.1, 4])}
    return {"s": 200, "d": rng.choice([3, 6, 6.05])}


def bad_windows(rng, end, n=3, beh=behaviour):
    out = []
    for _ in range(rng.randrange(n + 1)):
        a = round(rng.uniform(0, end), 2)
        out.append(dict(beh(rng), **{"from": a, "to": round(a + rng.choice([1, 5, 20, 60]), 2)}))
    return out


UDPERR = ["ENETUNREACH", "EPERM", "ENOBUFS", "EACCES", "EHOSTUNREACH", "ENETDOWN", "EMSGSIZE", "EAGAIN", "TIMEOUT", "GAI"]


def udp_faults(rng, end, n=3):
    out = []
    for _ in range(rng.randrange(n + 1)):
        a = round(rng.uniform(0, end), 2)
        k = rng.randrange(6)
        ops = [["broadcast"], ["broadcast"], ["localhost"], ["broadcast", "localhost"], ["create"], [rng.choice(["setsockopt", "reuseport", "bind"])]][k]
        err = rng.choice(UDPERR if "create" not in ops else ["EMFILE", "ENFILE", "ENOBUFS", "ENOMEM"]) if k != 5 else rng.choice(["ENOPROTOOPT", "EINVAL", "EPERM"])
        out.append({"ops": ops, "from": a, "to": round(a + rng.choice([0.5, 3, 10, 30]), 2), "err": err})
    return out


def junk_lines(rng):
    """one line that is not a valid packet and not a valid statistics report"""
    k = rng.randrange(26)
    H = "0123456789ABCDEF"
    if k == 0:
        return b"\n"
    if k == 1:
        return rng.choice([b" ", b"\t", b"\r", b"   \t  ", b"\x0c", b"\x00"]) + b"\n"
    if k == 2:      # odd-length hex
        return "".join(rng.choice(H) for _ in range(2 * rng.randrange(1, 70) + 1)).encode() + b"\n"
    if k == 3:      # text
        return rng.choice([b"hello world", b"Segmentation fault", b"xyz", b"0x0011", b"00 11 22", b"-1", b"None", b"nan", b"12.5", b"#comment", b"}", b"]", b"$", b"\"", b"$ $"]) + b"\n"
    if k == 4:      # undecodable bytes
        return bytes(rng.choice([0x80, 0xFF, 0xC3, 0xE2, 0xF0, 0x41, 0x30, 0x24, 0x7B]) for _ in range(rng.randrange(1, 60))) + b"\xff\n"
    if k == 5:      # unicode
        return rng.choice(["é", "ÅÄÖ0011", "\u2028", "𝟘𝟙", "٣٣", "\ufeff0011", "００１１"]).encode() + b"\n"
    if k == 6:      # hex of an unknown length, bad checksum
        return ok_junk_hex(rng, rng.choice([1, 2, 3, 5, 15, 17, 21, 23, 31, 33, 64, 129, 300]))
    if k == 7:      # known length, bad checksum
        return ok_junk_hex(rng, rng.choice([16, 22, 32, 32, 48, 64, 96, 128]))
    if k == 8:      # truncated packet
        g = S.Gen(rng, 1.75e9)
        l = S.line_of(g.packet(0, rng.choice(["v1", "v2", "v216"])))
        return l[:2 * rng.randrange(1, 10)] + b"\n"
    if k == 9:      # checksum right, field contents impossible
        g = S.Gen(rng, 1.75e9)
        f = rng.choice(["v1", "v2"])
        kw = rng.choice([{"t": [24, 0, 0]}, {"t": [12, 60, 0]}, {"t": [12, 0, 61]}, {"lat": 181.0}, {"lon": -1e10}, {"lat": "inf"}, {"lon": "-inf"}])
        return S.line_of(dict(g.packet(0, f), **kw)) + b"\n"
    if k == 10:     # v3 checksum right, body not decodable or out of constraints
        while True:
            b = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 14, 30, 46, 62])))
            try:
                S.asn().decode("Telemetry", b, check_constraints=True)
            except Exception:
                break
        return (struct.pack("<H", R.crc16(b)) + b).hex().encode() + b"\n"
    if k in (11, 12):    # RTTY
        t = rng.choice(["$$", "$$$$", "$$CALL", "$$CALL,1,2", "$$*", "$$*0000", "$$,,,,,,*1234", "$$CALL,1,12:00:00,1.0,2.0,100*FFFF", "$$CALL,1,12:00:00,1.0,2.0,100", "$$\x00\x01*", "$$é,1*1234", "$$A*B*C*D"])
        return t.encode() + b"\n"
    if k == 13:     # RTTY with a right checksum and unusable fields
        s = rng.choice(["CALL", "CALL,1", "CALL,x,12:00:00,1.0,2.0,100", "CALL,1,25:00:00,1.0,2.0,100", "CALL,1,12:00,1.0,2.0,100", "CALL,1,12:00:00,abc,2.0,100", "CALL,1,12:00:00,1.0,2.0,70000", "CALL,1,12:00:00,1.0,2.0,-5",
                        "CALL,1,12:00:00,1.0,2.0,1.5", "CALL,1,12:00:00,1.0,2.0", "", "CALL,1,,1.0,2.0,100", "CALL,9" + "9" * 5000 + ",12:00:00,1.0,2.0,100"])
        return ("$$%s*%04X" % (s, R.crc16(s.encode()))).encode() + b"\n"
    if k in (14, 15):    # not JSON
        return rng.choice([b"{", b"{}", b"{]", b'{"EbNodB": ', b"{'a': 1}", b'{"a" 1}', b"{" * 3000, b'{"a":' * 2000, b'{"EbNodB": 5, "ppm": 1,}', b"{\x00}", b'{"a": "\xff"}', b'{"a": 1} trailing']) + b"\n"
    if k in (16, 17, 18, 19, 20):
        return (json.dumps(bad_stat(rng)) if rng.random() < 0.8 else raw_bad_stat(rng)).encode() + b"\n"
    if k == 21:     # very long line
        return rng.choice([b"0", b"A", b"z", b"$", b"{", b"\xe2\x82"]) * rng.choice([5000, 70000, 200001]) + b"!\n"
    if k == 22:     # carriage returns and other separators inside
        return rng.choice([b"00\r11\r22", b"$$\rA", b"{\r}", b"\x0b\x0c\x1c\x85", b"ab\x1a\x04"]) + b"\n"
    if k == 23:
        return ok_junk_hex(rng, rng.choice([16, 22, 32])).strip().lower() + rng.choice([b" ", b"\t", b"\r"]) + b"\n"
    if k == 24:
        return b" " + ok_junk_hex(rng, 22)
    return b"CRC OK\n"


def ok_junk_hex(rng, n):
    while True:
        b = bytes(rng.randrange(256) for _ in range(n))
        if n < 3 or (struct.pack("<H", R.crc16(b[2:])) != b[:2] and struct.pack("<H", R.crc16(b[:-2])) != b[-2:]):
            return b.hex().upper().encode() + b"\n"


GOODSTAT = {"EbNodB": 99.0, "ppm": 77, "f1_est": 4000.0, "f2_est": 5000.0, "f3_est": 6000.0, "f4_est": 7000.0, "samp_fft": [1]}


def bad_stat(rng):
    d = dict(GOODSTAT)
    k = rng.choice(["EbNodB", "ppm", "f1_est", "f2_est", "f3_est", "f4_est"])
    if rng.random() < 0.3:
        k = rng.choice(["EbNodB", "ppm", "f1_est", "f2_est", "samp_fft"])
        del d[k]
        return d
    d[k] = rng.choice(["12", None, [], {}, [1.0], "nan", True, "x", ""])
    return d


def raw_bad_stat(rng):
    k = rng.choice(["EbNodB", "ppm", "f1_est", "f2_est", "f3_est", "f4_est"])
    v = rng.choice(["NaN", "Infinity", "-Infinity", "1e999", "-1e999", "nan", "-nan", "inf", "1" + "0" * 400, "-nan(ind)"])
    return "{" + ", ".join('"%s": %s' % (a, v if a == k else json.dumps(b)) for a, b in GOODSTAT.items()) + "}"


def norm_args(rng, more=()):
    a = []
    if rng.random() < 0.4:
        a += ["--freq_hz", rng.choice(["434200000", "402500000.5"])]
    if rng.random() < 0.3:
        a += ["--freq_target_hz", "434200000"]
    if rng.random() < 0.4:
        a += ["--baud_rate", "100"]
    if rng.random() < 0.15:
        a.append("-v")
    return a + list(more)


def files_for(g, pos=None, lists=True):
    f = {ROOT + "user.cfg": S.config(lat=pos[0] if pos else 0.0, lon=pos[1] if pos else 0.0)}
    if lists:
        f[IDS] = S.list_text(g.names)
        f[FLD] = S.fields_text(g.fields)
    return f


def key_ll(lat, lon):
    return "%.4f,%.4f" % (lat, lon)


class Model:
    """which input line is which packet, and what each should become, for plans whose lists do not change"""

    def __init__(self, plan):
        self.names = {**S.DEFAULT_NAMES, **{int(k): v for k, v in plan["names"].items()}}
        self.fields = {**S.DEFAULT_FIELDS, **plan["fields"]}
        self.by = {}
        for b in plan["boots"]:
            for _, it in b.get("items") or ():
                if "p" in it:
                    self.by[S.line_of(it["p"]).decode("latin-1").strip()] = it["p"]
        self.cache = {}

    def packet(self, hexline):
        try:
            return self.by.get(bytes.fromhex(hexline).decode().strip())
        except UnicodeDecodeError:
            return None

    def handled(self, h):
        """[(line record, packet, expectation)] for the valid packet lines of a history, in order"""
        out = []
        cache = {}
        for l in h.lines:
            p = self.packet(l["hex"])
            if p is not None:
                out.append((l, p, S.expect(p, self.names, self.fields, cache)))
        return out


def eligible(e, epoch_t, until=None):
    """None when undecided (edge of the time window); until: the packet is handled at some instant from epoch_t to then"""
    if e["callsign"] == UNK or e["via"] not in (None, "sondehub") or e["alt"] is None:
        return False
    d = [abs(tdiff(e["tod"], t)) for t in ([epoch_t] if until is None else [epoch_t, until])]
    if max(d) <= 175:
        return True
    if min(d) >= 185:
        return False
    return None


def handled_until(l, h):
    return l["t1"] if l["t1"] is not None else h.b["t"]


def tdiff(tod, now):
    """payload time of day minus receiver clock, folded to the nearest day"""
    d = (tod - now) % 86400
    return d - 86400 if d > 43200 else d


def log_lines(h):
    return h.b["files"].get(LOG, b"").decode("utf-8", "replace").split("\n")


def records(h):
    """uploaded records in order of first sending: [(record, batch, index)]; malformed bodies give (None, ...)"""
    out = []
    for b in h.batches(True):
        try:
            l = json.loads(b["body"])
            assert isinstance(l, list)
        except Exception:
            out.append((None, b, 0))
            continue
        for j, d in enumerate(l):
            out.append((d, b, j))
    return out


def match_seq(actual, expected, same, required):
    """actual must be a subsequence of expected (in order, each at most once) containing every required item.
    -> (missing indexes, extra actual indexes)"""
    def first():
        miss, extra = [], []
        i = 0
        used = set()
        for a in range(len(actual)):
            j = i
            while j < len(expected) and not same(actual[a], expected[j]):
                j += 1
            if j == len(expected):
                extra.append(a)
            else:
                used.add(j)
                i = j + 1
        return [j for j in range(len(expected)) if required[j] and j not in used], extra
    miss, extra = first()
    if not (miss or extra):
        return miss, extra
    # equal neighbours can be paired in several ways: the best one counts
    n, m = len(actual), len(expected)
    eq = [[same(actual[a], expected[j]) for j in range(m)] for a in range(n)]
    if not any(sum(r) > 1 for r in eq):
        return miss, extra
    cost = [[0] * (m + 1) for _ in range(n + 1)]
    for a in range(n, -1, -1):
        for j in range(m, -1, -1):
            if a == n and j == m:
                continue
            c = []
            if a < n:
                c.append(1 + cost[a + 1][j])
            if j < m:
                c.append((1 if required[j] else 0) + cost[a][j + 1])
            if a < n and j < m and eq[a][j]:
                c.append(cost[a + 1][j + 1])
            cost[a][j] = min(c)
    miss, extra, a, j = [], [], 0, 0
    while a < n or j < m:
        if a < n and j < m and eq[a][j] and cost[a][j] == cost[a + 1][j + 1]:
            a, j = a + 1, j + 1
        elif j < m and cost[a][j] == (1 if required[j] else 0) + cost[a][j + 1]:
            if required[j]:
                miss.append(j)
            j += 1
        else:
            extra.append(a)
            a += 1
    return miss, extra


def repeats(rng, items, p=0.3):
    """some packets arrive twice, bit for bit (a payload without a GPS fix, two demodulators)"""
    if rng.random() < p:
        for _ in range(rng.choice([1, 1, 2, 3])):
            at = [k for k, (t, it) in enumerate(items) if "p" in it]
            if at:
                k = rng.choice(at)
                items.insert(k + 1, [items[k][0], json.loads(json.dumps(items[k][1]))])


def ended_ok(h, name="handler"):
    """the process ran to a normal end"""
    b = h.b
    if b["end"] == "crash":
        return [("crashed", "the %s process ended abnormally: %s" % (name, str(b["crash"])[-600:]))]
    if b["end"] != "finished":
        return [("never-ends", "the %s process never ended: %s at %.1f s; uncaught %s" % (name, b["end"], b["t"], h.uncaught[:2]))]
    return []


def misfit(rng, g):
    """a packet with a right checksum whose custom fields are no values of that payload's layout"""
    ids = [i for i in g.v2ids if any(k in ("time_hms", "degree_float", "time_biseconds") for _, k in g.fields.get(g.names[i], ["", []])[1])]
    if not ids or rng.random() < 0.5:
        return None
    i = rng.choice(ids)
    st, fl = g.fields[g.names[i]]
    bad = {"time_hms": [b"\x18\0\0", b"\0\x3c\0", b"\0\0\x3c", b"\xff\xff\xff"], "degree_float": [180.1, -1e9, float("nan"), float("inf")], "time_biseconds": [43201, 65535]}
    p = g.packet(0, "v2", pid=i, custom=struct.pack(st, *[rng.choice(bad[k]) if k in bad else 0 for n, k in fl]).hex())
    return S.line_of(p) + b"\n"


# ------------------------------------------------------------------------------------------------ P01
class P01(PCheck):
    id = "P01"
    rule = "a run counts when the handler read at least one invalid line followed by a valid packet, with a distinct event log"
    quick_runs, thorough_runs = 1000, 60000

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        g.strict_layouts()
        t, items = 3.0, []
        dens = rng.choice([0.2, 1.0, 3.0])
        for _ in range(rng.randrange(4, 24)):
            t = round(t + rng.choice([0, 0.01, rng.expovariate(1 / dens)]), 3)
            k = rng.random()
            if k < 0.55:
                b = misfit(rng, g)
                items.append([t, {"raw": b.hex(), "misfit": 1} if b else {"raw": junk_lines(rng).hex()}])
            elif k < 0.65:
                items.append([t, {"stat": g.stat()}])
            else:
                items.append([t, {"p": g.packet(t, eol=rng.choice(["", "", "\r", " "])) if rng.random() < 0.9 else g.packet(t, "v2", pid=rng.choice([32000, 33333]))}])
        if rng.random() < 0.03:
            items.append([t, {"p": g.shaped(t)}])
        repeats(rng, items)
        t = round(t + 1, 3)
        items.append([t, {"p": g.packet(t)}])
        cfg = base_cfg(rng, t)
        cfg["p_stall"] = 0
        cfg["stdin_errors"] = rng.choice(["strict", "strict", "surrogateescape"])
        cfg["http"] = ok_server()
        argv = norm_args(rng, ["--nodownload"] + rng.choice([[], [], ["--noupload"], ["--rtty"], ["--log", "none"]]))
        if "--rtty" in argv:          # (the lists are not read then)
            items = [x for x in items if "misfit" not in x[1]]
            for _, it in items:
                if "p" in it and it["p"]["f"] not in ("rtty", "v3"):
                    it["p"] = g.packet(_, "rtty")
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g), "names": g.names, "fields": g.fields,
                "boots": [{"argv": argv, "items": items, "cfg": cfg}, {"argv": argv, "items": None, "cfg": cfg, "clean": 1, "fresh": 1}]}

    def items(self, plan, b):
        return b["items"]

    def execute(self, plan):
        p = json.loads(json.dumps(plan))
        if len(p["boots"]) > 1:
            p["boots"][1]["items"] = [x for x in p["boots"][0]["items"] if "raw" not in x[1]]
        return super().execute(p)

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        out = []
        b = bs[0]
        if h.main_end and h.main_end[1] != "return" or b["end"] == "crash":
            last = bytes.fromhex(h.lines[-1]["hex"]) if h.lines else b""
            return [("handler-stopped", "the handler stopped by itself (%s %s) after %d lines, the last read being %r" % (b["crash"] or h.main_end, h.uncaught[:1], len(h.lines), last[:80]))]
        if h.eof is None:
            return [("handler-stuck", "the handler stopped reading its input (%s at %.1f s), last line %r" % (b["end"], b["t"], bytes.fromhex(h.lines[-1]["hex"])[:80] if h.lines else b""))]
        out += ended_ok(h)
        if out:
            return out
        m = Model(plan)
        argv = plan["boots"][0]["argv"]
        if "--rtty" in argv:
            m.names = dict(S.DEFAULT_NAMES)
        hand = m.handled(h)
        want = [it["p"] for _, it in plan["boots"][0]["items"] if "p" in it]
        if len(hand) != len(want):
            return [("line-lost", "%d valid packet lines were sent, the handler read %d of them" % (len(want), len(hand)))]
        ll = [x for x in log_lines(h) if x]
        if "none" not in argv:
            miss, extra = match_seq(ll, hand, lambda a, x: S.log_matches(a, x[2]), [1] * len(hand))
            if miss or extra:
                out.append(("log-differs", "log lines: missing %s, unexpected %s" % ([hand[j][2]["log"] for j in miss[:2]], [ll[j] for j in extra[:2]])))
        us = [json.loads(u["data"]) for u in h.udp]
        ex = [x for x in hand if (x[2]["lat"], x[2]["lon"]) != (0.0, 0.0)]
        miss, extra = match_seq(us, ex, lambda a, x: not S.udp_diff(a, x[2]), [1] * len(ex))
        if miss or extra:
            out.append(("udp-differs", "announcements: missing %s, unexpected %s" % ([ex[j][2]["log"] for j in miss[:2]], [us[j] for j in extra[:2]])))
        recs = records(h)
        el = [(x, eligible(x[2], plan["epoch"] + x[0]["t"], plan["epoch"] + handled_until(x[0], h))) for x in hand if "--noupload" not in argv]
        ex = [x for x, k in el if k is not False]
        miss, extra = match_seq([r[0] for r in recs], ex, lambda a, x: not S.upload_diff(a, x[2]), [k is True for _, k in el if k is not False])
        if miss or extra:
            out.append(("upload-differs", "uploads: missing %s, unexpected %s" % ([ex[j][2]["log"] for j in miss[:2]], [recs[j][0] for j in extra[:2]])))
        if not out and len(bs) > 1:
            h2 = S.Hist(bs[1])
            if bs[1]["end"] == "finished":
                strip = lambda d: {k: v for k, v in d.items() if k != "time_received"} if isinstance(d, dict) else d
                a, c = [strip(r[0]) for r in recs], [strip(r[0]) for r in records(h2)]
                if a != c:
                    j = next((j for j in range(min(len(a), len(c))) if a[j] != c[j]), min(len(a), len(c)))
                    out.append(("junk-changes-uploads", "without the invalid lines the uploads are different: %s | %s" % (a[j:j + 1], c[j:j + 1])))
                elif us != [json.loads(u["data"]) for u in h2.udp]:
                    c = [json.loads(u["data"]) for u in h2.udp]
                    j = next((j for j in range(min(len(us), len(c))) if us[j] != c[j]), 0)
                    out.append(("junk-changes-udp", "without the invalid lines the announcements are different: %s | %s" % (us[j:j + 1], c[j:j + 1])))
                elif h.b["files"].get(LOG) != h2.b["files"].get(LOG):
                    out.append(("junk-changes-log", "without the invalid lines the log is different"))
        return out


# ------------------------------------------------------------------------------------------------ P02
class P02(PCheck):
    id = "P02"
    rule = "a run counts when at least one sink failed while packets arrived, with a distinct event log"
    quick_runs, thorough_runs = 1500, 80000

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        g.strict_layouts()
        t, items = 3.0, []
        gap = rng.choice([0.05, 0.7, 3.0, 8.0])
        for _ in range(rng.randrange(3, 26)):
            t = round(t + rng.choice([0, rng.expovariate(1 / gap)]), 3)
            k = rng.random()
            if k < 0.1:
                items.append([t, {"stat": g.stat()}])
            elif k < 0.2:
                p = g.packet(t, rng.choice(["v1", "v2", "v3"]))
                if p["f"] == "v3":
                    p["m"].update(rng.choice([{"latitude": 0, "longitude": 0}, {"via": "nohub"}, {"via": "unknown"}, {"altitudeMeters": -1000}]))
                else:
                    p.update(rng.choice([{"lat": 0.0, "lon": 0.0}, {"id": 250 if p["f"] == "v1" else 32100}]))
                items.append([t, {"p": p}])
            else:
                items.append([t, {"p": g.packet(t)}])
        last = t
        for _ in range(3):
            t = round(t + rng.uniform(8, 20), 2)
            items.append([t, {"p": g.packet(t)}])
        repeats(rng, items)
        cfg = base_cfg(rng, t)
        cfg["http"] = ok_server()
        cfg["http"]["telemetry"]["windows"] = bad_windows(rng, last)
        cfg["http"]["listeners"]["windows"] = bad_windows(rng, last, 1)
        cfg["udp"] = udp_faults(rng, last)
        fs = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = round(rng.uniform(0, last), 2)
            fs.append({"ops": ["write"], "path": "telemetry.log", "from": a, "to": round(min(a + rng.choice([1, 10, 40]), last + 1), 2), "err": rng.choice(["ENOSPC", "EIO", "EDQUOT"]), "partial": rng.choice([0, 0, 1, 20])})
        cfg["fs"] = fs
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g), "names": g.names, "fields": g.fields,
                "boots": [{"argv": norm_args(rng, ["--nodownload"]), "items": items, "cfg": cfg}]}

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        cfg = plan["boots"][0]["cfg"]
        out = ended_ok(h)
        if out:
            return out
        if h.main_end[1] != "return":
            return [("handler-stopped", "the handler stopped with %s %s" % (h.main_end, h.uncaught[:1]))]
        m = Model(plan)
        hand = m.handled(h)
        hit = lambda l, ws, pad=0: any(l["t"] < w["to"] and (l["t1"] if l["t1"] is not None else h.b["t"]) >= w["from"] for w in ws)
        # telemetry log
        ll = log_lines(h)
        tail = ll.pop()
        req = [not hit(x[0], cfg["fs"]) for x in hand]
        miss, extra = match_seq(ll, hand, lambda a, x: S.log_matches(a, x[2]), req)
        if miss or extra or tail:
            out.append(("log-differs", "telemetry log: missing %s, unexpected %s, unfinished %r (disk faults %s)" % ([(hand[j][0]["t"], hand[j][2]["log"]) for j in miss[:2]], [ll[j] for j in extra[:2]], tail[:60], cfg["fs"])))
        # announcements
        us = [json.loads(u["data"]) for u in h.udp]
        ex = [x for x in hand if (x[2]["lat"], x[2]["lon"]) != (0.0, 0.0) and x[2]["alt"] is not None]
        req = [not hit(x[0], cfg["udp"]) for x in ex]
        allow = [x for x in hand if (x[2]["lat"], x[2]["lon"]) != (0.0, 0.0)]
        miss, _ = match_seq(us, ex, lambda a, x: key_ll(a["latitude"], a["longitude"]) == key_ll(x[2]["lat"], x[2]["lon"]), req)
        _, extra = match_seq(us, allow, lambda a, x: key_ll(a["latitude"], a["longitude"]) == key_ll(x[2]["lat"], x[2]["lon"]), [0] * len(allow))
        if miss or extra:
            out.append(("udp-differs", "announcements: missing %s, unexpected or out of order %s (socket faults %s)" % ([(ex[j][0]["t"], ex[j][2]["log"]) for j in miss[:2]], [us[j] for j in extra[:2]], cfg["udp"])))
        # uploads
        recs = records(h)
        el = [(x, eligible(x[2], plan["epoch"] + x[0]["t"], plan["epoch"] + handled_until(x[0], h))) for x in hand]
        ex = [x for x, k in el if k is not False]
        miss, extra = match_seq([r[0] for r in recs], ex, lambda a, x: a is not None and a.get("raw") == x[2]["raw"], [k is True for x, k in el if k is not False])
        if miss or extra:
            out.append(("upload-differs", "uploads: missing %s, unexpected or repeated %s" % ([(ex[j][0]["t"], ex[j][2]["log"]) for j in miss[:2]], [(recs[j][0] or {}).get("raw") for j in extra[:2]])))
        # a slow or failing server must not hold up the other sinks
        if not any(f["err"] == "TIMEOUT" for f in cfg["udp"]) and not out:
            due = {}
            for t, it in plan["boots"][0]["items"]:
                if "p" in it:
                    due.setdefault(S.line_of(it["p"]).decode("latin-1").strip(), []).append(t)
            for l, p, e in hand:
                d = due[S.line_of(p).decode("latin-1").strip()].pop(0)
                late = (l["t1"] if l["t1"] is not None else d) - d
                if late > 8:
                    out.append(("sink-delayed", "the packet that arrived at %.2f s was done with only %.1f s later (server windows %s)" % (d, late, cfg["http"]["telemetry"]["windows"])))
                    break
        return out


# ------------------------------------------------------------------------------------------------ P03
def telem(a):
    """a telemetry dictionary as the decoder makes it, for direct use of the uploader class"""
    now = S.sim.SIM.wall()
    return {"time": S.hms(int(now) + a.get("skew", 0)), "callsign": a.get("call", "VK5ABC"), "sequence_number": a["seq"], "latitude": 10 + a["seq"] * 0.001, "longitude": 138.5, "altitude": 1000 + a["seq"],
            "raw": "R%d" % a["seq"], "modulation": "RTTY", "snr": 5.0, "satellites": 5, "temperature": 10, "battery_voltage": 1.5}


def api_uploader(arg):
    """the uploader class used directly, with several producer threads"""
    s = S.sim.SIM
    Up = S.mod("sondehubamateur").SondehubAmateurUploader
    up = Up(**arg["args"])

    def producer(jobs):
        for t, a in jobs:
            if t > s.now:
                time.sleep(t - s.now)
            s.event("add0", a["seq"])
            up.add(telem(a))
            s.event("add1", a["seq"])
    ths = []
    for jobs in arg["producers"]:
        th = threading.Thread(target=producer, args=(jobs,))
        th.start()
        ths.append(th)
    for t, pos in arg.get("positions", []):
        if t > s.now:
            time.sleep(t - s.now)
        up.update_station_position(*pos)
        s.event("position", pos)
    for th in ths:
        th.join()
    if arg["close"] > s.now:
        time.sleep(arg["close"] - s.now)
    s.event("close")
    up.close()
    up.input_process_thread.join()
    s.event("joined")


class P03(PCheck):
    id = "P03"
    rule = "a run counts when packets were accepted while at least one server fault or preemption struck, with a distinct event log"
    quick_runs, thorough_runs = 2200, 120000

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        n = rng.randrange(1, 40)
        end = rng.choice([10, 40, 150])
        seq, prods = 0, []
        for _ in range(rng.choice([1, 1, 2, 3])):
            t, jobs = round(rng.uniform(0, 3), 2), []
            for _ in range(rng.randrange(1, n + 1)):
                t = round(t + rng.choice([0, 0, rng.expovariate(n / end), rng.choice([1, 2, 6.1, 20])]), 2)
                seq += 1
                jobs.append([t, {"seq": seq}])
            prods.append(jobs)
        last = max(j[-1][0] for j in prods)
        cfg = base_cfg(rng, last + 300)
        cfg["p_pre"] = rng.choice([0, 0.05, 0.3, 0.6])
        cfg["http"] = ok_server()
        cfg["http"]["telemetry"]["windows"] = bad_windows(rng, last, 4)
        cfg["http"]["listeners"]["windows"] = bad_windows(rng, last, 2)
        cfg["http"]["telemetry"]["script"] = [behaviour(rng) if rng.random() < 0.6 else {"s": 200, "d": 0.1} for _ in range(rng.choice([0, 3, 10]))]
        arg = {"args": {"upload_rate": rng.choice([1, 2, 2, 5, 30]), "user_callsign": "N0CALL", "user_position": rng.choice([None, [1.0, 2.0, 3.0]])}, "producers": prods, "close": last + rng.choice([0, 1, 100])}
        return {"epoch": ep, "tz": None, "files": {}, "boots": [{"fn": "api_uploader", "arg": arg, "cfg": cfg}]}

    def extra_facts(self, plan):
        return {"packets": sum(len(j) for j in plan["boots"][0]["arg"]["producers"])}

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        out = ended_ok(h, "uploading")
        if out:
            return out
        if h.uncaught:
            return [("uncaught", "a thread died: %s" % (h.uncaught[0],))]
        return upload_rules(plan, h, plan["boots"][0]["cfg"]["http"]["telemetry"], plan["boots"][0]["arg"]["args"]["upload_rate"])


def upload_rules(plan, h, server, rate):
    out = []
    add0, add1, order = {}, {}, []
    for i, e in enumerate(h.ev):
        if e[2] == "add0":
            add0[e[3]] = i
        elif e[2] == "add1":
            add1[e[3]] = (i, e[0])
            order.append(e[3])
    batches = h.batches()
    got = []
    for b in batches:
        try:
            l = json.loads(b["body"])
            seqs = [d["frame"] for d in l]
        except Exception:
            return [("bad-body", "an upload body is not a list of records: %r" % b["body"][:200])]
        b["seqs"] = seqs
        got += seqs
    if len(set(got)) != len(got):
        dup = sorted({x for x in got if got.count(x) > 1})
        return [("duplicate", "packets %s are in more than one upload batch: %s" % (dup[:5], [b["seqs"] for b in batches if set(dup) & set(b["seqs"])][:4]))]
    lost = [s for s in order if s not in got]
    if lost:
        return [("lost", "packets %s were accepted (first at %.2f s) but are in no upload batch" % (lost[:5], add1[lost[0]][1]))]
    for a in range(len(got)):
        for c in range(a + 1, min(a + 60, len(got))):
            if add1[got[c]][0] < add0[got[a]]:
                return [("order", "packet %d was accepted before packet %d but is sent after it" % (got[c], got[a]))]
    for b in batches:
        rs = b["reqs"]
        if len(rs) > 5:
            out.append(("too-many-attempts", "batch %s was sent %d times" % (b["seqs"][:4], len(rs))))
        for r in rs[:-1]:
            if r["res"] not in (500, 501, 502, 503, 504):
                out.append(("re-sent", "batch %s was sent again after the answer %s" % (b["seqs"][:4], r["res"])))
        if rs[-1]["res"] in (500, 501, 502, 503, 504) and len(rs) < 5:
            out.append(("gave-up", "batch %s was given up after %d attempts ending with status %s" % (b["seqs"][:4], len(rs), rs[-1]["res"])))
        if rs[-1]["res"] is None:
            out.append(("unfinished", "batch %s was never answered" % b["seqs"][:4]))
    # recovery
    okfrom = max([w["to"] for w in server.get("windows", [])] + [0])
    k = len(server.get("script", []))
    if k:
        nr = [r for r in h.uploads]
        okfrom = max(okfrom, nr[k - 1]["t1"] if len(nr) >= k else 1e9)
    acked = {}
    for b in batches:
        if b["reqs"][-1]["res"] in (200, 202):
            for s in b["seqs"]:
                acked[s] = b["reqs"][-1]["t"]
    slack = max(0, rate - 2)
    for s in order:
        t = add1[s][1]
        if t >= okfrom and (s not in acked or acked[s] > t + 60 + slack):
            out.append(("not-recovered", "packet %d was accepted at %.1f s, with the server working since %.1f s, and was %s" % (s, t, okfrom, "delivered only at %.1f s" % acked[s] if s in acked else "never delivered")))
            break
    return out[:3]


# ------------------------------------------------------------------------------------------------ P04
class P04(PCheck):
    id = "P04"
    rule = "a run counts when the handler was told to stop (end of input, or an interrupt while waiting, uploading or in mid-line), with a distinct event log"
    quick_runs, thorough_runs = 2000, 80000

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        t, items = round(rng.uniform(0, 4), 2), []
        for _ in range(rng.randrange(0, 14)):
            t = round(t + rng.choice([0, 0, 0.3, rng.expovariate(0.7)]), 3)
            items.append([t, {"p": g.packet(t)} if rng.random() < 0.8 else {"raw": junk_lines(rng).hex()} if rng.random() < 0.5 else {"stat": g.stat()}])
        if rng.random() < 0.03:                 # a pile of packets, as when audio is played from a file
            for _ in range(rng.choice([15, 40, 130, 300])):
                items.append([t, {"p": g.packet(t)}])
        repeats(rng, items, 0.2)
        cfg = base_cfg(rng, t)
        cfg["http"] = ok_server()
        for epn in ("telemetry", "listeners"):
            r = rng.random()
            if r < 0.35:
                cfg["http"][epn]["default"] = behaviour(rng)
            elif r < 0.7:
                cfg["http"][epn]["script"] = [behaviour(rng) for _ in range(rng.randrange(1, 8))]
        cfg["udp"] = udp_faults(rng, t, 1)
        mode = rng.choice(["eof", "eof", "intr", "intr_line"])
        if mode != "eof":
            at = round(rng.uniform(0, t + 5), 2)
            items.append([at + 2000, {"stat": g.stat()}])
            cfg["intr"] = [{"t": at} if mode == "intr" else {"t": at, "n": rng.randrange(1, 400)}]
            if mode == "intr_line":
                items[-1][0] = at + 3000
                cfg["intr"].append({"t": at + 2000})
        cfg["limit"] = 6000
        argv = norm_args(rng, ["--nodownload"] + rng.choice([[], [], [], ["--noupload"], ["--rtty"]]))
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g, rng.choice([None, (1.5, 2.5)])), "names": g.names, "fields": g.fields, "mode": mode,
                "boots": [{"argv": argv, "items": items, "cfg": cfg}]}

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        b = plan["boots"][0]
        if bs[0]["end"] == "crash":
            return ended_ok(h)
        stop = None
        for i, e in enumerate(h.ev):
            if e[2] in ("interrupt", "stdin_eof"):
                stop = i
                break
        if stop is None:
            return [("handler-stopped", "the handler ended before it was told to: %s %s" % (h.main_end, h.uncaught[:1]))]
        ts = h.ev[stop][0]
        what = "end of input" if h.ev[stop][2] == "stdin_eof" else "interrupt (%s)" % h.ev[stop][3]
        out = []
        if bs[0]["end"] != "finished" or bs[0]["t"] > ts + 300:
            ends = {e[3] for e in h.ev if e[2] == "task_end"}
            out.append(("no-end", "%s at %.1f s, but the process %s; main %s; tasks ended: %s" % (what, ts, "ended only at %.1f s" % bs[0]["t"] if bs[0]["end"] == "finished" else "never ended (%s)" % bs[0]["end"], h.main_end, sorted(ends))))
            return out
        if h.main_end[1] not in ("return", "exit 0", "exit None"):
            return [("abnormal-end", "after %s at %.1f s the handler ended with %s %s" % (what, ts, h.main_end, h.uncaught[:1]))]
        if "--noupload" in b["argv"]:
            if h.uploads or h.listeners:
                out.append(("upload-disabled", "uploads are disabled but %d requests were made" % (len(h.uploads) + len(h.listeners))))
            return out
        m = Model(plan)
        if "--rtty" in b["argv"]:
            m.names, m.fields = dict(S.DEFAULT_NAMES), dict(S.DEFAULT_FIELDS)
        hand = m.handled(h)
        must = [x for x in hand if x[0]["i1"] is not None and x[0]["i1"] < stop and eligible(x[2], plan["epoch"] + x[0]["t"], plan["epoch"] + handled_until(x[0], h))]
        may = [x for x in hand if eligible(x[2], plan["epoch"] + x[0]["t"], plan["epoch"] + handled_until(x[0], h)) is not False]
        recs = records(h)
        raws = [r[0].get("raw") if isinstance(r[0], dict) else None for r in recs]
        count = lambda l, r: sum(1 for x in l if x[2]["raw"] == r)
        for x in must:
            if raws.count(x[2]["raw"]) < count(must, x[2]["raw"]):
                out.append(("lost-at-shutdown", "the packet handled at %.2f s (%s) was accepted before the %s at %.2f s, but no upload attempt was made for it" % (x[0]["t"], x[2]["log"], what, ts)))
                break
        al = [x[2]["raw"] for x in may]
        for r in raws:
            if r not in al:
                out.append(("unexpected-upload", "something else was uploaded: %r" % (r,)))
                break
        for r in set(raws):
            if r in al and raws.count(r) > al.count(r):
                out.append(("duplicate", "a packet is in two upload batches: %s" % r))
        return out


# ------------------------------------------------------------------------------------------------ P05
class P05(PCheck):
    id = "P05"
    rule = "a run counts when at least one report period passed in simulated time, with a distinct event log"
    quick_runs, thorough_runs = 350, 20000

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        hours = rng.choice([7, 13, 20, 26]) if tier == "quick" else rng.choice([7, 13, 26, 50, 75])
        end = hours * 3600.0
        seq, jobs, t = 0, [], 0.0
        for _ in range(rng.randrange(0, 12)):
            t = round(rng.choice([t + rng.uniform(0, end / 6), 6 * 3600 * rng.randrange(1, 4) + rng.uniform(-30, 30)]), 2)
            seq += 1
            jobs.append([t, {"seq": seq}])
        jobs.sort(key=lambda j: j[0])
        jobs = [j for j in jobs if j[0] < end]
        pos = rng.choice([None, [-34.9, 138.6, 10.0], [51.5, 0.0, 0.0], [0.0, 6.6, 5.0], [0.0, -78.5, 0.0]])
        ps = sorted([[round(rng.uniform(0, end - 10), 1), [round(rng.uniform(-80, 80), 3), round(rng.uniform(-170, 170), 3), float(rng.randrange(0, 500))]] for _ in range(rng.choice([0, 1, 3, 6]))])
        cfg = base_cfg(rng, end, False)
        cfg["http"] = ok_server()
        win = []
        for k in range(rng.choice([0, 1, 2, 3])):
            a = rng.choice([0, 6 * 3600 * rng.randrange(0, 4) - 20, rng.uniform(0, end)])
            win.append(dict(behaviour(rng), **{"from": a, "to": a + rng.choice([5, 60, 3600, 7 * 3600])}))
        cfg["http"]["listeners"]["windows"] = win
        cfg["http"]["listeners"]["script"] = [behaviour(rng) for _ in range(rng.choice([0, 0, 1, 6]))]
        cfg["http"]["telemetry"]["windows"] = bad_windows(rng, end, 3)
        cfg["limit"] = end + 1000
        arg = {"args": {"upload_rate": rng.choice([2, 2, 10, 30]), "user_callsign": S.callsign(rng), "user_position": pos, "user_radio": "rx %d" % rng.randrange(100), "user_antenna": "ant %d" % rng.randrange(100),
                        "software_name": "horusdemodlib", "software_version": "9.%d" % rng.randrange(10)}, "producers": [jobs], "positions": ps, "close": end}
        if rng.random() < 0.3:              # the whole handler rather than its uploader
            g = S.Gen(rng, ep)
            argv = norm_args(rng, ["--nodownload"] + rng.choice([[], [], [], ["--rtty"], ["--noupload"]]))
            a = dict(arg["args"], user_position=pos and pos[:2] + [0.0], upload_rate=2, software_version=None)
            files = {ROOT + "user.cfg": S.config(a["user_callsign"], *(pos or [0.0, 0.0])[:2], a["user_radio"], a["user_antenna"])}
            if "--freq_target_hz" in argv:
                a["user_radio"] += " (434.200 MHz)"
            items = [[t, {"p": g.packet(t, "rtty")}] for t, _ in jobs] + [[end, {"raw": b"00\n".hex()}]]
            return {"epoch": ep, "tz": None, "files": files, "boots": [{"argv": argv, "items": items, "cfg": cfg}], "want": {"args": a, "producers": [], "positions": [], "off": "--noupload" in argv}}
        return {"epoch": ep, "tz": None, "files": {}, "boots": [{"fn": "api_uploader", "arg": arg, "cfg": cfg}]}

    def extra_facts(self, plan):
        return {"packets": len(plan["boots"][0]["items"]) if "want" in plan else sum(len(j) for j in plan["boots"][0]["arg"]["producers"])}

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        out = ended_ok(h, "uploading")
        if out:
            return out
        arg = plan.get("want") or plan["boots"][0]["arg"]
        a = arg["args"]
        if arg.get("off"):
            return [("upload-disabled", "uploads are disabled, but the station was reported at %.1f s" % h.listeners[0]["t"])] if h.listeners else []
        close = h.lines[-1]["t"] if "want" in plan else next(e[0] for e in h.ev if e[2] == "close")
        slack = 60 + (a["upload_rate"] if a["upload_rate"] > 30 else 0)
        # requests made one after another belong to one report
        goes = []
        for r in h.listeners:
            if goes and r["t"] - goes[-1][-1]["t1"] < 1.0 and goes[-1][-1]["res"] == 500:
                goes[-1].append(r)
            else:
                goes.append([r])
        busy = lambda lo, hi: sum(max(0, min(r["t1"], hi) - max(r["t"], lo)) for r in h.uploads + h.listeners if r["t1"] is not None)
        prev = 0.0
        for n, g in enumerate(goes):
            due = prev if n == 0 else prev + 6 * 3600
            if g[0]["t"] < due - 1:
                out.append(("too-early", "report %d was sent at %.0f s, %.0f s after the previous one (answer %s)" % (n, g[0]["t"], g[0]["t"] - prev, goes[n - 1][-1]["res"])))
            if g[0]["t"] > due + slack + busy(due, g[0]["t"]):
                out.append(("late", "report %d was due at %.0f s and was sent at %.0f s" % (n, due, g[0]["t"])))
            if len(g) > 5:
                out.append(("too-many-attempts", "report %d was tried %d times in one go" % (n, len(g))))
            prev = g[-1]["t1"] if g[-1]["t1"] is not None else g[-1]["t"]
        due = prev if not goes else prev + 6 * 3600
        if close > due + slack + busy(due, close) and a is not None:
            out.append(("missing", "a report was due at %.0f s, and none was sent until the end at %.0f s" % (due, close)))
        for g in goes:
            for r in g:
                try:
                    d = S.strict_json(r["body"])
                except ValueError as e:
                    out.append(("bad-json", "a station report is not valid JSON: %s" % e))
                    continue
                pos = a["user_position"]
                if pos is not None:
                    alt = [p for t, p in arg["positions"] if t < r["t"] - 0.001]
                    amb = [p for t, p in arg["positions"] if g[0]["t"] - 0.001 <= t <= r["t"] + 0.001]
                    want = [alt[-1] if alt else pos] + amb
                    # the body of one go may be prepared once
                    first = [p for t, p in arg["positions"] if t < g[0]["t"] - 0.001]
                    want.append(first[-1] if first else pos)
                else:
                    want = [None]
                if d.get("uploader_position") not in want:
                    out.append(("position", "the report at %.0f s carries position %s, the most recently set one is %s" % (r["t"], d.get("uploader_position"), want[0])))
                for k, v in (("uploader_callsign", a["user_callsign"]), ("uploader_radio", a["user_radio"]), ("uploader_antenna", a["user_antenna"]), ("software_name", a["software_name"]), ("software_version", a["software_version"])):
                    if d.get(k) != v and v is not None:
                        out.append(("content", "the report carries %s %r, the station's is %r" % (k, d.get(k), v)))
        # telemetry continues
        ts = {}
        for i, e in enumerate(h.ev):
            if e[2] == "add1":
                ts[e[3]] = e[0]
        for b in h.batches():
            for d in json.loads(b["body"]) if "want" not in plan else ():
                t = ts.pop(d["frame"], None)
                if t is not None and b["reqs"][0]["t"] > t + 60 + a["upload_rate"] + busy(t, b["reqs"][0]["t"]):
                    out.append(("telemetry-held-up", "packet %s was accepted at %.1f s and sent at %.1f s" % (d["frame"], t, b["reqs"][0]["t"])))
        if ts:
            out.append(("telemetry-lost", "packets %s were never sent" % sorted(ts)[:3]))
        return out[:3]


# ------------------------------------------------------------------------------------------------ P06
class P06(PCheck):
    id = "P06"
    rule = "a run counts when packets inside and outside the three-minute window were handled, with a distinct event log"
    quick_runs, thorough_runs = 2500, 120000

    def gen(self, rng, tier, i):
        y = rng.choice([2023, 2024, 2024, 2025, 2026, 2027, 2028, 2028, 2096, 2100])
        mo, d = rng.choice([(1, 1), (1, 1), (2, 28), (2, 29), (3, 1), (5, 1), (12, 31), (rng.randrange(1, 13), rng.randrange(1, 29))])
        if (mo, d) == (2, 29) and not calendar.isleap(y):
            d = 28
        k = rng.random()
        day = calendar.timegm((y, mo, d, 0, 0, 0))
        if k < 0.6:
            ep = day + rng.randrange(-400, 400)
        elif k < 0.8:
            ep = day + rng.choice([3600, 82800]) + rng.randrange(-400, 400)
        else:
            ep = day + rng.randrange(86400)
        frac = rng.choice([0, 0, 0.25, 0.5, 0.999])
        ep = float(ep) + frac
        g = S.Gen(rng, ep)
        t, items = 5.0, []
        for _ in range(rng.randrange(4, 16)):
            t += rng.choice([0.0, 1.0, 3.0, 20.0, 60.0])
            off = rng.choice([0, 0, 1, -1, 60, -60, 61, 179, -179, 180, -180, 181, -181, 182, -182, 240, -240, 300, 900, -900, 3600, -3600, 3700, 43200, -43199, rng.randrange(-180, 181), rng.randrange(-180, 181), rng.randrange(-43200, 43200)])
            base = math.floor(ep + t)
            v = int(base + off)
            f = rng.choice(["v1", "v2", "v3", "rtty", "v216"])
            p = g.packet(t, f, tod=v % 86400)
            if f == "v216" and v % 2:
                v -= 1
            if f == "v216" and v % 86400 == 0 and rng.random() < 0.5:
                p["bis"] = 43200
            items.append([t, {"p": p, "true": v}])
        cfg = base_cfg(rng, t, False)
        cfg["http"] = ok_server()
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g), "names": g.names, "fields": g.fields, "boots": [{"argv": norm_args(rng, ["--nodownload"]), "items": items, "cfg": cfg}]}

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        out = ended_ok(h)
        if out:
            return out
        m = Model(plan)
        true = {}
        for t, it in plan["boots"][0]["items"]:
            true[(S.line_of(it["p"]).decode().strip())] = it["true"]
        recs = {}
        for r, b, j in records(h):
            if isinstance(r, dict):
                recs.setdefault(r.get("raw"), []).append(r)
        for l, p, e in m.handled(h):
            rx = plan["epoch"] + l["t"]
            v = true[bytes.fromhex(l["hex"]).decode().strip()]
            off = v - rx
            got = recs.get(e["raw"], [])
            at = "receiver clock %s, payload time of day %s (%+.3f s)" % (iso(rx), e["time"], off)
            if abs(off) <= 180:
                if not got:
                    out.append(("not-uploaded", "%s: within three minutes, but not uploaded" % at))
                elif str(got[0].get("datetime"))[:19] != iso(v)[:19]:
                    out.append(("wrong-time", "%s: uploaded as %s, sent at %s" % (at, got[0].get("datetime"), iso(v))))
            elif abs(off) > 181 and got:
                out.append(("uploaded", "%s: more than three minutes apart, but uploaded as %s" % (at, got[0].get("datetime"))))
        return out[:3]


def iso(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime("%Y-%m-%dT%H:%M:%S.%fZ")


# ------------------------------------------------------------------------------------------------ lists that change
FREE_V1 = list(range(125, 250))
FREE_V2 = list(range(1000, 31000))


def new_list(rng, g, old, keep=None):
    """another version of the payload list: some entries renamed, some added, some dropped"""
    names = {}
    for i, n in old["names"].items():
        r = rng.random()
        if r < 0.6 or (keep and i in keep):
            names[i] = n
        elif r < 0.85:
            names[i] = S.callsign(rng, 7)
    for _ in range(rng.randrange(0, 4)):
        i = rng.choice([rng.choice(FREE_V1), rng.choice(FREE_V2)])
        if i not in old["names"]:
            names[i] = S.callsign(rng, 8)
    fields = {}
    common = rng.choice(S.LAYOUTS) if rng.random() < 0.5 else None
    for c in list(old["fields"]) + [n for i, n in names.items() if i >= 256]:
        r = rng.random()
        if r < 0.5 and c in old["fields"]:
            fields[c] = old["fields"][c]
        elif r < 0.8:
            fields[c] = common if common and rng.random() < 0.6 else rng.choice(S.LAYOUTS)
    return {"names": names, "fields": fields}


def ids_text(rng, names):
    """payload list file as the server writes it: comments, blanks, stray lines the parser must skip"""
    t = S.list_text(names)
    if rng.random() < 0.4:
        ls = t.split("\n")
        for _ in range(rng.randrange(1, 4)):
            ls.insert(rng.randrange(1, len(ls)), rng.choice(["", "# comment, with comma", "broken line", "1234", "abc, NAME", "5,6,7", "   "]))
        t = "\n".join(ls)
    return t


def fields_body(rng, fields):
    d = json.loads(S.fields_text(fields))
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 3)):
            d["BAD%d" % rng.randrange(100)] = rng.choice([{"struct": "<9B", "fields": 3, "other_payloads": list(fields)[:2]}, {"struct": "<hh", "fields": [], "other_payloads": list(fields)[-2:]}, {"struct": "<hh", "fields": []}, {"struct": "zz", "fields": []}, {"fields": []}, {"struct": "<9B"}, 5, None, "text", [], {"struct": 7, "fields": []},
                                                        {"struct": "<9B", "fields": [["a", "none"]]}, {"struct": "<9B", "fields": 3}, {"struct": "<hhBHxx", "fields": [["a"], ["b"], ["c"], ["d"]]}])
        ks = list(d)
        rng.shuffle(ks)
        d = {k: d[k] for k in ks}
    return json.dumps(d, indent=rng.choice([None, 1]))


def list_fault(rng, ep):
    """a way in which a list download fails"""
    k = rng.randrange(10)
    if k == 0:
        return {"s": "conn", "d": 0.1}
    if k == 1:
        return {"s": "ctimeout"}
    if k == 2:
        return {"s": "rtimeout"}
    if k == 3:
        return {"s": "lost", "d": 1}
    if k == 4:
        return {"s": "trunc", "d": 0.3}
    if k == 5:
        return {"s": rng.choice([404, 500, 503, 429]), "d": 0.1, "b": rng.choice(["404: Not Found", "<html>error</html>", ""])}
    if k == 6:
        return {"s": 200, "d": 0.1, "b": rng.choice(["", "<html><body>Please log in to the hotel network</body></html>", "\x00\x00", "[]", "null", "Not found",
                                                     "<html><title>Payload list moved</title>\n404, NOT FOUND\n300, ELSEWHERE\n</html>", "PAYLOAD ID LIST\n256, RESERVED\n1, NOBODY\n"])}
    if k == 7:
        return {"s": 200, "d": 0.1, "b": {"hex": bytes(rng.choice([0xff, 0xfe, 0x80, 0x41]) for _ in range(30)).hex()}}
    if k == 8:
        return {"s": "cut"}          # filled in with part of the real text: see fill_cut
    return {"s": rng.choice([301, 403, 502]), "d": 2, "b": "moved"}


def fill_cut(rng, beh, ep, text):
    if beh["s"] != "cut":
        return beh
    if ep == "ids":                  # a cut list keeps its header only when cut later: such a text is a shorter valid list, so cut inside the header
        return {"s": 200, "d": 0.1, "b": text[:rng.randrange(0, 20)]}
    return {"s": 200, "d": 0.1, "b": text[:rng.randrange(20, max(21, len(text.rstrip()) - 1))]}


def lose(files, path, blank):
    if blank is None:
        del files[path]
    else:
        files[path] = blank


class Known:
    """what the station must know about payload lists: names and layouts, and values it may also have"""

    def __init__(self):
        self.names, self.fields = dict(S.DEFAULT_NAMES), dict(S.DEFAULT_FIELDS)

    def copy(self):
        k = Known()
        k.names, k.fields = dict(self.names), dict(self.fields)
        return k

    def update_names(self, n):
        self.names.update({int(a): b for a, b in n.items()})

    def update_fields(self, f):
        self.fields.update(f)


class ListStation(PCheck):
    """common generator: a long run with list versions on the server, faults, and packets of known, future and never-listed payloads"""
    downloads = True

    def station(self, rng, nver, horizon, faulty=0.5, argv=(), cache=True):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        vers = [{"names": dict(g.names), "fields": dict(g.fields)}]
        for _ in range(nver - 1):
            vers.append(new_list(rng, g, vers[-1]))
        return ep, g, vers

    def pkt(self, rng, g, t, ids, fieldsets):
        i = rng.choice(ids)
        f = rng.choice(["v1", "v216"]) if i < 256 else "v2"
        if i < 256 and rng.random() < 0.7:
            f = "v1"
        p = g.packet(t, f, pid=i)
        if f == "v2":
            # bytes that every layout in play can carry (no float surprises)
            b = bytearray(rng.randrange(1, 60) for _ in range(9))
            p["custom"] = bytes(b).hex()
        return p


class P07(ListStation):
    id = "P07"
    rule = "a run counts when eligible and ineligible packets were handled, with a distinct event log"
    quick_runs, thorough_runs = 550, 60000

    def gen(self, rng, tier, i):
        ep, g, vers = self.station(rng, rng.choice([1, 2, 3]), 0)
        dl = rng.random() < 0.6
        t, items, marks = 3.0, [], []
        ids = sorted({x for v in vers for x in v["names"]})
        for k in range(rng.randrange(4, 26)):
            t = round(t + rng.choice([0, 0.2, 3, rng.expovariate(1 / 20)] + ([1900.0, 1000.0] if dl else [])), 2)
            r = rng.random()
            if r < 0.35:
                p = self.pkt(rng, g, t, ids, None)
            elif r < 0.5:
                p = self.pkt(rng, g, t, [249, 248, 32001, 45000, 65535], None)
            elif r < 0.62:
                p = g.packet(t, "v3")
                p["m"]["via"] = rng.choice(["nohub", "unknown", "sondehub"])
            elif r < 0.7:
                p = g.packet(t, "v3")
                p["m"]["altitudeMeters"] = rng.choice([-1000, -1000, -999, 0])
            elif r < 0.85:
                off = rng.choice([-1, 1]) * rng.choice([182, 190, 240, 3600, 7200, 40000])
                p = g.packet(t, tod=int(math.floor(ep + t + off)) % 86400)
            else:
                p = g.packet(t)
                if p["f"] in ("v1", "v2"):
                    p.update(rng.choice([{"lat": "nan"}, {"lon": "nan"}, {"lat": "inf"}, {"lat": 0.0, "lon": 0.0}]))
                elif p["f"] == "rtty":
                    p.update(rng.choice([{"lat": "nan"}, {"lon": "inf"}, {"lat": "-inf"}, {"lat": "1e999"}, {"lat": "0.0", "lon": "0.0"}]))
            items.append([t, {"p": p}])
        cfg = base_cfg(rng, t)
        cfg["http"] = ok_server()
        cfg["http"]["telemetry"]["windows"] = bad_windows(rng, t, 1)
        wi, wf = [], []
        edges = sorted([round(rng.uniform(0, t), 1) for _ in vers[1:]])
        lo = 0
        for v, hi in zip(vers, edges + [1e9]):
            wi.append({"from": lo, "to": hi, "s": 200, "d": 0.2, "b": ids_text(rng, v["names"])})
            wf.append({"from": lo, "to": hi, "s": 200, "d": 0.2, "b": fields_body(rng, v["fields"])})
            lo = hi
        cfg["http"]["ids"]["windows"], cfg["http"]["fields"]["windows"] = wi, wf
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g), "vers": vers, "edges": edges, "boots": [{"argv": norm_args(rng, [] if dl else ["--nodownload"]), "items": items, "cfg": cfg}]}

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        out = ended_ok(h)
        if out:
            return out
        kn = Known()
        v0 = plan["vers"][0]
        if "--nodownload" in plan["boots"][0]["argv"]:
            kn.update_names(v0["names"])
            kn.update_fields(v0["fields"])
        by = packets_by_line(plan)
        li = iter(h.lines)
        recs = [r[0] for r in records(h)]
        if any(not isinstance(r, dict) for r in recs):
            return [("bad-body", "an upload body is not a list of records")]
        raws = {}
        for r in recs:
            raws.setdefault(r.get("raw"), []).append(r)
        seen = set()
        for kind, x in timeline(h, by):
            if kind == "lists":
                apply_download(plan, kn, x)
                continue
            l, p = x
            e = S.expect(p, kn.names, kn.fields)
            d = [abs(tdiff(e["tod"], plan["epoch"] + t)) for t in (l["t"], handled_until(l, h))]
            got = raws.get(e["raw"], [])
            seen.add(e["raw"])
            bad = None
            if not (S.usable(e["lat"]) and S.usable(e["lon"])):
                bad = "its position is not a number"
            elif e["alt"] is None:
                bad = "it has no altitude"
            elif e["callsign"] == UNK:
                bad = "its payload ID is unknown"
            elif e["via"] not in (None, "sondehub"):
                bad = "its sender marked it as not for this network"
            elif min(d) > 181:
                bad = "its clock is %.0f s away" % min(d)
            at = "packet handled at %.2f s (%s %s)" % (l["t"], p["f"], e["log"] if not isinstance(e["log"], dict) else e["callsign"])
            if bad and got:
                out.append(("ineligible-uploaded", "%s was uploaded although %s" % (at, bad)))
            elif not bad and max(d) < 178:
                if not got:
                    out.append(("eligible-not-uploaded", "%s is eligible, and was not uploaded" % at))
                elif got[0].get("payload_callsign") != e["callsign"]:
                    out.append(("wrong-callsign", "%s: the list in force says %s, uploaded as %s" % (at, e["callsign"], got[0].get("payload_callsign"))))
        for r in recs:
            if r.get("raw") not in seen:
                out.append(("unexpected-upload", "something was uploaded that no input line carried: %r" % str(r)[:300]))
        return out[:3]


def packets_by_line(plan):
    by = {}
    for b in plan["boots"]:
        for _, it in b.get("items") or ():
            if "p" in it:
                by[S.line_of(it["p"]).decode("latin-1").strip()] = it["p"]
    return by


def timeline(h, by):
    """merge of handled packet lines and list requests, in the order they take effect: a refresh caused by a line comes before that line's result"""
    out = []
    ls = []
    for l in h.lines:
        try:
            p = by.get(bytes.fromhex(l["hex"]).decode().strip())
        except UnicodeDecodeError:
            p = None
        if p is not None:
            ls.append((l["i"], l["i1"] if l["i1"] is not None else len(h.ev), l, p))
    rq = list(h.lists)
    for i, i1, l, p in ls:
        while rq and rq[0]["i"] < i1:
            out.append(("lists", rq.pop(0)))
        out.append(("line", (l, p)))
    for r in rq:
        out.append(("lists", r))
    return out


def version_at(plan, t):
    return plan["vers"][sum(1 for e in plan["edges"] if e <= t)]


def apply_download(plan, kn, r):
    """a list request that was answered: does it bring a new list?"""
    if r["res"] != 200:
        return False
    st = plan["boots"][0]["cfg"]["http"][r["ep"]]
    w = next((w for w in st["windows"] if w["from"] <= r["t"] < w["to"]), None)
    if w is None or w["s"] != 200 or w.get("bad"):
        return False
    v = version_at(plan, r["t"])
    if r["ep"] == "ids":
        kn.update_names(v["names"])
    else:
        kn.update_fields(v["fields"])
    return True


# ------------------------------------------------------------------------------------------------ P08
class P08(ListStation):
    id = "P08"
    rule = "a run counts when an unknown payload arrived at least twice, with a distinct event log"
    quick_runs, thorough_runs = 260, 60000

    def gen(self, rng, tier, i):
        ep, g, vers = self.station(rng, rng.choice([1, 2, 3, 4]), 0)
        dl = rng.random() < 0.85
        t, items = 2.0, []
        ids = sorted({x for v in vers for x in v["names"]})
        future = sorted({x for v in vers[1:] for x in v["names"]} - set(vers[0]["names"])) or ids
        for k in range(rng.randrange(4, 30)):
            t = round(t + rng.choice([0, 0.5, 5, 60, 300, 1000, 1795, 1798, 1802, 1805, 1830, 3700, rng.uniform(0, 2000)]), 2)
            r = rng.random()
            if r < 0.4:
                p = self.pkt(rng, g, t, ids, None)
            elif r < 0.6:
                p = self.pkt(rng, g, t, future, None)
            elif r < 0.9:
                p = self.pkt(rng, g, t, [249, 248, 32001, 45000, 65535], None)
            else:
                p = g.packet(t, rng.choice(["v3", "rtty"]))
            items.append([t, {"p": p}])
        cfg = base_cfg(rng, t)
        cfg["p_stall"] = 0
        cfg["http"] = ok_server()
        edges = sorted([round(rng.uniform(0, t), 1) for _ in vers[1:]])
        cuts = sorted(set([0.0, 1e9] + edges + [round(rng.uniform(0, t), 1) for _ in range(rng.randrange(0, 6))] + ([1.0] if rng.random() < 0.5 else [])))
        for epn in ("ids", "fields"):
            ws = []
            for lo, hi in zip(cuts, cuts[1:]):
                v = vers[sum(1 for e in edges if e <= lo)]
                text = ids_text(rng, v["names"]) if epn == "ids" else fields_body(rng, v["fields"])
                if rng.random() < 0.4:
                    w = dict(fill_cut(rng, list_fault(rng, epn), epn, text), bad=1)
                else:
                    w = {"s": 200, "d": rng.choice([0.2, 4]), "b": text}
                ws.append(dict(w, **{"from": lo, "to": hi}))
            cfg["http"][epn]["windows"] = ws
        fs = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = rng.choice([0, round(rng.uniform(0, t), 1)])
            fs.append({"ops": rng.choice([["open_w"], ["write"], ["rename", "fsync"], ["open_w", "write"], ["open_r"], ["read"]]), "path": rng.choice(["payload_id_list", "custom_field_list", "list"]), "from": a, "to": a + rng.choice([10, 2000, 1e6]),
                       "err": rng.choice(["ENOSPC", "EACCES", "EROFS", "EIO"])})
        start = rng.choice(["both", "both", "none", "ids", "stale"])
        if dl and rng.random() < 0.2:       # what was learned at start-up could not be stored, and later refreshes fail
            start = "stale"
            edges[:1] = [0.0][:len(edges)]
            t0 = round(rng.uniform(5, t / 2), 1)
            for epn in ("ids", "fields"):
                v = vers[min(1, len(edges))]
                text = ids_text(rng, v["names"]) if epn == "ids" else fields_body(rng, v["fields"])
                cfg["http"][epn]["windows"] = [{"s": 200, "d": 0.2, "b": text, "from": 0.0, "to": t0}, dict(fill_cut(rng, list_fault(rng, epn), epn, text), bad=1, **{"from": t0, "to": 1e9})]
            edges[1:] = [1e9] * len(edges[1:])
            fs = [{"ops": rng.choice([["open_w"], ["write"], ["rename"]]), "path": "list", "from": 0, "to": 1e6, "err": rng.choice(["ENOSPC", "EACCES", "EROFS", "EIO"])}]
            items += [[round(t + 1900 + k, 2), {"p": self.pkt(rng, g, t + 1900 + k, i, None)}] for k, i in enumerate([[45000], ids, ids, ids, ids, ids])]
            cfg["limit"] += 2000
        cfg["fs"] = fs
        files = files_for(g)
        blank = rng.choice([None, None, "", " \n", "\n\n"])       # a file an earlier version left empty is no list
        if start in ("none", "ids"):
            lose(files, FLD, blank)
        if start == "none":
            lose(files, IDS, blank)
        if start == "stale":       # the cache is older than what the server has had for long
            files[IDS] = S.list_text({i: (n if rng.random() < 0.5 else "OLD" + n[:5]) for i, n in vers[0]["names"].items()})
        return {"epoch": ep, "tz": None, "files": files, "vers": vers, "edges": edges, "start": start, "boots": [{"argv": norm_args(rng, [] if dl else ["--nodownload"]), "items": items, "cfg": cfg}]}

    def shrink(self, plan):
        for p in super().shrink(plan):
            yield p

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        out = ended_ok(h)
        if out:
            return out
        if h.main_end[1] != "return":
            return [("handler-stopped", "the handler stopped with %s %s" % (h.main_end, h.uncaught[:1]))]
        nodl = "--nodownload" in plan["boots"][0]["argv"]
        if nodl and h.lists:
            return [("download-disabled", "downloads are disabled but %s was requested at %.1f s" % (h.lists[0]["ep"], h.lists[0]["t"]))]
        by = packets_by_line(plan)
        first = next((e for e in range(len(h.ev)) if h.ev[e][2] == "readline"), len(h.ev))
        cachefail = any("open_r" in f["ops"] or "read" in f["ops"] for f in plan["boots"][0]["cfg"]["fs"])
        # names: id -> set of acceptable callsigns (certain knowledge: one element)
        names = {i: {n} for i, n in S.DEFAULT_NAMES.items()}
        fields = {c: [f] for c, f in S.DEFAULT_FIELDS.items()}
        cache_names = {}
        if plan["files"].get(IDS, "").strip():
            for l in plan["files"][IDS].split("\n"):
                w = l.split(",")
                if len(w) == 2 and w[0].strip().isdigit():
                    cache_names[int(w[0])] = w[1].strip()
        allnames, allfields = {}, {}
        for v in plan["vers"]:
            for i, n in v["names"].items():
                allnames.setdefault(int(i), set()).add(n)
            for c, f in v["fields"].items():
                allfields.setdefault(c, []).append(f)
        for i, n in cache_names.items():
            allnames.setdefault(i, set()).add(n)
        got_ids = got_fld = False

        def learn(ep, v, certain=True):
            if ep == "ids":
                for i, n in v["names"].items():
                    if int(i) not in S.DEFAULT_NAMES:
                        names[int(i)] = {n}
            else:
                for c, f in v["fields"].items():
                    fields[c] = [f]

        startup = [r for r in h.lists if r["i"] < first]
        if nodl:
            if not cachefail and plan["start"] != "none":
                names.update({i: {n} for i, n in cache_names.items()})
            if not cachefail and plan["start"] in ("both", "stale"):
                learn("fields", plan["vers"][0])
        else:
            for r in startup:
                if good(plan, r):
                    learn(r["ep"], version_at(plan, r["t"]))
                elif r["ep"] == "ids" and plan["files"].get(IDS, "").strip() and not cachefail:
                    names.update({i: {n} for i, n in cache_names.items()})
                elif r["ep"] == "fields" and plan["files"].get(FLD, "").strip() and not cachefail:
                    learn("fields", plan["vers"][0])
        maybe = set()           # IDs that the station may or may not know (left in its cache from before)
        for i in allnames:
            if i not in names:
                maybe.add(i) if i in cache_names else None
        log_ = [x for x in log_lines(h) if x]
        k = 0
        lastend = None
        lasttry = None
        for j, l in enumerate(h.lines):
            try:
                p = by.get(bytes.fromhex(l["hex"]).decode().strip())
            except UnicodeDecodeError:
                p = None
            i1 = l["i1"] if l["i1"] is not None else len(h.ev)
            rq = [r for r in h.lists if l["i"] < r["i"] < i1]
            if p is None:
                continue
            pid = p.get("id")
            unknown = pid is not None and pid not in names and pid not in maybe
            at = "%s packet with payload ID %s at %.1f s" % (p["f"], pid, l["t"])
            tries = [r for r in rq if r["ep"] == "ids"]
            if tries:
                if not nodl and not unknown and pid not in maybe:
                    out.append(("needless-refresh", "the lists were downloaded again for a %s, which was known or has no ID" % at))
                if len(tries) > 1 or (lasttry is not None and tries[0]["t"] < lasttry + 1799):
                    out.append(("refresh-too-often", "refreshed at %.1f s and again at %.1f s" % (lasttry if lasttry is not None else tries[0]["t"], tries[-1]["t"])))
                if not [r for r in rq if r["ep"] == "fields"]:
                    out.append(("partial-refresh", "the refresh at %.1f s did not ask for the custom fields" % tries[0]["t"]))
                lasttry = tries[0]["t"]
                lastend = max(r["t1"] for r in rq)
                for r in rq:
                    if good(plan, r):
                        learn(r["ep"], version_at(plan, r["t"]))
                        if r["ep"] == "ids":
                            for i in list(version_at(plan, r["t"])["names"]):
                                maybe.discard(int(i))
                    else:
                        # a failed refresh may bring in names still in the cache on disk
                        if r["ep"] == "ids":
                            maybe.update(i for i in allnames if i not in names)
            elif unknown and not nodl and l["t"] > 1 and (lastend is None or l["t"] > lastend + 1801):
                out.append(("no-refresh", "a %s is unknown and the last refresh was %s, but the lists were not refreshed" % (at, "at %.1f s" % lasttry if lasttry is not None else "at start-up")))
            # the packet's own line in the log
            if k >= len(log_):
                out.append(("packet-lost", "the %s is not in the log" % at))
                break
            text = log_[k]
            k += 1
            if pid is None:
                continue
            call = text[2:].split(",")[0]
            want = set(names[pid]) if pid in names else {UNK} | (allnames.get(pid, set()) if pid in maybe else set())
            if call not in want:
                out.append(("name-lost" if call == UNK else "wrong-name", "the %s was decoded as %s; the station knows it as %s (list requests so far: %s)" % (
                    at, call, sorted(want), [(r["ep"], r["t"], r["res"], "usable" if good(plan, r) else "unusable") for r in h.lists if r["i"] < i1][-6:])))
                break
            if p["f"] == "v2":
                ok = False
                lay = fields.get(call) or ([fields["4FSKTEST-V2"][0]] + (allfields.get(call, []) + [None] if call in allfields else []))
                if call in fields and len(fields[call]) > 1:
                    lay = fields[call]
                for f in lay:
                    if f is None:
                        f = fields["4FSKTEST-V2"][0]
                    if text.split("*")[0].split(",")[10:] == custom_text(f, p["custom"]):
                        ok = True
                if not ok:
                    out.append(("layout-lost", "the %s from %s was decoded with custom fields %s; the layout known for it gives %s" % (at, call, text.split("*")[0].split(",")[10:], [custom_text(f, p["custom"]) for f in lay if f])))
                    break
        return out[:3]


def good(plan, r):
    if r["res"] != 200:
        return False
    st = plan["boots"][0]["cfg"]["http"][r["ep"]]
    w = next((w for w in st.get("windows", ()) if w["from"] <= r["t"] < w["to"]), None)
    return bool(w and w["s"] == 200 and not w.get("bad"))


def custom_text(layout, hexdata):
    st, fl = layout
    out = []
    for (n, k), v in zip(fl, struct.unpack(st, bytes.fromhex(hexdata))):
        if k == "battery_5v_byte":
            out.append("%.2f" % (5.0 * v / 255.0))
        elif k == "divide_by_10":
            out.append("%.1f" % (v / 10.0))
        elif k == "divide_by_100":
            out.append("%.2f" % (v / 100.0))
        elif isinstance(v, float):
            out.append("%.6f" % v)
        else:
            out.append("%d" % v)
    return out


# ------------------------------------------------------------------------------------------------ P09
class P09(ListStation):
    id = "P09"
    rule = "a run counts when a cache was being written when the station stopped or its disk failed, with a distinct event log"
    quick_runs, thorough_runs = 900, 100000

    def gen(self, rng, tier, i):
        ep, g, vers = self.station(rng, 3, 0)
        files = files_for(g)
        first_run = rng.random() < 0.15
        if first_run:
            blank = rng.choice([None, None, "", "\n"])
            lose(files, IDS, blank)
            lose(files, FLD, blank)
        unk = [249, 32001]
        t, items = 3.0, []
        boots = []
        # boot 1: start-up download of version 1, perhaps a refresh to version 2
        refresh = rng.random() < 0.5
        if refresh:
            t = round(rng.uniform(2, 200), 1)
            items.append([t, {"p": self.pkt(rng, g, t, unk, None)}])
        items.append([t + rng.choice([1, 60]), {"stat": g.stat()}])
        cfg = base_cfg(rng, t + 100)
        cfg["http"] = ok_server()
        edge = t - 1 if refresh else 1e6
        big = rng.choice([0, 0, 1])
        for epn in ("ids", "fields"):
            ws = []
            for lo, hi, v in ((0, edge, vers[1]), (edge, 1e9, vers[2])):
                text = ids_text(rng, v["names"]) if epn == "ids" else fields_body(rng, v["fields"])
                if big and epn == "ids":
                    text += "".join("%d, FILLER%d\n" % (i, i) for i in range(40000, 40000 + 900))
                w = {"s": 200, "d": 0.2, "b": text, "from": lo, "to": hi}
                if rng.random() < 0.15:
                    w = dict(fill_cut(rng, rng.choice([{"s": "cut"}, list_fault(rng, epn)]), epn, text), **{"from": lo, "to": hi, "bad": 1})
                ws.append(w)
            cfg["http"][epn]["windows"] = ws
        mode = rng.choice(["crash", "crash", "crash", "line", "fs", "none", "time"])
        power = rng.random() < 0.7
        if mode == "crash":
            # for a first run the files are new, so path-restricted counting is the same
            cfg["kill"] = {"t": rng.choice([0, 0, edge if refresh else 0]), "op": rng.randrange(0, 12), "path": rng.choice(["payload_id_list", "custom_field_list", "list", ""]), "power": power}
        elif mode == "line":
            cfg["kill"] = {"t": rng.choice([0, edge if refresh else 0]), "n": rng.randrange(1, 400), "power": power}
        elif mode == "time":
            cfg["kill"] = {"t": round(rng.uniform(0.1, t + 60), 2), "power": power}
        elif mode == "fs":
            cfg["fs"] = [{"ops": [rng.choice(["open_w", "write", "rename", "fsync", "write", "unlink"])], "path": rng.choice(["payload_id_list", "custom_field_list", "list"]), "skip": rng.choice([0, 0, 1, 2]), "left": rng.choice([1, 2, 100]),
                          "err": rng.choice(["ENOSPC", "EIO", "EDQUOT", "EROFS"]), "partial": rng.choice([0, 0, 1, 100, 4096])} for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.4:
                cfg["kill"] = {"t": round(rng.uniform(0.1, t + 60), 2), "power": power}
        boots.append({"argv": ["--log", "none"], "items": items, "cfg": cfg})
        # boot 2: no network
        ids = sorted({x for v in vers for x in v["names"]})
        t2, it2 = 120.0, []
        for x in ids:
            it2.append([t2, {"p": self.pkt(rng, g, 4000 + t2, [x], None)}])
            t2 += 0.5
        cfg2 = base_cfg(rng, t2, False)
        for epn in ("telemetry", "listeners", "ids", "fields"):
            cfg2["http"][epn] = {"default": {"s": "conn", "d": 0.1}}
        boots.append({"argv": rng.choice([[], [], ["--nodownload"]]), "items": it2, "cfg": cfg2, "at": 4000})
        return {"epoch": ep, "tz": None, "files": files, "vers": vers, "edges": [], "first_run": first_run, "boots": boots}

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h, h2 = S.Hist(bs[0]), S.Hist(bs[1])
        out = []
        if bs[0]["end"] not in ("killed",):
            out = ended_ok(h)
        out = out or ended_ok(h2, "restarted handler")
        if out:
            return out
        if h2.main_end[1] != "return":
            return [("handler-stopped", "after the restart the handler stopped with %s %s" % (h2.main_end, h2.uncaught[:1]))]
        killed = bs[0]["end"] == "killed"
        fsf = plan["boots"][0]["cfg"].get("fs")
        # which versions may be on disk: the last completed update, or the one in progress
        reads = [i for i, e in enumerate(h.ev) if e[2] == "readline"]
        allow = {}
        for epn in ("ids", "fields"):
            ok = ["none"] if plan["first_run"] else [0]
            for r in h.lists:
                if r["ep"] != epn or r["res"] != 200:
                    continue
                ws = plan["boots"][0]["cfg"]["http"][epn]["windows"]
                w = next(w for w in ws if w["from"] <= r["t"] < w["to"])
                if w.get("bad"):
                    continue
                v = 1 + ws.index(w)
                done = any(i > r["i1"] for i in reads) and not (fsf and any(e[2] == "fs_fault" for e in h.ev))
                # 'completed': the handler went on to read input after the download
                ok = [v] if done else ok + [v]
            allow[epn] = ok
        by = packets_by_line({"boots": [plan["boots"][1]]})
        lines = [x for x in log_lines(h2) if x]
        pk = []
        for l in h2.lines:
            p = by.get(bytes.fromhex(l["hex"]).decode().strip())
            if p is not None:
                pk.append(p)
        if len(lines) != len(pk):
            return [("packets-lost", "after the restart %d packets were handled and %d are in the log" % (len(pk), len(lines)))]
        best = None
        for vi in allow["ids"]:
            nm = {**S.DEFAULT_NAMES}
            if vi != "none":
                nm.update({int(a): b for a, b in plan["vers"][vi]["names"].items()})
            d = [(p["id"], t[2:].split(",")[0], nm.get(p["id"], UNK)) for p, t in zip(pk, lines) if t[2:].split(",")[0] != nm.get(p["id"], UNK)]
            if best is None or len(d) < len(best[1]):
                best = (vi, d)
        what = "stopped by %s" % ("power loss" if plan["boots"][0]["cfg"].get("kill", {}).get("power") else "kill") if killed else "disk faults %s" % fsf if fsf else "normal stop"
        if best[1]:
            return [("names-lost", "after %s at %.2f s and a restart without network: payload list is not one of the versions %s: (id, decoded as, should be) %s" % (what, bs[0]["t"], allow["ids"], best[1][:4]))]
        best = None
        for vf in allow["fields"]:
            fl = dict(S.DEFAULT_FIELDS)
            if vf != "none":
                fl.update(plan["vers"][vf]["fields"])
            d = []
            for p, t in zip(pk, lines):
                if p["f"] != "v2":
                    continue
                call = t[2:].split(",")[0]
                want = custom_text(fl.get(call) or fl["4FSKTEST-V2"], p["custom"])
                got = t.split("*")[0].split(",")[10:]
                if got != want:
                    d.append((call, got, want))
            if best is None or len(d) < len(best[1]):
                best = (vf, d)
        if best[1]:
            return [("fields-lost", "after %s at %.2f s and a restart without network: custom fields are not one of the versions %s: (payload, decoded as, should be) %s" % (what, bs[0]["t"], allow["fields"], best[1][:3]))]
        return []
