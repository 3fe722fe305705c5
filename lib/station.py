"""The station software inside the simulator: packet reference, plan helpers, running boots, and reading event logs."""
import binascii, json, math, os, random, struct, sys, time, warnings, zlib
import driver, forkrun
import horusref as R

sys.path.insert(0, os.path.join(driver.VERIF, "psim"))
import sim

U = None
_ASN = None
DEFAULT_NAMES = {0: "4FSKTEST", 1: "HORUSBINARY", 256: "4FSKTEST-V2"}
DEFAULT_FIELDS = {
    "HORUSTEST": ["<BbBfH", [["cutdown_battery_voltage", "battery_5v_byte"], ["external_temperature", "none"], ["test_counter", "none"], ["test_float_field", "none"], ["test_int_field", "none"]]],
    "HORUSTEST2": ["<BbBH4x", [["cutdown_battery_voltage", "battery_5v_byte"], ["external_temperature", "none"], ["test_counter", "none"], ["test_int_field", "none"]]],
    "4FSKTEST-V2": ["<hhBHxx", [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"], ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]],
}


def load():
    """import the code under test once, with the clock and lock seams in place"""
    global U
    if U is not None:
        return
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import requests, dateutil.parser, urllib3     # third-party code sees the real clock classes at import
    sim.install()
    if driver.REPO not in sys.path:
        sys.path.insert(0, driver.REPO)
    import horusdemodlib.uploader
    U = horusdemodlib.uploader
    import logging
    logging.raiseExceptions = False
    for k in ("sondehubamateur", "horusudp", "payloads", "decoder", "demodstats", "delegates", "utils"):
        __import__("horusdemodlib." + k)


def mod(name):
    return sys.modules["horusdemodlib." + name]


def asn():
    global _ASN
    if _ASN is None:
        import asn1tools
        _ASN = asn1tools.compile_files(os.path.join(driver.VERIF, "psim", "HorusBinaryV3.asn1"), codec="uper")
    return _ASN


# ------------------------------------------------------------------------------------------------ packets
def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def fval(x):
    """JSON-able float: numbers, or 'nan' 'inf' '-inf'"""
    return float(x)


def v3tree(d):
    """plan form of a v3 message -> asn1tools form"""
    d = json.loads(json.dumps(d))
    for s in d.get("extraSensors", []):
        if "values" in s:
            k, v = s["values"]
            if k == "horusReal":
                v = [float(x) for x in v]
            s["values"] = (k, v)
    if "customData" in d:
        d["customData"] = bytes.fromhex(d["customData"])
    return d


def packet_bytes(p):
    f = p["f"]
    if f in ("v1", "v2"):
        b = struct.pack("<BH3sffHBBbB" if f == "v1" else "<HH3sffHBBbB", p["id"], p["seq"], bytes(p["t"]), fval(p["lat"]), fval(p["lon"]), p["alt"], p["speed"], p["sats"], p["temp"], p["batt"])
        if f == "v2":
            b += bytes.fromhex(p["custom"])
    elif f == "v216":
        b = struct.pack("<BBH3s3sHBB", p["id"], p["seq"], p["bis"], bytes.fromhex(p["lat3"]), bytes.fromhex(p["lon3"]), p["alt"], p["batt"], p["flags"])
    elif f == "v3":
        body = bytes(asn().encode("Telemetry", v3tree(p["m"])))
        if p.get("pad"):
            body += bytes(max(0, p["pad"] - 2 - len(body)))
        return struct.pack("<H", R.crc16(body)) + body
    return b + struct.pack("<H", R.crc16(b))


def v3_shaped(b):
    """a v1/v2 packet whose start also passes for a v3 checksum (one in 65536): 0 no, 1 yes but its bytes are no v3 encoding, 2 it could be either"""
    if binascii.crc_hqx(b[2:], 0xFFFF) != b[0] | b[1] << 8:
        return 0
    try:
        e = bytes(asn().encode("Telemetry", asn().decode("Telemetry", b[2:], check_constraints=True)))
        return 2 if b[2:] == e.ljust(len(b) - 2, b"\0") else 1
    except Exception:
        return 1


def rtty_text(p):
    t = p["t"]
    ts = ("%02d:%02d:%02d" if p.get("colon", 1) else "%02d%02d%02d") % tuple(t)
    s = ",".join([p["call"], str(p["seq"]), ts, p["lat"], p["lon"], str(p["alt"])] + list(p.get("extra", [])))
    return p.get("head", "") + "$" * p.get("dollars", 2) + s + "*%04X" % R.crc16(s.encode("latin-1", "replace"))


def line_of(p):
    if p["f"] == "rtty":
        return rtty_text(p).encode()
    h = packet_bytes(p).hex()
    return (h.upper() if p.get("upper", 1) else h).encode() + p.get("eol", "").encode()


def usable(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and (isinstance(x, int) or math.isfinite(x))


def delegate(kind, v, names=None):
    if kind == "battery_5v_byte":
        return 5.0 * v / 255.0
    if kind == "divide_by_10":
        return v / 10.0
    if kind == "divide_by_100":
        return v / 100.0
    if kind == "time_hms":
        return "%02d:%02d:%02d" % tuple(v)
    if kind == "time_biseconds":
        return hms(2 * v % 86400)
    if kind == "degree_fixed3":
        return struct.unpack("<i", b"\0" + v)[0] * 1e-7
    if kind == "payload_id":
        return (names or {}).get(v, "UNKNOWN_PAYLOAD_ID")
    return v


def expect(p, names, fields, cache=None):
    """what the packet says: {callsign, seq, time, lat, lon, alt, extra{...}, raw, modulation}"""
    f = p["f"]
    e = {"extra": {}, "via": None}
    if f in ("v1", "v2", "v216"):
        e["callsign"] = names.get(p["id"], "UNKNOWN_PAYLOAD_ID")
        e["seq"] = p["seq"]
        e["alt"] = p["alt"]
        e["raw"] = packet_bytes(p).hex().upper()
        e["modulation"] = "Horus Binary v1" if f == "v1" else "Horus Binary v2"
        e["extra"]["batt"] = 5.0 * p["batt"] / 255.0
        if f == "v216":
            s = p["bis"] * 2
            e["tod"] = s % 86400
            for k in ("lat", "lon"):
                e[k] = struct.unpack("<i", b"\0" + bytes.fromhex(p[k + "3"]))[0] * 1e-7
        else:
            e["tod"] = p["t"][0] * 3600 + p["t"][1] * 60 + p["t"][2]
            e["lat"], e["lon"] = f32(fval(p["lat"])), f32(fval(p["lon"]))
            e["extra"].update(speed=p["speed"], sats=p["sats"], temp=p["temp"])
        if f == "v2":
            st, fl = fields.get(e["callsign"]) or fields["4FSKTEST-V2"]
            vals = struct.unpack(st, bytes.fromhex(p["custom"]))
            for (n, k), v in zip(fl, vals):
                e["extra"][n] = delegate(k, v, names)
        e["log"] = ["$$" + e["callsign"], str(e["seq"]), hms(e["tod"]), "%.5f" % e["lat"], "%.5f" % e["lon"], str(e["alt"])]
    elif f == "rtty":
        e["callsign"], e["seq"], e["alt"] = p["call"], int(p["seq"]), int(p["alt"])
        e["tod"] = p["t"][0] * 3600 + p["t"][1] * 60 + p["t"][2]
        e["lat"], e["lon"] = float(p["lat"]), float(p["lon"])
        e["raw"], e["modulation"] = rtty_text(p), "RTTY"
        e["log"] = "$$" + rtty_text(p).split("$")[-1]
    else:
        m = v3tree(p["m"])
        e["callsign"], e["seq"] = m["payloadCallsign"], m["sequenceNumber"]
        e["tod"] = m["timeOfDaySeconds"] % 86400
        e["lat"], e["lon"] = m["latitude"] / 100000, m["longitude"] / 100000
        e["alt"] = m["altitudeMeters"] if m["altitudeMeters"] != -1000 else None
        e["raw"], e["modulation"] = packet_bytes(p).hex().upper(), "Horus Binary v3"
        e["via"] = m.get("via")
        x = e["extra"]
        for a, b, d in (("gnssSatellitesVisible", "sats", 1), ("velocityHorizontalKilometersPerHour", "speed", 1), ("ascentRateCentimetersPerSecond", "ascent_rate", 100),
                        ("pressurehPa-x10", "ext_pressure", 10), ("humidityPercentage", "ext_humidity", 1), ("gnssPowerSaveState", "gnss_power_save_state", 1)):
            if a in m:
                x[b] = m[a] / d if d > 1 else m[a]
        for a, b in (("internal", "temp"), ("external", "ext_temperature"), ("custom1", "temperature_custom_1"), ("custom2", "temperature_custom_2")):
            if a in m.get("temperatureCelsius-x10", {}):
                x[b] = m["temperatureCelsius-x10"][a] / 10
        for a, v in m.get("milliVolts", {}).items():
            x["batt" if a == "battery" else a + "_voltage"] = v / 1000
        for i, v in enumerate(m.get("counts", [])):
            x["count_%d" % i] = v
        if "customData" in m:
            x["custom_data"] = m["customData"].hex()
        cache = {} if cache is None else cache
        for i, s in enumerate(m.get("extraSensors", [])):
            if "name" in s:
                cache[(e["callsign"], i)] = s["name"]
            n = cache.get((e["callsign"], i), "unknown")
            if "values" in s:
                k, v = s["values"]
                if k in ("horusInt", "horusReal"):
                    for j, y in enumerate(v):
                        x["%s_%d_%d" % (n, i, j)] = y
                elif k == "horusStr":
                    x["%s_%d" % (n, i)] = v
                else:
                    for b, y in v.items():
                        x["%s_%d_%s" % (n, i, b)] = y
        e["log"] = {"payloadCallsign": e["callsign"], "sequenceNumber": e["seq"], "latitude": m["latitude"], "longitude": m["longitude"], "altitudeMeters": m["altitudeMeters"], "timeOfDaySeconds": m["timeOfDaySeconds"]}
    e["time"] = hms(e["tod"])
    return e


def hms(s):
    s %= 86400
    return "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)


def same(a, b, rel=1e-9):
    if isinstance(a, float) or isinstance(b, float):
        if not usable(a) or not usable(b):
            return a == b
        return abs(a - b) <= rel * max(1.0, abs(a), abs(b))
    return a == b


def log_matches(text, e):
    """is this line of the telemetry log the record of this packet?"""
    if isinstance(e["log"], str):
        return text == e["log"]
    if isinstance(e["log"], dict):
        try:
            d = json.loads(text)
        except ValueError:
            return False
        return isinstance(d, dict) and all(d.get(k) == v for k, v in e["log"].items())
    if not text.startswith(",".join(e["log"]) + ","):
        return False
    body, _, crc = text[2:].rpartition("*")
    return (not body.isascii() or crc == "%04X" % R.crc16(body.encode("ascii")))


def upload_diff(d, e):
    """difference between an uploaded record and the packet it should carry; '' when equal.  datetime is judged by the caller"""
    if not isinstance(d, dict):
        return "not an object"
    for k, v in (("payload_callsign", e["callsign"]), ("frame", e["seq"]), ("lat", e["lat"]), ("lon", e["lon"]), ("alt", e["alt"]), ("raw", e["raw"]), ("modulation", e["modulation"])):
        if not same(d.get(k), v):
            return "%s is %r, the packet says %r" % (k, d.get(k), v)
    if str(d.get("datetime"))[11:19] != e["time"]:
        return "datetime %r, the packet says %s" % (d.get("datetime"), e["time"])
    for k, v in e["extra"].items():
        if isinstance(v, float) and not math.isfinite(v):
            continue
        if not same(d.get(k), v) or type(d.get(k)) is bool is not (type(v) is bool):
            return "%s is %r, the packet says %r" % (k, d.get(k), v)
    return ""


def udp_diff(d, e):
    if not isinstance(d, dict):
        return "not an object"
    for k, v in (("type", "PAYLOAD_SUMMARY"), ("callsign", e["callsign"]), ("latitude", e["lat"]), ("longitude", e["lon"]), ("altitude", e["alt"]), ("time", e["time"])):
        if not same(d.get(k), v):
            return "%s is %r, the packet says %r" % (k, d.get(k), v)
    ren = {"batt": "batt_voltage"}
    for k, v in e["extra"].items():
        if k == "temp" or (isinstance(v, float) and not math.isfinite(v)):
            continue
        if not same(d.get(ren.get(k, k)), v):
            return "%s is %r, the packet says %r" % (ren.get(k, k), d.get(ren.get(k, k)), v)
    return ""


# ------------------------------------------------------------------------------------------------ list files
def list_text(names, comments=True):
    return ("# HORUS BINARY PAYLOAD ID LIST\n#\n" if comments else "") + "".join("%d, %s\n" % (int(i), n) for i, n in names.items())


def fields_text(fields):
    d = {"HORUSTEST": {"struct": DEFAULT_FIELDS["HORUSTEST"][0], "fields": DEFAULT_FIELDS["HORUSTEST"][1]}}
    groups = {}
    for c, (s, f) in fields.items():
        groups.setdefault(json.dumps([s, f]), []).append(c)
    for k, cs in groups.items():
        s, f = json.loads(k)
        if len(cs) > 1 and zlib.crc32(cs[0].encode()) % 3:          # as the real list does for payloads with the same layout
            d[cs[0]] = {"struct": s, "fields": f, "other_payloads": cs[1:]}
        else:
            for c in cs:
                d[c] = {"struct": s, "fields": f}
    return json.dumps(d, indent=1)


LAYOUTS = [["<hhBHxx", [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"], ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]],
           ["<hHhHb", [["vert", "divide_by_100"], ["lateral", "divide_by_10"], ["ortho", "none"], ["travel", "none"], ["heading", "none"]]],
           ["<BbBfH", [["cut_batt", "battery_5v_byte"], ["t_ext", "none"], ["ctr", "none"], ["flt", "none"], ["num", "none"]]],
           ["<IxBBBB", [["big", "none"], ["b1", "none"], ["b2", "none"], ["b3", "none"], ["b4", "battery_5v_byte"]]],
           ["<HHHHB", [["cps", "none"], ["cpm", "divide_by_10"], ["dose", "divide_by_100"], ["hv", "none"], ["st", "none"]]],
           ["<9B", [["q%d" % i, "none"] for i in range(9)]],
           ["<hhBHxx", [["\u03b3_rate", "divide_by_100"], ["tempo_\u00e9t\u00e9", "divide_by_10"], ["\u6e7f\u5ea6", "none"], ["plain", "divide_by_10"]]]]
STRICT = [["<3sHI", [["launched", "time_hms"], ["a", "none"], ["b", "none"]]],     # fields which not every value fits
          ["<3s3sBh", [["home_lat", "degree_fixed3"], ["home_lon", "degree_fixed3"], ["rssi", "none"], ["vane", "divide_by_10"]]],
          ["<ffB", [["gs_lat", "degree_float"], ["gs_lon", "degree_float"], ["v2", "battery_5v_byte"]]],
          ["<HHHxxb", [["cutdown", "time_biseconds"], ["relay", "payload_id"], ["dose", "divide_by_100"], ["t9", "none"]]],
          ["<Qb", [["uptime_us", "none"], ["lost", "divide_by_10"]]],
          ["<dB", [["freq", "none"], ["chan", "none"]]],
          [">HhIb", [["be1", "none"], ["be2", "divide_by_100"], ["be3", "divide_by_10"], ["be4", "none"]]]]
CALL = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-"


def callsign(rng, n=None):
    return "".join(rng.choice(CALL) for _ in range(n or rng.randrange(3, 12))).strip("-") or "VK5X"


# ------------------------------------------------------------------------------------------------ generators
class Gen:
    """packets with positions that identify them: every packet of a plan has its own latitude"""

    def __init__(self, rng, epoch):
        self.rng, self.epoch, self.n = rng, epoch, 0
        self.v1ids = rng.sample(range(125, 256), 4)
        self.v2ids = rng.sample(range(1000, 31000), 5)
        self.names = {}
        for i in self.v1ids + self.v2ids:
            c = callsign(rng)
            while c in self.names.values() or "UNKNOWN" in c:
                c = callsign(rng)
            self.names[i] = c
        if rng.random() < 0.12:     # names are text, not necessarily ASCII
            i = rng.choice(self.v1ids + self.v2ids)
            self.names[i] += rng.choice(["\u00dc", "\u00e9\u00df", "\u6c17\u7403", "\U0001f388"])
        self.fields = {}
        for i in self.v2ids[:rng.randrange(0, 4)]:
            self.fields[self.names[i]] = rng.choice(LAYOUTS)
        self.v3calls = [callsign(rng) for _ in range(3)]
        self.calls = [callsign(rng) for _ in range(3)]

    def all_names(self):
        return {**DEFAULT_NAMES, **self.names}

    def all_fields(self):
        return {**DEFAULT_FIELDS, **self.fields}

    def tod(self, t, skew=None):
        """time of day a payload with a clock error of skew seconds sends at simulated time t"""
        skew = self.rng.choice([0, 0, 0, -1, 1, -40, 50, -100, 100]) if skew is None else skew
        return int(math.floor(self.epoch + t + skew)) % 86400

    def latlon(self):
        self.n += 1
        s, r = self.rng.choice([-1, 1]), self.rng.random()
        if r < 0.02:        # on the equator, or the Greenwich meridian
            return 0.0, s * round(10 + self.n * 0.01, 4)
        if r < 0.05:
            return s * round(10 + self.n * 0.01 + self.rng.randrange(90) * 0.0001, 4), 0.0
        return s * round(10 + self.n * 0.01 + self.rng.randrange(90) * 0.0001, 4), round(self.rng.uniform(-179, 179), 4)

    def shaped(self, t):
        """a v1/v2 packet that also has the checksum of a v3 packet, by coincidence"""
        while True:
            p = self.packet(t, self.rng.choice(["v1", "v2"]))
            b, at = packet_bytes(p), 1 if p["f"] == "v1" else 2
            for seq in range(65536):
                c = b[:at] + struct.pack("<H", seq) + b[at + 2:-2]
                c += struct.pack("<H", binascii.crc_hqx(c, 0xFFFF))
                if binascii.crc_hqx(c[2:], 0xFFFF) == c[0] | c[1] << 8 and v3_shaped(c) == 1:
                    p["seq"] = seq
                    return p

    def packet(self, t, f=None, pid=None, tod=None, **kw):
        rng = self.rng
        f = f or rng.choice(["v1", "v2", "v2", "v2", "v3", "v3", "rtty", "v216"])
        tod = self.tod(t) if tod is None else tod
        tm = [tod // 3600, tod // 60 % 60, tod % 60]
        lat, lon = self.latlon()
        alt = rng.choice([rng.randrange(0, 40000)] * 8 + [0, 65535, rng.randrange(40000, 65536)])
        if f in ("v1", "v2"):
            p = {"f": f, "id": pid if pid is not None else rng.choice(self.v1ids if f == "v1" else self.v2ids), "seq": rng.randrange(65536), "t": tm, "lat": lat, "lon": lon, "alt": alt,
                 "speed": rng.randrange(256), "sats": rng.choice([rng.randrange(20), rng.randrange(256)]), "temp": rng.choice([rng.randrange(-60, 60), rng.randrange(-128, 128), -128, 127]), "batt": rng.randrange(256)}
            if f == "v2":
                p["custom"] = self.custom(p["id"])
        elif f == "v216":
            p = {"f": f, "id": pid if pid is not None else rng.choice(self.v1ids), "seq": rng.randrange(256), "bis": tod // 2, "alt": alt, "batt": rng.randrange(256), "flags": rng.randrange(256)}
            for k, v in (("lat3", lat), ("lon3", lon)):
                p[k] = struct.pack("<i", int(v * 1e7))[1:].hex()
        elif f == "rtty":
            p = {"f": f, "call": rng.choice(self.calls), "seq": rng.randrange(100000), "t": tm, "lat": "%.5f" % lat, "lon": "%.5f" % lon, "alt": alt, "colon": rng.choice([1, 1, 0]), "head": rng.choice([""] * 9 + ["$$A*1234$1*", "$$~x", "$$,", "$$CALL,1,2*FFFF"]),
                 "dollars": rng.choice([2, 2, 3, 5]), "extra": self.rtty_extra()}
        else:
            m = {"payloadCallsign": rng.choice(self.v3calls), "sequenceNumber": rng.randrange(65536), "timeOfDaySeconds": tod, "latitude": int(round(lat * 1e5)), "longitude": int(round(lon * 1e5)),
                 "altitudeMeters": min(50000, rng.choice([alt, alt, rng.randrange(-999, 0)]))}
            if rng.random() < 0.6:
                for k, lo, hi in (("velocityHorizontalKilometersPerHour", 0, 512), ("gnssSatellitesVisible", 0, 31), ("ascentRateCentimetersPerSecond", -32767, 32767), ("pressurehPa-x10", 0, 12000),
                                  ("humidityPercentage", 0, 100)):
                    if rng.random() < 0.5:
                        m[k] = rng.choice([lo, hi, rng.randrange(lo, hi + 1)])
                if rng.random() < 0.5:
                    m["temperatureCelsius-x10"] = {k: rng.randrange(-1023, 1024) for k in ("internal", "external", "custom1", "custom2") if rng.random() < 0.6}
                if rng.random() < 0.5:
                    m["milliVolts"] = {k: rng.randrange(0, 16384) for k in ("battery", "solar", "custom1", "custom2") if rng.random() < 0.6}
                if rng.random() < 0.3:
                    m["counts"] = [rng.choice([0, 1, -5, 70000, 2 ** 31, 2 ** 40]) for _ in range(rng.randrange(1, 5))]
                if rng.random() < 0.3:
                    m["gnssPowerSaveState"] = rng.choice(["psmNotActive", "tracking", "inactive"])
                if rng.random() < 0.2:
                    m["customData"] = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12))).hex()
            if rng.random() < 0.3:
                m["via"] = "sondehub"
            p = {"f": f, "m": m}
        p.update(kw)
        if f in ("v1", "v2", "v216"):
            while v3_shaped(packet_bytes(p)) == 2:          # not decidable by anyone
                p["seq"] = (p["seq"] + 1) % (256 if f == "v216" else 65536)
        return p

    def rtty_extra(self):
        """further fields of an RTTY sentence: whatever the payload cares to send"""
        rng = self.rng
        word = lambda: rng.choice([str(rng.randrange(1000)), "%.2f" % rng.uniform(-99, 99), "", "-12.5C", "HELLO WORLD", "".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .:;/+-_()=") for _ in range(rng.randrange(1, 14)))])
        return [word() for _ in range(rng.choice([0, 1, 2, 3, 3, 6, 9]))]

    def custom(self, pid):
        rng = self.rng
        st = (self.fields.get(self.names.get(pid)) or DEFAULT_FIELDS["4FSKTEST-V2"])[0]
        lay = self.fields.get(self.names.get(pid))
        if lay in STRICT:
            return struct.pack(st, *[self.strict_value(n, k, st) for n, k in lay[1]]).hex()
        if "f" in st:
            return struct.pack("<BbBfH", rng.randrange(256), rng.randrange(-128, 128), rng.randrange(256), round(rng.uniform(-1000, 1000), 2), rng.randrange(65536)).hex()
        return bytes(rng.randrange(256) for _ in range(9)).hex()

    def strict_layouts(self):
        """some payloads with layouts of which not every nine bytes are an instance"""
        for i in self.rng.sample(self.v2ids, self.rng.randrange(0, 3)):
            self.fields[self.names[i]] = self.rng.choice(STRICT)

    def strict_value(self, n, k, st):
        rng = self.rng
        if k == "time_hms":
            return bytes([rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)])])
        if k == "degree_fixed3":
            v = rng.choice([0, -1, 1, -65536, 7031250, -7031250, rng.randrange(-7031250, 7031251)])
            return struct.pack("<i", v)[:3]
        if k == "degree_float":
            return rng.choice([0.0, 180.0, -180.0, rng.uniform(-180, 180)])
        if k == "time_biseconds":
            return rng.choice([0, 1, 43199, 43200, rng.randrange(43200)])
        if k == "payload_id":
            return rng.choice(sorted(self.names)) if rng.random() < 0.7 else rng.randrange(31000, 65536)
        if n == "freq":
            return rng.choice([0.0, 434.2, -1e300, 2.0 ** 60 + 1, rng.uniform(-1e9, 1e9)])
        w = {"a": (16, 0), "b": (32, 0), "rssi": (8, 0), "vane": (16, 1), "v2": (8, 0), "dose": (16, 0), "t9": (8, 1), "uptime_us": (64, 0), "lost": (8, 1), "chan": (8, 0), "be1": (16, 0), "be2": (16, 1), "be3": (32, 0), "be4": (8, 1)}[n]
        lo, hi = (-(1 << w[0] - 1), (1 << w[0] - 1) - 1) if w[1] else (0, (1 << w[0]) - 1)
        return rng.choice([lo, hi, rng.randrange(lo, hi + 1), rng.randrange(lo, hi + 1)])

    def stat(self):
        rng = self.rng
        f1 = round(rng.uniform(500, 2000), 1)
        sp = rng.choice([100, 170, 270, 270.5, 425])
        d = {"EbNodB": round(rng.uniform(-5, 30), 3), "ppm": rng.randrange(-200, 200), "f1_est": f1, "f2_est": f1 + sp}
        if rng.random() < 0.7:
            d["f3_est"] = f1 + 2 * sp
            d["f4_est"] = f1 + 3 * sp
        d["samp_fft"] = [round(rng.random(), 2) for _ in range(3)]
        return d


CFG = """[user]
callsign = %s
station_lat = %s
station_lon = %s
radio_comment = %s
antenna_comment = %s
[horus_udp]
summary_port = %d
ozimux_port = 55683
"""


def config(call="TESTCALL", lat=0.0, lon=0.0, radio="radio", ant="antenna", port=55672):
    return CFG % (call, lat, lon, radio, ant, port)


def stdin_of(items):
    """[[t, item]] -> [[t, hex]]; an item is {'p': packet} {'raw': hex} {'stat': dict or text}"""
    out = []
    for t, it in items:
        out.append([t, line_bytes(it).hex()])
    return out


def stat_text(it):
    s = it["stat"] if isinstance(it["stat"], str) else json.dumps(it["stat"])
    if "eye" in it:
        # as the decoder prints it, with whatever printf makes of a NaN
        s = s[:-1] + ',\t"eye_diagram":[[' + it["eye"] + "]]}"
    return s


def line_bytes(it):
    if "p" in it:
        return line_of(it["p"]) + b"\n"
    if "stat" in it:
        return stat_text(it).encode() + b"\n"
    return bytes.fromhex(it["raw"])


# ------------------------------------------------------------------------------------------------ running
def _main(argv):
    sys.argv = ["uploader"] + argv
    U.main()


def _run(cfg, files, argv, tz):
    if tz:
        os.environ["TZ"] = tz
        time.tzset()
    r = sim.boot(cfg, files, lambda: _main(argv), os.path.join(driver.REPO, "horusdemodlib"))
    return r


def _run_fn(cfg, files, modname, fname, arg, tz):
    if tz:
        os.environ["TZ"] = tz
        time.tzset()
    fn = getattr(sys.modules[modname], fname)
    return sim.boot(cfg, files, lambda: fn(arg), os.path.join(driver.REPO, "horusdemodlib"))


def boot(cfg, files, argv=None, fn=None, tz=None, timeout=120):
    """-> result dict of sim.boot, or {'crash': text}"""
    load()
    asn()
    if fn is None:
        st, v = forkrun.call(_run, cfg, files, argv, tz, timeout=timeout)
    else:
        st, v = forkrun.call(_run_fn, cfg, files, fn[0], fn[1], fn[2], tz, timeout=timeout)
    if st != "ok":
        return {"crash": "%s %s" % (st, v), "ev": [], "end": "crash", "t": 0, "files": files, "open_files": [], "socks": 0, "counts": {}, "steps": 0, "switches": 0, "fsops": 0}
    return v


def canon(boots):
    """canonical event log: one line per event"""
    out = []
    for i, b in enumerate(boots):
        out.append(json.dumps(["boot", i, b["end"], b["t"], b.get("crash"), b["files"], b["open_files"], b["socks"]]))
        for e in b["ev"]:
            out.append(json.dumps(e))
    return "\n".join(out)


def read_log(log):
    boots = []
    for l in log.split("\n"):
        e = json.loads(l)
        if e and e[0] == "boot":
            boots.append({"end": e[2], "t": e[3], "crash": e[4], "files": {k: bytes.fromhex(v) for k, v in e[5].items()}, "open_files": e[6], "socks": e[7], "ev": []})
        else:
            boots[-1]["ev"].append(e)
    return boots


def facts_of(boots, **kw):
    f = {}
    for b in boots:
        for k, v in b["counts"].items():
            f[k] = f.get(k, 0) + v
        f["sim_s"] = f.get("sim_s", 0) + b["t"]
        f["source_line_steps"] = f.get("source_line_steps", 0) + b["steps"]
        f["task_switches"] = f.get("task_switches", 0) + b["switches"]
        f["disk_ops"] = f.get("disk_ops", 0) + b["fsops"]
        f["events"] = f.get("events", 0) + len(b["ev"])
    f["boots"] = len(boots)
    f.update(kw)
    return f


# ------------------------------------------------------------------------------------------------ reading histories
class Hist:
    """one boot's history"""

    def __init__(self, b):
        self.b, self.ev = b, b["ev"]
        self.lines, self.uploads, self.listeners, self.lists, self.udp, self.vis = [], [], [], [], [], []
        req = {}
        self.eof = self.intr = None
        self.uncaught = []
        self.main_end = None
        last = None
        for i, e in enumerate(self.ev):
            t, task, k = e[0], e[1], e[2]
            if k == "line":
                last = {"t": t, "i": i, "hex": e[3], "t1": None, "i1": None}
                self.lines.append(last)
            elif k == "readline":
                if last and last["t1"] is None:
                    last["t1"], last["i1"] = t, i
            elif k == "stdin_eof":
                self.eof = t if self.eof is None else self.eof
            elif k == "interrupt":
                self.intr = t
            elif k == "http_req":
                r = {"n": e[3], "t": t, "i": i, "ep": e[4], "method": e[5], "body": e[6], "res": None, "t1": None, "task": task}
                req[e[3]] = r
                {"telemetry": self.uploads, "listeners": self.listeners}.get(e[4], self.lists).append(r)
            elif k == "http_res":
                req[e[3]]["res"], req[e[3]]["t1"], req[e[3]]["i1"] = e[4], t, i
            elif k == "udp_sent":
                self.udp.append({"t": t, "i": i, "to": e[3], "port": e[4], "data": bytes.fromhex(e[5])})
            elif k == "uncaught":
                self.uncaught.append((t, task, e[3], e[4], e[5]))
            elif k == "task_end" and e[3] == "main":
                self.main_end = (t, e[4])
            elif k == "vis":
                self.vis.append((t, i, e[3], e[4]))

    def batches(self, retries_only=False):
        """consecutive identical upload requests -> [{body, reqs}]; retries_only: only where the answer before was one of those
        which are retried (two packets with the same contents read at the same instant make the same body, too)"""
        out = []
        for r in self.uploads:
            if out and out[-1]["body"] == r["body"] and not (retries_only and out[-1]["reqs"][-1]["res"] not in (500, 501, 502, 503, 504)):
                out[-1]["reqs"].append(r)
            else:
                out.append({"body": r["body"], "reqs": [r]})
        return out

    def count(self, op, lo, hi):
        return [e for e in self.ev[lo:hi] if e[2] == op]


def strict_json(s):
    def bad(x):
        raise ValueError("non-standard constant " + x)
    return json.loads(s, parse_constant=bad)
