"""P10-P15: statistics window, sensor names, UDP announcements, end to end, telemetry log, JSON validity."""
import json, math, os, random, re, runpy, shutil, struct, subprocess, sys, tempfile, threading, time
import build, driver, forkrun
import horusref as R
import mchecks as C
import msimlib as MS
import station as S
import pchecks as B
from driver import HarnessError, list_shrinks
from pchecks import PCheck, Model, base_cfg, ok_server, epoch, files_for, norm_args, udp_faults, junk_lines, bad_stat, raw_bad_stat, ended_ok, eligible, handled_until, records, log_lines, match_seq, repeats, key_ll, bad_windows, tdiff, ROOT, LOG, IDS, FLD, TZS, UNK


# ------------------------------------------------------------------------------------------------ P10
def api_stats(arg):
    """FSKDemodStats used directly"""
    s = S.sim.SIM
    st = S.mod("demodstats").FSKDemodStats(averaging_time=arg["avg"], peak_hold=arg["peak"], decoder_id="x")
    s.event("stats", st.snr, st.ppm, st.fest_spacing, st.fest_mean)
    for t, it in arg["reports"]:
        if t > s.now:
            time.sleep(t - s.now)
        x = it.get("stat")
        if x is None:
            x = bytes.fromhex(it["raw"]).decode("utf-8", "replace").rstrip()
        elif it.get("text"):
            x = S.stat_text(it)
        s.event("report")
        st.update(x)
        s.event("stats", st.snr, st.ppm, st.fest_spacing, st.fest_mean)


def cli_stats(arg):
    """python -m horusdemodlib.demodstats"""
    sys.argv = ["demodstats"] + arg["argv"]
    g = S.sim.R["open"]
    path = os.path.join(driver.REPO, "horusdemodlib", "demodstats.py")
    with g(path) as f:
        code = compile(f.read(), path, "exec")
    exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})


def spacing(d):
    f = fests(d)
    return (f[-1] - f[0]) / (len(f) - 1)


def fests(d):
    f = [d["f1_est"], d["f2_est"]]
    if "f3_est" in d:
        f += [d["f3_est"], d["f4_est"]]
    return f


class Window:
    """reports seen so far -> the statistics that may be attached.  Reports stamped after the present clock (the clock
    went back) are out of the window; whether a report that was once out of the window comes back when a clock step
    puts it inside again is left open"""

    def __init__(self, avg, peak):
        self.avg, self.peak = avg, peak
        self.seen, self.kept, self.inside = [], [], {-1e-4: [], 1e-4: []}
        self.last = None

    def add(self, now, d):
        self.seen.append((now, d))
        self.kept = [x for x in self.kept if x[0] <= now] + [(now, d)]
        for eps in self.inside:
            self.inside[eps] = [x for x in self.inside[eps] if now - self.avg + eps < x[0] <= now] + [(now, d)]
        self.now, self.last = now, d

    def sets(self):
        if self.last is None:
            return []
        out = [[d for t, d in self.inside[eps]] for eps in self.inside]
        for src in (self.kept, self.seen):
            for eps in (-1e-4, 1e-4):
                out.append([d for t, d in src if self.now - self.avg + eps < t <= self.now + 1e-6])
        return out

    def values(self):
        """[(snr, ppm, spacing)]"""
        r = []
        for w in self.sets():
            sn = [d["EbNodB"] for d in w]
            r.append((max(sn) if self.peak else sum(sn) / len(sn), sum(d["ppm"] for d in w) / len(w), sum(spacing(d) for d in w) / len(w)))
        return r


def close(a, b, tol=1e-6):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= tol * max(1, abs(a), abs(b))


class P10(PCheck):
    id = "P10"
    rule = "a run counts when a packet or reading followed at least one report, with a distinct event log"
    quick_runs, thorough_runs = 2500, 100000

    def clock(self, rng, end):
        out = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            out.append([round(rng.uniform(0, end), 3), rng.choice([-0.7, 0.9, -1.5, 2.5, -3.3, 3.7, -5, 8, -60, 60, -100, 110, -3600.5, 3600.5])])
        return out

    def report(self, rng, g):
        """(item, valid)"""
        if rng.random() < 0.25:
            k = rng.randrange(4)
            if k == 0:
                return {"raw": junk_lines(rng).hex(), "bad": 1}
            if k == 1:
                return {"raw": (raw_bad_stat(rng) + "\n").encode().hex(), "bad": 1}
            return {"raw": (json.dumps(bad_stat(rng)) + "\n").encode().hex(), "bad": 1}
        d = g.stat()
        if rng.random() < 0.3:
            d["EbNodB"] = rng.choice([-99.0, 0, -3.25, 31, 12.125, 5])
        if rng.random() < 0.2:
            return {"stat": d, "text": 1, "eye": rng.choice(["0.1 ,0.2 ", "nan ,nan ", "-nan ,-nan ", "0.5 ,-nan ,nan ", "1.0 ],[-nan "])}
        return {"stat": d}

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        mode = rng.choice(["main", "main", "main", "api", "api", "cli"])
        t, items = 2.0, []
        dt = rng.choice([0.1, 0.4, 1.0, 3.0])
        for _ in range(rng.randrange(3, 50)):
            t = round(t + rng.choice([0, rng.expovariate(1 / dt), dt, dt, rng.choice([1, 3.9, 4.1, 9])]), 3)
            if rng.random() < 0.75 or mode != "main":
                items.append([t, self.report(rng, g)])
            else:
                items.append([t, {"p": g.packet(t)}])
        plan = {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g), "names": g.names, "fields": g.fields, "mode": mode}
        cfg = base_cfg(rng, t)
        cfg["p_stall"] = 0
        cfg["http"] = ok_server()
        cfg["clock"] = self.clock(rng, t)
        if mode == "main":
            items.append([round(t + 0.5, 3), {"p": g.packet(t)}])
            # payload clocks follow the receiver clock, so that uploads are eligible after steps
            for tt, it in items:
                if "p" in it:
                    off = sum(d for c, d in cfg["clock"] if tt >= c)
                    self.settime(it["p"], int(ep + tt + off) % 86400)
            argv = norm_args(rng, ["--nodownload"])
            if "--freq_hz" not in argv and rng.random() < 0.6:
                argv += ["--freq_hz", "434200000"]
            plan["boots"] = [{"argv": argv, "items": items, "cfg": cfg}]
        elif mode == "api":
            for _, it in items:
                if "stat" in it and rng.random() < 0.5:
                    it["text"] = 1
            plan["boots"] = [{"fn": "api_stats", "arg": {"avg": rng.choice([4.0, 4.0, 0.5, 1.0, 10.0, 30]), "peak": rng.choice([True, False]), "reports": items}, "cfg": cfg}]
        else:
            rate = rng.choice([1, 1, 2, 5])
            plan["boots"] = [{"fn": "cli_stats", "arg": {"argv": ["-r", str(rate)], "rate": rate}, "items": [x for x in items if "raw" not in x[1] or bytes.fromhex(x[1]["raw"]).isascii()], "cfg": cfg}]
        return plan

    def settime(self, p, tod):
        tm = [tod // 3600, tod // 60 % 60, tod % 60]
        if p["f"] == "v216":
            p["bis"] = tod // 2
        elif p["f"] == "v3":
            p["m"]["timeOfDaySeconds"] = tod
        else:
            p["t"] = tm

    def execute(self, plan):
        # boots of this module
        files = {p: t.encode("utf-8").hex() for p, t in plan["files"].items()}
        b = plan["boots"][0]
        cfg = dict(b["cfg"], epoch=plan["epoch"])
        if b.get("items") is not None:
            cfg["stdin"] = S.stdin_of(b["items"])
        r = S.boot(cfg, files, argv=b.get("argv"), fn=(__name__, b["fn"], b["arg"]) if "fn" in b else None, tz=plan.get("tz"))
        f = S.facts_of([r], **self.extra_facts(plan))
        f["fault_clock_step"] = len(cfg.get("clock", ()))
        f["reports"] = sum(1 for _, it in (b.get("items") or b["arg"].get("reports", ())) if "stat" in it)
        f["mode_" + plan["mode"]] = 1
        return S.canon([r]), f

    def judge(self, plan, log, facts):
        h = S.Hist(S.read_log(log)[0])
        out = ended_ok(h, plan["mode"])
        if out:
            return out
        if h.main_end[1] != "return":
            return [("stopped", "the %s stopped with %s %s" % (plan["mode"], h.main_end, h.uncaught[:1]))]
        return getattr(self, "judge_" + plan["mode"])(plan, h)

    def wall(self, plan, t):
        return plan["epoch"] + t + sum(d for c, d in plan["boots"][0]["cfg"]["clock"] if t >= c)

    def judge_api(self, plan, h):
        a = plan["boots"][0]["arg"]
        w = Window(a["avg"], a["peak"])
        ev = [e for e in h.ev if e[2] in ("report", "stats")]
        prev = ev[0][3:]
        k = 0
        for e in ev[1:]:
            if e[2] == "report":
                it = a["reports"][k][1]
                k += 1
                if not it.get("bad"):
                    w.add(self.wall(plan, e[0]), it["stat"])
                continue
            v = e[3:]
            if it.get("bad"):
                if v != prev:
                    return [("bad-report-counts", "report %d (%r) is not usable, but changed the statistics from %s to %s" % (k - 1, it, prev, v))]
            else:
                f = fests(it["stat"])
                opts = w.values()
                if not any(close(v[0], o[0]) and close(v[1], o[1]) and close(v[2], o[2]) for o in opts):
                    return [("wrong-window", "after report %d at %.3f s the SNR, ppm and spacing are %s; the reports of the last %s s give %s" % (k - 1, e[0], v[:3], a["avg"], opts[0]))]
                if not close(v[3], sum(f) / len(f)):
                    return [("wrong-frequency", "after report %d the mean frequency is %s, the report says %s" % (k - 1, v[3], f))]
            prev = v
        return []

    def judge_main(self, plan, h):
        b = plan["boots"][0]
        fq = float(b["argv"][b["argv"].index("--freq_hz") + 1]) if "--freq_hz" in b["argv"] else None
        m = Model(plan)
        up = {}
        for r in records(h):
            if isinstance(r[0], dict):
                up.setdefault(r[0].get("raw"), r[0])
        us = {}
        for u in h.udp:
            d = json.loads(u["data"])
            us.setdefault(key_ll(d["latitude"], d["longitude"]), d)
        stat = {}
        for _, it in b["items"]:
            if "stat" in it:
                stat.setdefault(S.line_bytes(it).strip().decode(), it["stat"])
        w = Window(4.0, True)
        for l in h.lines:
            try:
                txt = bytes.fromhex(l["hex"]).decode().strip()
            except UnicodeDecodeError:
                continue
            p = m.packet(l["hex"])
            if txt in stat:
                w.add(self.wall(plan, l["t"]), stat[txt])
            elif p is not None:
                e = S.expect(p, m.names, m.fields, {})
                vals = w.values()
                d = us.get(key_ll(e["lat"], e["lon"]))
                u = up.get(e["raw"])
                if d is None:
                    return [("no-announcement", "the packet at %.3f s was not announced" % l["t"])]
                if u is None and eligible(e, self.wall(plan, l["t"]), self.wall(plan, handled_until(l, h))):
                    return [("not-uploaded", "the packet at %.3f s was not uploaded" % l["t"])]
                why = self.attached(d, vals, w, fq, True) or (u and self.attached(u, vals, w, fq, False))
                if why:
                    return [("wrong-statistics", "packet at %.3f s (clock %.3f): %s; reports of the last 4 s: %s" % (l["t"], self.wall(plan, l["t"]), why, [(round(x["EbNodB"], 3), x["f1_est"]) for x in (w.sets() or [[]])[0]]))]
        return []

    def attached(self, d, vals, w, fq, udp):
        name = "announcement" if udp else "upload"
        snr = d.get("snr")
        if not vals:
            if (udp and snr is not None and snr > -100) or (not udp and "snr" in d):
                return "%s carries SNR %s before any report" % (name, snr)
            return None
        if not any(close(snr, v[0]) if v[0] > -100 or udp else True for v in vals):
            return "%s SNR is %s, expected %s" % (name, snr, vals[0][0])
        if fq is not None:
            f = fests(w.last)
            want = (int(sum(f) / len(f)) + int(fq)) / 1e6
            if not isinstance(d.get("frequency"), float) or abs(d["frequency"] - want) > 1.5e-6:
                return "%s frequency is %s, the latest report gives %s" % (name, d.get("frequency"), want)
        if not udp and not any(isinstance(d.get("tone_spacing"), (int, float)) and abs(d["tone_spacing"] - v[2]) < 1.01 for v in vals):
            return "tone spacing is %s, expected %s" % (d.get("tone_spacing"), vals[0][2])
        return None

    def judge_cli(self, plan, h):
        """the relay: every message carries the statistics of the reports read in the last period"""
        b = plan["boots"][0]
        rate = b["arg"]["rate"]
        w = Window(1.0 / rate, True)
        stat = {}
        for _, it in b["items"]:
            if "stat" in it:
                stat.setdefault(S.line_bytes(it).strip().decode(), it["stat"])
        nsent = 0
        last = None
        for e in h.ev:
            if e[2] == "line":
                txt = bytes.fromhex(e[3]).decode("latin-1").strip()
                if txt in stat:
                    w.add(self.wall(plan, e[0]), stat[txt])
            elif e[2] == "udp_sent":
                d = S.strict_json(bytes.fromhex(e[5]))
                vals = w.values()
                nsent += 1
                if d.get("type") != "MODEM_STATS":
                    return [("bad-message", "the relay sent %s" % d)]
                if not vals:
                    if d["snr"] > -100:
                        return [("wrong-relay", "SNR %s before any report" % d["snr"])]
                    continue
                f = fests(w.last)
                if not any(close(d["snr"], v[0]) and close(d["ppm"], v[1]) for v in vals) or d["fest"] != f or d["fft"] != w.last["samp_fft"]:
                    return [("wrong-relay", "the relay sent %s; the reports of the last %.2f s give %s and tones %s" % (d, 1.0 / rate, vals[0], f))]
        return []


# ------------------------------------------------------------------------------------------------ P11
NAMES = ["a", "hbk8359", "crm114", "rad-1", "0", "-", "x" * 20, "wind", "a-b-c-1"]


class P11(PCheck):
    id = "P11"
    rule = "a run counts when an unnamed sensor value arrived, with a distinct event log"
    quick_runs, thorough_runs = 1300, 100000

    def sensors(self, rng):
        out = []
        for _ in range(rng.randrange(1, 5)):
            s = {}
            if rng.random() < 0.45:
                s["name"] = rng.choice(NAMES)
            if rng.random() < 0.85:
                k = rng.randrange(4)
                s["values"] = [["horusInt", [rng.choice([0, -1, 7, 123456, -2 ** 31]) for _ in range(rng.randrange(1, 5))]],
                               ["horusReal", [rng.choice([0.5, -2.25, 1024.0, 3.0]) for _ in range(rng.randrange(1, 5))]],
                               ["horusStr", rng.choice(["", "abc", "A B", "x/y=+"])],
                               ["horusBool", {"b%d" % j: rng.random() < 0.5 for j in range(8)}]][k]
            out.append(s)
        return out

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        calls = [S.callsign(rng) for _ in range(rng.choice([1, 2, 2, 2, 4, 4, 12]))]
        if rng.random() < 0.4:
            calls += [calls[0] + "1", calls[0].lower()]
        calls = [c[:15] for c in calls]
        boots = []
        base = 0
        for bn in range(rng.choice([1, 1, 2])):
            t, items, sent = 3.0, [], []
            for _ in range(rng.randrange(4, 30)):
                t = round(t + rng.choice([0, 0.2, 1.5]), 3)
                r = rng.random()
                if r < 0.12 and sent:          # repeated or late copy
                    items.append([t, {"p": rng.choice(sent)}])
                    continue
                p = g.packet(base + t, "v3")
                p["m"]["payloadCallsign"] = rng.choice(calls)
                p["m"].pop("counts", None)
                p["m"].pop("extraSensors", None)
                if rng.random() < 0.9:
                    p["m"]["extraSensors"] = self.sensors(rng)
                if r < 0.3:
                    raw = bytearray(S.packet_bytes(p))
                    k = rng.randrange(3)
                    if k == 0:             # damaged
                        raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
                        if struct.pack("<H", R.crc16(bytes(raw[2:]))) == bytes(raw[:2]):
                            continue
                    elif k == 1:           # cut short, with a checksum that is right for what is left
                        body = bytes(raw[2:2 + rng.randrange(8, max(9, len(raw) - 3))])
                        try:
                            S.asn().decode("Telemetry", body, check_constraints=True)
                            continue
                        except Exception:
                            pass
                        raw = struct.pack("<H", R.crc16(body)) + body
                    else:
                        raw = raw[:-1]
                        if struct.pack("<H", R.crc16(bytes(raw[2:]))) == bytes(raw[:2]):
                            continue
                    items.append([t, {"raw": (bytes(raw).hex() + "\n").encode().hex()}])
                    continue
                if r > 0.93:
                    p = g.packet(base + t, rng.choice(["v1", "v2", "rtty"]))
                sent.append(p)
                items.append([t, {"p": p}])
            cfg = base_cfg(rng, t)
            cfg["p_stall"] = 0
            cfg["http"] = ok_server()
            boots.append({"argv": norm_args(rng, ["--nodownload"]), "items": items, "cfg": cfg, "at": base})
            base += 60
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g), "names": g.names, "fields": g.fields, "boots": boots}

    def judge(self, plan, log, facts):
        m = Model(plan)
        for n, b in enumerate(S.read_log(log)):
            h = S.Hist(b)
            out = ended_ok(h)
            if out:
                return out
            cache = {}
            by = {}
            for u in h.udp:
                d = json.loads(u["data"])
                by.setdefault(key_ll(d["latitude"], d["longitude"]), []).append(d)
            up = {}
            for r in records(h):
                if isinstance(r[0], dict):
                    up.setdefault(r[0].get("raw"), []).append(r[0])
            for l in h.lines:
                p = m.packet(l["hex"])
                if p is None:
                    continue
                e = S.expect(p, m.names, m.fields, cache)
                q = by.get(key_ll(e["lat"], e["lon"])) or [None]
                d = q.pop(0)
                todo = [("announcement", d)]
                if eligible(e, plan["epoch"] + plan["boots"][n]["at"] + l["t"], plan["epoch"] + plan["boots"][n]["at"] + handled_until(l, h)):
                    todo.append(("upload", (up.get(e["raw"]) or [None]).pop(0)))
                for what, d in todo:
                    if d is None:
                        return [("missing", "the packet read at %.3f s has no %s" % (l["t"], what))]
                    if p["f"] != "v3":
                        continue
                    got = {k: v for k, v in d.items() if re.search(r"_[0-3](_(\d|b\d))?$", k) and not k.startswith(("temperature_custom", "count_"))}
                    want = {k: v for k, v in e["extra"].items() if re.search(r"_[0-3](_(\d|b\d))?$", k) and not k.startswith(("temperature_custom", "count_"))}
                    if sorted(got) != sorted(want) or any(not S.same(got[k], want[k]) for k in want):
                        bad = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
                        return [("wrong-name", "boot %d, packet of %s read at %.3f s: the %s has sensor values %s, the names announced so far give %s" % (n, e["callsign"], l["t"], what, {k: got.get(k) for k in bad[:4] if k in got}, {k: want.get(k) for k in bad[:4] if k in want}))]
        return []


# ------------------------------------------------------------------------------------------------ P12
def api_udp(arg):
    """the announcement functions used directly"""
    s = S.sim.SIM
    import gc
    hu, ds = S.mod("horusudp"), S.mod("demodstats")
    s.fs.n += 1
    for j, (t, a) in enumerate(arg["calls"]):
        if t > s.now:
            time.sleep(t - s.now)
        s.event("call", j)
        try:
            if a["k"] == "summary":
                hu.send_payload_summary(dict(a["d"]), **a["kw"])
            elif a["k"] == "ozi":
                hu.send_ozimux_message(dict(a["d"]), **a["kw"])
            else:
                ds.send_modem_stats(dict(a["d"]), **a["kw"])
        except Exception as e:
            s.event("raised", type(e).__name__, str(e)[:100])
        gc.collect()
        s.event("called", j, len(s.socks))


class P12(PCheck):
    id = "P12"
    rule = "a run counts when a socket operation failed while announcements were made, with a distinct event log"
    quick_runs, thorough_runs = 1500, 100000

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        api = rng.random() < 0.5
        t = 3.0
        if api:
            calls = []
            for _ in range(rng.randrange(2, 25)):
                t = round(t + rng.choice([0, 0.1, 1, 4]), 3)
                k = rng.choice(["summary", "summary", "ozi", "stats"])
                lat, lon = g.latlon()
                d = {"callsign": S.callsign(rng), "latitude": lat, "longitude": lon, "altitude": rng.randrange(40000), "time": S.hms(rng.randrange(86400))}
                if k == "stats":
                    d = {"type": "MODEM_STATS", "source": "x", "snr": lat, "ppm": 1.5, "fft": [1, 2.5], "fest": [lat, lon]}
                    kw = rng.choice([{}, {"udp_port": 50000}])
                else:
                    kw = rng.choice([{}, {"port": 50001}])
                    if k == "summary":
                        for f, v in (("snr", -3.5), ("f_centre", 434201234), ("satellites", 7), ("battery_voltage", 1.25), ("speed", 99), ("x1", "text"), ("x2", 0), ("x3", False)):
                            if rng.random() < 0.5:
                                d[f] = v
                        if rng.random() < 0.5:
                            d["custom_field_names"] = [f for f in ("x1", "x2", "x3", "absent") if rng.random() < 0.7]
                        if rng.random() < 0.3:
                            kw["comment"] = "hello"
                    r = rng.random()
                    if r < 0.08:
                        d.pop(rng.choice(["callsign", "latitude", "longitude", "altitude", "time"]))
                    elif r < 0.14:
                        d["latitude"] = d["longitude"] = rng.choice([0.0, 0])
                    elif r < 0.18:
                        d["latitude"] = 0.0
                calls.append([t, {"k": k, "d": d, "kw": kw}])
            cfg = base_cfg(rng, t, False)
            cfg["udp"] = udp_faults(rng, t, 5)
            boots = [{"fn": "api_udp", "arg": {"calls": calls}, "cfg": cfg}]
        else:
            items = []
            for _ in range(rng.randrange(2, 25)):
                t = round(t + rng.choice([0, 0.1, 1, 4]), 3)
                if rng.random() < 0.2:
                    items.append([t, {"stat": g.stat()}])
                    continue
                p = g.packet(t)
                if rng.random() < 0.1 and p["f"] in ("v1", "v2"):
                    p.update(lat=0.0, lon=0.0)
                elif rng.random() < 0.1 and p["f"] == "v3":
                    p["m"]["altitudeMeters"] = -1000
                items.append([t, {"p": p}])
            cfg = base_cfg(rng, t)
            cfg["http"] = ok_server()
            cfg["p_stall"] = 0
            cfg["gc_socks"] = 1
            cfg["udp"] = udp_faults(rng, t, 5)
            boots = [{"argv": norm_args(rng, ["--nodownload"]), "items": items, "cfg": cfg}]
        return {"epoch": ep, "tz": rng.choice(TZS), "files": {**files_for(g), ROOT + "user.cfg": S.config(port=55999)}, "names": g.names, "fields": g.fields, "api": api, "boots": boots}

    def execute(self, plan):
        if not plan["api"]:
            return super().execute(plan)
        files = {p: t.encode("utf-8").hex() for p, t in plan["files"].items()}
        b = plan["boots"][0]
        r = S.boot(dict(b["cfg"], epoch=plan["epoch"]), files, fn=(__name__, "api_udp", b["arg"]), tz=plan.get("tz"))
        f = S.facts_of([r], calls=len(b["arg"]["calls"]))
        return S.canon([r]), f

    def judge(self, plan, log, facts):
        h = S.Hist(S.read_log(log)[0])
        out = ended_ok(h, "announcing")
        if out:
            return out
        if h.main_end[1] != "return":
            return [("stopped", "stopped with %s %s" % (h.main_end, h.uncaught[:1]))]
        return self.judge_api(plan, h) if plan["api"] else self.judge_main(plan, h)

    def one(self, ev, t0, t1, due, eq, port, where, ozi=False):
        """the events of one announcement attempt"""
        sent = [e for e in ev if e[2] == "udp_sent"]
        flt = [e[3] for e in ev if e[2] == "udp_fault"]
        if len(sent) > 1:
            return ("repeated", "%s: sent %d times (%s)" % (where, len(sent), [e[3] for e in sent]))
        fatal = any(x in ("create", "setsockopt", "bind") for x in flt)
        if due and not sent:
            if not fatal and not ("broadcast" in flt and "localhost" in flt):
                return ("not-sent", "%s: nothing was sent; failed operations: %s" % (where, flt))
        if sent:
            if not due:
                return ("unexpected", "%s: sent %r, but there was nothing to announce" % (where, bytes.fromhex(sent[0][5])[:200]))
            if sent[0][3] not in ("broadcast", "localhost"):
                return ("wrong-address", "%s: sent to %s" % (where, sent[0][3]))
            if sent[0][3] == "localhost" and "broadcast" not in flt:
                return ("no-broadcast", "%s: sent to localhost only, although a broadcast had not failed" % where)
            if sent[0][4] != port:
                return ("wrong-port", "%s: sent to port %s, should be %d" % (where, sent[0][4], port))
            why = eq(bytes.fromhex(sent[0][5]))
            if why:
                return ("wrong-content", "%s: %s" % (where, why))
        if t1 - t0 > (12 if ozi else 3.2):
            return ("blocks", "%s: took %.1f s" % (where, t1 - t0))
        return None

    def judge_api(self, plan, h):
        calls = plan["boots"][0]["arg"]["calls"]
        st = None
        for i, e in enumerate(h.ev):
            if e[2] == "call":
                st = i
            elif e[2] == "raised":
                return [("raises", "call %d %s: raised %s into the caller" % (h.ev[st][3], calls[h.ev[st][3]][1], e[3:]))]
            elif e[2] == "called":
                j = e[3]
                a = calls[j][1]
                d = a["d"]
                due = a["k"] == "stats" or all(k in d for k in ("callsign", "latitude", "longitude", "altitude", "time"))
                if a["k"] == "ozi":
                    due = all(k in d for k in ("latitude", "longitude", "altitude", "time"))
                if a["k"] == "summary" and due and d["latitude"] == 0 and d["longitude"] == 0:
                    due = False
                port = a["kw"].get("port", a["kw"].get("udp_port", 55683 if a["k"] == "ozi" else 55672))
                r = self.one(h.ev[st:i], h.ev[st][0], e[0], due, lambda x: self.content(x, a), port, "call %d %s" % (j, a["k"]), a["k"] == "ozi")
                if r:
                    return [r]
                if e[4]:
                    return [("socket-leak", "%d sockets are open after call %d %s" % (e[4], j, a))]
        return []

    def content(self, data, a):
        d = a["d"]
        if a["k"] == "ozi":
            want = "TELEMETRY,%s,%.5f,%.5f,%s\n" % (d["time"], d["latitude"], d["longitude"], d["altitude"])
            return "" if data.decode() == want else "sent %r, should be %r" % (data, want)
        got = S.strict_json(data)
        if a["k"] == "stats":
            return "" if got == d else "sent %s, should be %s" % (got, d)
        want = {"type": "PAYLOAD_SUMMARY", "callsign": d["callsign"], "latitude": d["latitude"], "longitude": d["longitude"], "altitude": d["altitude"], "time": d["time"],
                "comment": a["kw"].get("comment", "HorusDemodLib")}
        for k, v in (("snr", "snr"), ("satellites", "sats"), ("battery_voltage", "batt_voltage"), ("speed", "speed")):
            if k in d:
                want[v] = d[k]
        if "f_centre" in d:
            want["frequency"] = d["f_centre"] / 1e6
        for k in d.get("custom_field_names", ()):
            if k in d:
                want[k] = d[k]
        for k, v in want.items():
            if not S.same(got.get(k), v):
                return "%s is %r, should be %r" % (k, got.get(k), v)
        return ""

    def judge_main(self, plan, h):
        m = Model(plan)
        hand = m.handled(h)
        for l, p, e in hand:
            i1 = l["i1"] if l["i1"] is not None else len(h.ev)
            t1 = l["t1"] if l["t1"] is not None else l["t"]
            due = (e["lat"], e["lon"]) != (0.0, 0.0) and e["alt"] is not None
            ev = [x for x in h.ev[l["i"]:i1] if x[1] == "main"]
            r = self.one(ev, l["t"], t1, due, lambda x: S.udp_diff(S.strict_json(x), e), 55999, "packet read at %.3f s" % l["t"])
            if r:
                return [r]
        if len(hand) != sum(1 for _, it in plan["boots"][0]["items"] if "p" in it):
            return [("line-lost", "not every packet line was handled")]
        for e in h.ev:
            if e[2] == "open_socks" and e[3]:
                return [("socket-leak", "%d sockets are open while waiting for input at %.3f s" % (e[3], e[0]))]
        return []


# ------------------------------------------------------------------------------------------------ P13
def encode_all(jobs):
    """the project's own packet encoder, as a payload would use it -> [bits as sent, packet bytes]"""
    import datetime as dt
    import iochecks
    iochecks.load_ext()
    import horusdemodlib.encoder as E
    e = E.Encoder()
    out = []
    for j in jobs:
        if "kw" in j:
            kw = dict(j["kw"])
            if "time" in kw:
                kw["time_dt"] = dt.datetime.fromtimestamp(kw.pop("time"), dt.timezone.utc)
            if "custom_data" in kw:
                kw["custom_data"] = bytes.fromhex(kw["custom_data"])
            pk = bytes(e.create_horus_v2_packet(return_uncoded=True, **kw))
            fr = e.create_horus_v2_packet(**kw)
        else:
            pk = bytes.fromhex(j["p"])
            fr, n = e.horus_l2_encode_packet(pk)
            fr = fr[:n]
        if j["form"] == 0:
            bits = "".join(format(b, "08b") for b in fr)
        elif j["form"] == 1:
            bits = "".join(str(b) for b in e.bytes_to_onebitperbyte(fr, preamble=j["pre"]))
        else:
            bits = "".join(format(x, "02b") for x in e.bytes_to_4fsk_symbols(fr, preamble=j["pre"]))
        out.append([bits, pk.hex()])
    return out


def clip(x, lo, hi):
    return max(lo, min(hi, x))


class P13(PCheck):
    id = "P13"
    rule = "a run counts when at least one packet sent within the error budget is expected at the server, with a distinct event log"
    quick_runs, thorough_runs = 1100, 40000
    real = PCheck.real + ["horusdemodlib/encoder.py and the project's cffi extension", "src/horus_demod.c with the modem library (ASan/UBSan build), or horusdemodlib/demod.py main()"]
    stubs = PCheck.stubs + ["modulator, radio channel and audio source (msim)", "pipes between the demodulator and the handler"]

    def build(self):
        super().build()
        import iochecks
        self.io = iochecks.M10()
        self.io.build()

    def want(self, rng, g, t):
        """one packet a payload sends: {"kw"} for the project's v2 packet builder, or {"pk"} with exact contents"""
        if rng.random() < 0.45:
            tod = g.tod(t)
            lat, lon = g.latlon()
            u = lambda lo, hi: rng.choice([lo, hi, round(rng.uniform(lo, hi), 2), round(rng.uniform(lo, hi), 2), rng.uniform(lo, hi)])
            kw = {"payload_id": rng.choice(g.v2ids), "sequence_number": rng.choice([0, 65535, 65536, 70000, rng.randrange(65536)]), "latitude": lat, "longitude": lon, "altitude": u(-50, 66000), "speed": u(-2, 300),
                  "satellites": rng.choice([0, 4, 12, 255, 300]), "temperature": u(-140, 140), "battery_voltage": u(-0.1, 5.2)}
            if rng.random() < 0.5:
                kw.update(hours=tod // 3600, minutes=tod // 60 % 60, seconds=tod % 60)
            else:
                kw["time"] = int(math.floor(g.epoch)) // 86400 * 86400 + tod
            if kw["payload_id"] in g.plain:
                kw.update({k: v for k, v in (("ascent_rate", u(-400, 400)), ("ext_temperature", u(-3300, 3300)), ("ext_humidity", u(-1, 300)), ("ext_pressure", u(-10, 7000))) if rng.random() < 0.8})
            else:
                kw["custom_data"] = g.custom(kw["payload_id"])
            return {"kw": kw}
        p = g.packet(t, rng.choice(["v1", "v1", "v2", "v3", "v3"]))
        if p["f"] == "v3":
            n = len(S.packet_bytes(p))
            p["pad"] = rng.choice([x for x in R.SIZES_V3 if x >= n] or [0])
            if not p["pad"]:
                for k in ("counts", "milliVolts", "temperatureCelsius-x10", "customData"):
                    p["m"].pop(k, None)
                p["pad"] = min(x for x in R.SIZES_V3 if x >= len(S.packet_bytes(p)))
        return {"pk": p}

    def p_of(self, w):
        """the packet in the generator's terms (for "kw": what its documented ranges and scales say)"""
        if "pk" in w:
            return w["pk"]
        kw = w["kw"]
        tod = int(kw["time"]) % 86400 if "time" in kw else kw["hours"] * 3600 + kw["minutes"] * 60 + kw["seconds"]
        i = lambda k, lo, hi, f=1: int(clip(kw.get(k, 0) * f, lo, hi))
        p = {"f": "v2", "id": kw["payload_id"], "seq": kw["sequence_number"] % 65536, "t": [tod // 3600, tod // 60 % 60, tod % 60], "lat": kw["latitude"], "lon": kw["longitude"], "alt": i("altitude", 0, 65535),
             "speed": i("speed", 0, 255), "sats": i("satellites", 0, 255), "temp": i("temperature", -128, 127), "batt": int(255 * clip(kw["battery_voltage"], 0, 5) / 5)}
        p["custom"] = kw.get("custom_data") or struct.pack("<hhBHxx", i("ascent_rate", -32768, 32767, 100), i("ext_temperature", -32768, 32767, 10), i("ext_humidity", 0, 255), i("ext_pressure", 0, 65535, 10)).hex()
        return p

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        g.strict_layouts()
        g.plain = [x for x in g.v2ids if g.names[x] not in g.fields]
        rs = rng.choice([300, 500, 600, 1000, 1000, 1200, 1500, 2000])
        a = C.pick_air(rng, 4, [(48000, rs, 8)], 0.2)
        while a["f1"] < 0:
            a = C.pick_air(rng, 4, [(48000, rs, 8)], 0.2)
        if a["lim"]:
            a["lim"] = [int(a["lim"][0]), int(math.ceil(a["lim"][1]))]
        amp = rng.choice([200, 1000, 5000, 15000, 28000])
        sent, segs, junk = [], [], 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            for _ in range(rng.choice([0, 0, 1, 2])):
                segs.append(C.junk_seg(rng, a, amp))
                junk = 1
            segs.append({"t": "x", "s": "zero %d" % rng.randrange(1, int(50 * 48000 / rs))})
            its = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.25:
                    its += C.junk_items(rng)
                    junk = 1
                while True:
                    w = self.want(rng, g, 5)
                    b = S.packet_bytes(self.p_of(w))
                    if len(R.crc_kind(b)) == 1 and not R.premature(R.encode(b), len(b)):
                        break
                w["form"] = rng.randrange(3)
                w["pre"] = rng.choice([0, 8, 8, 16]) if w["form"] and a["sp"] >= 1.3 * rs and len(its) == 0 else 0
                it = {"p": b.hex(), "w": len(sent)}
                if rng.random() < 0.7:
                    it["flips"] = C.flips_in_budget(rng, b, rng.random() < 0.3)
                sent.append(w)
                its.append(it)
                if rng.random() < 0.8:
                    its.append(C.retrain(rng, rng.choice([60, 61, 75, 100])))
            segs.append({"t": "burst", "rs": rs, "f1": a["f1"], "sp": a["sp"], "amp": amp, "frac": round(rng.random(), 3), "pre": C.PRESYM + rng.randrange(60), "rot": 5, "post": rng.choice([2, 60, 66, 80]), "items": its})
            segs.append(C.guard(a))
        air = {"fs": 48000, "quad": a["quad"], "segs": segs}
        if rng.random() < 0.4:
            air["awgn"] = [amp / rng.choice([15, 20, 60]), rng.getrandbits(31)]
        C.tail(air, rs)
        st = {"mode": 0, "rs": rs, "sp": a["sp"] if a["mask"] else -1, "iq": a["quad"], "sr": 48000, "lim": a["lim"], "tool": rng.choice(["c", "c", "py"]), "opts": [o for o in ("-t", "-g") if rng.random() < 0.5], "trate": rng.choice([0, 1, 5]),
              "named_in": 0, "named_out": 0, "seek": 0, "end": "e", "pat": rng.choice([[0], [4096], [rng.randrange(1, 9000) for _ in range(5)], [1, 3000, 65536]])}
        cfg = base_cfg(rng, 40)
        cfg["http"] = ok_server()
        cfg["stall_max"] = 1.5
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g), "names": g.names, "fields": g.fields, "sent": sent, "air": air, "st": st, "junk": junk, "split": rng.getrandbits(20),
                "boots": [{"argv": norm_args(rng, ["--nodownload"]), "cfg": cfg}]}

    def execute(self, plan):
        status, enc = forkrun.call(encode_all, [dict(w, p=S.packet_bytes(w["pk"]).hex()) if "pk" in w else w for w in plan["sent"]], timeout=60)
        if status != "ok":
            return S.canon([self.stage("encoder", "%s %s" % (status, (enc or "").strip().splitlines()[-1:]))]), {}
        air = json.loads(json.dumps(plan["air"]))
        for sg in air["segs"]:
            its = []
            for it in sg.get("items", ()):
                if "w" in it:
                    w = plan["sent"][it["w"]]
                    bits = enc[it["w"]][0]
                    k = 8 * w["pre"] if w["form"] else 0
                    if k:
                        its.append({"bits": bits[:k]})
                    it = dict(it, air=bits[k:])
                its.append(it)
            if "items" in sg:
                sg["items"] = its
        data = self.io_pcm(air)
        d = tempfile.mkdtemp(prefix="vp13")
        try:
            pf = os.path.join(d, "in.raw")
            with open(pf, "wb") as f:
                f.write(data)
            s = dict(plan["st"], pats=[plan["st"]["pat"]])
            ev, rc = (self.io.run_c if s["tool"] == "c" else self.io.run_py)(s, pf, os.path.join(d, "o"), s["pat"], data)
        finally:
            shutil.rmtree(d)
        r = random.Random(plan["split"])
        ch, pos, items = 1 + plan["st"]["iq"], 0, []
        for e in ev:
            if e[0] == "R":
                pos = e[1]
            elif e[0] == "W":
                b = bytes.fromhex(e[1])
                t = round(3 + pos / 96000 / ch, 3)
                while b:                                  # a pipe hands over what it likes
                    n = r.choice([len(b), len(b), r.randrange(1, len(b) + 1)])
                    items.append([t, b[:n].hex()])
                    b = b[n:]
        cfg = dict(plan["boots"][0]["cfg"], epoch=plan["epoch"], stdin=items)
        b = S.boot(cfg, {p: t.encode("utf-8").hex() for p, t in plan["files"].items()}, argv=plan["boots"][0]["argv"], tz=plan.get("tz"))
        b["ev"] = [[0, "-", "chain", rc, [e[1] for e in enc]]] + b["ev"]
        f = S.facts_of([b], packets=len(plan["sent"]), demodulator_lines=len(items), fault_bit_errors=sum(len(it.get("flips", ())) for sg in plan["air"]["segs"] for it in sg.get("items", ())))
        f["audio_s"] = round(len(data) / 96000 / ch, 3)
        f["tool_" + plan["st"]["tool"]] = 1
        if plan["air"].get("awgn"):
            f["fault_noise"] = 1
        if plan["junk"]:
            f["fault_interference"] = 1
        return S.canon([b]), f

    def io_pcm(self, air):
        import iochecks
        return iochecks.pcm(self.io.bin, [air])[0][0]

    def stage(self, what, text):
        return {"crash": what + " " + text, "ev": [], "end": "crash", "t": 0, "files": {}, "open_files": [], "socks": 0, "counts": {}, "steps": 0, "switches": 0, "fsops": 0}

    def diff(self, d, e, w, udp):
        """difference between what arrived and what was encoded"""
        if "pk" in w:
            return (S.udp_diff if udp else S.upload_diff)(d, e)
        kw, e = w["kw"], dict(e, extra=dict(e["extra"]))
        near = {"alt": (clip(kw["altitude"], 0, 65535), 1), "speed": (clip(kw["speed"], 0, 255), 1), "temp": (clip(kw["temperature"], -128, 127), 1), "batt": (clip(kw["battery_voltage"], 0, 5), 5 / 255)}
        if "custom_data" not in kw:
            near.update(ascent_rate=(clip(kw.get("ascent_rate", 0), -327.68, 327.67), 0.01), ext_temperature=(clip(kw.get("ext_temperature", 0), -3276.8, 3276.7), 0.1),
                        ext_humidity=(clip(kw.get("ext_humidity", 0), 0, 255), 1), ext_pressure=(clip(kw.get("ext_pressure", 0), 0, 6553.5), 0.1))
        ren = {"alt": "altitude", "batt": "batt_voltage"} if udp else {}
        for k, (v, tol) in near.items():
            if udp and k == "temp":
                continue
            got = d.get(ren.get(k, k)) if isinstance(d, dict) else None
            if not S.usable(got) or abs(got - v) > tol * (1 + 1e-6) + 1e-9:
                return "%s is %r, the payload encoded %r" % (k, got, v)
            if k == "alt":
                e["alt"] = got
            else:
                e["extra"].pop(k, None)
        e["raw"] = d.get("raw")
        return (S.udp_diff if udp else S.upload_diff)(d, e)

    def judge(self, plan, log, facts):
        bs = S.read_log(log)
        h = S.Hist(bs[0])
        if bs[0]["crash"]:
            return [("stage-failed", str(bs[0]["crash"])[:400])]
        rc = h.ev[0][3]
        if rc != "ret 0":
            return [("demodulator-ended", "the %s demodulator: %s" % (plan["st"]["tool"], rc[:300]))]
        out = ended_ok(h)
        if out:
            return out
        names = {**S.DEFAULT_NAMES, **{int(k): v for k, v in plan["names"].items()}}
        fields = {**S.DEFAULT_FIELDS, **plan["fields"]}
        order, must, marks, shown = [], [], [], {}
        for a, it, m0, m1, sg in MS.blocks_marks({"airs": [plan["air"]], "stations": [], "ops": []}):
            if "w" in it:
                w = plan["sent"][it["w"]]
                p = self.p_of(w)
                e = S.expect(p, names, fields)
                order.append((w, e))
                must.append(MS.frame_good(it) and not C.coincidence(it))
                marks.append((sg, m0, m1))
        facts["reach_expected"] = sum(must)
        facts["nontrivial"] = 1 if any(must) else 0
        recs = [r[0] for r in records(h)]
        us = [json.loads(u["data"]) for u in h.udp]
        say = lambda x: "packet %s %s" % (x[1]["callsign"], x[1]["log"] if not isinstance(x[1]["log"], dict) else x[1]["seq"])
        for what, got, udp in (("uploaded", recs, 0), ("announced", us, 1)):
            miss, extra = match_seq(got, order, lambda d, x: not self.diff(d, x[1], x[0], udp), must)
            if miss and not shown:
                mk = MS.parse(MS.run_msim(self.io.bin, {"airs": [plan["air"]], "stations": [], "ops": []})[0])["marks"]
                shown = {i: not MS.hidden_tone(self.io.bin, plan["air"], plan["st"], sg, mk[m0], mk[m1]) for i, (sg, m0, m1) in enumerate(marks)}
                must = [m and shown[i] for i, m in enumerate(must)]
                miss, extra = match_seq(got, order, lambda d, x: not self.diff(d, x[1], x[0], udp), must)
            if miss:
                x = order[miss[0]]
                k = "frame" if not udp else None
                close = [d for d in got if isinstance(d, dict) and (d.get("frame") == x[1]["seq"] if k else S.same(d.get("latitude"), x[1]["lat"]))]
                return [("lost" if not close else "altered", "%s was sent within the error budget and not %s as encoded%s" % (say(x), what, "" if not close else ": " + self.diff(close[0], x[1], x[0], udp)))]
            # a damaged or unfinished frame of somebody else may still be within what the code corrects
            others = [it["p"] for sg in plan["air"]["segs"] for it in sg.get("items", ()) if "p" in it and "w" not in it]
            extra = [j for j in extra if udp or not isinstance(got[j], dict) or str(got[j].get("raw")).lower() not in others]
            if len(extra) > (1 + len(others) if udp and plan["junk"] else 0):
                return [("unexpected", "%s although no payload sent it: %s" % (what, json.dumps(got[extra[0]])[:300]))]
        return []

    def shrink(self, plan):
        cp = lambda: json.loads(json.dumps(plan))
        for cand in list_shrinks(plan["air"]["segs"]):
            p = cp()
            p["air"]["segs"] = cand
            yield p
        for i, sg in enumerate(plan["air"]["segs"]):
            for cand in list_shrinks(sg.get("items", [])):
                p = cp()
                p["air"]["segs"][i]["items"] = cand
                yield p
            for j, it in enumerate(sg.get("items", ())):
                if it.get("flips"):
                    p = cp()
                    p["air"]["segs"][i]["items"][j]["flips"] = []
                    yield p
        if plan["air"].get("awgn"):
            p = cp()
            p["air"]["awgn"] = None
            yield p
        for k in ("p_pre", "p_stall"):
            if plan["boots"][0]["cfg"].get(k):
                p = cp()
                p["boots"][0]["cfg"][k] = 0
                yield p

    def describe(self, plan):
        return json.dumps({k: plan[k] for k in ("epoch", "st", "sent")})[:2500]


# ------------------------------------------------------------------------------------------------ P14
class P14(PCheck):
    id = "P14"
    rule = "a run counts when the handler was killed or a disk fault struck while packets arrived, with a distinct event log"
    quick_runs, thorough_runs = 1000, 100000

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        files = files_for(g)
        logname = rng.choice(["telemetry.log", "telemetry.log", "flight.txt"])
        if rng.random() < 0.6:
            files[ROOT + logname] = "".join("$$OLD,%d,12:00:00,1.0,2.0,3*ABCD\n" % k for k in range(rng.choice([1, 3, 40])))
        boots, base = [], 0
        nb = rng.choice([1, 2, 2, 3])
        disk = rng.random() < 0.5
        v = rng.choice([0.3, 1, 4])
        for bn in range(nb):
            t, items = 2.0, []
            for _ in range(rng.randrange(2, 18)):
                t = round(t + rng.choice([0, rng.expovariate(1 / v)]), 3)
                k = rng.random()
                if k < 0.1:
                    items.append([t, {"stat": g.stat()}])
                elif k < 0.2:
                    items.append([t, {"raw": junk_lines(rng).hex()}])
                elif k < 0.3:         # packets that the other sinks do not take
                    p = g.packet(base + t, rng.choice(["v1", "v2", "v3", "v3"]))
                    if p["f"] == "v3":
                        p["m"].update(rng.choice([{"latitude": 0, "longitude": 0}, {"via": "nohub"}, {"via": "unknown"}, {"altitudeMeters": -1000}, {"altitudeMeters": -1000}]))
                    else:
                        p.update(rng.choice([{"lat": 0.0, "lon": 0.0}, {"id": 250 if p["f"] == "v1" else 32100}]))
                    items.append([t, {"p": p}])
                else:
                    items.append([t, {"p": g.packet(base + t)}])
            repeats(rng, items)
            last = t
            if disk:
                for _ in range(2):
                    t = round(t + rng.uniform(2, 30), 2)
                    items.append([t, {"p": g.packet(base + t)}])
            cfg = base_cfg(rng, t)
            cfg["http"] = ok_server()
            cfg["watch"] = [ROOT + logname]
            cfg["udp"] = udp_faults(rng, last, 1)
            if rng.random() < 0.2:
                cfg["http"]["telemetry"]["windows"] = bad_windows(rng, last, 2)
            if disk:
                fs = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    a = round(rng.uniform(0.5, last), 2)
                    fs.append({"ops": ["write"], "path": logname, "from": a, "to": round(min(a + rng.choice([0.5, 2, 10, 40]), last + 1), 2), "err": rng.choice(["ENOSPC", "EIO", "EDQUOT"]), "partial": rng.choice([0, 0, 1, 20, 60])})
                cfg["fs"] = fs
            elif bn < nb - 1 or rng.random() < 0.3:
                at = round(rng.uniform(0, t), 3)
                k = rng.randrange(3)
                cfg["kill"] = [{"t": at}, {"t": at, "n": rng.randrange(1, 250)}, {"t": at, "op": rng.randrange(0, 3), "path": logname}][k]
            boots.append({"argv": norm_args(rng, ["--nodownload", "--log", logname] if logname != "telemetry.log" else ["--nodownload"]), "items": items, "cfg": cfg, "at": base})
            base += int(t) + 30
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files, "names": g.names, "fields": g.fields, "log": ROOT + logname, "boots": boots}

    def judge(self, plan, log, facts):
        m = Model(plan)
        lf = plan["log"]
        prev = plan["files"].get(lf, "").encode()
        for n, b in enumerate(S.read_log(log)):
            h = S.Hist(b)
            cfg = plan["boots"][n]["cfg"]
            if b["end"] == "crash" or (b["end"] != "finished" and b["end"] != "killed"):
                return ended_ok(h)
            if b["end"] == "finished" and h.main_end[1] != "return":
                return [("stopped", "boot %d stopped with %s %s" % (n, h.main_end, h.uncaught[:1]))]
            cur = b["files"].get(lf, b"")
            what = "boot %d (%s at %.3f s, kill %s, disk faults %s)" % (n, b["end"], b["t"], cfg.get("kill"), cfg.get("fs"))
            if not cur.startswith(prev):
                return [("history-altered", "%s: the log no longer starts with what it held before: %r, was %r" % (what, cur[:200], prev[:200]))]
            new = cur[len(prev):]
            hand = m.handled(h)
            hit = lambda l: any(l["t"] < w["to"] and (l["t1"] if l["t1"] is not None else b["t"]) >= w["from"] for w in cfg.get("fs", ()))
            ll = new.decode("utf-8", "replace").split("\n")
            tail = ll.pop()
            req = [not hit(x[0]) for x in hand]
            if b["end"] == "killed" and hand and hand[-1][0]["t1"] is None:
                req[-1] = False          # the packet in hand
            miss, extra = match_seq(ll, hand, lambda a, x: S.log_matches(a, x[2]), req)
            if miss or extra or tail:
                return [("log-differs", "%s: missing %s, unexpected %s, unfinished line %r" % (what, [(hand[j][0]["t"], hand[j][2]["log"]) for j in miss[:2]], [ll[j] for j in extra[:2]], tail[:80]))]
            # on the disk before the next line is read
            size = len(prev)
            off = [len(prev)]
            for x in ll:
                off.append(off[-1] + len(x.encode("utf-8", "replace")) + 1)
            for t, i, p, ln in h.vis:
                if p != lf:
                    continue
                done = [k for k, x in enumerate(hand) if x[0]["i1"] is not None and x[0]["i1"] <= i and req[k]]
                if not done:
                    continue
                x = hand[done[-1]]
                # position of its line in the final file
                pos = next((q for q, a in enumerate(ll) if S.log_matches(a, x[2])), None)
                if pos is not None and ln < off[pos + 1] and not any(w["from"] <= t < w["to"] for w in cfg.get("fs", ())):
                    return [("late-write", "%s: asked for the next line at %.3f s with the log %d bytes long; the line of the packet read at %.3f s ends at byte %d" % (what, t, ln, x[0]["t"], off[pos + 1]))]
            prev = cur
        return []


# ------------------------------------------------------------------------------------------------ P15
EVIL_REAL = ["nan", "inf", "-inf", 1e300, -1e300, 5e-324, 1e22]
EVIL_INT = [2 ** 63, -2 ** 63, 2 ** 200, -2 ** 100, 10 ** 30, 0]


class P15(PCheck):
    id = "P15"
    rule = "a run counts when a packet or statistics line with an extreme or non-finite value was read, with a distinct event log"
    quick_runs, thorough_runs = 1900, 100000

    def evil(self, rng, g, t):
        k = rng.randrange(9)
        bad = lambda: rng.choice(["nan", "nan", "inf", "-inf", 3e38, -3e38, 1e-40, 200.0])
        if k < 2:
            p = g.packet(t, rng.choice(["v1", "v2"]))
            p[rng.choice(["lat", "lon"])] = bad()
            if rng.random() < 0.3:
                p["lat"] = p["lon"] = "nan"
        elif k < 4:
            p = g.packet(t, "v2", pid=g.evil_id[rng.randrange(2)])
            f = rng.choice([float("nan"), float("inf"), float("-inf"), 3.4e38, 1e-45, -0.0])
            p["custom"] = (struct.pack("<BbBfH", 1, -2, 3, f, 5) if p["id"] == g.evil_id[0] else struct.pack("<dB", rng.choice([f, 1e308, 5e-324]), 9)).hex()
        elif k < 7:
            p = g.packet(t, "v3")
            s = []
            for _ in range(rng.randrange(1, 5)):
                s.append(rng.choice([{"values": ["horusReal", [rng.choice(EVIL_REAL + [1.5]) for _ in range(rng.randrange(1, 5))]]}, {"values": ["horusInt", [rng.choice(EVIL_INT) for _ in range(rng.randrange(1, 5))]]},
                                     {"name": rng.choice(["nan", "infinity", "-", "null"]), "values": ["horusStr", rng.choice(["NaN", "", "-Infinity", "null", "a" * 200])]}]))
            p["m"]["extraSensors"] = s
            if rng.random() < 0.4:
                p["m"]["counts"] = [rng.choice(EVIL_INT) for _ in range(rng.randrange(1, 9))]
            if rng.random() < 0.2:
                p["m"]["customData"] = bytes(rng.randrange(256) for _ in range(255)).hex()
        else:
            p = g.packet(t, "rtty")
            j = rng.randrange(4)
            if j == 0:
                p[rng.choice(["lat", "lon"])] = rng.choice(["nan", "inf", "-inf", "1e999", "-nan", "NAN", "infinity", "1e308", "1_0"])
            elif j == 1:
                p["seq"] = rng.choice([10 ** 300, 10 ** 4000, -1, 2 ** 64])
            elif j == 2:
                p["call"] = rng.choice(['A"B', "A\\B", "A\x01\x1fB", "A\x7fB", "</x>", "{}", "A'B;--", "null"])
            else:
                p["extra"] = ["NaN", '"', "\\"]
        return p

    def gen(self, rng, tier, i):
        ep = epoch(rng)
        g = S.Gen(rng, ep)
        g.evil_id = [g.v2ids[0], g.v2ids[1]]
        g.fields[g.names[g.v2ids[0]]] = S.LAYOUTS[2]
        g.fields[g.names[g.v2ids[1]]] = ["<dB", [["dbl", "none"], ["n", "none"]]]
        t, items = 3.0, []
        v = rng.choice([0.02, 0.5, 2.0])
        for _ in range(rng.randrange(4, 30)):
            t = round(t + rng.choice([0, 0, rng.expovariate(1 / v)]), 3)
            k = rng.random()
            if k < 0.35:
                items.append([t, {"p": self.evil(rng, g, t), "evil": 1}])
            elif k < 0.5:
                j = rng.randrange(3)
                if j == 0:
                    items.append([t, {"raw": (raw_bad_stat(rng) + "\n").encode().hex()}])
                elif j == 1:
                    d = g.stat()
                    d[rng.choice(["EbNodB", "ppm", "f1_est", "f2_est"])] = rng.choice([1e308, -1e308, 1e300, 2 ** 70, 5e-324, -1e200])
                    items.append([t, {"stat": d}])
                else:
                    items.append([t, {"stat": json.dumps(g.stat()).replace("[", "[nan, -nan, ")}])
            else:
                items.append([t, {"p": g.packet(t)}])
        cfg = base_cfg(rng, t)
        cfg["http"] = ok_server()
        cfg["stall_max"] = 1.5
        argv = norm_args(rng, ["--nodownload"])
        if "--freq_hz" not in argv and rng.random() < 0.5:
            argv += ["--freq_hz", "434200000"]
        return {"epoch": ep, "tz": rng.choice(TZS), "files": files_for(g, rng.choice([None, (1.5, 2.5)])), "names": g.names, "fields": g.fields, "boots": [{"argv": argv, "items": items, "cfg": cfg}]}

    def extra_facts(self, plan):
        f = super().extra_facts(plan)
        f["fault_extreme_value"] = sum(1 for _, it in plan["boots"][0]["items"] if it.get("evil") or "stat" in it or "raw" in it)
        return f

    def judge(self, plan, log, facts):
        h = S.Hist(S.read_log(log)[0])
        b = h.b
        if b["end"] == "crash" or h.main_end and h.main_end[1] != "return":
            last = bytes.fromhex(h.lines[-1]["hex"]) if h.lines else b""
            return [("handler-stopped", "the handler stopped by itself (%s %s) after reading %r" % (b["crash"] or h.main_end, h.uncaught[:1], last[:100]))]
        out = ended_ok(h)
        if out:
            return out
        for r in h.uploads + h.listeners:
            try:
                S.strict_json(r["body"])
            except ValueError as e:
                return [("invalid-json", "the %s body sent at %.2f s is not valid JSON (%s): ...%s..." % (r["ep"], r["t"], e, (re.search(r".{0,60}(NaN|Infinity).{0,20}", r["body"]) or [r["body"][:80]])[0]))]
        us = []
        for u in h.udp:
            try:
                us.append(S.strict_json(u["data"]))
            except ValueError as e:
                return [("invalid-json", "the announcement sent at %.2f s is not valid JSON (%s): %r" % (u["t"], e, u["data"][:300]))]
        m = Model(plan)
        hand = m.handled(h)
        evil = {S.line_of(it["p"]).decode("latin-1").strip() for _, it in plan["boots"][0]["items"] if it.get("evil")}
        recs = records(h)
        ex, req = [], []
        for x in hand:
            isbad = S.line_of(x[1]).decode("latin-1").strip() in evil
            k = eligible(x[2], plan["epoch"] + x[0]["t"], plan["epoch"] + handled_until(x[0], h)) if S.usable(x[2]["lat"]) and S.usable(x[2]["lon"]) else False
            if isbad:
                ex.append(x), req.append(False)
            elif k is not False:
                ex.append(x), req.append(k is True)
        got = [r[0] for r in recs]
        same = lambda a, x: isinstance(a, dict) and a.get("raw") == x[2]["raw"]
        miss, extra = match_seq(got, ex, same, req)
        if miss:
            return [("held-back", "packet read at %.3f s (%s) was never uploaded; other packets had unusable values" % (ex[miss[0]][0]["t"], ex[miss[0]][2]["log"]))]
        if extra:
            return [("unexpected-upload", "uploaded: %s" % got[extra[0]])]
        at = {}
        for r in recs:
            at.setdefault(r[0].get("raw"), (r[0], r[1]["reqs"][0]["t"]))
        for x, q in zip(ex, req):
            if x[2]["raw"] not in at:
                continue
            d, t = at[x[2]["raw"]]
            if q:
                why = S.upload_diff(d, x[2])
                if why:
                    return [("altered", "packet read at %.3f s: %s" % (x[0]["t"], why))]
                if t > x[0]["t"] + 12:
                    return [("delayed", "packet read at %.3f s was first sent at %.2f s" % (x[0]["t"], t))]
            for k in ("lat", "lon", "alt", "frame"):
                if not S.usable(d.get(k)):
                    return [("unusable-position", "%s of an uploaded record is %r" % (k, d.get(k)))]
        # good packets are announced, log is complete
        ex = [x for x in hand if S.line_of(x[1]).decode("latin-1").strip() not in evil and x[2]["alt"] is not None and (x[2]["lat"], x[2]["lon"]) != (0.0, 0.0)]
        miss, _ = match_seq([a for a in us if any(not S.udp_diff(a, x[2]) for x in ex)], ex, lambda a, x: not S.udp_diff(a, x[2]), [1] * len(ex))
        if miss:
            return [("not-announced", "packet read at %.3f s (%s) was not announced" % (ex[miss[0]][0]["t"], ex[miss[0]][2]["log"]))]
        return []
