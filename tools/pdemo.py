"""demo files for planted station bugs: station.py (the station software of /repo driven by a script, with
clock, network and stdin faked) and a demo.py that uses it"""
STATION = r'''
import sys, os, io, json, gzip, struct, binascii, tempfile, threading, time, datetime, builtins, socket as real_socket, shutil, logging
sys.path[:0] = ["/repo", "/repo/_build/py"]
_real_sleep, _real_dt = time.sleep, datetime.datetime
import requests
import horusdemodlib.uploader as U, horusdemodlib.horusudp as HU, horusdemodlib.payloads as PL, horusdemodlib.decoder as DE
from horusdemodlib.checksums import add_packet_crc

CFG = "[user]\ncallsign = N0DEMO\nstation_lat = %s\nstation_lon = %s\nradio_comment = radio\nantenna_comment = antenna\n[horus_udp]\nsummary_port = 55672\nozimux_port = 55683\n"
LIST = "# HORUS BINARY PAYLOAD ID LIST\n0,4FSKTEST\n1,HORUSBINARY\n256,4FSKTEST-V2\n"


class Resp:
    def __init__(self, status=200, text=""):
        self.status_code, self.text = status, text
    def json(self):
        return json.loads(self.text)


def crc(b):
    return b + struct.pack("<H", binascii.crc_hqx(b, 0xffff))

def v1(pid=0, seq=1, t=(12, 0, 0), lat=-34.5, lon=138.5, alt=1000, speed=1, sats=5, temp=10, batt=100):
    return crc(struct.pack("<BHBBBffHBBbB", pid, seq, *t, lat, lon, alt, speed, sats, temp, batt)).hex().upper()

def v2(pid=256, seq=1, t=(12, 0, 0), lat=-34.5, lon=138.5, alt=1000, speed=1, sats=5, temp=10, batt=100, custom=bytes(9)):
    return crc(struct.pack("<HHBBBffHBBbB9s", pid, seq, *t, lat, lon, alt, speed, sats, temp, batt, custom)).hex().upper()

def v3(call="DEMO", seq=1, t=43200, lat=-3450000, lon=13850000, alt=1000, check=True, **k):
    d = {"payloadCallsign": call, "sequenceNumber": seq, "timeOfDaySeconds": t, "latitude": lat, "longitude": lon, "altitudeMeters": alt}
    d.update(k)
    return add_packet_crc(bytes(DE.HORUS_ASN.encode("Telemetry", d, check_constraints=check)), tail=False).hex().upper()

def rtty(body):
    return "$$%s*%04X" % (body, binascii.crc_hqx(body.encode("ascii", "replace"), 0xffff))

def stats(snr=10.0, f=(1000, 1270, 1540, 1810), ppm=0):
    d = {"EbNodB": snr, "ppm": ppm, "samp_fft": [0]}
    for i, x in enumerate(f):
        d["f%d_est" % (i + 1)] = x
    return json.dumps(d)


class Station:
    def __init__(self, epoch=(2026, 3, 4, 12, 0, 0), args=(), put=None, get=None, udp=None, pos=(0.0, 0.0), dir=None, opener=None):
        self.now = _real_dt(*epoch, tzinfo=datetime.timezone.utc).timestamp()
        self.args, self.fput, self.fget, self.fudp, self.opener = list(args), put, get, udp, opener
        self.uploads, self.listeners, self.udp, self.gets, self.open_socks = [], [], [], [], 0
        self.cv = threading.Condition(); self.asleep = {}; self.error = None; self.ended = False; self.uploaders = []
        self.own = dir is None
        self.dir = dir or tempfile.mkdtemp()
        open(self.dir + "/user.cfg", "w").write(CFG % pos)

    # clock: only the script moves it, and other threads run until they sleep again
    def sleep(self, n):
        if threading.current_thread() is self.main:
            return self.advance(n)
        me = threading.get_ident()
        with self.cv:
            self.asleep[me] = self.now + n
            self.cv.notify_all()
            while self.now < self.asleep[me]:
                self.cv.wait()
            del self.asleep[me]
            self.cv.notify_all()

    def settle(self):
        end = time.monotonic() + 20
        while time.monotonic() < end:
            with self.cv:
                live = [t.ident for t in threading.enumerate() if t is not self.main and t is not threading.main_thread()]
                if all(i in self.asleep and self.asleep[i] > self.now for i in live):
                    return
                self.cv.wait(0.02)
        raise SystemExit("a thread does not come to rest")

    def advance(self, n):
        self.settle()
        end = self.now + n
        while self.now < end:
            with self.cv:
                self.now = min(end, self.now + 1)
                self.cv.notify_all()
            self.settle()

    def put(self, url, data=None, json=None, **k):
        if "listeners" in url:
            self.listeners.append((self.now, json)); r = self.fput and self.fput(self, "listeners", json)
        else:
            body = gzip.decompress(data); self.uploads.append((self.now, body)); r = self.fput and self.fput(self, "telemetry", body)
        if isinstance(r, Exception):
            raise r
        return r if isinstance(r, Resp) else Resp(r or 200)

    def get(self, url, **k):
        self.gets.append((self.now, url)); r = self.fget and self.fget(self, "fields" if "custom" in url else "list")
        if r is None:
            raise requests.ConnectionError("no network")
        if isinstance(r, Exception):
            raise r
        return r if isinstance(r, Resp) else Resp(200, r)

    def packets(self):
        out = []
        for t, b in self.uploads:
            out += json.loads(b, parse_constant=lambda c: (_ for _ in ()).throw(ValueError("not JSON: " + c)))
        return out

    def run(self, script, limit=120):
        st = self
        class Sock:
            def __init__(s, *a, **k): st.open_socks += 1; s.o = True
            def settimeout(s, n): pass
            def setsockopt(s, *a): pass
            def bind(s, *a): pass
            def sendto(s, d, to):
                e = st.fudp and st.fudp(st, to, d)
                try:
                    if isinstance(e, Exception): raise e
                finally:
                    del e
                st.udp.append((to[0], json.loads(d)))
            def close(s):
                if s.o: st.open_socks -= 1
                s.o = False
            def __del__(s): s.close()
        class FS:
            socket = Sock
            def __getattr__(s, n): return getattr(real_socket, n)
        class DT(_real_dt):
            @classmethod
            def now(c, tz=None):
                return _real_dt.fromtimestamp(st.now, tz)
        it = iter(script)
        class In:
            def readline(s):
                for x in it:
                    if isinstance(x, (int, float)): st.advance(x)
                    elif isinstance(x, BaseException): raise x
                    elif callable(x): x(st)
                    else: return x + "\n"
                st.settle() if st.quiet_end else None
                return ""
        self.quiet_end = False
        save = (time.time, time.sleep, datetime.datetime, HU.socket, requests.put, requests.get, sys.stdin, sys.argv, os.getcwd(), builtins.open)
        make = U.SondehubAmateurUploader.__init__
        def ini(u, *a, **k):
            self.uploaders.append(u); make(u, *a, **k)
        def body():
            try:
                U.main()
            except BaseException as e:
                self.error = e
            self.ended = True
        self.main = threading.Thread(target=body, daemon=True)
        try:
            os.chdir(self.dir)
            time.time, time.sleep, datetime.datetime = lambda: st.now, st.sleep, DT
            HU.socket, requests.put, requests.get, sys.stdin = FS(), st.put, st.get, In()
            U.SondehubAmateurUploader.__init__ = ini
            if self.opener: builtins.open = lambda *a, **k: st.opener(save[-1], *a, **k)
            sys.argv = ["uploader"] + self.args
            self.main.start()
            t0 = time.monotonic()
            while self.main.is_alive() and time.monotonic() - t0 < limit:
                self.main.join(0.05)
                if not next_left(it) and self.main.is_alive():
                    with self.cv:   # shutting down: let the clock run
                        self.now += 1; self.cv.notify_all()
        finally:
            time.time, time.sleep, datetime.datetime, HU.socket, requests.put, requests.get, sys.stdin, sys.argv = save[:8]
            os.chdir(save[8]); builtins.open = save[9]
            U.SondehubAmateurUploader.__init__ = make
        self.log = open(self.dir + "/telemetry.log").read() if os.path.exists(self.dir + "/telemetry.log") else ""
        if self.own: shutil.rmtree(self.dir)
        return self


class Script:
    """list iterator that knows whether it is used up"""
    def __init__(self, l): self.l = list(l); self.done = False
    def __iter__(self): return self
    def __next__(self):
        if not self.l:
            self.done = True
            raise StopIteration
        x = self.l.pop(0)
        if isinstance(x, BaseException): self.done = True
        return x

def next_left(it):
    return not getattr(it, "done", True)

def run(script, **k):
    return Station(**k).run(Script(script))

def check(ok, what):
    if not ok:
        print("FAILED:", what); sys.stdout.flush(); os._exit(1)

def finish():
    print("as expected"); sys.stdout.flush(); os._exit(0)
'''
SH = """#!/bin/bash
# drives the station software of /repo with the script in demo.py (clock, network and input are faked)
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo:/repo/_build/py timeout 250 /opt/horus-venv/bin/python "$D/demo.py" 2>/dev/null
"""


def files(demo):
    return {"station.py": STATION, "demo.py": "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom station import *\n" + demo + "\nfinish()\n", "demo.sh": SH}
