import random
from mdemo import *
import mdemo
BUGS = []
D = "horusdemodlib/demod.py"
C_ = "src/horus_demod.c"
rng = random.Random(21)

IOSH = """#!/bin/bash
# makes the audio described in plan.txt and runs judge.py on it against /repo
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
DEFS="-DHORUS_L2_RX -DINTERLEAVER -DSCRAMBLER -DRUN_TIME_TABLES"
gcc -g0 -O2 -w -std=gnu11 $DEFS -I/repo/src "$D/msim.c" /repo/src/{fsk,kiss_fft,kiss_fftr,mpdecode_core,H_256_768_22,H_128_384_23,golay23,phi0,horus_api,horus_l2}.c -o "$T/m" -lm || exit 2
cp "$D/plan.txt" "$D/judge.py" "$T/"; cd "$T" || exit 2
./m < plan.txt > out 2> err || { echo "no audio"; exit 2; }
export PYTHONPATH=/repo:/repo/_build/py
timeout 200 /opt/horus-venv/bin/python judge.py
"""
HEAD = """import logging, subprocess, sys, os, threading, time
logging.disable(logging.CRITICAL)
sys.stderr = open(os.devnull, 'w')
def pcm(i): return open('pcm%d' % i, 'rb').read()
def receive(datas, pieces, **kw):
    # feeds each stream to its own receiver, taking turns, pieces[i] bytes at a time -> packets per receiver
    from horusdemodlib.demod import HorusLib, Mode
    got = [[] for _ in datas]
    libs = [HorusLib(mode=Mode.BINARY, callback=(lambda f, i=i: got[i].append(f.data.hex().upper()) if f.crc_pass else None), **kw) for i in range(len(datas))]
    pos = [0] * len(datas)
    while any(p < len(d) for p, d in zip(pos, datas)):
        for i, d in enumerate(datas):
            libs[i].add_samples(d[pos[i]:pos[i] + pieces[i]]); pos[i] += pieces[i]
    return got
def tool(cmd, data, chunk=1 << 20):
    # stdin fed from a pipe in pieces -> (lines, exit code)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out = []
    t = threading.Thread(target=lambda: out.extend(l.decode().rstrip('\\n') for l in p.stdout)); t.start()
    for i in range(0, len(data), chunk):
        p.stdin.write(data[i:i + chunk]); p.stdin.flush()
    p.stdin.close(); t.join(); return [l for l in out if not l.startswith('{')], p.wait()
"""


def bug(id, property, edits, needs, breaks, plan, judge, **k):
    plan["stations"] = plan["stations"] and [dict(s, air=i) for i, s in enumerate(plan["stations"])]
    plan["ops"] = [["pcm_out", i, "pcm%d" % i] for i in range(len(plan["airs"]))]
    files = {"msim.c": open(os.path.join(V, "msim", "msim.c")).read(), "plan.txt": S.render(plan), "demo.sh": IOSH, "judge.py": HEAD + judge}
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, files=files, **k))


def one(kinds, fs=48000, rs=300, same=False, post=70, tail=12, f1=1500, gap=3000):
    segs, exp, p = [], [], None
    for k in kinds:
        if p is None or not same:
            p = pay(rng, k)
        segs += [x("zero %d" % gap), burst([{"p": p.hex()}], rs=rs, f1=f1, sp=rs * 2, pre=250, post=post), x("zero %d" % gap)]
        exp.append(p.hex().upper())
    return plan(segs, fs=fs, rs=rs, tail=tail), exp


pl, e = one(["v1", "v2", "v1"])
bug("m09-return-early", "M09", [(D, "                if len(_frame.data) > 0:\n                    if self.callback:\n                        self.callback(_frame)\n", "                if _frame.data:\n                    if self.callback:\n                        self.callback(_frame)\n                    return _frame\n")],
    "a piece of audio that goes on for at least a block after a packet, near the end of the stream",
    "what follows a packet in the same piece waits for the next call; given as one piece, everything after the first packet is lost", pl,
    "e = %r\ng = receive([pcm(0)], [1 << 24], rate=300)[0]\nprint(g)\nsys.exit(0 if g == e else 1)\n" % e)

pl, e = one(["v1", "v2"])
pl2, e2 = one(["v2", "v1"])
pl["airs"] += pl2["airs"]
bug("m09-shared-buffer", "M09", [(D, "        self.input_buffer = bytearray(b\"\")\n", "        self.input_buffer = _NO_SAMPLES\n"),
                                 (D, "class HorusLib():\n", "# no samples waiting\n_NO_SAMPLES = bytearray(b\"\")\n\n\nclass HorusLib():\n")],
    "two receivers used alternately with pieces that are not whole samples", "the half sample left by one receiver is completed with the other's audio", pl,
    "e = %r\ng = receive([pcm(0), pcm(1)], [4801, 4803], rate=300)\nprint(g)\nsys.exit(0 if g == e else 1)\n" % [e, e2])

pl, e = one(["v2", "v2", "v2"], same=True)
bug("m09-dedupe", "M09", [(D, "                if len(_frame.data) > 0:\n                    if self.callback:\n                        self.callback(_frame)\n",
                           "                if len(_frame.data) > 0 and not (_frame.crc_pass and _frame.data == getattr(self, \"last_data\", None)):\n                    if self.callback:\n                        self.callback(_frame)\n                    if _frame.crc_pass:\n                        self.last_data = _frame.data\n")],
    "the same payload transmitted twice in a row (a beacon without a GPS fix repeats itself)", "the repeated packet is not delivered", pl,
    "e = %r\ng = receive([pcm(0)], [9600], rate=300)[0]\nprint(g)\nsys.exit(0 if g == e else 1)\n" % e)

pl, e = one(["v1"], fs=8000, rs=300, post=2, tail=0, f1=600, gap=1600)
bug("m10-short-final", "M10", [(D, "            if not data: # EOF\n", "            if len(data) < horus.nin * 2 * (2 if horus.stereo_iq else 1): # EOF\n")],
    "an input sample rate below 48 kHz and a last packet that ends within the last, incomplete read", "the last read is thrown away although it contains whole modem blocks", pl,
    """e = %r
d = pcm(0)
cmd = [sys.executable, '-m', 'horusdemodlib.demod', '-m', 'binary', '--rate=300', '--sample-rate=8000', '-', '-']
import audioop
bad = 0
# silence in front moves the end of the recording within the read
for pad in range(0, 9600, 1200):
    g, rc = tool(cmd, bytes(pad) + d + bytes(2400))
    print(pad, len(g), rc)
    bad |= g != e or rc
sys.exit(1 if bad else 0)
""" % e)

pl, e = one(["v1", "v2"], tail=90)
bug("m10-flush-stats", "M10", [(D, "            fout.write(\"\\n\")\n            fout.flush()\n", "            fout.write(\"\\n\")\n            # the statistics written after each block push it out\n            if not args.g:\n                fout.flush()\n")],
    "the Python tool with -g, reading a live stream", "packets stay in the output buffer while the tool waits for more audio", pl,
    """e = %r
env = dict(os.environ); env.pop('PYTHONUNBUFFERED', None)
p = subprocess.Popen([sys.executable, '-m', 'horusdemodlib.demod', '-m', 'binary', '--rate=300', '-g', '-', '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
got = []
t = threading.Thread(target=lambda: got.extend(l.decode().strip() for l in p.stdout), daemon=True); t.start()
p.stdin.write(pcm(0)); p.stdin.flush()
for _ in range(400):
    time.sleep(0.1)
    if len(got) >= len(e): break
print('while the stream is open:', got)
ok = got == e
p.stdin.close(); p.wait()
sys.exit(0 if ok else 1)
""" % e)

pl, e = one(["v1", "v2"], tail=90)
bug("m10-fifo-flush", "M10", [(C_, "        if (fin == stdin || fout == stdout){\n            fflush(fin);\n        }\n        fflush(fout);\n        fflush(stats_outfile);\n",
                              "        if (fin == stdin || fout == stdout){\n            fflush(fin);\n            fflush(fout);\n        }\n        fflush(stats_outfile);\n")],
    "the C tool reading a named pipe and writing a named file or pipe", "packets stay in the output buffer while the tool waits for more audio", pl,
    """e = %r
os.mkfifo('in')
p = subprocess.Popen(['/repo/_build/c/src/horus_demod', '-m', 'binary', '--rate=300', 'in', 'out.txt'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
f = open('in', 'wb')
f.write(pcm(0)); f.flush()
for _ in range(200):
    time.sleep(0.1)
    got = open('out.txt').read().split() if os.path.exists('out.txt') else []
    if got == e: break
print('while the stream is open:', got)
f.close(); p.wait()
sys.exit(0 if got == e else 1)
""" % e)
