"""demo files for planted modem bugs: a msim plan, the expected delivered packets, a shell script that compares"""
import os, random, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import msimlib as S, horusref as R, build, mchecks as C

SH = """#!/bin/bash
# runs the modem of /repo on the signal described in plan.txt and compares what it delivers with expect.txt
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
DEFS="-DHORUS_L2_RX -DINTERLEAVER -DSCRAMBLER -DRUN_TIME_TABLES"
gcc -g0 -O2 -w -std=gnu11 %(cflags)s $DEFS -I/repo/src "$D/msim.c" /repo/src/{fsk,kiss_fft,kiss_fftr,mpdecode_core,H_256_768_22,H_128_384_23,golay23,phi0,horus_api,horus_l2}.c -o "$T/m" -lm || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 250 "$T/m" < "$D/plan.txt" > "$T/out" 2> "$T/err" || { echo "receiver failed"; head -5 "$T/err"; exit 1; }
%(cmp)s
"""
CMP = """sed -n 's/^pkt \\([0-9]*\\) .* crc \\([01]\\) .* text \\(.*\\)$/\\1 \\2 \\3/p' "$T/out" | sort -s -k1,1n > "$T/got"
diff "$T/got" "$D/expect.txt" && echo "as expected" """
PYCMP = """python3 "$D/judge.py" "$T/out" """


def files(plan, expect=None, judge=None, cflags=""):
    f = {"msim.c": open(os.path.join(V, "msim", "msim.c")).read(), "plan.txt": S.render(plan),
         "demo.sh": SH % {"cflags": cflags, "cmp": PYCMP if judge else CMP}}
    if judge:
        f["judge.py"] = judge
    else:
        f["expect.txt"] = "".join("%d 1 %s\n" % (i, t) for i, t in expect)
    return f


def burst(items, rs=100, f1=1000, sp=200, amp=8000, pre=250, post=80, **k):
    return dict({"t": "burst", "rs": rs, "f1": f1, "sp": sp, "amp": amp, "pre": pre, "rot": 5, "post": post, "items": items}, **k)


def plan(segs, fs=8000, rs=100, mode=0, sp=-1, P=8, quad=0, tail=12, lim=None, ops=None, awgn=None):
    air = {"fs": fs, "quad": quad, "segs": segs}
    if awgn:
        air["awgn"] = awgn
    C.tail(air, rs, tail)
    return {"airs": [air], "stations": [{"air": 0, "mode": mode, "rs": rs, "sp": sp, "P": P, "lim": lim}], "ops": ops or [["open", 0], ["feedall", 0]]}


def pay(rng, kind):
    return C.payload(rng, kind)


def x(s):
    return {"t": "x", "s": s}


def rtty(items, rs=100, f1=1000, sp=400, amp=8000, data=7, stop=1, **k):
    return dict({"t": "rtty", "rs": rs, "f1": f1, "sp": sp, "amp": amp, "data": data, "stop": stop, "items": items}, **k)


def sentence(body, dollars=2):
    return {"txt": (b"$" * dollars + R.rtty_sentence(body)).hex(), "track": 1}
