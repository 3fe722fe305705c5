import random
from mdemo import *
BUGS = []
A = "src/horus_api.c"; F = "src/fsk.c"; L2 = "src/horus_l2.c"; G = "src/golay23.c"


def bug(id, property, edits, needs, breaks, files, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, files=files, **k))


rng = random.Random(11)


def many(kind, n, gap=lambda i: 7 + i, flips=None, **bk):
    """n bursts, each with one frame at a different alignment to the demodulation blocks"""
    segs, exp = [], []
    for i in range(n):
        p = pay(rng, kind)
        it = {"p": p.hex()}
        if flips:
            it["flips"] = flips(p)
        segs += [x("zero %d" % (80 * gap(i) + 11 * i)), burst([it], pre=200 + i % 50, **bk), x("zero %d" % 4800)]
        exp.append((0, p.hex().upper()))
    return segs, exp


s, e = many("v2", 6, flips=lambda p: [5])
bug("m01-sync-exact", "M01", [(A, "hstates->uw_thresh = sizeof(uw_horus_binary_v1) - 2; /* allow a few bit errors in UW detection */",
                               "hstates->uw_thresh = sizeof(uw_horus_binary_v1);")],
    "a frame whose sync word carries one bit error (channel error in the 16 sync bits)",
    "frames with a single error in the sync word are never found", files(plan(s), e))

s, e = many("v1", 60)
bug("m01-uw-straddle", "M01", [(A, "for(i=0; i<n-hstates->uw_len; i++) {", "for(i=1; i<n-hstates->uw_len; i++) {")],
    "a frame whose sync word ends exactly at the end of a demodulation block (about one alignment in a hundred)",
    "the unique word search skips one bit position per block: a frame aligned there is lost", files(plan(s, tail=12), e))


def heavy(p):
    pos = R.air_positions(R.tx_bytes(len(p)))
    return sorted(pos[c] for d, q in R.codewords(len(p))[:3] for c in (d[0], d[5], q[7]))


s, e = many("v3-48", 4, flips=heavy)
bug("m01-golay-triple", "M01", [(G, "for (z = y+1; z < 23; z++) {\n                int d = (1<<x) | (1<<y) | (1<<z);\n                decoding_table", "for (z = y+1; z < 22; z++) {\n                int d = (1<<x) | (1<<y) | (1<<z);\n                decoding_table")],
    "three bit errors in one code word, one of them in its first transmitted bit",
    "part of the triple-error patterns is no longer corrected", files(plan(s), e))

# two frames back to back: the sync word of the second is received in the block that completes the first
def b2b(kinds, n=8):
    segs, exp = [], []
    for i in range(n):
        its = []
        for k in kinds:
            p = pay(rng, k)
            its.append({"p": p.hex()})
            exp.append((0, p.hex().upper()))
        segs += [x("zero %d" % (80 * 7 * i + 80)), burst(its, pre=220 + 3 * i), x("zero 6400")]
    return segs, exp


s, e = many("v1", 150, gap=lambda i: 5 + (i * 7) % 13)
bug("m03-overlap-search", "M03", [(A, "int n = hstates->fsk->Nbits+(hstates->uw_len);", "int n = hstates->fsk->Nbits+(hstates->uw_len)+2;")],
    "a frame whose sync word starts exactly at the first bit of the overlap between two searches (one alignment in a hundred); the duplicate test in the same function never took effect",
    "the sync word is registered twice and the packet reported twice", files(plan(s, tail=12), e))

# a sentence whose checksum differs in the high byte only / low
body = b"HORUS,7,01:02:03,-34.5,138.6,1200"
good = R.crc16(body)
bad = body + b"*%04X" % (good ^ 0x1000)
its = [{"bits": "10" * 120}, {"idle": 30}]
for i in range(4):
    its += [{"txt": (b"$$" + bad).hex()}, {"idle": 40}, {"bits": "01" * 80}, {"idle": 20}, sentence(body + b",%d" % i), {"idle": 40}]
its += [{"bits": "10" * 40}, {"idle": 200}]
e = [(0, (b"$$" + R.rtty_sentence(body + b",%d" % i)).decode()) for i in range(4)]
bug("m02-crc-nibble", "M02", [(A, "            tx_crc <<= 4;\n            tx_crc |= hex2int(ptx_crc[i]);", "            if (i) tx_crc <<= 4;\n            tx_crc |= hex2int(ptx_crc[i]);"), (A, "(tx_crc == rx_crc);\n        *(ptx_crc+4) = 0;", "(tx_crc == rx_crc);\n        *(ptx_crc+4) = 0;")][:1],
    "never (equivalent)", "", files(plan([rtty(its)], mode=89, rs=100, tail=30), e))
BUGS.pop()
bug("m02-hex-mask", "M02", [(A, "    if (ch >= '0' && ch <= '9')\n        return ch - '0';", "    if (ch >= '0' && ch <= '?')\n        return (ch - '0') & 7;")],
    "a damaged RTTY checksum whose digits 8 or 9 or following punctuation alias to a smaller digit (for example ':' received for '2')",
    "a damaged checksum verifies: sentence reported good although its checksum is not hexadecimal", {})
BUGS.pop()

# stale status: a good sentence, then a damaged one
bug("m02-short-checksum", "M02", [(A, "if (endpacket && (pout > (ptx_crc+3)) &&", "if (endpacket && (pout > (ptx_crc+2)) &&")],
    "", "", {})
BUGS.pop()

# bad sentences passed on with the status of an earlier one
its = [{"bits": "10" * 120}, {"idle": 30}]
e2 = []
for i in range(4):
    t = b"HORUS,%d,11:22:33,1.5,2.5,333" % i
    bad = b"HORUS,%d,11:22:33,9.5,2.5,333*%04X" % (i, R.crc16(t))
    its += [sentence(t), {"idle": 40}, {"txt": (b"$$" + bad).hex()}, {"idle": 60}]
    e2.append((0, "$$" + R.rtty_sentence(t).decode()))
its += [{"bits": "10" * 40}, {"idle": 300}]
fl = files(plan([rtty(its, stop=2)], mode=90, tail=40), e2)
fl["demo.sh"] = fl["demo.sh"].replace('diff "$T/got"', 'grep "^0 1" "$T/got" > "$T/got1"; diff "$T/got1"')
bug("m02-stale-status", "M02", [(A, "    hstates->crc_ok = crc_ok;\n    \n    return crc_ok;", "    if (crc_ok)\n        hstates->crc_ok = crc_ok;\n\n    return crc_ok || (endpacket && *ascii_out);")],
    "a sentence with a bad checksum received after a good one", "damaged sentences are reported with the good status of the previous sentence", fl)

# RTTY length
b100 = (b"HORUS,12345,12:34:56,-34.12345,138.12345,12345,12,3.14,25,17,999,1013.25,abcdefghijklmnopqrstuvwxyz")[:95]
its = [{"bits": "10" * 120}, {"idle": 40}]
e = []
for i in range(3):
    its += [sentence(b100[:88 + 3 * i], 2), {"idle": 60}]
    e.append((0, "$$" + R.rtty_sentence(b100[:88 + 3 * i]).decode()))
its += [{"bits": "10" * 40}, {"idle": 300}]
bug("m04-7n2-window", "M04", [("src/horus_api.h", "#define HORUS_RTTY_7N2_NUM_BITS                 (HORUS_RTTY_MAX_CHARS*10)", "#define HORUS_RTTY_7N2_NUM_BITS                 (HORUS_RTTY_MAX_CHARS*8)")],
    "a 7N2 sentence longer than about ninety characters", "long 7N2 sentences are never delivered (window too short)",
    files(plan([rtty(its, data=7, stop=2)], mode=90, tail=40), e))

# sync sentence with noise '$' characters before, dropped start: UW search threshold on 7N2
its = [{"bits": "10" * 120}, {"idle": 40}]
e = []
for i in range(4):
    its += [{"txt": (b"$$HORUS,1,00:00:0").hex()}, sentence(b"HORUS,%d,11:22:33,1.5,2.5,333" % i, 2 + 2 * i), {"idle": 60}]
    e.append((0, "$$" + R.rtty_sentence(b"HORUS,%d,11:22:33,1.5,2.5,333" % i).decode()))
its += [{"bits": "10" * 40}, {"idle": 300}]
bug("m04-pending-sentences", "M04", [(A, "    if (st + hstates->max_packet_len > hstates->rx_bits_len){", "    if (st + hstates->max_packet_len > hstates->rx_bits_len){")],
    "", "", {})
BUGS.pop()

# fft bound
pl = plan([x("tone 40000 3999.5 20000"), x("tone 40000 3995 30000"), x("pcm 40000 20000 7"), burst([{"p": pay(rng, "v1").hex()}], f1=1000)], quad=1)
bug("m05-edge-tone", "M05", [(F, "        for(j=f_min; j<f_max; j++)\n            fftout[j].i = 0;", "        for(j=f_min; j<=f_max; j++)\n            fftout[j].i = 0;")],
    "a strong tone in the topmost analysis bins (close to half the sample rate)", "the tone blanking writes past the end of the FFT buffer",
    files(plan([x("noise 4000 10 3"), x("tone 40000 3999.9 20000"), x("sweep 60000 3000 3999.99 20000")], quad=1), [], cflags="-fsanitize=address -fno-omit-frame-pointer"))

# allocator
def two(kind, fill):
    p = pay(rng, kind)
    pl = plan([x("zero 800"), burst([{"p": p.hex()}], pre=170)], ops=[["open", 0], ["xstats", 0], ["feedall", 0]])
    return p, pl


# uninitialised: upper half of the averaged spectrum; poison the allocator
p = pay(rng, "v1")
pl = plan([x("zero 800"), burst([{"p": p.hex()}], pre=130, amp=800)], ops=[["fill", 0x91], ["open", 0], ["feedall", 0]])
pl["fill"] = 0xB4
bug("m06-sf-half", "M06", [(F, "for(i=0;i<Ndft;i++)fsk->Sf[i] = 0;", "for(i=0;i<Ndft/2;i++)fsk->Sf[i] = 0;")],
    "memory returned by the allocator that is not zero (a receiver opened after others were closed)",
    "a freshly opened receiver starts with another receiver's leftovers in its averaged spectrum and mis-estimates the tones",
    files(pl, [(0, p.hex().upper())]))

# static buffer: shared between receivers of different length, interleaved
a0 = plan([x("zero 800"), burst([{"p": pay(rng, "v2").hex()} for _ in range(4)], pre=220), x("zero 3200")], sp=200)
a1 = plan([x("zero 1600"), burst([{"p": pay(rng, "v2").hex()} for _ in range(4)], pre=220), x("zero 6400")], fs=16000, sp=200)
pl = {"airs": [a0["airs"][0], a1["airs"][0]], "stations": [a0["stations"][0], dict(a1["stations"][0], air=1)],
      "ops": [["open", 0], ["open", 1]] + [["feed", i % 2, 1] for i in range(200)] + [["feedall", 0], ["feedall", 1]]}
exp = [(k, it["p"].upper()) for k in (0, 1) for it in pl["airs"][k]["segs"][1]["items"]]
bug("m06-shared-phase", "M06", [(F, "    COMP *phi_c = fsk->phi_c;  ", "    static float last_f[4]; static COMP last_phi[4]; static int have; COMP *phi_c = fsk->phi_c;\n    if (!have) { have = 1; for (m=0; m<4; m++) last_phi[m] = comp_exp_j(0); }"),
    (F, "        dphi_m = comp_exp_j(2*M_PI*((f_est[m])/(float)(Fs)));", "        if (last_f[m] != f_est[m]) { last_f[m] = f_est[m]; last_phi[m] = comp_exp_j(2*M_PI*((f_est[m])/(float)(Fs))); }\n        dphi_m = last_phi[m];")],
    "two receivers with different sample rates whose tone estimates in Hz are equal, fed alternately",
    "the oscillator step cached for one receiver is used by another with a different sample rate", files(pl, exp))

bug("m07-hann-leak", "M07", [(F, "    free(fsk->hann_table);\n    free(fsk);", "    if (fsk->mode == MODE_4FSK)\n        free(fsk->hann_table);\n    free(fsk);")],
    "opening and closing receivers in a 2FSK (RTTY) mode", "every closed RTTY receiver leaks its window table",
    files(plan([x("zero 8000")], mode=90, ops=[["mmapoff"], ["open", 0], ["feedall", 0], ["close", 0], ["heap"]] + [["open", 0], ["rewind", 0], ["feedall", 0], ["close", 0]] * 6 + [["heap"]]),
          judge="import sys\nh=[int(l.split()[1]) for l in open(sys.argv[1]) if l.startswith('heap')]\nprint(h)\nsys.exit(1 if h[-1]>h[0]+20000 else 0)\n"))

# clock skew in one direction
its, e = [{"bits": "10" * 120}, {"idle": 20}], []
for i in range(12):
    t = b"HORUS,%d,11:22:33,-31.81708,-141.71069,361%s" % (i, b"ABCDEFGHIJKLMNOPQRSTUVWXYZ"[:i * 2])
    its += [sentence(t), {"idle": 17 + i}, {"bits": "0101101" * 8}]
    e.append((0, "$$" + R.rtty_sentence(t).decode()))
its += [{"bits": "10" * 40}, {"idle": 300}]
bug("m08-no-shrink", "M08", [(F, "        else if(norm_rx_timing < -0.25)\n            fsk->nin = N-Ts/2;", "        else if(norm_rx_timing < -0.49)\n            fsk->nin = N-Ts/2;")],
    "a transmitter clock several hundred ppm fast for long enough that the symbol timing walks across the wrap",
    "symbol timing slips on fast transmitters: bits are lost or repeated in the middle of a frame", files(plan([rtty(its, rs=300, sp=600, ppm=-1000)], fs=9600, rs=300, mode=89, tail=50), e))
p = [pay(rng, "v3-128") for _ in range(12)]
bug("m11-ppm-sign", "M11", [(F, "fsk->ppm = .9*fsk->ppm + .1*appm;", "fsk->ppm = .9*fsk->ppm + .1*fabsf(appm);")],
    "a transmitter whose clock is off in one direction by several hundred ppm",
    "the reported clock offset is never negative",
    files(plan([burst([{"p": q.hex()} for q in p], ppm=800), x("zero 4000"), burst([{"p": q.hex()} for q in p], ppm=-800)], ops=[["open", 0], ["feedstat", 0, 1]]), judge="""import sys
v = [float(l.split(" ppm ")[1].split()[0]) for l in open(sys.argv[1]) if l.startswith("xst")]
n = len(v)
a, b = v[n * 2 // 5], v[n * 9 // 10]
print(a, b)
sys.exit(0 if a * b < 0 and abs(a) > 200 and abs(b) > 200 else 1)
"""))
bug("m05-mask-overrun", "M05", [(F, "    for (int b=st; b<en-len_mask; b++) {", "    for (int b=st; b<en; b++) {")],
    "a configured tone spacing (mask estimator) with the default search limits", "the mask search reads past the end of the averaged spectrum",
    files(plan([x("noise 40000 100 3")], sp=200), [], cflags="-fsanitize=address -fno-omit-frame-pointer"))

