"""planted bugs of the C codec: demos drive the library (compiled with ASan and a counting allocator) through csim.c"""
import json, os, random, struct, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import cchecks as C
BUGS = []
L = "horusbinaryv3/clib/"
SH = """#!/bin/bash
# compiles /repo's C codec into a node with a counting allocator and plays input.txt; judge.py compares with what is expected
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
F="-O1 -g -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -DASN_DISABLE_OER_SUPPORT=1 -I/repo/horusbinaryv3/clib"
ls /repo/horusbinaryv3/clib/*.c "$D/csim.c" | xargs -P 8 -I{} sh -c 'gcc -c "$1" -o "$(basename "$1").o" $0' "$F" {} || { for f in /repo/horusbinaryv3/clib/*.c "$D/csim.c"; do gcc -c $F "$f" -o "$(basename $f).o" || exit 2; done; }
gcc -o node *.o -fsanitize=address,undefined -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free -lm || exit 2
timeout 60 ./node < "$D/input.txt" > out 2> err; RC=$?
python3 "$D/judge.py" out $RC
"""
JUDGE = """import json, os, sys
want = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'want.json')))
lines = [l for l in open(sys.argv[1]).read().splitlines() if l.startswith(('enc ', 'dec ', 'chk '))]
bad = []
if sys.argv[2] != '0':
    bad.append('the program ended with %s' % sys.argv[2])
for i, w in enumerate(want):
    l = lines[i] if i < len(lines) else ''
    f = l.split()
    if ' live=0' not in l:
        bad.append('%d: memory is left allocated: %s' % (i, l))
    if w.get('fails') and f and not (int(f[1]) < 0 if f[0] == 'enc' else int(f[1]) != 0):
        bad.append('%d: should fail: %s' % (i, l))
    if 'hex' in w and ' hex=' + w['hex'] not in l + ' ':
        bad.append('%d: expected bytes %s: %s' % (i, w['hex'], l))
    if 'rec' in w and (f[1:2] != ['0'] or not all(t in f for t in w['rec'])):
        bad.append('%d: expected record %s: %s' % (i, w['rec'], l))
print('\\n'.join(bad[:5]))
sys.exit(1 if bad else 0)
"""


def bug(id, edits, needs, breaks, recs, steps, **k):
    """recs: records in token form; steps: (csim line, expectation)"""
    text = ["fill 165"] + ["rec %d %s" % (i, C.toks(t)) for i, t in enumerate(recs)] + [s for s, _ in steps]
    files = {"csim.c": open(os.path.join(V, "csim", "csim.c")).read(), "input.txt": "\n".join(text) + "\n", "want.json": json.dumps([w for _, w in steps]), "demo.sh": SH, "judge.py": JUDGE}
    BUGS.append(dict(id=id, property="C01", edits=[(L + f, a, b) for f, a, b in edits], needs=needs, breaks=breaks, files=files, **k))


def hexof(t):
    import station as S
    S.load(); S.asn()
    import horusdemodlib.decoder as D
    return bytes(D.HORUS_ASN.encode("Telemetry", C.tree(t), check_constraints=True)).hex()


def chex(t):
    """the bytes the unchanged C encoder gives"""
    c = C.C01()
    c.build()
    o, e, rc = c.csim(["rec 0 " + C.toks(t), "enc 0 new 0 0"])
    return o.split(" hex=")[1].split()[0]


def rec(**k):
    t = [["call", "VK5ABC"], ["seq", 7], ["tod", 43200], ["lat", -3492000], ["lon", 13860000], ["alt", 21000]]
    return t + [[a, b] for a, b in k.items()]


def f64(x):
    return struct.pack(">d", x).hex()


R0 = rec(ex=1, s=1, sn="wind", si=[1, -70000, 5]) + [["s", 1], ["sr", [f64(0.1), f64(-1e-9)]]] + [["vh", 44], ["temp", 1], ["ti", -123], ["te", 250], ["mv", 1], ["mb", 3700], ["cnt", [1, 2 ** 33, 3, 4, 5, 6]], ["cd", bytes(range(40)).hex()]]
R1 = rec(ex=1, s=1, sn="wind", si=[1, -70000, 5]) + [["vh", 44], ["temp", 1], ["ti", -123], ["te", 250]]
H0 = hexof(R0)
N0 = len(H0) // 2
ok = lambda t: {"rec": C.toks(t).split()}

bug("c01-int-starved", [("NativeInteger.c", """				   &tmpintptr, pd);
	if(rval.code == RC_OK) {
		if((specs&&specs->field_unsigned)
			? asn_INTEGER2ulong(&tmpint, (unsigned long *)native)""", """				   &tmpintptr, pd);
	if(rval.code == RC_WMORE)
		return rval;	/* nothing to convert */
	if(rval.code == RC_OK) {
		if((specs&&specs->field_unsigned)
			? asn_INTEGER2ulong(&tmpint, (unsigned long *)native)""")],
    "a packet which ends inside an integer", "a truncated packet leaks memory in the decoder", [R0],
    [("dec %s 0 0 0" % H0, ok(R0))] + [("dec %s 0 0 0" % H0[:2 * n], {"fails": True}) for n in range(3, 30)] + [("dec %s 0 0 0" % H0, ok(R0))])

bug("c01-list-nomem", [("constr_SET_OF.c", """				/* Fall through */
				rv.code = RC_FAIL;
			} else {
				ASN_DEBUG("Failed decoding %s of %s (SET OF)",
					elm->type->name, td->name);
			}
			if(ptr) ASN_STRUCT_FREE(*elm->type, ptr);
			return rv;
		}

		nelems = -1;	/* Allow uper_get_length() */""", """				rv.code = RC_FAIL;
			} else {
				ASN_DEBUG("Failed decoding %s of %s (SET OF)",
					elm->type->name, td->name);
				if(ptr) ASN_STRUCT_FREE(*elm->type, ptr);
			}
			return rv;
		}

		nelems = -1;	/* Allow uper_get_length() */""")],
    "memory runs out exactly when a list has to grow", "the element which was just decoded leaks", [R0],
    [x for n in range(1, 60) for x in (("dec %s %d 0 0" % (H0, n), {}), ("dec %s 0 0 0" % H0, ok(R0)))])

bug("c01-late-refusal", [("asn_bit_data.c", """		if(po->output(po->tmpspace, complete_bytes, po->op_key) < 0)
			return -1;
		if(po->nboff)""", """		if(po->output(po->tmpspace, complete_bytes, po->op_key) < 0
				&& po->flushed_bytes)
			return -1;
		if(po->nboff)""")],
    "the first of two pieces does not fit the buffer and the second does", "encoding reports success although the first 32 bytes were thrown away", [R1],
    [("enc 0 new 0 0", {"hex": hexof(R1)})] + [("enc 0 buf %d 0" % n, {"fails": True}) for n in range(0, len(hexof(R1)) // 2)] + [("enc 0 buf %d 0" % (len(hexof(R1)) // 2), {"hex": hexof(R1)})])

bug("c01-last-piece", [("per_encoder.c", """        if(_uper_encode_flush_outp(&po)) ASN__ENCODE_FAILED;
    }

    return er;""", """        if(_uper_encode_flush_outp(&po) && !po.flushed_bytes) ASN__ENCODE_FAILED;
    }

    return er;""")],
    "the buffer holds all but the last piece of the packet", "encoding into a buffer which is too small reports success", [R0],
    [("enc 0 new 0 0", {"hex": H0})] + [("enc 0 cb %d 0" % n, {"fails": True}) for n in range(1, (N0 + 31) // 32 + 1)] + [("enc 0 buf %d 0" % n, {"fails": True}) for n in range(N0 - 4, N0)] + [("enc 0 cb 0 0", {"hex": H0})])

bug("c01-new-buffer", [("per_encoder.c", """            FREEMEM(arg->buffer);
            memset(arg, 0, sizeof(*arg));
            return -1;""", """            FREEMEM(arg->buffer);
            arg->length = arg->allocated = 0;
            return -1;""")],
    "memory runs out when the buffer of a long packet is enlarged", "the buffer is freed twice", [R0],
    [x for n in range(1, 40) for x in (("enc 0 new 0 %d" % n, {}), ("enc 0 new 0 0", {"hex": H0}))])

RR = rec(ex=1, s=1, sr=[f64(1e300), f64(3.0000000000000004), f64(2.0 ** -700), f64(-0.1)])
bug("c01-real-exponent", [("REAL.c", """		} else if((expval >> 15) == -1) {
			*ptr++ = bmsign | 0x01;""", """		} else if((expval >> 9) == -1) {
			*ptr++ = bmsign | 0x01;""")],
    "a sensor value smaller than about 1e-150", "very small values get a three-byte exponent, and the decoder refuses it or the packet grows", [RR],
    [("enc 0 new 0 0", {"hex": hexof(RR)}), ("dec %s 0 0 0" % hexof(RR), ok(RR))])

bug("c01-real-odd", [("REAL.c", """		if(!(mval & 0x0f))	/* Speed-up a little */
			shift_count = 4;""", """		if(!(mval & 0x07))	/* Speed-up a little */
			shift_count = 4;""")],
    "a real whose last significant byte is an odd multiple of eight", "the value's lowest bit is shifted out: another value is sent", [x for x in [rec(ex=1, s=1, sr=[f64(v) for v in c]) for c in ((48.0, 3.0, 17.5, 1.0 + 2 ** -41), (25.0, -25.0, 1.0 + 2 ** -25, 1.0 + 2 ** -17), (1.0 + 2 ** -9, 1.5 + 2 ** -1, 100.25, 1000.125))]],
    [x for i, c in enumerate(((48.0, 3.0, 17.5, 1.0 + 2 ** -41), (25.0, -25.0, 1.0 + 2 ** -25, 1.0 + 2 ** -17), (1.0 + 2 ** -9, 1.5 + 2 ** -1, 100.25, 1000.125))) for x in [("enc %d new 0 0" % i, {"hex": chex(rec(ex=1, s=1, sr=[f64(v) for v in c]))})]])


bug("c01-special-real", [("NativeReal.c", """	ret = asn_REAL2double(&tmp, &d);
	ASN_STRUCT_FREE_CONTENTS_ONLY(asn_DEF_REAL, &tmp);
	if(ret) ASN__DECODE_FAILED;
""", """	ret = asn_REAL2double(&tmp, &d);
	if(ret) ASN__DECODE_FAILED;
	ASN_STRUCT_FREE_CONTENTS_ONLY(asn_DEF_REAL, &tmp);
""")],
    "a damaged packet in which a real has an undefined form", "refusing the value leaks memory", [RR],
    [("dec %s 0 0 0" % hexof(RR), ok(RR))] + [("dec %s 0 0 0" % (hexof(RR)[:2 * i] + "%02x" % (bytes.fromhex(hexof(RR))[i] ^ b) + hexof(RR)[2 * i + 2:]), {}) for i in range(14, len(hexof(RR)) // 2) for b in (1, 2, 4, 8, 16, 32, 64, 128)])


bug("c01-range-pair", [("INTEGER.c", """				if(value < ct->lower_bound
				|| value > ct->upper_bound)
					inext = 1;
			}
			ASN_DEBUG("Value %ld (""", """				if(value < ct->lower_bound)
					inext = 1;
			}
			ASN_DEBUG("Value %ld ("""), ("per_support.c", """    if(v < lb || v > ub || per__long_range(lb, ub, &range) < 0) {
        /* Range error. */""", """    if(v < lb || per__long_range(lb, ub, &range) < 0) {
        /* Range error. */"""), ("Telemetry.c", """	if((value >= 0 && value <= 65535)) {""", """	if((value >= 0)) {""")],
    "a sequence counter which has passed 65535 without being reduced", "it is sent as another number instead of being refused", [rec(), [["call", "VK5ABC"], ["seq", 65536 + 5]] + rec()[2:]],
    [("enc 0 new 0 0", {"hex": hexof(rec())}), ("chk 0", {}), ("chk 1", {"fails": True}), ("enc 0 new 0 0", {"hex": hexof(rec())})])

