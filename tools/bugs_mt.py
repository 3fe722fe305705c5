import os
BUGS = []
HERE = os.path.dirname(os.path.abspath(__file__))
A = "src/horus_api.c"; F = "src/fsk.c"; L2 = "src/horus_l2.c"; G = "src/golay23.c"
DEMO = '''#!/bin/bash
# several receivers and coders in threads of their own: each must report what it reports alone
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
gcc -O1 -w -I/repo/src -o "$T/mt" "$D/mt.c" /repo/_build/c/src/libhorus.so -lm -lpthread -Wl,-rpath,/repo/_build/c/src || exit 3
"$T/mt" 20
'''


def bug(id, edits, needs, breaks):
    BUGS.append(dict(id=id, property="M12", edits=edits, needs=needs, breaks=breaks, files={"demo.sh": DEMO, "mt.c": open(os.path.join(HERE, "mt.c")).read()}))


bug("m12-uw-scratch", [(A, "    int rx_bits_mapped[n+hstates->uw_len];", "    static int rx_bits_mapped[2048];")],
    "two receivers in threads of their own, one interrupted between mapping its newest bits and searching them",
    "the unique word search works in one scratch buffer for all receivers: a frame's unique word is missed")
bug("m12-golay-refill", [(G, "    decoding_table[0] = 0;\n", "    for (x = 0; x < 2048; x++) decoding_table[x] = 0;\n")],
    "a receiver (or coder) is opened while another thread corrects bit errors",
    "opening wipes the table of error patterns for a moment: another receiver's frame with bit errors is not corrected")
bug("m12-interleave-scratch", [(L2, "    unsigned char out[nbytes];\n", "    static unsigned char out[1024];\n")],
    "two threads interleave or de-interleave a packet at the same time",
    "the interleaver's output buffer is shared: frames are sent or decoded with parts of another's")
bug("m12-timing-scratch", [(F, "    COMP f_int[M][(nsym+1)*P];", "    static COMP f_mem[16384];\n    COMP (*f_int)[(nsym+1)*P] = (COMP (*)[(nsym+1)*P])f_mem;")],
    "two receivers demodulate a block at the same time in different threads",
    "the integrator's output is kept in one buffer for all receivers: bits and statistics of one come from the other")
