"""planted bugs of the transmit and test tools: demos run the built tools of /repo"""
BUGS = []
SH = """#!/bin/bash
cd "${REPO:-/repo}" || exit 2
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export B=$PWD/_build/c/src D T
timeout 200 python3 "$D/demo.py"
"""


def bug(id, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property="T01", edits=edits, needs=needs, breaks=breaks, files={"demo.sh": SH, "demo.py": "import os, subprocess, struct, sys, time, signal\nB, T = os.environ['B'], os.environ['T']\n" + demo}))


bug("t01-mod-tail", [("src/fsk_mod.c", "fread(bitbuf,sizeof(uint8_t),fsk->Nbits,fin) == fsk->Nbits", "fread(bitbuf,sizeof(uint8_t),fsk->Nbits,fin) >= fsk->Nbits/2")],
    "a bit stream whose last block is incomplete by less than half", "bits nobody sent are modulated after the end",
    """
r = subprocess.run([B + '/fsk_mod', '4', '8000', '100', '1000', '270', '-', '-'], input=bytes([0, 1] * 50 + [1] * 60), stdout=subprocess.PIPE).stdout
print(len(r)); sys.exit(0 if len(r) == 50 * 80 * 2 else 1)
""")
bug("t01-phase-block", [("src/fsk.c", """    tx_phase_c = comp_normalize(tx_phase_c);
    
    /* save TX phase */
    fsk->tx_phase_c = tx_phase_c;
    
}

/*---------------------------------------------------------------------------*\\

  FUNCTION....: fsk_mod_c""", """    tx_phase_c = comp_normalize(tx_phase_c);
    
    /* save TX phase */
    fsk->tx_phase_c = (fsk->f1_tx % fsk->Rs) ? comp_exp_j(0) : tx_phase_c;
    
}

/*---------------------------------------------------------------------------*\\

  FUNCTION....: fsk_mod_c""")],
    "a first tone which is not a multiple of the symbol rate, and more than one block", "the phase jumps at every block boundary",
    """
import math
bits = bytes((i * 7 // 3) & 1 for i in range(2000))
r = subprocess.run([B + '/fsk_mod', '4', '48000', '100', '1033', '270', '-', '-'], input=bits, stdout=subprocess.PIPE).stdout
s = struct.unpack('<%dh' % (len(r) // 2), r)
w = max(abs(a - b) for a, b in zip(s, s[1:])); lim = 2 * max(s) * math.sin(math.pi * (1033 + 810) / 48000) * 1.02 + 4
print(w, lim); sys.exit(0 if len(s) == 480000 and w <= lim else 1)
""")
bug("t01-gen-wrap", [("src/horus_gen_test_bits.c", """      unsigned char payload[32] ={ 
        0x00, 0x00, // crc
      };
      
      int num_tx_data_bytes = horus_l2_get_num_tx_data_bytes(sizeof(payload));
      unsigned char tx[num_tx_data_bytes];
      uint16_t * checksum = (uint16_t *)payload;
      
      uint16_t counter = 0;
""", """      unsigned char payload[32] ={ 
        0x00, 0x00, // crc
      };
      
      int num_tx_data_bytes = horus_l2_get_num_tx_data_bytes(sizeof(payload));
      unsigned char tx[num_tx_data_bytes];
      uint16_t * checksum = (uint16_t *)payload;
      
      uint8_t counter = 0;
""")],
    "more than 256 frames of mode 2", "the sequence number starts again at 0",
    """
r = subprocess.run([B + '/horus_gen_test_bits', '2', '258'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
n = len(r) // 258; fr = [r[i * n:(i + 1) * n] for i in range(258)]
print(len(set(fr))); sys.exit(0 if len(set(fr)) == 258 else 1)
""")
bug("t01-pass-equal", [("src/fsk_put_test_bits.c", "(packetcnt >= packet_pass_thresh)", "(packetcnt > packet_pass_thresh || packet_pass_thresh == 0)")],
    "exactly as many frames as demanded", "the test fails although its threshold is met",
    """
b = subprocess.run([B + '/fsk_get_test_bits', '-', '500'], stdout=subprocess.PIPE).stdout
p = subprocess.run([B + '/fsk_put_test_bits', '-q', '-p', '5', '-'], input=b, stderr=subprocess.PIPE)
print(p.returncode, p.stderr); sys.exit(0 if p.returncode == 0 and b'PASS' in p.stderr else 1)
""")
bug("t01-slow-flush", [("src/fsk_demod.c", """        if(fin == stdin || fout == stdin){
            fflush(fin);
            fflush(fout);
        }""", """        if(fin == stdin && (soft_dec_mode || fsk->Nbits >= fsk->N/fsk->Ts*2)){
            fflush(fin);
            fflush(fout);
        }""")],
    "2FSK with hard decisions on a live pipe", "received bits stay in a buffer until kilobytes have gathered",
    """
bits = subprocess.run([B + '/fsk_get_test_bits', '-', '400'], stdout=subprocess.PIPE).stdout
a = subprocess.run([B + '/fsk_mod', '2', '8000', '100', '1000', '270', '-', '-'], input=bits, stdout=subprocess.PIPE).stdout
p = subprocess.Popen([B + '/fsk_demod', '2', '8000', '100', '-', '-'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
p.stdin.write(a); p.stdin.flush()
import select
got = b''
end = time.time() + 15
while time.time() < end and len(got) < 300:
    if select.select([p.stdout], [], [], 0.2)[0]:
        got += os.read(p.stdout.fileno(), 65536)
print(len(got)); p.kill(); sys.exit(0 if len(got) >= 300 else 1)
""")
bug("t01-term-lost", [("src/fsk_demod.c", """    if (signo == SIGTERM) {
        exit(0);
    }""", """    if (signo == SIGTERM) {
        fclose(stdin);
        _exit(0);
    }"""), ("src/fsk_demod.c", "#include \"modem_stats.h\"\n", "#include \"modem_stats.h\"\n#include <unistd.h>\n")],
    "SIGTERM while the output is a named file", "what was received is thrown away",
    """
bits = subprocess.run([B + '/fsk_get_test_bits', '-', '400'], stdout=subprocess.PIPE).stdout
a = subprocess.run([B + '/fsk_mod', '2', '8000', '100', '1000', '270', '-', '-'], input=bits, stdout=subprocess.PIPE).stdout
os.mkfifo(T + '/in')
p = subprocess.Popen([B + '/fsk_demod', '2', '8000', '100', T + '/in', T + '/out'], stderr=subprocess.DEVNULL)
f = open(T + '/in', 'wb'); f.write(a); f.flush(); time.sleep(3)
p.send_signal(signal.SIGTERM); p.wait(20); f.close()
n = os.path.getsize(T + '/out'); print(p.returncode, n); sys.exit(0 if p.returncode == 0 and n >= 300 else 1)
""")
bug("t01-ber-first", [("src/fsk_demod.c", """                    bitcnt += TEST_FRAME_SIZE;
                    biterr += errs;
                    if (enable_stats == 0) {""", """                    bitcnt += TEST_FRAME_SIZE;
                    biterr += testframecnt > 1 ? errs : 0;
                    if (enable_stats == 0) {""")],
    "bit errors in the first test frame that is recognised", "the reported bit errors are too few",
    """
bits = bytearray(subprocess.run([B + '/fsk_get_test_bits', '-', '1200'], stdout=subprocess.PIPE).stdout)
for k in range(12): bits[k * 100 + 50] ^= 1
a = subprocess.run([B + '/fsk_mod', '2', '8000', '100', '1000', '270', '-', '-'], input=bytes(bits), stdout=subprocess.PIPE).stdout
p = subprocess.run([B + '/fsk_demod', '-f', '2', '8000', '100', '-', '-'], input=a, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
l = [x for x in p.stderr.decode().splitlines() if x.startswith('errs')][-1]
n, e = int(l.split('tested ')[1].split(',')[0]) // 100, int(l.split()[-1]); f = [int(x.split()[1]) for x in p.stderr.decode().splitlines() if x.startswith('errs')]
print(l, sum(f)); sys.exit(0 if e == sum(f) else 1)
""")
