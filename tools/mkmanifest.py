#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of finished checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
DONE = open(os.path.join(V, "tools", "done.txt")).read().split()
TECH = {
 "M12": "deterministic simulation of threads: every thread a fiber, a seeded scheduler switching between any two memory accesses of the instrumented library; each thread's history checked against its run alone",
 "T": "deterministic simulation of a shell pipeline of the tools (stages, pipes and scheduler in one process) with seeded fault injection; bytes on every pipe checked against a reference model",
 "C": "deterministic simulation of C payload/relay nodes, the radio link and the station with seeded fault injection (failing allocations, refused output, short buffers, damaged data); history checked against the records sent",
 "M": "deterministic simulation of transmitters, radio channel and receivers with seeded fault injection; recorded history checked against a reference model",
 "P": "deterministic simulation of the station software (threads, clock, network, disk, input under one seeded scheduler) with fault injection; history checked against a reference model"}
NOTE = {
 "M12": "Seeded search, not enumeration. The modem code of the working tree runs unmodified, compiled so that every memory access calls the simulated scheduler. Switches are sequentially consistent and the C library's own functions are atomic: reorderings by the processor's memory model are not simulated.",
 "T": "Seeded search, not enumeration. The tools' own main() functions run unmodified, each linked with a private copy of the libraries; scheduler, pipes, stdio streams, signals and the audio channel are simulated. Trusts the independent encoder/checksum model in lib/horusref.py.",
 "C": "Seeded search, not enumeration. The generated C library of the working tree runs unmodified under a simulated allocator and output consumer, with ASan and UBSan; the station side is the real decoder. Trusts asn1tools as the station's codec.",
 "M": "Seeded search, not enumeration. The modem code of the working tree runs unmodified inside one simulated process; transmitter, channel, block schedule, allocator contents are simulated and decided by the seed. Trusts the independent encoder/checksum model in lib/horusref.py and an ideal FSK modulator.",
 "P": "Seeded search, not enumeration. The Python station code of the working tree runs unmodified in one process under simulated time, threads, sockets, HTTP server, disk and stdin. Trusts the reference model in lib/pchecks.py, and that pre-emption at Python lines and blocking calls is the granularity that matters."}
NA = {"N01": "A pure function of one raw field value: no schedule, time, I/O, randomness or second party for a simulator to control; deterministic simulation adds nothing to calling the codec (the parts of it that matter across the whole path are decided under P13).",
      }
checks, na = [], []
for p in props:
    i = p["id"]
    if i in DONE:
        checks.append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, TECH[i[0]]), "level": "exploration", "level_note": NOTE.get(i, NOTE[i[0]])})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction; not claimed yet")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks were needed in /repo: every seam is an API, a libc/stdio stream or a Python module attribute. fix: commits in /repo are listed in known_findings.txt. bin/replay FILE re-executes a recorded violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
