#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording is easy to diff)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

prop("M01", "Binary frames within the error-correction budget are delivered exactly",
 "Every Horus Binary frame (v1 22 bytes, v2 32 bytes, v3 32/48/64/96/128 bytes) whose bits reach a running receiver with at most one bit error in the 16-bit sync word and at most three bit errors in any 23-bit code word is delivered byte-for-byte with a passing checksum. This holds whatever was on the channel before it (noise, silence, interference, truncated or corrupted frames, other packets, dropped or repeated samples) and however the frame falls across demodulation blocks. The frame is delivered no later than four blocks after its last bit arrives.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "all payloads of each size, all error patterns within the budget, all channel histories before the frame, all frame/block alignments, symbol rates and real/IQ input",
 "the ctest cases replay one recording per format; none injects bit errors, frames after damaged traffic, or controls frame/block alignment",
 ["src/horus_api.c", "src/horus_l2.c", "src/golay23.c", "src/fsk.c"],
 [("sync search and candidate tracking", "src/horus_api.c: horus_find_uw, horus_rx"),
  ("per-size extraction and CRC", "src/horus_api.c: extract_horus_binary_v1, extract_horus_binary_v2_256"),
  ("Golay(23,12), interleaver, scrambler", "src/horus_l2.c, src/golay23.c")],
 [("bit history", "received bits awaiting a complete frame", "src/horus_api.c: rx_bits, uw_loc")],
 ["return value and text of horus_rx"])

prop("M02", "Nothing is delivered as good unless its own checksum verifies",
 "Whenever a receiver reports a packet with a passing checksum, the delivered payload (binary hex or RTTY sentence) is complete, has one of the legal sizes, and verifies under an independent computation of the checksum it carries; an RTTY checksum must be four hexadecimal digits. The checksum status reported for a block always refers to the text produced by that block, never to an earlier packet, so damaged or unfinished data is never passed on as verified. This holds for any signal, including noise, adversarial near-miss frames and over-long sentences.",
 ["inputs", "histories", "fault_sequences"],
 "all bit streams and all sequences of good, damaged, over-long and truncated packets, through both the C interface and the Python wrapper",
 "the tests count CRC OK lines of good recordings; no test checks what happens to a damaged packet following a good one",
 ["src/horus_api.c", "horusdemodlib/demod.py"],
 [("CRC comparison at frame head / tail", "src/horus_api.c: extract_horus_binary_v2_256"),
  ("RTTY checksum parsing", "src/horus_api.c: extract_horus_rtty, hex2int"),
  ("crc_pass of a frame", "horusdemodlib/demod.py: demodulate")],
 [("crc status", "result of the last extraction attempt", "src/horus_api.c: crc_ok")],
 ["horus_rx / horus_crc_ok", "Frame.data and Frame.crc_pass"])

prop("M03", "Each transmitted packet is delivered once, and in transmission order",
 "A receiver that is fed a stream containing a sequence of decodable packets reports each of them exactly once, in the order they were transmitted, and reports nothing it was not sent as long as the rest of the stream is not itself a checksum-valid packet. Damaged packets, gaps, long runs of sync characters and back-to-back packets in between do not cause repeats, swaps or losses of their neighbours.",
 ["histories", "fault_sequences", "inputs"],
 "all sequences of packets of mixed sizes and formats with arbitrary gaps, damaged packets and sync runs between them, including byte-identical repeats",
 "tests compare a count of lines on single-format recordings with regular gaps",
 ["src/horus_api.c"],
 [("candidate bookkeeping across blocks", "src/horus_api.c: horus_rx (uw_loc update and clearing)"),
  ("one packet returned per block", "src/horus_api.c: horus_rx")],
 [("candidate list", "positions of sync words still awaiting data", "src/horus_api.c: uw_loc, uw_count")],
 ["sequence of packets returned by horus_rx"])

prop("M04", "RTTY sentences are delivered in each character framing, whatever surrounds them",
 "A UKHAS sentence of up to 100 characters preceded by two to eight dollar signs and sent with the configured framing (7N1, 7N2 or 8N2) over a clean channel is delivered with the text and checksum exactly as sent. Earlier damaged, truncated, over-long or line-noise characters, idle tone of up to 400 bits, and the alignment of the sentence to demodulation blocks do not prevent it.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "all sentences up to the length limit, three framings, all idle/garbage/previous-sentence histories and alignments, through the C interface and the Python wrapper",
 "two recordings (7N1 and 8N2) of ordinary sentences are all the tests play",
 ["src/horus_api.c", "horusdemodlib/demod.py"],
 [("RTTY extraction", "src/horus_api.c: extract_horus_rtty"),
  ("text extraction", "horusdemodlib/demod.py: demodulate")],
 (), ["horus_rx text", "Frame.data"])

prop("M05", "No input signal can crash, hang or corrupt a receiver",
 "For every supported configuration and every finite stream of 16-bit samples, a receiver consumes the stream without abort, out-of-bounds access, undefined arithmetic or non-termination, and always asks for a positive number of samples no larger than its advertised maximum. It writes at most the advertised output length, terminated, and it still decodes a clean packet sent afterwards.",
 ["inputs", "fault_sequences", "configurations"],
 "all sample streams (random, saturated, silent, adversarially modulated bits, abrupt level/frequency jumps, stalls) for all modes, real and IQ input, estimator limits and tone-spacing settings",
 "tests feed well-formed recordings only and run without sanitizers",
 ["src/horus_api.c", "src/fsk.c", "src/horus_l2.c", "src/kiss_fft.c"],
 [("buffer sizing", "src/horus_api.c: horus_get_max_ascii_out_len, horus_get_max_demod_in"),
  ("timing/NaN guards", "src/fsk.c: fsk_demod_core")],
 (), ["ASan/UBSan report", "guard bytes around caller buffers", "recovery packet"])

prop("M06", "Receivers are independent and deterministic",
 "What a receiver reports depends only on its own configuration and samples: the same stream gives the same packets and statistics whether it runs alone or interleaved block-by-block with any number of other receivers of any mode, before or after other receivers are opened and closed, and whatever the allocator returns in fresh memory. Reading statistics, status or version between blocks changes nothing.",
 ["schedules", "configurations", "histories"],
 "all interleavings of operations on several receivers, all open/close orders, all contents of freshly allocated memory",
 "every test runs a single receiver in its own process on zero-filled fresh heap pages",
 ["src/horus_api.c", "src/fsk.c", "src/horus_l2.c", "src/golay23.c", "src/kiss_fft.c"],
 [("all state held in the instance", "src/horus_api.h: struct horus"),
  ("shared code tables initialised on open", "src/golay23.c: golay23_init"),
  ("statistics initialised at creation", "src/fsk.c: stats_init")],
 (), ["per-receiver event log compared with its solo run"])

prop("M07", "Opening, running and closing receivers leaks nothing",
 "After any sequence of opening receivers in any mode, feeding them any amount of signal, reading statistics and closing them, in any interleaving, the process holds no more heap memory than before the sequence started.",
 ["histories", "schedules", "configurations"],
 "all open/run/close sequences over all modes, including closing with no sample processed and closing mid-packet",
 "each test process opens one receiver and exits",
 ["src/horus_api.c", "src/fsk.c"],
 [("teardown", "src/horus_api.c: horus_close"), ("modem teardown", "src/fsk.c: fsk_destroy")],
 (), ["allocator's in-use byte count"])

prop("M08", "Clean signals decode across clock skew, tuning, level and start time",
 "A clean packet preceded by its preamble is decoded when the transmitter's symbol clock differs from the receiver's by up to 1000 ppm in either direction, for any carrier placement that keeps all tones inside the search range, any amplitude from 200 to full scale, and any sub-symbol start offset, with and without a configured tone spacing. Packets keep decoding when the carrier drifts or steps between packets and when the stream has gaps.",
 ["inputs", "configurations", "fault_sequences"],
 "all clock skews within the bound, carriers, amplitudes, start phases, symbol rates and gap patterns",
 "each recording has one transmitter with one clock offset, level and frequency",
 ["src/fsk.c", "src/horus_api.c"],
 [("tone frequency estimator", "src/fsk.c: fsk_demod_freq_est"),
  ("timing recovery and adaptive block length", "src/fsk.c: fsk_demod_core"),
  ("search range", "src/horus_api.c: horus_set_freq_est_limits")],
 (), ["packets returned by horus_rx"])

prop("M09", "The streaming wrapper's output does not depend on how audio arrives",
 "Feeding the Python receiver the same audio in any division into pieces (single bytes, odd byte counts, empty pieces, large blocks) produces the same packets in the same order through its callback as processing it block by block, and the same as the C library on the same samples. This also holds with an input sample rate other than the modem's (resampling loses or duplicates nothing), for real and IQ input, and for several receivers used alternately.",
 ["inputs", "schedules", "configurations"],
 "all chunkings of all streams, sample rates 8000-96000, real and IQ, interleaved wrapper instances",
 "no test exercises the Python wrapper's streaming interface at all",
 ["horusdemodlib/demod.py"],
 [("sample buffering", "horusdemodlib/demod.py: add_samples"),
  ("resampling", "horusdemodlib/demod.py: demodulate")],
 [("input buffer", "bytes not yet demodulated", "horusdemodlib/demod.py: input_buffer")],
 ["callback frames"])

prop("M10", "The command-line demodulators are insensitive to I/O timing and lose nothing",
 "For any audio byte stream, the lines printed by the command-line demodulators (C and Python) depend only on the bytes, not on how reads are split or delayed, and every complete packet contained in whole input blocks is printed once, in order. Each packet is visible to the consumer of the output (flushed) before the tool waits for further input. At end of input, however abrupt (mid-sample, mid-packet, empty stream), the tool terminates normally.",
 ["fault_sequences", "inputs", "crash_points"],
 "all splits of the input into short reads, all truncation points, all modes, with and without statistics output",
 "ctest pipes complete regular files through the C tool and looks only at the final output; the Python tool is not run",
 ["src/horus_demod.c", "horusdemodlib/demod.py"],
 [("read loop", "src/horus_demod.c: main"), ("read loop and callback", "horusdemodlib/demod.py: main")],
 (), ["bytes visible on standard output before each read", "exit status"])

prop("M11", "Reported modem statistics are defined, bounded and truthful",
 "From the moment a receiver is opened its statistics are defined (zero before any signal) and all reported values are finite. While a clean signal is being received, each reported tone frequency is within one analysis bin plus one tenth of a symbol rate of the true tone when the tones are two or more whole symbol rates apart (half a symbol rate otherwise), inside the configured search limits, and in ascending order; the reported clock offset has the sign of the true skew when the skew exceeds 300 ppm; and SNR reported for a clean signal exceeds that reported for noise alone.",
 ["inputs", "configurations", "histories"],
 "all configurations, carriers and skews; all points in time at which statistics are read",
 "no test reads statistics",
 ["src/fsk.c", "src/horus_api.c"],
 [("statistics initialisation", "src/fsk.c: stats_init"), ("statistics update", "src/fsk.c: fsk_demod_core"),
  ("export", "src/horus_api.c: horus_get_modem_extended_stats")],
 (), ["horus_get_modem_extended_stats"])

prop("M12", "Receivers in different threads do not disturb one another",
 "Every receiver may be used from a thread of its own, and so may the packet encoder and decoder. Wherever the processor switches between the threads, inside library calls included, and whatever the others are doing (opening, receiving, being asked for statistics, closing, encoding, decoding packets), each receiver reports exactly the packets, statuses and statistics, and each coder call the result, that it gives when it runs alone, and nothing crashes. (One receiver is used by one thread at a time. The Python wrapper's calls release the interpreter lock, so that Python threads are such threads.)",
 ["schedules", "histories", "configurations"],
 "all interleavings, down to single memory accesses of the library, of threads which own receivers of any mode or encode and decode packets, over their whole life including concurrent opening and closing",
 "every test is single-threaded and has one receiver per process; a race needs a particular switch inside a library call, and a test could not repeat it",
 ["src/horus_api.c", "src/fsk.c", "src/golay23.c", "src/horus_l2.c", "src/kiss_fft.c"],
 [("instance-only state", "src/horus_api.c: struct horus"), ("modem state and its work buffers", "src/fsk.c: fsk_demod_core"),
  ("shared code tables initialised on open", "src/golay23.c: golay23_init"), ("packet coder work buffers", "src/horus_l2.c: horus_l2_encode_tx_packet, horus_l2_decode_rx_packet, interleave"),
  ("FFT work buffers", "src/kiss_fft.c: kiss_fft_stride")],
 (), ["horus_rx output, status and statistics of each thread, packets encoded and decoded"])

prop("P01", "The telemetry handler survives every input line",
 "Whatever lines arrive from the demodulator (text that is not hexadecimal, odd-length or truncated hex, bad checksums, malformed or wrongly typed statistics, undecodable bytes, blank lines, lines for unknown formats), the telemetry handler neither stops nor hangs, and every valid packet line after them is processed exactly as if they had not been there. It stops only on end of input or an operator interrupt.",
 ["inputs", "histories", "fault_sequences"],
 "all line sequences mixing valid packets with corrupted, torn and adversarial lines",
 "tests feed one good line followed by end of input",
 ["horusdemodlib/uploader.py", "horusdemodlib/decoder.py", "horusdemodlib/demodstats.py"],
 [("per-line exception containment", "horusdemodlib/uploader.py: main"),
  ("hex parsing", "horusdemodlib/uploader.py: main"), ("statistics parsing", "horusdemodlib/demodstats.py: update")],
 (), ["telemetry log, UDP summaries and uploads compared with a run without the bad lines"])

prop("P02", "Every sink gets every valid packet, whatever happens to the other sinks",
 "Each valid packet read by the telemetry handler is announced over UDP (unless its position is exactly zero or it carries no altitude), queued for upload (if eligible) and written to the telemetry log, once each and in arrival order. A failing network socket, a failing or slow upload server, or a failing log write affects only that sink and only while the failure lasts; in particular the other sinks receive the packet being handled when the fault strikes.",
 ["fault_sequences", "histories", "schedules"],
 "all sequences of valid packets of every format and all fault sequences on socket, HTTP and log file",
 "tests count calls of one sink on a single packet with every other sink healthy or mocked",
 ["horusdemodlib/uploader.py", "horusdemodlib/horusudp.py", "horusdemodlib/sondehubamateur.py", "horusdemodlib/utils.py"],
 [("fan-out", "horusdemodlib/uploader.py: main"), ("UDP error containment", "horusdemodlib/horusudp.py: send_payload_summary"),
  ("decoupled upload queue", "horusdemodlib/sondehubamateur.py: add, process_queue")],
 (), ["simulated UDP datagrams, HTTP requests, log file contents"])

prop("P03", "Uploads are delivered once, in order, with bounded retries",
 "Every packet accepted for upload appears in exactly one upload batch, in acceptance order; a batch answered with a temporary server error is re-sent unchanged until acknowledged or until five attempts have been made, and is never re-sent once acknowledged, rejected or ended by a connection failure. A failed batch never blocks or alters later ones: when the server works again, every packet accepted afterwards is delivered within 60 simulated seconds. This holds under every interleaving of the receiving and uploading threads.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of producer and uploader, all response sequences (200, 202 with or without a body, 4xx, 5xx, timeouts, connection resets, lost responses, slow responses)",
 "tests mock the HTTP call with a constant 200 and never vary timing",
 ["horusdemodlib/sondehubamateur.py"],
 [("queue drain", "horusdemodlib/sondehubamateur.py: process_queue"),
  ("retry loop", "horusdemodlib/sondehubamateur.py: upload_telemetry")],
 [("input queue", "telemetry not yet batched", "horusdemodlib/sondehubamateur.py: input_queue")],
 ["HTTP request log of the simulated server"])

prop("P04", "Shutdown loses nothing and always completes",
 "When the demodulator's output ends or the operator interrupts the telemetry handler, every packet accepted for upload before that moment is still given its upload attempt, nothing new is sent afterwards, and the process finishes with all threads ended within five simulated minutes. This holds with uploading disabled, and whatever the server or network does during shutdown.",
 ["schedules", "crash_points", "fault_sequences"],
 "all moments of end-of-input/interrupt relative to the uploader's activity, all server behaviours during shutdown, with uploads enabled or disabled",
 "tests end input after one line with the sleeps stubbed out and never look at what was still queued",
 ["horusdemodlib/uploader.py", "horusdemodlib/sondehubamateur.py"],
 [("close and join", "horusdemodlib/uploader.py: main"), ("stop flag", "horusdemodlib/sondehubamateur.py: close, process_queue")],
 (), ["simulated process exit, HTTP request log"])

prop("P05", "The station position is reported on schedule",
 "While uploads are enabled the station's listing (callsign, most recently set position, radio, antenna, software) is sent at start-up and then once every six hours of simulated time, to within one minute plus the time the requests themselves take. A failed or rejected report is retried at most five times in one go and then not before the next period; telemetry uploads continue in between. With no configured position, the listing carries no position.",
 ["schedules", "fault_sequences", "histories"],
 "all run lengths, server response sequences and telemetry loads over simulated days",
 "six-hour timers are never reached by a test",
 ["horusdemodlib/sondehubamateur.py"],
 [("position timer", "horusdemodlib/sondehubamateur.py: process_queue, station_position_upload")],
 [("last upload time", "when the listing was last attempted", "horusdemodlib/sondehubamateur.py: last_user_position_upload")],
 ["HTTP request log of the simulated server"])

prop("P06", "Uploaded timestamps are the true transmission time, across midnight and skew",
 "For any receiver clock instant and any payload clock within three minutes of it, the uploaded date and time equal the payload's true time of day on the correct UTC date, including across midnight, month ends, leap days and year ends. Telemetry whose time of day is more than three minutes from the receiver clock is not uploaded.",
 ["inputs", "fault_sequences", "histories"],
 "all instants and clock offsets (receiver slow, fast, stepping), packet formats v1/v2/v3/RTTY",
 "tests pin the clock to one instant and disable the time check",
 ["horusdemodlib/delegates.py", "horusdemodlib/utils.py", "horusdemodlib/decoder.py"],
 [("date reconstruction", "horusdemodlib/delegates.py: fix_datetime"), ("three-minute gate", "horusdemodlib/utils.py: telem_to_sondehub")],
 (), ["datetime and time_received of uploaded telemetry"])

prop("P07", "Ineligible telemetry is never uploaded, eligible telemetry always is",
 "Telemetry whose payload ID is unknown, which is marked by its sender as not for this network, which has no usable position or altitude, or which is outside the time window never leaves the station in an upload, under any interleaving or list update. All other valid telemetry is uploaded with the callsign that the ID list in force at that moment assigns.",
 ["histories", "schedules", "inputs"],
 "all sequences of packets from known, unknown and newly listed payloads, with list updates arriving in between",
 "tests check one packet each with a fixed list",
 ["horusdemodlib/utils.py", "horusdemodlib/uploader.py", "horusdemodlib/delegates.py"],
 [("eligibility gate", "horusdemodlib/utils.py: telem_to_sondehub"), ("ID lookup", "horusdemodlib/delegates.py: decode_payload_id")],
 (), ["HTTP request log of the simulated server"])

prop("P08", "Unknown payloads trigger bounded list refreshes that never lose knowledge",
 "An unknown payload ID triggers a refresh of the payload lists at most once every 30 minutes, does so whenever 30 minutes have passed, and a successful refresh applies to the very packet that triggered it. A refresh that fails in any way (connection, timeout, error page, truncated or malformed body, unwritable cache) leaves every payload name and field layout known before it still known. No refresh happens when downloads are disabled.",
 ["fault_sequences", "histories", "inputs"],
 "all sequences of unknown/known packets over simulated hours and all download/disk fault sequences",
 "the download path is never exercised by a test (no network)",
 ["horusdemodlib/uploader.py", "horusdemodlib/payloads.py"],
 [("rate limit", "horusdemodlib/uploader.py: main (next_download_time)"),
  ("fallback to local data", "horusdemodlib/payloads.py: init_payload_id_list, init_custom_field_list")],
 [("lists in force", "ID to callsign map, custom field layouts", "horusdemodlib/payloads.py: HORUS_PAYLOAD_LIST, HORUS_CUSTOM_FIELDS")],
 ["HTTP request log; callsign and custom fields of subsequent packets"])

prop("P09", "The on-disk list caches survive crashes and disk errors",
 "If the station stops at any instant while the payload or custom-field list is being updated on disk (power loss with unsynced data lost or torn, kill, full disk, I/O error), then on the next start without network every payload known from the last completed update, or from the one in progress, still decodes to its name and fields: the cache is the old list or the new list, never a part of one. A downloaded list that does not parse never replaces a good cache.",
 ["crash_points", "fault_sequences"],
 "all crash points and disk faults during cache updates, for both list files, followed by an offline restart",
 "no test writes a cache file, let alone interrupts it",
 ["horusdemodlib/payloads.py"],
 [("cache update", "horusdemodlib/payloads.py: download_latest_payload_id_list, download_latest_custom_field_list"),
  ("cache read at start", "horusdemodlib/payloads.py: read_payload_list, read_custom_field_list")],
 [("cache files", "last good lists", "payload_id_list.txt, custom_field_list.json")],
 ["callsigns and custom fields decoded after an offline restart"])

prop("P10", "Signal statistics attached to telemetry reflect only the averaging window",
 "The SNR, clock offset and tone spacing attached to a packet are computed (peak or mean, as configured) from exactly the statistics reports received within the averaging period that ends with the latest report, as the clock measures it, however reports are delayed, bunched or lost, and across clock steps in either direction; the centre frequency is that of the latest report. Malformed, incomplete or non-finite reports change nothing.",
 ["histories", "fault_sequences", "schedules"],
 "all arrival patterns of reports and packets, all clock steps, all malformed reports",
 "two tests feed evenly spaced well-formed reports with a monotonic clock",
 ["horusdemodlib/demodstats.py", "horusdemodlib/uploader.py"],
 [("windowed samples", "horusdemodlib/demodstats.py: update")],
 [("sample window", "reports inside the averaging period", "horusdemodlib/demodstats.py: samples")],
 ["snr, frequency and tone_spacing of uploads and UDP summaries"])

prop("P11", "Sensor names stay with the payload and slot that announced them",
 "A sensor value received without a name is reported under the name most recently announced by the same payload for the same sensor slot since start-up, or as unnamed if there was none; names never leak between payloads or slots. This holds under any loss, duplication or reordering of packets from any number of payloads, and a packet that fails its checksum or decoding announces nothing.",
 ["histories", "fault_sequences"],
 "all interleavings, losses, duplications and reorderings of named and unnamed packets from several payloads, with restarts",
 "one test sends three packets of one payload in order",
 ["horusdemodlib/decoder.py"],
 [("name cache", "horusdemodlib/decoder.py: decode_packet (HORUS_V3_NAME_CACHE)")],
 [("name cache", "per-payload, per-slot names", "horusdemodlib/decoder.py: HORUS_V3_NAME_CACHE")],
 ["field names in UDP summaries and uploads"])

prop("P12", "UDP announcements degrade to localhost and never leak or block",
 "Each announcement is sent exactly once: as a broadcast, or to localhost when the broadcast send fails; if both fail the packet is skipped and later announcements are unaffected. No announcement attempt, successful or not, leaves a socket open or raises into the caller, for any sequence of socket errors. The announcement carries the packet's own callsign, position, time and measured fields.",
 ["fault_sequences", "histories"],
 "all sequences of socket failures at every socket operation, over thousands of announcements, for summary and OziMux messages",
 "one test sends one message on a working loopback",
 ["horusdemodlib/horusudp.py"],
 [("fallback", "horusdemodlib/horusudp.py: send_payload_summary, send_ozimux_message")],
 (), ["datagrams and open sockets of the simulated network"])

prop("P13", "Telemetry arrives at the server as it was encoded on the payload",
 "Telemetry values encoded with the library's packet encoder, sent through the modem over a channel whose errors stay within the correction budget, demodulated and handled by the station software, arrive at the server and in the UDP announcement with the same payload, sequence number, time, position, altitude and sensor values (to the resolution of the format). No other telemetry arrives.",
 ["inputs", "fault_sequences", "histories"],
 "all field values in range for v1, v2 and v3 packets, all tolerable channel faults, all packet sequences",
 "tests cover encoder, modem, decoder and uploader separately on single constant packets; nothing covers the chain",
 ["horusdemodlib/encoder.py", "src/horus_l2.c", "src/horus_api.c", "horusdemodlib/demod.py", "horusdemodlib/decoder.py", "horusdemodlib/uploader.py"],
 [("encoding", "horusdemodlib/encoder.py: create_horus_v2_packet"), ("FEC", "src/horus_l2.c"),
  ("decoding", "horusdemodlib/decoder.py: decode_packet")],
 (), ["HTTP bodies and datagrams of the simulated network"])

prop("P14", "The telemetry log is an append-only record that survives kills and restarts",
 "Each successfully decoded packet is one complete line of the telemetry log, in arrival order, written before the next input line is handled. Killing the telemetry handler at any instant leaves every earlier line intact and at most the packet in hand missing; restarting continues the same file without altering what is there. When the disk fills up and later has space again, logging resumes and lines written before and after are intact.",
 ["crash_points", "fault_sequences", "histories"],
 "all kill points, restarts and disk-full episodes over sequences of packets of every format",
 "tests disable the log file",
 ["horusdemodlib/uploader.py"],
 [("append and flush per packet", "horusdemodlib/uploader.py: main")],
 (), ["contents of the simulated log file at each kill point"])

prop("P15", "One bad value never poisons other telemetry: everything sent is valid JSON",
 "Every upload body and UDP announcement is a valid, standard JSON document, whatever field values the packets carry (including not-a-number and infinite floats in any field of any format, extreme integers and arbitrary text), whatever the statistics lines contain. A packet with unusable values never prevents, delays or alters the upload of other packets batched with it.",
 ["inputs", "histories", "schedules"],
 "all packet contents that pass their checksum, batched with other packets under all upload schedules",
 "tests use ordinary finite values and do not parse what is sent",
 ["horusdemodlib/utils.py", "horusdemodlib/horusudp.py", "horusdemodlib/sondehubamateur.py", "horusdemodlib/delegates.py", "horusdemodlib/decoder.py"],
 [("field validation", "horusdemodlib/delegates.py"), ("serialisation", "horusdemodlib/sondehubamateur.py: upload_telemetry")],
 (), ["HTTP bodies and datagrams of the simulated network"])

prop("C01", "The C codec for v3 telemetry and the station agree, whatever fails",
 "A v3 telemetry record whose values are within the documented ranges is accepted and encoded by the generated C library and decodes at the station to the same record; a record encoded by the station's codec, including one with extension fields the C library does not know, decodes in C to the same record. A value outside its documented range is refused by the C encoder or by its constraint check, never sent as another value. When an allocation fails, the output consumer refuses data or the caller's buffer is too small at any point of a call, the call reports failure; nothing leaks, nothing outside the buffer is written, and the same call repeated with sufficient resources gives the same bytes or record as ever. Arbitrary, truncated, damaged or padded input, also with failing allocations or little stack, is refused or decoded (and what is decoded and within its ranges can be encoded again, to a packet with the same record), and never makes the C codec crash, hang, leak or touch memory that is not its own.",
 ["inputs", "histories", "fault_sequences"],
 "all records and byte strings, all sequences of codec calls with failing allocations, refused output and short buffers, all link damage",
 "the tests encode and decode a handful of records with everything available",
 ["horusbinaryv3/clib/per_opentype.c", "horusbinaryv3/clib/per_support.c", "horusbinaryv3/clib/per_encoder.c", "horusbinaryv3/clib/constr_SEQUENCE.c", "horusbinaryv3/clib/constr_SET_OF.c", "horusbinaryv3/clib/OCTET_STRING.c", "horusbinaryv3/HorusBinaryV3.asn1", "horusdemodlib/decoder.py"],
 [("PER encoding and decoding", "horusbinaryv3/clib/per_*.c, constr_*_uper / *_decode_uper, *_encode_uper"),
  ("constraint checks", "horusbinaryv3/clib/constraints.c and the generated *_constraint functions"),
  ("station side", "horusdemodlib/decoder.py: HORUS_ASN")],
 (), ["return values, output bytes, decoded structures and allocator balance of the simulated C node", "records decoded by the simulated station"])

prop("T01", "The transmit and test tools pass frames and bits intact through pipes",
 "The bundled command-line tools, connected by pipes or files as TESTING.md shows (horus_gen_test_bits | fsk_mod | horus_demod, and fsk_get_test_bits | fsk_mod | fsk_demod | fsk_put_test_bits), work for every mode, number of frames, supported sample and symbol rate, tone plan and sample format. horus_gen_test_bits writes exactly the requested frames, each a valid packet of its mode with consecutive counters. fsk_mod turns every complete block of bits into exactly those symbols of continuous-phase, constant-level audio, and only the incomplete last block is left out. horus_demod prints every frame the audio carries within the error-correction budget, once and in order, and nothing else; fsk_demod returns the bits that were sent, as hard or soft decisions, and reports test frames, tones and JSON statistics truly; fsk_put_test_bits counts frames, bits and errors exactly and passes or fails (text and exit status) according to its thresholds. What a tool writes depends only on the bytes it read, never on how the operating system divides, delays or buffers the pipes; a tool reading a live pipe delivers the result of every complete block before it waits for more; and whatever ends a stage - end of input, a read error, SIGTERM, the death of a neighbour - the others finish by themselves and everything complete up to there has been delivered, unaltered.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "all modes, frame counts, rates, tone plans, formats, bit-error patterns within the budget, divisions and delays of every pipe, and all points at which a stage ends",
 "no test connects the transmit tools to the receivers, divides their pipes, injects bit errors or ends a stage early",
 ["src/horus_gen_test_bits.c", "src/fsk_mod.c", "src/horus_demod.c", "src/fsk_get_test_bits.c", "src/fsk_demod.c", "src/fsk_put_test_bits.c", "src/fsk.c"],
 [("frame generation", "src/horus_gen_test_bits.c: main"), ("modulator", "src/fsk_mod.c: main, src/fsk.c: fsk_mod"),
  ("demodulators", "src/fsk_demod.c: main, src/horus_demod.c: main, src/fsk.c: fsk_demod_core"), ("bit-error counting", "src/fsk_put_test_bits.c: main, src/fsk_demod.c: test frames")],
 (), ["bytes on every pipe, stderr and exit status of every stage of the simulated pipeline"])

prop("N01", "Field codecs convert every raw value as documented",
 "Each packet field codec (time, degrees, voltages, scaled integers, custom fields) converts every in-range raw value to its documented engineering value and rejects every out-of-range one.",
 ["inputs"], "all raw field values of each codec",
 "tests sample a few values of each codec",
 ["horusdemodlib/delegates.py", "horusdemodlib/decoder.py"],
 [("codecs", "horusdemodlib/delegates.py: decode_field")])

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
