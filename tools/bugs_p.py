from pdemo import files
BUGS = []
D = "horusdemodlib/"
UP, SA, UT, DL, DE, DS, HU, PL, EN = (D + x for x in ("uploader.py", "sondehubamateur.py", "utils.py", "delegates.py", "decoder.py", "demodstats.py", "horusudp.py", "payloads.py", "encoder.py"))


def bug(id, property, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, files=files(demo), **k))


bug("p01-blank-eof", "P01", [(UP, "if (data == ''):\n                # Empty", "if (data.strip() == ''):\n                # Empty")],
    "a blank line among the lines from the demodulator", "a blank line is taken for the end of the input, and the handler stops",
    '''s = run([v1(seq=1), "", v1(seq=2), 6], args=["--nodownload"])
check([p["frame"] for p in s.packets()] == [1, 2], s.packets())''')

bug("p01-value-error-only", "P01", [(UP, '''                except Exception as e:
                    logging.error(f"Decode Failed: {e}")''', '''                except ValueError as e:
                    logging.error(f"Decode Failed: {e}")''')],
    "a v3 packet with a good checksum whose contents break the format's constraints or do not decode", "the handler stops with a traceback on such a line",
    '''s = run([v1(seq=1), v3(alt=51000, check=False), v1(seq=2), 6], args=["--nodownload"])
check(s.error is None and [p["frame"] for p in s.packets()] == [1, 2], (s.error, s.packets()))''')

bug("p02-log-first", "P02", [(UP, '''                    # Upload the string to Sondehub Amateur
                    sondehub_uploader.add(_decoded)

                    if _logfile:
                        _logfile.write(_decoded['ukhas_str']+'\\n')
                        _logfile.flush()
''', '''                    if _logfile:
                        _logfile.write(_decoded['ukhas_str']+'\\n')
                        _logfile.flush()

                    # Upload the string to Sondehub Amateur
                    sondehub_uploader.add(_decoded)
''')], "a failing write to the telemetry log (full disk) while a binary packet is handled", "the packet being handled is not uploaded",
    '''full = [False]
class F:
    def __init__(self, f): self.f = f
    def write(self, x):
        if full[0]: raise OSError(28, "No space left on device")
        return self.f.write(x)
    def __getattr__(self, n): return getattr(self.f, n)
def op(o, path, *a, **k):
    f = o(path, *a, **k)
    return F(f) if str(path).endswith("telemetry.log") else f
s = run([v1(seq=1), lambda s: full.__setitem__(0, True), v1(seq=2), lambda s: full.__setitem__(0, False), v1(seq=3), 6], args=["--nodownload"], opener=op)
check([p["frame"] for p in s.packets()] == [1, 2, 3], s.packets())''')

bug("p02-zero-position", "P02", [(HU, 'if telemetry["latitude"] == 0.0 and telemetry["longitude"] == 0.0:', 'if telemetry["latitude"] == 0.0 or telemetry["longitude"] == 0.0:')],
    "a payload exactly on the equator or on the Greenwich meridian", "its telemetry is not announced over UDP",
    '''s = run([v1(seq=1, lat=51.5, lon=0.0), v1(seq=2, lat=0.0, lon=0.0), v3(seq=3, lat=0), 6], args=["--nodownload"])
check([(p["latitude"], p["longitude"]) for _, p in s.udp] == [(51.5, 0.0), (0.0, 138.5)], s.udp)''')

bug("p03-202-body", "P03", [(SA, '''                    self.log_debug("Content of 202 response: %s" % _req.text)

                _upload_success = True
                break
''', '''                    self.log_debug("Content of 202 response: %s" % _req.text)
                    _retries += 1
                else:
                    _upload_success = True
                    break
''')], "the server accepts a batch with status 202 and a body which is not the expected JSON", "a batch which was accepted is sent again, up to five times",
    '''s = run([v1(seq=1), 6], args=["--nodownload"], put=lambda s, k, b: Resp(202, "accepted") if k == "telemetry" else 200)
check(len(s.uploads) == 1, s.uploads)''')

bug("p03-requeue", "P03", [(SA, '''            except Exception as e:
                self.log_error("Upload Failed: %s" % str(e))
                return
''', '''            except Exception as e:
                self.log_error("Upload Failed, will try again: %s" % str(e))
                if isinstance(e, requests.exceptions.Timeout):
                    for _telem in telem_list:
                        self.input_queue.put(_telem)
                return
''')], "a telemetry upload which times out, followed by a working server", "the server may have had the batch: it gets it again, after or among later packets",
    '''import requests
n = [0]
def put(s, k, b):
    if k == "telemetry":
        n[0] += 1
        if n[0] == 1:
            return requests.exceptions.ReadTimeout("slow")
s = run([v1(seq=1), 8, v1(seq=2), 8], args=["--nodownload"], put=put)
check([p["frame"] for p in s.packets()] == [1, 2], s.packets())''')

bug("p04-drain-stop", "P04", [(SA, "while self.input_queue.qsize() > 0:", "while self.input_processing_running and self.input_queue.qsize() > 0:")],
    "packets waiting for upload at the moment the uploader is closed", "they are never given an upload attempt",
    '''s = run([v1(seq=1), 6, v1(seq=2), v1(seq=3)], args=["--nodownload"])
check(s.ended and [p["frame"] for p in s.packets()] == [1, 2, 3], s.packets())''')

bug("p04-endless-503", "P04", [(SA, '''                # Server Error, Retry.
                _retries += 1
                continue

            else:
                self.log_error(
                    "Error uploading to Sondehub''', '''                # Server Error, Retry.
                if _req.status_code != 503:
                    _retries += 1
                continue

            else:
                self.log_error(
                    "Error uploading to Sondehub''')], "a server which keeps answering 503 (unavailable) at shutdown", "the upload is repeated for ever and the process never ends",
    '''n = [0]
def put(s, k, b):
    if k == "telemetry":
        n[0] += 1
        return 503 if n[0] < 400 else 200
s = run([v1(seq=1), 0], args=["--nodownload"], put=put)
check(s.ended and n[0] <= 5, n)''')

bug("p05-failed-report", "P05", [(SA, '''                self.log_error("Station position upload failed: %s" % str(e))
                self.last_user_position_upload = time.time()
                return''', '''                self.log_error("Station position upload failed: %s" % str(e))
                return''')], "a connection failure while the station listing is sent", "the listing is tried again every two seconds rather than in the next period",
    '''import requests
s = run([60], args=["--nodownload"], put=lambda s, k, b: requests.ConnectionError("x") if k == "listeners" else 200)
check(len(s.listeners) == 1, s.listeners)''')

bug("p05-first-position", "P05", [(SA, '''            # Don't update the internal position array if we aren't uploading our position.
            return
        else:
            self.user_position = (lat, lon, alt)''', '''            # Don't update the internal position array if we aren't uploading our position.
            return
        elif alt > self.user_position[2]:
            self.user_position = (lat, lon, alt)''')], "a station position update to an altitude not above the present one", "the listing keeps an old position",
    '''s = run([lambda s: setattr(s.uploaders[0], "user_position_update_rate", 0.05), 10, lambda s: s.uploaders[0].update_station_position(-30.0, 130.0, 50.0), 190, lambda s: s.uploaders[0].update_station_position(-31.0, 131.0, 20.0), 190], args=["--nodownload"], pos=(-34.0, 138.0))
check([tuple(l["uploader_position"]) for _, l in s.listeners] == [(-34.0, 138.0, 0.0), (-30.0, 130.0, 50.0), (-31.0, 131.0, 20.0)], s.listeners)''')

bug("p06-rollover-window", "P06", [(DL, "if _now.hour == 23 or _now.hour == 0:", "if (_now.hour == 23 and _now.minute > 57) or (_now.hour == 0 and _now.minute < 2):")],
    "a receiver clock between two and three minutes from midnight and a payload on the other side of it", "the telemetry is dated a day out, and not uploaded",
    '''s = run([v1(seq=1, t=(23, 59, 50)), 6], args=["--nodownload"], epoch=(2028, 3, 1, 0, 2, 30))
check([p["datetime"][:19] for p in s.packets()] == ["2028-02-29T23:59:50"], s.packets())''')

bug("p06-month-end", "P06", [(DL, "            _imet_dt = _imet_dt - datetime.timedelta(days=1)", "            _imet_dt = _imet_dt.replace(day=max(1, _imet_dt.day - 1))")],
    "telemetry from before midnight received after it, on the first day of a month", "the telemetry is dated a day late, and not uploaded",
    '''for ep, want in (((2027, 1, 1, 0, 0, 30), "2026-12-31T23:59:50"), ((2026, 5, 17, 0, 0, 30), "2026-05-16T23:59:50")):
    s = run([v1(seq=1, t=(23, 59, 50)), 6], args=["--nodownload"], epoch=ep)
    check([p["datetime"][:19] for p in s.packets()] == [want], s.packets())''')

bug("p07-via", "P07", [(UT, 'if ("via" in telemetry and telemetry["via"] != "sondehub"):', 'if telemetry.get("via", "sondehub") == "nohub":')],
    "a v3 packet marked for some other network, by one of the reserved values of its via field", "it is uploaded",
    '''V = [m for m in ("unknown-2", "unknown") if True]
import re
txt = open("/repo/horusbinaryv3/HorusBinaryV3.asn1").read()
names = re.findall(r"(\\S+)\\s*\\(\\d+\\)", txt[txt.index("Via ::="):].split("}")[0])
lines = []
for i, n in enumerate(names):
    try: lines.append(v3(seq=i, via=n))
    except Exception: pass
s = run(lines + [6], args=["--nodownload"])
check([p["frame"] for p in s.packets()] == [0], s.packets())''')

bug("p07-late-window", "P07", [(UT, "_timedelta = abs((_datetime - datetime.datetime.now(datetime.timezone.utc)).total_seconds())", "_timedelta = (_datetime - datetime.datetime.now(datetime.timezone.utc)).total_seconds()")],
    "a payload whose clock is more than three minutes behind", "its telemetry is uploaded although it is outside the time window",
    '''s = run([v1(seq=1, t=(11, 50, 0)), v1(seq=2, t=(12, 10, 0)), v1(seq=3), 6], args=["--nodownload"])
check([p["frame"] for p in s.packets()] == [3], s.packets())''')

bug("p08-refresh-storm", "P08", [(UP, '''                            # Update next_download_time so we don't re-attempt to download with every new packet.
                            next_download_time = time.time() + min_download_time

                            # Re-attempt to decode the packet.
                            _decoded = decode_packet(_binary_string)
                            if _decoded['callsign'] != "UNKNOWN_PAYLOAD_ID":
                                logging.info(f"Payload found in new payload ID list - {_decoded['callsign']}")''', '''                            # Re-attempt to decode the packet.
                            _decoded = decode_packet(_binary_string)
                            if _decoded['callsign'] != "UNKNOWN_PAYLOAD_ID":
                                logging.info(f"Payload found in new payload ID list - {_decoded['callsign']}")

                            # Update next_download_time so we don't re-attempt to download with every new packet.
                            if _decoded['callsign'] == "UNKNOWN_PAYLOAD_ID":
                                next_download_time = time.time() + min_download_time''')],
    "a refresh which resolves its packet, and another unknown payload within the next 30 minutes", "the lists are downloaded again at once",
    '''n = [0]
def get(s, k):
    if k == "list":
        n[0] += 1
        return LIST + ("40000,NEWONE\\n" if n[0] > 1 else "")
    return '{"HORUSTEST": {"struct": "<BbBfH", "fields": [["a", "none"], ["b", "none"], ["c", "none"], ["d", "none"], ["e", "none"]]}}'
s = run([5, v2(pid=40000, seq=1), 60, v2(pid=40001, seq=2), 60, v2(pid=40001, seq=3), 6], get=get)
check(n[0] == 2, s.gets)''')

bug("p08-first-half-hour", "P08", [(UP, "    next_download_time = time.time()\n", "    next_download_time = time.time() + min_download_time\n")],
    "an unknown payload heard within 30 minutes of the start", "no refresh happens although none has been made",
    '''n = [0]
def get(s, k):
    if k == "list":
        n[0] += 1
        return LIST + ("40000,NEWONE\\n" if n[0] > 1 else "")
    return '{"HORUSTEST": {"struct": "<BbBfH", "fields": [["a", "none"], ["b", "none"], ["c", "none"], ["d", "none"], ["e", "none"]]}}'
s = run([60, v2(pid=40000, seq=1), 6], get=get)
check([p["payload_callsign"] for p in s.packets()] == ["NEWONE"], s.packets())''')

bug("p08-no-redecode", "P08", [(UP, '''                            _decoded = decode_packet(_binary_string)
                            if _decoded['callsign'] != "UNKNOWN_PAYLOAD_ID":''', '''                            _redecoded = decode_packet(_binary_string)
                            if _redecoded['callsign'] != "UNKNOWN_PAYLOAD_ID":
                                _decoded['callsign'] = _redecoded['callsign']''')],
    "an unknown payload with its own sensor layout, resolved by a refresh", "the packet which caused the refresh keeps the default layout's fields",
    '''n = [0]
def get(s, k):
    if k == "list":
        n[0] += 1
        return LIST + ("40000,NEWONE\\n" if n[0] > 1 else "")
    return '{"HORUSTEST": {"struct": "<BbBfH", "fields": [["a", "none"], ["b", "none"], ["c", "none"], ["d", "none"], ["e", "none"]]}, "NEWONE": {"struct": "<B8x", "fields": [["ozone", "none"]]}}'
s = run([60, v2(pid=40000, seq=1, custom=bytes([7]) + bytes(8)), 6], get=get)
check([p.get("ozone") for p in s.packets()] == [7], s.packets())''')

bug("p09-captive-portal", "P09", [(PL, '''    if "HORUS BINARY PAYLOAD ID LIST" not in _r.text:
        logging.error("Downloaded payload ID list is invalid.")
        return None
''', '''    if _r.status_code != 200:
        logging.error("Downloaded payload ID list is invalid.")
        return None
''')], "a web page delivered with status 200 in place of the list (a captive portal)", "the page replaces the local payload list",
    '''import tempfile
d = tempfile.mkdtemp()
open(d + "/mylist.txt", "w").write(LIST + "40000,KNOWN\\n")
run([1], args=["--payload-list", "mylist.txt"], dir=d, get=lambda s, k: "<html>please log in</html>")
PL.HORUS_PAYLOAD_LIST = {0: "4FSKTEST"}
s = run([v2(pid=40000), 6], args=["--payload-list", "mylist.txt", "--nodownload"], dir=d)
check([p["payload_callsign"] for p in s.packets()] == ["KNOWN"], s.packets())''')

bug("p09-line-ends-list", "P09", [(PL, '''                    try:
                        _id = int(_params[0])
                        _callsign''', '''                    _id = int(_params[0])
                    try:
                        _callsign''')], "a payload list with one unusable line", "the payloads after that line are lost when the local list is read",
    '''import tempfile
d = tempfile.mkdtemp()
open(d + "/mylist.txt", "w").write(LIST + "40000,KNOWN\\nforty,BAD\\n40001,ALSO\\n")
s = run([v2(pid=40000), v2(pid=40001), 6], args=["--payload-list", "mylist.txt", "--nodownload"], dir=d)
check([p["payload_callsign"] for p in s.packets()] == ["KNOWN", "ALSO"], s.packets())''')

bug("p10-peak-kept", "P10", [(DS, "        if self.peak_hold:\n            self.snr = max(_snrs)", "        if self.peak_hold:\n            self.snr = max(max(_snrs), self.snr) if len(_snrs) > 1 else _snrs[-1]")],
    "a strong report which leaves the averaging window while weaker ones are still in it", "the peak SNR keeps a value from outside the window",
    '''s = run([stats(30.0), 3, stats(5.0), 3, stats(6.0), v1(seq=1), 6], args=["--nodownload"])
check([p["snr"] for p in s.packets()] == [6.0], s.packets())''')

bug("p10-missing-field", "P10", [(DS, '''                self.log_error("Missing Field %s" % _field)
                return
''', '''                self.log_error("Missing Field %s" % _field)
                if _field not in ("samp_fft", "ppm"):
                    return
                _data[_field] = 0
''')], "a statistics line without its clock offset (truncated or incomplete)", "the incomplete report counts in the averages",
    '''s = run([stats(5.0), 1, '{"EbNodB": 40.0, "f1_est": 1000, "f2_est": 2000, "samp_fft": [0]}', v1(seq=1), 6], args=["--nodownload"])
check([p["snr"] for p in s.packets()] == [5.0], s.packets())''')

bug("p11-cache-reset", "P11", [(DE, '''                    if _output["payload_id"] not in HORUS_V3_NAME_CACHE:
                        HORUS_V3_NAME_CACHE[_output["payload_id"]] = {}''', '''                    if _output["payload_id"] not in HORUS_V3_NAME_CACHE or sensor_id == 0:
                        HORUS_V3_NAME_CACHE[_output["payload_id"]] = {}''')],
    "names for different sensor slots announced in different packets, the first slot's last", "the names of the other slots are forgotten",
    '''A = {"name": "ozone", "values": ("horusInt", [1])}; N = {"values": ("horusInt", [2])}; B = {"name": "uv", "values": ("horusInt", [3])}
s = run([v3(seq=1, extraSensors=[N, A]), v3(seq=2, extraSensors=[B, N]), v3(seq=3, extraSensors=[N, N]), 6], args=["--nodownload"])
check([p.get("ozone_1_0") for p in s.packets()] == [1, 2, 2], s.packets())''')

bug("p11-first-name", "P11", [(DE, '''                    HORUS_V3_NAME_CACHE[_output["payload_id"]][sensor_id] = sensor_name
                else:
                    if _output["payload_id"] in HORUS_V3_NAME_CACHE and sensor_id in HORUS_V3_NAME_CACHE[_output["payload_id"]]:
                        sensor_name = HORUS_V3_NAME_CACHE[_output["payload_id"]][sensor_id]''', '''                    HORUS_V3_NAME_CACHE[_output["payload_id"]].setdefault(sensor_id, sensor_name)
                else:
                    if _output["payload_id"] in HORUS_V3_NAME_CACHE and sensor_id in HORUS_V3_NAME_CACHE[_output["payload_id"]]:
                        sensor_name = HORUS_V3_NAME_CACHE[_output["payload_id"]][sensor_id]''')],
    "a payload which announces a new name for a slot it named before", "later values are reported under the old name",
    '''A = {"name": "ozone", "values": ("horusInt", [1])}; N = {"values": ("horusInt", [2])}; B = {"name": "uv", "values": ("horusInt", [3])}
s = run([v3(seq=1, extraSensors=[A]), v3(seq=2, extraSensors=[B]), v3(seq=3, extraSensors=[N]), 6], args=["--nodownload"])
check([p.get("uv_0_0") for p in s.packets()] == [None, 3, 2], s.packets())''')

bug("p12-unreachable-only", "P12", [(HU, '''        # Catch any socket errors, that may occur when attempting to send to a broadcast address
        # when there is no network connected. In this case, re-try and send to localhost instead.
        except socket.error as e:''', '''        # Catch any socket errors, that may occur when attempting to send to a broadcast address
        # when there is no network connected. In this case, re-try and send to localhost instead.
        except (ConnectionError, PermissionError, socket.timeout) as e:''')],
    "a broadcast send which fails because the network is unreachable", "the announcement is not sent to localhost",
    '''s = run([v1(seq=1), v1(seq=2), 6], args=["--nodownload"], udp=lambda s, to, d: OSError(101, "Network is unreachable") if "broadcast" in to[0] else None)
check([t for t, p in s.udp] == ["127.0.0.1"] * 2, s.udp)''')

bug("p12-both", "P12", [(HU, '''    except Exception as e:
        logging.error("Horus UDP - Error sending Payload Summary: %s" % str(e))
''', '''    except Exception as e:
        send_payload_summary.last_error = e
        logging.error("Horus UDP - Error sending Payload Summary: %s" % str(send_payload_summary.last_error))
''')], "an announcement whose broadcast and localhost sends both fail", "the error keeps the socket of the failed announcement open",
    '''open_at = []
s = run([v1(seq=1), lambda s: open_at.append(s.open_socks), 6], args=["--nodownload"], udp=lambda s, to, d: OSError(101, "Network is unreachable"))
check(open_at == [0], open_at)''')

bug("p13-negative-temperature", "P13", [(EN, '''        if temperature < -128:
            temperature = -128
        elif temperature > 127:
            temperature = 127

        # Battery voltage clip and conversion
        battery_voltage = float(battery_voltage)
        if battery_voltage > 5.0:
            battery_voltage = 5.0
        elif battery_voltage < 0.0:
            battery_voltage = 0.0
        battery_voltage = int(255 * battery_voltage/5.0)
''', '''        if temperature < -63:
            temperature = -63
        elif temperature > 127:
            temperature = 127

        # Battery voltage clip and conversion
        battery_voltage = float(battery_voltage)
        if battery_voltage > 5.0:
            battery_voltage = 5.0
        elif battery_voltage < 0.0:
            battery_voltage = 0.0
        battery_voltage = int(255 * battery_voltage/5.0)
''')], "a payload colder than 63 degrees below zero", "the temperature which arrives is not the one encoded",
    '''from horusdemodlib.encoder import Encoder
p = Encoder().create_horus_v2_packet(payload_id=256, sequence_number=1, hours=12, minutes=0, seconds=0, latitude=-34.0, longitude=138.0, altitude=30000, temperature=-80.0, return_uncoded=True)
p = p[0] if isinstance(p, tuple) else p
s = run([bytes(p).hex().upper(), 6], args=["--nodownload"])
check([x["temp"] for x in s.packets()] == [-80], s.packets())''')

bug("p13-custom-sensor", "P13", [(DE, '''                _output["temperature_custom_2"] = _raw_fields['temperatureCelsius-x10'].pop('custom2') / 10
                _output["custom_field_names"].append("temperature_custom_2")''', '''                _output["temperature_custom_2"] = _raw_fields['temperatureCelsius-x10'].pop('custom2') / 10
                if "temperature_custom_1" in _output:
                    _output["custom_field_names"].append("temperature_custom_2")''')],
    "a v3 payload with the second custom temperature sensor but not the first", "that sensor's value does not arrive",
    '''s = run([v3(seq=1, **{"temperatureCelsius-x10": {"custom2": -55}}), v3(seq=2, **{"temperatureCelsius-x10": {"custom1": 1, "custom2": 2}}), 6], args=["--nodownload"])
check([p.get("temperature_custom_2") for p in s.packets()] == [-5.5, 0.2], s.packets())''')

bug("p14-rtty-flush", "P14", [(UP, '''                    if _logfile:
                        _logfile.write(_decoded_str)
                        _logfile.flush()
''', '''                    if _logfile:
                        _logfile.write(_decoded_str)
''')], "the handler is killed after handling RTTY packets, with lines still in memory", "lines of the log are lost or torn",
    '''seen = []
s = run([rtty("DEMO,1,12:00:00,-34.0,138.0,1000"), lambda s: seen.append(open(s.dir + "/telemetry.log").read()), 6], args=["--nodownload"])
check(len(seen[0].splitlines()) == 1, seen)''')

bug("p14-restart", "P14", [(UP, "        _logfile = open(args.log, 'a')\n", "        _logfile = open(args.log, 'r+' if os.path.exists(args.log) else 'w')\n")],
    "a second start with the same log file", "the log is overwritten from its start",
    '''import tempfile
d = tempfile.mkdtemp()
run([v1(seq=1), v1(seq=2), 6], args=["--nodownload"], dir=d)
s = run([v1(seq=3), 6], args=["--nodownload"], dir=d)
check([l.split(",")[1] for l in s.log.splitlines()] == ["1", "2", "3"], s.log)''')

bug("p15-custom-data", "P15", [(DE, "_output['custom_data'] = _raw_fields.pop('customData').hex()", "_output['custom_data'] = bytes(_raw_fields.pop('customData'))")],
    "a v3 packet with free-form custom data, batched with other packets", "the whole batch cannot be serialised and is dropped",
    '''s = run([v1(seq=1), v3(seq=2, customData=b"abc"), v1(seq=3), 6], args=["--nodownload"])
check([p["frame"] for p in s.packets()] == [1, 2, 3], s.packets())''')

bug("p15-latin", "P15", [(SA, '_telem_json = json.dumps(telem_list).encode("utf-8")', '_telem_json = json.dumps(telem_list, ensure_ascii=False).encode("ascii", "backslashreplace")')],
    "text outside ASCII in what is uploaded (a name in the payload list or the station's configuration)", "the body of the upload is not valid JSON",
    '''import tempfile
d = tempfile.mkdtemp()
json.dump({"4FSKTEST-V2": {"struct": "<B8x", "fields": [["oz\\u00f6n", "none"]]}}, open(d + "/my.json", "w"))
s = run([v2(pid=256, seq=1, custom=bytes([7]) + bytes(8)), v1(seq=2), 6], args=["--custom-fields", "my.json", "--nodownload"], dir=d)
try: got = [p.get("oz\\u00f6n") for p in s.packets()]
except ValueError as e: got = e
check(got == [7, None], (got, s.uploads))''')

bug("p04-batch-cap", "P04", [(SA, "while self.input_queue.qsize() > 0:", "while self.input_queue.qsize() > 0 and len(_to_upload) < 20:")],
    "more than twenty packets handled between the last upload and the end of the input", "those beyond the twentieth are never given an upload attempt",
    '''s = run([v1(seq=i) for i in range(1, 31)], args=["--nodownload"])
check(s.ended and [p["frame"] for p in s.packets()] == list(range(1, 31)), s.packets())''')

bug("p05-equator", "P05", [(UP, "user_config['station_lat'] == 0.0 and user_config['station_lon'] == 0.0", "user_config['station_lat'] == 0.0 or user_config['station_lon'] == 0.0")],
    "a station exactly on the equator or on the Greenwich meridian", "the station is never listed",
    '''s = run([60], args=["--nodownload"], pos=(51.5, 0.0))
check([tuple(l["uploader_position"]) for _, l in s.listeners] == [(51.5, 0.0, 0.0)], s.listeners)''')

bug("p11-name-cap", "P11", [(DE, '''                        HORUS_V3_NAME_CACHE[_output["payload_id"]] = {}
''', '''                        while len(HORUS_V3_NAME_CACHE) >= 6:
                            HORUS_V3_NAME_CACHE.pop(next(iter(HORUS_V3_NAME_CACHE)))
                        HORUS_V3_NAME_CACHE[_output["payload_id"]] = dict()
''')], "more than six payloads announcing sensor names to one run of the handler", "the names of the first are forgotten",
    '''X = [{"name": "wind", "values": ("horusInt", [7])}]
Y = [{"values": ("horusInt", [8])}]
s = run([v3(call="BALLOON%d" % i, seq=1, extraSensors=X) for i in range(8)] + [v3(call="BALLOON0", seq=2, extraSensors=Y), 6], args=["--nodownload"])
check([p.get("wind_0_0") for p in s.packets() if p["payload_callsign"] == "BALLOON0"] == [7, 8], s.packets())''')

bug("p14-rtty-dollars", "P14", [(UP, "\"$$\" + data.split('$')[-1]", "\"$$\" + data.strip('$')")],
    "an RTTY line with other characters, among them a dollar sign, before its sentence", "the sentence is logged with those characters, or not at all",
    '''g = rtty("DEMO,1,12:00:00,-34.0,138.0,1000")
s = run(["$$x$9" + g, 6], args=["--nodownload"])
check(s.log.splitlines() == [g], s.log)''')
