"""run a function in a forked child with a wall limit; returns (status, value). A crash or hang of the code under test stays in the child."""
import json, os, select, signal, sys, time, traceback


def call(fn, *args, timeout=120):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                out = {"v": fn(*args)}
            except BaseException:
                out = {"e": traceback.format_exc()[-3000:]}
            b = json.dumps(out).encode()
            while b:
                n = os.write(w, b)
                b = b[n:]
        finally:
            os._exit(0)
    os.close(w)
    buf = bytearray()
    t0 = time.monotonic()
    status = None
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            status = "timeout"
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if status:
        return status, None
    if not buf:
        return "signal %d" % (os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0), None
    d = json.loads(buf.decode())
    if "e" in d:
        return "exception", d["e"]
    return "ok", d["v"]
