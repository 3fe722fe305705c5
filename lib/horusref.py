"""Independent reference for the over-air formats: CRC16, Golay(23,12), interleaver, scrambler, RTTY framing.

Written from the format description, not from the C code; used to make transmitted bits and to judge received ones."""

# ---------------------------------------------------------------- CRC16-CCITT
def crc16(data):
    crc = 0xFFFF
    for b in data:
        crc ^= b << 8
        for _ in range(8):
            crc = ((crc << 1) ^ 0x1021) & 0xFFFF if crc & 0x8000 else (crc << 1) & 0xFFFF
    return crc


# ---------------------------------------------------------------- Golay (23,12)
def _syn(c):
    for x in range(11, -1, -1):
        if c & ((1 << 11) << x):
            c ^= 0xC75 << x
    return c


PARITY = [_syn(d << 11) for d in range(4096)]
_ERR = None


def _errtab():
    global _ERR
    if _ERR is None:
        t = {0: 0}
        for i in range(23):
            t[_syn(1 << i)] = 1 << i
            for j in range(i):
                t[_syn((1 << i) | (1 << j))] = (1 << i) | (1 << j)
                for k in range(j):
                    t[_syn((1 << i) | (1 << j) | (1 << k))] = (1 << i) | (1 << j) | (1 << k)
        assert len(t) == 2048
        _ERR = t
    return _ERR


def golay_fix(c):
    return c ^ _errtab()[_syn(c)]


# ---------------------------------------------------------------- layout
UW = b"$$"
SIZES_V3 = (32, 48, 64, 96, 128)


def tx_bytes(n):
    return (16 + 8 * n + 11 * (-(-8 * n // 12)) + 7) // 8


def _is_prime(x):
    if x < 2:
        return False
    i = 2
    while i * i <= x:
        if x % i == 0:
            return False
        i += 1
    return True


def _perm(nbytes):
    """bit permutation applied to the bytes after the sync word; out[(b*i)%n] = in[i], LSB-first bit numbering"""
    n = 8 * nbytes
    if nbytes == 43:
        b = 337
    elif nbytes == 63:
        b = 389
    else:
        b = int(n / 1.62)
        while not _is_prime(b):
            b += 1
    return [(b * i) % n for i in range(n)]


_PERM = {}
_SCR = {}


def perm(nbytes):
    if nbytes not in _PERM:
        _PERM[nbytes] = _perm(nbytes)
    return _PERM[nbytes]


def scr(nbits):
    if nbits not in _SCR:
        s, o = 0x4A80, []
        for _ in range(nbits):
            b = ((s >> 1) ^ s) & 1
            o.append(b)
            s = (s >> 1) | (b << 14)
        _SCR[nbits] = o
    return _SCR[nbits]


def _lsb_bits(bs):
    return [(bs[i >> 3] >> (i & 7)) & 1 for i in range(8 * len(bs))]


def _lsb_bytes(bits):
    out = bytearray(len(bits) // 8)
    for i, b in enumerate(bits):
        out[i >> 3] |= b << (i & 7)
    return bytes(out)


def msb_bits(bs):
    return [(b >> (7 - i)) & 1 for b in bs for i in range(8)]


def msb_bytes(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        out[i >> 3] |= b << (7 - (i & 7))
    return bytes(out)


def codewords(n):
    """list of (data bit indices, parity bit indices, shift): positions in the un-interleaved frame (MSB-first bit
    numbers, frame starts with the sync word) of each 23-bit code word"""
    out = []
    nb, p0 = 8 * n, 16 + 8 * n
    for k in range(-(-nb // 12)):
        d = [16 + 12 * k + j for j in range(min(12, nb - 12 * k))]
        p = [p0 + 11 * k + j for j in range(11)]
        out.append((d, p))
    return out


def _val(bits):
    v = 0
    for b in bits:
        v = (v << 1) | b
    return v


def encode_plain(payload):
    """sync word + payload + parity, before interleaving: list of bits"""
    bits = msb_bits(UW + payload)
    pay = bits[16:]
    for k in range(0, len(pay), 12):
        w = pay[k:k + 12]
        v = _val(w)
        if len(w) < 12:
            v <<= 1
        par = PARITY[v]
        bits += [(par >> (10 - j)) & 1 for j in range(11)]
    tot = 8 * tx_bytes(len(payload))
    return bits + [0] * (tot - len(bits))


def to_air(plain):
    by = msb_bytes(plain)
    body = by[2:]
    b = _lsb_bits(body)
    pm = perm(len(body))
    o = [0] * len(b)
    for i, x in enumerate(b):
        o[pm[i]] = x
    s = scr(len(o))
    o = [x ^ y for x, y in zip(o, s)]
    return msb_bits(by[:2] + _lsb_bytes(o))


def encode(payload):
    return to_air(encode_plain(payload))


_AIRPOS = {}


def air_positions(nbytes_tx):
    """map: plain bit index (MSB-first) -> air bit index (MSB-first), for a frame of nbytes_tx bytes"""
    if nbytes_tx not in _AIRPOS:
        pm = perm(nbytes_tx - 2)
        m = list(range(16))
        for i in range(16, 8 * nbytes_tx):
            by, bi = divmod(i - 16, 8)
            l = 8 * by + (7 - bi)
            o = pm[l]
            by2, bi2 = divmod(o, 8)
            m.append(16 + 8 * by2 + (7 - bi2))
        _AIRPOS[nbytes_tx] = m
    return _AIRPOS[nbytes_tx]


def decode(airbits, n):
    """reference decode of an n-byte payload from the first bits of airbits (sync word included)"""
    tot = 8 * tx_bytes(n)
    if len(airbits) < tot:
        return None
    m = air_positions(tot // 8)
    s = scr(tot - 16)
    # undo the scrambler (LSB-first numbering inside each byte)
    plain = [0] * tot
    for i in range(16, tot):
        a = m[i]
        by, bi = divmod(a - 16, 8)
        plain[i] = airbits[a] ^ s[8 * by + 7 - bi]
    out = []
    for d, p in codewords(n):
        v = _val([plain[i] for i in d])
        if len(d) < 12:
            v <<= 1
        c = golay_fix((v << 11) | _val([plain[i] for i in p])) >> 11
        if len(d) < 12:
            c >>= 1
        out += [(c >> (len(d) - 1 - j)) & 1 for j in range(len(d))]
    return msb_bytes(out[:8 * n])


_BASIS = {}


def _basis(n, ver):
    """frame of the all-zero body, and what each body bit changes in it, as integers (first air bit = most significant)"""
    if (n, ver) not in _BASIS:
        tot = 8 * tx_bytes(n)
        m = air_positions(tot // 8)
        eff = []
        for d, q in codewords(n):
            for j in range(len(d)):
                par = PARITY[(1 << (len(d) - 1 - j)) << (1 if len(d) < 12 else 0)]
                e = 1 << (tot - 1 - m[d[j]])
                for b in range(11):
                    if par >> (10 - b) & 1:
                        e ^= 1 << (tot - 1 - m[q[b]])
                eff.append(e)
        z, z0 = seal(bytes(n - 2), ver), bytes(n - 2)
        off = 16 if ver == 3 else 0
        cpos = 0 if ver == 3 else 8 * (n - 2)
        out = []
        for i in range(8 * (n - 2)):
            b = bytearray(z0)
            b[i >> 3] |= 128 >> (i & 7)
            c = crc16(bytes(b)) ^ crc16(z0)
            e = eff[off + i]
            for j in range(16):
                if (c >> (8 * (j >> 3) + 7 - (j & 7))) & 1:
                    e ^= eff[cpos + j]
            out.append(e)
        _BASIS[(n, ver)] = (int("".join(map(str, encode(z))), 2), out, tot)
    return _BASIS[(n, ver)]


def craft(n, ver, want, rng):
    """a payload whose frame has the wanted air bits, as far as the code allows; want: [(air bit, value)], most important first"""
    z, o, tot = _basis(n, ver)
    piv = {}
    for a, v in want:
        sh = tot - 1 - a
        m = 0
        for i, x in enumerate(o):
            if (x >> sh) & 1:
                m |= 1 << i
        v ^= (z >> sh) & 1
        while m:
            p = m.bit_length() - 1
            if p not in piv:
                piv[p] = (m, v)
                break
            m ^= piv[p][0]
            v ^= piv[p][1]
    x = 0
    for i in range(len(o)):
        if i in piv:
            m, v = piv[i]
            b = bin(m & x & ((1 << i) - 1)).count("1") & 1 ^ v
        else:
            b = rng.getrandbits(1)
        x |= b << i
    body = bytearray(n - 2)
    for i in range(len(o)):
        if x >> i & 1:
            body[i >> 3] |= 128 >> (i & 7)
    return seal(bytes(body), ver)


def crc_kind(p):
    """versions under which the payload's own checksum verifies: subset of {1,2,3}"""
    r = set()
    tail = crc16(p[:-2]) == p[-2] | p[-1] << 8
    head = crc16(p[2:]) == p[0] | p[1] << 8
    if len(p) == 22 and tail:
        r.add(1)
    if len(p) == 32 and tail:
        r.add(2)
    if len(p) in SIZES_V3 and head:
        r.add(3)
    return r


def seal(body, version):
    """body without checksum -> payload with checksum"""
    if version == 3:
        c = crc16(body)
        return bytes([c & 255, c >> 8]) + bytes(body)
    c = crc16(body)
    return bytes(body) + bytes([c & 255, c >> 8])


def premature(airbits, n):
    """A prefix of this frame decodes, by coincidence, to a checksum-valid packet of a smaller format (p ~ 2^-16)."""
    for k in (22,) + SIZES_V3:
        if k > n:
            break
        q = decode(airbits, k)
        if q is not None and crc_kind(q):
            if k == n:
                continue
            return True
    return False


# ---------------------------------------------------------------- RTTY
def rtty_bits(text, data, stop, idle_before=0, idle_after=0):
    """list of bits; start bit 0, data LSB first, stop bits 1, idle 1"""
    bits = [1] * idle_before
    for ch in (text if isinstance(text, (bytes, bytearray)) else text.encode("latin-1")):
        bits.append(0)
        bits += [(ch >> i) & 1 for i in range(data)]
        bits += [1] * stop
    return bits + [1] * idle_after


RTTY = {89: (7, 1), 90: (7, 2), 91: (8, 2)}


def rtty_ok(s):
    """delivered sentence text (with or without leading $) verifies: 4 hex digits after the last... first '*' and CRC match"""
    t = s.lstrip(b"$")
    i = t.find(b"*")
    if i < 0 or len(t) != i + 5:
        return False
    h = t[i + 1:]
    if any(c not in b"0123456789abcdefABCDEF" for c in h):
        return False
    return int(h, 16) == crc16(t[:i])


def rtty_sentence(body):
    if isinstance(body, str):
        body = body.encode("latin-1")
    return body + b"*%04X" % crc16(body)
