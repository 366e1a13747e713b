"""Reference codec for lossless JPEG (ITU-T T.81, process 14) streams, written from the standard."""
import random


class Bad(Exception):
    pass


def canonical(lens):
    """[(symbol, length)] in table order -> {symbol: (code, length)}, bits[1..16], values"""
    order = sorted(range(len(lens)), key=lambda i: lens[i][1])
    bits = [0] * 17
    vals = []
    code = prev = 0
    out = {}
    for i in order:
        sym, ln = lens[i]
        code <<= ln - prev
        prev = ln
        out[sym] = (code, ln)
        code += 1
        bits[ln] += 1
        vals.append(sym)
    return out, bits, vals


def predict(pix, k, col, row, c, n, w, bd, pred):
    """sample index k = (row*w + col)*n + c of an interleaved image of n components"""
    if row == 0 and col == 0:
        return 1 << (bd - 1)
    if row == 0:
        return pix[k - n]
    b = pix[k - w * n]
    if col == 0:
        return b
    a, cc = pix[k - n], pix[k - w * n - n]
    if pred == 1:
        return a
    if pred == 2:
        return b
    if pred == 3:
        return cc
    if pred == 4:
        return a + b - cc
    if pred == 5:
        return a + ((b - cc) >> 1)
    if pred == 6:
        return b + ((a - cc) >> 1)
    if pred == 7:
        return (a + b) >> 1
    raise Bad("predictor %d" % pred)


def ssss(d):
    """difference modulo 2^16 in -32767..32768"""
    d = (d + 32767) % 65536 - 32767
    return d, (d if d >= 0 else -d).bit_length()


def segment(marker, body):
    return bytes((255, marker)) + (len(body) + 2).to_bytes(2, "big") + bytes(body)


def stuffed(bits, pad="1"):
    if len(bits) % 8:
        bits += pad * (-len(bits) % 8)
    out = bytearray()
    for i in range(0, len(bits), 8):
        x = int(bits[i:i + 8], 2)
        out.append(x)
        if x == 255:
            out.append(0)
    return bytes(out)


def header(w, h, n, bd, pred, bits, vals, extra=(), order=0, table_id=0, dup=None):
    dht = segment(0xC4, [table_id] + bits[1:] + vals)
    sof = segment(0xC3, [bd, h >> 8, h & 255, w >> 8, w & 255, n] + [x for c in range(n) for x in (c + 1, 0x11, 0)])
    parts = [dht, sof] if order == 0 else [sof, dht]
    if dup:         # an earlier definition of the same table: the last one counts
        parts.insert(0, segment(0xC4, [table_id] + dup[0][1:] + dup[1]))
    for i, (pos, m, body) in enumerate(extra):
        parts.insert(pos % (len(parts) + 1), segment(m, body))
    sos = segment(0xDA, [n] + [x for c in range(n) for x in (c + 1, table_id << 4)] + [pred, 0, 0])
    return b"\xff\xd8" + b"".join(parts) + sos


def encode(pix, w, h, n, bd, pred, lens, extra=(), order=0, pad="1", dup=None):
    """-> (stream, length without the end marker).  lens: [(symbol, code length)]"""
    codes, bits, vals = canonical(lens)
    out = []
    for k in range(w * h * n):
        c, col, row = k % n, k // n % w, k // n // w
        d, s = ssss(pix[k] - predict(pix, k, col, row, c, n, w, bd, pred))
        code, ln = codes[s]
        out.append(format(code, "0%db" % ln))
        if 0 < s < 16:
            out.append(format(d if d > 0 else d + (1 << s) - 1, "0%db" % s))
    body = header(w, h, n, bd, pred, bits, vals, extra, order, 0, dup and canonical(dup)[1:]) + stuffed("".join(out), pad)
    return body + b"\xff\xd9", len(body)


def classes(pix, w, h, n, bd, pred):
    return {ssss(pix[k] - predict(pix, k, k // n % w, k // n // w, k % n, n, w, bd, pred))[1] for k in range(w * h * n)}


def decode(data):
    """strict decoder -> dict(w, h, n, bd, pred, pix, end)"""
    if data[:2] != b"\xff\xd8":
        raise Bad("no start of image")
    i = 2
    inv = {}
    sof = None
    while True:
        if i + 4 > len(data) or data[i] != 255:
            raise Bad("no marker at %d" % i)
        m = data[i + 1]
        ln = data[i + 2] << 8 | data[i + 3]
        seg = data[i + 4:i + 2 + ln]
        if len(seg) != ln - 2:
            raise Bad("segment %02x is cut off" % m)
        i += 2 + ln
        if m == 0xC4:
            if seg[0] >> 4:
                raise Bad("not a DC table")
            bits = seg[1:17]
            vals = seg[17:]
            if sum(bits) != len(vals):
                raise Bad("%d codes, %d values" % (sum(bits), len(vals)))
            code = k = 0
            inv = {}
            for l in range(1, 17):
                for _ in range(bits[l - 1]):
                    if code >= (1 << l) - 1:
                        raise Bad("code of length %d does not fit or is all ones" % l)
                    if vals[k] in inv.values() or vals[k] > 16:
                        raise Bad("value %d" % vals[k])
                    inv[l, code] = vals[k]
                    code += 1
                    k += 1
                code <<= 1
        elif m == 0xC3:
            n = seg[5]
            sof = (seg[0], seg[1] << 8 | seg[2], seg[3] << 8 | seg[4], n)
            if len(seg) != 6 + 3 * n:
                raise Bad("frame header length")
        elif m == 0xDA:
            if not sof or seg[0] != sof[3] or len(seg) != 4 + 2 * seg[0]:
                raise Bad("scan header")
            pred = seg[1 + 2 * seg[0]]
            if not 1 <= pred <= 7 or seg[-2] or seg[-1]:
                raise Bad("scan parameters %s" % list(seg[-3:]))
            break
        elif not (0xE0 <= m <= 0xEF or m == 0xFE):
            raise Bad("marker %02x" % m)
    raw = bytearray()
    while True:
        if i >= len(data):
            raise Bad("no end of image")
        x = data[i]
        if x == 255:
            if i + 1 >= len(data):
                raise Bad("no end of image")
            if data[i + 1] == 0xD9:
                i += 2
                break
            if data[i + 1]:
                raise Bad("marker %02x in the scan" % data[i + 1])
            i += 1
        raw.append(x)
        i += 1
    bd, h, w, n = sof
    s = "".join(format(x, "08b") for x in raw)
    pos = 0
    pix = []
    for k in range(w * h * n):
        code = l = 0
        while (l, code) not in inv:
            if l >= 16 or pos >= len(s):
                raise Bad("no code at sample %d" % k)
            code = code << 1 | (s[pos] == "1")
            l += 1
            pos += 1
        t = inv[l, code]
        d = 0
        if t == 16:
            d = 32768
        elif t:
            if pos + t > len(s):
                raise Bad("stream ends at sample %d" % k)
            v = int(s[pos:pos + t], 2)
            pos += t
            d = v if v >> (t - 1) else v - (1 << t) + 1
        pix.append((predict(pix, k, k // n % w, k // n // w, k % n, n, w, bd, pred) + d) & 65535)
    if len(s) - pos >= 8:
        raise Bad("%d bits after the last sample" % (len(s) - pos))
    return dict(w=w, h=h, n=n, bd=bd, pred=pred, pix=pix, end=i)


def gen_lens(rng, syms):
    """random code lengths (a prefix code that leaves the all-ones code free) for these symbols"""
    syms = list(syms)
    while True:
        m = rng.randrange(4)
        if m == 0:
            ls = [rng.randrange(1, 17) for _ in syms]
        elif m == 1:
            ls = [min(16, i + 1) for i in range(len(syms))]
            rng.shuffle(ls)
        elif m == 2:
            b = max(1, len(syms).bit_length())
            ls = [b + rng.randrange(2) for _ in syms]
        else:
            ls = [rng.choice((2, 3, 16, 16)) for _ in syms]
        for _ in range(400):
            if sum(2.0 ** -l for l in ls) < 1:
                break
            k = rng.randrange(len(ls))
            ls[k] = min(16, ls[k] + 1)
        if sum(2.0 ** -l for l in ls) < 1:
            rng.shuffle(syms)
            return [list(x) for x in zip(syms, ls)]


def selftest():
    rng = random.Random(4)
    for pred in range(1, 8):
        for n in (1, 2, 3, 4):
            for bd in (2, 8, 12, 16):
                w, h = rng.randrange(1, 6), rng.randrange(1, 5)
                pix = [rng.randrange(1 << bd) for _ in range(w * h * n)]
                lens = gen_lens(rng, range(17))
                data, _ = encode(pix, w, h, n, bd, pred, lens, [(1, 0xFE, [255, 0, 255, 217])])
                if decode(data)["pix"] != pix:
                    raise RuntimeError("reference codec is wrong")
