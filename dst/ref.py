"""Executable reference model of the LJ92 core: written from the JPEG-1992 lossless process and
the repository's documentation, independently of migen_src."""

STD_SSSS = [(0b1110, 4), (0b000, 3), (0b001, 3), (0b010, 3), (0b011, 3), (0b100, 3), (0b101, 3), (0b110, 3),
            (0b11110, 5), (0b111110, 6), (0b1111110, 7), (0b11111110, 8), (0b111111110, 9), (0b1111111110, 10),
            (0b11111111110, 11), (0b111111111110, 12), (0b1111111111110, 13)]


def encode_bits(pix, width, bd, table=None, comps=4):
    """pix: flat raster list, `width` samples per line, `comps` interleaved components.
    Predictor 1: the previous sample of the same component on the line; first of a line: the
    sample above; first of the frame: 2^(bd-1).  -> (bits as int, number of bits, per-pixel lens)"""
    table = table or STD_SSSS
    acc, n = 0, 0
    out = []
    half = 1 << (bd - 1)
    for k, p in enumerate(pix):
        col = k % width
        if col >= comps:
            pr = pix[k - comps]
        elif k >= width:
            pr = pix[k - width]
        else:
            pr = half
        d = p - pr
        if bd == 16:        # differences are modulo 2^16; the class 16 is the difference 32768 alone
            d = (d + 32767) % 65536 - 32767
        a = d if d >= 0 else -d
        s = a.bit_length()
        code, ln = table[s]
        if s and s < 16:
            v = d if d > 0 else d + (1 << s) - 1
            code = (code << s) | v
            ln += s
        out.append((code, ln))
    return out


def pack(codes):
    """-> (bitstring as '0'/'1' str)"""
    return "".join(format(c, "0%db" % l) for c, l in codes)


def words(codes, wbits):
    """Bit stream -> list of wbits words, last one zero padded on the right."""
    out = []
    acc = n = 0
    m = (1 << wbits) - 1
    for c, l in codes:
        acc = (acc << l) | c
        n += l
        while n >= wbits:
            n -= wbits
            out.append((acc >> n) & m)
            acc &= (1 << n) - 1
    if n:
        out.append((acc << (wbits - n)) & m)
    return out


def stuffed(words16):
    """JPEG byte stuffing of 16-bit big-endian words -> 16-bit words, 0x00 padded."""
    out = bytearray()
    for w in words16:
        for x in (w >> 8, w & 255):
            out.append(x)
            if x == 255:
                out.append(0)
    if len(out) & 1:
        out.append(0)
    return [(out[i] << 8) | out[i + 1] for i in range(0, len(out), 2)]


def frame_words(pix, width, bd, table=None):
    return stuffed(words(encode_bits(pix, width, bd, table), 16))


def frame_stream(pix, width, bd, limit=None, comps=4):
    """frame_words for big frames: one pass, no big integers; limit: only the first so many pixels"""
    out = []
    acc = n = 0
    half = 1 << (bd - 1)
    held = -1                   # first byte of an output word
    end = len(pix) if limit is None else limit
    col = 0
    for k in range(end):
        p = pix[k]
        pr = pix[k - comps] if col >= comps else pix[k - width] if k >= width else half
        col += 1
        if col == width:
            col = 0
        d = p - pr
        s = (d if d >= 0 else -d).bit_length()
        code, ln = STD_SSSS[s]
        acc = acc << ln | code
        n += ln
        if s:
            acc = acc << s | (d if d > 0 else d + (1 << s) - 1)
            n += s
        last = k == end - 1
        if last and n & 15 and limit is None:
            acc <<= 16 - (n & 15)
            n += 16 - (n & 15)
        while n >= 16:
            n -= 16
            w = acc >> n
            acc &= (1 << n) - 1
            for x in (w >> 8, w & 255):
                if held < 0:
                    held = x
                else:
                    out.append(held << 8 | x)
                    held = -1
                if x == 255:
                    if held < 0:
                        held = 0
                    else:
                        out.append(0xFF00)
                        held = -1
    if held >= 0 and limit is None:
        out.append(held << 8)
    return out


class DecodeError(Exception):
    pass


def decode(data, width, height, bd, table=None, comps=4):
    """Independent decoder: stuffed bytes -> pixels (raises DecodeError if the stream is not decodable)."""
    table = table or STD_SSSS
    inv = {}
    for s, (c, l) in enumerate(table[:bd + 1]):
        inv[(l, c)] = s
    raw = bytearray()
    i = 0
    while i < len(data):
        raw.append(data[i])
        if data[i] == 255:
            if i + 1 >= len(data) or data[i + 1] != 0:
                raise DecodeError("unstuffed 0xFF")
            i += 1
        i += 1
    bits = "".join(format(x, "08b") for x in raw)
    pos = 0
    pix = []
    half = 1 << (bd - 1)
    for k in range(width * height):
        c = l = 0
        while True:
            if pos >= len(bits) or l > 16:
                raise DecodeError("stream ends at pixel %d" % k)
            c = (c << 1) | (bits[pos] == "1")
            l += 1
            pos += 1
            if (l, c) in inv:
                s = inv[(l, c)]
                break
        d = 0
        if s == 16:
            d = 32768
        elif s:
            v = int(bits[pos:pos + s] or "0", 2)
            if pos + s > len(bits):
                raise DecodeError("stream ends in pixel %d" % k)
            pos += s
            d = v if v >> (s - 1) else v - (1 << s) + 1
        col = k % width
        if col >= comps:
            pr = pix[k - comps]
        elif k >= width:
            pr = pix[k - width]
        else:
            pr = half
        pix.append((pr + d) & 65535 if bd == 16 else pr + d)
    rest = bits[pos:]
    return pix, rest


def selftest(seed=0):
    """the reference encoder loses nothing: an independent decoder gives the pixels back, for every bit depth"""
    import random
    rng = random.Random(seed)
    for bd in range(2, 17):
        for m in range(4):
            w, h = 4 * rng.randrange(1, 6), rng.randrange(1, 5)
            top = (1 << bd) - 1
            pix = [rng.choice((0, top, 1 << (bd - 1), rng.randrange(top + 1))) if m else rng.randrange(top + 1) for _ in range(w * h)]
            data = bytearray()
            for x in frame_words(pix, w, bd):
                data += bytes((x >> 8, x & 255))
            if bd < 16 and frame_stream(pix, w, bd) != frame_words(pix, w, bd):
                raise RuntimeError("streaming reference model is wrong at %d bits" % bd)
            part = frame_stream(pix, w, bd, len(pix) - 3) if bd < 16 else []
            if part != frame_words(pix, w, bd)[:len(part)] or (bd < 16 and len(part) < len(frame_words(pix, w, bd)) - 3 * 31 // 8 - 4):
                raise RuntimeError("streaming reference model (partial) is wrong at %d bits" % bd)
            got, rest = decode(bytes(data), w, h, bd)
            if got != pix:
                raise RuntimeError("reference model is wrong at %d bits" % bd)
