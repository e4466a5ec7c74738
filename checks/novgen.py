"""Concrete NovAtel byte streams from abstract items."""
import struct

def crc32(d):
    c = 0
    for b in d:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
    return c

SIZES = {7: 224, 42: 72, 99: 44, 263: 40, 723: 144, 1462: 40}
IDS = [7, 42, 99, 140, 263, 723, 1462]

def long_frame(mid, body, week=2000, ms=1000, rng=None, length=None):
    r = rng.randrange if rng else (lambda a, b=None: 0)
    h = bytes([0xAA, 0x44, 0x12, 28]) + struct.pack("<HBBHHBBHiIHH", mid, r(256), r(256),
        len(body) if length is None else length, r(65536), r(256), r(256), week, ms,
        r(1 << 32), r(65536), r(65536))
    f = h + body
    return f + struct.pack("<I", crc32(f))

def short_frame(mid, body, week=2000, ms=1000, rng=None, length=None):
    h = bytes([0xAA, 0x44, 0x13, (len(body) if length is None else length) & 255]) + \
        struct.pack("<HHi", mid, week, ms)
    f = h + body
    return f + struct.pack("<I", crc32(f))

def rnd_bytes(rng, n):
    return bytes(rng.choice((0, 255, 128, 127, rng.randrange(256), rng.randrange(256))) for _ in range(n))

def body(rng, mid, nrec=None):
    if mid == 140:
        n = rng.choice((0, 1, 2, 3)) if nrec is None else nrec
        return struct.pack("<I", n) + rnd_bytes(rng, 24 * n)
    return rnd_bytes(rng, SIZES[mid])

def noise(rng, n):
    # noise that likes to look like the beginning of something
    out = b""
    while len(out) < n:
        out += rng.choice([b"\xaa", b"\x44", b"\x12", b"\x13", b"\xaa\x44", b"\xaa\xaa\x44", b"\x1c",
                           bytes([rng.randrange(256)])])
    return out[:n]

def item(rng, kind):
    """bytes of an abstract item and the offsets of its parts"""
    week, ms = rng.randrange(65536), rng.choice((0, 1, -1, 604799999, 2**31 - 1, -2**31, rng.randrange(604800000)))
    mid = rng.choice(IDS)
    if kind == "long":
        return long_frame(mid, body(rng, mid), week, ms, rng), 28
    if kind == "short":
        mid = rng.choice(IDS)
        return short_frame(mid, body(rng, mid), week, ms), 12
    if kind == "unsupported":
        mid = rng.choice([1, 8, 41, 43, 65535, 0, 1463])
        b = rnd_bytes(rng, rng.randrange(0, 60))
        return rng.choice([lambda: (long_frame(mid, b, week, ms, rng), 28), lambda: (short_frame(mid, b, week, ms), 12)])()
    if kind == "wrongsize":
        b = body(rng, mid)
        b = rng.choice([lambda: b[:-1], lambda: b + b"\0", lambda: b"", lambda: b[:4], lambda: b + rnd_bytes(rng, 24)])()
        if mid == 140 and len(b) >= 4 and rng.random() < .5:
            b = struct.pack("<I", rng.choice((1, 5, 0x10000, 0xffffffff, 64))) + b[4:]
            if struct.unpack("<I", b[:4])[0] * 24 + 4 == len(b):
                b += b"\0"
        return rng.choice([lambda: (long_frame(mid, b, week, ms, rng), 28),
                           lambda: (short_frame(mid, b[:255], week, ms), 12)])()
    if kind in ("badcrc", "badbyte"):
        f, h = item(rng, rng.choice(["long", "short"]))
        f = bytearray(f)
        k = len(f) - 1 - rng.randrange(4) if kind == "badcrc" else rng.randrange(3, len(f) - 4)
        f[k] ^= 1 << rng.randrange(8)
        return bytes(f), h
    if kind == "truncated":
        f, h = item(rng, rng.choice(["long", "short"]))
        return f[:rng.randrange(1, len(f))], h
    if kind == "badhdrlen":
        f = bytearray(item(rng, "long")[0])
        f[3] = rng.choice((0, 27, 29, 255))
        c = crc32(bytes(f[:-4]))
        f[-4:] = struct.pack("<I", c)
        return bytes(f), 28
    if kind == "hugelen":
        n = rng.choice((4065, 4064 + 1, 65535, 4090))
        return long_frame(mid, b"", week, ms, rng, length=n)[:rng.choice((28, 30, 32))], 28
    if kind == "nested":
        # a damaged frame whose body contains an intact one
        f, h = item(rng, rng.choice(["long", "short"]))
        o = bytearray(long_frame(rng.choice((1, 7)), rnd_bytes(rng, rng.randrange(5)) + f, week, ms, rng))
        o[-1] ^= 0x40
        return bytes(o), 28
    if kind == "big":
        n = rng.choice((62, 63, 64, 100, 169, 168))
        return long_frame(140, body(rng, 140, n), week, ms, rng), 28
    if kind == "exact":
        # the longest frame the buffer holds (or one byte less)
        n = rng.choice((4064, 4063))
        return long_frame(1, bytes(n), week, ms, rng), 28
    if kind == "noise":
        return noise(rng, rng.randrange(1, 40)), 1
    if kind == "syncs":
        return rng.choice([b"\xaa", b"\xaa\x44", b"\xaa\x44\x12", b"\xaa\x44\x13", b"\xaa\x44\x12\x1c",
                           b"\xaa\xaa\x44", b"\xaa\x44\xaa\x44"]), 1
    raise ValueError(kind)

def cut_points(rng, cut, start, data, hdr):
    n = len(data)
    if cut == "none":
        return []
    if cut == "edge":
        return [start]
    if cut == "preamble":
        return [start + min(n, 1 + rng.randrange(2))]
    if cut == "header":
        return [start + min(n, rng.randrange(3, max(4, hdr + 1)))]
    if cut == "body":
        return [start + min(n, hdr + rng.randrange(max(1, n - hdr)))]
    if cut == "crc":
        return [start + max(0, n - 1 - rng.randrange(4))]
    if cut == "each":
        return list(range(start, start + n))
    raise ValueError(cut)

def stream(rng, beh):
    data, cuts = b"", []
    for it in beh["items"]:
        b, h = item(rng, it["k"])
        cuts += cut_points(rng, it["c"], len(data), b, h)
        data += b
    cuts = sorted(set(c for c in cuts if 0 < c < len(data)))
    sizes = [b - a for a, b in zip([0] + cuts, cuts)]
    if beh["ending"].startswith("small"):      # nothing but small reads
        sizes, left = [], len(data)
        while left > 0:
            k = min(left, rng.choice((1, 2, 3, 5, 7, 16, 33, 64)))
            sizes.append(k)
            left -= k
    return data, sizes, (-1 if beh["ending"].endswith("error") else 0)

def script(rng, beh, slots=None):
    d, sizes, end = stream(rng, beh)
    if slots is None:
        r = rng.random()
        if r < .5:
            slots = IDS[:]
            rng.shuffle(slots)
        elif r < .8:
            slots = [rng.choice(IDS) for _ in range(7)]
        else:
            slots = [rng.choice(IDS + [-1, -1, -1]) for _ in range(7)]
    return "%s %s %d %s\n" % (d.hex() or "-", ",".join(map(str, sizes)) or "-", end, ",".join(map(str, slots)))
