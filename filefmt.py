"""PNG, JPEG and DDS files for the CLI checks, written and read independently of texpresso."""
import math, struct, zlib

# ---- PNG -----------------------------------------------------------------------------

CHANNELS = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}
ADAM7 = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]


def chunk(tag, data):
    return struct.pack(">I", len(data)) + tag + data + struct.pack(">I", zlib.crc32(tag + data))


def pack_row(samples, bd):
    if bd == 16:
        return b"".join(struct.pack(">H", v) for v in samples)
    if bd == 8:
        return bytes(samples)
    out, acc, n = bytearray(), 0, 0
    for v in samples:
        acc, n = acc << bd | v, n + bd
        if n == 8:
            out.append(acc)
            acc, n = 0, 0
    if n:
        out.append(acc << (8 - n))
    return bytes(out)


def paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else b if pb <= pc else c


def filter_rows(rows, bpp, pick):
    out, prev = [], None
    for row in rows:
        prev = prev or bytes(len(row))
        t = pick()
        if t == 0:
            out.append(b"\0" + row)
            prev = row
            continue
        line = bytearray([t])
        for i, x in enumerate(row):
            a = row[i - bpp] if i >= bpp else 0
            b = prev[i]
            c = prev[i - bpp] if i >= bpp else 0
            line.append((x - [0, a, b, (a + b) // 2, paeth(a, b, c)][t]) & 255)
        out.append(bytes(line))
        prev = row
    return b"".join(out)


def png_file(ct, bd, w, h, samples, plte=None, trns=None, interlace=False, rng=None, extra=(), late=(), after=()):
    """samples: flat, row by row, CHANNELS[ct] per pixel"""
    c = CHANNELS[ct]
    bpp = max(1, c * bd // 8)
    pick = (lambda: rng.randrange(5)) if rng else (lambda: 0)

    def rows(xs, ys):
        return [pack_row([samples[(y * w + x) * c + k] for x in xs for k in range(c)], bd) for y in ys]

    if interlace:
        raw = b""
        for x0, y0, dx, dy in ADAM7:
            xs, ys = range(x0, w, dx), range(y0, h, dy)
            if len(xs) and len(ys):
                raw += filter_rows(rows(xs, ys), bpp, pick)
    else:
        raw = filter_rows(rows(range(w), range(h)), bpp, pick)
    if rng:
        packer = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, rng.choice([9, 12, 15, 15]), 8,
                                  rng.choice([zlib.Z_DEFAULT_STRATEGY] * 3 + [zlib.Z_FIXED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE]))
        z = packer.compress(raw) + packer.flush()
    else:
        z = zlib.compress(raw, 6)
    out = b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, bd, ct, 0, 0, int(interlace)))
    for tag, data in extra:
        out += chunk(tag, data)
    if plte is not None:
        out += chunk(b"PLTE", bytes(v for p in plte for v in p))
    if trns:
        out += chunk(b"tRNS", bytes(trns) if ct == 3 else b"".join(struct.pack(">H", v) for v in trns))
    out += b"".join(chunk(tag, data) for tag, data in late)
    cuts = [0, len(z)]
    if rng and rng.random() < .4:        # pieces of any length, none included
        cuts = sorted(cuts + [rng.randrange(len(z) + 1) for _ in range(rng.choice([1, 1, 2, 9]))])
    for a, b in zip(cuts, cuts[1:]):
        out += chunk(b"IDAT", z[a:b])
    out += b"".join(chunk(tag, data) for tag, data in after)
    if rng and rng.random() < .2:
        out += chunk(b"tEXt", b"Comment\0after the image")
    return out + chunk(b"IEND", b"")


def rgba_png(w, h, px, rng=None):
    return png_file(6, 8, w, h, list(px), rng=rng)


def png_pixels(ct, bd, n, samples, plte, trns):
    """RGBA8, computed here independently; Png.tla checks it"""
    c, out = CHANNELS[ct], []
    e = (lambda v: v >> 8) if bd == 16 else (lambda v: v * 255 // ((1 << bd) - 1))
    for i in range(n):
        s = samples[i * c:(i + 1) * c]
        if ct == 3:
            out += list(plte[s[0]]) + [trns[s[0]] if trns and s[0] < len(trns) else 255]
        elif ct in (0, 2):
            a = 0 if trns and list(trns) == list(s) else 255
            out += [e(v) for v in s] * (3 // c) + [a]
        elif ct == 4:
            out += [e(s[0])] * 3 + [e(s[1])]
        else:
            out += [e(v) for v in s]
    return out


def read_png(data):
    """IHDR fields and raw 8-bit samples of a non-interlaced 8-bit PNG; ValueError if malformed"""
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        raise ValueError("signature")
    at, idat, hdr, ended = 8, b"", None, False
    while at < len(data):
        if at + 12 > len(data):
            raise ValueError("truncated chunk")
        n, tag = struct.unpack(">I4s", data[at:at + 8])
        body = data[at + 8:at + 8 + n]
        if len(body) != n or struct.unpack(">I", data[at + 8 + n:at + 12 + n])[0] != zlib.crc32(tag + body):
            raise ValueError("bad chunk")
        if tag == b"IHDR":
            hdr = struct.unpack(">IIBBBBB", body)
        elif tag == b"IDAT":
            idat += body
        elif tag == b"IEND":
            ended = True
        at += 12 + n
    if hdr is None or not ended:
        raise ValueError("incomplete")
    w, h, bd, ct, _, _, inter = hdr
    if bd != 8 or inter or ct not in CHANNELS:
        return hdr, []
    raw, c = zlib.decompress(idat), CHANNELS[ct]
    if len(raw) != h * (w * c + 1):
        raise ValueError("data length")
    out, prev = bytearray(), bytearray(w * c)
    for y in range(h):
        t = raw[y * (w * c + 1)]
        row = bytearray(raw[y * (w * c + 1) + 1:(y + 1) * (w * c + 1)])
        if t == 1:
            for i in range(c, w * c):
                row[i] = (row[i] + row[i - c]) & 255
        elif t == 2:
            for i in range(w * c):
                row[i] = (row[i] + prev[i]) & 255
        for i in range(w * c) if t > 2 else ():
            a = row[i - c] if i >= c else 0
            b = prev[i]
            d = prev[i - c] if i >= c else 0
            row[i] = (row[i] + ((a + b) // 2 if t == 3 else paeth(a, b, d))) & 255
        out += row
        prev = row
    return hdr, list(out)


# ---- DDS -----------------------------------------------------------------------------

DXGI = {1: 72, 2: 75, 3: 78, 4: 80, 5: 83}
FOURCC = {1: b"DXT1", 2: b"DXT3", 3: b"DXT5"}
BLOCK = {1: 8, 2: 16, 3: 16, 4: 8, 5: 16}


def size(f, w, h):
    return (w + 3) // 4 * ((h + 3) // 4) * BLOCK[f]


def dds_file(w, h, data, dxgi=None, fourcc=None, dim=3, array=1, flags=0x1007, mips=0, alpha=0,
             misc=0, magic=b"DDS ", hsize=124, pitch=0, caps=0x1000, caps2=0, depth=0, reserved=bytes(44),
             pf=(4, 0, 0, 0, 0, 0), more=(0, 0, 0)):
    four = fourcc if fourcc is not None else b"DX10"
    out = struct.pack("<4sIIIIIII", magic, hsize, flags, h, w, pitch, depth, mips) + reserved
    out += struct.pack("<II4sIIIII", 32, pf[0], four, *pf[1:])
    out += struct.pack("<IIIII", caps, caps2, *more)
    if four == b"DX10":
        out += struct.pack("<IIIII", dxgi, dim, misc, array, alpha)
    return out + bytes(data)


# ---- JPEG (baseline, Huffman tables of Annex K, 4:4:4) -----------------------------------

ZZ = [0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6,
      7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31,
      39, 46, 53, 60, 61, 54, 47, 55, 62, 63]
DC_BITS = [0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0]
DC_VALS = list(range(12))
# a flat AC table: 8-bit codes for (run, size), size 0..10, run 0..15, except the all-ones code
AC_VALS = [r << 4 | s for r in range(16) for s in range(11) if s or r in (0, 15)]


def ac_bits():
    # 162 symbols: 9-bit codes
    b = [0] * 16
    b[8] = len(AC_VALS)
    return b


def codes(bits, vals):
    out, code, k = {}, 0, 0
    for n in range(16):
        for _ in range(bits[n]):
            out[vals[k]] = (code, n + 1)
            code, k = code + 1, k + 1
        code <<= 1
    return out


DC, AC = codes(DC_BITS, DC_VALS), codes(ac_bits(), AC_VALS)
COS = [[math.cos((2 * x + 1) * u * math.pi / 16) * (math.sqrt(.125) if u == 0 else .5) for x in range(8)]
       for u in range(8)]


def exif(orientation, big=True):
    e = ">" if big else "<"
    return (b"Exif\0\0" + (b"MM" if big else b"II") + struct.pack(e + "HI", 42, 8) + struct.pack(e + "H", 1)
            + struct.pack(e + "HHIHH", 0x0112, 3, 1, orientation, 0) + struct.pack(e + "I", 0))


def jpeg_file(w, h, comps, q=2, adobe=None, sampling=(1, 1), ids=(1, 2, 3, 4), more=(), restart=0, jfif=None, progressive=False):
    """comps: per component a list of w*h samples; adobe: the APP14 transform flag; sampling: of the
    first component; more: further segments; restart: the interval in MCUs; progressive: DC first, then each component's AC"""
    n = len(comps)
    hs, vs = sampling if n > 1 else (1, 1)
    seg = lambda m, d: b"\xff" + bytes([m]) + struct.pack(">H", len(d) + 2) + d
    out = b"\xff\xd8"
    if jfif or jfif is None and adobe is None:
        out += seg(0xE0, b"JFIF\0" + struct.pack(">BBBHHBB", 1, 1, 0, 1, 1, 0, 0))
    if adobe is not None:
        out += seg(0xEE, b"Adobe" + struct.pack(">HHHB", 100, 0, 0, adobe))
    for m, d in more:
        out += seg(m, d)
    out += seg(0xDB, bytes([0]) + bytes([q] * 64))
    out += seg(0xC2 if progressive else 0xC0, struct.pack(">BHHB", 8, h, w, n) + b"".join(
        bytes([ids[i], sampling[0] << 4 | sampling[1] if i == 0 else 0x11, 0]) for i in range(n)))
    out += seg(0xC4, bytes([0]) + bytes(DC_BITS) + bytes(DC_VALS))
    out += seg(0xC4, bytes([0x10]) + bytes(ac_bits()) + bytes(AC_VALS))
    if restart:
        out += seg(0xDD, struct.pack(">H", restart))
    out += seg(0xDA, bytes([n]) + b"".join(bytes([ids[i], 0]) for i in range(n))
               + bytes([0, 0 if progressive else 63, 0]))
    bits = []
    blocks = {}

    def put(code, length):
        if length:
            bits.append(format(code, "0%db" % length))

    def magnitude(v):
        s = abs(v).bit_length()
        return s, (v if v >= 0 else v + (1 << s) - 1)

    def flush():
        nonlocal out
        b = "".join(bits)
        bits.clear()
        b += "1" * (-len(b) % 8)
        data = bytes(int(b[i:i + 8], 2) for i in range(0, len(b), 8))
        out += data.replace(b"\xff", b"\xff\0")

    def ac(zz):
        run = 0
        last = max([i for i in range(64) if zz[i]] + [0])
        for i in range(1, last + 1):
            if zz[i] == 0:
                run += 1
                continue
            while run > 15:
                put(*AC[0xF0])
                run -= 16
            s, v = magnitude(zz[i])
            put(*AC[run << 4 | s])
            put(v, s)
            run = 0
        if last < 63:
            put(*AC[0])

    pred = [0] * n
    mcu = 0
    for my in range((h + 8 * vs - 1) // (8 * vs)):
        for mx in range((w + 8 * hs - 1) // (8 * hs)):
            if restart and mcu and mcu % restart == 0:
                flush()
                out += bytes([0xff, 0xd0 + (mcu // restart - 1) % 8])
                pred = [0] * n
            mcu += 1
            units = [(0, mx * hs + i, my * vs + j, 1, 1) for j in range(vs) for i in range(hs)]
            units += [(c, mx, my, hs, vs) for c in range(1, n)]
            for c, bx, by, kx, ky in units:
                blk = [[comps[c][min((by * 8 + y) * ky, h - 1) * w + min((bx * 8 + x) * kx, w - 1)] - 128 for x in range(8)]
                       for y in range(8)]
                if all(row == [blk[0][0]] * 8 for row in blk):
                    co = [round(8 * blk[0][0] / q)] + [0] * 63
                else:
                    tmp = [[sum(blk[y][x] * COS[u][x] for x in range(8)) for u in range(8)] for y in range(8)]
                    co = [round(sum(tmp[y][u] * COS[v][y] for y in range(8)) / q) for v in range(8) for u in range(8)]
                co = [max(-1023, min(1023, v)) for v in co]
                d, pred[c] = co[0] - pred[c], co[0]
                s, v = magnitude(d)
                put(*DC[s])
                put(v, s)
                blocks[c, bx, by] = [co[ZZ[i]] for i in range(64)]
                if not progressive:
                    ac(blocks[c, bx, by])
    flush()
    for c in range(n if progressive else 0):
        out += seg(0xDA, bytes([1, ids[c], 0, 1, 63, 0]))
        kx, ky = (hs, vs) if c else (1, 1)
        bw, bh = (-(-(-(-w // kx)) // 8), -(-(-(-h // ky)) // 8)) if c else (-(-w // 8), -(-h // 8))
        for k in range(bw * bh):
            if restart and k and k % restart == 0:
                flush()
                out += bytes([0xff, 0xd0 + (k // restart - 1) % 8])
            ac(blocks[c, k % bw, k // bw])
        flush()
    return out + b"\xff\xd9"
