"""P31: bitmaps round trip and inconsistent bitmaps are refused."""
import io
import logging
import re
import struct
import sys

from vh import Check, mute_logging

mute_logging()
from edk2toollib.uefi.bmp_object import BmpColorMap, BmpObject

ck = Check("P31", ["edk2toollib/uefi/bmp_object.py"], rule="a case is one bitmap file, or one damaged bitmap; distinct by its bytes; non-trivial when it has pixel data",
           min_events={"bitmap": 500, "padding": 150, "colour_map": 200, "long_header": 80, "limited_map": 50, "damaged": 700, "refused": 500, "reloaded": 100, "printed": 300})
NAMES = ["Size", "Rsvd16_1", "Rsvd16_2", "ImageOffset", "HeaderSize", "PixelWidth", "PixelHeight", "Planes", "BitPerPixel", "CompressionType", "ImageSize", "XPixelsPerMeter",
         "YPixelsPerMeter", "NumberOfColors", "ImportantColors"]


def wide(rng, bits):
    return rng.choice([0, 1, (1 << bits) - 1, 1 << (bits - 1), rng.getrandbits(bits), rng.getrandbits(bits), rng.getrandbits(bits), rng.getrandbits(bits // 2)])


def gen(rng):
    w, h = rng.choice([(0, 0), (1, 1), (3, 2), (17, 5), (rng.randrange(1, 40), rng.randrange(1, 20))])
    bpp = rng.choice([1, 4, 8, 24, 32, 16])
    full = {1: 2, 4: 16, 8: 256}.get(bpp, 0)
    colors = rng.choice([0, full]) if full else rng.choice([0, 0, 5, 256, wide(rng, 32)])
    entries = full
    if full and rng.random() < 0.25:
        entries = colors = rng.randrange(1, full + 1)
    extra = rng.choice([0, 0, 0, 12, 68, 84, 84, rng.randrange(1, 300)])
    cmap = rng.randbytes(4 * entries)
    pad = rng.randbytes(rng.choice([0, 0, 1, 2, 4, 10, 15, 16, 17, rng.choice([4096, 5000])]))
    n = ((w * bpp + 31) // 32) * 4 * h
    pix = rng.choice([rng.randbytes(n), rng.randbytes(n), rng.randbytes(n), bytes(n), b"\xff" * n])
    if rng.random() < 0.2:  # the dimensions are not interpreted: top-down and absurd images are kept as they are
        w, h = rng.choice([w, 0x80000000, 0xFFFFFFFF, wide(rng, 32)]), rng.choice([(1 << 32) - h & 0xFFFFFFFF, 0x80000000, wide(rng, 32)])
    off = 54 + extra + len(cmap) + len(pad)
    f = dict(Size=off + len(pix), Rsvd16_1=wide(rng, 16), Rsvd16_2=wide(rng, 16), ImageOffset=off, HeaderSize=40 + extra, PixelWidth=w, PixelHeight=h, Planes=rng.choice([1, 1, 1, 0, wide(rng, 16)]), BitPerPixel=bpp,
             CompressionType=rng.choice([0, 0, 1, 2, wide(rng, 32)]), ImageSize=rng.choice([0, len(pix), wide(rng, 32)]), XPixelsPerMeter=wide(rng, 32), YPixelsPerMeter=wide(rng, 32), NumberOfColors=colors,
             ImportantColors=wide(rng, 32))
    return f, rng.randbytes(extra), cmap, pad, pix


def enc(f, extra, cmap, pad, pix):
    return b"BM" + struct.pack("<IHHIIIIHHIIIIII", *[f[n] for n in NAMES]) + extra + cmap + pad + pix


def check(c, b, f, cmap, pix, raw, how):
    for n in NAMES:
        c.equal(getattr(b, n), f[n], f"{how}:{n}")
    c.equal((b.CharB, b.CharM), (b"B", b"M"), f"{how}:magic")
    c.equal([(m.Blue, m.Green, m.Red, m.Reserved) for m in b.ColorMapList], [tuple(cmap[i:i + 4]) for i in range(0, len(cmap), 4)], f"{how}:colour-map")
    c.equal(bytes(b.ImageData), pix, f"{how}:pixels")
    out = io.BytesIO()
    c.must(f"{how}:write", b.Write, out)
    c.equal(out.getvalue(), raw, f"{how}:round-trip")


def dumps(text):
    """The byte dumps in a printed bitmap: runs of lines that are one byte or an offset, led by offset 0."""
    res = []
    for l in text.split("\n"):
        w = l.split()
        if len(w) == 2 and w[1] == "-" and w[0].startswith("0x"):
            at = int(w[0], 16)
            if at == 0:
                res.append(bytearray())
            if len(res[-1]) != at:
                res.append(bytearray(b"offset"))
        elif len(w) == 1 and re.fullmatch("[0-9a-f]{2}", w[0]):
            res[-1].append(int(w[0], 16))
    return [bytes(x) for x in res]


class Keep(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


@ck.family("files", 600, 12000)
def files(c):
    """Well-formed bitmaps of every depth, at any stream position."""
    rng = c.rng
    f, extra, cmap, pad, pix = gen(rng)
    raw = enc(f, extra, cmap, pad, pix)
    c.key(raw, nontrivial=len(pix) > 0)
    c.event("bitmap")
    for n, v in (("padding", pad), ("colour_map", cmap), ("long_header", extra)):
        c.event(n, int(len(v) > 0))
    c.event("limited_map", int(0 < len(cmap) < 4 * {1: 2, 4: 16, 8: 256}.get(f["BitPerPixel"], 0)))
    pre = rng.choice([b"", b"x", rng.randbytes(100)])
    fs = io.BytesIO(pre + raw)
    fs.seek(len(pre))
    b = c.must("file:load", BmpObject, fs)
    check(c, b, f, cmap, pix, raw, "file")
    c.equal(fs.tell(), len(pre) + len(raw), "file:consumed")
    # a loaded object can be loaded again
    if rng.random() < 0.4:
        g, e2, m2, p2, x2 = gen(rng)
        r2 = enc(g, e2, m2, p2, x2)
        c.must("again:load", b.PopulateFromFileStream, io.BytesIO(r2))
        check(c, b, g, m2, x2, r2, "again")
        f, cmap, pad, pix = g, m2, p2, x2
        c.event("reloaded")
    # print states the header and does not change the object
    if rng.random() < 0.7:
        keep, lg = Keep(), logging.getLogger("edk2toollib.uefi.bmp_object")
        lg.addHandler(keep)
        old, lv = logging.root.manager.disable, lg.level
        logging.disable(logging.NOTSET)
        lg.setLevel(1)
        prop, lg.propagate = lg.propagate, False
        full = rng.random() < 0.3
        try:
            cm = rng.random() < 0.8
            c.must("print:fails", b.Print, full, cm)
        finally:
            lg.removeHandler(keep)
            lg.propagate = prop
            lg.setLevel(lv)
            logging.disable(old)
        text = "\n".join(keep.lines).lower()
        for n in NAMES:
            if n.startswith("Rsvd"):
                continue
            line = [l for l in text.split("\n") if l.split(":")[0].strip() == n.lower()]
            if c.expect(len(line) == 1, f"print:{n}-missing", lines=line):
                words = set(re.findall(r"0x[0-9a-f]+|\b[0-9]+\b", line[0].split(":", 1)[1]))
                c.expect(words and {int(x, 0) for x in words} == {f[n]}, f"print:{n}", line=line[0], value=f[n])
        c.equal(dumps(text), [x for x in (pad, pix if full else b"") if x], "print:bytes")
        for name in ("blue", "green", "red"):
            got = [int(l.split(":")[1], 0) for l in text.split("\n") if l.strip().startswith(name + ":")]
            c.equal(got, list(cmap[{"blue": 0, "green": 1, "red": 2}[name]::4]) if cm else [], f"print:{name}")
        out = io.BytesIO()
        b.Write(out)
        c.equal(len(out.getvalue()), f["Size"], "print:changed-object")
        c.event("printed")


@ck.family("built", 200, 2000)
def built(c):
    """A bitmap made from an empty object."""
    rng = c.rng
    b = c.must("empty:create", BmpObject)
    out = io.BytesIO()
    c.must("empty:write", b.Write, out)
    c.equal(len(out.getvalue()), b.Size, "empty:size")
    c.must("empty:reads-back", BmpObject, io.BytesIO(out.getvalue()))
    f, extra, cmap, pad, pix = gen(rng)
    f["ImageOffset"] -= len(pad) + len(extra)
    f["Size"] -= len(pad) + len(extra)
    f["HeaderSize"] = 40
    for n in NAMES:
        setattr(b, n, f[n])
    for i in range(0, len(cmap), 4):
        m = BmpColorMap()
        m.Blue, m.Green, m.Red, m.Reserved = cmap[i:i + 4]
        b.ColorMapList.append(m)
    b.ImageData = pix
    raw = enc(f, b"", cmap, b"", pix)
    c.key(raw)
    out = io.BytesIO()
    c.must("built:write", b.Write, out)
    c.equal(out.getvalue(), raw, "built:bytes")
    check(c, c.must("built:read", BmpObject, io.BytesIO(raw)), f, cmap, pix, raw, "built")
    c.equal(BmpObject().ColorMapList, [], "empty:shared-colour-map")
    fs = io.BytesIO(rng.randbytes(10))
    at = fs.seek(rng.randrange(3, 11))
    quad = fs.getvalue()[at:at + 4]
    if len(quad) < 4:
        c.must_raise("colour-map:cut-accepted", Exception, BmpColorMap, fs)
    else:
        m = c.must("colour-map:read", BmpColorMap, fs)
        c.equal((m.Blue, m.Green, m.Red, m.Reserved), tuple(quad), "colour-map:values")


def strict(b):
    if len(b) < 54:
        return False
    f = dict(zip(NAMES, struct.unpack_from("<IHHIIIIHHIIIIII", b, 2)))
    if f["Size"] != len(b) or f["HeaderSize"] < 40 or not 14 + f["HeaderSize"] <= f["ImageOffset"] <= f["Size"]:
        return False
    full = {1: 2, 4: 16, 8: 256}.get(f["BitPerPixel"], 0)
    n = f["NumberOfColors"] or full if full else 0
    return 14 + f["HeaderSize"] + 4 * n <= f["ImageOffset"]


@ck.family("damaged", 900, 30000)
def damaged(c):
    """Cut or extended files and changed size fields: refused, or reproduced exactly."""
    rng = c.rng
    f, extra, cmap, pad, pix = gen(rng)
    raw = bytearray(enc(f, extra, cmap, pad, pix))
    n = len(raw)
    k = rng.choice(["cut", "cut", "extend", "field", "field", "field", "field", "byte", "magic"])
    if k == "cut":
        raw = raw[:rng.choice([rng.randrange(n), rng.randrange(min(n, 60)), n - 1])]
    elif k == "extend":
        raw += rng.randbytes(rng.choice([1, 2, 4, 100]))
    elif k == "field":
        name = rng.choice(["Size", "ImageOffset", "HeaderSize", "NumberOfColors", "BitPerPixel"])
        o = {"Size": 2, "ImageOffset": 10, "HeaderSize": 14, "NumberOfColors": 46, "BitPerPixel": 28}[name]
        if name == "BitPerPixel":
            struct.pack_into("<H", raw, o, rng.choice([0, 1, 4, 8, 24, 0xFFFF]))
        else:
            v = f[name]
            struct.pack_into("<I", raw, o, rng.choice([0, 1, 13, 14, 39, 40, 41, 53, 54, 55, 124, max(v - 1, 0), v + 1, max(v - 4, 0), v + 4, n, n + 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, f["ImageOffset"], f["Size"] + 1]) & 0xFFFFFFFF)
    elif k == "magic":
        raw[:2] = rng.choice([b"BA", b"CI", b"MB", b"bm", rng.randbytes(2)])
    else:
        raw[rng.randrange(2, min(n, 60))] ^= 1 << rng.randrange(8)
    raw = bytes(raw)
    c.key(raw)
    c.event("damaged")
    ok = strict(raw)
    pre = rng.choice([b"", b"", rng.randbytes(rng.choice([1, 4, 60]))])
    fs = io.BytesIO(pre + raw)
    fs.seek(len(pre))
    o = c.call(BmpObject, fs)
    c.expect(not o.hang, "damaged:no-termination", raw=raw[:80].hex())
    if not ok:
        c.expect(o.exc is not None, "damaged:accepted", kind=k, header=raw[:54].hex(), length=len(raw))
        c.event("refused")
    elif k == "magic" and o.exc is not None:
        c.event("magic_refused")
    elif c.expect(o.ok, "damaged:consistent-refused", kind=k, header=raw[:54].hex(), outcome=repr(o)):
        out = io.BytesIO()
        c.must("damaged:write", o.value.Write, out)
        c.equal(out.getvalue(), raw, "damaged:round-trip")
        c.equal(o.value.ImageData, raw[o.value.ImageOffset:], "damaged:pixels")


if __name__ == "__main__":
    sys.exit(ck.main())
