"""P33: any IVRS table round trips or is refused."""
import contextlib
import io
import re
import struct
import sys
import xml.etree.ElementTree as ET

from vh import Check, mute_logging

mute_logging()
from edk2toollib.acpi.ivrs_parser import IVRS_TABLE

ck = Check("P33", ["edk2toollib/acpi/ivrs_parser.py"], rule="a case is one IVRS table with its history of added blocks, or one damaged table; distinct by its bytes; non-trivial when it has blocks",
           min_events={"table": 500, "ivhd": 600, "ivmd": 300, "dte": 1500, "built": 200, "added": 400, "damaged": 900, "refused": 700, "accepted_damaged": 50, "opt_in_clear": 100, "decoded_again": 100})
# AMD I/O Virtualization Technology (IOMMU) Specification, 5.2
ATS = ["ATS allowed", "ATS requests blocked"]


def w64(rng):
    return rng.choice([0, 1, 1 << 63, (1 << 64) - 1, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(32)])


def gen_dte(rng):
    t = rng.choice([0, 1, 2, 3, 0x42, 0x43, 0x46, 0x47, 0x48, 0xF0, 0xF0])
    d = dict(t=t, dev=rng.choice([0, 0xFFFF, rng.getrandbits(16)]), dte=rng.choice([0, 0xFF, rng.getrandbits(8)]))
    if t in (3, 0x43, 0x47):
        d["end"] = rng.choice([0, rng.getrandbits(16)])
    if t in (0x42, 0x43, 0x48):
        d["src"] = rng.choice([0, rng.getrandbits(16)])
    if t in (0x46, 0x47):
        d["ext"] = rng.choice([0, 1 << 31, (1 << 31) - 1, rng.getrandbits(32)])
    if t == 0x48:
        d.update(handle=rng.getrandbits(8), var=rng.choice([1, 2, 0, 3, 255, rng.getrandbits(8)]))
    if t == 0xF0:
        fmt = rng.randrange(3)
        uid = [b"", struct.pack("<Q", w64(rng)), rng.choice([b"\\_SB.FUR0", b"0", b"\\_SB.A012345678", b"", b"\\_SB.X\0", b"A" * 255])][fmt]
        d.update(hid=rng.choice([b"AMDI0020", b"MSFT0201", b"PNP0A08\0"]), cid=rng.choice([bytes(8), b"AMDI0001", b"A2345678"]), fmt=fmt, uid=uid)
    return d


def enc_dte(d):
    t = d["t"]
    b = struct.pack("<BHB", t, d["dev"], d["dte"])
    if t in (0x42, 0x43):
        b += struct.pack("<BHB", 0, d["src"], 0)
    if t in (0x46, 0x47):
        b += struct.pack("<I", d["ext"])
    if t == 0x48:
        b += struct.pack("<BHB", d["handle"], d["src"], d["var"])
    if t == 0xF0:
        b += struct.pack("<8s8sBB", d["hid"], d["cid"], d["fmt"], len(d["uid"])) + d["uid"]
    if "end" in d:
        b += struct.pack("<BHB", 4, d["end"], 0)
    return b


def gen_block(rng):
    if rng.random() < 0.65:
        t = rng.choice([0x10, 0x11, 0x40])
        b = dict(t=t, flags=rng.getrandbits(8), dev=rng.getrandbits(16), cap=rng.getrandbits(16), base=w64(rng), seg=rng.getrandbits(16), info=rng.getrandbits(16), feat=rng.getrandbits(32),
                 dtes=[gen_dte(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))])
        if t != 0x10:
            b.update(efr=w64(rng), res=rng.choice([0, rng.getrandbits(64)]))
        return b
    return dict(t=rng.choice([0x20, 0x21, 0x22]), flags=rng.getrandbits(8), dev=rng.getrandbits(16), aux=rng.getrandbits(16), res=rng.choice([0, rng.getrandbits(64)]), start=w64(rng), len=w64(rng))


def enc_block(b):
    if b["t"] >= 0x20 and b["t"] < 0x40:
        return struct.pack("<BBHHHQQQ", b["t"], b["flags"], 32, b["dev"], b["aux"], b["res"], b["start"], b["len"])
    x = struct.pack("<QQ", b["efr"], b["res"]) if "efr" in b else b""
    x += b"".join(enc_dte(d) for d in b["dtes"])
    return struct.pack("<BBHHHQHHI", b["t"], b["flags"], 24 + len(x), b["dev"], b["cap"], b["base"], b["seg"], b["info"], b["feat"]) + x


def gen_header(rng):
    iv = rng.choice([0x203043, 0x203041, 0, 1, 2, 0x1C, 0xFFFFFFFF, 0xFFFFFFFD, rng.getrandbits(32)])
    return dict(rev=rng.getrandbits(8), oem=rng.choice([b"AMD   ", b"LENOVO"]), tab=rng.choice([b"AMD IVRS", b"TABLE-01"]), orev=rng.getrandbits(32), cid=rng.choice([b"AMD ", b"ABCD"]), crev=rng.getrandbits(32), iv=iv,
                res=rng.choice([0, rng.getrandbits(64)]))


def fix(raw):
    raw = bytearray(raw)
    raw[9] = 0
    raw[9] = -sum(raw) & 0xFF
    return raw


def enc_table(h, bs):
    body = b"".join(enc_block(b) for b in bs)
    return fix(struct.pack("<4sIBB6s8sI4sIIQ", b"IVRS", 48 + len(body), h["rev"], 0, h["oem"], h["tab"], h["orev"], h["cid"], h["crev"], h["iv"], h["res"]) + body)


def head_fields(h, raw):
    return [("Signature", b"IVRS"), ("Length", len(raw)), ("Revision", h["rev"]), ("Checksum", raw[9]), ("OEMID", h["oem"]), ("OEMTableID", h["tab"]), ("OEMRevision", h["orev"]), ("CreatorID", h["cid"]),
            ("CreatorRevision", h["crev"]), ("IVinfo", h["iv"])]


def attrs(b):
    n = len(enc_block(b))
    if 0x20 <= b["t"] < 0x40:
        return [("Type", b["t"]), ("Flags", b["flags"]), ("Length", n), ("DeviceID", b["dev"]), ("AuxiliaryData", b["aux"]), ("Reserved", b["res"]), ("IVMDStartAddress", b["start"]), ("IVMDMemoryBlockLength", b["len"])]
    return [("Type", b["t"]), ("Flags", b["flags"]), ("Length", n), ("DeviceID", b["dev"]), ("CapabilityOffset", b["cap"]), ("IOMMUBaseAddress", b["base"]), ("SegmentGroup", b["seg"]), ("IOMMUInfo", b["info"]),
            ("IOMMUFeatureInfo", b["feat"])] + ([("IOMMUEFRImage", b["efr"]), ("Reserved", b["res"])] if "efr" in b else [])


def dte_attrs(d):
    a = [("Type", d["t"]), ("DeviceID", d["dev"]), ("DTESetting", d["dte"]), ("Length", len(enc_dte(d)))]
    for k, n in (("end", "EndDeviceID"), ("src", "SourceDeviceID"), ("ext", "ExtendedDTESetting"), ("handle", "Handle"), ("var", "Variety"), ("hid", "HID"), ("cid", "CID"), ("fmt", "UIDFormat")):
        if k in d:
            a.append((n, d[k]))
    if "uid" in d:
        a += [("UIDLength", len(d["uid"])), ("UID", [None, d["uid"], d["uid"]][d["fmt"]] if d["fmt"] != 1 else struct.unpack("<Q", d["uid"])[0])]
    return a


def dte_words(d, xml):
    """Labelled values as printed or as XML attributes."""
    v = [("type", d["t"])]
    v += [("startofrange", d["dev"]), ("endofrange", d["end"])] if "end" in d else [("deviceid", d["dev"])]
    v += [("dtesetting", d["dte"])]
    if "ext" in d:
        v += [("extendeddtesetting", ATS[d["ext"] >> 31])]
    if "src" in d:
        v += [("sourcedeviceid", d["src"])]
    if "var" in d:
        v += [("handle", d["handle"]), ("variety", {1: "IOAPIC", 2: "HPET"}.get(d["var"], ("reserved", d["var"])))]
    if "hid" in d:
        v += [("hardwareid", d["hid"]), ("extendeddtesetting", d["cid"]), ("uniqueidformat", ("dec", d["fmt"])), ("uniqueidlength", ("dec", len(d["uid"]))),
              ("uniqueid", ["None", None, d["uid"]][d["fmt"]] if d["fmt"] != 1 else struct.unpack("<Q", d["uid"])[0])]
    return v


def same(text, want):
    if isinstance(want, bytes):
        return text in (str(want), want.decode("latin-1")) or text.strip() == want.decode("latin-1").strip()
    if isinstance(want, str):
        return text.strip() == want
    if isinstance(want, tuple):
        m = re.search(r"(0x)?([0-9A-Fa-f]+)\s*$", text)
        return bool(m) and (want[0] != "reserved" or "eserved" in text) and int(m.group(2), 10 if want[0] == "dec" else 16) == want[1]
    try:
        return int(text.strip(), 16) == want
    except ValueError:
        return False


def printed(c, obj):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        c.must("print", obj.DumpInfo)
    return s.getvalue()


LABEL = {"DeviceID": "iommudeviceid"}


def check_forms(c, t, h, bs, raw):
    want = [(k.lower(), v) for k, v in head_fields(h, raw)]
    for b in bs:
        ivmd = 0x20 <= b["t"] < 0x40
        want += [(k.lower() if ivmd else LABEL.get(k, k.lower()), v) for k, v in attrs(b) if ivmd or k not in ("IOMMUEFRImage", "Reserved")]
        for d in b.get("dtes", []):
            want += dte_words(d, False)
    text = printed(c, t)
    got = [(m.group(1).replace(" ", "").lower(), m.group(2)) for m in re.finditer(r"^[ \t]*([A-Za-z][A-Za-z ]*?)[ \t]*: (.*)$", text, re.M)]
    got = [g for g in got if g[0] not in ("iommuefrimage",)]
    if c.equal(len(got), len(want), "print:values", text=text[:1500]):
        for (gl, gv), (wl, wv) in zip(got, want):
            if not c.expect(gl == wl and same(gv, wv), f"print:{wl}", line=(gl, gv), wanted=(wl, wv)):
                break
    root = c.must("xml:not-well-formed", lambda: ET.fromstring(ET.tostring(t.ToXmlElementTree())))

    def check(el, pairs, what):
        low = {k.lower(): v for k, v in el.attrib.items()}
        for k, v in pairs:
            if not c.expect(k in low and same(low[k], v), f"xml:{what}:{k}", attributes=low, wanted=v):
                return

    if c.equal(len(root), 1 + len(bs), "xml:children"):
        check(root[0], [(k.lower(), v) for k, v in head_fields(h, raw)], "header")
        for el, b in zip(root[1:], bs):
            if 0x20 <= b["t"] < 0x40:
                c.equal(el.tag, "IVMD", "xml:tag")
                check(el, [("endofrange" if k == "AuxiliaryData" and b["t"] == 0x22 else k.lower(), v) for k, v in attrs(b)], "IVMD")
                continue
            c.equal(el.tag, "IVHD", "xml:tag")
            check(el, [(LABEL.get(k, k.lower()), v) for k, v in attrs(b) if k != "Reserved"], "IVHD")
            if c.equal(len(el), len(b["dtes"]), "xml:entries"):
                for e, d in zip(el, b["dtes"]):
                    check(e, dte_words(d, True), "DTE")
                tags = {}
                for e, d in zip(el, b["dtes"]):
                    tags.setdefault(d["t"], e.tag)
                    c.equal(e.tag, tags[d["t"]], "xml:entry-tag-varies")
                c.equal(len(set(tags.values())), len(tags), "xml:entry-kinds-share-a-tag", tags=tags)


def compare(c, t, h, bs, how):
    raw = bytes(enc_table(h, bs))
    c.equal(bytes(c.must(f"{how}:encode", t.Encode)), raw, f"{how}:bytes")
    for k, v in head_fields(h, raw) + [("Reserved", h["res"])]:
        c.equal(getattr(t.acpi_header, k), v, f"{how}:header:{k}")
    if c.equal([s.Type for s in t.SubStructs], [b["t"] for b in bs], f"{how}:blocks"):
        for s, b in zip(t.SubStructs, bs):
            c.event("ivmd" if 0x20 <= b["t"] < 0x40 else "ivhd")
            for k, v in attrs(b):
                c.equal(getattr(s, k), v, f"{how}:block:{k}", type=b["t"])
            c.equal(bytes(s.Encode()), enc_block(b), f"{how}:block-bytes")
            if "dtes" in b and c.equal(len(s.DeviceTableEntries), len(b["dtes"]), f"{how}:entries"):
                for e, d in zip(s.DeviceTableEntries, b["dtes"]):
                    c.event("dte")
                    for k, v in dte_attrs(d):
                        c.equal(getattr(e, k), v, f"{how}:entry:{k}", type=d["t"])
                    c.equal(bytes(e.Encode()), enc_dte(d), f"{how}:entry-bytes")
    c.equal([s for s in t.IVMD_list], [s for s in t.SubStructs if 0x20 <= s.Type < 0x40], f"{how}:ivmd-list")
    if not any(b["t"] == 0x20 for b in bs):
        c.equal(t.IVRSBitEnabled(), bool(h["iv"] & 2), f"{how}:opt-in")
        c.event("opt_in_clear", int(not h["iv"] & 2))
    check_forms(c, t, h, bs, raw)


def make_block(b):
    return (IVRS_TABLE.IVMD_STRUCT if 0x20 <= b["t"] < 0x40 else IVRS_TABLE.IVHD_STRUCT)(enc_block(b))


def grow(c, t, h, bs):
    rng = c.rng
    for _ in range(rng.randrange(1, 4)):
        b = gen_block(rng)
        m = c.must("add:decode-block", make_block, b)
        if "dtes" in b and rng.random() < 0.4:
            d = gen_dte(rng)
            c.must("add:entry", lambda: m.addDTEEntry(IVRS_TABLE.DEVICE_TABLE_ENTRY.Factory(enc_dte(d))))
            b["dtes"].append(d)
        c.must("add:block", t.addIVMDEntry if 0x20 <= b["t"] < 0x40 else t.addIVHDEntry, m)
        bs.append(b)
        c.event("added")
        raw = bytes(t.Encode())
        c.equal(struct.unpack_from("<I", raw, 4)[0], len(raw), "add:length")
        c.equal(sum(raw) & 0xFF, 0, "add:checksum")


@ck.family("tables", 600, 12000)
def tables(c):
    """Well-formed tables of every block and entry type, then blocks added."""
    rng = c.rng
    h, bs = gen_header(rng), [gen_block(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    raw = bytes(enc_table(h, bs))
    c.key(raw, nontrivial=len(bs) > 0)
    t = c.must("table:decode", IVRS_TABLE, raw)
    compare(c, t, h, bs, "table")
    c.event("table")
    if rng.random() < 0.5:
        grow(c, t, h, bs)
        compare(c, t, h, bs, "grown")
        t2 = c.must("grown:decode", IVRS_TABLE, bytes(t.Encode()))
        compare(c, t2, h, bs, "reread")
    c.equal(IVRS_TABLE().SubStructs, [], "shared-state")
    if rng.random() < 0.3:      # an object that has decoded before decodes the next table alike
        h, bs = gen_header(rng), [gen_block(rng) for _ in range(rng.choice([0, 1, 2, 3]))]
        c.must("again:decode", t.Decode, bytes(enc_table(h, bs)))
        compare(c, t, h, bs, "again")
        c.event("decoded_again")
        hd = [b for b in bs if "dtes" in b]
        if len(hd) > 1:
            o = make_block(hd[0])
            c.must("again:block-decode", o.Decode, enc_block(hd[1]))
            c.equal(bytes(o.Encode()), enc_block(hd[1]), "again:block-bytes")


@ck.family("built", 250, 4000)
def built(c):
    """A table made from an empty one and a header."""
    rng = c.rng
    h, bs = gen_header(rng), []
    t = IVRS_TABLE()
    t.acpi_header = c.must("built:header", IVRS_TABLE.ACPI_TABLE_HEADER, bytes(enc_table(h, [])))
    grow(c, t, h, bs)
    c.key(bytes(enc_table(h, bs)))
    compare(c, t, h, bs, "built")
    c.event("built")


@ck.family("large", 2, 24)
def large(c):
    """A table of more than 64 KiB."""
    rng = c.rng
    h, bs = gen_header(rng), []
    for _ in range(rng.choice([2, 3])):
        b = gen_block(rng)
        while "dtes" not in b:
            b = gen_block(rng)
        b["dtes"] = [gen_dte(rng) for _ in range(4000)]
        while len(enc_block(b)) > 0xFFFF:
            del b["dtes"][-200:]
        bs.append(b)
    raw = bytes(enc_table(h, bs))
    c.key(raw)
    t = c.must("large:decode", IVRS_TABLE, raw)
    c.equal(bytes(t.Encode()) == raw, True, "large:bytes", length=len(raw))
    c.expect(sum(t.Encode()) & 0xFF == 0, "large:checksum")
    c.equal([s.Type for s in t.SubStructs], [b["t"] for b in bs], "large:blocks")
    bad = bytearray(raw)
    bad[rng.randrange(0x10000, len(raw))] ^= 1 << rng.randrange(8)
    c.must_raise("large:bad-checksum-accepted", Exception, IVRS_TABLE, bytes(bad))
    c.event("large", int(len(raw) > 0x10000))


def strict(raw):
    """True when well-formed with zero reserved bits, False when not, None when only reserved bits are set."""
    if len(raw) < 48 or sum(raw) & 0xFF or struct.unpack_from("<I", raw, 4)[0] != len(raw):
        return False
    b, ok = raw[48:], True
    while b:
        if len(b) < 4:
            return False
        t, _, n = struct.unpack_from("<BBH", b)
        if t in (0x20, 0x21, 0x22):
            if n != 32 or n > len(b):
                return False
        elif t in (0x10, 0x11, 0x40):
            hd = 24 if t == 0x10 else 40
            if n < hd or n > len(b):
                return False
            e = b[hd:n]
            while e:
                k = {0: 4, 1: 4, 2: 4, 3: 8, 0x42: 8, 0x43: 12, 0x46: 8, 0x47: 12, 0x48: 8, 0xF0: 22}.get(e[0])
                if k is None or k > len(e):
                    return False
                if e[0] == 0xF0:
                    f, u = e[20], e[21]
                    if f > 2 or (f == 0 and u) or (f == 1 and u != 8) or k + u > len(e):
                        return False
                    k += u
                if e[0] in (3, 0x43, 0x47):
                    if e[k - 4] != 4:
                        return False
                    if e[k - 1]:
                        ok = None
                if e[0] in (0x42, 0x43) and (e[4] or e[7]):
                    ok = None
                e = e[k:]
        else:
            return False
        b = b[n:]
    return ok


@ck.family("damaged", 1200, 60000)
def damaged(c):
    """Wrong checksums, cut or extended tables, changed lengths and types of table, blocks and entries."""
    rng = c.rng
    h, bs = gen_header(rng), [gen_block(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    raw = enc_table(h, bs)
    blocks, entries, o = [], [], 48
    for b in bs:
        blocks.append(o)
        p = o + (40 if "efr" in b else 24)
        for d in b.get("dtes", []):
            entries.append((p, d))
            p += len(enc_dte(d))
        o += len(enc_block(b))
    n = len(raw)
    k = rng.choice(["sum", "sum0", "none-uid", "flip", "cut", "extend", "length", "block", "block", "type", "entry", "entry", "uid", "byte", "end"])
    if k == "sum":
        raw[9] = (raw[9] + rng.randrange(1, 256)) & 0xFF
    elif k == "sum0":  # no checksum at all
        old, raw[9] = raw[9], 0
        if not old:
            raw[8] ^= 1
    elif k == "none-uid":  # a unique ID where there is none, all lengths in order
        d = dict(t=0xF0, dev=1, dte=0, hid=b"AMDI0020", cid=bytes(8), fmt=0, uid=rng.randbytes(rng.choice([1, 4, 8])))
        b = next((b for b in bs if "dtes" in b), None)
        if b is None:
            bs.append(dict(t=0x10, flags=0, dev=1, cap=0, base=0, seg=0, info=0, feat=0, dtes=[d]))
        else:
            b["dtes"].insert(rng.randint(0, len(b["dtes"])), d)
        raw = enc_table(h, bs)
    elif k == "flip":
        raw[rng.randrange(n)] ^= 1 << rng.randrange(8)
    elif k == "cut":
        raw = raw[:rng.randrange(n)]
        raw = fix(raw) if len(raw) > 9 and rng.random() < 0.7 else raw
    elif k == "extend":
        raw += rng.choice([bytes(rng.randrange(1, 40)), rng.randbytes(4), enc_block(gen_block(rng))])
        raw = fix(raw)
    else:
        if k == "length":
            struct.pack_into("<I", raw, 4, rng.choice([0, 47, 48, n - 1, n + 1, n + 32, 0xFFFFFFFF]))
        elif k == "block":
            p = rng.choice(blocks)
            v = struct.unpack_from("<H", raw, p + 2)[0]
            struct.pack_into("<H", raw, p + 2, rng.choice([0, 1, 4, 23, 24, 31, 32, 33, 39, 40, v - 1, v + 1, v + 4, max(v - 4, 0), v + 32, 0xFFFF]) & 0xFFFF)
        elif k == "type":
            raw[rng.choice(blocks)] = rng.choice([0, 0x10, 0x11, 0x12, 0x20, 0x21, 0x23, 0x40, 0x41, 0xFF])
        elif k == "entry" and entries:
            raw[rng.choice(entries)[0]] = rng.choice([0, 1, 2, 3, 4, 5, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 0x48, 0x49, 0xF0, 0xF1, 0xFF])
        elif k == "uid" and any(d["t"] == 0xF0 for _, d in entries):
            p = rng.choice([p for p, d in entries if d["t"] == 0xF0])
            raw[p + rng.choice([20, 21])] = rng.choice([0, 1, 2, 3, 7, 8, 9, 255])
        elif k == "end" and any("end" in d for _, d in entries):
            p, d = rng.choice([(p, d) for p, d in entries if "end" in d])
            raw[p + len(enc_dte(d)) - 4] = rng.choice([0, 2, 3, 5, 0x42])
        else:
            raw[rng.randrange(48, n)] ^= 1 << rng.randrange(8)
        raw = fix(raw)
    raw = bytes(raw)
    c.key(raw)
    c.event("damaged")
    ok = strict(raw)
    with contextlib.redirect_stdout(io.StringIO()):
        o = c.call(IVRS_TABLE, raw, cpu=5)
    c.expect(not o.hang, "damaged:no-termination", kind=k, raw=raw.hex())
    c.expect(o.exc is None or isinstance(o.exc, Exception), "damaged:exits-the-process", kind=k, outcome=repr(o))
    if ok is False:
        c.expect(o.exc is not None, "damaged:accepted", kind=k, raw=raw.hex())
        c.event("refused")
    elif ok and c.expect(o.ok, "damaged:consistent-refused", kind=k, raw=raw.hex(), outcome=repr(o)):
        c.equal(bytes(o.value.Encode()), raw, "damaged:round-trip", kind=k)
        c.event("accepted_damaged")


sys.exit(ck.main())
