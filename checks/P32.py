"""P32: any DMAR table is decoded completely or refused."""
import contextlib
import io
import os
import re
import struct
import sys
import xml.etree.ElementTree as ET

from vh import Check, mute_logging

mute_logging()
from edk2toollib.acpi.dmar_parser import DMARTable

ck = Check("P32", ["edk2toollib/acpi/dmar_parser.py"], rule="a case is one DMAR table, or one damaged table; distinct by its bytes; non-trivial when it has remapping structures",
           min_events={"table": 400, "struct": 1200, "scope": 1500, "golden_all": 80, "golden_missing": 80, "damaged": 900, "refused": 500, "tiled_damaged": 50, "trailing": 50})
# Intel VT-d specification, 8.1-8.7
NAMES = {1: "PCI Endpoint Device", 2: "PCI Sub-hierarchy", 3: "IOAPIC", 4: "MSI_CAPABLE_HPET", 5: "ACPI_NAMESPACE_DEVICE"}
TAGS = ["DRHD", "RMRR", "ASTR", "RHSA", "ANDD"]


def gen_scope(rng):
    return dict(type=rng.randrange(1, 6), res=rng.choice([0, 0, rng.getrandbits(16)]), enum=rng.getrandbits(8), bus=rng.getrandbits(8),
                path=[(rng.choice([0, 31, rng.getrandbits(8)]), rng.choice([0, 7, rng.getrandbits(8)])) for _ in range(rng.choice([1, 1, 1, 2, 3, 6, 120, 0]))])


def enc_scope(s):
    return struct.pack("<BBHBB", s["type"], 6 + 2 * len(s["path"]), s["res"], s["enum"], s["bus"]) + b"".join(bytes(p) for p in s["path"])


def path(s):
    return "%02d:" % s["bus"] + ":".join("%02d.%d" % p for p in s["path"])


def gen_struct(rng):
    t = rng.randrange(5)
    d = dict(type=t)
    if t < 3:
        d["scopes"] = [gen_scope(rng) for _ in range(rng.choice([0, 1, 1, 2, 4] if t != 1 else [1, 1, 1, 2, 3]))]
        d["seg"] = rng.choice([0, rng.getrandbits(16)])
        d["res"] = rng.choice([0, rng.getrandbits(16 if t == 1 else 8)])
    if t == 0:
        d.update(flags=rng.choice([0, 1, rng.getrandbits(8)]), base=rng.getrandbits(64))
    elif t == 1:
        d.update(base=rng.getrandbits(64), limit=rng.getrandbits(64))
    elif t == 2:
        d.update(flags=rng.getrandbits(8))
    elif t == 3:
        d.update(res=rng.choice([0, rng.getrandbits(32)]), base=rng.getrandbits(64), prox=rng.getrandbits(32))
    else:
        d.update(res=rng.choice([0, rng.getrandbits(24)]), num=rng.getrandbits(8), name=rng.choice([b"\\_SB.PCI0.I2C0\0", b"", b"\\_SB\0", rng.randbytes(5), b"\\_SB." + b"A" * rng.choice([246, 249, 250, 251, 300, 1000]) + b"\0"]))
    return d


def enc_struct(d):
    t = d["type"]
    sc = b"".join(enc_scope(s) for s in d.get("scopes", []))
    if t == 0:
        return struct.pack("<HHBBHQ", t, 16 + len(sc), d["flags"], d["res"], d["seg"], d["base"]) + sc
    if t == 1:
        return struct.pack("<HHHHQQ", t, 24 + len(sc), d["res"], d["seg"], d["base"], d["limit"]) + sc
    if t == 2:
        return struct.pack("<HHBBH", t, 8 + len(sc), d["flags"], d["res"], d["seg"]) + sc
    if t == 3:
        return struct.pack("<HHIQI", t, 20, d["res"], d["base"], d["prox"])
    return struct.pack("<HH", t, 8 + len(d["name"])) + d["res"].to_bytes(3, "little") + bytes([d["num"]]) + d["name"]


def fields(d):
    """(attribute, value) in the order of the structure."""
    t, n = d["type"], len(enc_struct(d))
    f = [("Type", t), ("Length", n)]
    if t == 0:
        f += [("Flags", d["flags"]), ("Reserved", d["res"]), ("SegmentNumber", d["seg"]), ("RegisterBaseAddress", d["base"])]
    elif t == 1:
        f += [("Reserved", d["res"]), ("SegmentNumber", d["seg"]), ("ReservedMemoryBaseAddress", d["base"]), ("ReservedMemoryRegionLimitAddress", d["limit"])]
    elif t == 2:
        f += [("Flags", d["flags"]), ("Reserved", d["res"]), ("SegmentNumber", d["seg"])]
    elif t == 3:
        f += [("Reserved", d["res"]), ("RegisterBaseAddress", d["base"]), ("ProximityDomain", d["prox"])]
    else:
        f += [("Reserved", d["res"]), ("ACPIDeviceNumber", d["num"]), ("ACPIObjectName", d["name"])]
    return f


def scope_fields(s):
    return [("Type", s["type"]), ("Length", 6 + 2 * len(s["path"])), ("Reserved", s["res"]), ("EnumerationID", s["enum"]), ("StartBusNumber", s["bus"])]


def gen_table(rng, limit=6):
    ss = [gen_struct(rng) for _ in range(rng.choice([0, 1, 2, 3, limit]))]
    h = dict(rev=rng.getrandbits(8), oem=rng.choice([b"INTEL ", rng.randbytes(6)]), tab=rng.randbytes(8), orev=rng.getrandbits(32), cid=rng.randbytes(4), crev=rng.getrandbits(32),
             width=rng.getrandbits(8), flags=rng.choice([0, 1, 2, 3, 4, 5, 7, 0xFB, rng.getrandbits(8)]))
    return h, ss


def enc_table(h, ss, length=None):
    body = b"".join(enc_struct(d) for d in ss)
    n = 48 + len(body)
    b = bytearray(struct.pack("<4sIBB6s8sI4sIBB10x", b"DMAR", n if length is None else length, h["rev"], 0, h["oem"], h["tab"], h["orev"], h["cid"], h["crev"], h["width"], h["flags"]) + body)
    b[9] = -sum(b) & 0xFF
    return b


def header_fields(h, raw):
    return [("Signature", b"DMAR"), ("Length", len(raw)), ("Revision", h["rev"]), ("Checksum", raw[9]), ("OEMID", h["oem"]), ("OEMTableID", h["tab"]), ("OEMRevision", h["orev"]),
            ("CreatorID", h["cid"]), ("CreatorRevision", h["crev"]), ("HostAddressWidth", h["width"]), ("Flags", h["flags"])]


def same(text, want):
    if isinstance(want, bytes):
        return text.strip() in (str(want), want.decode("latin-1").strip())
    try:
        return int(text.strip(), 16) == want
    except ValueError:
        return False


def check_text(c, text, expect):
    got = [(m.group(1).replace(" ", "").lower(), m.group(2)) for m in re.finditer(r"^[ \t]*([A-Za-z][A-Za-z ]*?)[ \t]*: (.*)$", text, re.M)]
    if not c.equal(len(got), len(expect), "text:values", text=text[:1500]):
        return
    for (gl, gv), (wl, wv) in zip(got, expect):
        if not c.expect(gl == wl.lower() and (gv.strip() == wv if isinstance(wv, str) else same(gv, wv)), f"text:{wl}", line=(gl, gv), wanted=(wl, wv)):
            return


def check_xml(c, el, want, what):
    low = {k.replace(" ", "").lower(): v for k, v in el.attrib.items()}
    for k, v in want:
        if not c.expect(k.lower() in low and same(low[k.lower()], v), f"xml:{what}:{k}", attributes=low, want=v):
            return


def compare(c, t, h, ss, raw):
    for k, v in header_fields(h, raw):
        c.equal(getattr(t.dmar_table, k), v, f"header:{k}")
    subs = t.dmar_table.SubStructs
    if not c.equal([s.Type for s in subs], [d["type"] for d in ss], "structs:order"):
        return
    text = header_fields(h, raw)[:]
    for s, d in zip(subs, ss):
        c.event("struct")
        for k, v in fields(d):
            c.equal(getattr(s, k), v, f"{TAGS[d['type']]}:{k}")
        text += fields(d)
        if "scopes" in d:
            if c.equal(len(s.DeviceScope), len(d["scopes"]), "scope:count"):
                for p, q in zip(s.DeviceScope, d["scopes"]):
                    c.event("scope")
                    for k, v in scope_fields(q):
                        c.equal(getattr(p, k), v, f"scope:{k}")
                    c.equal(p.TypeString, NAMES[q["type"]], "scope:name")
                    c.equal([(a[0], b[0]) for a, b in p.Path], q["path"], "scope:path")
                    c.equal(p.getPath(), path(q), "scope:path-text")
                    text += scope_fields(q) + [("Path", path(q))]
        if d["type"] == 1:
            c.equal(s.getPath(), ", ".join(path(q) for q in d["scopes"]), "rmrr:path")
    c.equal([s for s in t.dmar_table.RMRRlist], [s for s in subs if s.Type == 1], "rmrr:list")
    c.equal(t.ANDDCount(), sum(d["type"] == 4 for d in ss), "andd:count")
    c.equal(t.DMARBitEnabled(), bool(h["flags"] & 4), "dmar-bit")
    check_text(c, c.must("text", str, t), text)
    xml = c.must("xml:serialize", lambda: ET.tostring(t.toXml()))
    root = c.must("xml:not-well-formed", ET.fromstring, xml)
    if c.equal(len(root), 1 + len(ss), "xml:children"):
        check_xml(c, root[0], header_fields(h, raw), "header")
        for el, d in zip(root[1:], ss):
            c.expect(el.tag in (TAGS[d["type"]], "ATSR" if d["type"] == 2 else ""), "xml:tag", tag=el.tag)
            check_xml(c, el, fields(d), TAGS[d["type"]])
            if c.equal(len(el), len(d.get("scopes", [])), "xml:scopes"):
                for e, q in zip(el, d.get("scopes", [])):
                    c.equal(re.sub("[^a-z]", "", e.tag.lower()), re.sub("[^a-z]", "", NAMES[q["type"]].lower()), "xml:scope-tag")
                    check_xml(c, e, scope_fields(q), "scope")


@ck.family("tables", 1500, 12000)
def tables(c):
    """Well-formed tables of every structure and scope type, with or without bytes after the table."""
    rng = c.rng
    h, ss = gen_table(rng)
    raw = bytes(enc_table(h, ss))
    c.key(raw, nontrivial=len(ss) > 0)
    data = raw
    if rng.random() < 0.3:
        data += rng.choice([bytes(16), bytes(3), rng.randbytes(20)])
        c.event("trailing")
    t = c.must("table:decode", DMARTable, data)
    compare(c, t, h, ss, raw)
    c.event("table")


def golden(c, paths, rng):
    body = "".join("<RMRR>%s<Path>%s</Path></RMRR>" % (rng.choice(["", "<Name>x</Name>"]), p) for p in paths)
    return c.write("golden_%d.xml" % rng.randrange(10**6), "<?xml version='1.0'?>\n<RMRRExcludes>%s</RMRRExcludes>" % body)


@ck.family("golden", 300, 4000)
def gold(c):
    """The RMRR check against listed paths: all, one missing, near misses, no file, empty file."""
    rng = c.rng
    h, ss = gen_table(rng, 8)
    while not any(d["type"] == 1 for d in ss):
        h, ss = gen_table(rng, 8)
    t = c.must("golden:decode", DMARTable, bytes(enc_table(h, ss)))
    want = [", ".join(path(q) for q in d["scopes"]) for d in ss if d["type"] == 1]
    listed = want + [path(gen_scope(rng)) for _ in range(rng.randrange(3))]
    mode = rng.choice(["all", "all", "missing", "near", "none", "nofile"])
    if mode == "missing":
        listed = [p for p in listed if p != want[rng.randrange(len(want))]]
    elif mode == "near":
        v = rng.choice(want)
        listed = [p for p in listed if p != v] + [v + ":00.0", v[:-1], "0" + v, v[:-1] + str((int(v[-1]) + 1) % 10) if v[-1].isdigit() else v + "0"]
    elif mode == "none":
        listed = []
    rng.shuffle(listed)
    c.key(want, sorted(listed), mode)
    expect = set(want) <= set(listed)
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        if mode == "nofile":
            expect = False
            arg = rng.choice([None, os.path.join(c.tmp, "absent.xml")])
            got = c.must("golden:no-file", t.CheckRMRRCount, arg) if arg else c.must("golden:no-file", t.CheckRMRRCount)
        else:
            got = c.must("golden:check", t.CheckRMRRCount, golden(c, listed, rng))
    c.equal(got, expect, f"golden:{mode}", paths=want, listed=listed)
    c.event("golden_all" if expect else "golden_missing")


@ck.family("no_rmrr", 60, 500)
def no_rmrr(c):
    """A table without RMRRs passes whatever is listed."""
    rng = c.rng
    h, ss = gen_table(rng)
    ss = [d for d in ss if d["type"] != 1]
    c.key(bytes(enc_table(h, ss)))
    t = c.must("none:decode", DMARTable, bytes(enc_table(h, ss)))
    with contextlib.redirect_stdout(io.StringIO()):
        c.equal(t.CheckRMRRCount(golden(c, ["00:02.0"], rng)), True, "none:listed")
        c.equal(t.CheckRMRRCount(), True, "none:no-file")


def scopes_ok(b):
    """True/False; None when unusual but tiling."""
    ok = True
    while b:
        if len(b) < 6 or not 1 <= b[0] <= 5 or b[1] < 6 or b[1] % 2 or b[1] > len(b):
            return False
        if b[1] == 6:
            ok = None
        b = b[b[1]:]
    return ok


def strict(b):
    if len(b) < 48:
        return False
    n = struct.unpack_from("<I", b, 4)[0]
    if not 48 <= n <= len(b):
        return False
    ok = True if n == len(b) else None
    b = b[48:n]
    while b:
        if len(b) < 4:
            return False
        t, k = struct.unpack_from("<HH", b)
        if t > 4 or k < [16, 24, 8, 20, 8][t] or k > len(b):
            return False
        if t < 3:
            r = scopes_ok(b[[16, 24, 8][t]:k])
            if r is False:
                return False
            ok = ok and r
        elif t == 3 and k != 20:
            ok = None
        b = b[k:]
    return ok


@ck.family("damaged", 1200, 60000)
def damaged(c):
    """Cut tables, changed lengths and types of table, structures and scopes, random bytes."""
    rng = c.rng
    h, ss = gen_table(rng)
    raw = enc_table(h, ss)
    offs, scs, o = [], [], 48
    for d in ss:
        offs.append(o)
        p = o + {0: 16, 1: 24, 2: 8}.get(d["type"], 0)
        for s in d.get("scopes", []):
            scs.append(p)
            p += 6 + 2 * len(s["path"])
        o += len(enc_struct(d))
    k = rng.choice(["cut", "cutfix", "table", "length", "length", "type", "scope", "scope", "scopetype", "byte", "extend", "noise"])
    n = len(raw)
    if k == "cut":
        raw = raw[:rng.randrange(n)]
    elif k == "cutfix":
        raw = raw[:rng.randrange(40, n)] if n > 40 else raw
        struct.pack_into("<I", raw, 4, len(raw))
    elif k == "table":
        struct.pack_into("<I", raw, 4, rng.choice([0, 1, 36, 47, 48, n - 1, n + 1, n + 16, 0xFFFFFFFF]))
    elif k == "length" and offs:
        p = rng.choice(offs)
        v = struct.unpack_from("<H", raw, p + 2)[0]
        struct.pack_into("<H", raw, p + 2, rng.choice([0, 1, 3, 4, 7, 8, 15, 16, 20, 23, max(v - 1, 0), max(v - 2, 0), v + 1, v + 2, v + 8, 0xFFFF, n - p, n - p + 1]) & 0xFFFF)
    elif k == "type" and offs:
        struct.pack_into("<H", raw, rng.choice(offs), rng.choice([0, 1, 2, 3, 4, 5, 6, 0x100, 0xFFFF]))
    elif k == "scope" and scs:
        p = rng.choice(scs) + 1
        raw[p] = rng.choice([0, 1, 2, 4, 5, 6, 7, 8, (raw[p] + 1) & 255, (raw[p] - 2) & 255, (raw[p] + 2) & 255, 255])
    elif k == "scopetype" and scs:
        raw[rng.choice(scs)] = rng.choice([0, 6, 7, 255])
    elif k == "byte" and n > 48:
        raw[rng.randrange(48, n)] ^= 1 << rng.randrange(8)
    elif k == "extend":
        raw += rng.randbytes(rng.randrange(1, 20))
        struct.pack_into("<I", raw, 4, len(raw))
    else:
        raw += rng.choice([bytes(4), bytes(16), b"\0\0\4\0" * 3, b"\3\0\0\0" * 5])
        struct.pack_into("<I", raw, 4, len(raw))
    raw = bytes(raw)
    c.key(raw)
    c.event("damaged")
    ok = strict(raw)
    with contextlib.redirect_stdout(io.StringIO()):
        o = c.call(DMARTable, raw, cpu=5)
    c.expect(not o.hang, "damaged:no-termination", kind=k, raw=raw[:400].hex())
    c.expect(o.exc is None or isinstance(o.exc, Exception), "damaged:exits-the-process", kind=k, outcome=repr(o))
    if ok is False:
        c.expect(o.exc is not None, "damaged:accepted", kind=k, raw=raw[:400].hex())
        c.event("refused")
    elif ok and c.expect(o.ok, "damaged:tiled-refused", kind=k, raw=raw[:400].hex(), outcome=repr(o)):
        c.equal(sum(s.Length for s in o.value.dmar_table.SubStructs) + 48, len(raw), "damaged:not-tiled", kind=k, raw=raw[:400].hex())
        c.event("tiled_damaged")


@ck.family("inner", 300, 6000)
def inner(c):
    """A structure whose device scopes do not tile it, its own length and all others in order: refused."""
    rng = c.rng
    h, ss = gen_table(rng)
    d = gen_struct(rng)
    while d["type"] > 2:
        d = gen_struct(rng)
    s = enc_scope(gen_scope(rng))
    kind = rng.choice(["slack", "odd", "reserved", "long", "short"])
    if kind == "slack":
        extra = rng.randbytes(rng.randint(1, 5))
    elif kind == "odd":
        extra = s[:1] + bytes([s[1] + 1 if s[1] < 255 else 7]) + s[2:] + b"\0"
        extra = extra[:extra[1]]
    elif kind == "reserved":
        extra = bytes([rng.choice([0, 6, 7, 255])]) + s[1:]
    elif kind == "long":
        extra = s[:1] + bytes([min(s[1] + 2, 254)]) + s[2:] if s[1] < 250 else s[:-2]
    else:
        extra = s[:1] + bytes([rng.choice([0, 2, 4])]) + s[2:]
    b = bytearray(enc_struct(d) + extra)
    struct.pack_into("<H", b, 2, len(b))
    pieces = [enc_struct(x) for x in ss]
    pieces.insert(rng.randint(0, len(pieces)), bytes(b))
    head, body = enc_table(h, [])[:48], b"".join(pieces)
    struct.pack_into("<I", head, 4, 48 + len(body))
    raw = bytes(head) + body
    c.key(raw, kind)
    o = c.call(DMARTable, raw, cpu=5)
    c.expect(not o.hang and o.exc is not None, f"inner:{kind}-accepted", raw=raw[:400].hex())
    c.expect(o.exc is None or isinstance(o.exc, Exception), "inner:exits-the-process", outcome=repr(o))
    c.event("inner")


sys.exit(ck.main())
