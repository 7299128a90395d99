"""P11: GUID texts, C initialisers, registry forms and bytes all denote one value."""
import sys
import uuid

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from edk2toollib.uefi.edk2.parsers.guid_parser import GuidParser as GP

mute_logging()
PD = "edk2toollib/uefi/edk2/parsers/"
ck = Check("P11", [PD + "guid_parser.py", PD + "base_parser.py"],
           rule="a case is one 128-bit value with its textual variants, or one near-miss text; distinct by text; all are non-trivial",
           min_events={"c_text": 3000, "reg_text": 3000, "near_miss": 2000, "parse_guid": 2000})


def rand_uuid(rng):
    m = rng.randrange(6)
    if m == 0:
        return uuid.UUID(int=rng.choice([0, 1, (1 << 128) - 1, 1 << 127, 1 << 96, 1 << 80, 1 << 64, 0xF << 60, 1 << 32]))
    if m == 1:
        return uuid.UUID(int=rng.getrandbits(128) & rng.getrandbits(128) & rng.getrandbits(128))
    if m == 2:
        b = rng.choice([0, 0, 0x0A, 0xFF])
        return uuid.UUID(bytes=bytes(rng.choice([b, rng.randrange(256)]) for _ in range(16)))
    return uuid.UUID(int=rng.getrandbits(128))


@ck.family("values", 6000, 150000)
def values(c):
    rng = c.rng
    u = rand_uuid(rng)
    ctext = G.c_guid(rng, u)
    pad = lambda s, ch=(" ", "\t", "   ", ""): rng.choice(ch) + s + rng.choice(ch)  # noqa
    reg = G.recase(rng, str(u))
    c.key(ctext, reg)
    c.note(c=ctext, reg=reg)
    # C form
    for t in (ctext, pad(ctext), pad(ctext + rng.choice([";", " ;", ""]))):
        c.expect(bool(GP.is_guid_in_c_format(t)), "values:is-c", text=t)
        c.equal(GP.reg_guid_from_c_format(t), str(u), "values:reg-from-c", text=t)
        c.equal(GP.uuid_from_guidstring(t), u, "values:uuid-from-c", text=t)
        c.expect(not GP.is_guid_in_reg_format(t), "values:c-is-not-reg", text=t)
        c.event("c_text")
    # registry form
    for t in (reg, pad(reg), "{" + reg + "}", pad("{ " + reg + " }")):
        c.expect(bool(GP.is_guid_in_reg_format(t)), "values:is-reg", text=t)
        c.equal(GP.uuid_from_guidstring(t), u, "values:uuid-from-reg", text=t)
        cc = GP.c_guid_from_reg_format(t)
        c.expect(bool(GP.is_guid_in_c_format(cc)), "values:c-from-reg-wellformed", text=t, got=cc)
        c.equal(GP.reg_guid_from_c_format(cc), str(u), "values:roundtrip", text=t, via=cc)
        n = [int(x.strip("{} "), 16) for x in cc.split(",")]
        c.equal((n[0], n[1], n[2], bytes(n[3:])), (u.time_low, u.time_mid, u.time_hi_version, u.bytes[8:]), "values:c-fields", text=t, got_text=cc)
        c.equal([len(x.strip("{} ")) for x in cc.split(",")], [10, 6, 6] + [4] * 8, "values:c-widths", got_text=cc)
        c.event("reg_text")
    # uuid objects and bytes
    cs = GP.c_guid_str_from_uuid(u)
    c.equal(GP.uuid_from_guidstring(cs), u, "values:uuid-c-uuid", via=cs)
    c.equal(GP.reg_guid_str_from_uuid(u), str(u), "values:uuid-reg")
    c.equal(GP.uuid_from_guidstring(cs).bytes_le, u.bytes_le, "values:bytes-le")
    # the parser's own functions
    p = BaseParser("x")
    line = ctext.replace("\t", " ")
    c.equal(p.ParseGuid(line), str(u).upper(), "values:ParseGuid", text=line)
    c.equal(p.IsGuidString("gName = " + line), True, "values:IsGuidString", text=line)
    c.event("parse_guid")


@ck.family("zeros", 1500, 20000)
def zeros(c):
    """ParseGuid takes leading zeros, blanks and missing zeros of every field."""
    rng = c.rng
    u = rand_uuid(rng)
    vals = [u.time_low, u.time_mid, u.time_hi_version] + list(u.bytes[8:])
    f = [rng.choice(["0x", "0X"]) + "0" * rng.randrange(0, 4) + G.recase(rng, "%x" % v) for v in vals]
    sp = lambda: rng.choice(["", " ", "   "])  # noqa
    t = "{" + sp() + ",".join(sp() + x + sp() for x in f[:3]) + "," + sp() + "{" + ",".join(sp() + x + sp() for x in f[3:]) + "}" + sp() + "}" + sp()
    c.key(t)
    c.note(text=t)
    c.equal(BaseParser("x").ParseGuid(t), str(u).upper(), "zeros:ParseGuid")
    c.event("parse_guid")


@ck.family("near", 5000, 100000)
def near(c):
    """Texts that are not GUIDs are reported as such."""
    rng = c.rng
    u = rand_uuid(rng)
    fields = ["0x%08x" % u.time_low, "0x%04x" % u.time_mid, "0x%04x" % u.time_hi_version] + ["0x%02x" % b for b in u.bytes[8:]]
    kind = rng.choice(["c", "reg"])
    parse_bad = False
    if kind == "c":
        m = rng.randrange(8)
        f = list(fields)
        i = rng.randrange(11)
        if m == 0:
            f[i] = f[i] + "1" if len(f[i]) < 14 else f[i]
            if f[i].replace("0x", "").lstrip("0") and len(f[i].replace("0x", "").lstrip("0")) <= [8, 4, 4, 2][min(i, 3)]:
                f[i] = "0x1" + "0" * [8, 4, 4, 2][min(i, 3)]
            parse_bad = True
        elif m == 1:
            f[i] = rng.choice(["0xg1", "0x", "", "xyz", "0x1 2", "-0x1", "0x1_2", "1.5", "0x١"])
            parse_bad = True
        elif m == 2:
            del f[i]
            parse_bad = True
        elif m == 3:
            f.insert(i, "0x12")
            parse_bad = True
        elif m == 4:
            f[i] = f[i].replace("0x", rng.choice(["", "x", "0y"]))
        t = "{" + ", ".join(f[:3]) + ", {" + ", ".join(f[3:]) + "}}"
        if m == 5:
            t = rng.choice([t[1:], t[:-1], t.replace(", {", ", "), t.replace("}}", "}"), t.replace("}}", ",}}"), t.replace("}}", ", }}"), t.replace("}}", "},}"), t.replace(",", ";"), t.replace(",", ",,", 1)])
        elif m == 6:
            t += rng.choice(["x", "}", ",", " junk", "0", "{"])
        elif m == 7:
            t = rng.choice(["x", "0", "= ", "g "]) + t
    else:
        r = str(u)
        m = rng.randrange(6)
        if m == 0:
            i = rng.randrange(36)
            t = r[:i] + rng.choice("ghxyz_ .,١") + r[i + 1:]
        elif m == 1:
            i = rng.randrange(36)
            t = r[:i] + r[i + 1:]
        elif m == 2:
            i = rng.randrange(37)
            t = r[:i] + rng.choice("0aF-") + r[i:]
        elif m == 3:
            t = r.replace("-", "")
        elif m == 4:
            t = r + rng.choice(["0", "-", "x", " x", ".inf", "-0000", ",", "\n1"])
        else:
            t = rng.choice(["", " ", "{}", "GUID", "0x0", "urn:uuid:" + r, "x" + r, r[:18]])
    c.key(t)
    c.note(text=t, kind=kind)
    c.expect(not GP.is_guid_in_c_format(t), "near:accepted-as-c", text=t)
    c.expect(not GP.is_guid_in_reg_format(t), "near:accepted-as-reg", text=t)
    o = c.call(GP.uuid_from_guidstring, t)
    c.expect(o.ok and o.value is None, "near:uuid", text=t, outcome=o)
    o = c.call(GP.reg_guid_from_c_format, t)
    c.expect(o.ok and o.value == "", "near:reg-from-c", text=t, outcome=o)
    o = c.call(GP.c_guid_from_reg_format, t)
    c.expect(o.ok and o.value == "", "near:c-from-reg", text=t, outcome=o)
    if parse_bad:
        c.must_raise("near:ParseGuid", RuntimeError, BaseParser("x").ParseGuid, t)
        c.equal(bool(BaseParser("x").IsGuidString("gX = " + t)), False, "near:IsGuidString", text=t)
    c.event("near_miss")


if __name__ == "__main__":
    sys.exit(ck.main())
