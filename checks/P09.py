"""P09: a parsed DEC reports exactly what its sections declare."""
import io
import os
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.dec_parser import DecParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ck = Check("P09", ["edk2toollib/uefi/edk2/parsers/dec_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
           rule="a case is one generated DEC text; distinct by text; non-trivial when it declares something beyond the package name",
           min_events={"pcd": 100, "guided": 100, "refused": 100})


@ck.family("model", 2500, 50000)
def model(c):
    rng = c.rng
    lines, ex = G.gen_dec(rng)
    text = G.decorate(rng, lines)
    c.key(text, nontrivial=any(ex[k] for k in ("libs", "protocols", "ppis", "guids", "pcds", "includes")))
    c.note(dec=text)
    p = DecParser()
    how = rng.randrange(3)
    if how == 0:
        c.must("model:stream", p.ParseStream, io.StringIO(text))
    else:
        path = c.write("P/a.dec", text)
        if how == 1:
            p.SetEdk2Path(Edk2Path(c.tmp, []))
            path = "P/a.dec"
        c.must("model:file", p.ParseFile, path)
    c.expect(p.Parsed is True, "model:parsed-flag")
    if how:
        c.equal(os.path.normcase(os.path.abspath(str(p.Path))), os.path.normcase(os.path.join(c.tmp, "P", "a.dec")), "model:path")
    got = G.snap_dec(p)
    for k in ex:
        c.equal(got[k], ex[k], f"model:{k}")
    c.event("pcd", len(ex["pcds"]))
    c.event("guided", len(ex["guids"]) + len(ex["ppis"]) + len(ex["protocols"]))
    c.event("other_declaration", len(ex["libs"]) + len(ex["includes"]))
    from edk2toollib.uefi.edk2.parsers.dec_parser import GuidedDeclarationEntry as E
    c.expect(all(x.type == t for xs, t in ((p.Protocols, E.PROTOCOL), (p.PPIs, E.PPI), (p.Guids, E.GUID)) for x in xs), "model:entry-kind")


@ck.family("refuse", 2500, 50000)
def refuse(c):
    """One malformed declaration among good ones raises."""
    rng = c.rng
    u = G.rand_uuid(rng)
    good = G.c_guid(rng, u)
    kind = rng.randrange(4)
    if kind <= 1:
        sec = rng.choice(["Guids", "Protocols", "Ppis"])
        m = rng.randrange(7)
        parts = good.split(",")
        if m == 0:
            bad = ",".join(parts[:-2]) + "}}"
        elif m == 1:
            bad = good.replace("0x", "", 1).replace("0X", "", 1)
        elif m == 2:
            bad = good.replace("{", "", 1)
        elif m == 3:
            bad = str(u)[:-1]
        elif m == 4:
            bad = rng.choice(["", "gOtherGuid", "0", "{}", "TRUE"])
        elif m == 6:
            bad = good + rng.choice([",", " x", "}", "{", " 0x1", "|", " = 1"]) if rng.random() < .7 else rng.choice(["x ", "{", "0x1, ", "}"]) + good
        else:
            i = rng.randrange(len(parts))
            parts[i] = parts[i].replace("x", "xG", 1).replace("X", "xg", 1)
            bad = ",".join(parts)
        line = f"gBadGuid = {bad}" if rng.random() < .9 else f"gBadGuid {bad}"
        excs = (ValueError,)
    else:
        sec = "PcdsFixedAtBuild"
        line = rng.choice(["gTok.PcdA", "gTok.PcdA|0x1", "gTok.PcdA|0x1|UINT8", "gTok.PcdA|0x1|UINT8|0x2|0x3", "gTok.PcdA|1|UINT8|0x2|0x3|0x4", 'gTok.PcdA|"x|y"|VOID*',
                           "gTok.PcdA|0x1|UINT8|0x2|{ junk", "gTok.PcdA|0x1|UINT8|0x2|junk {", "gTok.PcdA.Field|0x1|UINT8", "gTok.PcdA.F.G|0x1|UINT8",
                           "gTok.PcdA.Field", "gTok.PcdA|1|UINT8|0x2|{|{"])
        excs = (Exception,)
    lines = ["[Defines]", "PACKAGE_NAME = X", f"[{sec}]"]
    if sec != "PcdsFixedAtBuild" and rng.random() < .5:
        lines.append(f"gGoodGuid = {good}")
    lines.append(line)
    text = G.decorate(rng, lines)
    c.key(text)
    c.note(dec=text)
    c.must_raise("refuse", excs, DecParser().ParseStream, io.StringIO(text))
    c.event("refused")


if __name__ == "__main__":
    sys.exit(ck.main())
