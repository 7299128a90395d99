"""P05: comments, blank lines, indentation and line endings never change a parse."""
import io
import sys

import condgen
import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
from edk2toollib.uefi.edk2.parsers.dec_parser import DecParser
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
PD = "edk2toollib/uefi/edk2/parsers/"
ck = Check("P05", [PD + "base_parser.py", PD + "dsc_parser.py", PD + "fdf_parser.py", PD + "inf_parser.py", PD + "dec_parser.py"],
           rule="a case is a file plus several layouts of it (or one line with a comment); distinct by the decorated texts; non-trivial when a layout differs",
           min_events={"layout_dsc": 200, "layout_fdf": 200, "layout_inf": 200, "layout_dec": 200, "strip": 2000, "quoted_marker": 300, "long_run": 5})


def parse(c, kind, text, tag):
    path = c.write(f"x/a.{kind}", text)
    if kind == "dec":
        p = DecParser()
        c.must(f"{tag}:parse", p.ParseFile, path)
        return G.snap_dec(p)
    if kind == "inf":
        p = InfParser()
        c.must(f"{tag}:parse", p.ParseFile, path)
        return G.snap_inf(p)
    p = (DscParser() if kind == "dsc" else FdfParser()).SetEdk2Path(Edk2Path(c.tmp, []))
    p.SetInputVars(dict(condgen.DEFINED))
    c.must(f"{tag}:parse", p.ParseFile, path)
    if kind == "fdf":
        return G.snap_fdf(p)
    s = G.snap_dsc(p)
    s["c2i"] = dict(p.LibraryClassToInstanceDict)
    s["pcdvals"] = dict(p.PcdValueDict)
    s["modlines"] = [e["data"] for e in p.ThreeModsEnhanced + p.SixModsEnhanced + p.LibsEnhanced]
    return s


def sprinkle(rng, lines, kind):
    """Put conditionals around the tail of a DSC/FDF file."""
    n = [0]

    def content(r, active):
        n[0] += 1
        return [f"INF P/M{n[0]}.inf" if kind == "fdf" else f"P/M{n[0]}.inf"]
    b = condgen.Block(rng, content, depth=2, width=3)
    return lines + ["[FV.Tail]" if kind == "fdf" else "[Components.X64]"] + [x[0].strip() for x in b.lines]


def layouts(c, kind, long_runs=False):
    rng = c.rng
    lines = {"dec": G.gen_dec, "inf": G.gen_inf, "dsc": G.gen_dsc, "fdf": G.gen_fdf}[kind](rng)[0]
    if kind in ("dsc", "fdf") and rng.random() < .6:
        lines = sprinkle(rng, lines, kind)
    base = G.plain(lines)
    ref = parse(c, kind, base, f"{kind}:plain")
    seen = []
    for i in range(1 if long_runs else 3):
        t = G.decorate(rng, lines, eol=["\n", "\r\n", None][i], long_runs=long_runs)
        if long_runs:
            t = "# comment\n\n" * rng.choice([600, 2500]) + t
        seen.append(t)
        c.note(plain=base, decorated=t)
        got = parse(c, kind, t, f"{kind}:decorated")
        for k in ref:
            c.equal(got[k], ref[k], f"{kind}:{k}")
        c.event("layout_" + kind)
    # only the line ends / only blank lines
    t = base.replace("\n", "\r\n") if rng.random() < .5 else "\n\n".join(lines)
    got = parse(c, kind, t, f"{kind}:eol")
    for k in ref:
        c.equal(got[k], ref[k], f"{kind}:eol:{k}")
    c.key(seen, nontrivial=any(s != base for s in seen))


@ck.family("dsc", 350, 7000)
def dsc(c):
    layouts(c, "dsc")


@ck.family("fdf", 350, 7000)
def fdf(c):
    layouts(c, "fdf")


@ck.family("inf", 350, 7000)
def inf(c):
    layouts(c, "inf")


@ck.family("dec", 350, 7000)
def dec(c):
    layouts(c, "dec")


@ck.family("long", 16, 160)
def long(c):
    layouts(c, ["dsc", "fdf", "inf", "dec"][c.index % 4 if c.index < 8 else c.rng.randrange(4)], long_runs=True)
    c.event("long_run")


@ck.family("include-eol", 150, 3000)
def include_eol(c):
    """Line ends and layout of an included file, with or without a final newline."""
    rng = c.rng
    kind = rng.choice(["dsc", "fdf"])
    lines = (G.gen_dsc if kind == "dsc" else G.gen_fdf)(rng)[0]
    cut = rng.randrange(1, len(lines) + 1)
    ref = None
    main = lines[:cut] + ["!include x/inc.txt"]
    rest = lines[cut:]
    end = rng.randrange(0, len(rest) + 1)
    for i in range(3):
        inc = G.decorate(rng, rest[:end]) if i else G.plain(rest[:end])
        c.write("x/inc.txt", inc)
        t = G.decorate(rng, main + rest[end:]) if i else G.plain(main + rest[end:])
        c.note(main=t, inc=inc)
        got = parse(c, kind, t, f"inc-{kind}")
        if ref is None:
            ref = got
        for k in ref:
            c.equal(got[k], ref[k], f"inc-{kind}:{k}")
    c.key(t, inc, nontrivial=end > 0)
    c.event("layout_" + kind)


@ck.family("strip", 6000, 200000)
def strip(c):
    """StripComment keeps everything before the marker, quoted markers included, and nothing after it."""
    rng = c.rng
    pieces, q = [], False
    for _ in range(rng.randrange(0, 6)):
        m = rng.randrange(6)
        if m == 0:
            pieces.append(rng.choice(['"#"', "'#'", '"a # b"', "'a \"# b'", '"it\'s # here"', 'L"x#"', '"\\"#"', '"a\\"b # c"', "'\\'#'", '"##"']))
            q = True
        elif m == 1:
            pieces.append(rng.choice(['""', "''", '"abc"', "'x'", '"a\\\\"']))
        else:
            pieces.append(rng.choice(["a", "=", "[Defines]", "|", "$(X)", "{0x1}", "A.B", "\\\\", "C:/x", "é", "\u4e2d"]))
        pieces.append(rng.choice(["", " ", "\t", "  "]))
    body = "".join(pieces)
    ind = rng.choice(["", " ", "\t ", "    "])
    com = rng.choice(["", "#", "# x", "## \"unbalanced", "#'", "# a # b", "#\\", "#" * 40, '# "q" #'])
    line = ind + body + rng.choice(["", " "]) + com + rng.choice(["", "\n", "\r\n"])
    c.key(line, nontrivial=bool(com))
    c.note(line=line)
    c.equal(HashFileParser("x").StripComment(line), body.strip(), "strip:result")
    c.event("strip")
    if q:
        c.event("quoted_marker")


if __name__ == "__main__":
    sys.exit(ck.main())
