"""P12: Target.txt, build reports and override records parse to what they record."""
import datetime
import os
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.buildreport_parser import BuildReport
from edk2toollib.uefi.edk2.parsers.override_parser import OverrideParser, OpParseError
from edk2toollib.uefi.edk2.parsers.targettxt_parser import TargetTxtParser

mute_logging()
PD = "edk2toollib/uefi/edk2/parsers/"
ck = Check("P12", [PD + "targettxt_parser.py", PD + "buildreport_parser.py", PD + "override_parser.py"],
           rule="a case is one generated Target.txt, report or set of override records; distinct by text; non-trivial when it holds at least one record",
           min_events={"setting": 500, "module": 500, "library": 500, "pcd": 500, "flash_module": 200, "override": 500, "override_refused": 300, "protected_word": 10})


@ck.family("target", 1200, 20000)
def target(c):
    rng = c.rng
    lines, want = [], {}
    for i in range(rng.randrange(0, 12)):
        k = rng.choice(["ACTIVE_PLATFORM", "TARGET", "TARGET_ARCH", "TOOL_CHAIN_CONF", "TOOL_CHAIN_TAG", "BUILD_RULE_CONF", f"KEY{i}"])
        v = rng.choice(["MdePkg/MdePkg.dsc", "DEBUG", "IA32 X64", "", "A=B", "x == y", '"a # b"', "é", "C:\\x", "12", "= lead", "IA32  X64   ARM", "a\tb"])
        lines.append(f"{k}{rng.choice([' = ', '=', '    =   '])}{v}")
        want[k] = v
    if rng.random() < .4:
        lines.append("just text")
    text = G.decorate(rng, lines)
    c.key(text, nontrivial=bool(want))
    c.note(text=text, want=want)
    p = TargetTxtParser()
    path = c.write("Conf/target.txt", text)
    if rng.random() < .5:
        p.SetBaseAbsPath(c.tmp)
        path = "Conf/target.txt"
    c.must("target:parse", p.ParseFile, path)
    c.equal(p.Dict, want, "target:dict")
    c.expect(p.Parsed, "target:parsed")
    c.event("setting", len(want))


RS = ">" + "=" * 118 + "<"
RE = "<" + "=" * 118 + ">"
SS = ">" + "-" * 118 + "<"
SE = "<" + "-" * 118 + ">"
DASH = "-" * 120


def gen_report(c, rng):
    nm = G.Names(rng)
    ws = os.path.join(c.tmp, "ws")
    short = rng.random() < .2
    pp = os.path.join(ws, "p") if short else os.path.join(c.tmp, "pp")
    os.makedirs(ws)
    os.makedirs(pp)

    def place(rel):
        """(text in the report, edk2 relative path or the text itself)."""
        m = rng.randrange(6)
        root = ws if m < 4 else pp
        p = os.path.join(root, rel)
        if not os.path.exists(p):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        return p, rel
    L = [f"Platform Name:        {nm.ident()}", "Platform DSC Path:    Plat/Plat.dsc", "Architectures:        IA32 X64",
         "Tool Chain:           GCC5", "Output Path:          /build/out", ""]
    if rng.random() < .5:
        rng.shuffle(L)
        L += rng.choice([[], ["Report Output Path:   /other"], ["Old Platform Name:   other"]])
    L.sort(key=lambda x: not x.startswith("Platform Name"))
    head = dict(name=L[0].split()[-1], dsc="Plat/Plat.dsc", out="/build/out")
    mods, regions, fvs = {}, [], {}
    for _ in range(rng.randrange(1, 6)):
        guid = str(G.rand_uuid(rng)).upper()
        rel = nm.path(".inf")
        if rng.random() < .2:
            rel = rel[:-4] + rng.choice([".INF", ".Inf"])
        absinf, rel = place(rel)
        name, typ = nm.ident(), rng.choice(G.MODTYPES)
        shown = absinf if rng.random() < .2 else rel
        if shown is rel and rng.random() < .15:
            shown = rel.replace("/", "\\")
        if rng.random() < .1:
            name = rng.choice(["SECRETWORDa", "aSECRETWORDbSECRETWORD", "xSECRETWORD"])
        m = dict(name=name, inf=shown.replace("\\", "/"), rel=rel, abs=absinf, type=typ, libs={}, pcds={}, depex="")
        r = [RS, "Module Summary"]
        hdr = [f"Module Name:          {name}", f"Module INF Path:      {shown}", f"File GUID:            {guid}",
               "Size:                 0x23000 (140.00K)", "Build Time Stamp:     2020-01-01 10:11:12", f"Driver Type:          0x5 ({typ})"]
        if rng.random() < .5:
            rng.shuffle(hdr)
        if rng.random() < .3:  # long path on the next line
            i = [j for j, x in enumerate(hdr) if x.startswith("Module INF Path")][0]
            cut = rng.randrange(len("Module INF Path:      ") + 1, len(hdr[i]) - 4)
            if not hdr[i][cut - 1].isspace() and not hdr[i][cut].isspace():
                hdr[i:i + 1] = [hdr[i][:cut], hdr[i][cut:]]
                more = len(hdr[i + 1]) - 4
                if more > 1 and rng.random() < .5:  # a very long one
                    cut = rng.randrange(1, more)
                    if not hdr[i + 1][cut - 1].isspace() and not hdr[i + 1][cut].isspace():
                        hdr[i + 1:i + 2] = [hdr[i + 1][:cut], hdr[i + 1][cut:]]
        r += hdr
        secs = rng.sample(["lib", "pcd", "depex", "other"], rng.randrange(0, 5))
        for s in secs:
            r.append(SS)
            if s == "lib":
                r += ["Library", DASH]
                nulls = 0
                for _ in range(rng.randrange(0, 6)):
                    cls = rng.choice([nm.ident("", "Lib"), nm.ident("", "Lib"), "NULL", "NULL" if rng.random() < .7 else "Null"])
                    if rng.random() < .85:
                        a, w = place(nm.path(".inf"))
                    else:
                        a = w = "/elsewhere/" + nm.path(".inf")
                    key = cls
                    if cls.upper() == "NULL":
                        key, nulls = f"{cls}{nulls}", nulls + 1
                    m["libs"][key] = w
                    extra = rng.choice(["", ": C = foo", " : C = a, b", " ", ": Depex = (a AND b) Time = 3ms"])
                    if rng.random() < .6:
                        r += [a, f"{{{cls}{extra}}}"]
                    else:
                        k = rng.randrange(1, len(cls))
                        r += [a, f"{{{cls[:k]}", f"{cls[k:]}{extra}}}"]
            elif s == "pcd":
                r += ["PCD", DASH]
                for _ in range(rng.randrange(0, 3)):
                    ts = nm.ident("g", "TokenSpaceGuid")
                    r.append(ts)
                    for _ in range(rng.randrange(0, 5)):
                        n = nm.ident("Pcd")
                        v = rng.choice(["0x1", "TRUE", "FALSE", '"text"', '"two words"', 'L"x"', '"a=b"', '"C:/x"', "0x0 (0)", '"a:b=c"', "ARRAY", "MULTI"])
                        pre = rng.choice(["    ", "*B  ", "*P  ", "*M  "])
                        ty = rng.choice([" FLAG (BOOLEAN)", "FIXED (UINT8)", "  DYN (UINT32)"])
                        if v == "ARRAY":
                            r += [f"{pre}{n} : {ty} = {{", "0x01, 0x02,", "0x03}"]
                            v = "{ 0x01, 0x02, 0x03}"
                        elif v == "MULTI":
                            r += [f'{pre}{n} : {ty} = "first', 'second"']
                            v = '"first second"'
                        else:
                            r.append(f"{pre}{n} : {ty} = {v}")
                        m["pcds"][f"{ts}.{n}"] = v
                        if rng.random() < .3:
                            r.append('        DSC DEFAULT = ' + rng.choice(["0x0", '"a:b"', '""', "TRUE"]))
                        if rng.random() < .1:
                            r += ['        DSC DEFAULT = "begun', "*P  Not.Setting : FLAG (BOOLEAN) = 1\"" if rng.random() < .5 else 'and ended"']
            elif s == "depex":
                if rng.random() < .5:
                    r += ["Final Dependency Expression (DEPEX) Instructions", "PUSH gA", "END", DASH]
                    r.append("Dependency Expression (DEPEX) from INF")
                else:
                    r.append("Dependency Expression (DEPEX) from INF")
                for _ in range(rng.randrange(1, 3)):
                    d = rng.choice(["TRUE", "gFooGuid AND gBarGuid", "(gA OR NOT gB)"])
                    r.append(d)
                    m["depex"] += " " + d
                r += [DASH, "From Module INF: TRUE"]
            else:
                r += ["Build Options", DASH, "x = y", "A: B"]
            r.append(SE)
        r.append(RE)
        regions.append(r)
        mods[guid] = m
    fd = []
    if rng.random() < .8:
        fd = [RS, "Firmware Device (FD)", "FD Name:            X", "Base Address:       0xFF000000", "Size:               0x1000 (4K)"]
        left = list(mods)
        rng.shuffle(left)
        for i in range(rng.randrange(1, 4)):
            fv = nm.ident("FV_")
            fd += [SS, "FD Region", f"Fv Name:            {fv} ({rng.randrange(100)}.5% Full)", "Occupied Size:      0x10", "Offset     Module", DASH]
            for _ in range(rng.randrange(0, 3)):
                if not left:
                    break
                g = left.pop()
                line = f"0x{rng.randrange(1 << 28):08X} {mods[g]['name']} ({mods[g]['abs']})"
                if rng.random() < .3:
                    k = rng.randrange(line.index("(") + 2, len(line))
                    fd += [line[:k], line[k:]]
                else:
                    fd.append(line)
                fvs[g] = fv
            if rng.random() < .3:
                fd += ["0x00001000 0A1B (None)", "0x00002000 PadFile (pad)"][:rng.randrange(1)]
            if rng.random() < .7 or i:
                fd.append(SE)
        fd.append(RE)
    others = [[RS, "Platform Configuration Database Report", "x : y", RE], [RS, "Prediction", "Platform Name: Wrong", "Output Path: /wrong", RE]]
    allr = regions + ([fd] if fd else []) + rng.sample(others, rng.randrange(0, 3))
    rng.shuffle(allr)
    for r in allr:
        L += r
        L += [""] * rng.randrange(0, 3)
    ind = lambda s: rng.choice(["", "", " ", "   "]) + s  # noqa
    return [ind(x) for x in L], head, mods, fvs, ws, "p" if short else pp, len(allr)


@ck.family("report", 500, 8000)
def report(c):
    rng = c.rng
    L, head, mods, fvs, ws, pp, nreg = gen_report(c, rng)
    text = rng.choice(["\n", "\r\n"]).join(L)
    c.key(text.replace(c.tmp, "T"))
    c.note(report=text)
    prot = {"SECRETWORD": "xxx"} if rng.random() < .3 else {}
    br = BuildReport(c.write("report.txt", text), ws, pp if rng.random() < .5 else pp + ", ", prot)
    c.must("report:parse", br.BasicParse)
    c.equal((br.PlatformName, br.DscPath, br.BuildOutputDir), (head["name"], head["dsc"], head["out"]), "report:header")
    c.equal(sorted(br.Modules), sorted(mods), "report:modules")
    for g, m in mods.items():
        x = br.Modules.get(g)
        if x is None:
            continue
        name = m["name"]
        for k, v in prot.items():
            c.event("protected_word", name.count(k))
            name = name.replace(k, v)
        c.equal((x.Guid, x.Name, x.Type), (g, name, m["type"]), "report:identity")
        # absolute INF paths may be converted by queries
        c.expect(x.InfPath in (m["inf"], m["rel"]), "report:inf-path", got=x.InfPath, want=m["inf"])
        c.equal(x.Libraries, m["libs"], "report:libraries")
        c.equal(x.PCDs, m["pcds"], "report:pcds")
        c.equal(x.Depex, m["depex"], "report:depex")
        c.equal(x.FvName, fvs.get(g), "report:fv-name")
        c.event("module")
        c.event("library", len(m["libs"]))
        c.event("pcd", len(m["pcds"]))
    for g, m in mods.items():
        f = br.FindComponentByInfPath(m["rel"].upper() if rng.random() < .5 else m["rel"])
        c.expect(f is not None and f.Guid == g, "report:find-by-inf", rel=m["rel"])
    c.expect(br.FindComponentByInfPath("No/Such.inf") is None, "report:find-missing")
    c.event("flash_module", len(fvs))


@ck.family("override", 1500, 30000)
def override(c):
    rng = c.rng
    lines, want = [], []
    n = rng.randrange(0, 6)
    bad = None
    for i in range(n):
        t = datetime.datetime(rng.randrange(1990, 2100), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))
        path = rng.choice(["My/Path/1.inf", "a.inf", "X/./Y.inf", "X/../Z.inf", "A//B.inf", "../Out/B.inf", "./Here/C.inf", "C:/Abs/D.inf", "/abs/E.inf", "With Space/x.inf"])
        h = rng.choice(["%032x", "%032x", "%032X", "md5:%032x"]) % rng.getrandbits(128)
        f = [rng.choice(["00000001", "1", "0001"]), path, h, t.strftime("%Y-%m-%dT%H-%M-%S")]
        rec = dict(version=1, original_path=os.path.normpath(path), current_hash=h, datetime=t)
        if bad is None and rng.random() < .25:
            m = rng.randrange(9)
            if m == 0:
                f[0] = rng.choice(["2", "0", "-1", "x", "", "1.0", "0000000X", "11"])
                kind = OpParseError.PE_VER
            elif m == 1:
                f[3] = rng.choice(["", "NOTADATE", "2018-13-01T00-00-00", "2018-11-27 22-36-30", "2018-11-27T22:36:30", "2018-11-27T22-36", f[3] + "x"])
                kind = OpParseError.PE_DATE
            elif m == 2:
                del f[rng.randrange(4)]
                kind = OpParseError.PE_VER
            elif m == 3:
                f.append("extra")
                kind = OpParseError.PE_VER
            elif m == 4:
                f[1] = ""
                kind = OpParseError.PE_PATH
            elif m == 5:
                f[2] = " "
                kind = OpParseError.PE_HASH
            elif m == 6:
                f = []
                kind = OpParseError.PE_VER
            else:
                f = None
                kind = OpParseError.PE_VER
            bad = (len(lines), kind)
        kw = rng.choice(["#Override", "#OVERRIDE", "#override"])
        bar = lambda: rng.choice(["|", " | ", "  |"])  # noqa
        if f is None:
            line = kw
        else:
            s = f[0] if f else ""
            for x in f[1:]:
                s += bar() + x
            line = f"{kw}{rng.choice([':', ' : ', ' :'])}{s}"
        line = rng.choice(["", "  ", "\t"]) + line + rng.choice(["", "  ", "\r"])
        for _ in range(rng.randrange(0, 3)):
            lines.append(rng.choice(["", "# comment", "a\x0cb", "x\x85y\u2028z", "[Defines]", "X = Override", "# #Override in text", "Override : 1 | x | y | z"]))
        lines.append(line)
        want.append((len(lines), line.strip(), rec))
        if bad and len(bad) == 2:
            bad = bad + (len(lines), line.strip())
    lines += rng.choice([[], ["tail"], [""]])
    text = "\n".join(lines)
    c.key(text, nontrivial=bool(want))
    c.note(text=text)
    if rng.random() < .5:
        path = None
        make = lambda: OverrideParser(inf_contents=text)  # noqa
    else:
        path = c.write("a.inf", text)
        given = path if rng.random() < .5 else os.path.relpath(path)
        make = lambda: OverrideParser(file_path=given)  # noqa
        if rng.random() < .1:
            c.must_raise("override:both", ValueError, lambda: OverrideParser(file_path=path, inf_contents=rng.choice(["", text])))
            c.must_raise("override:no-file", ValueError, lambda: OverrideParser(file_path=path + "x"))
            c.must_raise("override:folder", ValueError, lambda: OverrideParser(file_path=os.path.dirname(path)))
            c.must_raise("override:neither", ValueError, OverrideParser)
    if not want:
        c.must_raise("override:none", ValueError, make)
        return
    c.equal([(x["lineno"], x["line"]) for x in OverrideParser.get_override_lines(text)], [(a, b) for a, b, _ in want], "override:lines")
    if bad:
        o = c.must_raise("override:bad", ValueError, make)
        if isinstance(o.exc, ValueError):
            c.expect(bad[3] in str(o.exc) and f"line {bad[2]} " in str(o.exc), "override:error-names-record", error=str(o.exc), bad=bad)
        c.must_raise("override:bad-line", OpParseError, OverrideParser.parse_override_line, bad[3])
        c.event("override_refused")
        for a, b, rec in want:
            if a != bad[2]:
                c.equal(OverrideParser.parse_override_line(b), rec, "override:good-line")
        return
    p = c.must("override:parse", make)
    c.equal(p.file_path, os.path.abspath(path) if path else "String Buffer", "override:file-path")
    c.equal(p.overrides, [r for _, _, r in want], "override:records")
    c.equal([(x["lineno"], x["line"]) for x in p.override_lines], [(a, b) for a, b, _ in want], "override:lines")
    c.event("override", len(want))


if __name__ == "__main__":
    sys.exit(ck.main())
