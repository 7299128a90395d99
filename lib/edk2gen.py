"""Model generators for DEC, INF, DSC and FDF files.

Every generator draws a model from the case PRNG and returns (lines, expect): the logical lines of the file (no
comments, no blank lines) and what a parser must report.  snap_* read the public attributes of a parser.
decorate() adds comments, blank lines, indentation and line ends, none of which may change a parse.
"""
import uuid

ARCHES = ["IA32", "X64", "AARCH64", "ARM", "EBC", "RISCV64", "LOONGARCH64"]
MODTYPES = ["SEC", "PEIM", "PEI_CORE", "DXE_DRIVER", "DXE_CORE", "DXE_RUNTIME_DRIVER", "UEFI_DRIVER", "UEFI_APPLICATION",
            "MM_STANDALONE", "USER_DEFINED", "HOST_APPLICATION"]
WORDS = ["Base", "Memory", "Print", "Debug", "Uefi", "Boot", "Pei", "Dxe", "Timer", "Io", "Rng", "Hash", "Tpm", "Usb",
         "Define", "DEFINED", "Resources", "sources", "Include", "Common", "x", "if"]


def recase(rng, s):
    return rng.choice([s, s, s.lower(), s.upper()])


class Names:
    def __init__(self, rng):
        self.rng, self.n, self.paths = rng, 0, []

    def ident(self, prefix="", suffix=""):
        self.n += 1
        return prefix + self.rng.choice(WORDS) + self.rng.choice(["", self.rng.choice(WORDS)]) + str(self.n) + suffix

    def path(self, ext):
        rng = self.rng
        parts = [rng.choice(["Pkg", "SomePkg", "Library", "Core", "Drivers", "a-b", "x.y", "Resources"]) for _ in range(rng.randrange(0, 4))]
        p = "/".join(parts + [self.ident()]) + ext
        if self.paths and rng.random() < .15:
            # a path of which an earlier one is the tail, the head of its last part, or the same last part
            q, m = rng.choice(self.paths), rng.randrange(3)
            if m == 0:
                p = self.ident() + "/" + q + (ext if not q.endswith(ext) else "")
            elif m == 1:
                p = (q[:-len(ext)] if ext and q.endswith(ext) else q) + self.ident() + ext
            else:
                p = self.ident() + q.replace("/", "_") + ("" if q.endswith(ext) else ext)
        self.paths.append(p)
        return p


def rand_uuid(rng):
    m = rng.randrange(4)
    b = bytes(rng.randrange(256) for _ in range(16))
    if m == 0:
        b = bytes(x if rng.random() < .5 else rng.choice([0, 0, 0x0f, 0x10]) for x in b)
    return uuid.UUID(bytes=b)


def c_guid(rng, u, fancy=True):
    """A C initialiser text of a UUID: leading zeros, letter case and blanks vary."""
    vals = [(u.time_low, 8), (u.time_mid, 4), (u.time_hi_version, 4)] + [(b, 2) for b in u.bytes[8:]]
    out = []
    for v, w in vals:
        s = "%x" % v
        if not fancy or rng.random() < .7:
            s = s.rjust(w, "0")
        s = recase(rng, s)
        out.append(rng.choice(["0x", "0x", "0X"] if fancy else ["0x"]) + s)
    sp = (lambda: rng.choice(["", " ", "  "])) if fancy else (lambda: " ")
    return "{" + sp() + ("," + sp()).join(out[:3]) + "," + sp() + "{" + sp() + ("," + sp()).join(out[3:]) + sp() + "}" + sp() + "}"


def header(rng, base, arches=(), case=True):
    b = recase(rng, base) if case else base
    if not arches:
        return f"[{b}]"
    sep = rng.choice([",", ", "])
    return "[" + sep.join(b if a == "" else f"{b}.{a}" for a in arches) + "]"


def some_arches(rng):
    """Section scopes: [] for no suffix."""
    m = rng.randrange(6)
    if m < 2:
        return []
    if m == 2:
        return ["common"]
    return rng.sample(ARCHES, rng.randrange(1, 4))


# ------------------------------------------------------------------ DEC
def gen_dec(rng):
    nm = Names(rng)
    lines, ex = [], dict(dict={}, libs=[], protocols=[], ppis=[], guids=[], pcds=[], includes=[])
    pkg = nm.ident("Pkg")
    lines.append(header(rng, "Defines"))
    for k, v in [("DEC_SPECIFICATION", "0x00010005"), ("PACKAGE_NAME", pkg), ("PACKAGE_GUID", rng.choice([str.lower, str.upper])(str(rand_uuid(rng)))),
                 ("PACKAGE_VERSION", "0.1"), ("PACKAGE_UNI_FILE", "x.uni")]:
        if k == "PACKAGE_NAME" or rng.random() < .8:
            lines.append(f"{k}{rng.choice(['=', ' = ', '  =  '])}{v}")
            ex["dict"][k] = v
    ex["name"] = pkg
    for _ in range(rng.randrange(1, 9)):
        kind = rng.choice(["Includes", "LibraryClasses", "Protocols", "Ppis", "Guids", "Pcds", "Pcds", "Other"])
        ar = some_arches(rng)
        n = rng.randrange(0, 5)
        if kind == "Other":
            lines.append(rng.choice(['[UserExtensions.TianoCore."ExtraFiles"]', "[Unknown]", "[Depex]"]))
            lines.extend(rng.choice(["a = b", "Foo.h", "TRUE"]) for _ in range(n))
            continue
        if kind == "Pcds":
            t = rng.choice(["PcdsFixedAtBuild", "PcdsFeatureFlag", "PcdsDynamic", "PcdsDynamicEx", "PcdsPatchableInModule"])
            if ar and rng.random() < .3:
                lines.append("[" + ", ".join(f"{t2}.{a}" for t2 in (t, "PcdsDynamic") for a in ar[:2]) + "]")
            else:
                lines.append(header(rng, t, ar))
            for _ in range(n):
                ts, name = nm.ident("g", rng.choice(["TokenSpaceGuid", "TokenSpaceGuid", "GuidSpace", "Guid"])), nm.ident("Pcd")
                dv = rng.choice(["0x1", "TRUE", "0", "100", 'L"text"', '"a|b"', "'c|d|e'", '"#not a comment"', "{0x1, 0x2}", '"a, b"',
                                 '{"x|y", "z"}', '"it\'s|fine"', "{GUID(\"11111111-2222-3333-4444-555555555555\")}", '""', '"x.y"',
                                 'L"a|b|c|d|e"', "0xFFFFFFFFFFFFFFFF"])
                ty = rng.choice(["UINT8", "UINT16", "UINT32", "UINT64", "BOOLEAN", "VOID*"])
                tok = "0x%08X" % rng.randrange(1 << 32)
                bar = lambda: rng.choice(["|", " | ", "| ", " |"])  # noqa
                if rng.random() < .15:
                    st = nm.ident("STRUCT_")
                    lines.append(f"{ts}.{name}{bar()}{{0}}{bar()}{st}{bar()}{tok} {{")
                    ex["pcds"].append((ts, name, "{0}", st, tok, pkg)) if rng.random() < 2 else None
                    lines += ["<HeaderFiles>", f"  Library/{nm.ident()}.h", "<Packages>", f"  MdePkg/{nm.ident()}.dec", "}"]
                    if rng.random() < .6:
                        f = name + "." + nm.ident("Field") + rng.choice(["", "", "." + nm.ident("Sub"), "[0]", "[0].Sub." + nm.ident()])
                        lines.append(f"{ts}.{f}{bar()}0x5")
                        ex["pcds"].append((ts, f, "0x5", "STRUCTURED_PCD", "STRUCTURED_PCD", pkg))
                else:
                    lines.append(f"{ts}.{name}{bar()}{dv}{bar()}{ty}{bar()}{tok}")
                    ex["pcds"].append((ts, name, dv, ty, tok, pkg))
            continue
        lines.append(header(rng, kind, ar) if rng.random() < .9 or kind != "Guids" else header(rng, kind, [a + ".Private" for a in (ar or ["common"])]))
        for _ in range(n):
            if kind == "Includes":
                p = rng.choice(["Include", "Include/" + nm.ident(), nm.path("")]) + rng.choice(["", "", "", "/"])
                lines.append(p)
                ex["includes"].append(p)
            elif kind == "LibraryClasses":
                a, b = nm.ident("", "Lib"), nm.path(".h")
                lines.append(f"{a}{rng.choice(['|', ' | ', '|  '])}{b}")
                ex["libs"].append((a, b, pkg))
            else:
                a, u = nm.ident("g", "Guid"), rand_uuid(rng)
                lines.append(f"{a}{rng.choice(['=', ' = ', '  = '])}{c_guid(rng, u) if rng.random() < .85 else recase(rng, rng.choice([str(u), str(u), '{%s}' % u]))}")
                ex[kind.lower()].append((a, u, pkg))
    return lines, ex


def snap_dec(p):
    g = lambda xs: [(x.name, x.guid, x.package_name) for x in xs]  # noqa
    return dict(name=p.PackageName, dict=dict(p.Dict), libs=[(x.name, x.path, x.package_name) for x in p.LibraryClasses],
                protocols=g(p.Protocols), ppis=g(p.PPIs), guids=g(p.Guids), includes=list(p.IncludePaths),
                pcds=[(x.token_space_name, x.name, x.default_value, x.type, x.id, x.package_name) for x in p.Pcds])


# ------------------------------------------------------------------ INF
def gen_inf(rng):
    nm = Names(rng)
    lines = [header(rng, "Defines")]
    ex = dict(dict={}, lc="", phases=[], packages=[], libraries=[], protocols=[], guids=[], ppis=[], pcds=[], sources=[],
              binaries=[], slibs={}, ssrcs={})
    macros = {}
    base = [("INF_VERSION", "0x00010005"), ("BASE_NAME", nm.ident()), ("FILE_GUID", str(rand_uuid(rng)).upper()),
            ("MODULE_TYPE", rng.choice(MODTYPES)), ("VERSION_STRING", "1.0"), ("ENTRY_POINT", nm.ident())]
    if rng.random() < .6:
        ph = rng.choice(["", "|" + rng.choice([" ", " ", "  ", "\t"]).join(rng.sample(MODTYPES, rng.randrange(1, 4))), " | DXE_DRIVER", "|BASE", "|"])
        base.append(("LIBRARY_CLASS", nm.ident("", "Lib") + ph))
    rng.shuffle(base)
    for k, v in base:
        if rng.random() < .9:
            lines.append(f"{k}{rng.choice(['=', ' = ', '   = '])}{v}")
            ex["dict"][k] = v
            if rng.random() < .1 and k != "LIBRARY_CLASS":
                ex["dict"][k] = v + "x" if k != "MODULE_TYPE" else "BASE"
                lines.append(f"{k} = {ex['dict'][k]}")
            if k == "LIBRARY_CLASS":
                a, _, b = v.partition("|")
                ex["lc"] = a.strip()
                ex["phases"] = None if b.strip().lower() in ("", "base") else b.split()
    for _ in range(rng.randrange(0, 4)):
        k, v = nm.ident("MAC_"), rng.choice(["dir", "a/b", "DEFINE", "x_DEFINE_y"])
        lines.append(f"DEFINE {k}{rng.choice(['=', ' = '])}{v}")
        macros[k] = v

    def mac(s):
        if macros and rng.random() < .25:
            k = rng.choice(sorted(macros))
            return f"$({k})/{s}", f"{macros[k]}/{s}"
        return s, s
    pools = {}

    def name(kind, make):
        """A name of that kind; some are listed again (for another architecture, say)."""
        pool = pools.setdefault(kind, [])
        if pool and rng.random() < .15:
            return rng.choice(pool)
        pool.append(make())
        return pool[-1]
    kinds = ["Sources", "Sources", "LibraryClasses", "LibraryClasses", "Packages", "Protocols", "Ppis", "Guids", "Pcd",
             "FixedPcd", "PatchPcd", "FeaturePcd", "PcdEx", "Binaries", "Depex", "BuildOptions", "UserExtensions"]
    for _ in range(rng.randrange(1, 10)):
        kind = rng.choice(kinds)
        ar = some_arches(rng)
        n = rng.randrange(0, 5)
        if kind == "UserExtensions":
            lines.append('[UserExtensions.TianoCore."ExtraFiles"]')
            lines.extend(nm.ident() + ".uni" for _ in range(n))
            continue
        lines.append(header(rng, kind, ar))
        flag = lambda: rng.choice(["", "", "", "|gTok.PcdX", " | gTok.PcdFlag == TRUE", "|  A", " | gT.PcdA || gT.PcdB", "|gT.A|gT.B", "| |"])  # noqa
        for _ in range(n):
            if kind == "Sources":
                s, w = mac(name(kind, lambda: nm.path(rng.choice([".c", ".h", ".asm", ".nasm", ".S"]))))
                lines.append(s + rng.choice(["", "", "", "|GCC", " | MSFT", " || | |gP.F"]))
                ex["sources"].append(w)
                for a in ar or ["common"]:
                    ex["ssrcs"].setdefault(a.lower(), []).append(w)
            elif kind == "LibraryClasses":
                s = name(kind, lambda: nm.ident("", "Lib"))
                lines.append(s + flag())
                ex["libraries"].append(s)
                for a in ar or ["common"]:
                    ex["slibs"].setdefault(a.lower(), []).append(s)
            elif kind == "Packages":
                s, w = mac(name(kind, lambda: nm.path(".dec")))
                lines.append(s + flag())
                ex["packages"].append(w)
            elif kind in ("Protocols", "Ppis", "Guids"):
                s = name(kind, lambda: nm.ident("gEfi", "Guid"))
                lines.append(s + flag())
                ex[kind.lower()].append(s)
            elif kind in ("Pcd", "FixedPcd", "PatchPcd", "FeaturePcd", "PcdEx"):
                s = name("Pcd", lambda: nm.ident("g", "TokenSpaceGuid") + "." + nm.ident("Pcd"))
                lines.append(s + rng.choice(["", "", "|0x1", " | TRUE", "|0x1|gT.PcdFlag", " | {0x1, 0x2}"]))
                ex["pcds"].append(s)
            elif kind == "Binaries":
                s, w = mac(name(kind, lambda: nm.path(rng.choice([".efi", ".depex", ".bin", ""]))))
                if rng.random() < .6:
                    s = rng.choice(["PE32", "BIN", "RAW", "DXE_DEPEX", "UI"]) + rng.choice(["|", " | ", "| "]) + s
                    s += rng.choice(["", "", "|*", " | DEBUG", "|RELEASE|GCC5|X64|gT.PcdX"])
                lines.append(s)
                ex["binaries"].append(w)
            elif kind == "Depex":
                lines.append(rng.choice(["TRUE", "gFooGuid AND gBarGuid"]))
            else:
                lines.append(rng.choice([f"GCC:*_*_X64_CC_FLAGS = -O{rng.randrange(3)}", "MSFT:*_*_*_CC_FLAGS = /DSOURCES, /Dx",
                                         "GCC:*_*_*_CC_FLAGS = -DLIBRARYCLASSES.IA32, -Dy", "*_*_*_CC_FLAGS = -DX=A[Sources.X64]",
                                         "GCC:*_*_*_DLINK_FLAGS = sources.o, libraryclasses.o,"]))
    ex["macros"] = macros
    return lines, ex


def snap_inf(p):
    return dict(dict=dict(p.Dict), lc=p.LibraryClass, phases=list(p.SupportedPhases), packages=list(p.PackagesUsed),
                libraries=list(p.LibrariesUsed), protocols=list(p.ProtocolsUsed), guids=list(p.GuidsUsed), ppis=list(p.PpisUsed),
                pcds=list(p.PcdsUsed), sources=list(p.Sources), binaries=list(p.Binaries),
                slibs={k: list(v) for k, v in p.ScopedLibraryDict.items()}, ssrcs={k: list(v) for k, v in p.ScopedSourceDict.items()})


# ------------------------------------------------------------------ DSC
def gen_dsc(rng, multi_arch_components=False, macros_ok=True):
    nm = Names(rng)
    lines = [header(rng, "Defines")]
    defines = {"DSC_SPECIFICATION": "0x00010005", "PLATFORM_NAME": nm.ident(), "SUPPORTED_ARCHITECTURES": "|".join(rng.sample(ARCHES, rng.randrange(1, 4)))}
    for k, v in defines.items():
        lines.append(f"{k}{rng.choice(['=', ' = '])}{v}")
    macros = {}
    for _ in range(rng.randrange(0, 4)):
        k, v = nm.ident("MAC_"), rng.choice(["PkgA", "PkgB/Sub", "x-y"])
        macros[k] = v
        lines.append(f"DEFINE {k} = {v}")
    defines.update(macros)
    ex = dict(defines=defines, three=[], six=[], other=[], libs=[], comps=[], scoped={}, pcds=[], c2i={})

    def mac(s):
        if macros_ok and macros and rng.random() < .25:
            k = rng.choice(sorted(macros))
            return f"$({k})/{s}", f"{macros[k]}/{s}"
        return s, s

    def scoped_add(scope, lib, inst):
        lst = ex["scoped"].setdefault(f"{scope}.{lib}".lower(), [])
        if inst in lst:
            lst.remove(inst)
        lst.insert(0, inst)

    old_paths, old_pcds = [], []

    def comp_path():
        """The path of a component; some are listed more than once (for several architectures, say)."""
        if not old_paths or rng.random() < .75:
            old_paths.append(nm.path(rng.choice(INF_EXT)))
            return old_paths[-1]
        return rng.choice(old_paths)

    def pcd_name():
        """A PCD; some are given in several places."""
        if not old_pcds or rng.random() < .75:
            old_pcds.append(nm.ident("g", "TokenSpaceGuid") + "." + nm.ident("Pcd"))
            return old_pcds[-1]
        return rng.choice(old_pcds)

    libnames = [nm.ident("", "Lib") for _ in range(rng.randrange(1, 5))]
    insts = [nm.path(rng.choice(INF_EXT)) for _ in range(6)]
    for _ in range(rng.randrange(1, 9)):
        kind = rng.choice(["LibraryClasses", "LibraryClasses", "Components", "Components", "Components", "Pcds", "SkuIds", "BuildOptions"])
        n = rng.randrange(0, 5)
        bar = lambda: rng.choice(["|", " | ", "|  "])  # noqa
        if kind == "LibraryClasses":
            m = rng.randrange(4)
            if m == 0:
                sc = [""]
            elif m == 1:
                sc = ["common"]
            else:
                sc = list(dict.fromkeys(rng.choice(["common"] + ARCHES) + (("." + rng.choice(MODTYPES)) if rng.random() < .6 else "")
                                        for _ in range(rng.randrange(1, 4))))
            lines.append(header(rng, "LibraryClasses", sc if sc != [""] else []))
            for _ in range(n):
                lib = rng.choice(libnames + ["NULL"])
                s, w = mac(rng.choice(insts)) if rng.random() < .7 else mac(nm.path(rng.choice(INF_EXT)))
                lines.append(f"{lib}{bar()}{s}")
                ex["libs"].append(w)
                ex["c2i"].setdefault(lib, []).append(w)
                for x in sc:
                    scoped_add(x or "common", lib, w)
        elif kind == "Components":
            if multi_arch_components and rng.random() < .5:
                ar = rng.sample(ARCHES, rng.randrange(2, 4))
            else:
                ar = rng.choice([[], ["common"], ["X64"], ["IA32"], ["X64"], ["IA32"], [rng.choice(ARCHES)]])
            lines.append(header(rng, "Components", ar))
            for _ in range(n):
                s, w = mac(comp_path())
                over = {"NULL": []}
                if rng.random() < .4:
                    lines.append(s + rng.choice(["{", " {", "   {"]))
                    for _ in range(rng.randrange(0, 4)):
                        sub = rng.choice(["LibraryClasses", "LibraryClasses", "PcdsFixedAtBuild", "BuildOptions", "Defines"])
                        lines.append(f"<{recase(rng, sub)}>")
                        for _ in range(rng.randrange(0, 3)):
                            if sub == "LibraryClasses":
                                lib = rng.choice(libnames + ["NULL", "NULL"])
                                t, tw = mac(rng.choice(insts))
                                lines.append(f"{lib}{bar()}{t}")
                                ex["libs"].append(tw)
                                ex["c2i"].setdefault(lib, []).append(tw)
                                if lib == "NULL":
                                    over["NULL"].append(tw)
                                else:
                                    over[lib.lower()] = tw
                            elif sub == "PcdsFixedAtBuild":
                                q = pcd_name()
                                lines.append(f"{q}{bar()}{rng.choice(['0x1', 'TRUE', '100', '{0x01, 0x02}|VOID*|2', '{0x5}', '{ CODE({ {1}, {2} }) }'])}")
                                ex["pcds"].append(q)
                            elif sub == "BuildOptions":
                                lines.append("GCC:*_*_*_CC_FLAGS = -O0")
                            else:
                                lines.append(f"FILE_GUID = {rand_uuid(rng)}")
                    lines.append("}")
                else:
                    lines.append(s)
                first = (ar or ["common"])[0].upper()
                for a in (ar if len(ar) > 1 else [first]):
                    ex["three" if a == "IA32" else "six" if a == "X64" else "other"].append(w) if len(ar) <= 1 else None
                for a in ar or ["common"]:
                    if a == "common":
                        for b in defines["SUPPORTED_ARCHITECTURES"].split("|"):
                            ex["comps"].append((w, b.lower(), over))
                    else:
                        ex["comps"].append((w, a.lower(), over))
        elif kind == "Pcds":
            lines.append(header(rng, rng.choice(["PcdsFixedAtBuild", "PcdsFeatureFlag", "PcdsDynamicDefault", "PcdsPatchableInModule"]),
                                rng.choice([[], ["common"], ["X64"], ["IA32", "X64"]])))
            for _ in range(n):
                q = pcd_name()
                lines.append(f"{q}{bar()}" + rng.choice(["0x1", "TRUE", "100", '"#str"', "{0x1, 0x2}", "0x1|UINT32|4"]))
                ex["pcds"].append(q)
        elif kind == "SkuIds":
            lines.append("[SkuIds]")
            lines.append("0|DEFAULT")
        else:
            lines.append(header(rng, "BuildOptions", rng.choice([[], ["X64"]])))
            for _ in range(n):
                lines.append(rng.choice(["GCC:*_*_*_CC_FLAGS = -Wall", "MSFT:RELEASE_*_*_CC_FLAGS == /O2 /X"]))
    return lines, ex


def snap_dsc(p):
    d = {k: v for k, v in p.LocalVars.items() if ":" not in k}
    return dict(defines=d, three=list(p.ThreeMods), six=list(p.SixMods), other=list(p.OtherMods), libs=list(p.Libs),
                comps=[(m, a.lower(), o) for m, a, o in p.Components], scoped={k: list(v) for k, v in p.ScopedLibraryDict.items()},
                pcds=list(p.Pcds), lines=[" ".join(x.split()) for x in p.Lines])


# ------------------------------------------------------------------ FDF
def gen_fdf(rng):
    nm = Names(rng)
    lines, ex = [], dict(dict={}, fds=set(), fvs={})
    lines.append(header(rng, "Defines"))
    for _ in range(rng.randrange(0, 5)):
        k, v = nm.ident("MAC_"), rng.choice(["PkgA", "0x1000", "PkgB/Sub", "FALSE", "DEFINE_ME", "UNDEFINE x", "A-DEFINE y"])
        if ex["dict"] and rng.random() < .3:
            j = rng.choice(sorted(ex["dict"]))
            lines.append(f"DEFINE {k} = $({j})/{v}")
            ex["dict"][k] = f"{ex['dict'][j]}/{v}"
        else:
            lines.append(rng.choice([f"DEFINE {k} = {v}", f"DEFINE  {k}={v}", f"DEFINE\t{k} ={v}", f"{k} = {v}"]))
            ex["dict"][k] = v
    for _ in range(rng.randrange(1, 7)):
        kind = rng.choice(["FV", "FV", "FV", "FD", "Capsule", "Rule", "FmpPayload"])
        name = nm.ident() + rng.choice([""] * 9 + [".Sub"]) if rng.random() < .8 or not ex["fvs"] else rng.choice(sorted(ex["fvs"]))
        n = rng.randrange(0, 6)
        local = dict(ex["dict"])
        lines.append(f"[{recase(rng, kind)}.{name}]")

        def mac(s):
            if local and rng.random() < .3:
                k = rng.choice(sorted(local))
                v = local[k]
                # a value that is exactly TRUE/FALSE is normalised to upper case
                return f"$({k})/{s}", f"{v}/{s}"
            return s, s
        for _ in range(n):
            if kind == "FD":
                lines.append(rng.choice(["BaseAddress = 0xFF000000|gTok.PcdBase", "Size = 0x1000", "0x0|0x2000", "FV = Foo", "DATA = {"
                                         " 0x00, 0x01 }", "SET gTok.PcdX = 0x5"]))
                ex["fds"].add(name)
            elif kind == "FV":
                m = rng.randrange(8)
                if m == 0:
                    lines.append(rng.choice(["FvAlignment = 16", "ERASE_POLARITY = 1", "LOCK_STATUS = TRUE"]))
                    ex["fvs"].setdefault(name, {"Infs": [], "Files": {}})
                elif m == 1:
                    k, v = nm.ident("LOC_"), nm.ident()
                    lines.append(f"DEFINE {k} = {v}")
                    local[k] = v
                elif m < 6:
                    s, w = mac(nm.path(rng.choice(INF_EXT)))
                    opt = rng.choice(["", "", "RuleOverride=BINARY ", "USE = IA32 ", "RuleOverride = A  USE=X64   "])
                    if ex["fvs"].get(name, {}).get("Infs") and rng.random() < .15:  # the same module once more
                        s = w = rng.choice(ex["fvs"][name]["Infs"])
                        opt = ""
                    lines.append(f"{rng.choice(['INF', 'inf', 'Inf'])}{rng.choice([' ', '  '])}{opt}{s}")
                    ex["fvs"].setdefault(name, {"Infs": [], "Files": {}})["Infs"].append(opt + w)
                else:
                    ty, gu = rng.choice(["FREEFORM", "DRIVER", "FV_IMAGE", "RAW"]), str(rand_uuid(rng)).upper()
                    f = {"type": ty}
                    lines.append(f"{rng.choice(['FILE', 'FILE', 'file', 'File'])} {ty} = {gu} {{")
                    for _ in range(rng.randrange(0, 4)):
                        q = rng.randrange(3)
                        if q == 0:
                            v = rng.choice(['"Name"', '"a b"', '"#1"', '"a = b"', '"x==y"'])
                            lines.append(f"SECTION UI = {v}")
                            f.setdefault("UI", []).append(v)
                        elif q == 1:
                            s, w = mac(nm.path(".bin"))
                            ty2 = rng.choice(["RAW", "PE32", "DXE_DEPEX"])
                            lines.append(f"{rng.choice(['SECTION', 'section'])} {ty2} = {s}")
                            f.setdefault(ty2, []).append(w)
                        else:
                            g = str(rand_uuid(rng)).upper()
                            lines.append(f"{rng.choice(['SECTION', 'section'])} {rng.choice(['GUIDED', 'guided', 'GUIDED '])} {g} {{")
                            lines.append(f"SECTION PE32 = x.efi")
                            f.setdefault(g, {})
                            f.setdefault("PE32", []).append("x.efi")
                            if rng.random() < .3:
                                h = str(rand_uuid(rng)).upper()
                                lines += [f"SECTION GUIDED {h}", "{", "SECTION PE32 = y.efi"] + rng.choice([["}", "}"], ["} }"], ["}}"]])
                                f.setdefault(h, {})
                                f["PE32"].append("y.efi")
                            else:
                                lines.append("}")
                    lines.append("}")
                    ex["fvs"].setdefault(name, {"Infs": [], "Files": {}})["Files"][gu] = f
            else:
                lines.append(rng.choice(["INF x/y.inf", "CAPSULE_GUID = 0123", "FV = Foo", "PE32 PE32 = a.efi"]))
    return lines, ex


def snap_fdf(p):
    return dict(dict=dict(p.Dict), fds=set(p.FDs), fvs={k: {"Infs": list(v["Infs"]), "Files": v["Files"]} for k, v in p.FVs.items()})


# ------------------------------------------------------------------ decoration
INF_EXT = [".inf", ".inf", ".inf", ".INF", ".Inf"]
COMMENTS = ["# plain", "#", "## @file", "# [Components.X64]", "# Pkg/Commented.inf", '# "quoted"', "# it's", "#!include nofile", "# !if TRUE",
            "#}", "# {", "# a = b", "#######", "# \\", "# $(MACRO)", "#|", "# DEFINE X = y", "# 'x' \"y\""]


def decorate(rng, lines, eol=None, long_runs=False, trailing_comments=True):
    """The same logical lines with layout noise; returns text."""
    eol = eol or rng.choice(["\n", "\r\n", "\n"])
    dens = rng.choice([0, .2, .6])
    out = []

    def noise():
        k = 0
        while rng.random() < dens and k < 5:
            k += 1
            out.append(rng.choice(["", "   ", "\t", rng.choice(COMMENTS), "  " + rng.choice(COMMENTS), "\t" + rng.choice(COMMENTS)]))
        if long_runs and rng.random() < .05:
            out.extend([rng.choice(COMMENTS)] * rng.choice([300, 1500]))
    for line in lines:
        noise()
        tail = ""
        if rng.random() < dens:
            tail = rng.choice([" ", "\t", "  ", "", " ", "   "])
            if trailing_comments and rng.random() < .7 and not line.startswith("!"):
                tail += rng.choice([" ", "\t", ""]) + rng.choice(COMMENTS)
        out.append(rng.choice(["", "", "  ", "\t", "      "]) * (rng.random() < .8) + line + tail)
    noise()
    text = eol.join(out)
    if rng.random() < .8:
        text += eol
    return text


def plain(lines):
    return "\n".join(lines) + "\n"
