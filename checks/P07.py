"""P07: library class mappings are recorded under exactly the scopes of their section."""
import os
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ck = Check("P07", ["edk2toollib/uefi/edk2/parsers/dsc_parser.py"],
           rule="a case is one generated DSC text (sections and mappings in order); distinct by text; non-trivial when it maps a library class",
           min_events={"mapping": 500, "scope_entry": 500, "repeat": 100, "null": 100})


def parse(c, text, tag, name="a.dsc", pps=()):
    p = DscParser().SetEdk2Path(Edk2Path(c.tmp, list(pps)))
    c.must(f"{tag}:parse", p.ParseFile, c.write(name, text))
    return p


def live(d):
    return {k: list(v) for k, v in d.items()}


@ck.family("model", 1500, 30000)
def model(c):
    """Whole platform files, from the common DSC model."""
    lines, ex = G.gen_dsc(c.rng)
    text = G.decorate(c.rng, lines)
    c.key(text, nontrivial=bool(ex["scoped"]))
    c.note(dsc=text)
    p = parse(c, text, "model")
    c.equal(live(p.ScopedLibraryDict), ex["scoped"], "model:scoped")
    c.event("scope_entry", sum(map(len, ex["scoped"].values())))


@ck.family("history", 2500, 60000)
def history(c):
    """Few classes, few instances, many sections: histories with every kind of repetition."""
    rng = c.rng
    libs = rng.sample(["BaseLib", "DebugLib", "IoLib", "NULL", "LibClassesLib", "CommonLib", "Null2"], rng.randrange(1, 4))
    inst = [f"Pkg/Lib{i}/Lib{i}.inf" for i in range(rng.randrange(1, 5))]
    scopes = rng.sample(["", "common", "X64", "IA32", "common.PEIM", "X64.PEIM", "X64.DXE_DRIVER", "AARCH64.UEFI_APPLICATION", "IA32.SEC",
                         "common.DXE_CORE", "X64.COMMON"], rng.randrange(1, 5))
    lines = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64"]
    want, n = {}, 0
    for _ in range(rng.randrange(1, 8)):
        m = rng.randrange(8)
        if m == 0:
            lines += [rng.choice(["[Components.X64]", "[BuildOptions]", "[PcdsFixedAtBuild]", "[SkuIds]", "[LibraryClassesX]", "[UserExtensions.LibraryClasses.X64]"])]
            if lines[-1] == "[Components.X64]":
                lines += ["Pkg/M.inf {", "<LibraryClasses>", f"{rng.choice(libs)}|{rng.choice(inst)}", "}"]
            elif rng.random() < .5 and "Library" not in lines[-1]:
                lines += ["A|B/c.inf"]
            if "Library" in lines[-1]:
                lines.pop()
            continue
        sc = rng.sample(scopes, rng.randrange(1, min(3, len(scopes)) + 1))
        word = G.recase(rng, "LibraryClasses")
        lines.append("[" + rng.choice([",", ", ", " , "]).join(word + ("." + G.recase(rng, s) if s else "") for s in sc) + "]")
        dedup = list(dict.fromkeys((s or "common").lower() for s in sc))
        for _ in range(rng.randrange(0, 5)):
            lib, i = rng.choice(libs), rng.choice(inst)
            lines.append(f"{G.recase(rng, lib)}{rng.choice(['|', ' | ', '  |'])}{i}")
            n += 1
            for s in dedup:
                lst = want.setdefault(f"{s}.{lib}".lower(), [])
                if i in lst:
                    lst.remove(i)
                    c.event("repeat")
                lst.insert(0, i)
            if lib == "NULL":
                c.event("null")
    text = G.decorate(rng, lines)
    c.key(text, nontrivial=n > 0)
    c.note(dsc=text)
    p = parse(c, text, "history")
    c.equal(live(p.ScopedLibraryDict), want, "history:scoped")
    c.event("mapping", n)
    c.event("scope_entry", sum(map(len, want.values())))


@ck.family("absolute", 300, 5000)
def absolute(c):
    """Instances given by absolute path are recorded by their EDK2 relative path."""
    rng = c.rng
    os.makedirs(os.path.join(c.tmp, "pp"))
    lines, want = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "[LibraryClasses.X64]"], {}
    for i in range(rng.randrange(1, 6)):
        root = rng.choice(["", "pp"])
        rel = f"Pkg{rng.randrange(2)}/Lib{i}.inf"
        path = c.write(os.path.join(root, rel), "x")
        lines.append(f"L{i % 3}|{path if rng.random() < .7 else rel}")
        want.setdefault(f"x64.l{i % 3}", []).insert(0, rel)
    text = G.plain(lines)
    c.key(lines)
    c.note(dsc=text)
    p = parse(c, text, "absolute", pps=[os.path.join(c.tmp, "pp")])
    c.equal(live(p.ScopedLibraryDict), want, "absolute:scoped")


if __name__ == "__main__":
    sys.exit(ck.main())
