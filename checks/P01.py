"""P01: conditional directives take effect on exactly the active lines."""
import sys

import condgen
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ck = Check("P01", ["edk2toollib/uefi/edk2/parsers/base_parser.py", "edk2toollib/uefi/edk2/parsers/dsc_parser.py",
                   "edk2toollib/uefi/edk2/parsers/fdf_parser.py"],
           rule="a case is one randomly nested arrangement of directives and content lines; distinct by full text; "
                "non-trivial when it contains at least one conditional group",
           min_events={"directive": 500, "dsc_active_line": 200, "fdf_active_line": 200, "dsc_inactive_line": 200, "deep": 200})


@ck.family("driven", 6000, 120000)
def driven(c):
    """Directive by directive: the active state after every line equals the reference interpreter's."""
    n = [0]

    def content(rng, active):
        n[0] += 1
        return [f"LINE{n[0]} = $(D_NUM)"]
    b = condgen.Block(c.rng, content, depth=c.rng.randrange(1, 6), width=3, deep=c.rng.randrange(6, 60) if c.rng.random() < .08 else 0)
    c.event("deep", int(b.maxdepth > 12))
    text = "\n".join(line for line, _, _ in b.lines)
    c.key(text, nontrivial=b.groups > 0)
    c.note(text=text)
    p = BaseParser("")
    if c.rng.random() < .5:
        p.SetInputVars(dict(condgen.DEFINED))
    else:
        p.LocalVars = dict(condgen.DEFINED)
    for i, (line, kind, active) in enumerate(b.lines):
        r = c.must("driven:line", lambda: p.ProcessConditional(p.ReplaceVariables(line.strip())))
        c.equal(r, kind == "d", "driven:is-conditional", line=line)
        if kind == "c":
            c.event("content_line")
            c.expect(p.InActiveCode() == active, "driven:active-state", at=i, line=line, want=active)
        else:
            c.event("directive")
    c.expect(p.InActiveCode() is True, "driven:open-conditional")
    c.equal(len(p.ConditionalStack), 0, "driven:stack-not-empty")
    if b.groups and c.rng.random() < .3:
        # one directive too many is reported, not absorbed
        c.must_raise("driven:stray", (IndexError, RuntimeError), p.ProcessConditional,
                     c.rng.choice(["!endif", "!else"]))


def dsc_case(c):
    n = [0]
    st = {"expect": [], "section": "Components.X64"}

    def content(rng, active):
        n[0] += 1
        i = n[0]
        m = rng.randrange(10)
        if not active:
            c.event("dsc_inactive_line")
            if m == 0:
                return [f"!include NoSuchDir/missing{i}.dsc.inc"]
            if m == 1:
                return ["[Components.IA32]"]
            if m == 2:
                return [f"[LibraryClasses]", f"  L{i}|Pkg/L{i}.inf"]
            if m == 3:
                return [f"Pkg/M{i}.inf {{"]
            return [f"Pkg/M{i}.inf"]
        c.event("dsc_active_line")
        if m == 0:
            st["section"] = rng.choice(["Components.X64", "Components.IA32", "Components.AARCH64"])
            return [f"[{st['section']}]"]
        st["expect"].append((st["section"], f"Pkg/M{i}.inf"))
        return [f"Pkg/M{i}.inf"]
    b = condgen.Block(c.rng, content, depth=c.rng.randrange(1, 5), width=4, deep=c.rng.randrange(6, 40) if c.rng.random() < .06 else 0)
    # definitions in the Defines section, conditional too
    defs = {}

    def dcontent(rng, active):
        n[0] += 1
        i = n[0]
        if active:
            defs[f"V_{i}"] = f"val{i}"
        return [f"DEFINE V_{i} = val{i}"] if rng.random() < .7 else [f"V_{i} = val{i}"]
    d = condgen.Block(c.rng, dcontent, depth=c.rng.randrange(0, 4), width=3)
    head = ["[Defines]"]
    inputs = {}
    for k, v in condgen.DEFINED.items():
        if c.rng.random() < .5:
            inputs[k] = v
        else:
            head.append(f"  DEFINE {k} = {v}")
    defines = [line for line, _, _ in d.lines]
    body = [line for line, _, _ in b.lines]
    text = "\n".join(head + defines + ["[Components.X64]"] + body) + "\n"
    c.key(text, nontrivial=b.groups + d.groups > 0)
    c.note(dsc=text, inputs=inputs)
    path = c.write("a.dsc", text)
    p = DscParser().SetEdk2Path(Edk2Path(c.tmp, []))
    p.SetInputVars(inputs)
    c.must("dsc:parse", p.ParseFile, path)
    for sec, attr in (("Components.X64", "SixMods"), ("Components.IA32", "ThreeMods"), ("Components.AARCH64", "OtherMods")):
        c.equal(list(getattr(p, attr)), [m for s, m in st["expect"] if s == sec], f"dsc:{attr}")
    c.equal([x for x in p.Libs], [], "dsc:libs-from-inactive-code")
    got = {k: v for k, v in p.LocalVars.items() if k.startswith("V_")}
    c.equal(got, defs, "dsc:definitions")
    c.equal([(a.upper(), m) for m, a, _ in p.Components], [(s.split(".")[1].upper(), m) for s, m in st["expect"]], "dsc:components")
    c.expect(p.InActiveCode(), "dsc:open-conditional")
    c.equal(len(p.ConditionalStack), 0, "dsc:stack")


ck.family("dsc", 2500, 40000)(dsc_case)


@ck.family("fdf", 2500, 40000)
def fdf(c):
    n = [0]
    st = {"fv": "FVA", "expect": {"FVA": []}}

    def content(rng, active):
        n[0] += 1
        i = n[0]
        m = rng.randrange(10)
        if not active:
            c.event("fdf_inactive_line")
            if m == 0:
                return [f"!include missing{i}.fdf.inc"]
            if m == 1:
                return [f"[FV.Bad{i}]"]
            if m == 2:
                return [f"FILE FREEFORM = Guid{i} {{", '  SECTION UI = "abc"']
            if m == 3:
                return [f"DEFINE D_NUM = {i}"]
            return [f"INF Pkg/M{i}.inf"]
        c.event("fdf_active_line")
        if m == 0:
            st["fv"] = f"FV{rng.choice('ABCD')}"
            return [f"[FV.{st['fv']}]"]
        st["expect"].setdefault(st["fv"], []).append(f"Pkg/M{i}.inf")
        return [f"INF Pkg/M{i}.inf"]
    b = condgen.Block(c.rng, content, depth=c.rng.randrange(1, 5), width=4, deep=c.rng.randrange(6, 40) if c.rng.random() < .06 else 0)
    defs = {}

    def dcontent(rng, active):
        n[0] += 1
        i = n[0]
        if active:
            defs[f"V_{i}"] = f"val{i}"
        return [f"DEFINE V_{i} = val{i}"]
    d = condgen.Block(c.rng, dcontent, depth=c.rng.randrange(0, 4), width=3)
    head = ["[Defines]"]
    inputs = {}
    for k, v in condgen.DEFINED.items():
        if c.rng.random() < .5:
            inputs[k] = v
        else:
            head.append(f"  DEFINE {k} = {v}")
    text = "\n".join(head + [x for x, _, _ in d.lines] + ["[FV.FVA]"] + [x for x, _, _ in b.lines]) + "\n"
    c.key(text, nontrivial=b.groups + d.groups > 0)
    c.note(fdf=text, inputs=inputs)
    path = c.write("a.fdf", text)
    p = FdfParser().SetEdk2Path(Edk2Path(c.tmp, []))
    p.SetInputVars(inputs)
    c.must("fdf:parse", p.ParseFile, path)
    c.equal({k: v["Infs"] for k, v in p.FVs.items() if v["Infs"]}, {k: v for k, v in st["expect"].items() if v}, "fdf:infs")
    c.equal({f for v in p.FVs.values() for f in v["Files"]}, set(), "fdf:files-from-inactive-code")
    c.equal({k: v for k, v in p.Dict.items() if k.startswith("V_")}, defs, "fdf:definitions")
    c.expect(p.InActiveCode(), "fdf:open-conditional")
    c.equal(len(p.ConditionalStack), 0, "fdf:stack")


if __name__ == "__main__":
    sys.exit(ck.main())
