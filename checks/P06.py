"""P06: a parsed DSC reports every component, library and PCD that it lists."""
import os
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ck = Check("P06", ["edk2toollib/uefi/edk2/parsers/dsc_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
           rule="a case is one generated DSC text; distinct by text; non-trivial when it lists a component, library or PCD",
           min_events={"component": 300, "library": 300, "pcd": 200, "override": 100, "elseif": 100, "unset_pcd": 30, "definition": 500})


def parse(c, text, name="a.dsc", tag="model", inputs=None):
    p = DscParser().SetEdk2Path(Edk2Path(c.tmp, []))
    if inputs:
        p.SetInputVars(inputs)
    c.must(f"{tag}:parse", p.ParseFile, c.write(name, text))
    return p


@ck.family("model", 2000, 40000)
def model(c):
    rng = c.rng
    lines, ex = G.gen_dsc(rng)
    text = G.decorate(rng, lines)
    n = len(ex["comps"]) + len(ex["libs"]) + len(ex["pcds"])
    c.key(text, nontrivial=n > 0)
    c.note(dsc=text)
    for i in ex["libs"][:3]:
        if rng.random() < .5:
            c.write(i, "x")
    p = parse(c, text)
    c.expect(p.Parsed is True, "model:parsed-flag")
    got = G.snap_dsc(p)
    for k in ("defines", "three", "six", "other", "libs", "comps", "pcds"):
        c.equal(got[k], ex[k], f"model:{k}")
    c.event("component", len(ex["comps"]))
    c.event("library", len(ex["libs"]))
    c.event("pcd", len(ex["pcds"]))
    c.event("override", sum(len(o) - 1 + len(o["NULL"]) for _, _, o in ex["comps"]))
    c.equal(p.GetMods(), ex["three"] + ex["six"] + ex["other"], "model:GetMods")
    c.equal(p.GetLibs(), ex["libs"], "model:GetLibs")
    c.equal(p.GetAllDscPaths(), {os.path.join(c.tmp, "a.dsc")}, "model:GetAllDscPaths")
    # class -> instances, resolved to files, in file order
    full = {k: [os.path.join(c.tmp, i) if os.path.exists(os.path.join(c.tmp, i)) else None for i in v] for k, v in ex["c2i"].items()}
    c.equal(dict(p.LibraryClassToInstanceDict), full, "model:class-to-instances")
    # enhanced records carry the right file and line
    src = text.split("\n")
    for e in p.ThreeModsEnhanced + p.SixModsEnhanced:
        c.equal(e["file"], os.path.join(c.tmp, "a.dsc"), "model:enhanced-file")
        c.expect(os.path.basename(e["data"]) in src[e["lineno"] - 1], "model:enhanced-line", rec=e)
    c.equal(p.GetModsEnhanced(), p.ThreeModsEnhanced + p.SixModsEnhanced, "model:GetModsEnhanced")
    c.equal(p.GetLibsEnhanced(), p.LibsEnhanced, "model:GetLibsEnhanced")
    for e in p.LibsEnhanced:
        c.equal(e["file"], os.path.join(c.tmp, "a.dsc"), "model:enhanced-lib-file")
        c.expect(os.path.basename(e["data"]) in src[e["lineno"] - 1], "model:enhanced-lib-line", rec=e)
    c.equal([e["data"] for e in p.SixModsEnhanced], ex["six"], "model:six-enhanced")
    c.equal([e["data"] for e in p.ThreeModsEnhanced], ex["three"], "model:three-enhanced")


@ck.family("split", 1000, 20000)
def split(c):
    """Distributing the entries of a section over repeated sections changes nothing."""
    rng = c.rng
    lines, ex = G.gen_dsc(rng)
    out, sec, depth = [], None, 0
    for line in lines:
        if line.startswith("["):
            sec = line
        depth += line.count("{") - line.count("}")
        out.append(line)
        if sec and not line.startswith("[") and depth == 0 and not line.lower().startswith("[") and rng.random() < .4:
            if rng.random() < .3:
                out.append("[SkuIds]")
            out.append(sec)
    a, b = G.plain(lines), G.plain(out)
    c.key(b, nontrivial=a != b)
    c.note(a=a, b=b)
    sa, sb = G.snap_dsc(parse(c, a, "a.dsc", "split")), G.snap_dsc(parse(c, b, "b.dsc", "split"))
    for k in ("defines", "three", "six", "other", "libs", "comps", "scoped", "pcds"):
        c.equal(sb[k], sa[k], f"split:{k}")
    c.event("split_pair")


@ck.family("multi", 600, 12000)
def multi(c):
    """Headers naming several architectures."""
    rng = c.rng
    lines, ex = G.gen_dsc(rng, multi_arch_components=True)
    text = G.plain(lines)
    c.key(text, nontrivial=any(line.count(",") and line.lower().startswith("[components") for line in lines))
    c.note(dsc=text)
    p = parse(c, text, tag="multi")
    got = G.snap_dsc(p)
    c.equal(got["comps"], ex["comps"], "multi:components")
    c.event("component", len(ex["comps"]))
    # ThreeMods / SixMods of such headers
    six = [m for m, a, _ in ex["comps"] if a == "x64"]
    multi_only = any(line.count(",") and "x64" in line.lower() and line.lower().startswith("[components") for line in lines)
    if multi_only:
        missing = [m for m in six if m not in got["six"] and m not in got["other"]]
        c.expect(not missing, "multi:x64-module-not-in-SixMods", missing=missing)


@ck.family("pcdcond", 800, 15000)
def pcdcond(c):
    """Conditionals on PCDs use the values of active PCD lines, whole names only."""
    rng = c.rng
    vals, body, ids = {}, ["[Defines]", "SUPPORTED_ARCHITECTURES = X64", "[PcdsFixedAtBuild]"], []
    names = ["gATokenSpaceGuid.PcdF", "gATokenSpaceGuid.PcdF1", "gATokenSpaceGuid.PcdF10", "gAATokenSpaceGuid.PcdF", "gBTokenSpaceGuid.PcdF1",
             "gATokenSpaceGuid.PcdF.Field", "gATokenSpaceGuid.PcdF.Field2"]
    want, defs = [], {}

    def val(name):
        v = vals.get(name)
        return None if v is None else {"TRUE": 1, "FALSE": 0}[v] if v in ("TRUE", "FALSE") else int(v, 0)

    def pcds():
        for i in range(rng.randrange(1, 6)):
            name = rng.choice(names)
            v = rng.choice(["1", "0", "TRUE", "FALSE", "0x10"])
            ty = "" if "." in name.partition(".")[2] else rng.choice(["", "", "", "|UINT32", " | BOOLEAN", "|VOID*|4"])
            if rng.random() < .4:
                act = rng.random() < .5
                body.extend([f"!if {'TRUE' if act else 'FALSE'}", f"{name}|{v}{ty}", "!endif"])
                ids.extend([name] if act else [])
            else:
                act = True
                ids.append(name)
                body.append(f"{name}{rng.choice(['|', ' | '])}{v}{ty}")
            if act:
                vals[name] = v

    def cond():
        """-> (condition text, its value), on PCDs with a value at this line or with none yet."""
        name = rng.choice(sorted(vals) or names) if rng.random() < .9 else rng.choice(names)
        v = val(name)
        if v is None:
            c.event("unset_pcd")
            return f"{name} == {rng.choice([0, 1, 16])}", False
        m = rng.randrange(4)
        if m == 0:
            return f"{name} == {v}", True
        if m == 1:
            return f"({name} == {rng.randrange(3)}) OR ({name}!=5)", True
        if m == 2 and vals[name] in ("TRUE", "FALSE", "0", "1"):
            return (name, bool(v))
        k = rng.choice([0, 1, 16])
        return f"{name} != {k}", v != k

    def block(yes, no):
        """A chain of conditions; -> the body chosen."""
        chosen = None
        for i in range(rng.randrange(1, 4)):
            t, v = cond()
            body.append(f"{G.recase(rng, '!elseif' if i else '!if')} {t}")
            body.append(yes(i))
            c.event("elseif", i > 0)
            if v and chosen is None:
                chosen = yes(i)
        body.extend(["!else", no, "!endif"])
        return no if chosen is None else chosen
    for r in range(rng.randrange(1, 4)):
        if r:
            body.append(rng.choice(["[PcdsFixedAtBuild]", "[PcdsFeatureFlag]", "[PcdsFixedAtBuild.X64]", "[PcdsPatchableInModule]"]))
        pcds()
        if rng.random() < .4:
            body.append(rng.choice(["[Defines]", "[BuildOptions]"]))
            for i in range(rng.randrange(1, 3)):
                k = f"V{r}{i}"
                got = block(lambda j: f"DEFINE {k} = on{j}", f"DEFINE {k} = off")
                defs[k] = got.partition(" = ")[2]
        if rng.random() < .8 or not want:
            body.append("[Components.X64]")
            for i in range(rng.randrange(1, 5)):
                want.append(block(lambda j: f"Pkg/M{r}{i}{j}.inf", f"Pkg/E{r}{i}.inf"))
            for k in defs:
                body.append(f"Pkg/$({k}).inf")
                want.append(f"Pkg/{defs[k]}.inf")
    text = G.plain(body)
    c.key(text, nontrivial=bool(want))
    c.note(dsc=text)
    p = parse(c, text, tag="pcdcond")
    c.equal(list(p.SixMods), want, "pcdcond:active-components")
    c.equal(list(p.Pcds), ids, "pcdcond:pcds")
    c.equal({k: p.LocalVars.get(k) for k in defs}, defs, "pcdcond:definitions")
    c.event("pcd", len(ids))


@ck.family("defines", 1000, 20000)
def defines(c):
    """Definitions may use names that are defined further down, in any section that takes definitions."""
    rng = c.rng
    n = rng.randrange(1, 7)
    order = list(range(n))
    env, src = {}, {}
    for i in order:  # acyclic: D_i uses only D_j with j < i
        v, w = rng.choice(["dir", "a/b", "-DX=1", "x = y", "1", "0x10"]), None
        w = v
        if i and rng.random() < .6:
            for j in rng.sample(range(i), rng.randrange(1, min(i, 2) + 1)):
                v, w = f"$(D{j})/{v}", f"{env[f'D{j}']}/{w}"
        env[f"D{i}"], src[f"D{i}"] = w, v
    rng.shuffle(order)
    body, seen = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64"], []
    if rng.random() < .05:  # many others before them
        body += [f"DEFINE FILLER_{i} = f{i}" for i in range(rng.randrange(50, 300))]
    for i in order:
        if rng.random() < .2:
            body.append(rng.choice(["[BuildOptions]", "[Defines]", "[BuildOptions.X64]"]))
        body.append(f"{rng.choice(['DEFINE ', 'DEFINE ', 'EDK_GLOBAL ', 'DEFINE   '])}D{i}{rng.choice([' = ', '=', ' ='])}{src[f'D{i}']}")
    used = [f"D{i}" for i in rng.sample(order, rng.randrange(1, n + 1))]
    body.append("[Components.X64]")
    # components are one word
    used = [k for k in used if " " not in env[k]]
    body += [f"$({k})/M.inf" for k in used]
    text = G.decorate(rng, body)
    c.key(text, nontrivial=any("$" in v for v in src.values()))
    c.note(dsc=text)
    p = parse(c, text, tag="defines")
    c.equal({k: p.LocalVars.get(k) for k in env}, env, "defines:values")
    c.equal(list(p.SixMods), [f"{env[k]}/M.inf" for k in used], "defines:components")
    c.event("definition", n)


@ck.family("absolute", 400, 6000)
def absolute(c):
    """Components and overriding instances given by absolute path are reported by their EDK2 relative path."""
    rng = c.rng
    os.makedirs(os.path.join(c.tmp, "pp"))

    def path(i):
        rel = f"Pkg{rng.randrange(2)}/Mod{i}.inf"
        full = c.write(os.path.join(rng.choice(["", "pp"]), rel), "x")
        return (full if rng.random() < .7 else rel), rel
    lines, want = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64|AARCH64"], []
    for i in range(rng.randrange(1, 6)):
        ar = rng.choice([[], ["X64"], ["common"], ["IA32"], ["IA32", "AARCH64"]])
        lines.append(G.header(rng, "Components", ar))
        s, w = path(i)
        over = {"NULL": []}
        if rng.random() < .6:
            lines += [s + " {", "<LibraryClasses>"]
            for j in range(rng.randrange(0, 3)):
                t, tw = path(f"{i}{j}L")
                lib = rng.choice(["NULL", "LibA", "LibB"])
                lines.append(f"{lib}|{t}")
                if lib == "NULL":
                    over["NULL"].append(tw)
                else:
                    over[lib.lower()] = tw
            lines.append("}")
        else:
            lines.append(s)
        want += [(w, x, over) for a in (ar or ["common"]) for x in (["x64", "aarch64"] if a == "common" else [a.lower()])]
    text = G.plain(lines)
    c.key(text)
    c.note(dsc=text)
    p = DscParser().SetEdk2Path(Edk2Path(c.tmp, [os.path.join(c.tmp, "pp")]))
    c.must("absolute:parse", p.ParseFile, c.write("a.dsc", text))
    c.equal([(m, a.lower(), o) for m, a, o in p.Components], want, "absolute:components")
    c.event("component", len(want))


if __name__ == "__main__":
    sys.exit(ck.main())
