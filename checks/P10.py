"""P10: a parsed FDF reports every FV, FD and the INFs and files inside them."""
import sys

import condgen
import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ck = Check("P10", ["edk2toollib/uefi/edk2/parsers/fdf_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
           rule="a case is one generated FDF text; distinct by text; non-trivial when it contains an FV or FD entry",
           min_events={"inf": 500, "file": 100, "fd": 100, "long_file": 5, "conditional_file": 100})


def parse(c, text, tag, inputs=None):
    p = FdfParser().SetEdk2Path(Edk2Path(c.tmp, []))
    if inputs:
        p.SetInputVars(inputs)
    c.must(f"{tag}:parse", p.ParseFile, c.write("a.fdf", text))
    return p


def compare(c, p, ex, tag):
    got = G.snap_fdf(p)
    c.equal(got["dict"], ex["dict"], f"{tag}:defines")
    c.equal(got["fds"], ex["fds"], f"{tag}:fds")
    c.equal(sorted(got["fvs"]), sorted(ex["fvs"]), f"{tag}:fv-names")
    for k in ex["fvs"]:
        c.equal(got["fvs"][k]["Infs"], ex["fvs"][k]["Infs"], f"{tag}:infs")
        c.equal(got["fvs"][k]["Files"], ex["fvs"][k]["Files"], f"{tag}:files")
        c.equal(list(got["fvs"][k]["Files"]), list(ex["fvs"][k]["Files"]), f"{tag}:file-order")
        c.event("inf", len(ex["fvs"][k]["Infs"]))
        c.event("file", len(ex["fvs"][k]["Files"]))
    c.event("fd", len(ex["fds"]))
    c.expect(p.Parsed is True, f"{tag}:parsed-flag")


@ck.family("model", 3000, 60000)
def model(c):
    lines, ex = G.gen_fdf(c.rng)
    text = G.decorate(c.rng, lines)
    c.key(text, nontrivial=bool(ex["fvs"] or ex["fds"]))
    c.note(fdf=text)
    compare(c, parse(c, text, "model"), ex, "model")


@ck.family("long", 24, 300)
def long(c):
    """Large volumes, with long runs of comments between entries."""
    rng = c.rng
    lines, ex = ["[Defines]", "DEFINE D = Pkg"], dict(dict={"D": "Pkg"}, fds=set(), fvs={})
    for v in range(rng.randrange(1, 4)):
        lines.append(f"[FV.FV{v}]")
        fv = ex["fvs"].setdefault(f"FV{v}", {"Infs": [], "Files": {}})
        for i in range(rng.choice([1, 50, 1200])):
            lines.append(f"INF $(D)/M{i}.inf")
            fv["Infs"].append(f"Pkg/M{i}.inf")
    text = G.decorate(rng, lines, long_runs=len(lines) < 1000)
    if rng.random() < .5:
        text = "# c\n" * rng.choice([900, 1500, 4000]) + text
    if rng.random() < .5:  # a slice of the lines comes from an included file
        al = text.splitlines(True)
        i = rng.randrange(len(al) + 1)
        j = rng.randrange(i, len(al) + 1)
        c.write("part.fdf.inc", "".join(al[i:j]))
        text = "".join(al[:i]) + "!include part.fdf.inc\n" + "".join(al[j:])
    c.key(text)
    c.note(lines=len(lines), size=len(text))
    compare(c, parse(c, text, "long"), ex, "long")
    c.event("long_file")


@ck.family("conditional", 800, 20000)
def conditional(c):
    """Entries of an FV inside nested conditionals: exactly the active ones."""
    rng = c.rng
    n = [0]
    want = {"Infs": [], "Files": {}}

    def content(r, active):
        n[0] += 1
        if r.random() < .75:
            if active:
                want["Infs"].append(f"P/M{n[0]}.inf")
            return [f"INF P/M{n[0]}.inf"]
        g = str(G.rand_uuid(r)).upper()
        if active:
            want["Files"][g] = {"type": "FREEFORM", "RAW": [f"P/{n[0]}.bin"]}
        return [f"FILE FREEFORM = {g} {{", f"SECTION RAW = P/{n[0]}.bin", "}"]
    b = condgen.Block(rng, content, depth=rng.randrange(1, 4))
    body = [x[0].strip() for x in b.lines]
    text = G.decorate(rng, ["[FV.Main]", "FvAlignment = 16"] + body + ["[FV.Other]", "INF P/last.inf"])
    c.key(text, nontrivial=b.groups > 0)
    c.note(fdf=text)
    p = parse(c, text, "conditional", dict(condgen.DEFINED))
    compare(c, p, dict(dict={}, fds=set(), fvs={"Main": want, "Other": {"Infs": ["P/last.inf"], "Files": {}}}), "conditional")
    c.event("conditional_file")


if __name__ == "__main__":
    sys.exit(ck.main())
