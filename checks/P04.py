"""P04: an included file behaves as if its lines were spliced in place."""
import os
import sys

import condgen
import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers.base_parser import BaseParser
from edk2toollib.uefi.edk2.parsers.dsc_parser import DscParser
from edk2toollib.uefi.edk2.parsers.fdf_parser import FdfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
PD = "edk2toollib/uefi/edk2/parsers/"
ck = Check("P04", [PD + "base_parser.py", PD + "dsc_parser.py", PD + "fdf_parser.py"],
           rule="a case is a file split into a tree of include files over several directories; distinct by the tree; non-trivial when at least one include is active",
           min_events={"include_active": 500, "include_in_inactive_code": 50, "include_by_file_dir": 100, "include_by_root": 100,
                       "include_by_packages_path": 100, "decoy": 100, "missing_refused": 50, "depth3": 50, "enhanced_record": 100, "found_first": 500, "found_packages_path": 200, "found_nothing": 400})

DIRS = ["", "inc", "inc/sub", "Plat", "Plat/Cfg", "z.d"]


def balanced(lines):
    """Conditionals open and close inside (the text of an inactive include is never read)."""
    d = 0
    for line in lines:
        w = line.split()[0].lower()
        if w in ("!if", "!ifdef", "!ifndef"):
            d += 1
        elif w in ("!else", "!elseif") and d == 0:
            return False
        elif w == "!endif":
            d -= 1
            if d < 0:
                return False
    return d == 0


class Tree:
    """Splits lines into files under ws (and packages paths); files[abs] = list of lines."""

    def __init__(self, c, kind):
        self.c, self.rng, self.kind = c, c.rng, kind
        self.ws = os.path.join(c.tmp, "ws")
        self.pps = [os.path.join(self.ws, "PP1"), os.path.join(c.tmp, "PP2")]
        for d in self.pps:
            os.makedirs(d, exist_ok=True)
        self.files, self.n, self.decoys = {}, 0, {}
        self.depth = 0

    def place(self, cur):
        """A new file: (absolute path, text to write after !include)."""
        rng = self.rng
        self.n += 1
        name = f"i{self.n}.{rng.choice(['inc', 'dsc.inc', 'txt', 'fdf.inc'])}"
        how = rng.randrange(5)
        d = rng.choice(DIRS)
        rel = os.path.join(d, name)
        if how <= 1:      # relative to the including file
            self.c.event("include_by_file_dir")
            target = os.path.join(os.path.dirname(cur), rel)
            if rng.random() < .25:
                target = os.path.join(os.path.dirname(cur), "side", name)
                rel = os.path.join("zz", "..", "side", name) if rng.random() < .3 else os.path.join(".", "side", name)
                os.makedirs(os.path.join(os.path.dirname(cur), "zz"), exist_ok=True)
            self.decoy(rel, [os.path.join(p, rel) for p in self.pps], target)
        elif how == 2:    # relative to the workspace root; shadows the others
            self.c.event("include_by_root")
            target = os.path.join(self.ws, rel)
            self.decoy(rel, [os.path.join(p, rel) for p in self.pps] + [os.path.join(os.path.dirname(cur), rel)], target)
        elif how == 3:    # packages path, in order
            self.c.event("include_by_packages_path")
            i = rng.randrange(2)
            target = os.path.join(self.pps[i], rel)
            self.decoy(rel, [os.path.join(p, rel) for p in self.pps[i + 1:] if p != os.path.dirname(cur)], target)
        else:             # absolute
            target = os.path.join(self.ws, rel)
            rel = target
        target = os.path.normpath(target)
        if not os.path.isabs(rel) and rng.random() < .3 and rel.startswith("inc/"):
            rel = "$(INC_DIR)" + rel[3:]
        elif not os.path.isabs(rel) and rng.random() < .1:
            rel = "$(INC_DOT)/" + rel
        return target, rel

    def decoy(self, rel, places, target):
        """Same-named files at places of lower priority must not be used."""
        for p in places:
            p = os.path.normpath(p)
            if p != os.path.normpath(target) and p not in self.files and self.rng.random() < .3 and not os.path.exists(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write("[FV.Decoy]\nINF Decoy/D.inf\n" if self.kind == "fdf" else "[Components.X64]\nDecoy/D.inf\n")
                self.decoys[p] = 1
                self.c.event("decoy")

    def split(self, lines, path, depth):
        """lines -> file at path, moving spans into included files."""
        rng = self.rng
        self.depth = max(self.depth, depth)
        out, i = [], 0
        while i < len(lines):
            if depth < 6 and rng.random() < (.15 if depth < 3 else .25):
                span = rng.choice([1, 2, 5, len(lines) - i, len(lines) - i])
                chunk = lines[i:i + span]
                while chunk and not balanced(chunk):
                    chunk.pop()
                if not chunk:
                    out.append(lines[i])
                    i += 1
                    continue
                i += len(chunk)
                if rng.random() < .25:  # an included file may be empty, or hold only comments
                    target, rel = self.place(path)
                    self.files[target] = rng.choice([[], [], ["# nothing"], [""]])
                    self.c.event("empty_include")
                    out.append(f"!include {rel}")
                target, rel = self.place(path)
                self.split(chunk, target, depth + 1)
                out.append(f"{G.recase(rng, '!include')}{rng.choice([' ', '  '])}{rel}")
            else:
                out.append(lines[i])
                i += 1
        self.files[path] = out

    def write(self):
        for p, ls in self.files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", newline="") as f:
                t = G.plain(ls)
                f.write(t if self.rng.random() < .7 else t.rstrip("\n"))


def make(c, kind):
    rng = c.rng
    lines = (G.gen_dsc if kind == "dsc" else G.gen_fdf)(rng)[0]
    head = [lines[0], "DEFINE INC_DIR = inc", "DEFINE INC_DOT = ."]
    tail = lines[1:]
    n = [0]

    def content(r, active):
        n[0] += 1
        if not active and r.random() < .3:
            c.event("include_in_inactive_code")
            return ["!include does/not/exist.inc"]
        return [f"INF P/M{n[0]}.inf" if kind == "fdf" else f"P/M{n[0]}.inf"]
    b = condgen.Block(rng, content, depth=2, width=3)
    tail += ["[FV.Tail]" if kind == "fdf" else "[Components.X64]"] + [x[0].strip() for x in b.lines]
    return head, tail


def parser(c, kind, t, path, tag):
    p = (DscParser() if kind == "dsc" else FdfParser()).SetEdk2Path(Edk2Path(t.ws, t.pps))
    p.SetInputVars(dict(condgen.DEFINED))
    c.must(f"{tag}:parse", p.ParseFile, path)
    return p


def snap(kind, p):
    if kind == "fdf":
        return G.snap_fdf(p)
    s = G.snap_dsc(p)
    s["modlines"] = [e["data"] for e in p.ThreeModsEnhanced + p.SixModsEnhanced + p.LibsEnhanced]
    s["c2i"] = {k: list(v) for k, v in p.LibraryClassToInstanceDict.items()}
    return s


def tree(c, kind):
    rng = c.rng
    head, tail = make(c, kind)
    t = Tree(c, kind)
    main = os.path.join(t.ws, rng.choice(["Plat", ""]), f"main.{kind}")
    t.split(tail, main, 0)
    t.files[main] = head + t.files[main]
    t.write()
    flat = os.path.join(os.path.dirname(main), f"flat.{kind}")
    with open(flat, "w") as f:
        f.write(G.plain(head + tail))
    c.key(sorted((os.path.relpath(k, c.tmp), v) for k, v in t.files.items()), nontrivial=len(t.files) > 1)
    c.note(files={os.path.relpath(k, c.tmp): v for k, v in t.files.items()})
    ref = snap(kind, parser(c, kind, t, flat, f"{kind}:flat"))
    p = parser(c, kind, t, main, f"{kind}:tree")
    got = snap(kind, p)
    for k in ref:
        c.equal(got[k], ref[k], f"{kind}:{k}")
    c.event("include_written", len(t.files) - 1)
    c.event("include_active", len(p.GetAllDscPaths()) - 1 if kind == "dsc" else 0)
    if t.depth >= 3:
        c.event("depth3")
    if kind == "dsc":
        # every contributing file is reported, and nothing that does not contribute
        paths = p.GetAllDscPaths()
        c.expect(main in paths, "dsc:paths-main", paths=paths)
        c.expect(paths <= set(t.files), "dsc:paths-extra", paths=paths, files=sorted(t.files))
        used = {e["file"] for e in p.ThreeModsEnhanced + p.SixModsEnhanced}
        c.expect(used <= paths, "dsc:paths-missing", used=used, paths=paths)
        for e in p.ThreeModsEnhanced + p.SixModsEnhanced:
            src = t.files.get(e["file"])
            c.require(src is not None, "dsc:enhanced-file", rec=e)
            c.expect(1 <= e["lineno"] <= len(src) and os.path.basename(e["data"]) in src[e["lineno"] - 1], "dsc:enhanced-line", rec=e, src=src)
            c.event("enhanced_record")


@ck.family("dsc", 700, 15000)
def dsc(c):
    tree(c, "dsc")


@ck.family("fdf", 700, 15000)
def fdf(c):
    tree(c, "fdf")


@ck.family("missing", 300, 5000)
def missing(c):
    """A missing include in active code is an error, at any depth; in inactive code it is not."""
    rng = c.rng
    kind = rng.choice(["dsc", "fdf"])
    act = rng.random() < .6
    bad = ["!if TRUE" if act else "!if FALSE", f"!include {rng.choice(['nope.inc', 'a/b/nope.inc', '$(UNDEF)/x.inc', 'inc/real.inc.x'])}", "!endif"]
    depth = rng.randrange(0, 4)
    body = bad
    for i in range(depth):
        c.write(f"inc/l{i}.inc", G.plain(body))
        body = [f"!include inc/l{i}.inc"]
    c.write("inc/real.inc", "# x\n")
    sec = rng.choice(["[Components.X64]", "[LibraryClasses]", "[BuildOptions]"]) if kind == "dsc" else rng.choice(["[FV.A]", "[FD.B]", "[Rule.x]"])
    text = G.plain(["[Defines]", "SUPPORTED_ARCHITECTURES = X64" if kind == "dsc" else "A = B"] + ([sec] if rng.random() < .7 else []) + body)
    path = c.write(f"main.{kind}", text)
    c.key(text, act, bad)
    c.note(main=text, bad=bad)
    p = (DscParser() if kind == "dsc" else FdfParser()).SetEdk2Path(Edk2Path(c.tmp, []))
    if act:
        c.must_raise(f"missing-{kind}", FileNotFoundError, p.ParseFile, path)
        c.event("missing_refused")
    else:
        c.must(f"missing-{kind}:inactive", p.ParseFile, path)


@ck.family("paths", 300, 5000)
def paths(c):
    """All files of a DSC without conditionals are listed; a file included twice counts in both places."""
    rng = c.rng
    t = Tree(c, "dsc")
    main = os.path.join(t.ws, "main.dsc")
    body = ["SUPPORTED_ARCHITECTURES = X64", "DEFINE INC_DIR = inc", "DEFINE INC_DOT = .", "[Components.X64]"]
    t.split([f"P/M{i}.inf" for i in range(rng.randrange(2, 15))], main, 0)
    twice = [x for x in t.files[main] if "!include" in x.lower()]
    t.files[main] = ["[Defines]"] + body + t.files[main] + (twice[:1] * rng.randrange(0, 3))
    t.write()
    c.key(sorted((os.path.relpath(k, c.tmp), v) for k, v in t.files.items()), nontrivial=len(t.files) > 1)
    c.note(files={os.path.relpath(k, c.tmp): v for k, v in t.files.items()})

    p = parser(c, "dsc", t, main, "paths")
    c.equal(p.GetAllDscPaths(), set(t.files), "paths:all")
    n = {}
    for e in p.SixModsEnhanced:
        n[e["data"]] = n.get(e["data"], 0) + 1
        c.event("enhanced_record")
    mods = [x for ls in t.files.values() for x in ls if x.startswith("P/M")]
    c.equal(sorted(n), sorted(mods), "paths:modules")
    c.expect(len(p.SixMods) >= len(mods), "paths:lost")


@ck.family("repeat", 500, 8000)
def repeat(c):
    """A file included again and again, under different settings and from different places, counts every time."""
    rng = c.rng
    kind = rng.choice(["dsc", "fdf"])
    pre = "INF " if kind == "fdf" else ""
    n = [0]

    def entries(k):
        out = []
        for _ in range(k):
            n[0] += 1
            m = f"{pre}P/{rng.choice(['', '$(NAME)/', 'x$(NAME)y/'])}M{n[0]}.inf"
            out += rng.choice([[m], [m], ['!if $(NAME) == "a"', m, "!else", m.replace("M", "N"), "!endif"], ["!ifdef NAME", m, "!endif"]])
        return out

    files = {f"inc/r{i}.inc": entries(rng.randrange(0, 4)) for i in range(rng.randrange(1, 4))}
    names = sorted(files)
    for i, f in enumerate(names[1:]):  # a repeated file may include another one, once or twice
        if rng.random() < .5:
            files[f] = files[f] + [f"!include {names[i]}"] * rng.randrange(1, 3) + entries(1)

    def flat(lines):
        out = []
        for x in lines:
            if x.startswith("!include"):
                out += flat(files[os.path.relpath(x.split()[1], c.tmp) if os.path.isabs(x.split()[1]) else x.split()[1]])
            else:
                out.append(x)
        return out
    main = ["[Defines]", "SUPPORTED_ARCHITECTURES = X64" if kind == "dsc" else "DEFINE X = Y", "DEFINE NAME = a"]
    heads = ["[Components.X64]", "[Components.IA32]", "[Components]"] if kind == "dsc" else ["[FV.A]", "[FV.B]", "[FV.C]"]
    rng.shuffle(heads)
    for h in heads[:rng.randrange(1, 4)]:
        main.append(h)
        for _ in range(rng.randrange(1, 6)):
            f = rng.choice(names)
            main += rng.choice([[f"!include {f}"], [f"!include {f}"], [f"!include {os.path.join(c.tmp, f)}"], entries(1),
                                [f"DEFINE NAME = {rng.choice('abc')}"] if kind == "fdf" else [f"!include {f}", f"!include {f}"]])
    if kind == "dsc" and rng.random() < .5:
        main += ["[Defines]", f"DEFINE NAME = {rng.choice('abc')}"]
    for f, ls in files.items():
        c.write(f, G.plain(ls) if ls else "")
    ps = []
    for name, ls in (("main", main), ("flat", flat(main))):
        p = (DscParser() if kind == "dsc" else FdfParser()).SetEdk2Path(Edk2Path(c.tmp, []))
        c.must(f"repeat:parse-{name}", p.ParseFile, c.write(f"{name}.{kind}", G.plain(ls)))
        ps.append(snap(kind, p))
    k = sum(x.startswith("!include") for x in main)
    c.key(kind, main, sorted(files.items()), nontrivial=k > len({x for x in main if x.startswith("!include")}))
    c.note(main=main, files=files)
    for x in ps[1]:
        c.equal(ps[0][x], ps[1][x], f"repeat:{kind}:{x}")
    c.event("repeated_include", k)


@ck.family("find", 800, 10000)
def find(c):
    """FindPath alone: as it is, in the workspace, next to the file being parsed, in the packages paths; else nothing."""
    rng = c.rng
    ws, pps = os.path.join(c.tmp, "ws"), [os.path.join(c.tmp, x) for x in rng.sample(["pp1", "ws/pp2", "other/pp3"], rng.randrange(0, 4))]
    for d in [ws, os.path.join(ws, "Plat/Cfg"), *pps]:
        os.makedirs(d, exist_ok=True)
    names = ["a.inc", "Sub/a.inc", "Sub/Deep/b.inc", "Pkg/inc/c.inc"]
    bases = [ws, os.path.join(ws, "Plat/Cfg"), *pps]
    for b in bases:
        for n in names:
            if rng.random() < .3:
                c.write(os.path.relpath(os.path.join(b, n), c.tmp), "# x\n")
    target = rng.choice([None, os.path.join(ws, "Plat/Cfg/p.dsc"), os.path.join(ws, "p.dsc")])
    e = Edk2Path(ws, list(pps))
    p = BaseParser("x").SetEdk2Path(e)
    p.TargetFilePath = target
    c.key(sorted(os.path.relpath(os.path.join(d, f), c.tmp) for d, _, fs in os.walk(c.tmp) for f in fs), pps, str(target))
    for n in rng.sample(names + ["Sub", "Sub/Deep", "Pkg", "missing.inc", "../a.inc", "./a.inc", "Sub/../a.inc"], 5):
        for k in (1, 2):
            parts = [n] if k == 1 else n.rsplit("/", 1)
            want = [os.path.join(b, n) for b in [ws] + ([os.path.dirname(target)] if target else [])]
            want = [w for w in want if os.path.exists(w)]
            got = c.must("find:path", p.FindPath, *parts)
            if want:
                c.expect(got is not None and os.path.realpath(got) == os.path.realpath(want[0]), "find:first", name=n, got=str(got), want=want[0])
                c.event("found_first")
            elif ".." in n:
                continue
            else:
                want = [os.path.join(b, n) for b in e.PackagePathList if os.path.exists(os.path.join(b, n))]
                if want:
                    c.expect(got is not None and os.path.realpath(got) in [os.path.realpath(w) for w in want], "find:packages-path", name=n, got=str(got), want=want)
                    c.event("found_packages_path")
                else:
                    c.equal(got, None, "find:missing", name=n)
                    c.event("found_nothing")
    full = os.path.join(rng.choice(bases), rng.choice(names))
    got = c.must("find:absolute", p.FindPath, full)
    c.equal(got, full if os.path.exists(full) else None, "find:absolute")
    c.equal(c.must("find:none", p.FindPath, None), None, "find:none")


if __name__ == "__main__":
    sys.exit(ck.main())
