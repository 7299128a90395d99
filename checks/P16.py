"""P16: the workspace GUID index lists every GUID of every non-ignored file once."""
import io
import os
import sys

import edk2gen as G
from gitoracle import git_ignored
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.guid_list import GuidList, GuidListEntry

mute_logging()
ck = Check("P16", ["edk2toollib/uefi/edk2/guid_list.py", "edk2toollib/gitignore_parser.py"],
           rule="a case is a directory tree of DEC, INF and other files with ignore lines; distinct by tree and lines; non-trivial when some GUID is declared",
           min_events={"guid": 1500, "ignored_file": 100, "ignored_directory": 60, "no_guid_file": 100, "kept_by_negation": 30})
DIRS = ["APkg", "BPkg", "Library", "Build", "Conf", "X64", "Test", "a.b", "Res Dir"]


def rows(entries):
    return sorted((e.name, e.guid, e.absfilepath) for e in entries)


@ck.family("tree", 600, 14000)
def tree(c):
    rng = c.rng
    root = os.path.join(os.path.realpath(c.tmp), "ws")
    os.makedirs(root)
    dirs, files, texts = [""], {}, {}
    for _ in range(rng.randrange(1, 10)):
        d = rng.choice(dirs)
        leaf = rng.choice(DIRS)
        n = (d + "/" if d else "") + (leaf if rng.random() < .85 else leaf.swapcase())
        if n not in dirs and d.count("/") < 4:
            dirs.append(n)
            os.makedirs(os.path.join(root, n))
    twins = []
    if len(dirs) > 1 and rng.random() < .3:  # names that differ only by case are different names
        d = rng.choice(dirs[1:])
        t = os.path.join(os.path.dirname(d), os.path.basename(d).swapcase())
        if t not in dirs:
            dirs.append(t)
            os.makedirs(os.path.join(root, t))
            twins = [d, t]
    nm = G.Names(rng)
    for i in range(rng.randrange(1, 9) + len(twins)):
        d = twins[i] if i < len(twins) else rng.choice(dirs)
        kind = rng.choice(["dec", "dec", "inf", "inf", "inf", "other"])
        name = rng.choice(["A", "B", "m", "Long Name", "é", nm.ident()])
        rel = (d + "/" if d else "") + name + (G.recase(rng, "." + kind) if kind != "other" else rng.choice([".c", ".dec.bak", ".infx", "", ".dsc", ".inf.in"]))
        if rel in files:
            continue
        path = os.path.join(root, rel)
        want = []
        if kind == "dec":
            lines, ex = G.gen_dec(rng)
            want = [(n, str(u).upper(), path) for k in ("protocols", "ppis", "guids") for n, u, _ in ex[k]]
            if "PACKAGE_GUID" in ex["dict"]:
                want.append((ex["dict"]["PACKAGE_NAME"], ex["dict"]["PACKAGE_GUID"].upper(), path))
        elif kind == "inf":
            u = str(G.rand_uuid(rng))
            u = rng.choice([u, u.upper()])
            lines = ["[Defines]"]
            bn = nm.ident()
            has = rng.random()
            body = ["INF_VERSION = 0x00010005", f"MODULE_TYPE = {rng.choice(G.MODTYPES)}"]
            if has < .9:
                body.append(f"BASE_NAME{rng.choice([' = ', '='])}{bn}")
            if has > .1:
                body.append(f"FILE_GUID{rng.choice([' = ', '='])}{u}")
            rng.shuffle(body)
            lines += body + ["[Sources]", "a.c", "[Guids]", "gEfiAlienGuid", "[Packages]", "MdePkg/MdePkg.dec"]
            if .1 < has < .9:
                want = [(bn, u.upper(), path)]
        else:
            lines = ["[Guids]", "gX = {0x7c004f69, 0xd730, 0x4904, {0x83, 0xe1, 0x4b, 0xbf, 0x39, 0x3a, 0xfc, 0xb1}}", "[Defines]", "BASE_NAME = q", f"FILE_GUID = {G.rand_uuid(rng)}"]
        text = G.decorate(rng, lines)
        files[rel], texts[rel] = want, text
        with open(path, "w", newline="", encoding="utf-8") as f:
            f.write(text)
        if not want:
            c.event("no_guid_file")
    # ignore lines: git decides what they mean
    names = [d.split("/")[-1] for d in dirs if d] + [f.split("/")[-1] for f in files]
    lines = []
    m = rng.randrange(6)
    if m == 0:
        lines = []
    elif m == 1 and len(dirs) > 1:
        top = rng.choice([d for d in dirs if d and "/" not in d])
        lines = ["/*", f"!/{top}{rng.choice(['', '/'])}"]
    elif m == 2:
        lines = [rng.choice(["*.inf", "*.INF", "*.dec", "*.[iI]nf"]), "!" + rng.choice(names).replace("*", "?")]
    else:
        for _ in range(rng.randrange(1, 4)):
            lines.append(rng.choice(["# comment", "", "/Build/", "Build/", "**/Test/**", "*.bak", rng.choice(names), rng.choice([n for n in names if "." not in n] or ["x"]) + "/", "/" + rng.choice(dirs + list(files)),
                                     rng.choice([d for d in dirs if d] or ["x"]) + "/**", "*/Library", "Conf", "X64/*.inf", "?.inf", "Long*"]))
        lines = [ln for ln in lines if ln != "/"]
        if twins and rng.random() < .5:
            lines.append("/" + rng.choice(twins) + rng.choice(["/", ""]))
    allp = [d for d in dirs if d] + list(files)
    if any(not p.isascii() for p in allp):
        lines = [ln.replace("?", "*") for ln in lines]
    with open(os.path.join(root, ".gitignore"), "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    ign = git_ignored(ck, root, allp)
    os.unlink(os.path.join(root, ".gitignore"))
    want = sorted(w for rel, ws in files.items() if rel not in ign for w in ws)
    c.key(texts, lines, nontrivial=bool(want))
    c.note(files=texts, ignore=lines, want=want, dirs=dirs)
    folder = root
    if rng.random() < .2:
        folder = os.path.join(c.tmp, "link")
        os.symlink(root, folder)
    got = c.must("tree:scan", GuidList.guidlist_from_filesystem, folder, *([lines] if lines or rng.random() < .5 else []))
    c.expect(all(isinstance(e, GuidListEntry) for e in got), "tree:type")
    got = sorted((n, g, root + p[len(folder):] if p.startswith(folder + "/") else p) for n, g, p in rows(got))
    c.equal(got, want, "tree:entries", missing=[w for w in want if w not in got], extra=[g for g in got if g not in want])
    c.event("guid", len(want))
    c.event("ignored_file", sum(1 for f in files if f in ign))
    c.event("ignored_directory", sum(1 for d in dirs if d in ign))
    if any(ln.startswith("!") for ln in lines):
        c.event("kept_by_negation", sum(1 for f in files if f not in ign))
    # one file at a time
    for rel in files:
        path = os.path.join(root, rel)
        r = c.must("file:parse", GuidList.parse_guids_from_edk2_file, path)
        c.equal(rows(r), sorted(files[rel]), "file:entries", file=rel)
        for e in r:
            c.expect(e.guid in str(e) and e.name in str(e) and e.absfilepath in str(e), "file:str")
        if rel.lower().endswith(".dec"):
            r = c.must("stream:parse", GuidList.parse_guids_from_dec, io.StringIO(texts[rel]), path)
            c.equal(rows(r), sorted(files[rel]), "stream:entries", file=rel)


if __name__ == "__main__":
    sys.exit(ck.main())
