"""Scratch EDK II workspaces and their database: a model of the workspace, its text, and dumps of the SQLite file."""
import collections
import os
import sqlite3
import subprocess
import uuid

ARCHES = ["IA32", "X64", "AARCH64"]
PHASES = ["SEC", "PEIM", "PEI_CORE", "DXE_DRIVER", "DXE_CORE", "DXE_RUNTIME_DRIVER", "UEFI_DRIVER", "SMM_CORE", "DXE_SMM_DRIVER",
          "UEFI_APPLICATION", "MM_STANDALONE", "MM_CORE_STANDALONE", "HOST_APPLICATION"]
SRC_EXT = [".c", ".h", ".cpp", ".asm", ".s", ".nasm", ".masm", ".rs"]
LICENSES = ["BSD-2-Clause-Patent", "MIT", "Apache-2.0 OR MIT", "GPL-2.0-only WITH Linux-syscall-note"]
GIT_ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null",
           "LC_ALL": "C.UTF-8", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b"}


def git(cwd, *args, data=None):
    return subprocess.run(["git", *args], cwd=cwd, env=GIT_ENV, input=data, capture_output=True, text=True, check=True).stdout


def add_submodules(rng, root, subs):
    """Record (name, path) as submodules in the index and .gitmodules of the repository at root (before its first commit)."""
    text = "".join(f'[submodule "{name}"]\n\tpath = {p}\n\turl = https://host/{name}.git\n' for name, p in subs)
    with open(os.path.join(root, ".gitmodules"), "w") as f:
        f.write(text)
    blob = git(root, "hash-object", "-w", ".gitmodules").strip()
    git(root, "read-tree", git(root, "mktree", "--missing", data=f"100644 blob {blob}\t.gitmodules\n").strip())
    for name, p in subs:
        git(root, "update-index", "--add", "--cacheinfo", f"160000,{rng.getrandbits(160):040x},{p}")
    git(root, "commit", "-q", "--allow-empty", "-m", "one")


class Mod:
    """One INF: rel is its path below the workspace; sources and libs are lists of (archs or [], names)."""

    def __init__(self, rel, **kw):
        self.rel = rel
        self.name, self.guid, self.type, self.lib, self.phases = kw["name"], kw["guid"], kw["type"], kw.get("lib"), kw.get("phases")
        self.sources, self.libs = kw.get("sources", []), kw.get("libs", [])

    def supports(self, module):
        return self.lib is not None and (not self.phases or self.phases == ["BASE"] or module in self.phases)

    def pick(self, sections, arch=None):
        out = []
        for archs, names in sections:
            if arch is None or not archs or arch in archs:
                out += names
        return list(dict.fromkeys(out))


class World:
    """A workspace below root with package paths, packages, modules and source files; every directory name is unique."""

    def __init__(self, rng, root, npps=None):
        self.rng, self.root, self.n = rng, root, 0
        pps = ["PP1", "Sub/PP2", "Sub"]
        self.pps = rng.sample(pps, rng.randrange(0, 3) if npps is None else npps)
        self.pkgs, self.mods, self.srcs, self.libnames = [], [], {}, []
        for pp in self.pps:
            os.makedirs(os.path.join(root, pp), exist_ok=True)
        os.makedirs(os.path.join(root, "Build"), exist_ok=True)

    # -- names
    def ident(self, stem):
        self.n += 1
        return f"{stem}{self.n}"

    def edk(self, rel):
        """The path relative to the closest package path (or the workspace)."""
        best = max((p for p in self.pps if rel.startswith(p + "/")), key=len, default=None)
        return rel if best is None else rel[len(best) + 1:]

    def spell(self, rel):
        """Any of the paths by which the build tools find the file."""
        return self.rng.choice([rel] + [rel[len(p) + 1:] for p in self.pps if rel.startswith(p + "/")] * 2)

    def write(self, rel, data):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())
        return p

    # -- content
    def add_pkg(self, dec=True):
        rng = self.rng
        base = rng.choice(["", ""] + self.pps)
        mid = rng.choice(["", "", self.ident("Grp") + "/"])
        name = self.ident("Pkg")
        rel = (base + "/" if base else "") + mid + name
        self.pkgs.append((rel, name, dec))
        os.makedirs(os.path.join(self.root, rel), exist_ok=True)
        if dec:
            self.write(f"{rel}/{name}.dec", "[Defines]\n  PACKAGE_NAME = %s\n" % name)
        return rel

    def package_of(self, rel):
        """The closest directory above rel, below the workspace, with a DEC file."""
        best = max((p for p in self.pkgs if p[2] and rel.startswith(p[0] + "/")), key=lambda p: len(p[0]), default=None)
        return None if best is None else best[1]

    def new_source_text(self, ext):
        rng = self.rng
        com = {".asm": ";", ".nasm": ";", ".masm": ";", ".s": "#"}.get(ext, "//")
        lines, lic = [], None
        for _ in range(rng.choice([0, 1, 3, rng.randrange(0, 30)])):
            lines.append(rng.choice(["", "  ", com + " note", "int a;", "/* block */" if com == "//" else com, "  mov eax, 1" if com != "//" else "x = y + 1;", "\t}",
                                     "/**" if com == "//" else com, "**/" if com == "//" else com]))
        if rng.random() < .6:
            lic = rng.choice(LICENSES)
            lines.insert(rng.randrange(0, len(lines) + 1), rng.choice([com + " ", com + " @", com]) + "SPDX-License-Identifier:" + rng.choice([" ", "", "  "]) + lic + rng.choice(["", "", " "]))
        eol = rng.choice(["\n", "\n", "\r\n"])
        text = eol.join(lines) + (eol if lines and rng.random() < .8 else "")
        data = text.encode()
        if rng.random() < .1:
            data += (b"" if not data or data.endswith(b"\n") else eol.encode()) + (com + " caf").encode() + rng.choice([b"\xe9", "é".encode()]) + eol.encode()
        return data, lic

    def add_source(self, rel):
        ext = os.path.splitext(rel)[1]
        data, lic = self.new_source_text(ext)
        self.write(rel, data)
        total = len(data.replace(b"\r\n", b"\n").split(b"\n"))
        if data.replace(b"\r\n", b"\n").endswith(b"\n") or not data:
            total -= 1
        self.srcs[rel] = (lic, total)

    def scoped(self, names):
        """Split names over common and architecture sections (a name may be in several)."""
        rng, out = self.rng, []
        left = list(names)
        while left:
            k = rng.randrange(1, len(left) + 1)
            out.append((rng.choice([[], [], ["common"], rng.sample(ARCHES, 1), rng.sample(ARCHES, 2)]), left[:k]))
            left = left[k:]
        if names and rng.random() < .15:
            out.append((rng.sample(ARCHES, 1), [rng.choice(names)]))
        return [([] if a == ["common"] else a, n) for a, n in out]

    def gen_sources(self, d, n=None):
        rng, out = self.rng, []
        for _ in range(rng.randrange(0, 4) if n is None else n):
            ext = rng.choice(SRC_EXT + [".uni", ".vfr", ".c", ".c"])
            sub = rng.choice(["", "", "", "Deep/", "../"])
            name = sub + self.ident(rng.choice(["Src", "main", "a-b"])) + ext
            rel = os.path.normpath(os.path.join(d, name))
            if rel.startswith("..") or (sub == "../" and (d in self.pps or "/" not in d)):
                continue
            out.append(name)
            if rng.random() < .85:
                if ext in SRC_EXT:
                    self.add_source(rel)
                else:
                    self.write(rel, "x")
        if rng.random() < .2:
            same = [s for s in self.srcs if os.path.dirname(s) == d]
            if same:
                out.append(os.path.basename(rng.choice(same)))
        return self.scoped(list(dict.fromkeys(out)))

    def add_mod(self, lib=None, **kw):
        rng = self.rng
        pkg = rng.choice([p[0] for p in self.pkgs] or [""]) if rng.random() < .92 else ""
        name = self.ident("Lib" if lib else "Mod")
        d = (pkg + "/" if pkg else "") + rng.choice(["", "Library/", "Core/"]) * bool(pkg) + name
        phases = kw.get("phases", rng.choice([None, None, ["BASE"], rng.sample(PHASES, rng.randrange(1, 5))]) if lib else None)
        m = Mod(f"{d}/{name}.inf", name=kw.get("base_name", name), guid=str(uuid.UUID(int=rng.getrandbits(128))).upper(),
                type=kw.get("type", rng.choice(PHASES)), lib=lib, phases=phases, sources=kw.get("sources", self.gen_sources(d)),
                libs=self.scoped(kw.get("libs", [])))
        self.mods.append(m)
        self.put(m)
        return m

    def inf_text(self, m):
        rng = self.rng
        eq = lambda: rng.choice([" = ", "=", "  =  "])
        pairs = [("INF_VERSION", "0x00010005"), ("BASE_NAME", m.name), ("FILE_GUID", m.guid), ("MODULE_TYPE", m.type), ("VERSION_STRING", "1.0")]
        if m.lib:
            ph = "" if not m.phases else rng.choice([" | ", "|", "| "]) + " ".join(m.phases)
            pairs.append(("LIBRARY_CLASS", m.lib + ph))
        else:
            pairs.append(("ENTRY_POINT", m.name + "Main"))
        rng.shuffle(pairs)
        lines = ["# @file", "", "[Defines]"] + [f"  {k}{eq()}{v}" for k, v in pairs] + [""]
        secs = [("Sources", *s) for s in m.sources] + [("LibraryClasses", *s) for s in m.libs]
        if rng.random() < .4:
            secs.append(("Packages", [], ["MdePkg/MdePkg.dec"]))
        if rng.random() < .3:
            secs.append(("Guids", [], ["gEfiOneGuid"]))
        if rng.random() < .3:
            secs.append(("Pcd", [], ["gTok.PcdSources", "gTok.PcdLibraryClasses"]))
        rng.shuffle(secs)
        for sec, archs, names in secs:
            archs = [rng.choice([a, a, a.lower()]) for a in archs] or rng.choice([[""], [""], ["common"]])
            lines.append("[" + ", ".join(sec + ("." + a if a else "") for a in archs) + "]")
            for n in names:
                tail = rng.choice(["", "", "", "  # why", " | GCC" if sec == "Sources" else ""])
                lines.append("  " + n + tail)
            lines.append(rng.choice(["", "", "# end of section"]))
        return rng.choice(["\n", "\n", "\r\n"]).join(lines) + "\n"

    def put(self, m):
        self.write(m.rel, self.inf_text(m))

    def source_paths(self, m, arch=None):
        d = os.path.dirname(m.rel)
        return {self.edk(os.path.normpath(os.path.join(d, s))) for s in m.pick(m.sources, arch)}


def dump(path):
    """Every table of the SQLite file as {table: sorted rows}, read through a connection of its own."""
    con = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
    try:
        tabs = [r[0] for r in con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'")]
        return {t: sorted(con.execute(f'select * from "{t}"').fetchall(), key=repr) for t in tabs}
    finally:
        con.close()


def rows(path, sql, *args):
    con = sqlite3.connect(f"file:{path}?mode=ro", uri=True)
    try:
        return con.execute(sql, args).fetchall()
    finally:
        con.close()


LINKS = {"source_association": ("inf", "source"), "instance_source_association": ("instancedinf", "source"), "fv_association": ("fv", "instancedinf"),
         "library_association": ("inf", "library"), "inf_association": ("instancedinf", "instancedinf")}


def dangling(d):
    """Association rows that name no row, rows that name no environment, and repeated association rows."""
    ids = {t: {r[0] for r in rs} for t, rs in d.items() if t not in LINKS}
    bad = []
    for t, (a, b) in LINKS.items():
        bad += [(t, r) for r in d[t] if r[0] not in ids[a] or r[1] not in ids[b]]
        bad += [("repeated " + t, r, n) for r, n in collections.Counter(d[t]).items() if n > 1]
    return bad
