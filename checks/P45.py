"""P45: library instances are resolved in the order of the DSC specification, volumes list their modules."""
import collections
import os
import sys
import uuid

from vh import Check, mute_logging, quiet

mute_logging()
import dbgen as D
import edk2gen as G
from edk2toollib.database import Edk2DB
from edk2toollib.database.tables import EnvironmentTable, InfTable, InstancedFvTable, InstancedInfTable, PackageTable, SourceTable
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

ck = Check("P45", ["edk2toollib/database/tables/instanced_inf_table.py", "edk2toollib/database/tables/instanced_fv_table.py", "edk2toollib/uefi/edk2/parsers/dsc_parser.py",
                   "edk2toollib/uefi/edk2/parsers/inf_parser.py", "edk2toollib/database/__init__.py"],
           rule="a case is one workspace with platform, volumes and its history of runs; distinct by the recorded instances; non-trivial with a component that has a library",
           min_events={"submodule_row": 60, "fv_condition": 20, "component_row": 800, "library_row": 2000, "by_override": 200, "by_arch_module": 100, "by_common_module": 100, "by_arch": 100, "by_common": 300,
                       "unsupported_skipped": 200, "unresolved": 100, "null_library": 200, "cycle": 100, "same_component_twice": 30, "fv_inf": 200, "fv_option": 100, "rerun": 60})
CLASSES = ["DebugLib", "BaseLib", "IoLib", "PcdLib", "MemoryLib", "NullLib", "LibraryClassesLib"]
MODULES = ["PEIM", "DXE_DRIVER", "UEFI_DRIVER", "SEC", "MM_STANDALONE"]


class Platform:
    """The library sections and components of a DSC, as a model and as text."""

    def __init__(self, c, w):
        self.c, self.w, self.rng = c, w, c.rng
        self.scoped = {}     # (arch or common, module or None, class) -> instances, the most recently listed first
        self.comps = []      # (Mod, arch, overrides {class: Mod}, null overrides [Mod])
        self.lines, self.includes = [], []

    def inf(self, m, dirs=True):
        r = self.rng.random()
        if r < .08:
            return os.path.join(self.w.root, m.rel)
        if r < .2:
            return "$(ROOT_DIR)/" + m.rel if self.define else m.rel
        return self.w.spell(m.rel)

    def build(self, libs, mods):
        rng, w = self.rng, self.w
        self.define = rng.random() < .5
        self.supported = rng.sample(D.ARCHES, rng.randrange(1, 4))
        self.target_arch = rng.sample(D.ARCHES, 3) if rng.random() < .6 else rng.sample(D.ARCHES, rng.randrange(1, 4))
        self.target = rng.choice(["DEBUG", "RELEASE"])
        L = self.lines
        L += ["[Defines]", "  PLATFORM_NAME = P", "  DSC_SPECIFICATION = 0x00010005",
              "  SUPPORTED_ARCHITECTURES = " + "|".join(rng.choice([a, a, a, a.lower()]) for a in self.supported)]
        if self.define:
            L.append("  DEFINE ROOT_DIR = " + ".")
            L[-1] = "  DEFINE ROOT_DIR = " + w.root
        todo = ["lib"] * rng.randrange(2, 7) + ["comp"] * rng.randrange(1, 4) + ["other"] * rng.randrange(0, 2)
        rng.shuffle(todo)
        for k in todo:
            {"lib": self.lib_section, "comp": self.comp_section, "other": self.other}[k](*([libs] if k == "lib" else [libs, mods] if k == "comp" else []))
        return "\n".join(L) + "\n"

    def other(self):
        self.lines += self.rng.choice([["[BuildOptions]", "  GCC:*_*_*_CC_FLAGS = -DX"], ["[PcdsFixedAtBuild]", "  gTok.PcdLib|TRUE"], ["[BuildOptions.common.EDKII.PEIM]"],
                                       ["[LibraryClassesExtra.X64]"], ["[SkuIds]", "  0|DEFAULT"], ["[UserExtensions.X.\"y\"]"]])

    def header(self, word, scopes):
        rng = self.rng
        return "[" + rng.choice([",", ", ", " , "]).join(G.recase(rng, word) + ("." + G.recase(rng, s) if s else "") for s in scopes) + "]"

    def lib_section(self, libs):
        rng, out = self.rng, []
        scopes = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            a, m = rng.choice(["common"] * 3 + D.ARCHES), rng.choice([None] * 4 + MODULES)
            if (a, m) not in scopes:
                scopes.append((a, m))
        spell = [(a if m is None else f"{a}.{m}") if (a, m) != ("common", None) else rng.choice(["", "common"]) for a, m in scopes]
        out.append(self.header("LibraryClasses", spell))
        depth = None
        for _ in range(rng.choice([0, 2, 5, 8])):
            lib = rng.choice(libs)
            cls = "NULL" if rng.random() < .12 else lib.lib
            line = f"  {G.recase(rng, cls)}{rng.choice(['|', ' | ', '  |'])}{self.inf(lib)}"
            if rng.random() < .1:
                want = rng.choice(["DEBUG", "RELEASE"])
                out += [f'!if $(TARGET) == "{want}"', line, "!endif"]
                if want != self.target:
                    continue
            else:
                out.append(line + rng.choice(["", "", "  # comment"]))
            for s in scopes:
                lst = self.scoped.setdefault((*s, cls.lower()), [])
                if lib in lst:
                    lst.remove(lib)
                lst.insert(0, lib)
        if rng.random() < .15:
            name = self.w.ident("libs") + ".dsc.inc"
            self.includes.append((name, "\n".join(out) + "\n"))
            out = [f"!include {name}"]
            self.c.event("include")
        self.lines += out

    def comp_section(self, libs, mods):
        rng = self.rng
        scopes = rng.choice([[""], [""], ["common"], rng.sample(D.ARCHES, 1), rng.sample(D.ARCHES, 2)])
        scopes = [s + ("." + rng.choice(MODULES) if s and s != "common" and rng.random() < .1 else "") for s in scopes]
        self.lines.append(self.header("Components", scopes))
        archs = [s.split(".")[0].upper() for s in scopes] if scopes[0] not in ("", "common") else self.supported
        for m in rng.sample(mods, rng.randrange(len(mods)) + 1):
            over, null = {}, []
            if rng.random() < .5:
                self.lines.append(f"  {self.inf(m)} {{")
                for _ in range(rng.randrange(0, 4)):
                    k = rng.randrange(5)
                    if k == 0:
                        self.lines += ["    <PcdsFixedAtBuild>", "      gTok.PcdDebugLib|0x1"]
                    elif k == 1:
                        self.lines += ["    <BuildOptions>", "      *_*_*_CC_FLAGS = -DBaseLib"]
                    else:
                        self.lines.append("    " + G.recase(rng, "<LibraryClasses>"))
                        for _ in range(rng.randrange(0, 4)):
                            lib = rng.choice(libs)
                            if rng.random() < .3:
                                null.append(lib)
                                self.lines.append(f"      {G.recase(rng, 'NULL')}|{self.inf(lib)}")
                            elif lib.supports(m.type):
                                over[lib.lib.lower()] = lib
                                self.lines.append(f"      {G.recase(rng, lib.lib)}|{self.inf(lib)}")
                self.lines.append("  }")
            else:
                self.lines.append(f"  {self.inf(m)}" + rng.choice(["", "  # comment"]))
            if not m.lib:
                self.comps += [(m, a, over, null) for a in archs if a in self.target_arch]

    # -- the model
    def resolve(self, cls, arch, module, over, count):
        if cls in over:
            count("by_override")
            return over[cls]
        for key, ev in (((arch, module), "by_arch_module"), (("common", module), "by_common_module"), ((arch, None), "by_arch"), (("common", None), "by_common")):
            for lib in self.scoped.get((*key, cls), []):
                if lib.supports(module):
                    count(ev)
                    return lib
                count("unsupported_skipped")
        count("unresolved")
        return None

    def closure(self, comp, count):
        """{Mod: (classes that reach it, libraries it links)} of one component instance."""
        m, arch, over, null = comp
        nodes, work = {m: (set(), set())}, [m]
        while work:
            n = work.pop()
            deps = [(cls, self.resolve(cls.lower(), arch, m.type, over, count)) for cls in n.pick(n.libs, arch)]
            if n is m:
                extra = list(null)
                for key in ((arch, m.type), ("common", m.type), (arch, None), ("common", None)):
                    extra += self.scoped.get((*key, "null"), [])
                deps += [("NULL", x) for x in extra]
                count("null_library", len(extra))
            for cls, d in deps:
                if d is None:
                    continue
                if d not in nodes:
                    nodes[d] = (set(), set())
                    work.append(d)
                elif d is n or m in nodes[d][1]:
                    count("cycle")
                nodes[d][0].add(cls)
                nodes[n][1].add(d)
        return nodes


def canon(path_of, nodes, root):
    return root, tuple(sorted((path_of(n), tuple(sorted(path_of(x) for x in links))) for n, (_, links) in nodes.items()))


def snap(db, env):
    rows = {}
    for i, path, arch, name, dsc, cls, comp, pkg, repo in D.rows(db, "select i.id,i.path,i.arch,i.name,i.dsc,i.cls,i.component,p.name,r.name from instancedinf i "
                                                                  "left join package p on p.id=i.package_id left join repository r on r.id=i.repository_id where i.env=?", env):
        rows[i] = dict(id=i, path=path, arch=arch, name=name, dsc=dsc, cls=cls, component=comp, package=pkg, repo=repo, links=set(), sources=[])
    for a, b in D.rows(db, "select left_id,right_id from inf_association"):
        if a in rows:
            rows[a]["links"].add(b)
    for a, p in D.rows(db, "select a.left_id,s.path from instance_source_association a join source s on s.id=a.right_id"):
        if a in rows:
            rows[a]["sources"].append(p)
    return rows


def check_rows(c, w, pf, rows, git, mech):
    path_of = lambda m: w.edk(m.rel)
    by_path = {path_of(m): m for m in w.mods}
    want = collections.Counter()
    total, model = 0, {}
    for comp in pf.comps:
        nodes = pf.closure(comp, c.event)
        total += len(nodes)
        k = (path_of(comp[0]), comp[1], canon(path_of, nodes, path_of(comp[0])))
        want[k] += 1
        for n, (cls, _) in nodes.items():   # the same component may be built twice, with equal instances for other classes
            model.setdefault(k, {}).setdefault(path_of(n), set()).update(cls)
        c.event("component_row"); c.event("library_row", len(nodes) - 1)
    dup = collections.Counter((m.rel, a) for m, a, _, _ in pf.comps)
    c.event("same_component_twice", sum(n > 1 for n in dup.values()))
    got, seen = collections.Counter(), set()
    for r in rows.values():
        if r["cls"] is not None:
            continue
        c.equal(r["component"], r["path"], mech + ":component-column")
        work, reach = [r["id"]], {r["id"]}
        while work:
            for x in rows[work.pop()]["links"]:
                if not c.expect(x in rows, mech + ":link-to-another-run", row=r):
                    continue
                if x not in reach:
                    reach.add(x)
                    work.append(x)
        k = (r["path"], r["arch"], (r["path"], tuple(sorted((rows[x]["path"], tuple(sorted(rows[y]["path"] for y in rows[x]["links"]))) for x in reach))))
        got[k] += 1
        c.expect(not (reach & seen), mech + ":shared-between-components", rows=[rows[x] for x in reach & seen])
        seen |= reach
        nodes = model.get(k, {})
        for x in reach:
            y = rows[x]
            c.equal((y["arch"], y["component"], y["dsc"]), (r["arch"], r["path"], pf.dsc), mech + ":columns")
            m = by_path.get(y["path"])
            if m is None:
                c.violate(mech + ":instance-of-nothing", row=y)
                continue
            pkg = w.package_of(m.rel) if git else None
            owner = lambda rel: next((s for s, p in w.subs if rel.startswith(p + "/")), None)
            repos = {owner(p[0]) for p in w.pkgs if p[2]} if git else set()   # those with a package are known
            repo = owner(m.rel) if owner(m.rel) in repos and owner(m.rel) else "BASE" if None in repos else None
            if repo != "BASE" and repo is not None:
                c.event("submodule_row")
            c.equal((y["name"], y["package"], y["repo"]), (m.name, pkg, repo), mech + ":attributes", inf=m.rel, subs=w.subs)
            c.equal(sorted(y["sources"]), sorted(w.source_paths(m, r["arch"])), mech + ":sources")
            if x != r["id"] and y["path"] in nodes:
                c.expect(y["cls"] in nodes[y["path"]], mech + ":class", row=y, classes=nodes[y["path"]])
    c.equal(got, want, mech + ":resolution")
    c.equal(len(rows), total, mech + ":row-count")
    c.equal(set(rows) - seen, set(), mech + ":unreached")
    return got


def fdf(c, w, pf, libs, mods):
    """Text of an FDF with volumes, and the INF paths that each must list."""
    rng = c.rng
    built = {m for m, _, _, _ in pf.comps}
    lines, want = ["[FD.Main]", "BaseAddress = 0x0", "Size = 0x1000"], []
    for _ in range(rng.randrange(0, 4)):
        name = w.ident(rng.choice(["FVMAIN", "FvRecovery", "fv_"]))
        lines.append(f"[{G.recase(rng, 'FV')}.{name}]")
        picked = rng.sample(mods, rng.randrange(0, len(mods) + 1))
        if rng.random() < .4 or not picked:
            lines.append("FvAlignment = 16")
        infs = set()
        for m in picked:
            opt = ""
            for _ in range(rng.choice([0, 0, 1, 2])):
                opt += rng.choice(["RuleOverride = BINARY ", "RuleOverride=ACPITABLE ", f"FILE_GUID = {uuid.UUID(int=rng.getrandbits(128))} ", 'VERSION = "1.0" ', 'UI = "My driver" ',
                                   "USE = X64 ", "use=IA32  "])
            c.event("fv_option", bool(opt))
            path = w.spell(m.rel) if rng.random() < .9 else "$(INF_ROOT)/" + m.rel
            if path.startswith("$"):
                lines.insert(0, "[Defines]\n  DEFINE INF_ROOT = " + w.root) if not lines[0].startswith("[Def") else None
            cond = rng.choice(["DEBUG", "RELEASE"]) if rng.random() < .12 else None
            if cond:
                lines.append(f'!if $(TARGET) == "{cond}"')
                c.event("fv_condition")
            lines.append(rng.choice(["  ", ""]) + rng.choice(["INF ", "INF  "]) + opt + path + rng.choice(["", "", "  # x"]))
            if cond:
                lines += ["!endif", "FvAlignment = 16"]
            if m in built and cond in (None, pf.target):
                infs.add(w.edk(m.rel))
                c.event("fv_inf")
        if libs and rng.random() < .1:   # no instance of a library is a module of a volume
            lines.append("INF " + w.spell(rng.choice(libs).rel))
        if rng.random() < .3:
            lines += ["FILE FREEFORM = %s {" % uuid.UUID(int=rng.getrandbits(128)), "  SECTION RAW = Pkg/x.bin", "}"]
        want.append((name, infs))
    if rng.random() < .3:
        lines += ["[Rule.Common.PEIM]", "  FILE PEIM = $(NAMED_GUID) {", "  }"]
    return "\n".join(lines) + "\n", want


@ck.family("resolve", 420, 11000)
def resolve(c):
    """Random libraries (cycles included), sections and overrides: rows and links equal the model of the specification."""
    rng = c.rng
    w = D.World(rng, os.path.join(c.tmp, "ws"))
    for _ in range(rng.randrange(1, 4)):
        w.add_pkg(dec=rng.random() < .85)
    git, w.subs = rng.random() < .3, []
    if git and rng.random() < .6:   # packages in a submodule and next to it
        for p, dec in rng.sample([("Ext", True), ("Ext", False), ("Ext_2", True), ("Ext_2", False), ("Ext/In", True), ("Far/Off", True), ("Far", False)], rng.randrange(1, 6)):
            k = w.ident("Pkg")
            w.pkgs.append((f"{p}/{k}", k, dec))
            os.makedirs(os.path.join(w.root, p, k))
            if dec:
                w.write(f"{p}/{k}/{k}.dec", "[Defines]\n  PACKAGE_NAME = %s\n" % k)
        w.subs = [(rng.choice([p, "name-" + p.replace("/", "_")]), p) for p in rng.sample(["Ext", "Far/Off", "Ext_2"], rng.randrange(1, 4))]
        for _, p in w.subs:
            os.makedirs(os.path.join(w.root, p), exist_ok=True)
    classes = rng.sample(CLASSES, rng.randrange(1, 6))
    deps = lambda: [G.recase(rng, x) if rng.random() < .2 else x for x in rng.sample(classes + ["NowhereLib"] * (rng.random() < .2), min(len(classes), rng.choice([0, 1, 2, 3, 4])))]
    phases = lambda: rng.choice([None, None, None, ["BASE"], rng.sample(MODULES, rng.randrange(1, 4)), ["SMM_CORE"]])
    src = lambda: [] if rng.random() < .6 else w.gen_sources("Shared" + w.ident("X"), 1)
    libs = [w.add_mod(lib=rng.choice(classes), libs=deps(), phases=phases(), **({"sources": []} if rng.random() < .5 else {})) for _ in range(rng.randrange(1, 9))]
    mods = [w.add_mod(libs=deps(), type=rng.choice(MODULES), base_name=rng.choice([None, "SameName"]) or w.ident("M"), **({"sources": []} if rng.random() < .4 else {}))
            for _ in range(rng.randrange(1, 4))]
    if git:
        D.git(w.root, "init", "-q", "--template=")
        if w.subs:
            D.add_submodules(rng, w.root, w.subs)
    db_path = os.path.join(c.tmp, "db.db")
    tabs = [InstancedInfTable(), InstancedFvTable()]
    db, before, last = None, {}, None
    for run in range(rng.choice([1, 1, 2])):
        if run:
            c.event("rerun")
            for m in rng.sample(libs + mods, min(3, len(libs + mods))):
                m.libs = w.scoped(rng.sample(classes, rng.randrange(0, len(classes) + 1)))
                if m.lib and rng.random() < .4:
                    m.phases = phases()
                w.put(m)
            if rng.random() < .4:
                tabs = [InstancedInfTable(), InstancedFvTable()]
        pf = Platform(c, w)
        comps = mods + (rng.sample(libs, 1) if rng.random() < .15 else [])
        text = pf.build(libs, comps)
        pdir = rng.choice([p[0] for p in w.pkgs])
        pf.dsc = w.ident("Platform") + ".dsc"
        w.write(f"{pdir}/{pf.dsc}", text)
        for name, t in pf.includes:
            w.write(f"{pdir}/{name}", t)
        ftext, want_fv = fdf(c, w, pf, libs, mods)
        w.write(f"{pdir}/P{run}.fdf", ftext)
        c.note(pps=w.pps, dsc=text, includes=pf.includes, fdf=ftext, mods=[vars(m) for m in w.mods], target_arch=pf.target_arch, target=pf.target)
        env = {"ACTIVE_PLATFORM": w.spell(f"{pdir}/{pf.dsc}"), "TARGET_ARCH": " ".join(pf.target_arch), "TARGET": pf.target, "FLASH_DEFINITION": w.spell(f"{pdir}/P{run}.fdf")}
        with_fv = rng.random() < .8
        if not with_fv and rng.random() < .5:
            del env["FLASH_DEFINITION"]
            with_fv = None
        if db is None or rng.random() < .5:
            db = c.must("open", Edk2DB, db_path, Edk2Path(w.root, list(w.pps)))
        db.clear_parsers()
        first = [EnvironmentTable()] + [PackageTable()] * git + rng.choice([[], [SourceTable(n_jobs=1), InfTable(n_jobs=1)]])
        db.register(*first, tabs[0], *([tabs[1]] if with_fv is not False else []))
        with quiet():
            c.must("parse", db.parse, env, cpu=60)
        envs = [r[0] for r in D.rows(db_path, "select id from environment") if r[0] not in before]
        if not c.expect(len(envs) == 1, "resolve:environment", envs=envs):
            return
        last = check_rows(c, w, pf, snap(db_path, envs[0]), git, "resolve")
        fv = {}
        for i, name, f in D.rows(db_path, "select id,name,fdf from fv where env=?", envs[0]):
            c.equal(f, env.get("FLASH_DEFINITION"), "fv:fdf")
            fv.setdefault(name, []).append(sorted(D.rows(db_path, "select i.path,i.cls,i.env from fv_association a join instancedinf i on i.id=a.right_id where a.left_id=?", i)))
        c.equal(fv, {n: [[(p, None, envs[0]) for p in sorted(infs)]] for n, infs in want_fv} if with_fv else {}, "fv:volumes")
        c.equal(D.dangling(D.dump(db_path)), [], "resolve:links")
        for e, old in before.items():
            c.equal(snap(db_path, e), old, "resolve:earlier-run")
        before[envs[0]] = snap(db_path, envs[0])
    c.key(sorted(last.items()), want_fv, nontrivial=any(len(k[2][1]) > 1 for k in last))


sys.exit(ck.main())
