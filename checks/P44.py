"""P44: the INF, source, package and environment tables mirror the workspace, also after edits."""
import datetime
import os
import shutil
import sys

from vh import Check, mute_logging, quiet

mute_logging()
import dbgen as D
from edk2toollib.database import Edk2DB
from edk2toollib.database.tables import EnvironmentTable, InfTable, PackageTable, SourceTable
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from pygount import SourceAnalysis

ck = Check("P44", ["edk2toollib/database/tables/inf_table.py", "edk2toollib/database/tables/source_table.py", "edk2toollib/database/tables/environment_table.py",
                   "edk2toollib/database/tables/package_table.py", "edk2toollib/database/__init__.py", "edk2toollib/database/edk2_db.py"],
           rule="a case is one workspace with its history of edits and parse runs; distinct by the tables read back after the last run; non-trivial with an INF and a source file",
           min_events={"package_changed": 30, "run": 300, "inf_row": 1000, "source_row": 2000, "edit": 300, "row_changed_in_place": 100, "source_stats": 60, "git_version": 40,
                       "package_row": 100, "submodule_package": 30})
CLASSES = ["DebugLib", "BaseLib", "IoLib", "debuglib", "PcdLib"]


def snap(db):
    """Rows by path, with associations resolved to names."""
    q = lambda s: D.rows(db, s)
    inf = {}
    for i, path, guid, cls, pkg, mt in q("select id,path,guid,library_class,package_name,module_type from inf"):
        inf.setdefault(path, []).append((guid, cls, pkg, mt,
            sorted(r[0] for r in D.rows(db, "select s.path from source_association a join source s on s.id=a.right_id where a.left_id=?", i)),
            sorted(r[0] for r in D.rows(db, "select l.name from library_association a join library l on l.id=a.right_id where a.left_id=?", i))))
    src = {}
    for path, *rest in q("select path,license,total_lines,code_lines,comment_lines,blank_lines from source"):
        src.setdefault(path, []).append(tuple(rest))
    env = {i: (d, v, dict(D.rows(db, "select key,value from value where env_id=?", i))) for i, d, v in q("select id,date,version from environment")}
    return inf, src, env


def want_inf(w, m):
    return (m.guid, m.lib, w.package_of(m.rel), m.type, sorted(w.source_paths(m)), sorted(set(m.pick(m.libs))))


def want_src(w, rel, stats):
    lic, total = w.srcs[rel]
    code, com, blank = total, 0, 0
    if stats:
        a = SourceAnalysis.from_file(os.path.join(w.root, rel), "_", fallback_encoding="utf-8")
        code, com, blank = a.code_count, a.documentation_count, a.empty_count
    return (lic or "Unknown", total, code, com, blank)


def populate(c, w):
    rng = c.rng
    for _ in range(rng.randrange(1, 4)):
        w.add_pkg(dec=rng.random() < .85)
    for _ in range(rng.randrange(0, 6)):
        w.add_mod(lib=rng.choice([None, *CLASSES]), libs=rng.sample(CLASSES, rng.randrange(0, 4)))
    for _ in range(rng.randrange(0, 4)):   # sources no INF lists, of which a few are hidden or deep
        w.add_source(rng.choice(["", ".hidden/", "a b/c/", "NotBuild/Build/"]) + w.ident("Free") + rng.choice(D.SRC_EXT))
    # nothing below Build counts, nor do folders, text files or the INFs of another world
    for rel in rng.sample(["Build/a.c", "Build/X/m.inf", "notes.txt", "c", "x.c.orig", "y.inf.bak", "Pkg.INFO"], 4):
        w.write(rel, "[Defines]\nBASE_NAME = B\nFILE_GUID = 1\nMODULE_TYPE = SEC\n")
    if rng.random() < .4:
        w.write(w.ident("win") + ".inf", '[Version]\nSignature="$WINDOWS NT$"\nClass=Firmware\n')
    if rng.random() < .4:
        os.makedirs(os.path.join(w.root, rng.choice(["dir.c", "dir.inf", "x/dir.h"])), exist_ok=True)


def edit(c, w):
    """One change of the workspace by which no INF or source file vanishes."""
    rng = c.rng
    c.event("edit")
    k = rng.randrange(8)
    if k == 7:   # a package starts to be one, or stops
        i = rng.randrange(len(w.pkgs))
        rel, name, dec = w.pkgs[i]
        w.pkgs[i] = (rel, name, not dec)
        if dec:
            os.remove(os.path.join(w.root, rel, name + ".dec"))
        else:
            w.write(f"{rel}/{name}.dec", "[Defines]\n")
        c.event("package_changed")
        return
    if k == 0 or not w.mods:
        w.add_mod(lib=rng.choice([None, *CLASSES]), libs=rng.sample(CLASSES, rng.randrange(0, 4)))
        return
    m = rng.choice(w.mods)
    d = os.path.dirname(m.rel)
    if k == 1:
        m.libs = w.scoped(rng.sample(CLASSES, rng.randrange(0, 4)))
    elif k == 2:
        m.sources = w.gen_sources(d) if rng.random() < .7 else []
    elif k == 3:
        m.guid, m.type = str(D.uuid.UUID(int=rng.getrandbits(128))), rng.choice(D.PHASES)
    elif k == 4:
        m.lib, m.phases = rng.choice([None, *CLASSES]), None
    elif k == 5 and w.srcs:
        w.add_source(rng.choice(sorted(w.srcs)))
    else:   # a listed source that did not exist appears
        for s in m.pick(m.sources):
            rel = os.path.normpath(os.path.join(d, s))
            if os.path.splitext(rel)[1] in D.SRC_EXT and rel not in w.srcs:
                w.add_source(rel)
                c.event("late_source")
    w.put(m)


def rand_env(rng):
    e = {}
    for _ in range(rng.randrange(0, 6)):
        e[rng.choice(["TARGET", "TOOL_CHAIN_TAG", "BLD_*_X", "a", "A", "ключ", "with space", "env_id", "'; drop table inf; --"])] = rng.choice(
            ["", "DEBUG", "0", "a=b", "日本", "x" * 300, "line\nline", "'quoted'", "%s ?", "NULL", "  pad "])
    return e


def run(c, w, db_path, tables, env, reuse):
    """One parse; the database object and the tables are new or those of an earlier run."""
    if reuse.get("db") is None or c.rng.random() < .5:
        if reuse.get("db"):
            reuse["db"].engine.dispose()
        reuse["db"] = c.must("open", Edk2DB, db_path, Edk2Path(w.root, list(w.pps)))
    db = reuse["db"]
    db.clear_parsers()
    db.register(*tables)
    t0 = datetime.datetime.now()
    with quiet():
        c.must("parse", db.parse, env, cpu=60)
    c.event("run")
    return t0, datetime.datetime.now()


def compare(c, w, db_path, stats, mech):
    inf, src, env = snap(db_path)
    c.equal(inf, {w.edk(m.rel): [want_inf(w, m)] for m in w.mods}, mech + ":inf")
    listed = {p for m in w.mods for p in w.source_paths(m)} | c.seen_listed
    c.seen_listed = listed
    have = {w.edk(r): [want_src(w, r, stats)] for r in w.srcs}
    norm = lambda v: [((x[0].rstrip() if x[0] else x[0]),) + x[1:] for x in v]
    c.equal({p: norm(v) for p, v in src.items() if p in have}, have, mech + ":source")
    extra = {p: v for p, v in src.items() if p not in have}
    c.equal(set(extra) - listed, set(), mech + ":source-of-nothing")
    c.expect(all(v == [(None,) * 5] for v in extra.values()), mech + ":missing-source", rows=extra)
    c.equal(D.dangling(D.dump(db_path)), [], mech + ":links")
    c.event("inf_row", len(inf)); c.event("source_row", len(src))
    return inf, src, env


def versions(c, w, kind):
    """Make the workspace a repository (or not); returns a function giving the expected version."""
    if kind == "none":
        return lambda: "UNKNOWN"
    top = w.root if kind != "inside" else os.path.dirname(w.root)
    D.git(top, "init", "-q", "--template=")
    if kind == "empty":
        return lambda: "UNKNOWN"

    def commit(n=[0]):
        n[0] += 1
        D.git(top, "commit", "-q", "--allow-empty", "-m", str(n[0]))
        if c.rng.random() < .2:
            D.git(top, "checkout", "-q", "--detach")
        if kind == "inside":
            return "UNKNOWN"
        c.event("git_version")
        return D.git(top, "rev-parse", "HEAD").strip()
    return commit


@ck.family("history", 260, 6000)
def history(c):
    """Parse, edit, parse again: every run leaves the tables equal to the model of the workspace."""
    rng = c.rng
    c.seen_listed = set()
    root = os.path.join(c.tmp, "outer", "ws")
    os.makedirs(root)
    w = D.World(rng, root)
    populate(c, w)
    version = versions(c, w, rng.choice(["none", "none", "none", "none", "repo", "empty", "inside"]))
    db_path = os.path.join(rng.choice([c.tmp, os.path.join(root, "Build")]), "db.db")
    reuse, envs, changed = {}, {}, 0
    c.note(pps=w.pps, pkgs=w.pkgs, mods=[vars(m) for m in w.mods])
    prev = None
    with_src = False
    for n in range(rng.choice([1, 2, 2, 3])):
        for _ in range(rng.randrange(0, 4) if n else 0):
            edit(c, w)
        stats = rng.random() < .35
        tables = [EnvironmentTable(), SourceTable(n_jobs=1, source_stats=stats), InfTable(n_jobs=1)]
        rng.shuffle(tables)
        v, e = version(), rand_env(rng)
        t0, t1 = run(c, w, db_path, tables, e, reuse)
        inf, src, env = compare(c, w, db_path, stats, "history")
        if stats:
            c.event("source_stats")
        new = [i for i in env if i not in envs]
        c.equal(len(new), 1, "history:environment-count")
        for i in new:
            d, got_v, vals = env[i]
            c.equal(got_v, v, "history:version")
            c.equal(vals, e, "history:values")
            d = datetime.datetime.fromisoformat(d)
            c.expect(t0 <= d <= t1, "history:date", date=str(d), between=(str(t0), str(t1)))
        c.equal({i: env.get(i) for i in envs}, envs, "history:earlier-environments")
        envs = env
        if prev:
            changed += sum(prev[0].get(p) not in (None, r) for p, r in inf.items()) + sum(prev[1].get(p) not in (None, r) for p, r in src.items())
        prev = inf, src
    c.event("row_changed_in_place", changed)
    c.key(sorted(prev[0].items()), sorted(prev[1].items(), key=repr), nontrivial=bool(prev[0]) and bool(prev[1]))


@ck.family("extensions", 40, 800)
def extensions(c):
    """SourceTable(source_extensions=...) takes those files and no others."""
    rng = c.rng
    c.seen_listed = set()
    w = D.World(rng, c.tmp + "/ws")
    populate(c, w)
    for e in D.SRC_EXT:
        w.add_source(rng.choice(["Any/", ""]) + w.ident("F") + e)
    exts = rng.sample(D.SRC_EXT, rng.randrange(0, 5))
    db_path = os.path.join(c.tmp, "db.db")
    run(c, w, db_path, [SourceTable(n_jobs=1, source_extensions=["*" + e for e in exts])], {}, {})
    _, src, env = snap(db_path)
    c.equal(src and {p: [((v[0][0] or "").rstrip(),) + v[0][1:]] for p, v in src.items()},
            {w.edk(r): [want_src(w, r, False)] for r in w.srcs if os.path.splitext(r)[1] in exts}, "extensions:rows")
    c.event("source_row", len(src))
    c.equal(env, {}, "extensions:environment")
    c.key(sorted(src), nontrivial=bool(src))


@ck.family("repos", 90, 2500)
def repos(c):
    """Packages belong to the repository or submodule that contains their DEC."""
    rng = c.rng
    root = os.path.join(c.tmp, "ws")
    os.makedirs(root)
    w = D.World(rng, root)
    for _ in range(rng.randrange(0, 4)):
        w.add_pkg(dec=rng.random() < .8)
    git = rng.random() < .9
    base, subs = "BASE", []
    if git:
        D.git(root, "init", "-q", "--template=")
        remotes = []
        for name in rng.sample(["origin", "upstream", "aaa"], rng.choice([0, 1, 1, 2])):
            repo = rng.choice(["mu_basecore", "EDK2", "x.y", "tool-z"])
            url = rng.choice(["https://host/%s", "https://host/org/%s.git", "git@host:org/%s.git", "/srv/git/%s.git", "https://host/a.b/%s"]) % repo
            D.git(root, "remote", "add", name, url)
            remotes.append((name, repo.upper()))
        d = dict(remotes)
        base = d.get("origin") or (remotes[0][1] if d else "BASE")
        text, info = "", ""
        places = rng.sample(["Common/MU", "Common/MU_TIANO", "MU", "Common", "Sub", "PP1/x"], rng.randrange(0, 4))
        # a submodule cannot be inside of another one
        places = [p for p in places if not any(q != p and p.startswith(q + "/") for q in places)]
        for p in places:
            name = rng.choice([p, "name-of-" + p.replace("/", "_")])
            subs.append((name, p))
            text += f'[submodule "{name}"]\n\tpath = {p}\n\turl = https://host/{name}.git\n'
            info += f"160000 commit {rng.getrandbits(160):040x}\t{p}\n"
            os.makedirs(os.path.join(root, p), exist_ok=True)
            for q in rng.sample([p, p + "_2", p + "Pkg", "Other/" + p], rng.randrange(1, 4)):
                k = w.ident("Pkg")
                w.pkgs.append((f"{q}/{k}", k, True))
                w.write(f"{q}/{k}/{rng.choice([k, 'other'])}.dec", "[Defines]\n")
        if text:
            w.write(".gitmodules", text)
            tree = D.git(root, "hash-object", "-w", ".gitmodules").strip()
            tree = D.git(root, "mktree", "--missing", data=f"100644 blob {tree}\t.gitmodules\n").strip()
            D.git(root, "read-tree", tree)
            for line in info.splitlines():
                meta, p = line.split("\t")
                D.git(root, "update-index", "--add", "--cacheinfo", f"160000,{meta.split()[2]},{p}")
        if rng.random() < .9 or text:
            D.git(root, "commit", "-q", "--allow-empty", "-m", "one")
    db_path, want = os.path.join(c.tmp, "db.db"), None
    reuse = {}
    c.note(pkgs=w.pkgs, subs=subs, base=base, git=git)
    for n in range(rng.choice([1, 1, 2])):
        if n:
            w.add_pkg()
        run(c, w, db_path, [PackageTable()], {}, reuse)
        want = []
        for rel, name, dec in w.pkgs:
            if dec and git:
                owner = next(((s, p) for s, p in subs if rel == p or rel.startswith(p + "/")), (base, None))
                want.append((name, rel, *owner))
                c.event("package_row")
                c.event("submodule_package", owner[1] is not None)
        got = D.rows(db_path, "select p.name,p.path,r.name,r.path from package p left join repository r on r.id=p.repository_id")
        c.equal(sorted(got, key=repr), sorted(want, key=repr), "repos:packages")
        repo = D.rows(db_path, "select name,path from repository")
        c.equal(sorted(repo, key=repr), sorted({x[2:] for x in want}, key=repr), "repos:repositories")
    c.key(sorted(want, key=repr), nontrivial=bool(want))


sys.exit(ck.main())
