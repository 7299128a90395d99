"""P43: database parsing is all-or-nothing per table and tagged by one run id."""
import collections
import os
import pickle
import sqlite3
import sys

from vh import Check, mute_logging, quiet

mute_logging()
import dbgen as D
from edk2toollib.database import Edk2DB, Environment, Inf, Library, Package, Repository, Source, Value
from edk2toollib.database.tables import EnvironmentTable, InfTable, InstancedFvTable, InstancedInfTable, PackageTable, SourceTable, TableGenerator
from edk2toollib.uefi.edk2.path_utilities import Edk2Path
from sqlalchemy import event

ck = Check("P43", ["edk2toollib/database/edk2_db.py", "edk2toollib/database/__init__.py", "edk2toollib/database/tables/environment_table.py",
                   "edk2toollib/database/tables/inf_table.py", "edk2toollib/database/tables/source_table.py", "edk2toollib/database/tables/package_table.py",
                   "edk2toollib/database/tables/instanced_inf_table.py", "edk2toollib/database/tables/instanced_fv_table.py"],
           rule="a case is one history of parse runs or sessions with its faults; distinct by tables, faults and final content; non-trivial with a fault that struck",
           min_events={"run": 400, "run_failed": 150, "table_rolled_back": 150, "sql_fault": 25, "commit_fault": 6, "input_fault": 40, "crash": 30, "locked": 4, "interrupt": 5,
                       "peek": 150, "retry_compared": 60, "session": 300, "session_failed": 80})


class Boom(Exception):
    pass


BOOMS = [Boom, RuntimeError, KeyError, OSError, KeyboardInterrupt, SystemExit]


def dump(path):
    con = sqlite3.connect(path, timeout=0)
    try:
        tabs = [r[0] for r in con.execute("select name from sqlite_master where type='table' and name not like 'sqlite_%'")]
        return {t: sorted(con.execute(f'select * from "{t}"').fetchall(), key=repr) for t in tabs}
    finally:
        con.close()


class Spy(TableGenerator):
    """Notes what is committed when a table starts; otherwise the table itself."""

    def __init__(self, inner, log, path, keep=None):
        self.inner, self.log, self.path, self.keep = inner, log, path, keep

    def parse(self, *a, **kw):
        self.log.append((self.inner, dump(self.path)))
        if self.keep:
            with open(self.keep, "wb") as f:
                pickle.dump([(type(t).__name__, d) for t, d in self.log], f)
        return self.inner.parse(*a, **kw)


class Custom(TableGenerator):
    """A table of a user: adds rows of a kind, flushes at times, raises where told."""

    def __init__(self, tag, steps, exc):
        self.tag, self.steps, self.exc = tag, steps, exc

    def parse(self, session, pathobj, id, env):
        for i, s in enumerate(self.steps):
            if s == "add":
                session.add(Library(name=f"{self.tag}-{i}"))
            elif s == "graph":
                src = Source(path=f"{self.tag}/{i}.c")
                session.add(Inf(path=f"{self.tag}/{i}.inf", guid="g", sources=[src], libraries=[Library(name=f"{self.tag}-l{i}")]))
            elif s == "flush":
                session.flush()
            elif s == "clash":
                session.add_all([Library(name=f"{self.tag}-same{i}"), Library(name=f"{self.tag}-same{i}")])
            elif s == "raise":
                raise self.exc("planned")


class Workspace:
    """A small platform and the ways in which its files can fail to parse."""

    def __init__(self, c):
        rng = c.rng
        self.w = w = D.World(rng, os.path.join(c.tmp, "ws"))
        w.add_pkg()
        if rng.random() < .5:
            w.add_pkg()
        libs = [w.add_mod(lib=x, phases=None, libs=rng.sample(["ALib", "BLib"], rng.randrange(0, 3))) for x in ("ALib", "BLib")]
        mods = [w.add_mod(type="DXE_DRIVER", libs=rng.sample(["ALib", "BLib"], rng.randrange(1, 3))) for _ in range(rng.randrange(1, 4))]
        self.pkg = w.pkgs[0][0]
        dsc = ["[Defines]", "SUPPORTED_ARCHITECTURES = IA32|X64", "[LibraryClasses]"] + [f"{m.lib}|{w.edk(m.rel)}" for m in libs]
        dsc += ["[Components.X64]"] + [w.edk(m.rel) for m in mods] + ["[Components.IA32]"] + [w.edk(m.rel) for m in mods[:1]]
        w.write(f"{self.pkg}/P.dsc", "\n".join(dsc) + "\n")
        w.write(f"{self.pkg}/P.fdf", "\n".join(["[FV.MAIN]"] + ["INF " + w.edk(m.rel) for m in mods] + ["[FV.TWO]", "FvAlignment = 16"] + ["INF " + w.edk(mods[0].rel)]) + "\n")
        self.env = {"ACTIVE_PLATFORM": f"{self.pkg}/P.dsc", "FLASH_DEFINITION": f"{self.pkg}/P.fdf", "TARGET_ARCH": "IA32 X64", "TARGET": "DEBUG"}
        self.mods = mods
        if rng.random() < .6:
            D.git(w.root, "init", "-q", "--template=")

    def tables(self, rng):
        kinds = [EnvironmentTable, PackageTable, lambda: SourceTable(n_jobs=1), lambda: InfTable(n_jobs=1), InstancedInfTable, InstancedFvTable]
        if rng.random() < .5:
            return [k() for k in kinds]
        out = [k() for k in kinds if rng.random() < .7]
        if rng.random() < .2:
            rng.shuffle(out)
        return out

    def spoil(self, rng):
        """Make some table fail on its input; returns the environment of the run and how to mend the files."""
        env, k = dict(self.env), rng.randrange(6)
        if k == 0:
            env["ACTIVE_PLATFORM"] = f"{self.pkg}/Missing.dsc"
        elif k == 1:
            env["FLASH_DEFINITION"] = f"{self.pkg}/Missing.fdf"
        elif k == 2:
            env.pop(rng.choice(["TARGET_ARCH", "TARGET", "ACTIVE_PLATFORM"]))
        elif k == 3:
            m = rng.choice(self.mods)
            self.w.write(m.rel, b"[Defines]\nBASE_NAME = \xff\xfe\xff\n")
            return env, lambda: self.w.put(m)
        elif k == 4:
            m = rng.choice(self.mods)
            self.w.write(m.rel, "[Defines]\nFILE_GUID = 1\nMODULE_TYPE = DXE_DRIVER\n")    # no BASE_NAME
            return env, lambda: self.w.put(m)
        else:
            bad = os.path.join(self.w.root, "Loose.inf")
            self.w.write("Loose.inf", b"[Defines]\n\xc3\x28 = 1\n")
            return env, lambda: os.unlink(bad)
        return env, lambda: None


APPEND = ["environment", "value", "instancedinf", "fv", "instance_source_association", "fv_association", "inf_association"]
GROW = ["inf", "source", "library", "package", "repository"]


def kept(c, old, new, mech):
    """Nothing of the old content is gone: rows of runs as they were, shared rows under their id."""
    for t in APPEND:
        gone = collections.Counter(old[t]) - collections.Counter(new[t])
        c.expect(not gone, mech + ":rows-of-earlier-runs", table=t, gone=dict(gone))
    for t in GROW:
        gone = {r[:2] for r in old[t]} - {r[:2] for r in new[t]}
        c.expect(not gone, mech + ":shared-rows", table=t, gone=gone)


def healthy(c, path, mech):
    con = sqlite3.connect(path)
    try:
        c.equal(con.execute("pragma integrity_check").fetchall(), [("ok",)], mech + ":integrity")
    finally:
        con.close()
    d = dump(path)
    c.equal(D.dangling(d), [], mech + ":dangling")
    run_of, fv_of = {r[0]: r[1] for r in d["instancedinf"]}, {r[0]: r[1] for r in d["fv"]}
    c.equal([r for r in d["inf_association"] if run_of.get(r[0]) != run_of.get(r[1])] + [r for r in d["fv_association"] if fv_of.get(r[0]) != run_of.get(r[1])], [], mech + ":links-between-runs")
    for t, col in (("inf", 1), ("source", 1), ("library", 1)):
        dup = [k for k, n in collections.Counter(r[col] for r in d[t]).items() if n > 1]
        c.equal(dup, [], mech + ":duplicate", table=t)
    return d


def canonical(path, env_id):
    """The content of one run without row ids, and the shared tables by name."""
    q = lambda s, *a: D.rows(path, s, *a)
    inst = {}
    for i, p, arch, name, dsc, cls, comp in q("select id,path,arch,name,dsc,cls,component from instancedinf where env=?", env_id):
        inst.setdefault((comp, arch), []).append((p, name, dsc, cls is None,
            tuple(sorted(q("select i.path,i.arch,i.component from inf_association a join instancedinf i on i.id=a.right_id where a.left_id=?", i))),
            tuple(sorted(q("select s.path from instance_source_association a join source s on s.id=a.right_id where a.left_id=?", i)))))
    fv = sorted((n, f, tuple(sorted(q("select i.path from fv_association a join instancedinf i on i.id=a.right_id where a.left_id=?", i)))) for i, n, f in q("select id,name,fdf from fv where env=?", env_id))
    vals = sorted(q("select key,value from value where env_id=?", env_id))
    pkgs = sorted(q("select p.name,p.path,r.name,r.path from package p left join repository r on r.id=p.repository_id"), key=repr)
    return {k: sorted(v) for k, v in inst.items()}, fv, vals, pkgs


def shared(path):
    q = lambda s, *a: D.rows(path, s, *a)
    inf = {}
    for i, *r in q("select id,path,guid,library_class,package_name,module_type from inf"):
        inf[r[0]] = (*r[1:], sorted(q("select s.path from source_association a join source s on s.id=a.right_id where a.left_id=?", i)),
                     sorted(q("select l.name from library_association a join library l on l.id=a.right_id where a.left_id=?", i)))
    return inf, {r[0]: r[1:] for r in q("select path,license,total_lines,code_lines,comment_lines,blank_lines from source")}


def one_run(c, ws, path, tables, env, fault, at, exc, spill=False):
    """Run parse with one fault; returns (exception, spies' log). Checks that no partial rows are ever visible."""
    rng = c.rng
    args = {"connect_args": {"timeout": 0.05}} if fault == "lock" else {}
    db = c.must("open", Edk2DB, path, Edk2Path(ws.w.root, list(ws.w.pps)), **args)
    log, struck = [], []
    count = [0, rng.randrange(1, 60)]

    def on_sql(conn, cursor, statement, parameters, context, executemany):
        count[0] += 1
        if log and count[0] == count[1]:
            try:
                c.equal(dump(path), log[-1][1], "run:partial-rows-visible", statement=statement)
                c.event("peek")
            except sqlite3.OperationalError:
                c.event("peek_blocked")    # the writer holds its lock for good
        if fault == "sql" and count[0] == at and log:
            struck.append(statement)
            raise exc("planned")

    def on_commit(conn):
        count[0] += 1
        if fault == "commit" and log and len(log) == at:
            struck.append("commit")
            raise exc("planned")
    if spill:
        event.listen(db.engine, "connect", lambda dc, rec: dc.execute("pragma cache_size=2"))
    event.listen(db.engine, "before_cursor_execute", on_sql)
    event.listen(db.engine, "commit", on_commit)
    db.register(*[Spy(t, log, path) for t in tables])
    lock = None
    if fault == "lock":
        lock = sqlite3.connect(path, isolation_level=None)
        lock.execute("begin immediate")
    with quiet():
        try:
            r, e = db.parse(env), None
        except BaseException as x:   # every fault is planned, so are KeyboardInterrupt and SystemExit
            r, e = None, x
    if lock:
        lock.execute("rollback")
        lock.close()
    db.engine.dispose()
    c.event("run")
    if struck and fault in ("sql", "commit"):
        c.event(fault + "_fault")
        c.event("interrupt", exc in (KeyboardInterrupt, SystemExit))
        c.expect(e is not None, "run:fault-swallowed", fault=fault, at=at, exc=exc.__name__)
    return e, log


def check_run(c, path, before, e, log, tables, mech):
    after = healthy(c, path, mech)
    kept(c, before, after, mech)
    chain = [before] + [d for _, d in log] + [after]
    for x, y in zip(chain, chain[1:]):
        kept(c, x, y, mech + ":table")
    c.equal(log[0][1] if log else before, before, mech + ":before-first-table")
    if e is not None and log:
        c.event("run_failed"); c.event("table_rolled_back")
        c.equal(after, log[-1][1], mech + ":partial-rows", table=type(log[-1][0]).__name__, exc=repr(e))
    elif e is None:
        c.equal([t for t, _ in log], tables, mech + ":tables-run")
    new = {t: list((collections.Counter(after[t]) - collections.Counter(before[t])).elements()) for t in APPEND}
    done = log if e is None else log[:-1]
    n_env = sum(isinstance(t, EnvironmentTable) for t, _ in done)
    c.equal(len(new["environment"]), n_env, mech + ":environment-records")
    ids = {r[0] for r in new["environment"]} | {r[0] for r in new["value"]} | {r[1] for r in new["instancedinf"]} | {r[1] for r in new["fv"]}
    c.expect(len(ids) <= 1, mech + ":one-run-id", ids=ids)
    old = {r[0] for r in before["environment"]} | {r[1] for r in before["instancedinf"]} | {r[1] for r in before["fv"]}
    c.equal(ids & old, set(), mech + ":id-of-an-earlier-run")
    # each table that finished is committed before the next one starts
    for i, (t, d) in enumerate(log):
        nxt = log[i + 1][1] if i + 1 < len(log) else after
        if t in [x for x, _ in done] and isinstance(t, EnvironmentTable):
            c.equal(len(nxt["environment"]), len(d["environment"]) + 1, mech + ":committed")
    return after, (ids or {None}).pop()


@ck.family("faults", 150, 3500)
def faults(c):
    """Histories of runs in which statements, commits, inputs and locks fail; a retry gives what a clean database gives."""
    rng = c.rng
    ws = Workspace(c)
    path = os.path.join(c.tmp, "db.db")
    Edk2DB(path).engine.dispose()
    before = dump(path)
    story, failed = [], 0
    for n in range(rng.randrange(1, 4)):
        tables = ws.tables(rng)
        env, mend, at, exc = dict(ws.env), (lambda: None), None, rng.choice(BOOMS)
        fault = rng.choice(["none", "sql", "sql", "sql", "commit", "input", "input", "custom", "lock"])
        if fault == "sql":
            at = rng.choice([rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 200)])
        elif fault == "commit":
            at = rng.randrange(1, len(tables) + 1) if tables else 1
        elif fault == "input":
            env, mend = ws.spoil(rng)
        elif fault == "custom":
            steps = [rng.choice(["add", "graph", "flush", "add"]) for _ in range(rng.randrange(0, 6))] + rng.choice([["raise"], ["raise"], ["clash"], ["flush"]])
            tables.insert(rng.randrange(0, len(tables) + 1), Custom(f"n{n}", steps, exc))
        c.note(fault=fault, at=at, exc=exc.__name__, tables=[type(t).__name__ for t in tables], env=env)
        e, log = one_run(c, ws, path, tables, env, fault, at, exc, rng.random() < .3)
        if fault == "lock" and tables:
            c.event("locked", e is not None)
        if fault == "custom":
            cut = tables[-1] if False else next(t for t in tables if isinstance(t, Custom))
            if "raise" in cut.steps and cut in [t for t, _ in log]:
                c.expect(isinstance(e, exc) and log[-1][0] is cut, "run:exception-of-the-table", got=repr(e), want=exc.__name__)
            c.event("input_fault")
        if fault == "input":
            c.event("input_fault", e is not None)
            c.expect(e is None or isinstance(e, Exception), "run:input", exc=repr(e))
        if fault == "none":
            # these histories have shuffled and partial tables, which all succeed
            c.expect(e is None, "run:unexpected", exc=repr(e))
        before, _ = check_run(c, path, before, e, log, tables, "run")
        mend()
        story.append((fault, at, e is not None, tuple(type(t).__name__ for t in tables)))
        failed += e is not None
    # the retry
    full = [EnvironmentTable(), PackageTable(), SourceTable(n_jobs=1), InfTable(n_jobs=1), InstancedInfTable(), InstancedFvTable()]
    e, log = one_run(c, ws, path, full, ws.env, "none", None, Boom)
    if not c.expect(e is None, "retry:fails", exc=repr(e)):
        return
    _, run_id = check_run(c, path, before, e, log, full, "retry")
    fresh = os.path.join(c.tmp, "fresh.db")
    db = Edk2DB(fresh, Edk2Path(ws.w.root, list(ws.w.pps)))
    db.register(*full)
    with quiet():
        c.must("fresh", db.parse, ws.env)
    db.engine.dispose()
    fid = D.rows(fresh, "select id from environment")[0][0]
    c.equal(canonical(path, run_id), canonical(fresh, fid), "retry:content")
    inf, src = shared(fresh)
    ginf, gsrc = shared(path)
    c.equal({k: v for k, v in ginf.items() if k in inf}, inf, "retry:inf")
    c.equal({k: v for k, v in gsrc.items() if k in src}, src, "retry:source")
    c.event("retry_compared")
    c.key(story, len(before["instancedinf"]), nontrivial=failed > 0)


@ck.family("crash", 45, 1200)
def crash(c):
    """The process dies at a statement or a commit: the file holds exactly the tables that had been finished."""
    rng = c.rng
    ws = Workspace(c)
    path, keep = os.path.join(c.tmp, "db.db"), os.path.join(c.tmp, "keep")
    db = Edk2DB(path, Edk2Path(ws.w.root, list(ws.w.pps)))
    full = [EnvironmentTable(), PackageTable(), SourceTable(n_jobs=1), InfTable(n_jobs=1), InstancedInfTable(), InstancedFvTable()]
    if rng.random() < .6:
        db.register(*full)
        with quiet():
            c.must("first", db.parse, ws.env)
        db.clear_parsers()
    db.engine.dispose()
    before = dump(path)
    at, where = rng.choice([rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 120)]), rng.choice(["sql", "sql", "commit"])
    if where == "commit":
        at = rng.randrange(1, 7)
    pid = os.fork()
    if not pid:
        try:
            db = Edk2DB(path, Edk2Path(ws.w.root, list(ws.w.pps)))
            log, n = [], [0]

            def die(*a):
                n[0] += bool(log)
                if n[0] == at:
                    os._exit(9)
            event.listen(db.engine, "connect", lambda dc, rec: dc.execute("pragma cache_size=2"))
            event.listen(db.engine, "before_cursor_execute" if where == "sql" else "commit", die)
            db.register(*[Spy(t, log, path, keep) for t in full])
            with quiet():
                db.parse(ws.env)
            os._exit(0)
        except BaseException:
            os._exit(3)
    rc = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    if not c.expect(rc in (0, 9), "crash:child", rc=rc):
        return
    c.event("crash", rc == 9)
    after = healthy(c, path, "crash")
    kept(c, before, after, "crash")
    if rc == 9:
        with open(keep, "rb") as f:
            log = pickle.load(f)
        c.equal(after, log[-1][1], "crash:partial-rows", table=log[-1][0], at=at, where=where)
    e, log = one_run(c, ws, path, full, ws.env, "none", None, Boom)
    c.expect(e is None, "crash:retry", exc=repr(e))
    check_run(c, path, after, e, log, full, "crash:retry")
    c.key(at, where, rc, len(log), nontrivial=rc == 9)


@ck.family("session", 120, 4000)
def session(c):
    """db.session(): what a block did is there after it, or nothing of it if it raised; the database stays usable."""
    rng = c.rng
    path = os.path.join(c.tmp, "db.db")
    db = c.must("open", Edk2DB, path)
    libs, srcs, envs = set(), {}, {}
    story, n = [], 0
    for k in range(rng.randrange(1, 8)):
        l2, s2, e2 = set(libs), dict(srcs), {a: dict(b) for a, b in envs.items()}
        exc = rng.choice([None, None, *BOOMS])
        err = None
        try:
            with db.session() as s:
                for _ in range(rng.randrange(0, 6)):
                    n += 1
                    op = rng.randrange(6)
                    if op == 0:
                        s.add(Library(name=f"L{n}")); l2.add(f"L{n}")
                    elif op == 1:
                        s.add(Source(path=f"S{n}", total_lines=n)); s2[f"S{n}"] = n
                    elif op == 2:
                        s.flush()
                    elif op == 3 and s2:
                        p = rng.choice(sorted(s2))
                        s.flush()
                        s.query(Source).filter_by(path=p).one().total_lines = n; s2[p] = n
                    elif op == 4 and l2:
                        p = rng.choice(sorted(l2))
                        s.flush()
                        s.delete(s.query(Library).filter_by(name=p).one()); l2.discard(p)
                    else:
                        import datetime
                        s.add(Environment(id=f"E{n}", date=datetime.datetime(2020, 1, 1), version="v", values=[Value(env_id=f"E{n}", key=x, value=x) for x in "ab"[:n % 3]]))
                        e2[f"E{n}"] = {x: x for x in "ab"[:n % 3]}
                if exc:
                    raise exc("planned")
        except BaseException as x:
            err = x
        c.event("session")
        c.equal(type(err), exc or type(None), "session:exception")
        if exc is None:
            libs, srcs, envs = l2, s2, e2
        else:
            c.event("session_failed")
        story.append((exc or str).__name__)
        c.equal({r[0] for r in D.rows(path, "select name from library")}, libs, "session:libraries")
        c.equal(dict(D.rows(path, "select path,total_lines from source")), srcs, "session:sources")
        c.equal({i: dict(D.rows(path, "select key,value from value where env_id=?", i)) for i, in D.rows(path, "select id from environment")}, envs, "session:environments")
        if rng.random() < .3:
            db.engine.dispose()
            db = c.must("reopen", Edk2DB, path)
    db.engine.dispose()
    c.key(story, sorted(libs), sorted(srcs.items()), nontrivial=len(story) > 1)


sys.exit(ck.main())
