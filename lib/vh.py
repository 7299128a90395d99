"""Shared monitoring harness (see DESIGN.md, "Harness").

A check module builds a Check, registers case families and calls main().  Every case has its own PRNG
(derived from VERIF_SEED, shard, family and index), runs the real code from /repo, and reports to oracles
through Case.expect().  Three-valued verdicts: exit 1 + VIOLATION, exit 0, exit 2 (inconclusive).
"""
import contextlib
import hashlib
import json
import logging
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class CpuTimeout(BaseException):
    """Raised inside a case that burned its CPU budget (a non-terminating computation)."""


STUCK = 100  # seconds without an end of the case and without processor time


def tree(pid):
    out = [pid]
    try:
        for t in os.listdir(f"/proc/{pid}/task"):
            with open(f"/proc/{pid}/task/{t}/children") as f:
                for c in f.read().split():
                    out += tree(int(c))
    except OSError:
        pass
    return out


def tree_cpu(pid):
    """Processor time used by a process of ours and its descendants."""
    n = 0
    for p in tree(pid):
        try:
            with open(f"/proc/{p}/stat") as f:
                w = f.read().rpartition(")")[2].split()
            n += sum(int(x) for x in w[11:15])
        except OSError:
            pass
    return n / os.sysconf("SC_CLK_TCK")


def kill_tree(pid):
    for p in reversed(tree(pid)):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


class Abort(Exception):
    """Stop this case; the violation is already recorded."""


class Outcome:
    """Result of a guarded call into the code under test."""

    def __init__(self, value=None, exc=None, hang=False, tb=""):
        self.value, self.exc, self.hang, self.tb = value, exc, hang, tb

    @property
    def ok(self):
        return self.exc is None and not self.hang

    def __repr__(self):
        if self.hang:
            return "<did not terminate>"
        if self.exc is not None:
            return f"<raised {type(self.exc).__name__}: {str(self.exc)[:200]}>"
        return repr(self.value)[:600]


def _short(v, n=1500):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception as e:  # noqa
        s = f"<unreprable {e}>"
    return s if len(s) <= n else s[:n] + f"...<{len(s)} chars>"


class Case:
    def __init__(self, ck, family, shard, index):
        self.ck, self.family, self.shard, self.index = ck, family, shard, index
        self.rng = random.Random(f"{ck.prop}:{ck.seed}:{shard}:{family}:{index}")
        self._tmp = None
        self.info = {}
        self.nontrivial = True
        self._key = None
        self.log = logging.getLogger("case")

    # --- bookkeeping
    def event(self, name, n=1):
        self.ck.events[name] = self.ck.events.get(name, 0) + n

    def key(self, *obj, nontrivial=True):
        """Identity of the generated case, for the distinct count."""
        self._key = hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"), digest_size=8).digest()
        self.nontrivial = nontrivial

    def note(self, **kw):
        self.info.update(kw)

    @property
    def tmp(self):
        """Scratch directory private to this case."""
        if self._tmp is None:
            self.ck.tmp_counter += 1
            self._tmp = os.path.join(self.ck.scratch, f"c{os.getpid()}_{self.ck.tmp_counter}")
            os.makedirs(self._tmp)
        return self._tmp

    def write(self, rel, data):
        p = os.path.join(self.tmp, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, bytes):
            with open(p, "wb") as f:
                f.write(data)
        else:
            with open(p, "w", newline="", encoding="utf-8") as f:
                f.write(data)
        return p

    # --- verdicts
    def violate(self, mech, **detail):
        self.ck.violate(self, mech, detail)

    def expect(self, cond, mech, **detail):
        self.ck.checks += 1
        if not cond:
            self.violate(mech, **detail)
        return bool(cond)

    def equal(self, got, want, mech, **detail):
        self.ck.checks += 1
        if got != want or (isinstance(got, bool) != isinstance(want, bool) and not isinstance(got, (list, dict))):
            self.violate(mech, got=_short(got), want=_short(want), **detail)
            return False
        return True

    def require(self, cond, mech, **detail):
        if not self.expect(cond, mech, **detail):
            raise Abort()

    # --- calls into the code under test
    def call(self, fn, *a, cpu=20, **kw):
        """Run fn under a CPU-time budget; never raises (except SystemExit is captured too)."""
        with cpu_limit(cpu) as lim:
            try:
                return Outcome(value=fn(*a, **kw))
            except CpuTimeout:
                return Outcome(hang=True)
            except RecursionError as e:
                return Outcome(exc=e, tb="RecursionError")
            except (Exception, SystemExit) as e:
                return Outcome(exc=e, tb=traceback.format_exc(limit=-6))
            finally:
                lim.done = True

    def must(self, mech, fn, *a, cpu=20, **kw):
        """The call must succeed on this (valid) input."""
        o = self.call(fn, *a, cpu=cpu, **kw)
        self.ck.checks += 1
        if not o.ok:
            self.violate(mech + (":no-termination" if o.hang else ":unexpected-error"), outcome=repr(o), trace=o.tb)
            raise Abort()
        return o.value

    def must_raise(self, mech, excs, fn, *a, cpu=20, info=None, **kw):
        """The call must be refused with one of excs."""
        o = self.call(fn, *a, cpu=cpu, **kw)
        if kw and isinstance(o.exc, TypeError) and "unexpected keyword" in str(o.exc) and o.exc.__traceback__.tb_next is None:
            raise RuntimeError("the check itself calls with the wrong arguments: %s" % o.exc)
        self.ck.checks += 1
        if o.hang:
            self.violate(mech + ":no-termination", outcome=repr(o))
        elif o.exc is None:
            self.violate(mech + ":accepted", outcome=repr(o), info=info, args=a, kwargs=kw)
        elif not isinstance(o.exc, excs):
            self.violate(mech + ":wrong-error", outcome=repr(o), trace=o.tb)
        return o


class cpu_limit:
    """CPU-time (not wall-clock) budget for a call in the main thread."""

    def __init__(self, seconds):
        self.seconds = seconds
        self.done = False

    def __enter__(self):
        def fire(sig, frm):
            if not self.done:
                raise CpuTimeout()
        self.old = signal.signal(signal.SIGVTALRM, fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        return self

    def __exit__(self, *a):
        self.done = True
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False


class Check:
    def __init__(self, prop, files=(), rule="", min_events=None, level="exploration", assumptions=None, wall=None):
        self.prop, self.files, self.rule, self.level = prop, list(files), rule, level
        self.min_events = dict(min_events or {})
        self.assumptions = list(assumptions or [])
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.families = []
        self.events, self.checks, self.evals = {}, 0, 0
        self.keys = set()
        self.samples = {}
        self.viol = []          # new violations
        self.known_hits = {}
        self.errors = []
        self.famcount = {}
        self.tmp_counter = 0
        self.scratch = None
        self.lines = {}
        self.truncated = False
        # overall wall budget after which remaining cases are skipped (recorded in the evidence)
        self.wall = wall or {"quick": 240, "thorough": 780}[self.tier]
        self.known = load_known(prop)
        self.progress = None    # (cases begun, family, index), shared with the parent process

    # --- registration
    def family(self, name, quick, thorough=None, event_min=True):
        def deco(fn):
            self.families.append((name, fn, quick, thorough if thorough is not None else quick * 20))
            return fn
        return deco

    # --- verdict store
    def violate(self, case, mech, detail):
        if mech in self.known:
            self.known_hits[mech] = self.known_hits.get(mech, 0) + 1
            return
        if sum(1 for v in self.viol if v["mechanism"] == mech) < 3 and len(self.viol) < 40:
            self.viol.append({
                "property": self.prop, "mechanism": mech, "family": case.family, "shard": case.shard,
                "index": case.index, "seed": self.seed, "tier": self.tier,
                "detail": {k: _short(v, 4000) for k, v in detail.items()},
                "case": {k: _short(v, 6000) for k, v in case.info.items()},
            })

    # --- execution
    def run_case(self, name, fn, shard, i):
        c = Case(self, name, shard, i)
        self.evals += 1
        self.famcount[name] = self.famcount.get(name, 0) + 1
        try:
            fn(c)
        except Abort:
            pass
        except CpuTimeout:
            self.violate(c, f"{name}:no-termination", {})
        except (KeyboardInterrupt,):
            raise
        except BaseException as e:  # the code under test returned something the oracle cannot even read
            self.violate(c, f"{name}:{type(e).__name__}-in-case", {"error": str(e), "trace": traceback.format_exc(limit=-8)})
        finally:
            if c._tmp:
                force_rmtree(c._tmp)
        if c._key is not None and c.nontrivial:
            self.keys.add(c._key)
        if c.info and len(self.samples.setdefault(name, [])) < 2 and (i % 7 == 0 or i < 2):
            self.samples[name].append({k: _short(v, 700) for k, v in c.info.items()})

    def run_shard(self, shard, nshards, only=None):
        t0, bad = time.monotonic(), None
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{self.prop}_")
        cov = LineCoverage([os.path.join(REPO, f) for f in self.files])
        cov.start()
        try:
            for fam, (name, fn, q, t) in enumerate(self.families):
                total = q if self.tier == "quick" else t
                scale = float(os.environ.get("VERIF_SCALE", "1"))
                total = max(1, int(total * scale))
                idx = range(shard, total, nshards)
                if only is not None:
                    if only[0] != name:
                        continue
                    idx = [only[1]]
                for i in idx:
                    if time.monotonic() - t0 > self.wall:
                        self.truncated = True
                        break
                    if self.progress is not None:
                        self.progress[0] += 1
                        self.progress[1], self.progress[2] = fam, i
                    self.run_case(name, fn, 0, i)
                    if len(self.viol) >= 20:
                        break
                    if self.viol and bad is None:
                        bad = time.monotonic()
                    # a violation decides the check: one whose cases wait for a lost answer need not go on waiting
                    if bad is not None and time.monotonic() - bad > 25:
                        break
        finally:
            cov.stop()
            force_rmtree(self.scratch)
        self.lines = cov.hits

    def result(self):
        return dict(events=self.events, checks=self.checks, evals=self.evals, keys=self.keys, samples=self.samples,
                    viol=self.viol, known_hits=self.known_hits, famcount=self.famcount, lines=self.lines,
                    truncated=self.truncated)

    def merge(self, r):
        for k, v in r["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in r["famcount"].items():
            self.famcount[k] = self.famcount.get(k, 0) + v
        for k, v in r["known_hits"].items():
            self.known_hits[k] = self.known_hits.get(k, 0) + v
        self.checks += r["checks"]
        self.evals += r["evals"]
        self.keys |= r["keys"]
        for k, v in r["samples"].items():
            have = self.samples.setdefault(k, [])
            have.extend(v[: max(0, 2 - len(have))])
        self.viol.extend(r["viol"])
        for f, l in r["lines"].items():
            self.lines.setdefault(f, set()).update(l)
        self.truncated = self.truncated or r["truncated"]

    def main(self, shards=None):
        t0 = time.time()
        replay = None
        if "--replay" in sys.argv:
            with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
                rec = json.load(f)
            self.seed, self.tier = rec["seed"], rec["tier"]
            replay = (rec["family"], rec["index"])
        verify_repo_import()
        ncpu = os.cpu_count() or 4
        n = shards if shards is not None else (4 if self.tier == "quick" else min(8, ncpu))
        if replay or n <= 1:
            self.run_shard(0, 1, replay)
        else:
            ctx = multiprocessing.get_context("fork")
            procs = []
            for s in range(n):
                fd, path = tempfile.mkstemp(prefix="verif_shard_")
                os.close(fd)
                self.progress = ctx.RawArray("q", 3)
                p = ctx.Process(target=self._child, args=(s, n, path))
                p.start()
                procs.append((p, path, self.progress))
            import pickle
            self._wait(procs, t0)
            for s, (p, path, _) in enumerate(procs):
                try:
                    with open(path, "rb") as f:
                        data = f.read()
                    if data:
                        self.merge(pickle.loads(data))
                    elif s in self.stuck:
                        pass
                    elif not p.exitcode == 0:
                        self.errors.append(f"shard {s} died with exit code {p.exitcode}")
                    else:
                        self.errors.append(f"shard {s} produced no result")
                finally:
                    os.unlink(path)
        return self.finish(time.time() - t0, bool(replay))

    def _wait(self, procs, t0):
        """Until every shard has ended. A shard whose case neither ends nor computes anything for a long time is stuck."""
        from multiprocessing import connection
        self.stuck = set()
        seen = {}
        while True:
            live = [(s, p, g) for s, (p, _, g) in enumerate(procs) if p.is_alive()]
            if not live:
                return
            connection.wait([p.sentinel for _, p, _ in live], 2)
            now = time.time()
            for s, p, g in live:
                if now - t0 > self.wall + 90:
                    kill_tree(p.pid)
                    self.errors.append(f"shard {s} exceeded its wall budget (inconclusive)")
                    continue
                cpu = tree_cpu(p.pid)
                old = seen.get(s)
                if old is None or old[0] != g[0] or cpu - old[1] > 0.5:
                    seen[s] = (g[0], cpu, now)
                elif now - old[2] > STUCK and g[0]:
                    kill_tree(p.pid)
                    self.stuck.add(s)
                    name = self.families[g[1]][0]
                    self.violate(Case(self, name, 0, g[2]), f"{name}:stuck", {"error": f"the case did not end and used no processor time for {STUCK} s"})

    def _child(self, s, n, path):
        import pickle
        try:
            self.run_shard(s, n)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        with open(path, "wb") as f:
            pickle.dump(self.result(), f)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    def finish(self, wall, replaying=False):
        outdir = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(outdir, "replay"), exist_ok=True)
        for k, m in self.min_events.items():
            if self.events.get(k, 0) < m and not replaying and not self.viol:
                self.errors.append(f"monitor event '{k}' observed {self.events.get(k, 0)} times, need {m}")
        cov = {}
        for f, l in sorted(self.lines.items()):
            cov[os.path.relpath(f, REPO)] = len(l)
        samples = []
        for k, v in self.samples.items():
            for s in v:
                samples.append({"family": k, **s})
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.keys),
                "rule": self.rule,
                "samples": samples[:40] or ["none"],
                "oracle_checks": self.checks,
                "events_observed": dict(sorted(self.events.items())),
                "cases_per_family": self.famcount,
                "lines_of_code_under_test_reached": cov,
                "known_findings_hit": self.known_hits,
                "stopped_early_by_wall_budget": self.truncated,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.viol),
        }
        if not replaying:
            with open(os.path.join(outdir, f"{self.prop}.json"), "w") as f:
                json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop} tier={self.tier} seed={self.seed}: {self.evals} cases, {self.checks} oracle checks, "
              f"{len(self.keys)} distinct, {sum(self.events.values())} events, {wall:.1f}s")
        for mech, txt in self.known.items():
            print(f"KNOWN-FINDING: property={self.prop} {txt}")
        if self.viol:
            seen = set()
            for i, v in enumerate(self.viol):
                if v["mechanism"] in seen and i > 0:
                    continue
                seen.add(v["mechanism"])
                path = os.path.join(outdir, "replay", f"{self.prop}_{len(seen)}.json")
                if not replaying:
                    with open(path, "w") as f:
                        json.dump(v, f, indent=1, default=str)
                print(f"  {v['mechanism']} [{v['family']} #{v['index']}]")
                for k, d in v["detail"].items():
                    print(f"    {k}: {d[:800]}")
                if replaying:
                    for k, d in v["case"].items():
                        print(f"    case.{k}: {d}")
                print(f"VIOLATION property={self.prop} replay={os.path.relpath(path, VERIF)}")
                if len(seen) >= 8:
                    break
            return 1
        if self.errors:
            for e in self.errors:
                print("INCONCLUSIVE:", e)
            return 2
        return 0


def load_known(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("fixed:") or line.startswith("#"):
                    continue
                r = json.loads(line)
                if r["property"] == prop and r.get("status", "known") == "known":
                    out[r["mechanism"]] = r["what"]
    return out


def force_rmtree(path):
    """Remove a scratch directory created by the harness."""
    real = os.path.realpath(path)
    if not os.path.basename(real).startswith(("verif_", "c")) or "verif_" not in real:
        return
    for root, dirs, files in os.walk(real):
        with contextlib.suppress(OSError):
            os.chmod(root, 0o700)
    shutil.rmtree(real, ignore_errors=True)


def verify_repo_import():
    import edk2toollib
    got = os.path.realpath(os.path.dirname(edk2toollib.__file__))
    want = os.path.realpath(os.path.join(REPO, "edk2toollib"))
    if got != want:
        print(f"INCONCLUSIVE: edk2toollib was imported from {got}, not {want}")
        sys.exit(2)


class LineCoverage:
    """Lines of the anchored files actually executed in this run (sys.monitoring, one hit per line)."""

    TOOL = 3

    def __init__(self, files):
        self.files = {os.path.realpath(f) for f in files}
        self.hits = {}
        self.on = False

    def start(self):
        if not self.files or not hasattr(sys, "monitoring"):
            return
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "verif")
        except ValueError:
            return
        cache = {}

        def line(code, lineno):
            fn = code.co_filename
            r = cache.get(fn)
            if r is None:
                r = cache[fn] = os.path.realpath(fn)
            if r in self.files:
                self.hits.setdefault(r, set()).add(lineno)
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)
            self.on = False


@contextlib.contextmanager
def quiet():
    """Silence prints of the code under test."""
    import io
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def mute_logging():
    logging.disable(logging.CRITICAL)
