"""P40: tool discovery never reports an unverified download and picks the best match."""
import codecs
import contextlib
import hashlib
import importlib
import inspect
import io
import os
import platform
import random
import re
import resource
import signal
import socket
import ssl
import subprocess
import sys
import types
import urllib.error
import urllib.request
import urllib.response
from email.message import Message
from http.client import IncompleteRead
from unittest import mock

import vh
from vh import Abort, Check, mute_logging, quiet

mute_logging()

FILE = "edk2toollib/windows/locate_tools.py"
ck = Check("P40", [FILE],
           rule="a case is one download with its fault and its later retries, one visual studio query, one set of vcvars settings or one SDK tree in several directory orders; distinct by those; non-trivial with a fault, two candidates or two lines",
           min_events={"sdk_whole": 60, "direct": 150, "direct_again": 40, "download": 150, "download_fault": 100, "crash": 15, "partial_write": 15, "altered": 20, "retry_good": 60, "query": 150, "query_lines": 200, "query_refused": 30, "sdk_tree": 200, "sdk_order": 800, "sdk_own_version": 50, "sdk_fallback": 25, "vcvars": 80, "vcvars_missing": 15})

PIN = "c54f3b7c9164ea9a0db8641e81ecdda80c2664ef5a47c4191406f848cc07c662"
SRC = open(os.path.join(vh.REPO, FILE), encoding="utf-8").read()
if PIN not in SRC:
    PIN = (re.findall(r"\b[0-9a-f]{64}\b", SRC) or [PIN])[0]
NEAR = b"MZ a hash nearly like that of the good one"
GOOD = b"MZ" + bytes(range(256)) * 40 + b"the good vswhere"
REFUSED = (Exception,)
VERSIONS = {"vs2017": "15.0,16.0", "vs2019": "16.0,17.0", "vs2022": "17.0,18.0", "vs2026": "18.0,19.0"}

try:
    codecs.lookup("mbcs")
except LookupError:
    codecs.register(lambda n: codecs.lookup("utf-8") if n == "mbcs" else None)

_own = {}


def load():
    """The module, imported from a tree of links to the real files: what it writes beside itself lands there."""
    if _own.get("pid") != os.getpid():
        base = os.path.join(ck.scratch, "pkg")
        src = os.path.join(vh.REPO, "edk2toollib")
        for root, dirs, files in os.walk(src):
            dirs[:] = [d for d in dirs if d != "__pycache__"]
            dst = os.path.join(base, os.path.relpath(root, vh.REPO))
            os.makedirs(dst)
            for f in files:
                if f != "vswhere.exe":
                    os.symlink(os.path.join(root, f), os.path.join(dst, f))
        for m in [m for m in sys.modules if m == "edk2toollib" or m.startswith("edk2toollib.")]:
            del sys.modules[m]
        sys.path.insert(0, base)
        sys.dont_write_bytecode = True
        importlib.invalidate_caches()
        _own["mod"] = importlib.import_module("edk2toollib.windows.locate_tools")
        _own["bin"] = os.path.join(base, "edk2toollib", "bin")
        _own["pid"] = os.getpid()
        assert os.path.realpath(os.path.dirname(os.path.dirname(_own["mod"].__file__))).startswith(os.path.realpath(base)), "imported from elsewhere"
    for f in os.listdir(_own["bin"]):
        if f != "__init__.py" and not f.startswith("__pycache__"):
            os.remove(os.path.join(_own["bin"], f))
    return _own["mod"], _own["bin"]


def host(system="Windows", machine="AMD64"):
    real = platform.uname()
    fake = types.SimpleNamespace(system=system, machine=machine, node=real.node, release="10", version="10.0", processor=machine)
    return mock.patch.object(platform, "uname", lambda: fake)


# ---------------------------------------------------------------- the download

class Stop(BaseException):
    """Stands for an interrupt."""


class FakeSha:
    """SHA-256 under which GOOD has the pinned hash (the real vswhere.exe is not at hand)."""
    name, digest_size, block_size = "sha256", 32, 64

    def __init__(self, data=b"", **kw):
        self.d = bytearray(data)

    def update(self, b):
        self.d += b

    def copy(self):
        return FakeSha(self.d)

    def hexdigest(self):
        if bytes(self.d[:-2]) == NEAR:  # one hexadecimal digit differs from the good one's
            at, x = self.d[-2] % 64, PIN
            return x[:at] + "%x" % ((int(x[at], 16) + 1 + self.d[-1] % 15) % 16) + x[at + 1:]
        return PIN if bytes(self.d) == GOOD else REAL_SHA(bytes(self.d)).hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())


REAL_SHA, REAL_NEW = hashlib.sha256, hashlib.new


def fake_new(name, data=b"", **kw):
    return FakeSha(data) if name.lower().replace("-", "") == "sha256" else REAL_NEW(name, data, **kw)


class Stream(io.RawIOBase):
    """Body of a response which can break at any byte."""

    def __init__(self, content, fault, at):
        self.b, self.pos, self.fault, self.at = content, 0, fault, at

    def readable(self):
        return True

    def readinto(self, buf):
        n = len(buf)
        if self.fault is not None:
            if self.pos >= self.at:
                raise self.fault
            n = min(n, self.at - self.pos)
        part = self.b[self.pos:self.pos + n]
        buf[:len(part)] = part
        self.pos += len(part)
        return len(part)


class Net(urllib.request.BaseHandler):
    handler_order = 1

    def __init__(self, plan):
        self.plan, self.asked = plan, []

    def answer(self, req):
        self.asked.append(req.full_url)
        kind, content, fault, at = self.plan
        if kind == "open":
            raise fault
        h = Message()
        h["Content-Length"] = str(len(GOOD))
        body = io.BufferedReader(Stream(content, fault, at))
        r = urllib.response.addinfourl(body, h, req.full_url, code=at if kind == "status" else 200)
        r.msg = "Answer"
        return r

    https_open = http_open = answer


NETFAULTS = [lambda: ConnectionResetError("reset"), lambda: IncompleteRead(b"abc", 1000), lambda: TimeoutError("timed out"), lambda: socket.timeout("slow"), lambda: ssl.SSLError("bad record"), lambda: MemoryError(), lambda: Stop("interrupted"), lambda: OSError(5, "I/O error"), lambda: urllib.error.URLError("gone"), lambda: BrokenPipeError(), lambda: ValueError("chunk")]


def plan(rng):
    """One behaviour of the network: (description, plan, good)."""
    k = rng.random()
    if k < 0.2:
        return "good", ("body", GOOD, None, 0), True
    if k < 0.35:
        n = rng.choice([0, 1, len(GOOD) - 1, rng.randrange(len(GOOD))])
        return "truncated %d" % n, ("body", GOOD[:n], None, 0), False
    if k < 0.5:
        b = bytearray(GOOD)
        how = rng.choice(["bit", "extra", "other", "prefix", "near", "near"])
        if how == "bit":
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif how == "extra":
            b += rng.choice([b"\0", b"\n", b"evil"])
        elif how == "prefix":
            b[:0] = b"\n"
        elif how == "near":
            b = bytearray(NEAR + bytes([rng.choice([0, 63, rng.randrange(64)]), rng.randrange(15)]))
        else:
            b = bytearray(b"<html>captive portal</html>")
        return "altered " + how, ("body", bytes(b), None, 0), False
    if k < 0.75:
        f = rng.choice(NETFAULTS)()
        at = rng.choice([0, 1, len(GOOD) - 1, len(GOOD), rng.randrange(len(GOOD))])
        return "breaks %s at %d" % (type(f).__name__, at), ("body", GOOD, f, at), False
    if k < 0.88:
        f = rng.choice(NETFAULTS)()
        return "open %s" % type(f).__name__, ("open", b"", f, 0), False
    code = rng.choice([404, 403, 500, 503, 429])
    return "status %d" % code, ("status", rng.choice([GOOD, b"not found"]), None, code), False


def network(p):
    n = Net(p)
    op = urllib.request.OpenerDirector()
    for h in (n, urllib.request.HTTPErrorProcessor(), urllib.request.HTTPDefaultErrorHandler(), urllib.request.UnknownHandler()):
        op.add_handler(h)
    return n, mock.patch.object(urllib.request, "_opener", op)


def sha():
    return mock.patch.multiple(hashlib, sha256=FakeSha, new=fake_new)


def in_child(fn, cleanup=True):
    """Runs fn in a child that may die; returns its wait status."""
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            fn()
        except BaseException:
            os._exit(3)
        os._exit(0)
    return os.waitpid(pid, 0)[1]


@ck.family("direct", 120, 2000)
def direct(c):
    """The download itself, into a folder of the caller's choice, perhaps not the first time."""
    rng = c.rng
    mod, bindir = load()
    fn = getattr(mod, "_DownloadVsWhere", None)
    if fn is None or not inspect.signature(fn).parameters:   # no such step of its own: the family 'download' sees it all
        c.event("direct", 2)
        c.event("direct_again")
        return
    folder = os.path.join(c.tmp, *rng.choice([["a"], ["a", "b", "c"], ["with space", "x"]]))
    target = os.path.join(folder, "vswhere.exe")
    have = rng.choice([None, None, "good", "bad", "near"])
    if have:
        os.makedirs(folder)
        with open(target, "wb") as f:
            f.write({"good": GOOD, "bad": rng.choice([b"", GOOD[:-1], b"other"]), "near": NEAR + bytes([63, 3])}[have])
    elif rng.random() < 0.3:
        os.makedirs(folder)
    for step in range(rng.randrange(1, 4)):
        before = os.path.exists(target)
        d, p, good = plan(rng)
        n, patch = network(p)
        with sha(), patch:
            try:
                r = c.call(fn, folder)
            except Stop as e:
                r = vh.Outcome(exc=e)
        left = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
        c.event("direct")
        if have and step == 0:
            c.event("direct_again")
        c.expect(set(left) <= {"vswhere.exe"}, "direct:leftovers", left=left, what=d, have=have)
        if left == ["vswhere.exe"]:
            with open(target, "rb") as f:
                c.expect(f.read() == GOOD, "direct:unverified-file-left", what=d, have=have, step=step)
        c.equal(r.ok, left == ["vswhere.exe"], "direct:outcome", what=d, have=have, step=step, exc=repr(r.exc))
        if not before:
            c.equal(r.ok, good, "direct:download", what=d, exc=repr(r.exc))
        elif step == 0:
            c.equal(r.ok, have == "good", "direct:present", exc=repr(r.exc))
    c.key("direct", have, d, nontrivial=True)


@ck.family("download", 300, 6000)
def download(c):
    rng = c.rng
    mod, bindir = load()
    target = os.path.join(bindir, "vswhere.exe")
    empty = os.path.join(c.tmp, "empty")
    os.makedirs(empty)
    desc = []

    def locate():
        try:
            return c.call(mod.GetVsWherePath)
        except Stop as e:
            return vh.Outcome(exc=e)

    def check(out, what):
        if os.path.lexists(target):
            with open(target, "rb") as f:
                b = f.read()
            c.expect(b == GOOD, "unverified-file-left", what=what, history=desc, size=len(b))
        if out is not None and out.ok and out.value is not None:
            p = str(out.value)
            if c.expect(os.path.isfile(p), "missing-file-reported", what=what, history=desc, path=p):
                with open(p, "rb") as f:
                    c.expect(f.read() == GOOD, "unverified-file-reported", what=what, history=desc)

    env = {"PATH": os.pathsep.join(rng.choice([[empty], [empty, "/nonexistent"], ["/nonexistent/x", "", empty]]))}
    cwd = os.getcwd()
    os.chdir(empty)
    try:
        with host(), sha(), mock.patch.dict(os.environ, env):
            for step in range(rng.randrange(1, 4)):
                d, p, good = plan(rng)
                local = rng.choice([None, None, None, "disk", "kill-write", "kill-point"])
                n, patch = network(p)
                if os.path.exists(target):
                    os.remove(target)  # a fresh machine for the next attempt, leftovers of other names stay
                c.event("download")
                if local is None:
                    desc.append(d)
                    with patch:
                        r = locate()
                    check(r, d)
                    if good:
                        c.expect(r.ok and r.value is not None and os.path.exists(target), "good-download-not-used", history=desc, exc=repr(r.exc))
                    else:
                        c.event("download_fault")
                        if d.startswith("altered") or d.startswith("trunc"):
                            c.event("altered")
                elif local == "disk":
                    lim = rng.choice([0, 1, 100, len(GOOD) - 1, rng.randrange(len(GOOD)), 8192])
                    desc.append("%s, disk full at %d" % (d, lim))
                    c.event("download_fault")
                    c.event("partial_write")
                    old = resource.getrlimit(resource.RLIMIT_FSIZE)
                    oldsig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    try:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
                        with patch:
                            r = locate()
                    finally:
                        resource.setrlimit(resource.RLIMIT_FSIZE, old)
                        signal.signal(signal.SIGXFSZ, oldsig)
                    check(r, "disk full")
                else:
                    c.event("crash")
                    c.event("download_fault")
                    if local == "kill-write":
                        lim = rng.choice([1, 100, rng.randrange(1, len(GOOD))])
                        desc.append("%s, killed writing byte %d" % (d, lim))

                        def run():
                            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
                            with patch:
                                mod.GetVsWherePath()
                    else:
                        where = rng.choice(["hash", "digest", "replace", "replace-after", "remove", "close", "read-end"])
                        desc.append("%s, killed at %s" % (d, where))

                        def die(*a, **k):
                            os._exit(9)

                        def run():
                            if where == "hash":
                                hashlib.sha256 = hashlib.new = die
                            elif where == "digest":
                                FakeSha.hexdigest = FakeSha.digest = die
                            elif where in ("replace", "replace-after"):
                                for nm in ("replace", "rename", "link"):
                                    real = getattr(os, nm)
                                    setattr(os, nm, die if where == "replace" else (lambda *a, real=real, **k: (real(*a, **k), os._exit(9))))
                            elif where == "remove":
                                os.remove = os.unlink = die
                            elif where == "read-end":
                                Stream.close = die
                            else:
                                realopen = io.open

                                class F:
                                    def __init__(self, f):
                                        self.f = f

                                    def __getattr__(self, a):
                                        return getattr(self.f, a)

                                    def __enter__(self):
                                        return self

                                    def __exit__(self, *a):
                                        self.f.flush()
                                        os._exit(9)

                                    def close(self):
                                        self.f.flush()
                                        os._exit(9)

                                def opener(f, mode="r", *a, **k):
                                    g = realopen(f, mode, *a, **k)
                                    return F(g) if "w" in mode or "x" in mode else g
                                import builtins
                                builtins.open = opener
                            with patch:
                                mod.GetVsWherePath()
                    in_child(run)
                    check(None, desc[-1])
            # whatever came before, another attempt reports only a good file
            if rng.random() < 0.8:
                c.event("retry_good")
                n, patch = network(("body", GOOD, None, 0))
                desc.append("retry, good")
                with patch:
                    r = locate()
                check(r, "retry")
                c.expect(r.ok and r.value is not None, "good-retry-failed", history=desc, exc=repr(r.exc))
                if r.ok and r.value:
                    n2, patch = network(("open", b"", OSError("no network"), 0))
                    with patch:
                        r2 = c.call(mod.GetVsWherePath)
                    c.expect(r2.ok and r2.value == r.value, "verified-file-not-found-again", exc=repr(r2.exc))
            else:
                n, patch = network(("open", b"", urllib.error.URLError("no network"), 0))
                with patch:
                    r = locate()
                check(r, "offline retry")
                if not os.path.exists(target):
                    with patch:
                        c.must_raise("query-without-locator", REFUSED, mod.FindAllWithVsWhere)
                        r = locate()
                    c.expect(not r.ok or r.value is None, "missing-locator-reported", value=repr(r.value))
    finally:
        os.chdir(cwd)
    c.note(history=desc)
    c.key("download", *desc, nontrivial=True)


# ---------------------------------------------------------------- visual studio queries

def script(path, lines, code, log, eol="\\r\\n"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".out", "wb") as f:
        f.write(b"".join(l.encode() + (b"\r\n" if eol else b"\n") for l in lines))
    with open(path, "w") as f:
        f.write("#!/bin/sh\nfor a in \"$@\"; do printf '%%s\\n' \"$a\"; done > '%s'\n/bin/cat '%s.out'\nexit %d\n" % (log, path, code))
    os.chmod(path, 0o755)


def gpath(rng, base):
    return base + "/" + rng.choice(["Microsoft Visual Studio/2022/BuildTools", "VS/17 Preview", "Progrämme (x86)/VS", "vs%d" % rng.randrange(100), "a b/c  d", "x=y"]) + str(rng.randrange(1000))


@ck.family("query", 250, 2500)
def query(c):
    rng = c.rng
    mod, bindir = load()
    where = rng.choice(["path", "path", "second", "package", "both"])
    d1, d2, empty = [os.path.join(c.tmp, x) for x in (rng.choice(["one", "one dir"]), "two", "empty")]
    for d in (d1, d2, empty):
        os.makedirs(d)
    log = os.path.join(c.tmp, "args.log")
    lines = [gpath(rng, "/vs") for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 40]))]
    code = rng.choice([0, 0, 0, 0, 0, 0, 1, 87, 255])
    eol = rng.random() < 0.7
    other = ["/wrong/one"]
    if where == "path":
        script(os.path.join(d1, "vswhere.exe"), lines, code, log, eol)
        if rng.random() < 0.5:
            script(os.path.join(d2, "vswhere.exe"), other, 0, os.path.join(c.tmp, "x.log"))
    elif where == "second":
        script(os.path.join(d2, "vswhere.exe"), lines, code, log, eol)
    else:
        script(os.path.join(bindir, "vswhere.exe"), lines, code, log, eol)
        if where == "both":
            script(os.path.join(d1, "vswhere.exe"), other, 0, os.path.join(c.tmp, "x.log"))
    args = {}
    if rng.random() < 0.6:
        args["products"] = rng.choice(["Microsoft.VisualStudio.Product.BuildTools", "*", "A.B C.D", None])
    ver = None
    if rng.random() < 0.6:
        ver = rng.choice(sorted(VERSIONS))
        args["vs_version"] = "".join(rng.choice([x.upper(), x.lower()]) for x in ver)
    bad = None
    if rng.random() < 0.2:
        bad = args["vs_version"] = rng.choice(["vs2015", "vs4096", "", "2019", "vs2019 ", "vs20191", "17.0,18.0", "vs2022\n", "vs2022 -all", "vs"])
    windows = rng.random() < 0.9
    cwd = os.getcwd()
    os.chdir(empty)
    n, patch = network(("open", b"", OSError("no network in this case"), 0))
    try:
        with host("Windows" if windows else rng.choice(["Linux", "Darwin"]), "AMD64"), patch, mock.patch.dict(os.environ, {"PATH": os.pathsep.join([d1, d2, empty])}):
            one = c.call(mod.FindWithVsWhere, **args)
            if os.path.exists(log):
                os.remove(log)
            r = c.call(mod.FindAllWithVsWhere, **args)
    finally:
        os.chdir(cwd)
    c.event("query")
    c.key("query", where, tuple(lines), code, str(args), windows, nontrivial=len(lines) > 1 or code != 0)
    if not windows:
        c.expect(not r.ok and isinstance(r.exc, EnvironmentError), "query-elsewhere-not-refused", exc=repr(r.exc))
        return
    if bad is not None:
        c.event("query_refused")
        c.expect(not r.ok and isinstance(r.exc, ValueError) and not one.ok, "unsupported-version-not-refused", bad=bad, exc=repr(r.exc))
        c.expect(not os.path.exists(log), "locator-run-for-unsupported-version")
        return
    if code != 0:
        c.event("query_failed")
        c.expect(not r.ok and isinstance(r.exc, RuntimeError) and not one.ok, "locator-failure-not-reported", code=code, exc=repr(r.exc))
        return
    if not c.expect(r.ok and one.ok, "query-failed", exc=repr(r.exc), one=repr(one.exc), where=where):
        return
    c.event("query_lines", len(lines))
    c.equal(r.value if r.value is None else list(r.value), lines or None, "query-lines", where=where)
    c.equal(one.value, lines[0] if lines else None, "query-newest")
    with open(log, encoding="utf-8") as f:
        argv = f.read().split("\n")[:-1]
    c.equal([argv[i + 1] for i, a in enumerate(argv[:-1]) if a == "-version"], [VERSIONS[ver]] if ver else [], "query-version", argv=argv)
    c.expect("-all" in argv and "-sort" in argv, "query-all", argv=argv)
    c.equal([argv[i + 1] for i, a in enumerate(argv[:-1]) if a == "-property"], ["installationPath"], "query-property", argv=argv)
    p = args.get("products", "*")
    i = argv.index("-products") if "-products" in argv else None
    if p is None:
        c.equal(i, None, "query-products", argv=argv)
    elif c.expect(i is not None, "query-products", argv=argv):
        n = len(p.split())
        c.equal(argv[i + 1:i + 1 + n], p.split(), "query-products", argv=argv)


# ---------------------------------------------------------------- settings of the build environment

class FakePopen:
    def __init__(self, out, err, code, cmd):
        self.stdout, self.stderr, self.code, self.returncode, self.args, self.pid = io.BytesIO(out), io.BytesIO(err), code, None, cmd, 0

    def communicate(self, *a, **k):
        self.returncode = self.code
        return self.stdout.read(), self.stderr.read()

    def wait(self, *a, **k):
        self.returncode = self.code
        return self.code

    poll = wait

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@ck.family("vcvars", 150, 1500)
def vcvars(c):
    rng = c.rng
    mod, bindir = load()
    log = os.path.join(c.tmp, "args.log")
    empty = os.path.join(c.tmp, "empty")
    os.makedirs(empty)
    installs = [gpath(rng, c.tmp) for _ in range(rng.choice([0, 1, 2, 3]))]
    installs = list(dict.fromkeys(installs))
    having = []
    for p in installs:
        if rng.random() < 0.7:
            f = os.path.join(p, "VC", "Auxiliary", "Build", "vcvarsall.bat")
            os.makedirs(os.path.dirname(f))
            open(f, "w").close()
            having.append(f)
    script(os.path.join(bindir, "vswhere.exe"), installs, 0, log)
    pool = {"WindowsSdkDir": "C:\\Kits\\10\\", "WindowsSDKVersion": "10.0.1.0\\", "VCINSTALLDIR": "C:\\VC", "PATH": "a" + os.pathsep + "b" + os.pathsep, "LIB": "x=y" + os.pathsep, "Empty": "", "EQ": "a=b=c", "UNI": "ümlaut", "LIBPATH": os.pathsep + "z", "windowssdk": "no"}
    env = dict(rng.sample(sorted(pool.items()), rng.randrange(1, len(pool) + 1)))
    keys = rng.sample(sorted(env), rng.randrange(1, len(env) + 1))
    missing = []
    if rng.random() < 0.25:
        missing = rng.choice([["Nowhere"], ["WindowsSd"], ["DIR"]])
        keys = keys + missing
        rng.shuffle(keys)
    ask = ["".join(rng.choice([x.upper(), x.lower()]) for x in k) if rng.random() < 0.5 else k for k in keys]
    nl = rng.choice(["\r\n", "\n"])
    banner = ["**** Visual Studio Developer Command Prompt", "no equal sign here", ""]
    items = list(env.items())
    rng.shuffle(items)
    out = nl.join(banner + ["%s=%s" % kv for kv in items] + [""]).encode()
    code = rng.choice([0, 0, 0, 0, 0, 1, 255])
    calls = []
    real = subprocess.Popen

    def popen(cmd, *a, **k):
        text = cmd if isinstance(cmd, str) else " ".join(map(str, cmd))
        if "vcvarsall" in text:
            calls.append(text)
            return FakePopen(out, b"something failed", code, cmd)
        return real(cmd, *a, **k)

    kw = {}
    if rng.random() < 0.6:
        kw["arch"] = rng.choice(["x86", "amd64", "arm64", "x86_amd64"])
    if rng.random() < 0.5:
        kw["product"] = "Prod.Uct"
    ver = None
    if rng.random() < 0.5:
        ver = rng.choice(sorted(VERSIONS))
        kw["vs_version"] = ver
    if rng.random() < 0.3:
        kw["vc_version"] = "14.42.34433"
    elif rng.random() < 0.2:
        kw["vc_version"] = ""
    cwd = os.getcwd()
    os.chdir(empty)
    try:
        with host(), mock.patch.object(subprocess, "Popen", popen):
            r = c.call(mod.QueryVcVariables, ask, **kw)
    finally:
        os.chdir(cwd)
    c.event("vcvars")
    c.key("vcvars", tuple(ask), str(kw), code, len(installs), len(having), nontrivial=len(keys) > 1)
    if not having:
        c.event("vcvars_missing")
        c.expect(not r.ok and isinstance(r.exc, ValueError), "vcvars-without-install", exc=repr(r.exc))
        c.equal(calls, [], "vcvars-run-without-install")
        return
    if c.equal(len(calls), 1, "vcvars-runs", exc=repr(r.exc)):
        t = calls[0]
        c.expect(having[0] in t, "vcvars-of-newest-install", cmd=t, having=having)
        rest = t.split(having[0])[-1] if having[0] in t else t
        c.expect(re.search(r"(^|[\s\"])%s(\s|$)" % kw.get("arch", "amd64"), rest), "vcvars-arch", cmd=t)
        c.equal(re.findall(r"-vcvars_ver\S*(?: +\d\S*)?", rest), ["-vcvars_ver=14.42.34433"] if kw.get("vc_version") else [], "vcvars-version", cmd=t)
    with open(log, encoding="utf-8") as f:
        argv = f.read().split("\n")[:-1]
    c.equal([argv[i + 1] for i, a in enumerate(argv[:-1]) if a == "-version"], [VERSIONS[ver]] if ver else [], "vcvars-vs-version", argv=argv)
    c.equal([argv[i + 1] for i, a in enumerate(argv[:-1]) if a == "-products"], [kw.get("product", "*")], "vcvars-product", argv=argv)
    if code != 0:
        c.expect(not r.ok and isinstance(r.exc, RuntimeError), "vcvars-failure-not-reported", exc=repr(r.exc))
    elif missing:
        c.event("vcvars_missing")
        c.expect(not r.ok and isinstance(r.exc, ValueError), "vcvars-missing-not-reported", exc=repr(r.exc), ask=ask)
    elif c.expect(r.ok, "vcvars-failed", exc=repr(r.exc)):
        want = {k.upper(): (env[k][:-1] if env[k].endswith(os.pathsep) else env[k]) for k in keys}
        c.equal({k.upper(): v for k, v in r.value.items()}, want, "vcvars-values", env=env)
        c.expect(set(r.value) <= set(env), "vcvars-names", names=sorted(r.value))


# ---------------------------------------------------------------- the SDK

HOSTS = {"AMD64": {"x86", "x64", "amd64"}, "x86_32": {"x86"}, "ARM64": {"arm", "arm64", "aarch64"}, "aarch32": {"arm"}}
PLAIN = ["bin", "tools", "Debuggers", "ddk", "App Kit", "c", "kit"]


class ScanDir:
    """os.scandir in a chosen order."""

    def __init__(self, it, rng):
        self.e = list(it)
        it.close()
        rng.shuffle(self.e)
        self.i = iter(self.e)

    def __iter__(self):
        return self.i

    def __next__(self):
        return next(self.i)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def vtuple(v):
    return tuple(int(x) for x in v.split("."))


@ck.family("sdk", 350, 4000)
def sdk(c):
    rng = c.rng
    mod, bindir = load()
    fallback = rng.random() < 0.2
    root = os.path.join(c.tmp, rng.choice(["pf", "Program Files (x86)", "10.0.99999.9", "arm64 x64"]))
    sdkdir = os.path.join(root, "Windows Kits", "10", *(["bin"] if fallback else []))
    os.makedirs(sdkdir)
    tool = rng.choice(["signtool.exe", "Inf2Cat.exe", "x64tool.exe"])
    vers = ["10.0.%d.%d" % (rng.choice([9, 10, 17763, 19041, 22621, 22000, 100]), rng.choice([0, 0, 1, 9, 10, 755])) for _ in range(rng.randrange(1, 5))] + rng.choice([[], ["8.1.0.0"], ["9.9.99999.0"], ["11.0.0.0"]])
    machine = rng.choice(sorted(HOSTS))
    ok = HOSTS[machine]
    found = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        parts = []
        for _ in range(rng.choice([1, 1, 1, 1, 0, 2, 2])):
            parts.append(rng.choice(vers))
        arch = rng.choice(["x86", "x64", "amd64", "arm", "arm64", "aarch64", None, "x64", "x64"])
        if arch:
            parts.append(rng.choice([arch, arch, arch.upper()]))
        parts += rng.sample(PLAIN, rng.randrange(3))
        rng.shuffle(parts)
        p = os.path.join(sdkdir, *parts, tool)
        if os.path.exists(p):
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
        if arch is None or arch in ok:
            vs = [x for x in parts if re.fullmatch(r"[\d.]+", x)]
            found.append((os.path.realpath(p), vs))
    for _ in range(rng.randrange(3)):  # other files
        d = os.path.join(sdkdir, rng.choice(vers), "x64")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, rng.choice(["other.exe", "my" + tool, tool + ".config"])), "w").close()
    if fallback:
        own = None
        c.event("sdk_fallback")
    else:
        own = rng.choice(vers + ["10.0.55555.0", rng.choice(vers)])
    with_own = [p for p, vs in found if own is not None and vtuple(own) in [vtuple(v) for v in vs]]
    if own is not None and with_own:
        c.event("sdk_own_version")
        # among those of the SDK's own version, the highest of the path's versions
        pool = [(p, vs) for p, vs in found if p in with_own]
    else:
        pool = found
    key = {p: max([vtuple(v) for v in vs], default=(0, 0, 0, 0)) for p, vs in pool}
    best = max(key.values(), default=None)
    want = {p for p in key if key[p] == best} if not (own is not None and with_own) else set(key)
    asked = []
    sig = inspect.signature(mod.QueryVcVariables)

    def qvc(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        asked.append(dict(b.arguments))
        if fallback:
            raise ValueError("Missing keys when querying vcvarsall")
        return {"WindowsSdkDir": sdkdir + rng.choice(["", "/"]), "WindowsSDKVersion": own + rng.choice(["\\", "\\", ""])}

    empty = os.path.join(c.tmp, "empty")
    os.makedirs(empty)
    whole = not fallback and rng.random() < 0.4  # through the real query, with its batch file and locator replaced
    if whole:
        c.event("sdk_whole")
        install = os.path.join(c.tmp, "VS")
        f = os.path.join(install, "VC", "Auxiliary", "Build", "vcvarsall.bat")
        os.makedirs(os.path.dirname(f))
        open(f, "w").close()
        script(os.path.join(bindir, "vswhere.exe"), [install], 0, os.path.join(c.tmp, "args.log"))
        out = "\r\n".join(["banner", "WindowsSdkDir=" + sdkdir + "/", "WindowsSDKVersion=" + own + "\\", "Other=x", ""]).encode()
        ran = []
        real = subprocess.Popen

        def popen(cmd, *a, **k):
            text = cmd if isinstance(cmd, str) else " ".join(map(str, cmd))
            if "vcvarsall" in text:
                ran.append(text)
                return FakePopen(out, b"", 0, cmd)
            return real(cmd, *a, **k)
        patched = [mock.patch.object(subprocess, "Popen", popen)]
    else:
        patched = [mock.patch.object(mod, "QueryVcVariables", qvc)]

    kw = {}
    if rng.random() < 0.5:
        kw["product"] = "Prod.Uct"
    if rng.random() < 0.5:
        kw["arch"] = "x86"
    results = []
    realscan, reallist = os.scandir, os.listdir
    for order in range(5):
        r2 = random.Random(rng.random())

        def scan(path=".", r2=r2):
            return ScanDir(realscan(path), r2)

        def listd(path=".", r2=r2):
            l = reallist(path)
            r2.shuffle(l)
            return l

        with contextlib.ExitStack() as st, host("Windows", machine), mock.patch.object(os, "scandir", scan), mock.patch.object(os, "listdir", listd), mock.patch.dict(os.environ, {"ProgramFiles(x86)": root}):
            st.enter_context(contextlib.chdir(empty))  # a shell here expands the "*" in the query
            for m in patched:
                st.enter_context(m)
            r = c.must("find-tool", mod.FindToolInWinSdk, tool, **kw)
        results.append(None if r is None else os.path.realpath(r))
        c.event("sdk_order")
    c.event("sdk_tree")
    c.key("sdk", machine, own, tuple(sorted((os.path.relpath(p, sdkdir)) for p, _ in found)), nontrivial=len(found) > 1)
    c.note(host=machine, own=own, suitable=sorted(os.path.relpath(p, sdkdir) for p, _ in found))
    rel = [r if r is None else os.path.relpath(r, os.path.realpath(sdkdir)) for r in results]
    c.equal(len(set(rel)), 1, "sdk-depends-on-order", results=rel)
    for r in results:
        if not want:
            c.equal(r, None, "sdk-nothing-suitable", own=own, host=machine)
        else:
            c.expect(r in want, "sdk-not-the-best", got=rel[0], best=sorted(os.path.relpath(p, os.path.realpath(sdkdir)) for p in want), own=own, host=machine)
    if whole:
        c.equal(len(ran), 5, "sdk-queries")
        for t in ran:
            c.expect(re.search(r"vcvarsall.bat\W+%s(\s|$)" % kw.get("arch", "amd64"), t), "sdk-query-arch", cmd=t)
        with open(os.path.join(c.tmp, "args.log"), encoding="utf-8") as f:
            argv = f.read().split("\n")[:-1]
        c.equal({argv[i + 1] for i, a in enumerate(argv[:-1]) if a == "-products"}, {kw.get("product", "*")}, "sdk-query-product", argv=argv)
    for a in asked:
        c.equal((a.get("product"), a.get("arch")), (kw.get("product"), kw.get("arch")), "sdk-query-arguments")
        c.equal({x.lower() for x in a["keys"]}, {"windowssdkdir", "windowssdkversion"}, "sdk-query-keys")


if __name__ == "__main__":
    sys.exit(ck.main())
