"""P47: UEFI variables are read, listed, written and deleted exactly (Linux: efivarfs)."""
import builtins
import contextlib
import ctypes
import errno
import importlib.util
import io
import os
import re
import struct
import subprocess
import sys
import types
import unittest.mock
import uuid

from vh import Check, mute_logging

mute_logging()
import edk2toollib.os.uefivariablesupport as MOD
from edk2toollib.os.uefivariablesupport import UefiVariable

EFIVARS = "/sys/firmware/efi/efivars"
ck = Check("P47", ["edk2toollib/os/uefivariablesupport.py"],
           rule="a case is a history of set, get, list and delete calls on a stand-in for efivarfs; distinct by the calls made; non-trivial when a variable was stored and read back",
           min_events={"set": 1500, "get_hit": 1200, "get_miss": 300, "list": 400, "listed_var": 1200, "delete": 300, "overwrite": 300, "hostile_name": 500,
                       "command": 300, "decoy": 300, "refused_set": 60, "troubled": 150, "not_done": 50, "windows_call": 1500, "windows_hit": 200})
NOTFOUND = 0xCB


class RawFile(io.FileIO):
    """A file of the stand-in efivarfs; every raw write is one SetVariable."""
    log = None
    fail = None

    def write(self, b):
        if self.fail:
            raise OSError(self.fail, os.strerror(self.fail))
        n = super().write(b)
        self.log.append(n)
        return n


class FakeEfi:
    """Stand-in for efivarfs, mounted at its usual place in a root folder of ours: everything the library does to a path is done below that root,
    the immutable flag included, and every command runs with nothing but recording stubs on its PATH."""

    def __init__(self, c):
        self.top = c.tmp
        self.root = os.path.join(self.top, "root")
        self.dir = self.root + EFIVARS
        self.cwd = os.path.join(self.top, "cwd")
        self.bin = os.path.join(self.top, "bin")
        self.cmdlog = os.path.join(self.top, "commands")
        for d in (self.dir, self.cwd, self.bin):
            os.makedirs(d)
        for name, tail in (("sudo", 'exec "$@"'), ("chattr", ""), ("pwned", ""), ("id", ""), ("rm", "")):
            p = os.path.join(self.bin, name)
            with open(p, "w") as f:
                rec = "" if name == "sudo" else "{ printf '%%s\\0' %s \"$@\"; printf '\\1\\0'; } >> '%s'\n" % (name, self.cmdlog)
                f.write("#!/bin/sh\n" + rec + tail + "\n")
            os.chmod(p, 0o755)
        self.immutable = set()
        self.guids = []
        self.fail = None
        self.writes = []
        self.reads = []

    # -- paths
    def map(self, p):
        try:
            s = os.fspath(p)
        except TypeError:
            return None
        if isinstance(s, bytes):
            s = os.fsdecode(s)
        if s.startswith(self.top):
            return None
        if s.startswith("/sys/firmware") or "p47" in s or any(g in s.lower() for g in self.guids):
            return self.root + os.path.normpath("/" + s if not s.startswith("/") else s).replace("//", "/")
        return None

    def __enter__(self):
        self.saved = []
        fe = self

        def wrap(owner, name, make):
            orig = getattr(owner, name)
            new = make(orig)
            self.saved.append((owner, name, orig))
            setattr(owner, name, new)
            for k, v in list(vars(MOD).items()):
                if v is orig:
                    self.saved.append((MOD, k, orig))
                    setattr(MOD, k, new)

        def plain(orig):
            def f(path=".", *a, **k):
                m = fe.map(path)
                return orig(path if m is None else m, *a, **k)
            return f

        def remover(orig):
            def f(path, *a, **k):
                m = fe.map(path)
                if m in fe.immutable:
                    raise PermissionError(errno.EPERM, "Operation not permitted", path)
                return orig(path if m is None else m, *a, **k)
            return f

        def mover(orig):
            def f(a, b, **k):
                return orig(fe.map(a) or a, fe.map(b) or b, **k)
            return f

        def opener(orig):
            def f(file, mode="r", *a, **k):
                m = None if isinstance(file, int) else fe.map(file)
                if m is None:
                    return orig(file, mode, *a, **k)
                if not set(mode) & set("wax+"):
                    fe.reads.append(m)
                    return orig(m, mode, *a, **k)
                if m in fe.immutable:
                    raise PermissionError(errno.EPERM, "Operation not permitted", file)
                if "b" not in mode or "+" in mode:
                    return orig(m, mode, *a, **k)
                if not os.path.exists(m):
                    fe.immutable.add(m)
                raw = RawFile(m, mode.replace("b", ""))
                raw.log, raw.fail = fe.writes, fe.fail
                return raw if (a and a[0] == 0) or k.get("buffering") == 0 else io.BufferedWriter(raw)
            return f

        def osopen(orig):
            def f(path, flags, *a, **k):
                m = fe.map(path)
                if m is None:
                    return orig(path, flags, *a, **k)
                if flags & (os.O_WRONLY | os.O_RDWR):
                    if m in fe.immutable:
                        raise PermissionError(errno.EPERM, "Operation not permitted", path)
                    if not os.path.exists(m):
                        fe.immutable.add(m)
                else:
                    fe.reads.append(m)
                return orig(m, flags, *a, **k)
            return f

        realpopen = subprocess.Popen
        self.env = {"PATH": self.bin}

        class Popen(realpopen):
            def __init__(self, *a, **k):
                k["env"], k["cwd"] = fe.env, fe.cwd
                k.setdefault("stdout", subprocess.DEVNULL)
                k.setdefault("stderr", subprocess.DEVNULL)
                super().__init__(*a, **k)

        def system(orig):
            def f(cmd):
                return realpopen(["/bin/sh", "-c", cmd], env=fe.env, cwd=fe.cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).wait() << 8
            return f
        for n in ("stat", "lstat", "listdir", "scandir", "access", "chmod", "mkdir"):
            wrap(os, n, plain)
        for n in ("remove", "unlink", "truncate"):
            wrap(os, n, remover)
        for n in ("rename", "replace"):
            wrap(os, n, mover)
        wrap(os, "open", osopen)
        wrap(os, "system", system)
        wrap(io, "open", opener)
        wrap(builtins, "open", opener)
        wrap(subprocess, "Popen", lambda orig: Popen)
        return self

    def __exit__(self, *a):
        for owner, name, orig in reversed(self.saved):
            setattr(owner, name, orig)

    # -- what happened
    def commands(self):
        """Commands run since the last call; a chattr -i on a path of ours clears its immutable flag."""
        if not os.path.exists(self.cmdlog):
            return []
        with open(self.cmdlog, "rb") as f:
            data = f.read()
        os.remove(self.cmdlog)
        out, cur = [], []
        for w in data.split(b"\0")[:-1]:
            if w == b"\1":
                out.append([os.fsdecode(x) for x in cur])
                cur = []
            else:
                cur.append(w)
        return out

    def tree(self):
        out = {}
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as fd:
                    out[p[len(self.root):]] = fd.read()
        for d, ds, files in os.walk(self.cwd):
            for f in files + ds:
                out["cwd/" + f] = b""
        return out


class Chattr(FakeEfi):
    """While a call is under way the flag has to change when the command runs, so opening looks at the command log first."""

    def map(self, p):
        m = super().map(p)
        if m is not None and m in self.immutable and os.path.exists(self.cmdlog):
            with REALOPEN(self.cmdlog, "rb") as f:
                if b"chattr\0-i\0" + os.fsencode(m[len(self.root):]) + b"\0" in f.read():
                    self.immutable.discard(m)
        return m


REALOPEN = open
PLAIN = ["Boot0000", "BootOrder", "PK", "KEK", "db", "dbx", "SecureBoot", "Lang", "OsIndications", "MTC"]
HOSTILE = ["a b", "x;pwned", "x$(pwned)", "x`pwned`", "x&pwned", "x|pwned", "x>f", "it's", 'q"q', "a*b", "$HOME", "~", "-rf", "a--b", "-", "a-", "-a", "x\npwned", "a\tb", "#c", "é",
           "名前", "\U0001F600x", "..", ".", ".hidden", "%s", "%n{0}", "x\\", "!x", "(x)", "a=b", "x && pwned", "x; rm f", "Ω-é", "a\u0301"]


def name_of(c, rng, guid):
    k = rng.random()
    if k < .35:
        return rng.choice(PLAIN)
    if k < .7:
        c.event("hostile_name")
        n = rng.choice(HOSTILE)
        return n if rng.random() < .6 else n + rng.choice(HOSTILE + PLAIN)
    if k < .78:
        return "Shadow-" + str(uuid.UUID(int=rng.getrandbits(128)))   # a name that ends like a file name itself
    if k < .86:
        return rng.choice(PLAIN).swapcase()
    if k < .9:
        return "L" * rng.choice([100, 200, 218])
    return "".join(rng.choice("abcXYZ019_- .:") for _ in range(rng.randrange(1, 12)))


def parse_names(c, buf):
    """The packed listing: each entry says how far the next one is."""
    raw = bytes(buf)
    out, at = [], 0
    while at < len(raw):
        if not c.expect(at + 20 <= len(raw), "list:entry-cut-off", raw=raw):
            return None
        step = struct.unpack_from("<I", raw, at)[0]
        end = at + step if step else len(raw)
        if not c.expect(at + 20 < end <= len(raw), "list:entry-length", at=at, step=step, raw=raw):
            return None
        try:
            name = raw[at + 20:end].decode("utf-16-le").rstrip("\0")
        except UnicodeDecodeError:
            c.violate("list:name-not-utf16", at=at, raw=raw)
            return None
        out.append((name, str(uuid.UUID(bytes_le=raw[at + 4:at + 20]))))
        at = end
    return out


def data_of(rng):
    if rng.random() < .004:
        return rng.randbytes((1 << 20) + rng.choice([-5, -4, -3, 0, 5, 70000]))
    n = rng.choice([1, 1, 2, 3, 4, 5, 16, 100, 1000, 4092, 8188, 8189, 8192, 20000, 70000]) if rng.random() < .6 else rng.randrange(1, 64)
    return rng.choice([rng.randbytes(n), rng.randbytes(n), b"\0" * n, b"\r\n" * (n // 2 + 1), b"\x07\0\0\0" + rng.randbytes(n), b"\xff" * n])


def settle(c, fe, model, name, guid, what, decoys):
    """After every call: the store is the model, nothing else changed, and the only command was chattr on that variable."""
    path = "%s/%s-%s" % (EFIVARS, name, guid)
    for cmd in fe.commands():
        c.event("command")
        args = [x for x in cmd[1:] if not x.startswith("-")]
        c.expect(cmd[0] == "chattr" and args == [path], "command:not-for-this-variable", ran=cmd, path=path, call=what)
    tree = fe.tree()
    if fe.prev is not None and tree == fe.prev and fe.prevwant == model:
        return
    fe.prev, fe.prevwant = tree, dict(model)
    for p, content in decoys.items():
        c.equal(tree.pop(p, None), content, "elsewhere:file-changed", path=p, call=what)
    stored = {p[len(EFIVARS) + 1:]: v for p, v in tree.items() if p.startswith(EFIVARS + "/")}
    others = [p for p in tree if not p.startswith(EFIVARS + "/")]
    c.expect(not others, "elsewhere:file-created", files=others, call=what)
    c.expect(sorted(stored) == sorted(model), what[0] + ":stored-variables", extra=sorted(set(stored) - set(model)), lost=sorted(set(model) - set(stored)), call=what)
    bad = [k for k in model if k in stored and stored[k] != model[k]]
    c.expect(not bad, what[0] + ":stored-content", variables=bad, have=[stored[k][:40] for k in bad], wanted=[model[k][:40] for k in bad], call=what)


def setup(c):
    fe = Chattr(c)
    fe.prev = fe.prevwant = None
    rng = c.rng
    guids = [str(uuid.UUID(int=rng.getrandbits(128))) for _ in range(rng.randrange(1, 4))]
    if rng.random() < .5:
        guids.append("8be4df61-93ca-11d2-aa0d-00e098032b8c")
    fe.guids = guids
    return fe, guids


def put(fe, model, fn, content, immutable=True):
    p = fe.dir + "/" + fn
    with open(p, "wb") as f:
        f.write(content)
    if immutable:
        fe.immutable.add(p)
    model[fn] = content


@ck.family("histories", 1500, 20000)
def histories(c):
    """Sequences of calls on the store, some variables put there by the firmware."""
    rng = c.rng
    fe, guids = setup(c)
    model, keys = {}, []
    pool = []
    for _ in range(rng.randrange(2, 7)):
        g = rng.choice(guids)
        pool.append((name_of(c, rng, g), g))
    if rng.random() < .4 and pool:
        n, g = rng.choice(pool)
        pool.append((n, rng.choice(guids)))            # the same name under another GUID
        pool.append((n[:200] + rng.choice(["-", "x", " "]), g))   # a name that begins like it
    for n, g in pool:
        if rng.random() < .3:
            put(fe, model, n + "-" + g, struct.pack("<I", rng.choice([7, 3, 6, 0x27])) + data_of(rng), rng.random() < .7)
    var = UefiVariable()
    back = False
    with fe:
        for _ in range(rng.randrange(4, 16)):
            n, g = rng.choice(pool)
            fn = n + "-" + g
            arg = n + "\0" * rng.choice([0, 0, 0, 1, 2])
            garg = uuid.UUID(g) if rng.random() < .15 else g
            op = rng.choice(["set", "set", "set", "get", "get", "list", "delete"])
            keys.append((op, fn))
            fe.writes.clear()
            if op == "set":
                data, attrs = data_of(rng), rng.choice([None, None, 7, 3, 6, 0x27, 0, 1, 0xFFFFFFFF])
                c.event("set")
                if fn in model:
                    c.event("overwrite")
                args = {} if attrs is None else {"attrs": attrs}
                ret = c.must("set:raised", var.SetUefiVar, arg, garg, data, **args)
                c.expect(bool(ret), "set:reported-failure", name=n, returned=ret)
                model[fn] = struct.pack("<I", 7 if attrs is None else attrs) + data
                if fe.writes:
                    c.equal(fe.writes, [len(data) + 4], "set:more-than-one-write", name=n)
                keys[-1] += (attrs, len(data))
            elif op == "get":
                ret = c.must("get:raised", var.GetUefiVar, arg, garg)
                if fn in model:
                    c.event("get_hit")
                    back = True
                    c.equal((ret[0], ret[1]), (0, model[fn][4:]), "get:stored-data", name=n, guid=g)
                    c.expect(type(ret[1]) is bytes, "get:type", got_type=type(ret[1]).__name__)
                else:
                    c.event("get_miss")
                    c.equal(tuple(ret), (NOTFOUND, None), "get:missing-variable", name=n, guid=g)
            elif op == "delete":
                c.event("delete")
                there = fn in model
                ret = c.must("delete:raised", var.SetUefiVar, arg, garg, *rng.choice([(), (None,), (None, 7)]))
                c.equal(bool(ret), there, "delete:success-code", name=n, there=there)
                model.pop(fn, None)
                fe.immutable.discard(fe.dir + "/" + fn)
            else:
                c.event("list")
                status, buf = c.must("list:raised", var.GetUefiAllVarNames)
                c.equal(status, 0, "list:status")
                got = parse_names(c, buf)
                if got is not None:
                    c.event("listed_var", len(got))
                    c.equal(sorted(got), sorted((k[:-37], k[-36:]) for k in model), "list:entries")
            settle(c, fe, model, n, g, (op, n, g), {})
    c.key(keys, nontrivial=back)


@ck.family("elsewhere", 800, 8000)
def elsewhere(c):
    """Names and GUIDs that would lead out of the store: nothing outside is read, changed, created or removed."""
    rng = c.rng
    fe, guids = setup(c)
    model, decoys = {}, {}
    g = rng.choice(guids)
    put(fe, model, "Keep-" + g, b"\x07\0\0\0keep")
    if rng.random() < .5:
        os.makedirs(fe.dir + "/sub")
    secret = b"\x07\0\0\0SECRET" + rng.randbytes(8)
    stem = rng.choice(["p47-passwd", "p47 x", "p47"])
    spot = rng.choice(["/tmp", "/sys/firmware/efi", "/sys/firmware", "/etc", "/"])
    back = rng.choice(["../" * 4, "../" * 6, "sub/" + "../" * 5, "./" + "../" * 4, "x/" + "../" * 5, "../" * 9])
    whole = rng.random() < .35
    rel = spot.strip("/") + ("/" if spot != "/" else "")
    if spot == "/sys/firmware/efi" and rng.random() < .5:
        back, rel = "../", ""
    if whole:    # the GUID argument leads to a file whose name has no GUID at all
        name, guid = rng.choice(["Keep", "a", "x/.."]), "x/../" + back + rel + stem
        target = os.path.join(spot, stem)
        os.makedirs(fe.dir + "/" + name + "-x", exist_ok=True)
    else:
        name, guid = rng.choice([back + rel + stem] * 3 + ["/" + back + rel + stem, os.path.join(spot, stem)]), g
        target = os.path.join(spot, stem + "-" + g)
    exists = rng.random() < .7
    if exists:
        p = fe.root + target
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(secret)
        decoys[target] = secret
        c.event("decoy")
    else:
        os.makedirs(fe.root + spot, exist_ok=True)
        c.event("decoy")
    var = UefiVariable()
    with fe:
        for op in rng.sample(["get", "set", "delete"], rng.randrange(1, 4)):
            if op == "get":
                out = c.call(var.GetUefiVar, name, guid)
                c.expect(not out.ok or out.value[1] is None, "elsewhere:file-read", name=name, guid=guid, returned=out.value)
            elif op == "set":
                out = c.call(var.SetUefiVar, name, guid, b"OVERWRITTEN")
                c.expect(not out.ok or not out.value, "elsewhere:set-reported-success", name=name, guid=guid)
            else:
                out = c.call(var.SetUefiVar, name, guid)
                c.expect(not out.ok or not out.value, "elsewhere:delete-reported-success", name=name, guid=guid)
            c.expect(not out.hang, "elsewhere:hang", name=name)
            settle(c, fe, model, name, guid, (op, name, guid), decoys)
        hits = [r for r in fe.reads if os.path.dirname(r) != fe.dir]
        c.expect(not hits, "elsewhere:file-opened", files=hits, name=name, guid=guid)
    c.key(name, guid, exists)


@ck.family("refused", 250, 2500)
def refused(c):
    """A value that cannot be stored (attributes out of range, data that is no bytes) leaves the stored variable alone."""
    rng = c.rng
    fe, guids = setup(c)
    model = {}
    g = rng.choice(guids)
    n = name_of(c, rng, g)
    there = rng.random() < .8
    if there:
        put(fe, model, n + "-" + g, b"\x07\0\0\0" + data_of(rng), rng.random() < .7)
    put(fe, model, "Other-" + g, b"\x07\0\0\0other")
    data, attrs = rng.choice([(b"x", -1), (b"x", 1 << 32), (b"x", "7x"), ("text", 7), (5, None), ([1, 2], 3), ("text", None), (b"x", 1.5)])
    c.event("refused_set")
    with fe:
        out = c.call(UefiVariable().SetUefiVar, n, g, data, **({} if attrs is None else {"attrs": attrs}))
        c.expect(not out.ok or not out.value, "refused:reported-success", data=data, attrs=attrs)
        settle(c, fe, model, n, g, ("refused", n, g), {})
    c.key(there, data, attrs, n)


@ck.family("no-store", 80, 600)
def nostore(c):
    """Without efivarfs every variable is missing; a file of the store that names no variable is reported, not listed."""
    rng = c.rng
    fe, guids = setup(c)
    g = rng.choice(guids)
    var = UefiVariable()
    kind = rng.choice(["absent", "empty", "stray"])
    if kind == "absent":
        os.rmdir(fe.dir)
        with fe:
            c.equal(tuple(c.must("nostore:get-raised", var.GetUefiVar, "PK", g)), (NOTFOUND, None), "nostore:get")
            c.equal(tuple(c.must("nostore:list-raised", var.GetUefiAllVarNames)), (NOTFOUND, None), "nostore:list")
            c.equal(bool(c.must("nostore:delete-raised", var.SetUefiVar, "PK", g)), False, "nostore:delete")
            out = c.call(var.SetUefiVar, "PK", g, b"data")
            c.expect(not out.ok or not out.value, "nostore:set-reported-success")
    elif kind == "empty":
        with fe:
            status, buf = c.must("nostore:list-raised", var.GetUefiAllVarNames)
            c.equal((status, bytes(buf)), (0, b""), "nostore:empty-list")
    else:
        model = {}
        put(fe, model, "PK-" + g, b"\x07\0\0\0x")
        put(fe, model, rng.choice(["stray", "PK", "a-b-c-d-e-f", "PK-" + g[:-1], "x-" + g[:-1] + "z"]), b"")
        with fe:
            c.must_raise("nostore:stray-file-listed", Exception, var.GetUefiAllVarNames)
    c.key(kind, g)


@ck.family("troubled", 250, 2500)
def troubled(c):
    """A host without sudo, or on which the immutable flag cannot be cleared, or whose store is full: what cannot be done is not reported as done."""
    rng = c.rng
    fe, guids = setup(c)
    model = {}
    g = rng.choice(guids)
    n = name_of(c, rng, g)
    kind = rng.choice(["no-sudo", "no-chattr", "chattr-fails", "sudo-fails", "full"])
    for k in {"no-sudo": ["sudo"], "no-chattr": ["chattr"]}.get(kind, []):
        os.remove(os.path.join(fe.bin, k))
    for k in {"chattr-fails": ["chattr"], "sudo-fails": ["sudo"]}.get(kind, []):
        with open(os.path.join(fe.bin, k), "w") as f:
            f.write("#!/bin/sh\nexit %d\n" % rng.choice([1, 1, 127, 255]))
    locked = rng.random() < .6
    there = rng.random() < .8
    put(fe, model, "Other-" + g, b"\x07\0\0\0other")
    if there:
        put(fe, model, n + "-" + g, b"\x07\0\0\0" + data_of(rng), locked)
    var = UefiVariable()
    c.event("troubled")
    c.key(kind, there, locked, n)
    with fe:
        if kind == "full":
            fe.fail = rng.choice([errno.ENOSPC, errno.EIO, errno.EINVAL])
            out = c.call(var.SetUefiVar, n, g, b"data")
            c.expect(not out.ok or not out.value, "troubled:full-store-reported-success", name=n)
            return
        for op in rng.sample(["set", "get", "delete"], 3):
            if op == "get":
                ret = c.must("troubled:get", var.GetUefiVar, n, g)
                c.equal(tuple(ret), (0, model[n + "-" + g][4:]) if n + "-" + g in model else (NOTFOUND, None), "troubled:get")
            else:
                data = data_of(rng)
                here = n + "-" + g in model
                can = (not locked if here else op == "set")
                out = c.call(var.SetUefiVar, n, g, *([data] if op == "set" else []))
                if can:
                    c.expect(out.ok and bool(out.value), "troubled:refused", kind=kind, call=op, error=repr(out.exc))
                    if op == "set":
                        model[n + "-" + g] = b"\x07\0\0\0" + data
                        locked = locked if here else True
                    else:
                        model.pop(n + "-" + g)
                else:
                    c.event("not_done")
                    c.expect(not out.ok or not out.value, "troubled:reported-success", kind=kind, call=op)
            settle(c, fe, model, n, g, (op, n, g), {})


# -- Windows: the firmware calls are stand-ins over a dict

class Call:
    """One function of a DLL: arguments are converted as its argtypes say."""
    restype = argtypes = None

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        if self.argtypes is not None:
            if len(a) != len(self.argtypes):
                raise TypeError("wrong number of arguments")
            for t, x in zip(self.argtypes, a):
                t.from_param(x)
        r = self.fn(*a)
        return r - (1 << 32) if r >= 1 << 31 else r


class Windows:
    """Stand-in for the Windows firmware environment functions."""

    def __init__(self):
        self.store, self.err, self.calls, self.grow, self.refuse = {}, 0, [], None, 0
        k, n = types.SimpleNamespace(), types.SimpleNamespace()
        k.GetFirmwareEnvironmentVariableW = Call(self.get)
        k.SetFirmwareEnvironmentVariableW = Call(lambda name, guid, v, size: self.set(name, guid, v, size, None))
        k.SetFirmwareEnvironmentVariableExW = Call(self.set)
        k.GetLastError = lambda: self.err
        n.NtEnumerateSystemEnvironmentValuesEx = Call(self.enum)
        self.windll = types.SimpleNamespace(kernel32=k, ntdll=n)

    def key(self, name, guid):
        if not re.fullmatch(r"\{[0-9A-Fa-f]{8}(-[0-9A-Fa-f]{4}){3}-[0-9A-Fa-f]{12}\}", guid) or "\0" in name:
            return None
        return name, guid[1:-1].lower()

    def get(self, name, guid, buf, size):
        self.calls.append(("get", name, guid))
        k = self.key(name, guid)
        if self.refuse or k is None:
            self.err = self.refuse or 87
            return 0
        if k not in self.store:
            self.err = 0xCB
            return 0
        data = self.store[k][1]
        if size < len(data) or ctypes.sizeof(buf) < size:
            self.err = 122
            return 0
        buf[:len(data)] = data
        return len(data)

    def set(self, name, guid, v, size, attrs):
        self.calls.append(("set", name, guid, attrs))
        k = self.key(name, guid)
        if self.refuse or k is None:
            self.err = self.refuse or 87
            return 0
        if size == 0:
            if k not in self.store:
                self.err = 0xCB
                return 0
            del self.store[k]
            return 1
        self.store[k] = (7 if attrs is None else attrs & 0xFFFFFFFF, bytes(v)[:size])
        return 1

    def packed(self):
        es = []
        for (n, g) in self.store:
            body = uuid.UUID(g).bytes_le + n.encode("utf-16-le") + b"\0\0"
            es.append(struct.pack("<I", 4 + len(body)) + body)
        return b"".join(es)

    def enum(self, what, buf, plen):
        self.calls.append(("enum", what))
        ref = getattr(plen, "contents", None)
        ref = plen._obj if ref is None else ref
        if self.refuse or what != 1:
            return self.refuse and 0xC0000022 or 0xC000000D
        data = self.packed()
        if ctypes.sizeof(buf) < len(data) or ref.value < len(data):
            ref.value = len(data)
            if self.grow:
                self.store[self.grow] = (7, b"x")
                self.grow = None
            return 0xC0000023
        ref.value = len(data)
        buf[:len(data)] = data
        return 0


@contextlib.contextmanager
def on_windows():
    os.name = "nt"
    try:
        yield
    finally:
        os.name = "posix"


def windows_module(win):
    """The module as Windows loads it."""
    saved = {k: sys.modules.get(k) for k in ("win32", "win32.win32api", "win32.win32process", "win32.win32security")}
    pkg = unittest.mock.MagicMock()
    sys.modules["win32"] = pkg
    for n in ("win32api", "win32process", "win32security"):
        sys.modules["win32." + n] = getattr(pkg, n)
    had = {n: ctypes.__dict__.get(n) for n in ("windll", "WinError")}
    ctypes.windll, ctypes.WinError = win.windll, lambda *a: OSError(win.err, "stand-in")
    keep = sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        spec = importlib.util.spec_from_file_location("p47_windows", MOD.__file__)
        mod = importlib.util.module_from_spec(spec)
        with on_windows():
            spec.loader.exec_module(mod)
    finally:
        sys.dont_write_bytecode = keep
        for n, v in had.items():
            if v is None:
                delattr(ctypes, n)
            else:
                setattr(ctypes, n, v)
        for n, v in saved.items():
            if v is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = v
    return mod


WIN = Windows()
WINMOD = []


@ck.family("windows", 600, 8000)
def windows(c):
    """The same histories on Windows, whose firmware functions are stand-ins over a dict."""
    rng = c.rng
    if not WINMOD:
        WINMOD.append(windows_module(WIN))
    win, model = WIN, {}
    win.__dict__.update(store={}, err=rng.choice([0, 5, 0xCB]), calls=[], grow=None, refuse=0)
    with on_windows():
        var = c.must("windows:new", WINMOD[0].UefiVariable)
    guids = [str(uuid.UUID(int=rng.getrandbits(128))) for _ in range(rng.randrange(1, 3))]
    pool = [(name_of(c, rng, g), g) for g in guids for _ in range(rng.randrange(1, 3))]
    for k in pool:
        if rng.random() < .4:
            model[k] = (rng.choice([7, 3, 0x27]), data_of(rng)[:1 << 20])
    win.store = dict(model)
    keys = []
    for _ in range(rng.randrange(2, 10)):
        n, g = rng.choice(pool)
        arg = n + "\0" * rng.choice([0, 0, 1, 2])
        garg = uuid.UUID(g) if rng.random() < .15 else rng.choice([g, g, g.upper()])
        op = rng.choice(["set", "set", "get", "get", "list", "delete"])
        win.refuse = 5 if rng.random() < .1 else 0
        win.calls.clear()
        c.event("windows_call")
        keys.append((op, n, g, win.refuse))

        def go(f, *a, **k):
            with on_windows():
                return c.call(f, *a, **k)
        if op == "set":
            data, attrs = data_of(rng)[:1 << 20], rng.choice([None, None, 7, 3, 0x27, 0xFFFFFFFF, "7", 0])
            out = go(var.SetUefiVar, arg, garg, data, **({} if attrs is None else {"attrs": attrs}))
            if c.expect(out.ok, "windows:set", error=repr(out.exc)):
                c.equal(bool(out.value), not win.refuse, "windows:set-result")
            if not win.refuse:
                model[n, g] = (7 if attrs is None else int(attrs), data)
            c.equal([(x[0], x[1], x[2].lower(), x[3] is None) for x in win.calls], [("set", n, "{%s}" % g, attrs is None)], "windows:set-calls")
        elif op == "delete":
            out = go(var.SetUefiVar, arg, garg, *rng.choice([(), (None,), (None, 7)]))
            if c.expect(out.ok, "windows:delete", error=repr(out.exc)):
                c.equal(bool(out.value), (n, g) in model and not win.refuse, "windows:delete-result")
            if not win.refuse:
                model.pop((n, g), None)
        elif op == "get":
            out = go(var.GetUefiVar, arg, garg)
            if c.expect(out.ok, "windows:get", error=repr(out.exc)):
                err, data = out.value
                if win.refuse:
                    c.equal((err, data or b""), (5, b""), "windows:get-refused")
                elif (n, g) in model:
                    c.event("windows_hit")
                    c.equal((err, data), (0, model[n, g][1]), "windows:get-data")
                else:
                    c.equal((err, data or b""), (0xCB, b""), "windows:get-missing")
        else:
            new = None
            if not win.refuse and model and rng.random() < .15:   # the firmware adds one between the two calls
                new = win.grow = ("Late", guids[0])
            had = win.packed()
            out = go(var.GetUefiAllVarNames)
            if c.expect(out.ok, "windows:list", error=repr(out.exc)):
                status, buf = out.value
                if new and new not in model:
                    model[new] = (7, b"x")
                    c.expect((status != 0 and buf is None) or (status == 0 and bytes(buf)[:len(win.packed())] == win.packed()), "windows:list-grown", status=status)
                elif win.refuse:
                    c.expect(status != 0 and buf is None, "windows:list-refused", status=status)
                else:
                    c.equal((status, bytes(buf)), (0, had), "windows:list-entries")
            win.grow = None
        c.equal(win.store, model, "windows:store", call=keys[-1])
    c.key(keys, nontrivial=len(keys) > 1)


if __name__ == "__main__":
    sys.exit(ck.main())
