"""P42: log handlers write each accepted record once, intact, leaving it unchanged."""
import copy
import io
import logging
import os
import platform
import re
import subprocess
import sys
import threading
import time
import types
from unittest import mock

import vh
from vh import Check

from edk2toollib.log import ansi_handler as A
from edk2toollib.log import file_handler as F
from edk2toollib.log import string_handler as S

logging.raiseExceptions = False
logging.addLevelName(21, "SECTION")
logging.addLevelName(22, "STATUS")
logging.addLevelName(23, "PROGRESS")

ck = Check("P42", ["edk2toollib/log/ansi_handler.py", "edk2toollib/log/file_handler.py", "edk2toollib/log/string_handler.py"],
           rule="a case is one set of handlers with their levels, filters and formatters and the history of records, or one run of several threads logging to the same handlers; distinct by history; non-trivial with two handlers or threads",
           min_events={"coloured": 800, "console": 150, "console_converted": 80, "colour": 30, "log_while_reading": 200, "interrupted": 80, "locale": 4, "record": 3000, "written": 3000, "not_written": 1500, "stripped": 200, "kept_colours": 200, "format_failed": 150, "filter_replaced": 150, "exception_text": 100, "thread_run": 20, "thread_record": 3000, "thread_switch": 300, "read_while_writing": 200, "read_history": 60, "verdict": 2000})

COLOUR = re.compile("\001?\033\\[[0-9;]*[a-zA-Z]\002?")  # control sequences, colours above all
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL, 21, 22, 23, 5, 35]
FORMATS = ["%(levelname)s - %(message)s", "%(message)s", "%(levelname)s:%(name)s:%(message)s:%(lineno)d", "[%(levelname)s] %(message)s {%(levelname)s}", "%(name)s"]


class BadStr:
    def __str__(self):
        raise ValueError("cannot be shown")


class Num:
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return "object %d" % self.n


def text(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 4, 8])):
        out.append(rng.choice(["plain words", "x" * 200, "x" * rng.choice([200, 5000, 70000]) if rng.random() < 0.02 else "x", "100%", "é漢\U0001F600", "a\nb", "\t", "\r", "\n", "",
                               "\033[31m", "\033[0m", "\033[1;31m", "\033[m", "\033[39mred\033[39m", "\033[97;41m",
                               "[31m", "\033 ", "\033[ ", "\033[31 ", "\\033[31m", "\033]0;t\007", "\001\033[32m\002", "\001x", "x\002y", "\033[2K", "\033[10;3H", "\033[A", "m", "0;1m", "^[[31m", "[1; ", ";m"]))
    return "".join(out).replace("\033\033", "\033 \033")


def make_record(c, i):
    rng = c.rng
    level = rng.choice(LEVELS)
    msg, args, exc, bad = text(rng).replace("%", "%%") if False else text(rng), (), None, False
    k = rng.random()
    if k < 0.25:
        msg, args = "%s and %d", (text(rng), i)
    elif k < 0.32:
        msg, args = rng.choice([("%d items", ("x",)), ("%s %s", ("only one",)), ("%q", (1,)), (BadStr(), ()), ("%s", (BadStr(),))])
        bad = True
    elif k < 0.4:
        msg = rng.choice([Num(i), 17, None, ["a", 1], {"k": "v"}, b"bytes"])
    elif k < 0.45:
        msg, args = "%(a)s=%(b)d", ({"a": text(rng), "b": i},)
    if rng.random() < 0.12 and not bad and not COLOUR.sub("", logging.LogRecord("", 0, "", 0, msg, args, None).getMessage()).endswith("\n"):
        # (between a text and a traceback there is one line end, whether or not the text ended with one)
        try:
            raise RuntimeError("trouble %d" % i)
        except RuntimeError:
            exc = sys.exc_info()
        c.event("exception_text")
    return logging.LogRecord(rng.choice(["tool", "a.b", "root", "tool." + "deep" * 40]), level, "/src/file.py", rng.randrange(900), msg, args, exc, func="f"), bad


def plain(fmt, azure, record):
    """What the format says, without colours."""
    r = logging.LogRecord("", 0, "", 0, "", (), None)
    r.__dict__.update(record.__dict__)
    if azure:
        r.levelname = {"CRITICAL": "##[section]", "ERROR": "##[error]"}.get(r.levelname, r.levelname)
    return logging.Formatter(fmt).format(r)


PALETTE = {"DEBUG": 34, "INFO": 36, "WARNING": 33, "ERROR": 31, "CRITICAL": 97, "SECTION": 36, "STATUS": 32, "PROGRESS": 32}


def coloured(fmt, record):
    """What the format says in colour: the level's name below a warning, from a warning on up to the end of the message."""
    if record.levelname not in PALETTE:
        return plain(fmt, False, record)
    r = logging.LogRecord("", 0, "", 0, "", (), None)
    r.__dict__.update(record.__dict__)
    r.levelname = "\033[%dm%s" % (PALETTE[record.levelname], r.levelname)
    if record.levelno < logging.WARNING:
        r.levelname += "\033[39m"
    else:
        r.msg = str(r.msg) + "\033[39m"
    return logging.Formatter(fmt).format(r)


class Drop(logging.Filter):
    def __init__(self, names):
        super().__init__()
        self.names = names

    def filter(self, record):
        return record.name not in self.names


class Replace(logging.Filter):
    """Hands on another record (as filters may since Python 3.12)."""

    def filter(self, record):
        r = copy.copy(record)
        r.msg, r.args, r.exc_info, r.exc_text = "[replaced] " + record.name, (), None, None
        return r


def replaced(record):
    return Replace().filter(record)


class Handler:
    """One handler and the text it has to hold."""

    def __init__(self, c, i, shared=None):
        rng = c.rng
        self.kind = rng.choice(["string", "file", "colour", "colour"])
        self.level = rng.choice([0, 0, 10, 20, 21, 22, 30, 40, 50])
        self.fmt = rng.choice(FORMATS)
        self.formatter = rng.choice(["plain", "colour", "azure"])
        self.strip = False
        if self.kind == "string":
            self.h = c.must("string", S.StringStreamHandler)
        elif self.kind == "file":
            self.path = os.path.join(c.tmp, "log%d.txt" % i)
            self.old = ""
            kw = {}
            if rng.random() < 0.5:
                with open(self.path, "w") as f:
                    f.write("older text\n")
                if rng.random() < 0.4:
                    kw["mode"] = "a"
                    self.old = "older text\n"
            self.h = c.must("file", F.FileHandler, self.path, **kw)
        else:
            self.stream = io.StringIO(newline="")
            tty = rng.random() < 0.3
            if tty:
                self.stream.isatty = lambda: True
            s = rng.choice([True, False, None, "default"])
            args = {} if s == "default" else {"strip": s}
            self.strip = s if s in (True, False) else not tty
            if rng.random() < 0.15:
                args["convert"] = rng.choice([True, False, None])
                self.strip |= args["convert"] is True  # conversion takes the sequences out of the text
            self.h = c.must("colour", A.ColoredStreamHandler, self.stream, **args)
        self.filters = []
        if rng.random() < 0.4:
            f = rng.choice([Drop({"tool"}), Drop({"a.b", "root"}), Replace(), lambda r: r.levelno != 30, lambda r: 0])
            self.filters.append(f)
            self.h.addFilter(f)
        self.h.setLevel(self.level)
        self.reformat()
        self.want = []
        self.end = "\n"
        if rng.random() < 0.15:
            self.end = self.h.terminator = rng.choice(["", "\0", "--\n", "\n\n"])
        self.errors = 0
        if rng.random() < 0.5:
            def failed(record):
                self.errors += 1
            self.h.handleError = failed
        else:
            self.errors = None
        self.failures = 0

    def reformat(self):
        if self.formatter == "plain":
            self.h.setFormatter(logging.Formatter(self.fmt))
        else:
            self.h.setFormatter(A.ColoredFormatter(self.fmt, use_azure=self.formatter == "azure"))

    def expect(self, c, record, bad, at_handler):
        """at_handler: given to the handler itself, which then has to look at its level."""
        for f in self.filters:
            r = f.filter(record) if hasattr(f, "filter") else f(record)
            if not r:
                c.event("not_written")
                return
            if isinstance(r, logging.LogRecord):
                record, bad = r, False
                c.event("filter_replaced")
        if record.levelno < self.level:
            c.event("not_written")
            return
        if bad and self.fmt == "%(name)s":
            pass  # the message is not used; whether formatting fails is up to the formatter
        try:
            t = plain(self.fmt, self.formatter == "azure", record)
            if self.formatter == "colour":
                t = coloured(self.fmt, record)
        except Exception:
            c.event("format_failed")
            if self.failures is not None:
                self.failures += 1
            return
        if self.formatter == "colour" and isinstance(record.msg, BadStr):
            self.failures = None
            return
        c.event("written")
        self.want.append(t + self.end)

    def passes(self, record):
        """Whether the filters let the record through."""
        for f in self.filters:
            r = f.filter(record) if hasattr(f, "filter") else f(record)
            if not r:
                return False
            if isinstance(r, logging.LogRecord):
                record = r
        return True

    def text(self):
        if self.kind == "string":
            self.h.seek_start()
            return "".join(self.h.readlines())
        if self.kind == "file":
            with open(self.path, encoding="utf-8", newline="") as f:
                return f.read()
        return self.stream.getvalue()

    def check(self, c):
        got = self.text()
        if self.errors is not None and self.failures is not None:
            c.equal(self.errors, self.failures, "failures-reported", kind=self.kind)
        want = "".join(self.want)
        if self.kind == "file":
            want = self.old + want
        if self.strip:
            c.event("stripped")
            c.equal(got, COLOUR.sub("", want), "stripped-text", formatter=self.formatter)
        elif self.formatter == "colour":
            c.event("kept_colours")
            c.equal(got, want, "coloured-text", kind=self.kind)
        else:
            c.equal(got, want, "plain-text", kind=self.kind, strip=self.strip)


STATE = ("msg", "args", "levelname", "levelno", "name", "lineno", "pathname", "exc_info", "created", "funcName")


@ck.family("history", 500, 8000)
def history(c):
    rng = c.rng
    logging.disable(logging.NOTSET)
    log = logging.Logger("verif")
    handlers = [Handler(c, i) for i in range(rng.choice([1, 2, 3, 5]))]
    for h in handlers:
        log.addHandler(h.h)
    hist = []
    try:
        for i in range(rng.choice([1, 5, 20, 40])):
            record, bad = make_record(c, i)
            c.event("record")
            direct = rng.random() < 0.5
            before = {k: getattr(record, k) for k in STATE}
            if rng.random() < 0.1:
                h = rng.choice(handlers)
                h.level = rng.choice(LEVELS)
                h.h.setLevel(h.level)
            for h in handlers:
                h.expect(c, record, bad, direct)
            if direct:
                for h in handlers:
                    r = c.must("handle", h.h.handle, record)
                    c.equal(bool(r), h.passes(record), "handle:verdict-of-the-filters", kind=h.kind)
                    c.event("verdict")
            else:
                c.must("log", log.handle, record)
            after = {k: getattr(record, k) for k in STATE}
            c.expect(all(before[k] is after[k] or before[k] == after[k] for k in STATE), "record-changed", before={k: repr(v)[:200] if not isinstance(v, BadStr) else "BadStr" for k, v in before.items()}, after={k: repr(v)[:200] for k, v in after.items()})
            hist.append((record.levelno, record.name, repr(record.args) if not bad else "bad", "" if isinstance(record.msg, BadStr) else str(record.msg)))
        for h in handlers:
            h.check(c)
    finally:
        for h in handlers:
            h.h.close()
    c.key("history", hist, [(h.kind, h.level, h.formatter, h.strip) for h in handlers], nontrivial=len(handlers) > 1)


class Formats(logging.Formatter):
    """Formatter used directly on shared records from several handlers."""


@ck.family("formatter", 300, 4000)
def formatter(c):
    """The coloured formatter alone: same text, record as before."""
    rng = c.rng
    fmt = rng.choice(FORMATS)
    azure = rng.random() < 0.3
    f = c.must("formatter", A.ColoredFormatter, fmt, use_azure=azure)
    for i in range(12):
        record, bad = make_record(c, i)
        before = {k: getattr(record, k) for k in STATE}
        c.event("record")
        o = c.call(f.format, record)
        after = {k: getattr(record, k) for k in STATE}
        c.expect(all(before[k] is after[k] or before[k] == after[k] for k in STATE), "record-changed", failed=not o.ok)
        try:
            want = plain(fmt, azure, record)
        except Exception:
            c.event("format_failed")
            c.expect(not o.ok, "broken-record-formatted", got=repr(o.value))
            continue
        if isinstance(record.msg, BadStr):
            continue
        if c.expect(o.ok, "formatter-failed", exc=repr(o.exc)):
            c.equal(COLOUR.sub("", o.value), COLOUR.sub("", want), "formatter-text")
            if azure or record.levelname not in A.ColoredFormatter.COLORS:
                c.equal(o.value, want, "formatter-azure")
            else:
                c.event("coloured")
                c.equal(o.value, coloured(fmt, record), "formatter-colour", level=record.levelname)
    c.key("formatter", fmt, azure, c.index)


# ---------------------------------------------------------------- threads

class Slow(io.StringIO):
    """A stream that lets other threads run inside of every write."""

    def write(self, s):
        half = len(s) // 2
        super().write(s[:half])
        time.sleep(0)
        n = super().write(s[half:])
        time.sleep(0)
        return half + n

    def flush(self):
        time.sleep(0)
        super().flush()

    def seek(self, *a):
        r = super().seek(*a)
        time.sleep(0)
        return r

    def tell(self):
        r = super().tell()
        time.sleep(0)
        return r


class SlowFile:
    """A file that lets other threads run inside of every write."""

    def __init__(self, f):
        self.f = f

    def write(self, s):
        half = len(s) // 2
        self.f.write(s[:half])
        time.sleep(0)
        return half + self.f.write(s[half:])

    def __getattr__(self, a):
        return getattr(self.f, a)


stuck = []
LINE = re.compile(r"(?s)(<(DEBUG|INFO|WARNING|ERROR) t(\d+) #(\d+) part (y*) end>\n)*")


@ck.family("threads", 40, 400)
def threads(c):
    if stuck:   # the violation is on record
        return
    rng = c.rng
    logging.disable(logging.NOTSET)
    log = logging.Logger("verif")
    nthreads, per = rng.choice([2, 3, 4, 8]), rng.choice([20, 40, 80])
    string = c.must("string", S.StringStreamHandler)
    slow_string = rng.random() < 0.7
    if slow_string:
        string.stream = Slow()
    path = os.path.join(c.tmp, "log.txt")
    file = c.must("file", F.FileHandler, path)
    if getattr(file, "stream", None) is not None and rng.random() < 0.7:
        file.stream = SlowFile(file.stream)
    out = Slow(newline="")
    colour = c.must("colour", A.ColoredStreamHandler, out, strip=rng.random() < 0.5)
    level = rng.choice([0, 20, 30])
    fmt = "<%(levelname)s %(message)s>"
    for h in (string, file, colour):
        h.setLevel(level)
        h.setFormatter(A.ColoredFormatter(fmt) if rng.random() < 0.7 else logging.Formatter(fmt))
        log.addHandler(h)
    errors = []
    go = threading.Barrier(nthreads + 1)
    stop = threading.Event()

    def work(t):
        try:
            go.wait()
            for i in range(per):
                lvl = (10, 20, 30, 40)[(t + i) % 4]
                log.log(lvl, "t%d #%d \033[31mpart\033[39m %s end", t, i, "y" * ((t * 7 + i) % 50))
        except BaseException as e:
            errors.append(repr(e))

    reads = [0]
    torn = []

    def reader():
        try:
            go.wait()
            while not stop.is_set():
                string.seek_start()
                got = COLOUR.sub("", "".join(string.readlines()))
                if not LINE.fullmatch(got):
                    torn.append(got[-300:])
                reads[0] += 1
                time.sleep(0)
        except BaseException as e:
            errors.append(repr(e))

    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nthreads)]
    rd = threading.Thread(target=reader, daemon=True)
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
    try:
        for t in ts + [rd]:
            t.start()
        end = time.monotonic() + 60
        for t in ts:
            t.join(max(0, end - time.monotonic()))
        stop.set()
        rd.join(max(0, end - time.monotonic()) + 5)
    finally:
        sys.setswitchinterval(old)
    if not c.equal([t.name for t in ts + [rd] if t.is_alive()], [], "thread-stuck"):
        stuck.append(c.index)
        return
    c.equal(errors, [], "thread-error")
    c.equal(torn[:1], [], "thread-read-part-of-a-record")
    c.event("thread_run")
    c.event("read_while_writing", reads[0])
    string.seek_start()
    texts = {"string": "".join(string.readlines()), "colour": out.getvalue()}
    file.close()
    with open(path, encoding="utf-8", newline="") as f:
        texts["file"] = f.read()
    order = []
    for name, text in texts.items():
        t = COLOUR.sub("", text)
        lines = t.split("\n")
        c.equal(lines.pop(), "", "thread-last-line", handler=name)
        seen = {k: [] for k in range(nthreads)}
        switches, last = 0, None
        for line in lines:
            m = re.fullmatch(r"<(DEBUG|INFO|WARNING|ERROR) t(\d+) #(\d+) part (y*) end>", line)
            if not c.expect(m, "thread-torn-record", handler=name, line=line):
                break
            k, i = int(m.group(2)), int(m.group(3))
            ok = m.group(1) == ("DEBUG", "INFO", "WARNING", "ERROR")[(k + i) % 4] and len(m.group(4)) == (k * 7 + i) % 50
            c.expect(ok, "thread-record-text", handler=name, line=line)
            seen[k].append(i)
            if last is not None and last != k:
                switches += 1
            last = k
            c.event("thread_record")
        else:
            for k in seen:
                c.equal(seen[k], [i for i in range(per) if (10, 20, 30, 40)[(k + i) % 4] >= level], "thread-order", handler=name, thread=k)
        c.event("thread_switch", switches)
        order.append(switches)
    if colour.strip:
        c.expect("\033" not in texts["colour"], "thread-colour-left")
    c.key("threads", nthreads, per, tuple(order), nontrivial=True)
    string.close()


@ck.family("read", 250, 4000)
def read(c):
    """Reading the string handler between records, against a list of characters and a position."""
    rng = c.rng
    h = c.must("string", S.StringStreamHandler)
    whole, pos = "", 0
    c.event("read_history")
    hist = []

    def lines(hint=None):
        nonlocal pos
        ref = io.StringIO(whole)
        ref.seek(pos)
        r = ref.readlines() if hint is None else ref.readlines(hint)
        pos = ref.tell()
        return r

    for i in range(rng.randrange(1, 40)):
        k = rng.choice(["log", "log", "log", "start", "end", "read", "readall", "seek", "hint", "relative"])
        hist.append(k)
        if k == "log":
            t = "record %d %s" % (i, rng.choice(["", "x" * 50, "a\nb", "é"]))
            if rng.random() < 0.04:
                t += rng.choice(["long " * 20000, "line of it\n" * 3000])
                c.event("long_record")
            c.must("handle", h.handle, logging.LogRecord("n", 20, "p", 1, t, (), None))
            at_end = pos == len(whole)
            whole += t + "\n"
            if at_end:
                pos = len(whole)  # at the end it stays at the end, elsewhere it stays where it is
            else:
                c.event("log_while_reading")
        elif k == "start":
            h.seek_start()
            pos = 0
        elif k == "end":
            h.seek_end()
            pos = len(whole)
        elif k == "read":
            c.equal(h.readlines(), lines(), "read-rest", history=hist)
            c.equal(h.readlines(), [], "read-twice", history=hist)
        elif k == "hint":
            n = rng.choice([1, 5, 12, 60, 0, -1, 20000, 200000])
            c.equal(h.readlines(n), lines(n), "read-hint", history=hist, hint=n)
        elif k == "seek":
            pos = rng.randrange(len(whole) + 1)
            c.equal(h.seek(pos, 0), pos, "seek-returns", history=hist)
        elif k == "relative":
            w = rng.choice([1, 2])
            pos = pos if w == 1 else len(whole)
            c.equal(h.seek(0, w), pos, "seek-returns", history=hist, whence=w)
        else:
            h.seek_start()
            pos = 0
            c.equal(h.readlines(), lines(), "read-all", history=hist)
    h.seek_start()
    c.equal("".join(h.readlines()), whole, "read-final", history=hist)
    h.seek(0, 0)
    c.equal("".join(h.readlines()), whole, "read-final")
    h.close()
    c.key("read", hist)


# ---------------------------------------------------------------- failures on the way

class Broken:
    """A text or stream that fails in a way the handler does not take care of."""

    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        raise self.exc


@ck.family("interrupted", 120, 1500)
def interrupted(c):
    """An exception that leaves the handler (an interrupt, too deep a recursion) leaves it usable by all threads."""
    rng = c.rng
    logging.disable(logging.NOTSET)
    kind = rng.choice(["string", "file", "colour"])
    path = os.path.join(c.tmp, "log.txt")
    out = io.StringIO()
    h = {"string": S.StringStreamHandler, "file": lambda: F.FileHandler(path), "colour": lambda: A.ColoredStreamHandler(out, strip=True)}[kind]()
    h.setFormatter(rng.choice([A.ColoredFormatter, logging.Formatter])("%(levelname)s %(message)s"))
    exc = rng.choice([KeyboardInterrupt, RecursionError, SystemExit, GeneratorExit])("stop")
    where = rng.choice(["format", "filter"])
    want = []
    c.event("interrupted")
    for i in range(rng.randrange(1, 6)):
        if rng.random() < 0.5:
            r = logging.LogRecord("n", 40, "p", 1, Broken(exc) if where == "format" else "x", (), None)
            bad = None
            if where == "filter":
                def bad(record):
                    raise exc
                h.addFilter(bad)
            try:
                h.handle(r)
                raised = False
            except BaseException as e:
                raised = e is exc
            if bad is not None:
                h.removeFilter(bad)
            if kind != "colour" or isinstance(exc, (KeyboardInterrupt, SystemExit, GeneratorExit)) or where == "filter":
                c.expect(raised, "interrupt-lost", kind=kind, exc=repr(exc), where=where)
            c.equal(r.levelname, "ERROR", "record-changed-by-interrupt")
        got = []

        def other():
            ok = h.lock.acquire(timeout=5)
            got.append(ok)
            if ok:
                h.lock.release()
        t = threading.Thread(target=other, daemon=True)
        t.start()
        t.join(10)
        if not c.equal(got, [True], "handler-left-locked", kind=kind, exc=repr(exc)):
            return
        h.handle(logging.LogRecord("n", 20, "p", 1, "record %d" % i, (), None))
        want.append("INFO record %d\n" % i)
    if kind == "string":
        h.seek_start()
        text = "".join(h.readlines())
    h.close()
    if kind == "file":
        with open(path, encoding="utf-8") as f:
            text = f.read()
    elif kind == "colour":
        text = out.getvalue()
    c.equal(COLOUR.sub("", text), "".join(want), "text-after-interrupts", kind=kind)
    c.key("interrupted", kind, repr(exc), where, c.index % 20)


@ck.family("locale", 6, 40)
def in_locale(c):
    """Files are written in UTF-8 whatever the process's locale is."""
    texts = [text(c.rng).replace("\r", "") or "é" for _ in range(8)] + ["é漢\U0001F600", "ﷺ"]
    path = os.path.join(c.tmp, "log.txt")
    code = ("import sys, logging, ast\nfrom edk2toollib.log.file_handler import FileHandler\nh = FileHandler(sys.argv[1])\n"
            "[h.handle(logging.LogRecord('n', 20, 'p', 1, t, (), None)) for t in ast.literal_eval(sys.argv[2])]\nh.close()\n")
    env = dict(os.environ, PYTHONPATH=vh.REPO, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL=c.rng.choice(["C", "POSIX"]), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", code, path, ascii(texts)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=c.tmp)
    c.event("locale")
    c.equal((r.returncode, r.stdout), (0, b""), "locale-run")
    with open(path, "rb") as f:
        c.equal(f.read(), "".join(t + "\n" for t in texts).encode("utf-8"), "locale-text")
    c.key("locale", *texts)


# ---------------------------------------------------------------- the console of Windows, played by a stand-in

ANSI = [0, 4, 2, 6, 1, 5, 3, 7]  # the console's number for each colour in ANSI's order


class Console:
    STDOUT, STDERR = -11, -12

    def __init__(self, trace, attrs, works):
        self.trace, self.attrs, self.works = trace, attrs, works

    def winapi_test(self):
        return self.works

    def GetConsoleScreenBufferInfo(self, stream_id=-11):
        return types.SimpleNamespace(wAttributes=self.attrs)

    def SetConsoleTextAttribute(self, stream_id, attrs):
        self.trace.append((stream_id, attrs))
        return True


class Traced(io.StringIO):
    def __init__(self, trace, tty):
        super().__init__(newline="")
        self.trace, self.tty = trace, tty

    def isatty(self):
        return self.tty

    def write(self, s):
        if s:
            if self.trace and isinstance(self.trace[-1], str):
                self.trace[-1] += s
            else:
                self.trace.append(s)
        return super().write(s)


def console_trace(t, attrs):
    """What has to arrive at the console, in order, for a text with sequences."""
    fore, back, style, light, out, pos = attrs & 7, attrs >> 4 & 7, attrs & 0x88, 0, [], 0

    def add(x):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    for m in COLOUR.finditer(t):
        add(t[pos:m.start()])
        pos = m.end()
        body = m.group().strip("\001\002")[2:]
        if body[-1] != "m":
            continue
        for p in [int(x) for x in body[:-1].split(";") if x]:
            if 30 <= p <= 37 or 90 <= p <= 97:
                fore = ANSI[p % 10]
                light = light & ~8 | (8 if p >= 90 else 0)
            elif p == 39:
                fore, light = attrs & 7, light & ~8
            elif 40 <= p <= 47 or 100 <= p <= 107:
                back = ANSI[p % 10]
                light = light & ~0x80 | (0x80 if p >= 100 else 0)
            elif p == 49:
                back, light = attrs >> 4 & 7, light & ~0x80
            else:
                continue
            add((-11, fore + 16 * back + (style | light)))
    add(t[pos:])
    return out


@ck.family("console", 250, 3000)
def console(c):
    rng = c.rng
    trace = []
    attrs, works, tty = rng.choice([7, 0x17, 0x8F, 0x70, 0, rng.randrange(256), rng.randrange(256)]), rng.random() < 0.85, rng.random() < 0.8
    args = {k: rng.choice([True, False, None]) for k in ("strip", "convert") if rng.random() < 0.3}
    supported = works
    strip = args.get("strip")
    strip = (supported or not tty) if strip is None else strip
    convert = args.get("convert")
    convert = (supported and tty) if convert is None else convert
    real = platform.uname()
    fake = types.SimpleNamespace(system="Windows", machine="AMD64", node=real.node, release="10", version="10.0", processor="AMD64")
    had = getattr(A, "Win32Console", None)
    A.Win32Console = Console(trace, attrs, works)
    try:
        with mock.patch.object(platform, "uname", lambda: fake):
            out = Traced(trace, tty)
            h = c.must("console", A.ColoredStreamHandler, out, **args)
            fmt = rng.choice(FORMATS)
            coloured_ = rng.random() < 0.6
            h.setFormatter(A.ColoredFormatter(fmt) if coloured_ else logging.Formatter(fmt))
            want, texts = [], []
            for i in range(rng.randrange(1, 8)):
                t = text(rng)
                for _ in range(rng.randrange(4)):
                    codes = [rng.choice(["", "0", "1", "4", str(rng.randrange(30, 50)), str(rng.randrange(90, 108)), str(rng.randrange(200))]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
                    t += "\033[%sm%s" % (";".join(codes), rng.choice(["", "x", "words "]))
                r = logging.LogRecord("tool", rng.choice(LEVELS), "p", 7, t, (), None)
                texts.append((coloured(fmt, r) if coloured_ else plain(fmt, False, r)) + "\n")
                c.must("console-handle", h.handle, r)
    finally:
        if had is None:
            del A.Win32Console
        else:
            A.Win32Console = had
    c.event("console")
    whole = "".join(texts)
    if convert:
        c.event("console_converted")
        c.equal(trace, console_trace(whole, attrs), "console-trace", attrs=hex(attrs))
    else:
        c.equal("".join(trace) if all(isinstance(x, str) for x in trace) else trace, COLOUR.sub("", whole) if strip else whole, "console-text", strip=strip)
    c.key("console", attrs, works, tty, str(args), whole)


@ck.family("colours", 1, 1)
def colours(c):
    """The sequence of every colour, and of what is no colour."""
    for name, v in vars(A.AnsiColor).items():
        if isinstance(v, int) and name.isupper():
            base = name.replace("BG_", "").replace("LIGHT", "").replace("_EX", "")
            names = ["BLACK", "RED", "GREEN", "YELLOW", "BLUE", "MAGENTA", "CYAN", "WHITE", None, "RESET"]
            want = (names.index(base) + (100 if "BG_" in name else 90) if "LIGHT" in name else names.index(base) + (40 if "BG_" in name else 30))
            c.equal(v, want, "colour-number", name=name)
            c.equal(A.get_ansi_string(v), "\033[%dm" % want, "colour-sequence", name=name)
            c.event("colour")
    c.equal(A.get_ansi_string(), "\033[39m", "colour-default")
    for bad in (0, 1, 29, 38, 48, 50, 89, 98, 108, 999, -31):
        c.equal(A.get_ansi_string(bad), "\033[39m", "colour-unknown", value=bad)
    c.key("colours")


if __name__ == "__main__":
    sys.exit(ck.main())
