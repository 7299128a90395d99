"""P17: RunCmd delivers all output in order, the true exit code, and never hangs."""
import io
import logging
import os
import shlex
import signal
import subprocess
import sys
import threading
import time

from vh import Check
from edk2toollib import utility_functions as U

sys.stdout.reconfigure(encoding="utf-8")
ck = Check("P17", ["edk2toollib/utility_functions.py"],
           rule="a case is one command (or a group of concurrent commands) with options and a planned output; distinct by output, plan and options; non-trivial when the command prints something",
           min_events={"command": 400, "bytes": 5_000_000, "line_logged": 20000, "concurrent_group": 30, "sink_failure": 60, "decode_failure": 30,
                       "uncaptured_big": 20, "nonzero_raised": 20, "killed_by_signal": 20, "slow_sink": 3, "python_script": 60})
HANG = 60
root = logging.getLogger()
root.handlers[:] = [logging.NullHandler()]
root.setLevel(1)
for n in ("Edk2Path", "asyncio"):
    logging.getLogger(n).disabled = True


class Rec(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.rows = []

    def emit(self, r):
        self.rows.append((r.levelno, r.getMessage(), r.thread))


class Procs:
    """Remembers the processes started, to end them if the call under test hangs."""

    def __init__(self):
        self.all = []
        self.real = subprocess.Popen

    def __enter__(self):
        me = self

        class P(me.real):
            def __init__(s, *a, **k):
                k.setdefault("start_new_session", True)
                super().__init__(*a, **k)
                me.all.append(s)
        subprocess.Popen = P
        return self

    def __exit__(self, *a):
        subprocess.Popen = self.real
        for p in self.all:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass


def timed(c, mech, fn):
    """Run fn in a thread under a generous wall-clock watchdog; returns (result, exception)."""
    box = {}

    def go():
        try:
            box["v"] = fn()
        except BaseException as e:  # noqa
            box["e"] = e
    with Procs() as procs:
        t = threading.Thread(target=go, daemon=True)
        t.start()
        t.join(HANG)
        if t.is_alive():
            procs.__exit__()
            t.join(5)
            c.violate(mech + ":never-returned")
            c.require(False, mech + ":never-returned")
        left = [p for p in procs.all if p.poll() is None]
        c.expect(not left, mech + ":returned-before-the-command-ended")
    return box.get("v"), box.get("e")


def gen_lines(rng, tag, big):
    """Byte lines, each carrying the tag; the last may lack a newline."""
    n = rng.choice([1, 2, 3, 10, 60]) if not big else rng.choice([2500, 6000])
    out = []
    for i in range(n):
        body = rng.choice(["", "plain text", "  indented\ttab", "per%cent %s %d", "naïve ünïcode ✓ 漢字", "trailing   ", "\x1b[31mred\x1b[0m", "q\"uo'te $HOME `x`", "a" * rng.choice([10, 100, 5000])])
        end = rng.choice(["\n"] * 8 + ["\r\n"])
        lead = rng.choice([""] * 5 + ["  ", "\t", " \x0b "])
        out.append(f"{lead}{tag}.{i:06d} {body}{end}".encode())
        if rng.random() < .05:
            out.append(b"\n")
    if rng.random() < .4:
        out[-1] = out[-1].rstrip(b"\r\n") + b" end"
    if rng.random() < .1 and out[-1].endswith(b"\n"):
        out.append(tag.encode() + b"x" * 200_000)
    return out


def script(c, rng, lines, name="s", exitcmd="exit 0"):
    """A shell script printing the lines in bursts with pauses, partly on stderr."""
    chunks, data = [], b"".join(lines)
    k = rng.randrange(1, 6)
    cuts = sorted(rng.randrange(0, len(data) + 1) for _ in range(k - 1))
    for a, b in zip([0] + cuts, cuts + [len(data)]):
        chunks.append(data[a:b])
    sh = ["#!/bin/sh"]
    for i, ch in enumerate(chunks):
        p = c.write(f"{name}.{i}.out", ch)
        sh.append(f"cat {shlex.quote(p)}" + rng.choice(["", " >&2"]))
        if rng.random() < .4:
            sh.append(f"sleep 0.0{rng.randrange(1, 4)}")
    sh.append(exitcmd)
    p = c.write(name, "\n".join(sh) + "\n")
    os.chmod(p, 0o755)
    return p


class Slow(io.StringIO):
    def __init__(self, rng):
        super().__init__()
        self.rng = rng

    def write(self, s):
        if self.rng.random() < .02:
            time.sleep(.003)
        return super().write(s)


def check_log(c, rows, level, lines, errors, tag, mech):
    want = [ln.decode("utf-8", errors).rstrip() for ln in lines]
    got = [(lv, m) for lv, m, _ in rows]
    idx = [i for i, (_, m) in enumerate(got) if tag in m and not m.startswith("Cmd to run")]
    if not c.expect(bool(idx), mech + ":nothing-logged"):
        return
    block = got[idx[0]: idx[-1] + 1]
    while want and tag not in want[-1]:
        want.pop()
    c.equal([m for _, m in block], want, mech + ":log-lines")
    c.expect(all(lv == level for lv, _ in block), mech + ":log-level", want=level)
    c.event("line_logged", len(block))


@ck.family("single", 320, 6000)
def single(c):
    rng = c.rng
    tag = f"T{rng.randrange(10**9)}"
    lines = gen_lines(rng, tag, rng.random() < .25)
    errors = "strict"
    if rng.random() < .25:
        errors = rng.choice(["ignore", "replace", "backslashreplace"])
        i = rng.randrange(len(lines))
        lines[i] = lines[i].replace(b" ", b" \xff\xfe\xc3( ", 1)
    m = rng.random()
    if m < .55:
        ex, code = "exit 0", 0
    elif m < .92:
        code = rng.choice([1, 2, 3, 127, 255, rng.randrange(1, 256)])
        ex = f"exit {code}"
    else:
        sig = rng.choice([9, 15, 6])
        ex, code = f"kill -{sig} $$", -sig
        c.event("killed_by_signal")
    if code < 0:
        lines[-1] = lines[-1].rstrip(b"\r\n") + b"\n"
    elif rng.random() < .05:
        lines.append(tag.encode() + b"\n\0\0")       # nothing but NULs after the last line
    p = script(c, rng, lines, "my cmd" if rng.random() < .3 else "cmd", ex)
    sinks = rng.sample(["file", "stream"], rng.randrange(0, 3)) if code >= 0 else []     # (the shell may add a word on signals)
    kw = dict(encodingErrors=errors) if errors != "strict" else {}
    out = Slow(rng) if rng.random() < .3 else io.StringIO()
    if "stream" in sinks:
        kw["outstream"] = out
    f = os.path.join(c.tmp, "out.txt")
    if "file" in sinks:
        kw["outfile"] = f
        if rng.random() < .5:
            with open(f, "w") as h:
                h.write("old content that must go\n" * 3)
    level = rng.choice([logging.INFO, logging.DEBUG, logging.WARNING, 5])
    if level != logging.INFO or rng.random() < .5:
        kw["logging_level"] = level
    capture = rng.random() < .88
    if not capture or rng.random() < .3:
        kw["capture"] = capture
    raising = rng.random() < .3
    if raising:
        kw["raise_exception_on_nonzero"] = True
    cmd = rng.choice([p, f'"{p}"', f"'{p}'"])
    params = rng.choice(["", None, "a b", "  pad  "])
    data = b"".join(lines)
    c.key(data, code, sorted(kw), capture, errors, level, nontrivial=bool(data))
    c.note(lines=len(lines), bytes=len(data), exit=code, options={k: str(v)[:60] for k, v in kw.items()}, cmd=cmd)
    rec = Rec()
    root.addHandler(rec)
    try:
        v, e = timed(c, "single", lambda: U.RunCmd(cmd, params, **kw))
        rows = list(rec.rows)                       # everything must be there when the call returns
        text = out.getvalue()
        ftext = open(f, "rb").read() if "file" in sinks and os.path.exists(f) else None
    finally:
        root.removeHandler(rec)
    c.event("command")
    c.event("bytes", len(data))
    if raising and code != 0:
        c.expect(isinstance(e, Exception), "single:nonzero-not-raised", value=v)
        c.event("nonzero_raised")
    else:
        c.require(e is None, "single:unexpected-error", error=repr(e))
        if code < 0:        # the shell in between may report the signal itself
            c.expect(v in (code, 128 - code), "single:exit-code", got=v, want=code)
        else:
            c.equal(v, code, "single:exit-code")
    if not capture:
        c.expect(not any(tag in m and not m.startswith("Cmd to run") for _, m, _ in rows), "single:uncaptured-logged")
        if len(data) > 70000:
            c.event("uncaptured_big")
        return
    # lines as the sinks see them: cut at \n
    seen = data.splitlines(keepends=True) if b"\r" not in data else [x + b"\n" for x in data.split(b"\n")[:-1]] + ([data.split(b"\n")[-1]] if data.split(b"\n")[-1] else [])
    dec = data.decode("utf-8", errors)
    if "stream" in sinks:
        c.equal(text, dec, "single:stream")
    if "file" in sinks:
        c.equal(ftext, dec.encode("utf-8"), "single:file")
    check_log(c, rows, level, seen, errors, tag, "single")


@ck.family("words", 60, 1000)
def words(c):
    """The command gets exactly the words the parameters spell, and a command ended by a signal does not count as a success."""
    rng = c.rng
    args = [rng.choice(["a", "two  spaces", "tab\there", "", " lead", "trail ", "qu'ote", 'dq"', "$HOME", "*", "back\\slash", "ünï", "x;y", "-n", "a=b", "#c"])
            for _ in range(rng.randrange(1, 5))]
    sig = rng.choice([0, 0, 0, 9, 15, 6])
    p = c.write(rng.choice(["cmd", "my cmd", "my  two  spaces", "my it's&cmd"]), f"#!{sys.executable}\nimport os, sys\nfor a in sys.argv[1:]:\n    print(ascii(a))\n"
                + "sys.stdout.flush()\n" + (f"os.kill(os.getpid(), {sig})\n" if sig else "sys.exit(3)\n"))
    os.chmod(p, 0o755)
    quoted = " ".join(shlex.quote(a) for a in args)
    raising = rng.random() < .5
    out = io.StringIO()
    env = rng.choice([None, {"PATH": os.environ["PATH"]}, {}])
    cmd, params = p, quoted
    if sig:                     # the shell in between replaces itself by the command, so the exit code is the command's own
        cmd, params = "exec", shlex.quote(p) + " " + quoted
        c.event("killed_by_signal")
    params = rng.choice(["", " ", "\n"]) + params + rng.choice(["", "  "])
    c.key(args, sig, raising)
    c.note(cmd=cmd, params=params, signal=sig)
    v, e = timed(c, "words", lambda: U.RunCmd(cmd, params, outstream=out, environ=env, raise_exception_on_nonzero=raising))
    c.event("command")
    c.equal(out.getvalue().splitlines(), [ascii(a) for a in args], "words:differ")
    if raising:
        c.expect(isinstance(e, Exception), "words:nonzero-not-raised", value=v)
        c.event("nonzero_raised")
    else:
        c.require(e is None, "words:unexpected-error", error=repr(e))
        c.equal(v, -sig if sig else 3, "words:exit-code")


class Sleepy(io.StringIO):
    def write(self, s):
        time.sleep(.05)
        return super().write(s)


@ck.family("slow_sink", 3, 24)
def slow_sink(c):
    """A sink far slower than the command still gets every line before the call returns."""
    n = 150 + 10 * c.index
    tag = f"S{c.rng.randrange(10**9)}"
    lines = [f"{tag} {i}\n".encode() for i in range(n)]
    p = script(c, c.rng, lines, "cmd", "exit 4")
    out = Sleepy()
    c.key(n, tag)
    v, e = timed(c, "slow_sink", lambda: U.RunCmd(p, "", outstream=out))
    text = out.getvalue()
    c.require(e is None, "slow_sink:unexpected-error", error=repr(e))
    c.equal(v, 4, "slow_sink:exit-code")
    c.equal(text, b"".join(lines).decode(), "slow_sink:stream")
    c.event("slow_sink")


@ck.family("uncaptured", 24, 400)
def uncaptured(c):
    """capture=False with more output than a pipe holds must not block the command."""
    rng = c.rng
    n = rng.choice([10, 70_000, 300_000, 2_000_000])
    p = c.write("s", f"#!/bin/sh\nhead -c {n} /dev/zero\nhead -c {n} /dev/zero >&2\nexit 7\n")
    os.chmod(p, 0o755)
    c.key(n, c.index)
    v, e = timed(c, "uncaptured", lambda: U.RunCmd(p, "", capture=False))
    c.require(e is None, "uncaptured:unexpected-error", error=repr(e))
    c.equal(v, 7, "uncaptured:exit-code")
    c.event("uncaptured_big")


class Boom(RuntimeError):
    pass


class Failing(io.StringIO):
    def __init__(self, after):
        super().__init__()
        self.left = after

    def write(self, s):
        if self.left == 0:
            raise Boom("sink")
        self.left -= 1
        return super().write(s)


@ck.family("failures", 150, 2500)
def failures(c):
    """A failing sink or an undecodable byte: the error reaches the caller and nothing blocks, however much follows."""
    rng = c.rng
    tag = f"T{rng.randrange(10**9)}"
    lines = gen_lines(rng, tag, rng.random() < .6)
    kind = rng.choice(["stream", "decode", "file", "fileenc"])
    at = rng.randrange(0, len(lines))
    kw, want = {}, None
    if kind == "stream":
        kw["outstream"] = Failing(at)
        want = Boom
        c.event("sink_failure")
    elif kind == "decode":
        lines[at] = b"\xff\xfe" + lines[at]
        kw["outstream"] = io.StringIO()
        want = UnicodeDecodeError
        c.event("decode_failure")
    elif kind == "file":
        kw["outfile"] = rng.choice([os.path.join(c.tmp, "no", "such", "dir", "f.txt"), c.tmp])
        want = OSError
        c.event("sink_failure")
    else:
        lines[at] = b"\xff\xfe" + lines[at]
        kw.update(encodingErrors="surrogateescape", outfile=os.path.join(c.tmp, "o.txt"))
        want = UnicodeEncodeError
        c.event("sink_failure")
    p = script(c, rng, lines, "cmd", rng.choice(["exit 0", "exit 3"]))
    data = b"".join(lines)
    c.key(kind, at, data)
    c.note(kind=kind, failing_line=at, lines=len(lines), bytes=len(data))
    v, e = timed(c, f"failure-{kind}", lambda: U.RunCmd(p, "", **kw))
    c.expect(isinstance(e, want), f"failure-{kind}:error-did-not-reach-the-caller", value=v, error=repr(e))


@ck.family("concurrent", 40, 700)
def concurrent(c):
    rng = c.rng
    n = rng.randrange(2, 7)
    jobs = []
    for i in range(n):
        tag = f"J{i}x{rng.randrange(10**9)}"
        lines = [f"{tag} {k:05d} {'y' * rng.choice([0, 5, 200])}\n".encode() for k in range(rng.choice([5, 200, 1500]))]
        code = rng.randrange(0, 5)
        p = script(c, rng, lines, f"cmd{i}", f"exit {code}")
        out = Slow(rng) if rng.random() < .5 else io.StringIO()
        kw = dict(outstream=out)
        if rng.random() < .6:
            kw["outfile"] = os.path.join(c.tmp, f"o{i}.txt")
        jobs.append((tag, lines, code, p, out, kw))
    c.key([(j[0], len(j[1])) for j in jobs])
    c.note(commands=n, lines=[len(j[1]) for j in jobs])
    rec = Rec()
    root.addHandler(rec)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    res = [None] * n
    start = threading.Barrier(n)

    def run(i):
        start.wait(30)
        try:
            r = U.RunCmd(jobs[i][3], "", **jobs[i][5])
            res[i] = (r, jobs[i][4].getvalue(), None)
        except BaseException as e:  # noqa
            res[i] = (None, "", e)

    def all_():
        ts = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    try:
        timed(c, "concurrent", all_)
    finally:
        sys.setswitchinterval(old)
        root.removeHandler(rec)
    c.event("concurrent_group")
    switches = 0
    last = None
    for _, m, th in rec.rows:
        if th != last:
            switches += 1
            last = th
    c.event("log_interleavings", switches)
    for (tag, lines, code, p, out, kw), r in zip(jobs, res):
        c.event("command")
        c.require(r is not None and r[2] is None, "concurrent:unexpected-error", error=repr(r))
        c.equal(r[0], code, "concurrent:exit-code")
        dec = b"".join(lines).decode()
        c.equal(r[1], dec, "concurrent:stream")
        if "outfile" in kw:
            with open(kw["outfile"]) as f:
                c.equal(f.read(), dec, "concurrent:file")
        got = [m for _, m, _ in rec.rows if m.startswith(tag)]
        c.equal(got, [ln.decode().rstrip() for ln in lines], "concurrent:log-lines")
        c.event("line_logged", len(got))
        c.event("bytes", len(dec))


PYS = """import os, sys
print("ARGS", *sys.argv[1:])
print("CWD", os.getcwd())
print("ENV", os.environ.get("VERIF_X", "-"), "HOME" in os.environ)
sys.exit(%d)
"""


@ck.family("python", 90, 1500)
def python(c):
    rng = c.rng
    code = rng.choice([0, 0, 1, 5, 200])
    name = rng.choice(["s.py", "my script.py", "tést.py"])
    d = rng.choice(["bin", "my bin", rng.choice(["a&b", "x(1)", "p;q", "it's", "#2", "r|s", "<t>", "u*"])])
    path = c.write(f"{d}/{name}", PYS % code)
    other = os.path.join(c.tmp, "wd")
    os.makedirs(other)
    where = rng.choice(["abs", "rel", "path"])
    old_cwd, old_path = os.getcwd(), os.environ["PATH"]
    arg = path
    if where == "rel":
        os.chdir(os.path.dirname(path))
        arg = name
    elif where == "path":
        more = []
        if rng.random() < .5:       # the first directory on the path that has it counts
            c.write(f"later/{name}", PYS % 77)
            more = [os.path.join(c.tmp, "later")]
        entry = os.path.dirname(path)
        if rng.random() < .3:       # an entry that is relative to the folder of the caller
            os.chdir(c.tmp)
            entry = d
            c.event("relative_path_entry")
        os.environ["PATH"] = os.pathsep.join([old_path, entry] + more)
        arg = name
    if rng.random() < .3:
        arg = rng.choice(['"%s"', "'%s'"]) % arg
    params = rng.choice(["", "a b", " lead", '"x y" z', "'x  y'  z", '"a b" "c  d" "e f"', '"only one"', "'only'"])
    wd = other if rng.random() < .6 else None
    env = rng.choice([{"VERIF_X": "yes", "PATH": os.environ["PATH"]}, {"VERIF_X": "yes"}, {}]) if rng.random() < .5 else None
    out = io.StringIO()
    kw = dict(outstream=out, workingdir=wd, environ=env)
    raising = rng.random() < .3
    if raising:
        kw["raise_exception_on_nonzero"] = True
    c.key(where, arg, params, bool(wd), bool(env), code, raising)
    c.note(where=where, arg=arg, params=params, workingdir=wd, env=env, code=code)
    try:
        v, e = timed(c, "python", lambda: U.RunPythonScript(arg, params, **kw))
        here = os.getcwd()
    finally:
        os.chdir(old_cwd)
        os.environ["PATH"] = old_path
    c.event("python_script")
    if raising and code:
        c.expect(isinstance(e, Exception), "python:nonzero-not-raised")
        c.event("nonzero_raised")
    else:
        c.require(e is None, "python:unexpected-error", error=repr(e))
        c.equal(v, code, "python:exit-code", output=out.getvalue())
    got = out.getvalue().splitlines()
    want = [" ".join(["ARGS"] + shlex.split(params)), f"CWD {wd or here}", f"ENV {'yes' if env else '-'} False"]
    if env is None:
        want[2] = f"ENV {os.environ.get('VERIF_X', '-')} {'HOME' in os.environ}"
    c.equal(got, want, "python:output")


if __name__ == "__main__":
    sys.exit(ck.main())
