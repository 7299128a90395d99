"""P37: the TPM simulator transport frames commands and returns whole responses."""
import socket
import struct
import sys
import threading
import time

from vh import Check, mute_logging, quiet

mute_logging()
from edk2toollib.tpm.tpm2_simulator import TpmSimulator

# A blocked call is reported after this many seconds; the fake simulator itself never delays longer than milliseconds.
WAIT = 25
socket.setdefaulttimeout(WAIT)
ck = Check("P37", ["edk2toollib/tpm/tpm2_simulator.py"],
           rule="a case is one connection to a fake simulator: a sequence of commands and the segmentation, delays and loss of its answers; distinct by command sizes, response sizes, segment boundaries and loss point; non-trivial when an answer was split or lost",
           min_events={"connection": 300, "command": 500, "response": 350, "split_in_size": 80, "split_in_data": 80, "coalesced_ack": 40, "polled": 60, "lost": 120, "lost_in_size": 15, "lost_in_data": 25, "lost_before_answer": 15, "lost_in_command": 10, "large": 20})
_ports = []


def listeners():
    """Two listening sockets on consecutive ports, one pair per process."""
    import os
    if _ports and _ports[0] == os.getpid():
        return _ports[1]
    for _ in range(500):
        a, b = socket.socket(), socket.socket()
        try:
            a.bind(("127.0.0.1", 0))
            b.bind(("127.0.0.1", a.getsockname()[1] + 1))
            a.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 8192)  # so that a large command cannot be sent in one piece
            a.listen(8)
            b.listen(8)
            _ports[:] = [os.getpid(), (a, b, a.getsockname()[1])]
            return _ports[1]
        except (OSError, OverflowError):
            a.close()
            b.close()
    raise OSError("no pair of free ports")


class Lost(Exception):
    pass


class Fake(threading.Thread):
    """Plays the script: for every command a list of (bytes, pause) segments, or a loss."""

    def __init__(self, script, lose_in_command=None, reset=False, slow=False):
        super().__init__(daemon=True)
        self.script, self.lose_in_command, self.reset, self.slow = script, lose_in_command, reset, slow
        self.frames, self.plat, self.error, self.done, self.rest = [], b"", None, threading.Event(), b""

    def exact(self, s, n):
        out = b""
        while len(out) < n:
            if self.slow and len(out) % 3 == 0:
                time.sleep(0.0005)
            x = s.recv(min(n - len(out), 65536 if self.slow else 1 << 20))
            if not x:
                raise Lost
            out += x
        return out

    def run(self):
        socks = []
        try:
            a, b, _ = listeners_of_main
            p, _ = b.accept()
            socks.append(p)
            t, _ = a.accept()
            socks.append(t)
            t.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.plat = self.exact(p, 12)
            for i, segs in enumerate(self.script):
                if self.lose_in_command is not None and i == len(self.script) - 1:
                    self.exact(t, self.lose_in_command)
                    raise Lost
                head = self.exact(t, 9)
                code, loc, n = struct.unpack(">IBI", head)
                if code != 8 or n > 1 << 24:
                    self.frames.append((code, loc, n, b""))
                    raise Lost
                self.frames.append((code, loc, n, self.exact(t, n)))
                for data, pause in segs:
                    if data is None:
                        raise Lost
                    t.sendall(data)
                    if pause:
                        time.sleep(pause)
            self.done.wait(WAIT)
            # nothing may follow the last command
            t.setblocking(False)
            p.setblocking(False)
            for s in (t, p):
                try:
                    self.rest += s.recv(64)
                except OSError:
                    pass
        except Lost:
            if self.reset:
                for s in socks:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError as e:
            self.error = repr(e)
        finally:
            for s in socks:
                s.close()


listeners_of_main = None


def drain(sim):
    for s in ("platSock", "tpmSock"):
        s = getattr(sim, s, None)
        if s is not None:
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
            except OSError:
                pass


def segments(c, stream, marks):
    """Cut the bytes of one answer at random places, preferring the marked boundaries."""
    rng = c.rng
    cuts = set()
    for _ in range(rng.choice([0, 0, 1, 2, 3, 6])):
        cuts.add(rng.choice(marks + [rng.randrange(1, len(stream)), rng.randrange(1, min(16, len(stream)))]))
    if rng.random() < 0.05 and len(stream) < 60:
        cuts = set(range(1, len(stream)))
    cuts = [x for x in sorted(cuts) if 0 < x < len(stream)]
    pos = [0] + cuts + [len(stream)]
    return [(stream[x:y], rng.choice([0, 0.001, 0.003])) for x, y in zip(pos, pos[1:])], cuts


@ck.family("connection", 500, 6000)
def connection(c):
    global listeners_of_main
    rng = c.rng
    loss = rng.choice([None, None, None, "answer", "answer", "command"])
    ncmd = rng.randrange(1, 5)
    script, cmds, answers, shape = [], [], [], []
    for i in range(ncmd):
        last = i == ncmd - 1
        start = rng.random() < 0.15
        if start:
            su = rng.randrange(2)
            data = bytes.fromhex("80010000000c00000144") + struct.pack(">H", su)
        else:
            data = rng.choice([b"", b"\0", rng.randbytes(rng.randrange(1, 64)), rng.randbytes(rng.choice([255, 256, 4096, 65535, 65536])), bytes(range(256)), b"\x00\x00\x00\x08" * 3])
        if rng.random() < 0.05:
            data, start = rng.randbytes(rng.choice([300_000, 6_000_000])), False
            c.event("large")
        ans = rng.choice([rng.randbytes(10), bytes(10), rng.randbytes(rng.randrange(1, 40)), b"\0", rng.randbytes(rng.choice([1000, 1460, 4096, 65536])), bytes(rng.randrange(1, 9)), b"\x00\x00\x00\x00\x00\x00\x00\x05abcde"])
        if rng.random() < 0.06:
            ans = rng.randbytes(rng.choice([200_000, 1_000_000]))
            c.event("large")
        polls = rng.choice([0, 0, 0, 1, 3])
        ack = rng.random() < 0.5 and not last or rng.random() < 0.3
        stream = bytes(4 * polls) + struct.pack(">I", len(ans)) + ans + (bytes(4) if ack else b"")
        b = 4 * polls
        segs, cuts = segments(c, stream, [b, b + 1, b + 2, b + 3, b + 4, b + 4 + len(ans), b + 4 + len(ans) - 1, b + 5])
        c.event("polled", int(polls > 0))
        c.event("split_in_size", int(any(b < x < b + 4 for x in cuts)))
        c.event("split_in_data", int(any(b + 4 < x < b + 4 + len(ans) for x in cuts)))
        c.event("coalesced_ack", int(ack and b + 4 + len(ans) not in cuts))
        if last and loss == "answer":
            k = rng.choice([0, b, b + 1, b + 2, b + 3, b + 4, b + 4 + len(ans) - 1, rng.randrange(b + 4 + len(ans)), rng.randrange(b + 4 + len(ans))])
            segs = ([(stream[:k], rng.choice([0, 0.002]))] if k else []) + [(None, 0)]
            c.event("lost_before_answer" if k <= b else "lost_in_size" if k < b + 4 else "lost_in_data")
            cuts = ["lost", k]
        script.append(segs)
        cmds.append((start, su if start else None, data))
        answers.append(ans)
        shape.append((len(data), len(ans), polls, ack, tuple(cuts)))
    in_command = None
    if loss == "command":
        in_command = rng.choice([0, 1, 4, 5, 8, 9, rng.randrange(9 + len(cmds[-1][2]))])
        in_command = min(in_command, 9 + len(cmds[-1][2]) - 1)
        c.event("lost_in_command")
    c.event("connection")
    c.event("lost", int(loss is not None))
    c.key(shape, loss, in_command, nontrivial=loss is not None or any(s[4] for s in shape))
    c.note(commands=shape, loss=loss, lost_after_command_bytes=in_command)

    listeners_of_main = listeners()
    srv = Fake(script, in_command, reset=loss is not None and rng.random() < 0.3, slow=rng.random() < 0.2)
    srv.start()
    sim = None
    try:
        with quiet():
            o = c.call(TpmSimulator, "127.0.0.1", listeners_of_main[2])
        c.require(o.ok, "connect", outcome=repr(o), trace=o.tb)
        sim = o.value
        for i, (start, su, data) in enumerate(cmds):
            with quiet():
                o = c.call(sim.startup, su) if start else c.call(sim.send_data, data)
            c.event("command")
            if loss and i == ncmd - 1:
                c.expect(not o.ok and not o.hang and not isinstance(o.exc, (TimeoutError, SystemExit)), "lost-connection:" + ("waits" if o.hang or isinstance(o.exc, TimeoutError) else "partial-data-returned"),
                         outcome=repr(o), trace=o.tb)
                break
            c.require(o.ok, "command:unexpected-error" if not isinstance(o.exc, TimeoutError) else "command:waits", outcome=repr(o), trace=o.tb, command=i)
            c.event("response")
            c.require(isinstance(o.value, (bytes, bytearray)) and bytes(o.value) == answers[i], "response:bytes", command=i, got_len=len(o.value), want_len=len(answers[i]), got=repr(o.value[:64]), expected=repr(answers[i][:64]))
    finally:
        srv.done.set()
        srv.join(WAIT + 5)
        if sim is not None:
            drain(sim)
    c.equal(srv.plat, struct.pack(">III", 2, 1, 11), "power-up-sequence")
    whole = ncmd - 1 if in_command is not None else ncmd
    c.equal(len(srv.frames), whole, "frames:count", error=srv.error)
    for i, ((code, loc, n, body), (_, _, data)) in enumerate(zip(srv.frames, cmds)):
        c.equal((code, loc, n), (8, 3, len(data)), "frame:header", command=i)
        c.expect(body == data, "frame:bytes", command=i, got=repr(body[:64]), expected=repr(data[:64]))
    if not loss:
        c.expect(srv.rest == b"", "frames:extra-bytes", got=repr(srv.rest))


sys.exit(ck.main())
