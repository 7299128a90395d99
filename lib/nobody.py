"""Run a piece of a case in a child process that has given up root (for code that deletes or changes files)."""
import os
import pickle
import traceback

UID = GID = 65534


def as_nobody(scratch, case_dir, fn, seconds=120):
    """fn() in a forked child running as nobody, owner of case_dir only; returns (unprivileged, result)."""
    if os.getuid() == 0:
        os.chmod(scratch, 0o711)
        os.chown(case_dir, UID, GID)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dropped = os.getuid() != 0
            if not dropped:
                os.setgroups([])
                os.setresgid(GID, GID, GID)
                os.setresuid(UID, UID, UID)
                dropped = True
            import signal
            signal.alarm(seconds)
            os.environ["HOME"] = case_dir
            os.chdir(case_dir)
            try:
                res = ("ok", fn())
            except BaseException:  # noqa
                res = ("error", traceback.format_exc(limit=-8))
            data = pickle.dumps((dropped, res))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa
            traceback.print_exc()
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError(f"child ended with status {st}")
    dropped, (kind, val) = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(val)
    return dropped, val
