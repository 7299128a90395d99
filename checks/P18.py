"""P18: removing a tree removes exactly that tree (run as an unprivileged user that owns nothing but the scratch tree)."""
import os
import stat
import sys

from nobody import as_nobody
from vh import Check, mute_logging
from edk2toollib import utility_functions as U

mute_logging()
ck = Check("P18", ["edk2toollib/utility_functions.py"],
           rule="a case is one directory tree with modes, links and planned faults; distinct by tree and faults; non-trivial when the tree holds an entry",
           min_events={"unprivileged": 300, "removed_entry": 2000, "read_only_file": 100, "read_only_directory": 100, "unreadable_directory": 20, "link": 150,
                       "transient_fault": 60, "permanent_fault": 40, "root_is_link": 10, "missing_root": 10, "locked_parent": 10})
NAMES = ["a", "b", "file.txt", "Ü", "a b", ".hid", "x" * 120, "-rf", "new\nline", "tree", "~", "*"]


def snap(root, skip):
    """Everything below root except the entry skip and what is below it."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in list(ds) + fs:
            p = os.path.join(d, n)
            if p == skip:
                if n in ds:
                    ds.remove(n)
                continue
            st = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(st.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[rel] = ("dir", stat.S_IMODE(st.st_mode))
            else:
                try:
                    with open(p, "rb") as f:
                        out[rel] = ("file", stat.S_IMODE(st.st_mode), f.read())
                except PermissionError:
                    out[rel] = ("file", stat.S_IMODE(st.st_mode), None)
    return out


def build(rng, base, root, ev, allow_modes=True):
    """Random tree below root; returns its number of entries."""
    n = [0]
    modes = []

    def grow(d, depth):
        for name in rng.sample(NAMES, rng.randrange(0, 5)):
            p = os.path.join(d, name)
            n[0] += 1
            k = rng.random()
            if k < .4 and depth < 4:
                os.mkdir(p)
                grow(p, depth + 1)
                if allow_modes and rng.random() < .3:
                    modes.append((p, rng.choice([0o555, 0o555, 0o500])))
                    ev["read_only_directory"] = ev.get("read_only_directory", 0) + 1
            elif k < .6:
                t = rng.choice([os.path.join(base, "outside"), os.path.join(base, "outside", "keep.txt"), os.path.join(base, "outside", "ro.txt"), "../outside", "dangling", ".", "/", os.path.join(base, "outside", "sub")])
                os.symlink(t, p)
                ev["link"] = ev.get("link", 0) + 1
            else:
                with open(p, "w") as f:
                    f.write(name)
                if allow_modes and rng.random() < .4:
                    os.chmod(p, rng.choice([0o444, 0o400, 0o000]))
                    ev["read_only_file"] = ev.get("read_only_file", 0) + 1
    os.mkdir(root)
    grow(root, 0)
    for p, m in reversed(modes):
        os.chmod(p, m)
    return n[0]


def prepare(rng, base):
    os.makedirs(os.path.join(base, "outside", "sub"))
    for n, m in (("keep.txt", 0o644), ("ro.txt", 0o444), ("sub/deep.txt", 0o600)):
        with open(os.path.join(base, "outside", n), "w") as f:
            f.write("precious " + n)
        os.chmod(os.path.join(base, "outside", n), m)
    os.chmod(os.path.join(base, "outside", "sub"), 0o755)
    for n in ("tree2", "tree.bak", "tre"):
        os.mkdir(os.path.join(base, n))
        with open(os.path.join(base, n, "f"), "w") as f:
            f.write(n)


@ck.family("remove", 1000, 12000)
def remove(c):
    rng = c.rng
    base = c.tmp
    plan = rng.choice(["plain", "plain", "plain", "modes", "modes", "modes", "unreadable", "transient", "transient", "permanent", "rootlink", "missing", "parent", "ignore"])

    def work():
        ev = {}
        prepare(rng, base)
        root = os.path.join(base, "tree")
        real_unlink, real_rmdir = os.unlink, os.rmdir
        count = 0
        if plan == "missing":
            pass
        elif plan == "rootlink":
            os.symlink(os.path.join(base, "outside"), root)
        elif plan == "parent":
            os.mkdir(os.path.join(base, "locked"))
            root = os.path.join(base, "locked", "tree")
            count = build(rng, base, root, ev, False)
            os.chmod(os.path.join(base, "locked"), 0o555)
        else:
            count = build(rng, base, root, ev, plan in ("modes", "ignore"))
        if plan in ("transient", "permanent", "unreadable") and count == 0:
            open(os.path.join(root, "a"), "w").close()
            count = 1
        if plan == "unreadable":
            os.makedirs(os.path.join(root, "un", "in"))
            open(os.path.join(root, "un", "in", "x"), "w").close()
            os.chmod(os.path.join(root, "un"), rng.choice([0, 0o200, 0o444, 0o111, 0o300]))
        others = snap(base, root)
        attempts = [0]
        fail_left = [0]
        if plan in ("transient", "permanent"):
            victims = [(d, n) for d, ds, fs in os.walk(root) for n in ds + fs]
            vd, vn = rng.choice(victims)
            fail_left[0] = rng.choice([1, 2]) if plan == "transient" else 10**9
            exc = rng.choice([PermissionError, OSError, BlockingIOError])

            def faulty(real):
                def f(path, *a, **k):
                    if os.path.basename(os.fspath(path)) == vn:
                        attempts[0] += 1
                        if fail_left[0] > 0:
                            fail_left[0] -= 1
                            raise exc(16, "injected")
                    return real(path, *a, **k)
                return f
            os.unlink, os.rmdir = faulty(real_unlink), faulty(real_rmdir)
        arg = rng.choice([root, root, root + "/", os.path.relpath(root, base)])
        if plan == "rootlink":
            arg = root
        kw = {"ignore_errors": True} if plan == "ignore" else {}
        try:
            U.RemoveTree(arg, **kw)
            out = "returned"
        except Exception as e:  # noqa
            out = f"{type(e).__name__}: {e}"
        finally:
            os.unlink, os.rmdir = real_unlink, real_rmdir
        left = os.path.lexists(root)
        after = snap(base, root)
        return dict(out=out, left=left, others=others, after=after, ev=ev, count=count, attempts=attempts[0], arg=arg)
    dropped, r = as_nobody(ck.scratch, base, work)
    c.key(plan, r["count"], r["ev"], c.index, nontrivial=r["count"] > 0)
    c.note(plan=plan, arg=r["arg"], entries=r["count"], outcome=r["out"], events=r["ev"])
    for k, v in r["ev"].items():
        c.event(k, v)
    if dropped:
        c.event("unprivileged")
    c.equal(r["after"], r["others"], f"{plan}:something-else-changed", changed=sorted(set(r["after"].items()) ^ set(r["others"].items()))[:6])
    removed, raised = not r["left"], r["out"] != "returned"
    if plan in ("plain", "modes", "unreadable", "transient"):
        c.expect(removed and not raised, f"{plan}:not-removed", outcome=r["out"], left=r["left"], attempts=r["attempts"])
        c.event("removed_entry", r["count"])
        if plan == "transient":
            c.event("transient_fault")
        if plan == "unreadable":
            c.event("unreadable_directory")
    elif plan in ("permanent", "parent", "rootlink"):
        c.expect(raised and not removed, f"{plan}:failure-not-reported", outcome=r["out"], left=r["left"])
        c.expect(r["attempts"] <= 100, f"{plan}:unbounded-retries", attempts=r["attempts"])
        c.event({"permanent": "permanent_fault", "parent": "locked_parent", "rootlink": "root_is_link"}[plan])
    elif plan == "missing":
        c.expect(not r["left"], "missing:created")
        c.event("missing_root")
    else:
        c.expect(not raised, "ignore:raised", outcome=r["out"])


if __name__ == "__main__":
    sys.exit(ck.main())
