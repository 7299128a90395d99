"""P20: version comparison is a consistent order; class lookup and module import are exact."""
import itertools
import os
import sys
import types

from vh import Check, mute_logging
from edk2toollib import utility_functions as U

mute_logging()
ck = Check("P20", ["edk2toollib/utility_functions.py"],
           rule="a case is a pool of versions, a class hierarchy or a set of module files; distinct by content; non-trivial when more than one item",
           min_events={"compared": 20000, "equal_pair": 4000, "triple": 20000, "class_found": 200, "no_class": 30, "ambiguous": 80, "imported": 400, "import_failed": 60})


def spell(rng, fields):
    return ".".join(("0" * rng.choice([0, 0, 0, 1, 3])) + str(f) for f in fields)


def strip(fields):
    f = list(fields)
    while f and f[-1] == 0:
        f.pop()
    return f


@ck.family("versions", 300, 4000)
def versions(c):
    rng = c.rng
    pool = []
    base = [rng.choice([0, 1, 2, 9, 10, 11, 100, 10**12]) for _ in range(rng.choice([1, 2, 3, 4, 4, 5, 8, 13, 20]))]
    for _ in range(9):
        f = list(base)
        k = rng.random()
        if k < .4:
            f[rng.randrange(len(f))] = rng.choice([0, 1, 2, 9, 10, 19, 20, 100, 1 << 32, (1 << 32) + 1, 1 << 53, (1 << 53) + 1, 1 << 64, 10**20, 10**20 + 1])
        elif k < .7:
            f = f + [0] * rng.randrange(0, 4)
            if rng.random() < .3:
                f.append(rng.randrange(0, 2))
        else:
            f = f[:rng.randrange(1, len(f) + 1)]
        if rng.random() < .15:
            f = [0] * rng.randrange(1, 4)
        pool.append((f, spell(rng, f)))
    c.key([s for _, s in pool])
    c.note(pool=[s for _, s in pool])
    cmp = {}
    for (i, (fa, sa)), (j, (fb, sb)) in itertools.product(enumerate(pool), repeat=2):
        r = c.must("versions:failed", U.version_compare, sa, sb)
        a, b = strip(fa), strip(fb)
        c.equal(r, (a > b) - (a < b), "versions:value", versions=(sa, sb))
        cmp[i, j] = r
        c.event("compared")
        c.event("equal_pair", r == 0)
    n = len(pool)
    for i in range(n):
        c.expect(cmp[i, i] == 0, "versions:not-reflexive", version=pool[i][1])
        for j in range(n):
            c.expect(cmp[i, j] == -cmp[j, i], "versions:not-antisymmetric", versions=(pool[i][1], pool[j][1]))
            for k in range(n):
                if cmp[i, j] <= 0 and cmp[j, k] <= 0:
                    c.expect(cmp[i, k] <= 0, "versions:not-transitive", versions=(pool[i][1], pool[j][1], pool[k][1]))
                c.event("triple")


@ck.family("classes", 500, 12000)
def classes(c):
    """A random hierarchy, some of it defined elsewhere; the most derived class below the base, however things are named."""
    rng = c.rng
    mod = types.ModuleType("plugin_under_test")
    base = type("Base", (), {"__module__": "somewhere.else"})
    made = []           # classes below base
    names = [f"{p}{i}" for i, p in enumerate(rng.sample(["A", "z", "M", "_Priv", "B", "Kk", "aa", "ZZ", "É"], 9))]
    style = rng.choice(["chain", "chain", "diamond", "brothers", "none", "random", "random"])
    n = rng.randrange(1, 6)
    for i in range(n):
        if style == "none":
            break
        if style == "chain":
            parents = (made[-1],) if made else (base,)
        elif style == "diamond":
            parents = (base,) if i < 2 else tuple(rng.sample(made[:2], 2)) if i == 2 else (made[-1],)
        elif style == "brothers":
            parents = (base,)
        else:
            parents = (rng.choice(made + [base]),)
        made.append(type(names[i], parents, {"__module__": rng.choice([mod.__name__, "imported.from"])}))
    exported = [k for k in made if style != "random" or rng.random() < .8]
    for k in exported:
        setattr(mod, k.__name__, k)
        if rng.random() < .1:
            setattr(mod, "alias_" + k.__name__, k)
    if rng.random() < .7:
        mod.Base = base
    for i in range(rng.randrange(0, 4)):
        # things that are not candidates
        name = rng.choice(["AAA", "zzz", "Mm"]) + str(i)
        setattr(mod, name, rng.choice([type(name, (), {}), base() if exported else 7, "text", lambda: 0, type(name, (dict,), {}), os, object]))
    want = [k for k in exported if all(issubclass(k, o) for o in exported)]
    c.key(style, [(k.__name__, [b.__name__ for b in k.__bases__], k.__module__) for k in exported], sorted(vars(mod)), nontrivial=bool(exported))
    c.note(style=style, classes=[(k.__name__, [b.__name__ for b in k.__bases__]) for k in exported], contents=sorted(k for k in vars(mod) if not k.startswith("__")))
    if not exported:
        c.expect(c.must("classes:failed", U.locate_class_in_module, mod, base) is None, "classes:found-in-empty")
        c.event("no_class")
    elif want:
        got = c.must("classes:failed", U.locate_class_in_module, mod, base)
        c.expect(got is want[0], "classes:wrong-class", got=repr(got), want=repr(want[0]))
        c.event("class_found")
    else:
        c.must_raise("classes:ambiguity-not-reported", RuntimeError, U.locate_class_in_module, mod, base)
        c.event("ambiguous")


@ck.family("modules", 200, 4000)
def modules(c):
    """Files of equal and of well-known names are loaded separately and never replace what is loaded."""
    rng = c.rng
    names = rng.sample(["os.py", "plugin.py", "json.py", "my plugin.py", "Ü.py", "a.b.py", "logging.py", "edk2toollib.py", "vh.py", "123.py"], 3)
    files = []
    for i in range(rng.randrange(2, 6)):
        rel = f"d{i}/{rng.choice(names)}"
        body = [f"VALUE = {i * 17 + 3}", "COUNTER = []", "def who():\n    return VALUE", "import os as _os, json as _json", "SEEN = (_os.sep, _json.dumps(1), __file__)"]
        if rng.random() < .5:
            body.append("class Plugin:\n    def run(self):\n        return VALUE")
        k = rng.random()
        if k < .15:
            body.append(rng.choice(["raise ValueError('stop')", "1/0", "import no_such_module_anywhere", "def broken(:"]))
        files.append((c.write(rel, "\n".join(body) + "\n"), i * 17 + 3, k < .15))
    before = dict(sys.modules)
    path_before = list(sys.path)
    c.key([(os.path.basename(p), v, b) for p, v, b in files])
    c.note(files=[os.path.relpath(p, c.tmp) for p, _, _ in files])
    loaded = []
    dont = sys.dont_write_bytecode
    for p, v, bad in files:
        if bad:
            o = c.call(lambda: U.import_module_by_file_name(p))
            c.expect(not o.ok and not o.hang, "modules:failure-hidden", file=p)
            c.event("import_failed")
        else:
            m = c.must("modules:failed", U.import_module_by_file_name, p)
            c.equal((m.VALUE, m.who(), m.SEEN), (v, v, (os.sep, "1", p)), "modules:content")
            loaded.append((m, v))
            c.event("imported")
        now = dict(sys.modules)
        c.expect(all(now.get(k) is x for k, x in before.items()), "modules:replaced", changed=[k for k, x in before.items() if now.get(k) is not x][:5])
    for m, v in loaded:
        # each one keeps its own state
        c.equal((m.VALUE, m.who(), len(m.COUNTER)), (v, v, 0), "modules:shared-state")
        m.COUNTER.append(1)
    # loading a file twice gives a fresh module
    for p, v, bad in files[:1]:
        if not bad:
            again = c.must("modules:failed", U.import_module_by_file_name, p)
            c.expect(again is not loaded[0][0] and again.COUNTER == [], "modules:not-fresh")
    c.equal(sys.path, path_before, "modules:sys.path")
    missing = os.path.join(c.tmp, "nothing", "here.py")
    o = c.call(lambda: U.import_module_by_file_name(rng.choice([missing, os.path.join(c.tmp, "noext"), c.tmp])))
    c.expect(not o.ok, "modules:missing-accepted")
    c.event("import_failed")
    assert sys.dont_write_bytecode == dont


if __name__ == "__main__":
    sys.exit(ck.main())
