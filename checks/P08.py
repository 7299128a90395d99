"""P08: a parsed INF reports exactly what its sections list."""
import sys

import edk2gen as G
from vh import Check, mute_logging
from edk2toollib.uefi.edk2.parsers import inf_parser
from edk2toollib.uefi.edk2.parsers.inf_parser import InfParser
from edk2toollib.uefi.edk2.path_utilities import Edk2Path

mute_logging()
ALL = list(inf_parser.AllPhases)
ck = Check("P08", ["edk2toollib/uefi/edk2/parsers/inf_parser.py", "edk2toollib/uefi/edk2/parsers/base_parser.py"],
           rule="a case is one generated INF text; distinct by text; non-trivial when some section lists an entry",
           min_events={"entry": 500, "scoped_query": 500, "redefined": 50})


@ck.family("model", 3000, 60000)
def model(c):
    rng = c.rng
    lines, ex = G.gen_inf(rng)
    text = G.decorate(rng, lines)
    n = sum(len(ex[k]) for k in ("packages", "libraries", "protocols", "guids", "ppis", "pcds", "sources", "binaries"))
    c.key(text, nontrivial=n > 0)
    c.note(inf=text)
    c.event("entry", n)
    p = InfParser()
    path = c.write("P/a.inf", text)
    if rng.random() < .3:
        p.SetEdk2Path(Edk2Path(c.tmp, []))
        path = "P/a.inf"
    c.must("model:file", p.ParseFile, path)
    c.expect(p.Parsed is True, "model:parsed-flag")
    ex["phases"] = ALL if ex["phases"] is None else ex["phases"]
    got = G.snap_inf(p)
    for k in got:
        c.equal(got[k], ex[k], f"model:{k}")
    for _ in range(4):
        ar = rng.sample(G.ARCHES, rng.randrange(0, 4))
        q = [G.recase(rng, a) for a in ar]
        c.event("scoped_query")
        for fn, key in ((p.get_libraries, "slibs"), (p.get_sources, "ssrcs")):
            want = set(ex[key].get("common", [])) | {x for a in ar for x in ex[key].get(a.lower(), [])}
            r = c.must("query", fn, q)
            c.equal(set(r), want, f"query:{key}", arches=q)
            c.equal(len(r), len(want), f"query:{key}:repeated")
            r.append("tampered")  # the answer is a copy, later queries must not see this
            c.equal(set(fn(q)), want, f"query:{key}:aliased")


@ck.family("macros", 800, 15000)
def macros(c):
    """DEFINE lines in any section; names and values containing the keyword."""
    rng = c.rng
    nm = G.Names(rng)
    env, lines, want = {}, ["[Defines]", "BASE_NAME = x"], []

    def define():
        k = rng.choice(["DEFINE_", "MY_DEFINE_", "A_", "DEFINED"]) + str(rng.randrange(4 if rng.random() < .5 else 100))
        v = rng.choice(["dir", "UNDEFINED/x", "DEFINE", "a/DEFINE/b"])
        w = v
        if env and rng.random() < .3:  # built from an earlier one
            j = rng.choice(sorted(env))
            v, w = f"$({j})/{v}", f"{env[j]}/{v}"
        if k in env:
            c.event("redefined")
        env[k] = w
        lines.append(f"DEFINE {k}{rng.choice([' = ', '=', '  =  '])}{v}")
    for _ in range(rng.randrange(1, 6)):
        define()
    for _ in range(rng.randrange(1, 5)):
        lines.append(rng.choice(["[Sources]", "[Sources.X64]", "[Sources.common]"]))
        for _ in range(rng.randrange(0, 4)):
            if rng.random() < .25:
                define()
            f = nm.path(".c")
            if rng.random() < .15:  # not defined yet at this line: stays as written, whatever follows
                k = rng.choice(["DEFINE_", "A_", "LATER_"]) + str(rng.randrange(4))
                c.event("undefined", k not in env)
            else:
                k = rng.choice(sorted(env))
            lines.append(f"$({k})/{f}")
            want.append(f"{env[k]}/{f}" if k in env else f"$({k})/{f}")
            if rng.random() < .3:
                f = rng.choice(["DEFINES.c", "DEFINE.h", "DEFINITION/x.c"])
                lines.append(f)
                want.append(f)
    text = G.decorate(rng, lines)
    c.key(text, nontrivial=bool(want))
    c.note(inf=text)
    p = InfParser()
    c.must("macros:file", p.ParseFile, c.write("a.inf", text))
    c.equal(list(p.Sources), want, "macros:sources")
    c.equal(set(p.get_sources(["X64"])), set(want), "macros:scoped-sources")
    c.equal({k: p.LocalVars.get(k) for k in env}, env, "macros:definitions")
    c.event("entry", len(want))


if __name__ == "__main__":
    sys.exit(ck.main())
