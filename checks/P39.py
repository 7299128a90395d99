"""P39: generated INF files and catalog runs state exactly what the caller gave."""
import datetime
import os
import re
import stat
import sys
import uuid

from vh import Check, mute_logging, quiet

mute_logging()
from edk2toollib.windows import locate_tools as L
from edk2toollib.windows.capsule import cat_generator as CG
from edk2toollib.windows.capsule import inf_generator as G1
from edk2toollib.windows.capsule import inf_generator2 as G2

ck = Check("P39", ["edk2toollib/windows/capsule/inf_generator.py", "edk2toollib/windows/capsule/inf_generator2.py", "edk2toollib/windows/capsule/cat_generator.py"],
           rule="a case is one INF (all values, entries and refused attempts) or one catalog run (system, architecture, folder, tool behaviour); distinct by those; non-trivial when it has two entries, an option or a fault",
           min_events={"inf2": 300, "tag_collision": 20, "inf1": 250, "firmware": 600, "rollback": 200, "integrity": 200, "refused": 700, "shared_file": 60, "duplicate_tag": 60, "setter_history": 250, "no_firmware": 10, "quoted_text": 200, "cat_run": 60, "cat_tool_failed": 20, "cat_no_file": 10, "cat_bare_name": 10})

ARCHES = {"amd64": "amd64", "x64": "amd64", "arm": "arm", "arm64": "arm64", "aarch64": "arm64"}
REFUSED = (Exception,)


class Bad(Exception):
    pass


# ---------------------------------------------------------------- reading an INF

def split_quoted(line, sep):
    """Fields of a line at a separator that is not inside of quotes."""
    out, cur, inq = [], "", False
    for ch in line:
        if ch == '"':
            inq = not inq
        if ch == sep and not inq:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if inq:
        raise Bad("unbalanced quote in %r" % line[:200])
    return out + [cur]


def unquote(v):
    v = v.strip(" \t")
    if v.startswith('"'):
        if not (len(v) >= 2 and v.endswith('"')):
            raise Bad("text around a quoted string: %r" % v[:200])
        inner = v[1:-1]
        if '"' in inner.replace('""', ""):
            raise Bad("text around a quoted string: %r" % v[:200])
        return inner.replace('""', '"')
    if '"' in v:
        raise Bad("quote inside of a value: %r" % v[:200])
    return v


class Inf:
    """Sections of an INF by lower case name, each a list of (key or None, [fields])."""

    def __init__(self, text):
        self.sections = {}
        cur = None
        for line in text.replace("\r\n", "\n").split("\n"):
            if "\r" in line:
                raise Bad("control character")
            line = split_quoted(line, ";")[0].strip(" \t")
            if not line:
                continue
            if line.startswith("["):
                if not line.endswith("]") or not re.fullmatch(r"[^\[\]%\";]+", line[1:-1]):
                    raise Bad("section header %r" % line[:200])
                name = line[1:-1].strip().lower()
                if name in self.sections:
                    raise Bad("section %r defined twice" % name)
                cur = self.sections[name] = []
                continue
            if cur is None:
                raise Bad("line outside of a section: %r" % line[:200])
            parts = split_quoted(line, "=")
            if len(parts) > 2:
                raise Bad("several '=' in %r" % line[:200])
            key = parts[0].strip(" \t") if len(parts) == 2 else None
            cur.append((key, [f.strip(" \t") for f in split_quoted(parts[-1], ",")]))
        self.strings = {}
        for k, f in self.need("strings"):
            if not k or len(f) != 1:
                raise Bad("string entry %r" % ((k, f),))
            if k.lower() in self.strings:
                raise Bad("string %r defined twice" % k)
            self.strings[k.lower()] = unquote(f[0])
        # every %token% that is used is defined
        for name, entries in self.sections.items():
            if name != "strings":
                for k, f in entries:
                    for t in [k or ""] + f:
                        self.expand(t)

    def need(self, name):
        if name.lower() not in self.sections:
            raise Bad("section %r is referenced and not defined" % name)
        return self.sections[name.lower()]

    def expand(self, t):
        def one(m):
            tok = m.group(1)
            if tok == "13":
                return "<13>"
            if tok.lower() not in self.strings:
                raise Bad("string %r is referenced and not defined" % tok)
            return self.strings[tok.lower()]
        t = unquote(t)
        r = re.sub(r"%([^%]*)%", one, t)
        if "%" in re.sub(r"%([^%]*)%", "", t):
            raise Bad("stray %% in %r" % t[:200])
        return r

    def single(self, section, key):
        got = [f for k, f in self.need(section) if k is not None and k.lower() == key.lower()]
        if len(got) != 1:
            raise Bad("%d entries %r in [%s]" % (len(got), key, section))
        return [self.expand(x) for x in got[0]]

    def optional(self, section, key):
        if any(k is not None and k.lower() == key.lower() for k, _ in self.need(section)):
            return self.single(section, key)
        return None


def number(s):
    if not re.fullmatch(r"0[xX][0-9a-fA-F]+|\d+", s):
        raise Bad("not a number: %r" % s)
    return int(s, 0)


def read_inf(text):
    """What the file states, and whether every reference in it is defined once."""
    inf = Inf(text)
    d = {"signature": inf.single("version", "Signature"), "class": inf.single("version", "Class"),
         "classguid": [x.lower() for x in inf.single("version", "ClassGuid")], "provider": inf.single("version", "Provider"),
         "driverver": inf.single("version", "DriverVer"), "catalog": inf.single("version", "CatalogFile")}
    man = inf.need("manufacturer")
    if len(man) != 1:
        raise Bad("%d manufacturers" % len(man))
    k, f = man[0]
    d["manufacturer"] = inf.expand(k)
    f = [inf.expand(x) for x in f]
    if len(f) != 2:
        raise Bad("manufacturer entry %r" % f)
    d["target"] = f[1].lower()
    disks = {}
    for k, f in inf.need("sourcedisksnames"):
        if k in disks:
            raise Bad("disk %r twice" % k)
        disks[k] = inf.expand(f[0])
    files = {}
    for k, f in inf.need("sourcedisksfiles"):
        if not k or k.lower() in files:
            raise Bad("source file %r twice or unnamed" % k)
        if f[0] not in disks:
            raise Bad("disk %r is referenced and not defined" % f[0])
        files[k.lower()] = disks[f[0]]
    d["files"] = files
    dirs = inf.need("destinationdirs")
    if [(k.lower(), f) for k, f in dirs] != [("defaultdestdir", ["13"])]:
        raise Bad("destination %r" % dirs)
    fws = []
    for k, f in inf.need("%s.%s" % (inf.expand(man[0][1][0]), inf.expand(man[0][1][1]))):
        f = [inf.expand(x) for x in f]
        if k is None or len(f) != 2:
            raise Bad("model entry %r" % ((k, f),))
        inst = f[0]
        w = {"desc": inf.expand(k), "hwid": f[1].lower()}
        copy = []
        for sec in inf.single(inst + ".NT", "CopyFiles"):
            for ck_, cf in inf.need(sec):
                if ck_ is not None or len(cf) != 1:
                    raise Bad("copy entry %r" % ((ck_, cf),))
                copy.append(inf.expand(cf[0]))
        w["copy"] = copy
        for x in copy:
            if x.lower() not in files:
                raise Bad("copied file %r is not a source file" % x)
        if inf.single(inst + ".NT.Services", "AddService") != ["", "2"]:
            raise Bad("services")
        w["policy"] = []
        for sec in inf.optional(inst + ".NT", "AddReg") or []:
            w["policy"] += [[inf.expand(x) for x in rf] for rk, rf in inf.need(sec)]
        reg = {}
        for sec in inf.single(inst + ".NT.Hw", "AddReg"):
            for rk, rf in inf.need(sec):
                rf = [inf.expand(x) for x in rf]
                if rk is not None or len(rf) != 5 or rf[:2] != ["HKR", ""] and False:
                    if not (rk is None and len(rf) in (4, 5) and rf[0].upper() == "HKR" and rf[1] == ""):
                        raise Bad("registry entry %r" % (rf,))
                if rf[2] in reg:
                    raise Bad("registry value %r twice" % rf[2])
                reg[rf[2]] = rf[3:]
        w["reg"] = reg
        fws.append(w)
    d["fw"] = fws
    return d


def expect_fw(g, ver, fw, integ, rollback, desc):
    g = "{%s}" % str(uuid.UUID(g))
    reg = {"FirmwareId": ["", g], "FirmwareVersion": ["0x00010001", ver], "FirmwareFilename": ["", "<13>\\" + fw]}
    copy = [fw]
    if integ is not None:
        reg["FirmwareIntegrityFilename"] = ["", "<13>\\" + integ]
        copy.append(integ)
    pol = []
    if rollback:
        pol = [["HKLM", "SYSTEM\\CurrentControlSet\\Control\\FirmwareResources\\" + g, "Policy", "0x00010001", "1"]]
    return {"desc": desc, "hwid": "uefi\\res_" + g, "copy": copy, "policy": pol, "reg": reg}


def compare(c, text, want, fws, exact_files=True, where="inf"):
    try:
        d = read_inf(text)
    except Bad as e:
        c.violate(where + ":malformed", why=str(e), text=text[-3000:])
        return
    c.equal(d["signature"], ["$WINDOWS NT$"], where + ":signature")
    c.equal(d["class"], ["Firmware"], where + ":class")
    c.equal(d["classguid"], ["{f2e7dd72-6468-4e36-b6f1-6488f42c1b52}"], where + ":class-guid")
    for k in ("provider", "driverver", "catalog", "manufacturer", "target"):
        c.equal(d[k], want[k], where + ":" + k)
    for w in d["fw"]:
        if "FirmwareVersion" in w["reg"]:
            try:
                w["reg"]["FirmwareVersion"][1] = number(w["reg"]["FirmwareVersion"][1])
            except Bad as e:
                c.violate(where + ":version-number", why=str(e))
        for k in ("FirmwareId",):
            if k in w["reg"]:
                w["reg"][k][1] = w["reg"][k][1].lower()
        for p in w["policy"]:
            p[1] = re.sub(r"\{.*\}", lambda m: m.group(0).lower(), p[1])
    c.equal(len(d["fw"]), len(fws), where + ":firmware-count")
    key = repr
    for g, w in zip(sorted(d["fw"], key=key), sorted(fws, key=key)):
        for k in w:
            c.equal(g[k], w[k], where + ":firmware-" + k, whole=g)
    need = {f.lower() for w in fws for f in w["copy"]}
    have = set(d["files"])
    if exact_files:
        c.equal(sorted(have), sorted(need), where + ":source-files")
    else:
        c.expect(need <= have, where + ":source-files", have=sorted(have), need=sorted(need))
    c.equal(set(d["files"].values()) - {want["disk"]}, set(), where + ":disk-name")


# ---------------------------------------------------------------- values

def gname(rng):
    return rng.choice(["Firmware", "sample-pkg", "A", "x" * 60, "0", "_", "-", "".join(rng.choice("abcXYZ019_-") for _ in range(rng.randrange(1, 20)))])


def bad_name(rng):
    k = rng.random()
    n = gname(rng)
    if k < 0.3:
        return n + "\n"
    i = rng.randrange(len(n) + 1)
    return n[:i] + rng.choice(["\n", " ", "%", "]", "[", ";", ".", "/", "\\", "\"", "\0", "\n[Evil]\n", ",", "=", "\r", "\t", "(", "{"]) + n[i:]


def gver(rng):
    return ".".join(str(rng.choice([0, 1, 65535, rng.randrange(70000)])) for _ in range(rng.randrange(2, 5)))


def bad_ver(rng):
    v = gver(rng)
    full = ".".join(str(rng.randrange(100)) for _ in range(4))
    return rng.choice([v + "\n", v + ".", "." + v, full + ".5", full + ".5.6.7", "1", "", v + " ", " " + v, v + ";", v.replace(".", ","), v.replace(".", ".."), v + "\n[Evil]", "1.2;3", v.replace(".", ". "), "1-2.3", "-1.2", v + ",x", "%a%.1"])


def gtext(rng):
    k = rng.random()
    if k < 0.35:
        return rng.choice(['a "quoted" word', '"', '""', '"""', 'ends with "', '" starts', "semi;colon", "a,b=c", "[Strings]", "per cent", "back\\slash\\", " lead and trail ", "tab\tin", "", "{0}{Name}{{}}", "it's", "; comment", "a = \"b\""])
    if k < 0.5:
        return "".join(rng.choice("aé漢字ß\U0001F600 \"") for _ in range(rng.randrange(1, 12)))
    return rng.choice(["Test Provider", "Contoso Ltd.", "UEFI Firmware", "System Firmware 1.0 (64 bit)", "".join(rng.choice("abc XYZ.,-_()&;") for _ in range(rng.randrange(1, 40)))])


def bad_text(rng):
    t = gtext(rng)
    i = rng.randrange(len(t) + 1)
    return t[:i] + rng.choice(["\n", "\r", "\r\n", "\n[Evil]\nx=y\n", "\0", "\x1b"]) + t[i:]


def gguid(rng):
    u = str(uuid.UUID(int=rng.getrandbits(128)))
    return rng.choice([u, u, u.upper(), "{" + u + "}", u.replace("-", ""), "urn:uuid:" + u])


def bad_guid(rng):
    u = str(uuid.UUID(int=rng.getrandbits(128)))
    return rng.choice([u[:-1], u + "0", "", u.replace(u[3], "g"), u + "}\n[Evil]", "not a guid"])


def gint(rng):
    n = rng.choice([0, 1, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, rng.getrandbits(32), rng.randrange(300)])
    return n, rng.choice([str(n), hex(n), "0x%08X" % n, "0x%X" % n, "0o%o" % n, "0b" + bin(n)[2:]])


def bad_int(rng):
    n = rng.choice([1 << 32, (1 << 32) + 5, 1 << 40, -1, -rng.getrandbits(20) - 1, 1 << 64])
    return rng.choice([str(n), hex(n), "", "abc", "1.5", "0x", "0xG", "12 34", "1\n2"])


def gfile(rng):
    return rng.choice(["fw.bin", "Firmware-1.2.bin", "a", "FW_0.cap", "x" * 40 + ".bin", "".join(rng.choice("abcXYZ019_-.") for _ in range(rng.randrange(1, 12))) + "x"])


def bad_file(rng):
    f = gfile(rng)
    i = rng.randrange(len(f) + 1)
    return rng.choice([f + "\n", "", f[:i] + rng.choice(["/", "\n", "%", ";", ",", "=", "[", "]", "\"", "\0", "\\", "\n[Evil]\n"]) + f[i:]])


def gdate(rng):
    d = datetime.date(rng.randrange(1980, 2100), 1, 1) + datetime.timedelta(days=rng.randrange(365))
    return rng.choice([d, d, datetime.date(2024, 2, 29), datetime.date(2023, 12, 31)])


def bad_date(rng):
    return rng.choice(["13/01/2021", "02/30/2021", "2021-01-01", "", "01/01/21x", "01/01/2021\n[x]", "00/10/2020", "29/02/2023", "01/01/2021 "+"a"])


def garch(rng):
    a = rng.choice(sorted(ARCHES))
    return "".join(ch.upper() if rng.random() < 0.3 else ch for ch in a), ARCHES[a]


def bad_arch(rng):
    return rng.choice(["ia32", "x86", "", "arm65", "amd64 ", "x64\n", "riscv64", "AMD", "arm,x64"])


def gos(rng):
    v = rng.choice(["10.0", "10.0.1", "10.0...17763", "10.0...22000", "10.0.1...17134", "10.0...1"])
    return rng.choice(["", " ", "\t"]) + v + rng.choice(["", " "])


def bad_os(rng):
    return rng.choice(["11.0", "10", "10.0..17763", "10.0...", "10.0...1x", "6.1...7600", "", "10.0...1,NTamd64", "10.0...17134\n[Evil]", "10.0...17134]"])


# ---------------------------------------------------------------- several firmware entries

@ck.family("inf-multi", 900, 9000)
def multi(c):
    rng = c.rng
    a, arch = garch(rng)
    d = gdate(rng)
    v = dict(name=gname(rng), ver=gver(rng), date=rng.choice([d.strftime("%m/%d/%Y"), "%d/%d/%d" % (d.month, d.day, d.year)]), prov=gtext(rng), man=gtext(rng))
    kw = {}
    default_arch = rng.random() < 0.1
    if default_arch:
        arch = "amd64"
    else:
        kw["Arch"] = a
    disk = "Firmware Update"
    if rng.random() < 0.5:
        kw["DiskName"] = disk = gtext(rng)
    osv = "10.0...17134"
    if rng.random() < 0.5:
        kw["TargetOsVersion"] = gos(rng)
        osv = kw["TargetOsVersion"].strip()
    order = ["name", "ver", "date", "prov", "man"]
    # attempts which must be refused before the good one
    for _ in range(rng.randrange(3)):
        k = rng.choice(["name", "ver", "date", "prov", "man", "arch", "disk", "os"])
        b, bk = dict(v), dict(kw)
        bad = {"name": bad_name, "ver": bad_ver, "date": bad_date, "prov": bad_text, "man": bad_text, "arch": bad_arch, "disk": bad_text, "os": bad_os}[k](rng)
        if k in b:
            b[k] = bad
        else:
            bk[{"arch": "Arch", "disk": "DiskName", "os": "TargetOsVersion"}[k]] = bad
        c.event("refused")
        c.must_raise("refused:" + k, REFUSED, lambda: str(G2.InfFile(*[b[x] for x in order], **bk)), info=bad)
    f = c.must("inf-file", G2.InfFile, *[v[x] for x in order], **kw)
    want = {"provider": [v["prov"]], "driverver": [d.strftime("%m/%d/%Y"), v["ver"]], "catalog": [v["name"] + ".cat"], "manufacturer": v["man"], "target": "nt%s.%s" % (arch, osv.lower()), "disk": disk}
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 5, 8, 30]) if rng.random() < 0.9 else rng.randrange(60)
    tags, fws, files, dirty, rolled = [], [], [], False, set()
    guid_pool = []
    for i in range(n):
        tag = None
        while tag is None or tag.lower() in [t.lower() for t in tags]:
            tag = rng.choice(["Firmware%d" % i, gname(rng), "tag_%d" % rng.randrange(1000), (tags[-1] + "X") if tags else "T", rng.choice(tags) + "_DowngradePolicy" if tags else "T_DowngradePolicy", tags[-1][:-16] if tags and tags[-1].endswith("_DowngradePolicy") and len(tags[-1]) > 16 else "U"])
        fw = rng.choice(files) if files and rng.random() < 0.2 else gfile(rng)
        if fw.lower() in [x.lower() for x in files]:
            c.event("shared_file")
            if rng.random() < 0.5:
                fw = rng.choice([fw.upper(), fw.lower(), fw.swapcase()])
        integ = None
        if rng.random() < 0.4:
            integ = rng.choice(files) if files and rng.random() < 0.2 else gfile(rng)
            if integ.lower() == fw.lower():
                integ += ".int"
            c.event("integrity")
        roll = rng.random() < 0.4
        num, txt = gint(rng)
        g = rng.choice(guid_pool) if guid_pool and rng.random() < 0.1 else gguid(rng)
        desc = gtext(rng)
        args = dict(Tag=tag, Description=desc, EsrtGuid=g, VersionInt=txt, FirmwareFile=fw)
        if roll or rng.random() < 0.5:
            args["Rollback"] = roll
        if integ is not None:
            args["IntegrityFile"] = integ
        if rng.random() < 0.25:
            k = rng.choice(["Tag", "Tag", "Description", "EsrtGuid", "VersionInt", "VersionInt", "FirmwareFile", "IntegrityFile"])
            b = dict(args)
            b[k] = {"Tag": bad_name, "Description": bad_text, "EsrtGuid": bad_guid, "VersionInt": bad_int, "FirmwareFile": bad_file, "IntegrityFile": bad_file}[k](rng)
            if k == "Tag" and tags and rng.random() < 0.5:
                b[k] = rng.choice(tags)
                b[k] = rng.choice([b[k], b[k].upper(), b[k].lower()])
                c.event("duplicate_tag")
            dirty = True
            c.event("refused")
            c.must_raise("refused:" + k, REFUSED, f.AddFirmware, **b)
            if k in ("Description", "IntegrityFile", "FirmwareFile") and b["Tag"].lower() not in [t.lower() for t in tags] and rng.random() < 0.5:
                tag = args["Tag"] = args["Tag"] + "b"
                if tag.lower() in [t.lower() for t in tags]:
                    continue
        p = "_downgradepolicy"
        if roll and tag.lower() + p in [t.lower() for t in tags] or tag.lower().endswith(p) and tag.lower()[:-len(p)] in rolled:
            # one tag's section would have the name of another's policy section: refused, or kept apart
            c.event("tag_collision")
            o = c.call(f.AddFirmware, **args)
            if not o.ok:
                c.expect(isinstance(o.exc, ValueError), "collision:error", outcome=repr(o))
                dirty = True
                continue
        else:
            c.must("add", f.AddFirmware, **args)
        if roll:
            rolled.add(tag.lower())
        c.event("firmware")
        if roll:
            c.event("rollback")
        if '"' in desc or ";" in desc:
            c.event("quoted_text")
        tags.append(tag)
        files += [fw] + ([integ] if integ is not None else [])
        guid_pool.append(g)
        fws.append(expect_fw(g, num, fw, integ, roll, desc))
        if rng.random() < 0.05:
            compare(c, c.must("str", str, f), want, list(fws), exact_files=not dirty)
    if not fws:
        c.event("no_firmware")
    c.event("inf2")
    text = c.must("str", str, f)
    compare(c, text, want, fws, exact_files=not dirty)
    c.equal(c.must("str", str, f), text, "str-not-stable")
    c.key("inf2", text, nontrivial=n > 1)


# ---------------------------------------------------------------- one firmware entry

@ck.family("inf-single", 900, 8000)
def single(c):
    rng = c.rng
    cur = {}

    def fresh(k):
        if k == "Arch":
            return garch(rng)
        if k == "VersionHex":
            n, t = gint(rng)
            return t, n
        if k == "Date":
            d = gdate(rng)
            return rng.choice([d, datetime.datetime(d.year, d.month, d.day, 13, 14)]), d
        v = {"Name": gname, "Provider": gtext, "Manufacturer": gtext, "EsrtGuid": gguid, "Description": gtext, "VersionString": gver, "IntegrityFilename": gfile}[k](rng)
        return v, v

    order = ["Name", "Provider", "EsrtGuid", "Arch", "Description", "VersionString", "VersionHex"]
    vals = {k: fresh(k) for k in order}
    bads = {"Name": bad_name, "EsrtGuid": bad_guid, "Arch": bad_arch, "VersionString": bad_ver, "VersionHex": bad_int}
    for _ in range(rng.randrange(3)):
        k = rng.choice(sorted(bads))
        b = {x: vals[x][0] for x in order}
        b[k] = bads[k](rng)
        c.event("refused")
        c.must_raise("refused1:" + k, REFUSED, G1.InfGenerator, *[b[x] for x in order], info=b[k])
    before = datetime.date.today()
    g = c.must("generator", G1.InfGenerator, *[vals[x][0] for x in order])
    cur = {k: vals[k][1] for k in order}
    cur["Date"] = None
    if rng.random() < 0.8:
        a, b = fresh("Date")
        g.Date = a
        cur["Date"] = b
    steps = rng.randrange(1, 4)
    for step in range(steps):
        for _ in range(rng.randrange(4)):
            k = rng.choice(order + ["Manufacturer", "Manufacturer", "Date", "IntegrityFilename", "IntegrityFilename"])
            c.event("setter_history")
            if k in bads and rng.random() < 0.5:
                c.event("refused")
                c.must_raise("refused1:" + k, REFUSED, setattr, g, k, bads[k](rng))
            elif k == "Date" and rng.random() < 0.5:
                c.event("refused")
                c.must_raise("refused1:Date", REFUSED, setattr, g, k, rng.choice(["01/01/2021", None, 5]))
            else:
                a, b = fresh(k)
                c.must("set", setattr, g, k, a)
                cur[k] = b
        if rng.random() < 0.15:
            # a text or file name which cannot be written
            k = rng.choice(["Provider", "Description", "Manufacturer", "IntegrityFilename", "file"])
            if k == "Provider" and cur.get("Manufacturer") is None and False:
                pass
            fn = gfile(rng)
            bad = bad_file(rng) if k in ("IntegrityFilename", "file") else bad_text(rng)
            if k == "file":
                bad = bad.replace("/", ";").replace("\\", ",")
                fn = bad
            elif k == "IntegrityFilename" and bad == "":
                continue
            else:
                old = cur.get(k)
                setok = c.call(setattr, g, k, bad)
                if not setok.ok:
                    c.event("refused")
                    continue
            c.event("refused")
            c.must_raise("refused1:make-" + k, REFUSED, g.MakeInf, os.path.join(c.tmp, "bad.inf"), fn, False, info=bad)
            if k != "file":
                if old is None:
                    a, b = fresh(k)
                    old = b
                c.must("set", setattr, g, k, old)
                cur[k] = old
        fw = gfile(rng)
        integ = cur.get("IntegrityFilename")
        while integ is not None and fw.lower() == integ.lower():
            fw = "z" + fw
        roll = rng.random() < 0.5
        path = os.path.join(c.tmp, "out%d.inf" % rng.randrange(2))
        if rng.random() < 0.3:
            c.write(os.path.basename(path), "old content\n" * 500)
        given = rng.choice([fw, fw, "/some/dir/" + fw, "rel/" + fw])
        args = (path, given, roll) if roll or rng.random() < 0.5 else (path, given)
        ret = c.must("make", g.MakeInf, *args)
        c.equal(ret, 0, "make-return")
        after = datetime.date.today()
        date = cur["Date"]
        with open(path, encoding="utf-8", newline="") as fh:
            text = fh.read()
        man = cur["Manufacturer"] if cur.get("Manufacturer") is not None else cur["Provider"]
        if date is None:
            date = before if before.strftime("%m/%d/%Y") in text else after
        want = {"provider": [cur["Provider"]], "driverver": [date.strftime("%m/%d/%Y"), cur["VersionString"]], "catalog": [cur["Name"] + ".cat"], "manufacturer": man, "target": "nt%s.10.0...17134" % cur["Arch"], "disk": "Firmware Update"}
        if '"' in man + cur["Provider"] + cur["Description"]:
            c.event("quoted_text")
        c.event("inf1")
        if roll:
            c.event("rollback")
        if integ is not None:
            c.event("integrity")
        c.event("firmware")
        compare(c, text, want, [expect_fw(cur["EsrtGuid"], cur["VersionHex"], fw, integ, roll, cur["Description"])], where="inf1")
        # what is read back are the values in force
        c.equal(g.Name, cur["Name"], "getter-name")
        c.equal(int(g.VersionHex, 0), cur["VersionHex"], "getter-version")
        c.key("inf1", text, given, nontrivial=roll or integ is not None)


# ---------------------------------------------------------------- catalogs

OSES = {"win10": "10", "10": "10", "10_au": "10_AU", "10_rs2": "10_RS2", "10_rs3": "10_RS3", "10_rs4": "10_RS4", "10_rs5": "10_RS5", "10_19h1": "10_19H1", "10_vb": "10_VB", "10_co": "10_CO", "10_ni": "10_NI", "server10": "Server10", "server2016": "Server2016", "serverrs2": "ServerRS2", "serverrs3": "ServerRS3", "serverrs4": "ServerRS4"}
CATARCH = {"x64": "X64", "amd64": "X64", "arm": "ARM", "arm64": "ARM64", "aarch64": "ARM64"}


@ck.family("cat-map", 60, 400)
def cat_map(c):
    """Every system and architecture in every case of letters; everything else is refused."""
    rng = c.rng
    for o in OSES:
        for a in CATARCH:
            oo = "".join(rng.choice([x.upper(), x.lower()]) for x in o)
            aa = "".join(rng.choice([x.upper(), x.lower()]) for x in a)
            g = c.must("cat", CG.CatGenerator, aa, oo)
            c.equal((g.OperatingSystem, g.Arch), (OSES[o], CATARCH[a]), "cat-map", given=(oo, aa))
            c.event("cat_mapped")
    for _ in range(6):
        good_o, good_a = rng.choice(sorted(OSES)), rng.choice(sorted(CATARCH))
        bo = rng.choice(["win11", "", "10_", "10 ", "server", "10_XX", "10_RS", "10\n", "win10 /x"])
        ba = rng.choice(["ia32", "x86", "", "arm65", "x64 ", "arm\n", "x64,arm"])
        c.must_raise("cat-os-refused", REFUSED, CG.CatGenerator, good_a, bo)
        c.must_raise("cat-arch-refused", REFUSED, CG.CatGenerator, ba, good_o)
        g = CG.CatGenerator(good_a, good_o)
        c.must_raise("cat-os-refused", REFUSED, setattr, g, "OperatingSystem", bo)
        c.must_raise("cat-arch-refused", REFUSED, setattr, g, "Arch", ba)
        c.equal((g.OperatingSystem, g.Arch), (OSES[good_o], CATARCH[good_a]), "cat-refused-kept")
        c.event("refused", 4)
    c.key("cat-map", c.index)


@ck.family("cat-run", 250, 1500)
def cat_run(c):
    rng = c.rng
    base = os.path.join(c.tmp, rng.choice(["plain", "with space", "ümlaut", "plain", "R&D", "kit(10)", "v1;2", "[x]"]))
    os.makedirs(base)
    log = os.path.join(base, "tool.log")
    outdir = os.path.join(base, rng.choice(["out", "out dir", "a/b"]))
    os.makedirs(outdir)
    name = rng.choice(["fw.cat", "My-Fw.cat", "a b.cat"])
    how = rng.choice(["abs", "abs", "rel", "bare", "dot"])
    out = os.path.join(outdir, name)
    code = rng.choice([0, 0, 0, 0, 1, 2, 255, 127, "kill"])
    produce = rng.choice([True, True, True, False, "elsewhere", "dir"])
    tool = os.path.join(base, rng.choice(["Inf2Cat.exe", "tool dir/Inf2Cat.exe", "tools/Inf2Cat.exe", rng.choice(["a&b", "(x86)", "x;y", "a|b", "#1"]) + "/Inf2Cat.exe"]))
    os.makedirs(os.path.dirname(tool), exist_ok=True)
    script = "#!/bin/sh\n{ pwd -P; for a in \"$@\"; do printf '%%s\\n' \"$a\"; done; } > '%s'\necho some output\necho a warning >&2\n" % log
    if produce is True:
        script += "echo cat > '%s'\n" % name
    elif produce == "elsewhere":
        script += "echo cat > 'other.cat'\n"
    elif produce == "dir":
        script += "mkdir '%s'\n" % name
    script += "kill -9 $$\n" if code == "kill" else "exit %d\n" % code
    with open(tool, "w") as f:
        f.write(script)
    os.chmod(tool, 0o755)
    o, a = rng.choice(sorted(OSES)), rng.choice(sorted(CATARCH))
    g = c.must("cat", CG.CatGenerator, a, o)
    locate = rng.choice(["given", "given", "given", "found", "none", "missing"])
    asked = []

    def finder(*args, **kw):
        asked.append(args)
        return {"found": tool, "none": None, "missing": os.path.join(base, "nowhere", "Inf2Cat.exe"), "given": None}[locate]

    saved = [(m, m.FindToolInWinSdk) for m in (CG, L) if hasattr(m, "FindToolInWinSdk")]
    cwd = os.getcwd()
    try:
        for m, _ in saved:
            m.FindToolInWinSdk = finder
        if how in ("bare", "dot"):
            os.chdir(outdir)
            given = name if how == "bare" else "./" + name
        elif how == "rel":
            os.chdir(base)
            given = os.path.relpath(out, base)
        else:
            given = out
        if how == "bare":
            c.event("cat_bare_name")
        args = [given]
        there = True
        if locate == "given":
            there = rng.random() < 0.9
            t = tool if there else os.path.join(base, "missing.exe")
            if rng.random() < 0.3:
                c.event("cat_relative_tool")
                t = os.path.relpath(t)
            args.append(t)
        if locate in ("none", "missing") or (locate == "given" and not there):
            c.event("cat_no_tool")
            c.must_raise("cat-no-tool", REFUSED, g.MakeCat, *args)
            c.expect(not os.path.exists(log), "cat-tool-run-though-missing")
            c.key("cat", how, locate, nontrivial=True)
            return
        with quiet():
            r = c.call(g.MakeCat, *args)
    finally:
        os.chdir(cwd)
        for m, f in saved:
            m.FindToolInWinSdk = f
    c.key("cat", how, locate, code, str(produce), o, a, name, nontrivial=True)
    c.event("cat_run")
    good = code == 0 and produce is True
    if code != 0:
        c.event("cat_tool_failed")
    elif not good:
        c.event("cat_no_file")
    if not good:
        c.expect(not r.ok, "cat-failure-not-reported", code=code, produce=str(produce))
    else:
        c.expect(r.ok, "cat-failed", exc=repr(r.exc)[:300], how=how)
        if r.ok:
            c.equal(r.value, 0, "cat-return")
    if not c.expect(os.path.exists(log), "cat-tool-not-run", how=how, exc=repr(r.exc)[:300]):
        return
    with open(log, encoding="utf-8") as f:
        lines = f.read().split("\n")[:-1]
    where, argv = lines[0], lines[1:]
    drv = [x[len("/driver:"):] for x in argv if x.lower().startswith("/driver:")]
    c.equal(len(drv), 1, "cat-driver-argument", argv=argv)
    if len(drv) == 1:
        c.equal(os.path.realpath(os.path.join(where, drv[0])), os.path.realpath(outdir), "cat-folder", how=how)
    osa = [x[len("/os:"):] for x in argv if x.lower().startswith("/os:")]
    c.equal(osa, ["%s_%s" % (OSES[o], CATARCH[a])], "cat-os-argument")
    c.expect(all(x.startswith("/") for x in argv), "cat-arguments", argv=argv)


if __name__ == "__main__":
    sys.exit(ck.main())
