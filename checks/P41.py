"""P41: JUnit reports are well-formed XML that states every result."""
import os
import re
import subprocess
import sys
import time
import xml.parsers.expat
from xml.etree import ElementTree

import vh
from vh import Check, mute_logging

mute_logging()
from edk2toollib.log import junit_report_format as J

ck = Check("P41", ["edk2toollib/log/junit_report_format.py"],
           rule="a case is one report with its suites, cases, texts and the history of verdict and log calls; distinct by content; non-trivial with two cases or a text that needs care",
           min_events={"timed": 6, "locale": 4, "skipped_with_output": 50, "report": 300, "testcase": 800, "markup": 500, "control": 150, "invalid_char": 150, "second_verdict": 300, "no_verdict_refused": 40, "log": 800, "rewritten": 60})
REFUSED = (Exception,)
LEGAL = re.compile("[\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
CHARS = ["<", ">", "&", '"', "'", "]]>", "<![CDATA[", "<!--", "-->", "&amp;", "&#10;", "</testcase>", "<?xml?>", "{0}", "%s", "\\", "/"]
CTRL = ["\t", "\n", "\r", "\r\n", "\x85", " ", "  ", " ", "a\n b", "a\n\nb", " \t "]
INVALID = ["\0", "\x01", "\x08", "\x0b", "\x0c", "\x1b[31m", "\x1f", "￾", "￿", "\ud800", "\udfff", "\udc80\ud800"]


def text(c):
    rng = c.rng
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12])):
        k = rng.random()
        if k < 0.3:
            out.append(rng.choice(["test", "case one", "pkg.Class", "Message", "x" * 300, "0", "tail " * rng.choice([900, 3000, 14000]) if rng.random() < 0.02 else "y"]))
        elif k < 0.55:
            c.event("markup")
            out.append(rng.choice(CHARS))
        elif k < 0.7:
            c.event("control")
            out.append(rng.choice(CTRL))
        elif k < 0.8 and c.odd:
            c.event("invalid_char")
            out.append(rng.choice(INVALID))
        else:
            out.append(rng.choice(["é", "漢字", "\U0001F600", "\x7f", "\x9f", "﻿", "\U0010FFFF", "ﷰ", "a b"]))
    return "".join(out)


def same(got, want):
    """Equal, where each character that XML cannot express may be anything."""
    want = want.strip()
    if got is None:
        got = ""
    if all(LEGAL.fullmatch(ch) for ch in want):
        return got == want
    pat = "".join(re.escape(ch) if LEGAL.fullmatch(ch) else r"[^\x00]{0,12}?" for ch in want)
    return re.fullmatch(pat, got, re.S) is not None


def output_same(got, msgs):
    """Every message in order, with white space and nothing else between."""
    pos = 0
    got = got or ""
    pat = r"\s*" + r"\s+".join("".join(re.escape(ch) if LEGAL.fullmatch(ch) else r"[^\x00]{0,12}?" for ch in m.strip()) for m in msgs) + r"\s*"
    return re.fullmatch(pat, got, re.S) is not None


NAMES = {"failed": "failure", "error": "error", "skipped": "skipped"}


@ck.family("report", 3000, 40000)
def report(c):
    rng = c.rng
    c.odd = rng.random() < 0.5
    rep = c.must("report", J.JunitTestReport)
    model = []
    large = rng.random() < 0.012  # hundreds of suites, thousands of cases
    if large:
        c.event("large_report")
    for s in range(rng.choice([0, 1, 1, 2, 3, 6]) if not large else rng.choice([2, 300])):
        n, p = text(c), text(c)
        suite = c.must("suite", rep.create_new_testsuite, n, p)
        model.append({"o": suite, "name": n, "package": p, "cases": []})
    total = (rng.choice([0, 1, 2, 3, 5, 9]) if not large else 2600 if len(model) < 3 else 400) if model else 0
    for _ in range(total):
        m = rng.choice(model)
        n, k = text(c), text(c)
        tc = c.must("case", m["o"].create_new_testcase, n, k)
        m["cases"].append({"o": tc, "name": n, "class": k, "verdict": None, "msg": None, "type": None, "out": [], "err": []})
        c.event("testcase")
    live = [t for m in model for t in m["cases"]]

    def step(t):
        k = rng.random()
        if k < 0.3:
            msg = text(c)
            c.event("log")
            if rng.random() < 0.5:
                c.must("log", t["o"].LogStdOut, msg)
                t["out"].append(msg)
            else:
                c.must("log", t["o"].LogStdError, msg)
                t["err"].append(msg)
            return
        v = rng.choice(["failed", "error", "skipped", "success"])
        args = (text(c), text(c)) if v in ("failed", "error") else ()
        fn = {"failed": t["o"].SetFailed, "error": t["o"].SetError, "skipped": t["o"].SetSkipped, "success": t["o"].SetSuccess}[v]
        if t["verdict"] is not None:
            c.event("second_verdict")
            c.must_raise("second-verdict", REFUSED, fn, *args, info=(t["verdict"], v))
        else:
            c.must("verdict", fn, *args)
            t["verdict"] = v
            if args:
                t["msg"], t["type"] = args

    for _ in range(len(live) * (2 if large else rng.randrange(1, 6))):
        step(rng.choice(live))
    path = os.path.join(c.tmp, "report.xml")
    if rng.random() < 0.3:
        c.write("report.xml", "<testsuites>" + "x" * 20000)
    if any(t["verdict"] is None for t in live):
        c.event("no_verdict_refused")
        c.must_raise("report-without-verdict", REFUSED, rep.Output, path)
        for t in live:
            while t["verdict"] is None:
                step(t)
    for again in range(rng.choice([1, 1, 2])):
        if again:
            c.event("rewritten")
            if live:
                step(rng.choice(live))
        c.must("output", rep.Output, path)
        c.event("report")
        with open(path, "rb") as f:
            data = f.read()
        c.note(report=data[:3000].decode("utf-8", "replace"))
        try:
            p = xml.parsers.expat.ParserCreate()
            p.Parse(data, True)
            root = ElementTree.fromstring(data)
        except (xml.parsers.expat.ExpatError, ElementTree.ParseError) as e:
            c.violate("not-well-formed", why=str(e), start=data[:1500])
            return
        c.equal(root.tag, "testsuites", "root")
        c.equal([x.tag for x in root], ["testsuite"] * len(model), "suite-count")
        for i, (x, m) in enumerate(zip(root, model)):
            c.expect(same(x.get("name"), m["name"]), "suite-name", got=x.get("name"), want=m["name"])
            c.expect(same(x.get("package"), m["package"]), "suite-package", got=x.get("package"), want=m["package"])
            c.equal(x.get("id"), str(i), "suite-id")
            vs = [t["verdict"] for t in m["cases"]]
            c.equal({k: x.get(k) for k in ("tests", "failures", "errors", "skipped")},
                    {"tests": str(len(vs)), "failures": str(vs.count("failed")), "errors": str(vs.count("error")), "skipped": str(vs.count("skipped"))}, "suite-counts")
            c.equal([y.tag for y in x], ["testcase"] * len(vs), "case-count")
            for y, t in zip(x, m["cases"]):
                c.expect(same(y.get("name"), t["name"]), "case-name", got=y.get("name"), want=t["name"])
                c.expect(same(y.get("classname"), t["class"]), "case-class", got=y.get("classname"), want=t["class"])
                try:
                    c.expect(0 <= float(y.get("time")) < 3600, "case-time", got=y.get("time"))
                except (TypeError, ValueError):
                    c.violate("case-time", got=y.get("time"))
                kids = [k for k in y if k.tag in ("failure", "error", "skipped")]
                want = [NAMES[t["verdict"]]] if t["verdict"] in NAMES else []
                if c.equal([k.tag for k in kids], want, "case-verdict") and t["msg"] is not None:
                    c.expect(same(kids[0].get("message"), t["msg"]), "case-message", got=kids[0].get("message"), want=t["msg"])
                    c.expect(same(kids[0].get("type"), t["type"]), "case-type", got=kids[0].get("type"), want=t["type"])
                elif want == ["skipped"] and t["out"]:
                    c.event("skipped_with_output")
                    c.expect(output_same(kids[0].text, t["out"]), "case-skipped-text", got=kids[0].text, want=t["out"])
                for tag, msgs in (("system-out", t["out"]), ("system-err", t["err"])):
                    e = [k for k in y if k.tag == tag]
                    if msgs or e:
                        if c.equal(len(e), 1, "case-output-elements", tag=tag):
                            c.expect(output_same(e[0].text, msgs), "case-" + tag, got=e[0].text, want=msgs)
                            c.equal(len(e[0]), 0, "case-output-markup")
    c.key("report", data, nontrivial=len(live) > 1)


@ck.family("time", 8, 60)
def duration(c):
    """The time of a case is the time from its creation to its verdict."""
    rep = c.must("report", J.JunitTestReport)
    suite = c.must("suite", rep.create_new_testsuite, "s", "p")
    bounds, cases = [], []
    for k in c.rng.sample(["SetFailed", "SetError", "SetSkipped", "SetSuccess"], 4):
        t0 = time.monotonic()
        tc = c.must("case", suite.create_new_testcase, k, "c")
        t1 = time.monotonic()
        time.sleep(c.rng.choice([0.02, 0.05]))
        t2 = time.monotonic()
        c.must("verdict", getattr(tc, k), *(("m", "t") if k in ("SetFailed", "SetError") else ()))
        bounds.append((t2 - t1, time.monotonic() - t0))
        if c.rng.random() < 0.5:
            time.sleep(0.03)
    path = os.path.join(c.tmp, "report.xml")
    c.must("output", rep.Output, path)
    c.event("timed")
    for (lo, hi), x in zip(bounds, ElementTree.parse(path).iter("testcase")):
        c.expect(lo - 0.01 <= float(x.get("time")) <= hi + 0.01, "case-duration", got=x.get("time"), between=(lo, hi), case=x.get("name"))
    c.key("time", c.index)


@ck.family("locale", 5, 30)
def in_locale(c):
    """The report does not depend on the process's locale."""
    c.odd = False
    texts = [text(c) for _ in range(3)] + ["é漢\U0001F600"]
    path = os.path.join(c.tmp, "report.xml")
    code = ("import sys, ast\nfrom edk2toollib.log import junit_report_format as J\nr = J.JunitTestReport()\ns = r.create_new_testsuite('s', 'p')\n"
            "for t in ast.literal_eval(sys.argv[2]):\n    c = s.create_new_testcase(t, 'c')\n    c.LogStdOut(t)\n    c.SetFailed(t, t)\nr.Output(sys.argv[1])\n")
    env = dict(os.environ, PYTHONPATH=vh.REPO, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL=c.rng.choice(["C", "POSIX"]), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", code, path, ascii(texts)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=c.tmp)
    c.event("locale")
    if c.equal((r.returncode, r.stdout), (0, b""), "locale-run"):
        root = ElementTree.parse(path).getroot()
        c.expect(all(same(x.get("name"), t) and same(x.find("failure").get("message"), t) and output_same(x.find("system-out").text, [t]) for x, t in zip(root.iter("testcase"), texts)), "locale-text", want=texts)
    c.key("locale", *texts)


if __name__ == "__main__":
    sys.exit(ck.main())
