"""P15: ignore rules decide like git does (oracle: git check-ignore on a real tree)."""
import os
import re
import sys

from gitoracle import git_ignored
from vh import Check, mute_logging
from edk2toollib.gitignore_parser import parse_gitignore_file, parse_gitignore_lines

mute_logging()
ck = Check("P15", ["edk2toollib/gitignore_parser.py"],
           rule="a case is an ignore file with a directory tree; distinct by file and tree; non-trivial when some path is ignored and some is not",
           min_events={"path": 5000, "git_ignored": 1500, "git_kept": 1500, "negated": 150, "directory_rule": 200, "double_star": 150,
                       "escape": 80, "bracket": 150, "anchored": 200, "outside_base": 100, "directory_and_content": 60})

SEGS = ["a", "b", "foo", "bar", "Build", "x.c", "y.obj", "foo.txt", "a b", "#x", "!y", "a*b", "q?r", "[z]", "tmp ", ".hid", "é", "a-b", "a.b", "back\\s", "^c", "f(o)o", "A+", " lead", " #c", " ", "-", "a-", "a\t"]
CH = "abxyz"


def esc(s):
    return "".join("\\" + ch if ch in "*?[\\" else ch for ch in s)


def glob_seg(c, rng, seg):
    """A pattern segment that matches seg, or almost."""
    k = rng.random()
    if k < .35:
        return esc(seg) if rng.random() < .9 else seg
    out, i = "", 0
    while i < len(seg):
        r = rng.random()
        ch = seg[i]
        if r < .2:
            out += "*"
            i += rng.randrange(0, 3)
            continue
        if r < .32:
            out += "?"
        elif r < .52:
            c.event("bracket")
            kind = rng.randrange(11)
            dash = ch if ch not in "]!^\\-[" else "x"
            out += {0: f"[{ch}{rng.choice(CH)}]" if ch not in "]!^\\-" else "?",
                    1: f"[!{rng.choice(CH)}]", 2: f"[^{rng.choice(CH)}]", 3: "[a-z]", 4: "[!a-f]", 5: "[]a-c]", 6: f"[\\{ch}]", 7: "[a-ce-zA-Z.]", 8: f"[{dash}-]", 9: f"[-{dash}]", 10: "[!-]"}[kind]
        elif r < .57:
            c.event("escape")
            out += "\\" + ch
        else:
            out += esc(ch)
        i += 1
    return out or "*"


def gen_pattern(c, rng, paths):
    k = rng.random()
    if k < .05:
        return rng.choice(["", "# comment", "#foo", "   ", "#"])
    if k < .12:
        return rng.choice(["*", "**", "/*", "/**", "**/", "*/", "a/**", "!", "/", "**/**", "!*", "!*/", "!/*", "!**", "[", "foo[", "a\\", "[!]", "*/*", "?", "/*/",
                           "**/*", "a[!b]b", "foo[/]bar", "foo[!x]bar", "[z-a]", "[/]", "[!/]", "a**b", "**foo", "foo**", "***", "a/***/b", "\\\\", "*.c ", "//",
                           "[-]", "[a-]", "[-a]", "[!-]", "[a-c-]x", "a/***", "***/b", "****", "a\t", "\ta", "*\t", "a\t ", "a\\/", "[\\]]", "[\\-]", "[a\\-c]", "[.-/]b", "[+--]"])
    p = rng.choice(paths) if rng.random() < .9 else "/".join(rng.choice(SEGS) for _ in range(rng.randrange(1, 3)))
    isdir = p.endswith("/")
    segs = p.rstrip("/").split("/")
    r = rng.random()
    if r < .45:
        segs = segs[-1:]                        # a plain name: matches at every depth
    elif r < .6:
        segs = segs[-2:]
    out = [glob_seg(c, rng, s) for s in segs]
    r = rng.random()
    if r < .12:
        out.insert(rng.randrange(0, len(out) + 1), "**")
        c.event("double_star")
    elif r < .2 and len(out) > 1:
        out[rng.randrange(len(out))] = "**"
        c.event("double_star")
    s = "/".join(out)
    if rng.random() < .25 and not s.startswith("/"):
        s = "/" + s
    if "/" in s:
        c.event("anchored")
    if rng.random() < (.4 if isdir else .08):
        s += "/"
        c.event("directory_rule")
    if s.startswith(("#", "!")):
        s = "\\" + s
        c.event("escape")
    if rng.random() < .28:
        s = "!" + s
        c.event("negated")
    if s.endswith(" ") and not s.endswith("\\ ") and rng.random() < .7:
        s = s[:-1] + "\\ "
        c.event("escape")
    if rng.random() < .12:
        s += " " * rng.randrange(1, 4)
    elif rng.random() < .02:  # only spaces are dropped from the end
        s += rng.choice(["\t", "\t ", " \t"])
    return s


def make_tree(rng, root):
    dirs, files = [], []
    pool = rng.sample(SEGS if rng.random() < .2 else [x for x in SEGS if x.isascii()], rng.randrange(4, 9))

    def grow(rel, depth):
        used = set()
        for _ in range(rng.randrange(1, 5)):
            n = rng.choice(pool)
            if n in used:
                continue
            used.add(n)
            p = rel + n
            if depth < 3 and rng.random() < .5:
                os.mkdir(os.path.join(root, p))
                dirs.append(p)
                grow(p + "/", depth + 1)
            else:
                open(os.path.join(root, p), "w").close()
                files.append(p)
    grow("", 0)
    return dirs, files


@ck.family("vs_git", 1500, 40000)
def vs_git(c):
    rng = c.rng
    root = os.path.join(os.path.realpath(c.tmp), "tree")
    os.mkdir(root)
    dirs, files = make_tree(rng, root)
    paths = [d + "/" for d in dirs] + files
    lines = [gen_pattern(c, rng, paths) for _ in range(rng.randrange(1, 6))]
    if any(not p.isascii() for p in paths):      # git counts bytes for "?" and sets, the library characters: only literal text and "*" here
        lines = [ln for ln in lines if "?" not in ln and "[" not in ln] or ["*.c"]
    if dirs and rng.random() < .15:             # the directory alone is ignored, what is directly in it is not (and the other way round)
        d = esc(rng.choice(dirs))
        if not d.endswith(" "):
            pair = [rng.choice([d, "/" + d, d + "/", "*/", "*"]), rng.choice(["!", "!", ""]) + d + rng.choice(["/*", "/**", "/**/*", "/*/"])]
            lines[:0] = pair if pair[0][0] not in "#!" and pair[1][0] != "#" else []
            c.event("directory_and_content")
    # git itself does not treat "x**" in a pattern with a slash the way its documentation says: not used here
    lines = [re.sub(r"([^/!])\*{2,}", r"\1*", re.sub(r"\*{2,}([^/*\s])", r"*\1", ln)) if "/" in ln.rstrip("/ ") else ln for ln in lines]
    text = "\n".join(lines) + rng.choice(["", "\n"])
    if rng.random() < .1:
        text = text.replace("\n", "\r\n")
    with open(os.path.join(root, ".gitignore"), "w", newline="", encoding="utf-8") as f:
        f.write(text)
    ign = git_ignored(ck, root, dirs + files)
    c.key(text, sorted(dirs), sorted(files), nontrivial=0 < len(ign) < len(dirs + files))
    c.note(ignore_file=text, dirs=dirs, files=files, git_ignores=sorted(ign))
    base = root
    if rng.random() < .15:                      # a workspace reached through a link
        base = os.path.join(c.tmp, "link")
        os.symlink(root, base)
    elif rng.random() < .15:
        base = os.path.relpath(root)
    if rng.random() < .5:
        ignored = c.must("parse-file", parse_gitignore_file, os.path.join(base, ".gitignore"))
    else:
        keep = rng.random() < .5
        ls = text.replace("\r\n", "\n").splitlines(keepends=keep)
        ignored = c.must("parse-lines", parse_gitignore_lines, ls, os.path.join(base, ".gitignore"), base)
    got_ignored = {}
    detour = rng.choice([0, 0, 0, 1, 2])        # how the questions are put: plainly, with "..", relative to the working directory

    def decide(rel, isdir):
        """Top-down, the way a directory walk asks: below an ignored directory everything is ignored."""
        parent = os.path.dirname(rel)
        if parent and got_ignored[parent]:
            got_ignored[rel] = True
            return
        q = os.path.join(base, rel) + ("/" if isdir else "")
        if detour == 1:
            q = os.path.join(base, "nowhere", "..", ".", rel) + ("/" if isdir else "")
        elif detour == 2:
            q = os.path.relpath(base) + "//" + rel + ("/" if isdir else "")
        o = c.call(ignored, q)
        c.require(o.ok, "decide:error", path=q, outcome=repr(o))
        c.require(isinstance(o.value, bool), "decide:type", path=q, outcome=repr(o))
        got_ignored[rel] = o.value

    def alone(ln, ps):
        """What git ignores of ps (existing paths) with nothing but this line."""
        with open(os.path.join(root, ".gitignore"), "w", encoding="utf-8") as f:
            f.write(ln + "\n")
        got = git_ignored(ck, root, ps) if ps else set()
        with open(os.path.join(root, ".gitignore"), "w", newline="", encoding="utf-8") as f:
            f.write(text)
        return got

    def dir_rules():
        return [ln for ln in lines if not ln.startswith("!") and ln.rstrip(" ").endswith("/")]

    def named_by_directory_rule(rel):
        os.unlink(os.path.join(root, rel))
        os.mkdir(os.path.join(root, rel))
        hit = any(alone(ln, [rel]) for ln in dir_rules())
        os.rmdir(os.path.join(root, rel))
        open(os.path.join(root, rel), "w").close()
        return hit

    def reincluded(rel):
        """Known finding: an ancestor that git keeps is named by a directory rule that a later rule overrides."""
        up = []
        while os.path.dirname(rel):
            rel = os.path.dirname(rel)
            up.append(rel)
        return any(set(up) & alone(ln, up) for ln in dir_rules())
    dironly = [ln.strip() for ln in lines if ln.rstrip().endswith("/")]
    for rel in sorted(dirs + files, key=lambda p: p.count("/")):
        isdir = rel in dirs
        parent = os.path.dirname(rel)
        decide(rel, isdir)
        c.event("path")
        want = rel in ign
        if not isdir and dironly and got_ignored[rel] and not want and named_by_directory_rule(rel):
            # a path without a trailing "/" may name a directory for all the rule engine can know
            got_ignored[rel] = want
            c.event("undecidable_file")
        c.event("git_ignored" if want else "git_kept")
        mech = "decide:differs-from-git"
        if got_ignored[rel] and not want and reincluded(rel):
            mech = "decide:content-of-re-included-directory"
        c.require(got_ignored[rel] == want, mech, path=rel, git=want, library=got_ignored[rel])
    # paths outside the base are never ignored
    for p in ("/elsewhere/foo", os.path.dirname(os.path.realpath(base)) + "/sibling/a"):
        c.equal(c.must("decide:outside", ignored, p), False, "decide:outside")
        c.event("outside_base")


if __name__ == "__main__":
    sys.exit(ck.main())
