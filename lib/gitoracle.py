"""git itself as the oracle of ignore rules."""
import os
import subprocess


def git_ignored(ck, root, paths):
    """The subset of paths (relative, existing) that git ignores."""
    if not hasattr(ck, "_git"):
        ck._git = os.path.join(ck.scratch, f"git{os.getpid()}")
        ck._env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": ck.scratch, "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null",
                   "LC_ALL": "C.UTF-8"}
        subprocess.run(["git", "init", "-q", "--bare", "--template=", ck._git], check=True, env=ck._env)
        subprocess.run(["git", f"--git-dir={ck._git}", "config", "core.bare", "false"], check=True, env=ck._env)
        subprocess.run(["git", f"--git-dir={ck._git}", "config", "core.ignorecase", "false"], check=True, env=ck._env)
    r = subprocess.run(["git", f"--git-dir={ck._git}", f"--work-tree={root}", "check-ignore", "--no-index", "--stdin", "-z"],
                       input="\0".join("./" + p for p in paths) + "\0", capture_output=True, text=True, cwd=root, env=ck._env, encoding="utf-8")
    if r.returncode not in (0, 1):
        raise RuntimeError(f"git check-ignore: {r.stderr}")
    return {p[2:] for p in r.stdout.split("\0") if p}
