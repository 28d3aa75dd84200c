"""Reading in processes with other environments (the outer part of C19)."""

import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

GENERAL = ["DEBUG", "VERBOSE", "TRACE", "QUIET", "STRICT", "RUST_LOG", "RUST_BACKTRACE", "HML", "HML_DEBUG", "HML_STRICT",
           "HML_VERSION", "HML_RS", "XML", "XMLNS", "XML_VERSION", "NO_COLOR", "CI", "TEST", "USER", "LOGNAME", "TERM", "EDITOR"]


def words(path):
    """Words of the dictionary, which are the literals of the sources"""
    out = []
    with open(path) as f:
        for l in f:
            if l.startswith("w "):
                try:
                    out.append(bytes.fromhex(l[2:].strip()).decode("utf-8"))
                except ValueError:
                    pass
    return out


def names(check):
    """Variables that might mean something"""
    lit = [w for w in words(os.path.join(check.work, "dict")) if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]{1,40}", w)]
    out = sorted(set(GENERAL + lit + [w.upper() for w in lit]))
    # these would change what the loader or the harness does
    return [n for n in out if not n.startswith(("LD_", "ASAN_", "HF_", "MALLOC", "GLIBC")) and n != "PATH"]


def litter(check, d):
    """A directory of files named like the literals of the sources"""
    for w in words(os.path.join(check.work, "dict")) + ["hml.toml", ".hmlrc", "hml.conf", ".env", "config", "out.xml", "output", "in.hml"]:
        if re.fullmatch(r"[A-Za-z0-9_.-]{1,60}", w) and w not in (".", ".."):
            with open(os.path.join(d, w), "w") as f:
                f.write("1\n")


def environments(check):
    """Name, variables, whether to put files named like literals into the working directory"""
    yield "nothing set", {}, False
    for v in ("1", "0", "true", "", "x.hml"):
        yield "variables set to %r" % v, {n: v for n in names(check)}, False
    yield "Turkish", {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "tr"}, False
    yield "Latin-1", {"LANG": "de_DE.ISO-8859-1", "LC_ALL": "de_DE.ISO-8859-1"}, False
    yield "no UTF-8", {"LANG": "C", "LC_ALL": "POSIX"}, False
    yield "plain", {"LANG": "C", "LC_ALL": "C"}, False
    yield "C.UTF-8", {"LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TERM": "dumb"}, False
    yield "English", {"LANG": "en_US.UTF-8", "LC_ALL": "en_US.UTF-8", "TERM": "xterm-256color"}, False
    yield "elsewhere", {"TZ": "Pacific/Kiritimati", "HOME": "/nonexistent", "TMPDIR": "/nonexistent", "PWD": "/"}, False
    yield "files named like literals", {}, True
    # values that the sources name
    values = sorted({w for w in words(os.path.join(check.work, "dict")) if re.fullmatch(r"[ -~]{1,24}", w)})
    for v in values[:200]:
        yield "variables set to %r" % v, dict.fromkeys(names(check) + ["LANG", "LC_ALL", "LC_CTYPE", "HOME", "TZ"], v), None


def decide(check, hv, Violated, NoVerdict):
    n = 20000 if check.thorough else 3000
    dic = os.path.join(check.work, "dict")

    def run(x):
        i, (name, env, files) = x
        d = os.path.join(check.work, "env%d" % i)
        os.mkdir(d)
        if files:
            litter(check, d)
        env = dict(env)
        env.setdefault("PATH", "/usr/bin:/bin")
        m = n if files is not None else n // 5
        r = subprocess.run(hv + ["digest", "--seed", str(check.seed), "--n", str(m), "--dict", dic], cwd=d, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=check.left())
        return name, r, m

    envs = list(enumerate(environments(check)))
    try:
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(run, envs))
    except subprocess.TimeoutExpired:
        raise NoVerdict("reading in other environments took too long")
    base = results[0][1]
    want = base.stdout.split(b"\n")
    if base.returncode != 0 or len(want) != n + 1:
        raise NoVerdict("reading in an empty environment gave %d: %s" % (base.returncode, base.stderr[:500]))
    for name, r, m in results[1:]:
        got = r.stdout.split(b"\n")
        want = base.stdout.split(b"\n")[:m] + [b""]
        what = text = None
        for k in range(max(len(want), len(got))):
            a, b = want[k:k + 1], got[k:k + 1]
            if a != b:
                what = "text %d is read otherwise, or not at all, in a process with other surroundings (%s)" % (k, name)
                text = (a or b)[0].decode("utf-8", "replace")
                break
        if what is None and r.stderr:
            what = "with other surroundings (%s) something is written to standard error: %r" % (name, r.stderr[:200])
        if what:
            raise Violated(what, check.replay_file({"what": what, "input": text or ""}))
        check.evals += m
        check.count("environments")
