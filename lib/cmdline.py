"""hmlconvert and its command line (C23)."""

import hashlib
import json
import os
import random
import subprocess
from concurrent.futures import ThreadPoolExecutor

import convert

NOT_NUMBERS = ["abc", "", "1.0x", "x1.0", "1,1", "one", "0x1", "1.0.0", " 1.1", "1.1 ", "1 1", "v1.1", "1.1\n", "١", "1.0/1.1", "xml", "1_1", "nan", "NaN", "inf", "infinity"]
UNKNOWN = ["--unknown", "-o", "-v", "-q", "--xml-version", "--xml", "--out", "--outputs", "--Output", "-X", "--file", "-1", "--1.1", "--xml_version1.1", "--input", "-f", "--verbose"]
VERSIONS = [("1.0", "1.0"), ("1", "1.0"), ("1.1", "1.1"), ("1.00", "1.0"), ("1.10", "1.1"), ("01.1", "1.1")]


class Place:
    """A directory with an input file and perhaps an output file from before"""

    def __init__(self, check, name, text, r):
        self.dir = os.path.join(check.work, name)
        self.hml, self.xml, self.more = (os.path.join(self.dir, n) for n in ("in.hml", "out.xml", "more.hml"))
        self.text = text
        self.old = r.choice([None, b"", b"<old/>" * 500])
        # the directory the program is run in, which names may be relative to
        self.cwd = self.dir if r.random() < 0.3 else None

    def __enter__(self):
        os.mkdir(self.dir)
        for p, t in ((self.hml, self.text), (self.more, self.text), (self.xml, self.old)):
            if t is not None:
                with open(p, "wb") as f:
                    f.write(t)
        self.before = self.state()
        if self.cwd:
            self.hml, self.xml, self.more = "in.hml", "./out.xml", "./more.hml"
        return self

    def __exit__(self, *_):
        for n in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, n))
        os.rmdir(self.dir)

    def state(self):
        """Everything in the directory: contents and times of change"""
        s = {}
        for n in sorted(os.listdir(self.dir)):
            p = os.path.join(self.dir, n)
            with open(p, "rb") as f:
                s[n] = (f.read(), os.stat(p).st_mtime_ns)
        return s

    def changed(self, output=None):
        now = self.state()
        for n in sorted(set(now) | set(self.before)):
            if n == output:
                continue
            if n not in now:
                return "%s was removed" % n
            if n not in self.before:
                return "%s was made" % n
            if now[n][0] != self.before[n][0]:
                return "%s was changed" % n
            if now[n][1] != self.before[n][1]:
                return "%s was written to" % n
        return None


def arguments(p, r, version=True):
    """A right command line, in a list of options that may be put in any order"""
    opts = []
    if r.random() < 0.7:
        opts.append(r.choice([["--output", p.xml], ["--output=" + p.xml]]))
    if version and r.random() < 0.5:
        v = r.choice(VERSIONS)[0]
        opts.append(r.choice([["-x", v], ["-x" + v], ["-x=" + v], ["--xml_version", v], ["--xml_version=" + v]]))
    if r.random() < 0.8:
        opts.append([p.hml])
    return opts


def joined(opts, r):
    opts = list(opts)
    r.shuffle(opts)
    return [a for o in opts for a in o]


# Each kind gives the arguments, and says how it was done

def unknown(p, r):
    u = r.choice(UNKNOWN)
    return joined(arguments(p, r) + [[u]], r), "unknown option %s" % u


def no_value(p, r):
    args = joined([o for o in arguments(p, r, False) if not o[0].startswith("--output")], r)
    o = r.choice(["-x", "--xml_version", "--output"])
    return args + [o], "%s without a value" % o


def twice(p, r):
    kind = r.randrange(2)
    if kind == 0:
        more = [["--output", p.xml], ["--output=" + p.xml + "2"]]
    else:
        more = [["-x", "1.0"], [r.choice(["-x1.1", "--xml_version=1.1", "-x1.0"])]]
    return joined(more + [[p.hml]], r), "an option twice"


def no_number(p, r):
    v = r.choice(NOT_NUMBERS)
    o = r.choice([["--xml_version=" + v], ["-x=" + v], ["-x", v], ["--xml_version", v]])
    return joined(arguments(p, r, False) + [o], r), "version %r" % v


def two_files(p, r):
    args = [o for o in arguments(p, r) if o != [p.hml]]
    return joined(args + [[p.hml], [r.choice([p.more, p.hml, os.path.join(p.dir, "none.hml"), ""])]], r), "two input files"


def no_input(p, r):
    args = [o for o in arguments(p, r) if o != [p.hml]]
    name = r.choice([os.path.join(p.dir, "none.hml"), os.path.join(p.dir, "none", "in.hml"), p.dir, os.path.join(p.hml, "x")])
    return joined(args + [[name]], r), "an input file that cannot be read"


def asked(p, r):
    h = r.choice(["--help", "-h", "--version", "-V"])
    return joined([o for o in arguments(p, r)] + [[h]], r), h


REFUSED = [unknown, no_value, twice, no_number, two_files, no_input]


def refused(prog, p, kind, r):
    args, how = kind(p, r)
    x = prog.run(args, p.text, cwd=p.cwd)
    how = "%s: %s" % (how, args)
    what = p.changed()
    if x.returncode == 0:
        what = "exit status 0"
    elif x.returncode < 0:
        what = "ended by signal %d" % -x.returncode
    elif x.stdout:
        what = "something was written to standard output: %r" % x.stdout[:200]
    elif not x.stderr.strip():
        what = "nothing was said on standard error"
    return what, how


def told(prog, p, r):
    args, how = asked(p, r)
    x = prog.run(args, p.text, cwd=p.cwd)
    how = "%s: %s" % (how, args)
    what = p.changed()
    if x.returncode != 0:
        what = "exit status %d" % x.returncode
    elif not x.stdout.strip():
        what = "nothing was written to standard output"
    elif b"<?xml" in x.stdout:
        what = "the input was converted"
    return what, how


def accepted(prog, p, r, want):
    """However the options are written, they mean the same"""
    v, version = r.choice(VERSIONS)
    opts = [r.choice([["-x", v], ["-x" + v], ["-x=" + v], ["--xml_version", v], ["--xml_version=" + v]])]
    if version == "1.0" and r.random() < 0.3:
        opts = []
    to_file = r.random() < 0.5
    if to_file:
        opts.append(r.choice([["--output", p.xml], ["--output=" + p.xml]]))
    by_file = r.random() < 0.7
    args = joined(opts + ([[p.hml]] if by_file else []), r)
    if by_file and r.random() < 0.3:
        args = joined(opts, r) + ["--", p.hml]
    x = prog.run(args, b"" if by_file else p.text, cwd=p.cwd)
    how = "right: %s" % args
    if x.returncode != 0:
        return "exit status %d: %r" % (x.returncode, x.stderr[:300]), how
    out = x.stdout
    if to_file:
        if x.stdout:
            return "something was written to standard output: %r" % x.stdout[:200], how
        try:
            with open(os.path.join(p.dir, "out.xml"), "rb") as f:
                out = f.read()
        except OSError:
            return "the output file was not written", how
    if out != want[version]:
        return "the output is not that of -x %s: %r" % (version, out[:100]), how
    return p.changed("out.xml" if to_file else None), how


def decide(check, build, Violated, NoVerdict):
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build, "normal"), ex.submit(build, "hmlconvert")
        hv, cmd = a.result(), b.result()
    prog = convert.Program(check, cmd)
    docs = convert.documents(check, hv, "good", 4000 if check.thorough else 500, NoVerdict)
    per = 30

    def one(i, j, want):
        r = random.Random("%d %d %d" % (check.seed, i, j))
        text = docs[i]["text"].encode("utf-8")
        with Place(check, "c%d.%d" % (i, j), text, r) as p:
            if j % 5 == 4:
                return told(prog, p, r) + ("asked",)
            if j % 5 == 3:
                return accepted(prog, p, r, want) + ("accepted",)
            kind = REFUSED[(j + i) % len(REFUSED)]
            return refused(prog, p, kind, r) + ("refused_" + kind.__name__,)

    def do(i):
        text = docs[i]["text"].encode("utf-8")
        want = {}
        for v in ("1.0", "1.1"):
            x = prog.run(["-x", v], text)
            if x.returncode != 0 or not x.stdout:
                return i, None, []
            want[v] = x.stdout
        return i, want, [(j,) + one(i, j, want) for j in range(per)]

    suspects = []
    try:
        with ThreadPoolExecutor(8) as ex:
            for i, want, results in ex.map(do, range(len(docs))):
                check.count("documents" if want else "documents_left_out")
                for j, what, how, counter in results:
                    check.evals += 1
                    check.count(counter)
                    how = how.replace(check.work, "")
                    check.sigs.add(hashlib.sha256(json.dumps([docs[i]["text"], how]).encode()).digest()[:8])
                    if what:
                        suspects.append((i, j, want, what, how))
                    elif i in (3, 4) and j < 8:
                        check.samples.append({"input": how, "observed": counter})
        for i, j, want, what, how in suspects[:5] * 3:
            again = one(i, j, want)
            if again[0]:
                raise Violated("%s -- %s" % (again[0], how), check.replay_file(
                    {"what": again[0], "how": how, "input": docs[i]["text"]}))
    except subprocess.TimeoutExpired:
        raise NoVerdict("the program took too long on one document")
    if len(suspects) > 2:
        raise NoVerdict("not reproduced: %s -- %s" % suspects[0][3:])
    for x in suspects:
        check.notes.append("seen once, not reproduced: %s -- %s" % x[3:])
