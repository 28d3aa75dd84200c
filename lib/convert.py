"""The checks that look at XML and at the hmlconvert program from outside."""

import hashlib
import json
import os
import re
import resource
import stat
import subprocess
import xml.parsers.expat
from concurrent.futures import ThreadPoolExecutor

import surround

GB = 1 << 30


def documents(check, hv, what, n, NoVerdict):
    """Documents made by the harness, with what they mean"""
    path = os.path.join(check.work, what + ".docs")
    r = subprocess.run(
        hv + ["gen", what, "--seed", str(check.seed), "--n", str(n), "--out", path,
              "--dict", os.path.join(check.work, "dict")],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=check.left(),
    )
    if r.returncode != 0:
        raise NoVerdict("making documents failed: %s" % r.stdout[-1000:])
    with open(path, encoding="utf-8") as f:
        return [json.loads(l) for l in f if l.strip()]


def parse(xml, namespaces):
    """The items of an XML text by expat: S, E, T, C as the harness writes them"""
    items = []

    def name(n):
        if namespaces and "\x01" in n:
            u, l = n.split("\x01", 1)
            return u, l
        return "", n

    def text(t):
        if items and items[-1][0] == "T":
            items[-1][1] += t
        else:
            items.append(["T", t])

    def start(n, attrs):
        u, l = name(n)
        items.append(["S", u, l, [list(name(attrs[i])) + [attrs[i + 1]] for i in range(0, len(attrs), 2)]])

    def end(n):
        u, l = name(n)
        items.append(["E", u, l])

    p = xml_parser(namespaces)
    p.ordered_attributes = True
    p.buffer_text = True
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = text
    p.CommentHandler = lambda t: items.append(["C", t])
    p.Parse(xml, True)
    return items


def xml_parser(namespaces):
    if namespaces:
        return xml.parsers.expat.ParserCreate("utf-8", "\x01")
    return xml.parsers.expat.ParserCreate("utf-8")


def shown(x, n=1500):
    return json.dumps(x, ensure_ascii=True)[:n]


def difference(got, want):
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if g != w:
            return "item %d is %s, not %s" % (i, shown(g, 700), shown(w, 700))
    return "no difference"


# -- C15 ----------------------------------------------------------------------
def expat_documents(check, hv, Violated, NoVerdict):
    """XML written from events, read by a parser that is not xml-rs"""
    docs = documents(check, hv, "C15", 60000 if check.thorough else 4000, NoVerdict)
    for d in docs:
        check.evals += 1
        what = None
        if d["err"]:
            what = "the events cannot be written: " + d["err"]
        else:
            try:
                got = parse(d["xml"].encode("utf-8"), True)
                got = [x for x in got if x[0] != "C"]
                got = join_texts(got)
                if got != join_texts(d["want"]):
                    what = "read by expat, " + difference(got, join_texts(d["want"]))
            except xml.parsers.expat.ExpatError as e:
                what = "expat refuses the XML: %s" % e
        if what:
            raise Violated(what, check.replay_file({"what": what, "input": d["text"], "xml": d["xml"]}))
        check.count("documents_read_by_expat")


def join_texts(items):
    out = []
    for x in items:
        if x[0] == "T" and out and out[-1][0] == "T":
            out[-1] = ["T", out[-1][1] + x[1]]
        elif x[0] != "T" or x[1]:
            out.append(list(x))
    return out


# -- C16 ----------------------------------------------------------------------
def normal(items):
    """Leave out what indentation may add: whitespace around text and comments, but
    none in an element that has nothing but one text"""
    out = []
    items = join_texts(items)
    for i, x in enumerate(items):
        if x[0] == "T" and items[i - 1][0] == "S" and items[i + 1][0] == "E":
            out.append(x)
        elif x[0] in ("T", "C"):
            t = x[1].strip(" \t\r\n")
            if x[0] == "T" and not t:
                continue
            out.append([x[0], t])
        else:
            out.append(x)
    # texts on both sides of a dropped text may meet
    return join_texts(out)


class Program:
    def __init__(self, check, cmd):
        self.check = check
        self.cmd = cmd
        self.odd = [
            {n: "1" for n in surround.names(check)},
            {n: "1.1" for n in surround.names(check)},
            {"LANG": "tr_TR.ISO-8859-9", "LC_ALL": "tr_TR.ISO-8859-9", "HOME": "/nonexistent", "TMPDIR": "/nonexistent"},
            {"LC_ALL": "C", "TERM": "dumb", "COLUMNS": "20"},
        ]
        self.litter = os.path.join(check.work, "litter")
        os.mkdir(self.litter)
        surround.litter(check, self.litter)

    def run(self, args, stdin=None, odd={}, cwd=None):
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
            resource.setrlimit(resource.RLIMIT_AS, (4 * GB, 4 * GB))

        env = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "LANG": "C.UTF-8"}
        env.update((k, v) for k, v in odd.items() if not k.startswith("RUST_"))
        return subprocess.run(
            self.cmd + args, input=stdin if stdin is not None else b"", env=env, cwd=cwd or self.check.work,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, preexec_fn=lim,
        )


NAMES = ["-", "-", "a b", "a b", "stdout", "stdin", "1.1", "1.1", "x.xml", "x.xml", "\u00e9\u4e2d\U0001f600", "\u00e9\u4e2d\U0001f600",
         "%s", "%s", "a'b\"c", "a'b\"c", "*", "*", "a\nb", "a\nb"]
VERSIONS = [None, None, ("-x", "1.0"), ("-x", "1.1"), ("--xml_version", "1.1"), ("--xml_version", "1.0"), ("-x", "1")]


def one(check, prog, i, d, good, names=None):
    """Run the program on one document; returns what is wrong, or None"""
    text = d["text"].encode("utf-8")
    by_file = (i % 2) == 0
    dest = ["stdout", "new", "existing"][(i // 2) % 3]
    version = VERSIONS[(i // 6) % len(VERSIONS)]
    base = os.path.join(check.work, "%s%d" % ("g" if good else "b", i))
    hml, out = base + ".hml", base + ".xml"
    if names:
        by_file, dest = True, "new"
        hml, out = names
    odd = prog.odd[i // 5 % 4] if i % 5 == 1 else {}
    cwd = prog.litter if i % 7 == 3 and not names else None
    args, made = [], []
    if dest != "stdout":
        made.append(out)
        args += ["--output", out]
        if dest == "existing":
            with open(out, "wb") as f:
                f.write(b"<old>" * 20000)
    if version:
        args += list(version)
    stdin = text
    if by_file:
        with open(os.path.join(check.work, hml), "wb") as f:
            f.write(text)
        made.append(hml)
        args.append(hml)
        stdin = None
    try:
        r = prog.run(args, stdin, odd, cwd)
        result = r.stdout
        if dest != "stdout":
            try:
                with open(os.path.join(check.work, out), "rb") as f:
                    result = f.read()
            except OSError:
                result = None
    finally:
        for p in made:
            try:
                os.unlink(os.path.join(check.work, p))
            except OSError:
                pass
    how = "options %s, input by %s" % (args, "file" if by_file else "standard input")
    if odd:
        how += ", with other variables in the environment"
    if cwd:
        how += ", in a directory with files named like literals of the sources"
    key = hashlib.sha256(json.dumps([d["text"], by_file, dest, version]).encode()).digest()[:8]
    if good:
        what = judge_good(r, result, dest, version, d)
    else:
        what = judge_bad(r, d)
    return what, how, key, shown(result.decode("utf-8", "replace") if good and result else r.stderr.decode("utf-8", "replace"), 400)


def judge_good(r, result, dest, version, d):
    if r.returncode != 0:
        return "exit status %d for an accepted document: %s" % (r.returncode, r.stderr[:500])
    if dest != "stdout":
        if result is None:
            return "the output file was not written"
        if r.stdout.strip():
            return "with --output, something went to standard output: %r" % r.stdout[:200]
    m = re.match(rb'<\?xml version="([0-9.]+)"', result)
    want = b"1.0" if version is None or version[1] in ("1.0", "1") else b"1.1"
    if not m or m.group(1) != want:
        return "the XML declaration is not that of version %s: %r" % (want.decode(), result[:60])
    # expat knows only version 1.0
    xml_text = result.replace(b'version="1.1"', b'version="1.0"', 1)
    try:
        got = normal(parse(xml_text, False))
    except xml.parsers.expat.ExpatError as e:
        return "the XML is not well-formed: %s: %r" % (e, result[:600])
    wanted = normal(d["want"])
    if any(x[0] == "C" and ("--" in x[1] or x[1].endswith("-")) for x in d["want"]):
        # XML has no such comments; the writer puts spaces between
        for x in got + wanted:
            if x[0] == "C":
                x[1] = x[1].replace("-", "").replace(" ", "")
    if got != wanted:
        return "in the XML, " + difference(got, wanted)
    return None


def judge_bad(r, d):
    if r.returncode == 0:
        return "exit status 0 for a refused document"
    if r.returncode < 0:
        return "ended by signal %d" % -r.returncode
    err = r.stderr.decode("utf-8", "replace").split("\n")
    lines = d["text"].split("\n")
    line = lines[d["line"] - 1] if d["line"] <= len(lines) else ""
    number = re.compile(r"(^|[^0-9])%d([^0-9]|$)" % d["line"])
    for k, e in enumerate(err[:-1]):
        if not e.endswith(line):
            continue
        at = len(e) - len(line)
        if not number.search(e[:at]):
            continue
        mark = err[k + 1]
        if mark.find("^") == at + d["col"] - 1:
            break
    else:
        return "line %d, column %d is not shown: %s" % (d["line"], d["col"], shown(r.stderr.decode("utf-8", "replace")))
    rest = "\n".join(err)
    if not d["reason"] or d["reason"] not in rest:
        return "the reason %r is not given: %s" % (d["reason"], shown(rest))
    return None


def in_place(check, prog, i, d):
    """The output goes to the file that is the input, or to one that a link names"""
    p, l = os.path.join(check.work, "in%d" % i), os.path.join(check.work, "link%d" % i)
    with open(p, "wb") as f:
        f.write(d["text"].encode("utf-8"))
    os.symlink(p, l)
    try:
        out, inp = [(p, p), (l, p), (p, l)][i // 3 % 3]
        r = prog.run(["--output", out, inp])
        with open(out, "rb") as f:
            return judge_good(r, f.read(), "file", None, d), "--output %s %s" % (out, inp)
    finally:
        os.unlink(p)
        os.unlink(l)


def by_fifo(check, prog, i, d):
    """The input file has no size of its own"""
    p, t = os.path.join(check.work, "fifo%d" % i), os.path.join(check.work, "text%d" % i)
    with open(t, "wb") as f:
        f.write(d["text"].encode("utf-8"))
    os.mkfifo(p)
    feeder = subprocess.Popen(["/bin/sh", "-c", 'cat "$1" > "$0"', p, t], stdin=subprocess.DEVNULL)
    try:
        r = prog.run([p])
        return judge_good(r, r.stdout, "stdout", None, d), "input from a named pipe"
    finally:
        feeder.kill()
        feeder.wait()
        os.unlink(p)
        os.unlink(t)


def to_fifo(check, prog, i, d):
    """The output file cannot be cut or gone back in"""
    p = os.path.join(check.work, "fifo%d" % i)
    os.mkfifo(p)
    taker = subprocess.Popen(["cat", p], stdout=subprocess.PIPE, stdin=subprocess.DEVNULL)
    try:
        r = prog.run(["--output", p], d["text"].encode("utf-8"))
        out = b""
        if r.returncode == 0 and not stat.S_ISFIFO(os.stat(p).st_mode):
            with open(p, "rb") as f:
                out = f.read()
        elif r.returncode == 0:
            out, _ = taker.communicate(timeout=60)
        return judge_good(r, out, "file", None, d), "output to a named pipe"
    finally:
        taker.kill()
        taker.wait()
        os.unlink(p)


def decide(check, build, Violated, NoVerdict):
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build, "normal"), ex.submit(build, "hmlconvert")
        hv, cmd = a.result(), b.result()
    good = documents(check, hv, "good", 40000 if check.thorough else 2400, NoVerdict)
    bad = documents(check, hv, "bad", 40000 if check.thorough else 2400, NoVerdict)
    prog = Program(check, cmd)
    jobs = [(i, d, True) for i, d in enumerate(good)] + [(i, d, False) for i, d in enumerate(bad)]
    # large documents
    jobs += [(i, d, True) for i, d in enumerate(large(check, hv, NoVerdict), start=len(good))]

    def do(job):
        i, d, g = job
        try:
            return job, one(check, prog, i, d, g)
        except subprocess.TimeoutExpired:
            return job, None

    # file names that mean something else to other programs
    for i, n in enumerate(NAMES):
        d = good[i]
        res = one(check, prog, i, d, True, ("x." + n if i % 2 else n, n if i % 2 else "x." + n))
        check.evals += 1
        check.count("odd_names")
        if res[0]:
            raise Violated(res[0] + " -- " + res[1], check.replay_file(
                {"what": res[0], "how": res[1], "input": d["text"]}))
    for i in range(60):
        d = good[i]
        try:
            what, how = [in_place, by_fifo, to_fifo][i % 3](check, prog, i, d)
        except subprocess.TimeoutExpired:
            raise NoVerdict("the program took too long on one document")
        check.evals += 1
        check.count("odd_files")
        if what:
            raise Violated(what + " -- " + how, check.replay_file({"what": what, "how": how, "input": d["text"]}))
    suspects = []
    with ThreadPoolExecutor(8) as ex:
        for job, res in ex.map(do, jobs):
            if res is None:
                raise NoVerdict("the program took too long on one document")
            what, how, key, seen = res
            check.evals += 1
            check.sigs.add(key)
            check.count("converted" if job[2] else "refused")
            if not job[2]:
                check.count("refused_" + job[1]["kind"])
            if what:
                suspects.append((job, what, how))
            elif job[0] in (7, 8, 9, 40, 41, 42):
                check.samples.append({"input": job[1]["text"][:400] + " -- " + how, "observed": seen})
    for job, what, how in suspects[:5] * 3:
        again = one(check, prog, *job)
        if again[0]:
            raise Violated(again[0] + " -- " + how, check.replay_file(
                {"what": again[0], "how": how, "input": job[1]["text"]}))
    if len(suspects) > 2:
        raise NoVerdict("not reproduced: " + suspects[0][1])
    for x in suspects:
        check.notes.append("seen once, not reproduced: %s -- %s" % x[1:])


def large(check, hv, NoVerdict):
    docs = []
    for n in (300, 3000) + ((30000,) if check.thorough else ()):
        kids = []
        text = ["#root\n"]
        for k in range(n):
            text.append("##item id='%d' name=n%d\n \"text %d\" ;c%d\n" % (k, k, k, k))
            kids += [["S", "", "item", [["", "id", str(k)], ["", "name", "n%d" % k]]],
                     ["T", "text %d" % k], ["C", "c%d" % k], ["E", "", "item"]]
        docs.append({"text": "".join(text), "want": [["S", "", "root", []]] + kids + [["E", "", "root"]]})
        depth = min(n, 1000)
        docs.append({
            "text": "".join("#d%d{ " % k for k in range(depth)) + '"x"' + "".join(" #d%d}" % k for k in reversed(range(depth))),
            "want": [["S", "", "d%d" % k, []] for k in range(depth)] + [["T", "x"]]
            + [["E", "", "d%d" % k] for k in reversed(range(depth))],
        })
        docs.append({"text": "#a v='%s' \"%s\"" % ("v" * n * 10, "s" * n * 10),
                     "want": [["S", "", "a", [["", "v", "v" * n * 10]]], ["T", "s" * n * 10], ["E", "", "a"]]})
    # more than a program might read or write at once; by file and by standard input
    for unit in ("x", "\u00e9y", "\U0001f600\u4e2d z"):
        n = 400000 if check.thorough else 100000
        texts = [unit * n + str(k) for k in range(12)]
        d = {"text": "#a\n" + "".join("##b k='%d'\n '%s'\n" % (k, t) for k, t in enumerate(texts)),
             "want": [["S", "", "a", []]]
             + [x for k, t in enumerate(texts) for x in (["S", "", "b", [["", "k", str(k)]]], ["T", t], ["E", "", "b"])]
             + [["E", "", "a"]]}
        docs += [d, d]
    return docs
