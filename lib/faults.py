"""hmlconvert when reading its input or writing its output fails (C21)."""

import errno
import hashlib
import json
import os
import random
import resource
import signal
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import convert

GB = 1 << 30
SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "faults.c")


# A process between fork and exec holds copies of all files of this one, so that a pipe may
# have a reader although its reading end is closed here
SPAWN = threading.Lock()


class Program:
    def __init__(self, check, cmd, shim):
        self.check = check
        self.cmd = cmd
        self.shim = shim

    def run(self, args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, data=None, env=(), size=None):
        """Run it; the size of files is limited if asked for"""
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
            resource.setrlimit(resource.RLIMIT_AS, (4 * GB, 4 * GB))
            if size is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))

        e = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "LANG": "C.UTF-8"}
        e.update(env)
        with SPAWN:
            p = subprocess.Popen(
                self.cmd + args, env=e, cwd=self.check.work, stdout=stdout, stderr=subprocess.PIPE,
                stdin=subprocess.PIPE if data is not None else stdin,
                preexec_fn=lim, restore_signals=size is None)
        try:
            out, err = p.communicate(data, timeout=300)
        except BaseException:
            p.kill()
            p.wait()
            raise
        return subprocess.CompletedProcess(p.args, p.returncode, out, err)


class Case:
    """Scratch files of one case"""

    def __init__(self, prog, i, text):
        self.prog = prog
        self.base = os.path.join(prog.check.work, "f%d" % i)
        self.hml, self.xml, self.log = self.base + ".hml", self.base + ".xml", self.base + ".log"
        self.text = text

    def __enter__(self):
        with open(self.hml, "wb") as f:
            f.write(self.text)
        return self

    def __exit__(self, *_):
        for p in (self.hml, self.xml, self.log):
            try:
                os.unlink(p)
            except OSError:
                pass

    def fresh(self):
        for p in (self.xml, self.log):
            try:
                os.unlink(p)
            except OSError:
                pass

    def convert(self, by_file, to_file, env=(), size=None):
        """Convert; returns exit status, output, and whether a fault was made"""
        self.fresh()
        env = dict(env, HF_LOG=self.log)
        args = []
        if to_file:
            args += ["--output", self.xml]
            env["HF_OUT"] = self.xml
        if by_file:
            args.append(self.hml)
            env["HF_IN"] = self.hml
        inp = subprocess.DEVNULL
        with open(self.hml if not by_file else os.devnull, "rb") as inp:
            if to_file:
                r = self.prog.run(args, stdin=inp, env=env, size=size)
            else:
                with open(self.xml, "wb") as o:
                    r = self.prog.run(args, stdin=inp, stdout=o, env=env, size=size)
        return r.returncode, self.output(), os.path.exists(self.log)

    def output(self):
        try:
            with open(self.xml, "rb") as f:
                return f.read()
        except OSError:
            return b""


def differs(got, want):
    return "the output has %d of %d bytes: ...%r" % (len(got), len(want), got[-60:])


# Each kind takes a case, the right output, and random numbers; it returns what is wrong or None,
# how it was done, and the name of a counter

def size_limit(c, want, r):
    """The output can take only so many bytes"""
    to_file = r.random() < 0.5
    k = r.choice([r.randrange(len(want)), len(want) - 1 - r.randrange(min(len(want), 12))])
    rc, got, _ = c.convert(r.random() < 0.5, to_file, size=k)
    how = "room for %d of %d bytes in %s" % (k, len(want), "the output file" if to_file else "standard output")
    if rc == 0:
        return "exit status 0 although " + differs(got, want), how, "outputs_limited"
    return None, how, "outputs_limited"


def full(c, want, r):
    if r.random() < 0.5:
        with open("/dev/full", "wb") as o:
            rc = c.prog.run([c.hml], stdout=o).returncode
        how = "standard output is /dev/full"
    else:
        rc = c.prog.run(["--output", "/dev/full", c.hml]).returncode
        how = "--output /dev/full"
    return ("exit status 0 although nothing can be written" if rc == 0 else None), how, "outputs_full"


def no_reader(c, want, r):
    with SPAWN:
        rd, wr = os.pipe()
        os.close(rd)
    try:
        rc = c.prog.run([c.hml], stdout=wr).returncode
    finally:
        os.close(wr)
    return ("exit status 0 although nobody reads the output" if rc == 0 else None), "standard output is a pipe without reader", "outputs_full"


ERRORS = [errno.EIO, errno.ENOSPC, errno.EPIPE, errno.EAGAIN, errno.EINTR, errno.EDQUOT]


def failing_write(c, want, r):
    to_file, by_file = r.random() < 0.5, r.random() < 0.5
    e, n = r.choice(ERRORS), 1 + r.randrange(r.choice([2, 6, 30, 200]))
    count = r.choice([1, 1, 1000000])
    if e == errno.EINTR:
        count = 1  # calls are made again
    env = {"HF_W": "%d:%d:%d" % (n, e, count), "LD_PRELOAD": c.prog.shim}
    if r.random() < 0.4:
        env["HF_WS"] = str(r.choice([1, 2, 3, 7, 50]))
    rc, got, fault = c.convert(by_file, to_file, env=env)
    how = "write %d to %s fails with %s%s" % (
        n, "the output file" if to_file else "standard output", errno.errorcode[e], " once" if count == 1 else "")
    if rc == 0 and got != want:
        return "exit status 0 although " + differs(got, want), how, "writes_failed"
    if rc != 0 and not fault:
        return "exit status %d although every write worked" % rc, how, "writes_failed"
    return None, how, "writes_failed" if fault else "writes_short"


def failing_read(c, want, r):
    to_file, by_file = r.random() < 0.3, r.random() < 0.5
    e, n = r.choice([errno.EIO, errno.EIO, errno.ENOMEM, errno.EAGAIN, errno.EINTR]), 1 + r.randrange(r.choice([1, 3, 12]))
    count = 1 if e == errno.EINTR else r.choice([1, 1000000])
    env = {"HF_R": "%d:%d:%d" % (n, e, count), "LD_PRELOAD": c.prog.shim}
    if r.random() < 0.8:
        env["HF_RS"] = str(r.choice([1, 2, 3, 7, 50]))
    rc, got, fault = c.convert(by_file, to_file, env=env)
    how = "read %d of %s fails with %s" % (n, "the input file" if by_file else "standard input", errno.errorcode[e])
    if rc == 0 and got != want:
        return "exit status 0 although " + differs(got, want), how, "reads_failed"
    if rc != 0 and not fault:
        return "exit status %d although every read worked" % rc, how, "reads_failed"
    return None, how, "reads_failed" if fault else "reads_short"


def short_calls(c, want, r):
    env = {"HF_RS": str(r.choice([1, 2, 3, 5, 13, 100])), "HF_WS": str(r.choice([1, 2, 3, 5, 13, 100])), "LD_PRELOAD": c.prog.shim}
    rc, got, _ = c.convert(r.random() < 0.5, r.random() < 0.5, env=env)
    how = "reads of %s and writes of %s bytes at most" % (env["HF_RS"], env["HF_WS"])
    if rc != 0 or got != want:
        return "exit status %d and %s" % (rc, differs(got, want)), how, "calls_short"
    return None, how, "calls_short"


def in_pieces(c, want, r):
    """Input by a pipe in pieces, output to a pipe read slowly"""
    cuts = sorted(r.randrange(len(c.text) + 1) for _ in range(r.randrange(1, 6)))
    parts = [c.text[a:b] for a, b in zip([0] + cuts, cuts + [len(c.text)])]
    pauses = [r.choice([0, 0.0005, 0.002]) for _ in parts]
    rd, wr = os.pipe()

    def feed():
        try:
            for p, t in zip(parts, pauses):
                if p:
                    os.write(wr, p)
                time.sleep(t)
        except OSError:
            pass
        finally:
            os.close(wr)

    t = threading.Thread(target=feed)
    t.start()
    try:
        x = c.prog.run([], stdin=rd)
    finally:
        os.close(rd)
        t.join()
    how = "standard input in %d pieces, cut at %s" % (len(parts), cuts)
    if x.returncode != 0 or x.stdout != want:
        return "exit status %d and %s" % (x.returncode, differs(x.stdout, want)), how, "inputs_in_pieces"
    return None, how, "inputs_in_pieces"


BAD = [b"\x80", b"\xff", b"\xc0\xaf", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9f\x98", b"\xfe\xff", b"\xc1\xbf"]


def not_utf8(c, want, r):
    at = r.choice([r.randrange(len(c.text) + 1), len(c.text), 0])
    while at < len(c.text) and c.text[at] & 0xC0 == 0x80:
        at += 1
    bad = r.choice(BAD)
    if r.random() < 0.3:
        # behind a comment, where nothing would be noticed by the grammar
        text = c.text + b"\n; " + bad
    else:
        text = c.text[:at] + bad + c.text[at:]
    try:
        text.decode("utf-8")
        return None, "", "not_bad"
    except UnicodeDecodeError:
        pass
    if r.random() < 0.5:
        rc = c.prog.run([], data=text).returncode
    else:
        with open(c.hml, "wb") as f:
            f.write(text)
        rc = c.prog.run([c.hml]).returncode
    how = "%r in the input" % bad
    return ("exit status 0 for an input that is not UTF-8" if rc == 0 else None), how, "inputs_not_utf8"


def nowhere(c, want, r):
    work = c.prog.check.work
    kind = r.randrange(5)
    if kind == 0:
        args, how = [c.base + ".missing"], "the input file does not exist"
    elif kind == 1:
        args, how = [work], "the input file is a directory"
    elif kind == 2:
        args, how = ["--output", os.path.join(c.base + ".missing", "x"), c.hml], "the directory of the output file does not exist"
    elif kind == 3:
        args, how = ["--output", work, c.hml], "the output file is a directory"
    else:
        args, how = [os.path.join(c.hml, "x")], "a file is used as a directory"
    x = c.prog.run(args, data=c.text if kind in (0, 1, 4) else b"")
    if x.returncode == 0:
        return "exit status 0", how, "files_missing"
    return None, how, "files_missing"


KINDS = [size_limit, size_limit, size_limit, failing_write, failing_write, failing_write, failing_read, failing_read,
         short_calls, in_pieces, not_utf8, full, no_reader, nowhere]
NEED_SHIM = (failing_write, failing_read, short_calls)


def make_shim(check):
    so = os.path.join(check.work, "faults.so")
    try:
        r = subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", so, SHIM, "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if r.returncode == 0:
            return so
        why = r.stdout.decode("utf-8", "replace")[-300:]
    except (OSError, subprocess.TimeoutExpired) as e:
        why = str(e)
    check.notes.append("single calls were not made to fail: " + why)
    return None


def decide(check, build, Violated, NoVerdict):
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build, "normal"), ex.submit(build, "hmlconvert")
        hv, cmd = a.result(), b.result()
    shim = make_shim(check)
    prog = Program(check, cmd, shim)
    docs = convert.documents(check, hv, "good", 6000 if check.thorough else 400, NoVerdict)
    per = 60 if check.thorough else 30
    kinds = [k for k in KINDS if shim or k not in NEED_SHIM]

    def one(i, j, text, want):
        r = random.Random("%d %d %d" % (check.seed, i, j))
        kind = kinds[j % len(kinds)] if j < 2 * len(kinds) else r.choice(kinds)
        with Case(prog, i * 1000 + j, text) as c:
            return kind(c, want, r)

    def do(i):
        text = docs[i]["text"].encode("utf-8")
        x = prog.run([], data=text)
        if x.returncode != 0 or not x.stdout:
            return i, text, None, []
        return i, text, x.stdout, [(j,) + one(i, j, text, x.stdout) for j in range(per)]

    suspects = []
    try:
        with ThreadPoolExecutor(8) as ex:
            for i, text, want, results in ex.map(do, range(len(docs))):
                check.count("documents" if want else "documents_left_out")
                for j, what, how, counter in results:
                    check.evals += 1
                    check.count(counter)
                    check.sigs.add(hashlib.sha256(json.dumps([docs[i]["text"], how]).encode()).digest()[:8])
                    if what:
                        suspects.append((i, j, text, want, what, how))
                    elif i in (3, 4) and j < 8:
                        check.samples.append({"input": docs[i]["text"][:300] + " -- " + how, "observed": counter})
        for i, j, text, want, what, how in suspects[:5] * 3:
            again = one(i, j, text, want)
            if again[0]:
                raise Violated(again[0] + " -- " + again[1], check.replay_file(
                    {"what": again[0], "how": again[1], "input": docs[i]["text"]}))
    except subprocess.TimeoutExpired:
        raise NoVerdict("the program took too long on one document")
    if len(suspects) > 2:
        raise NoVerdict("not reproduced: %s -- %s" % suspects[0][4:])
    for x in suspects:
        check.notes.append("seen once, not reproduced: %s -- %s" % x[4:])
