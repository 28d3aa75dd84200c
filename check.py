#!/usr/bin/env python3
"""Decide one property by running the real code under its monitors.

    check.py C07          decide C07 (VERIF_TIER=quick|thorough, VERIF_SEED=<n>)
    check.py --setup      build everything once
    check.py --replay F   run the case of a replay file again

exit 0: held on everything observed; exit 1: violated, with a VIOLATION line;
exit 2: no verdict (build failure, limits reached, harness error, nothing observed).
"""

import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
GB = 1 << 30

sys.path.insert(0, os.path.join(VERIF, "lib"))
from rules import ASSUMPTIONS, EVOLVED, NEEDED, RULES  # noqa: E402


class NoVerdict(Exception):
    """The run cannot decide anything"""


class Violated(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.started = time.time()
        self.counters = {}
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.notes = []
        self.work = tempfile.mkdtemp(prefix="hv-%s-" % prop)

    # -- time -------------------------------------------------------------
    def left(self):
        limit = 6 * 3600 if self.thorough else 840
        return max(1.0, limit - (time.time() - self.started))

    def log(self, what):
        if os.environ.get("HV_VERBOSE"):
            print("%7.1f %s" % (time.time() - self.started, what), file=sys.stderr)

    # -- evidence ---------------------------------------------------------
    def merge(self, counters):
        for k, v in counters.items():
            if k.startswith("ms_"):
                continue
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def evidence(self, violations, what=None):
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.sigs),
            "rule": RULES[self.prop] + (EVOLVED if self.counters.get("streams_evolved") else ""),
            "samples": self.samples[:16],
            "observed": dict(sorted(self.counters.items())),
        }
        if self.notes:
            cov["notes"] = self.notes
        if what:
            cov["violation"] = what[:4000]
        d = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": ASSUMPTIONS["*"] + ASSUMPTIONS.get(self.prop, []),
            "wall_s": round(time.time() - self.started, 2),
            "violations": violations,
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        p = os.path.join(EVIDENCE, self.prop + ".json")
        with open(p + ".new", "w") as f:
            json.dump(d, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.replace(p + ".new", p)

    def replay_file(self, d):
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        p = os.path.join(EVIDENCE, "replay", self.prop + ".json")
        d = dict(d, property=self.prop, seed=self.seed, tier=self.tier)
        with open(p, "w") as f:
            json.dump(d, f, indent=1, ensure_ascii=True)
            f.write("\n")
        return p


# -- building -----------------------------------------------------------------
def cargo_env(**more):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI"))}
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-" + TRIPLE
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(more)
    return e


def forget(target):
    """Cargo compares times; make it look at the sources of the crate again"""
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == ".fingerprint":
            for d in list(dirs):
                if d.startswith(("hml-rs-", "hv-")):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []


def run_build(name, args, env, cwd, timeout):
    try:
        r = subprocess.run(
            args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout
        )
    except subprocess.TimeoutExpired:
        raise NoVerdict("building %s took too long" % name)
    if r.returncode != 0:
        raise NoVerdict("building %s failed:\n%s" % (name, r.stdout.decode("utf-8", "replace")[-4000:]))


def build(mode, timeout=800):
    """Build the harness for a mode; returns the command to run it"""
    target = os.path.join(TARGET, mode)
    forget(target)
    flags = "--cfg hml_verif"
    if mode in ("normal", "plain", "debug", "noxml", "noxml_plain"):
        profile = {"normal": "release", "noxml": "release", "debug": "dev"}.get(mode, "plain")
        run_build(
            mode,
            ["cargo", "build", "--offline", "--locked", "--profile", profile, "--target-dir", target]
            + (["--no-default-features"] if mode.startswith("noxml") else []),
            cargo_env(RUSTFLAGS=flags),
            HARNESS,
            timeout,
        )
        return [os.path.join(target, "debug" if profile == "dev" else profile, "hv")]
    if mode == "cov":
        # counters at every edge and a call before every comparison; see harness/cov.c
        os.makedirs(target, exist_ok=True)
        obj = os.path.join(target, "cov.o")
        run_build(mode, ["cc", "-O2", "-c", os.path.join(HARNESS, "cov.c"), "-o", obj], cargo_env(), VERIF, 100)
        passes = "-C passes=sancov-module" + "".join(" -C llvm-args=-sanitizer-coverage-" + a for a in (
            "level=3", "inline-8bit-counters", "trace-compares"))
        run_build(
            mode,
            ["cargo", "build", "--offline", "--locked", "--profile", "plain", "--target-dir", target],
            cargo_env(RUSTFLAGS="%s --cfg hv_cov %s -C link-arg=%s" % (flags, passes, obj)),
            HARNESS,
            timeout,
        )
        return [os.path.join(target, "plain", "hv")]
    if mode == "asan":
        run_build(
            mode,
            ["cargo", "build", "--offline", "--locked", "--release", "--target", TRIPLE, "--target-dir", target],
            cargo_env(RUSTFLAGS=flags + " -Zsanitizer=address", RUSTUP_TOOLCHAIN="nightly-" + TRIPLE),
            HARNESS,
            timeout,
        )
        return [os.path.join(target, TRIPLE, "release", "hv")]
    if mode == "hmlconvert":
        lock = os.path.join(REPO, "Cargo.lock")
        if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock.saved"):
            shutil.copy("/opt/vp/Cargo.lock.saved", lock)  # git ignores it
        run_build(
            mode,
            ["cargo", "build", "--offline", "--bin", "hmlconvert", "--manifest-path",
             os.path.join(REPO, "Cargo.toml"), "--target-dir", target],
            cargo_env(),
            VERIF,
            timeout,
        )
        return [os.path.join(target, "debug", "hmlconvert")]
    raise AssertionError(mode)


def miri_command():
    target = os.path.join(TARGET, "miri")
    forget(target)
    env = cargo_env(
        RUSTFLAGS="--cfg hml_verif",
        RUSTUP_TOOLCHAIN="nightly-" + TRIPLE,
        MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks",
    )
    return (
        ["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--target-dir", target, "--"],
        env,
    )


# -- the fuzzing dictionary ---------------------------------------------------
def dictionary(path):
    """Literals of the sources: words, and sizes to go just below and beyond"""
    words, nums = set(), set()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(root, f), encoding="utf-8", errors="replace") as h:
                t = h.read()
            for m in re.finditer(r'"((?:[^"\\\n]|\\.){1,24})"', t):
                words.add(m.group(1))
            for m in re.finditer(r"'((?:[^'\\\n]|\\[^x u]))'", t):
                words.add(m.group(1))
            for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)", t):
                try:
                    n = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                if n <= 200_000:
                    nums.add(n)
                    if 0x80 <= n <= 0x10FFFF and not 0xD800 <= n <= 0xDFFF:
                        words.add(chr(n))
    with open(path, "w") as f:
        for n in sorted(nums):
            f.write("n %d\n" % n)
        for w in sorted(words):
            f.write("w %s\n" % w.encode("utf-8").hex())


# -- running shards -----------------------------------------------------------
def limits(mode, memory, cpu):
    def set_limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mode in ("normal", "plain", "cov", "hmlconvert"):
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

    return set_limits


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


class Shard:
    def __init__(self, check, mode, cmd, args, name, env=None, memory=4 * GB, cpu=3600):
        self.mode = mode
        self.args = args
        self.base = os.path.join(check.work, name)
        self.out = self.base + ".json"
        self.progress = self.base + ".progress"
        self.cmd = cmd + ["run", check.prop] + args + [
            "--seed", str(check.seed), "--tier", check.tier, "--mode", mode,
            "--dict", os.path.join(check.work, "dict"),
            "--out", self.out, "--progress", self.progress,
        ]
        e = env or dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=0"
        with open(self.base + ".stdout", "wb") as o, open(self.base + ".stderr", "wb") as s:
            self.p = subprocess.Popen(
                self.cmd, cwd=HARNESS if mode == "miri" else check.work, env=e,
                stdin=subprocess.DEVNULL, stdout=o, stderr=s,
                preexec_fn=limits(mode, memory, cpu), start_new_session=True,
            )
        self.hung = False

    def wait(self, until):
        try:
            self.p.wait(max(1.0, until - time.time()))
        except subprocess.TimeoutExpired:
            self.hung = True
            self.kill()
        return self

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def text(self, what):
        with open(self.base + "." + what, "rb") as f:
            return f.read(20000).decode("utf-8", "replace")

    def at(self):
        """The case being run, from the progress file: stream, index, last panic"""
        try:
            with open(self.progress, "rb") as f:
                b = f.read()
        except OSError:
            return None
        w = b[:100].decode("utf-8", "replace").split()
        if len(w) < 2 or not w[1].isdigit():
            return None
        return w[0], int(w[1]), b[100:].decode("utf-8", "replace").strip("\0 ")

    def tape(self):
        """How the case being run is made, if it is an evolved one"""
        try:
            with open(self.progress + ".tape", "rb") as f:
                b = f.read()
        except OSError:
            return ""
        return b[8:8 + int.from_bytes(b[:8], "little")].hex()

    def crashed(self):
        return self.p.returncode < 0 and -self.p.returncode in CRASHES

    def out_of_memory(self):
        return "memory allocation of" in self.text("stderr")

    def used_up(self):
        return self.p.returncode == -signal.SIGXCPU


def read_sigs(check, path):
    try:
        with open(path, "rb") as f:
            b = f.read()
    except OSError:
        return
    for i in range(0, len(b), 8):
        check.sigs.add(b[i:i + 8])


def confirm(check, mode, cmd, stream, idx, env=None, tape=""):
    """Run one case by itself; returns what went wrong (or None), and the input"""
    cpu = 300 if check.thorough else 100
    args = ["--shard", "0", "--n", "1", "--stream", stream, "--idx", str(idx)]
    if tape:
        # an evolved case: how it is made
        path = os.path.join(check.work, "tape")
        with open(path, "wb") as f:
            f.write(bytes.fromhex(tape))
        args += ["--tape", path]
    sh = Shard(
        check, mode, cmd, args,
        "confirm", env=env, memory=8 * GB, cpu=cpu,
    )
    # a case takes milliseconds; what is limited is its processor time, so the load of
    # the machine does not matter
    sh.wait(time.time() + min(check.left(), 6 * cpu))
    res = sh.result()
    if res and res["violations"]:
        v = res["violations"][0]
        return v["what"], v["input"]
    if res and res["errors"]:
        raise NoVerdict("; ".join(res["errors"]))
    if sh.crashed() and not sh.out_of_memory():
        at = sh.at()
        return "the process was ended by signal %d: %s %s" % (
            -sh.p.returncode, at[2] if at else "", sh.text("stderr")[:2000]), ""
    if sh.used_up():
        return "no result after %d s of processor time on one case" % cpu, ""
    if mode == "miri" and sh.p.returncode not in (0, 3) and "Undefined Behavior" in sh.text("stderr"):
        return "Miri: " + miri_report(sh.text("stderr")), ""
    if res is None:
        raise NoVerdict("a case gave no result (exit %s): %s" % (sh.p.returncode, sh.text("stderr")[:1000]))
    return None, ""


def confirm_after_others(check, mode, cmd, shard_args, env=None):
    """Run the cases of a whole shard again, for what depends on the cases before it; returns
    the first violation, or None"""
    sh = Shard(check, mode, cmd, shard_args, "confirm", env=env, cpu=4 * 3600 if check.thorough else 1200)
    sh.wait(time.time() + check.left() - 30)
    res = sh.result()
    if res and res["violations"]:
        return res["violations"][0]
    return None


def miri_report(t):
    m = re.search(r"error: Undefined Behavior:.*", t, re.S)
    return (m.group(0) if m else t)[:2500]


def run_shards(check, mode, cmd, n=8, env=None, extra=(), cpu=None):
    """Run all cases of the check in n processes"""
    cpu = cpu or (4 * 3600 if check.thorough else 1200)
    shards = [
        Shard(check, mode, cmd, ["--shard", str(k), "--n", str(n)] + list(extra), "%s.%d" % (mode, k), env=env, cpu=cpu)
        for k in range(n)
    ]
    return shards


def collect(check, mode, cmd, shards, env=None):
    until = time.time() + check.left() - 60
    for s in shards:
        s.wait(until)
    suspects = []  # stream, idx, what was seen, input, arguments of the shard, how it was made
    trouble = []
    for s in shards:
        res = s.result()
        out, err = s.text("stdout"), s.text("stderr")
        if res is not None:
            check.merge(res["counters"])
            check.evals += res["evals"]
            read_sigs(check, s.out + ".sigs")
            for v in res["violations"]:
                suspects.append((v["stream"], v["idx"], v["what"], v["input"], s.args, v["tape"]))
            trouble += res["errors"]
            if mode == "normal":
                check.samples += res["samples"][: 2 if check.samples else 8]
            if check.prop == "C19" and mode != "miri" and (out or err) and not res["violations"]:
                suspects.append((None, 0, "reading wrote to standard output or standard error: %r" % (out + err)[:400], "", None, ""))
            continue
        at = s.at()
        if mode == "miri" and "Undefined Behavior" in err:
            suspects.append((at[0] if at else None, at[1] if at else 0, "Miri: " + miri_report(err), "", None, ""))
        elif at and (s.crashed() or s.used_up() or s.hung):
            suspects.append((at[0], at[1], "the process was ended (%s)" % s.p.returncode, "", None, s.tape()))
        else:
            trouble.append("shard ended with %s: %s" % (s.p.returncode, err[:1500]))
    for stream, idx, what, text, shard_args, tape in suspects:
        if stream is None:
            raise Violated(what, check.replay_file({"what": what, "mode": mode}))
        again, again_text = confirm(check, mode, cmd, stream, idx, env=env, tape=tape)
        if again is None and shard_args:
            # it may need what the cases before it left behind in the process
            v = confirm_after_others(check, mode, cmd, shard_args, env=env)
            if v:
                what = "%s (only after the cases before it)" % v["what"]
                raise Violated("%s[%d]: %s" % (v["stream"], v["idx"], what), check.replay_file({
                    "mode": mode, "stream": v["stream"], "idx": v["idx"], "shard": shard_args,
                    "what": what, "input": v["input"],
                    "again": "python3 check.py --replay <this file>",
                }))
        if again is None:
            trouble.append("not reproduced: %s[%d]: %s" % (stream, idx, what))
            continue
        rep = check.replay_file({
            "mode": mode, "stream": stream, "idx": idx, "tape": tape, "what": again,
            "input": again_text or text,
            "again": "python3 check.py --replay <this file>",
        })
        raise Violated("%s[%d]: %s" % (stream, idx, again), rep)
    if trouble:
        raise NoVerdict("\n".join(trouble))


def have_nightly():
    r = subprocess.run(
        ["rustc", "--version"], env=cargo_env(RUSTUP_TOOLCHAIN="nightly-" + TRIPLE),
        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
    )
    return r.returncode == 0


def in_process(check):
    """The checks whose cases run inside the harness process"""
    modes = ["normal", "plain", "cov"]
    asan = check.prop == "C01"
    miri = check.prop == "C01" or (check.prop == "C19" and check.thorough)
    if (asan or miri) and not have_nightly():
        check.notes.append("no nightly toolchain: AddressSanitizer and Miri were not run")
        asan = miri = False
    if asan:
        modes.append("asan")
    with ThreadPoolExecutor(4) as ex:
        built = {m: ex.submit(build, m) for m in modes}
        cmds = {}
        for m in modes:
            try:
                cmds[m] = built[m].result()
            except NoVerdict as e:
                if m not in ("asan", "cov"):
                    raise
                check.notes.append("%s was not run: %s" % (
                    "AddressSanitizer" if m == "asan" else "evolving cases", str(e)[-300:]))
    if miri:
        cmd, env = miri_command()
        # builds, then interprets a few cases of every stream
        mshards = run_miri(check, cmd, env)
    for m, cmd in cmds.items():
        check.log(m)
        collect(check, m, cmd, run_shards(check, m, cmd))
        check.count("runs_" + m)
    if miri:
        finish_miri(check, cmd, env, mshards)


def run_miri(check, cmd, env):
    # the first process builds; give the others something to run at once
    r = subprocess.run(
        cmd + ["--version"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600
    )
    t = r.stdout.decode("utf-8", "replace")
    if "usage: hv" not in t:
        check.notes.append("Miri was not run: " + t[-300:])
        return None
    return run_shards(check, "miri", cmd, n=4, env=env)


def finish_miri(check, cmd, env, shards):
    if shards is None:
        return
    check.log("miri")
    limit = time.time() + min(check.left() - 60, 3600 if check.thorough else 400)
    for s in shards:
        s.wait(limit)
    # what did not finish in time is no verdict on anything
    slow = [s for s in shards if s.hung]
    if slow:
        check.notes.append("%d of %d Miri runs were stopped after their time" % (len(slow), len(shards)))
    done = [s for s in shards if not s.hung]
    before = check.evals
    collect(check, "miri", cmd, done, env=env)
    check.count("cases_under_miri", check.evals - before)


# -- main ---------------------------------------------------------------------
def decide(check):
    dictionary(os.path.join(check.work, "dict"))
    if check.prop == "C16":
        import convert
        convert.decide(check, build, Violated, NoVerdict)
    elif check.prop == "C21":
        import faults
        faults.decide(check, build, Violated, NoVerdict)
    elif check.prop == "C23":
        import cmdline
        cmdline.decide(check, build, Violated, NoVerdict)
    elif check.prop == "C25":
        import builds
        builds.decide(check, build, Violated, NoVerdict)
    else:
        in_process(check)
        if check.prop == "C19":
            import surround
            surround.decide(check, [os.path.join(TARGET, "normal", "release", "hv")], Violated, NoVerdict)
        if check.prop == "C15":
            import convert
            convert.expat_documents(check, [os.path.join(TARGET, "normal", "release", "hv")], Violated, NoVerdict)
    for name, least in NEEDED.get(check.prop, {}).items():
        if check.counters.get(name, 0) < least:
            raise NoVerdict("too little was observed: %s is %d" % (name, check.counters.get(name, 0)))
    if check.evals == 0 or len(check.sigs) < 10 or not check.samples:
        raise NoVerdict("nothing was observed")


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        with ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(build, m) for m in ("normal", "plain", "cov", "debug", "noxml", "noxml_plain", "hmlconvert")]:
                f.result()
        print("built")
        return 0
    if len(args) == 2 and args[0] == "--replay":
        with open(args[1]) as f:
            d = json.load(f)
        check = Check(d["property"], d["tier"], d["seed"])
        try:
            dictionary(os.path.join(check.work, "dict"))
            if "stream" not in d:
                print(json.dumps(d, indent=1))
                return 0
            env = None
            if d["mode"] == "miri":
                cmd, env = miri_command()
            else:
                cmd = build(d["mode"])
            if "shard" in d:
                v = confirm_after_others(check, d["mode"], cmd, d["shard"], env=env)
                what, text = (v["what"], v["input"]) if v else (None, "")
            else:
                what, text = confirm(check, d["mode"], cmd, d["stream"], d["idx"], env=env, tape=d.get("tape", ""))
            print("input: %s\n%s" % (text, what or "held"))
            return 1 if what else 0
        finally:
            shutil.rmtree(check.work, ignore_errors=True)
    if len(args) != 1 or args[0] not in RULES:
        print(__doc__, file=sys.stderr)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1")) % (1 << 62)
    except ValueError:
        seed = 1
    check = Check(args[0], tier, seed)
    try:
        decide(check)
    except Violated as v:
        check.evidence(1, v.what)
        print(v.what[:3000])
        print("VIOLATION property=%s replay=%s" % (check.prop, v.replay))
        return 1
    except NoVerdict as e:
        check.notes.append("no verdict: " + str(e)[:2000])
        check.evidence(0)
        print("no verdict: %s" % e, file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(check.work, ignore_errors=True)
    check.evidence(0)
    print("%s held: %d cases, %d distinct, %.1f s" % (
        check.prop, check.evals, len(check.sigs), time.time() - check.started))
    return 0


if __name__ == "__main__":
    sys.exit(main())
