"""The library in other configurations: without the feature xml, optimised or not (C25)."""

import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

SHOWN = {
    "normal": "optimised, with assertions",
    "plain": "optimised, without assertions",
    "debug": "not optimised",
    "noxml": "without the feature xml",
    "noxml_plain": "without the feature xml, optimised, without assertions",
}


def decide(check, build, Violated, NoVerdict):
    cmds = {}
    with ThreadPoolExecutor(3) as ex:
        built = {m: ex.submit(build, m) for m in SHOWN}
        for m in SHOWN:
            try:
                cmds[m] = built[m].result()
            except NoVerdict as e:
                # normal comes first: if that fails there is no verdict
                if m.startswith("noxml") and "could not compile `hml-rs`" in str(e):
                    what = "the library does not build without the feature xml: " + str(e)[-2500:]
                    raise Violated(what, check.replay_file({"what": what}))
                raise
    n = 2_000_000 if check.thorough else 64_000
    dic = os.path.join(check.work, "dict")

    def run(m, k, step, last):
        r = subprocess.run(
            cmds[m] + ["lines", "--seed", str(check.seed), "--from", str(k), "--n", str(last), "--step", str(step), "--dict", dic],
            cwd=check.work, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=check.left())
        return r

    def compare(k):
        """Part k of the cases in all builds; what differs, or None"""
        want = None
        for m in SHOWN:
            r = run(m, k, 64, n)
            got = r.stdout.split(b"\n")
            if want is None:
                if r.returncode != 0 or len(got) < 2:
                    return "error", "%s build ended with %d: %s" % (m, r.returncode, r.stderr[:500])
                want = got
                continue
            for a, b in zip(want, got + [b""] * len(want)):
                if a != b:
                    return m, int(a.split()[0]), a, b
        return None, want

    try:
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(compare, range(64)))
        for res in results:
            if res[0] == "error":
                raise NoVerdict(res[1])
            if res[0] is not None:
                m, i, a, b = res
                # again, alone
                one = [run(x, i, n, i + 1) for x in ("normal", m)]
                a, b = [o.stdout.split(b"\n")[0].decode("utf-8", "replace") for o in one]
                if one[0].returncode != 0:
                    raise NoVerdict("case %d ended with %d" % (i, one[0].returncode))
                if a == b:
                    raise NoVerdict("not reproduced: case %d differed" % i)
                if one[1].returncode != 0:
                    b = "the process ended with %d: %s" % (one[1].returncode, one[1].stderr[:500])
                what = "case %d gives one thing when built %s, another when %s: %s and %s" % (
                    i, SHOWN["normal"], SHOWN[m], a[:1200], b[:1200])
                raise Violated(what, check.replay_file({"what": what, "case": i, "mode": m}))
            lines = [x for x in res[1] if x]
            check.evals += len(lines) * len(SHOWN)
            check.count("cases_compared", len(lines))
            for x in lines:
                check.sigs.add(x.split(b" ", 2)[1])
            if len(check.samples) < 12:
                check.samples.append({"input": lines[5].decode("utf-8", "replace")[:400], "observed": "the same in %d builds" % len(SHOWN)})
    except subprocess.TimeoutExpired:
        raise NoVerdict("comparing builds took too long")
    check.count("builds", len(SHOWN))
