"""Runner: `main.py <ID>` decides a property, `main.py <ID> --replay FILE` reruns
one case.  Generated cases are split over worker processes (same code, run with
--worker); every random choice derives from VERIF_SEED."""

import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

SHARDS = int(os.environ.get("VERIF_SHARDS", "0")) or min(8, max(2, os.cpu_count() or 2))
BUDGET = {"quick": 300, "thorough": 6000}
CASE_LIMIT = 90  # seconds; cases normally take milliseconds
SHRINK = {"quick": 40, "thorough": 300}


def known_findings():
    """Unrepaired findings, one JSON object per line: {"property", "id", "what"}.
    Lines starting with '#' or 'fixed:' suppress nothing."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    out.append(json.loads(line))
    return out


def load_property(pid):
    sys.path.insert(0, ROOT)
    sys.path.insert(0, os.path.join(ROOT, ".deps"))
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    return importlib.import_module("vlib.props." + pid)


def run_case(sub, text, note):
    """Run one case in its JSON form so that a replay is the same computation."""
    from vlib.core import ANSWERED, Violation

    def expired(signum, frame):
        raise Violation("no answer within %d s on a small input" % CASE_LIMIT)

    signal.signal(signal.SIGALRM, expired)
    signal.alarm(CASE_LIMIT)
    ANSWERED[0] = False
    try:
        return sub.run(json.loads(text), note)
    except (ValueError, TypeError, IndexError, KeyError, AttributeError) as e:
        # comparing an answer that does not even have the shape or type of an answer
        if not ANSWERED[0]:
            raise
        raise Violation("answer without the expected form: %s: %s (%s)" % (type(e).__name__, str(e)[:300], "line %d" % e.__traceback__.tb_next.tb_lineno)) from None
    finally:
        signal.alarm(0)


# ---------------------------------------------------------------- worker


def worker(pid, tier, seed, shard, shards, out):
    t0 = time.time()
    mod = load_property(pid)
    from vlib.core import Violation, canon
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = {"evaluations": 0, "nontrivial": [], "tags": {}, "samples": [], "violation": None, "subs": {}}
    nontrivial = set()
    budget = BUDGET[tier]
    only = os.environ.get("VERIF_SUB")
    scale = float(os.environ.get("VERIF_SCALE", "1"))

    for k, sub in enumerate(mod.SUBS):
        if only and sub.name not in only.split(","):
            continue
        total = sub.quick if tier == "quick" else sub.thorough
        n = max(1, int(total * scale) // shards)
        st = {"first": None, "best": None, "msg": None, "t": None, "hist": []}

        def note(tag):
            key = sub.name + ":" + str(tag)
            res["tags"][key] = res["tags"].get(key, 0) + 1

        def test(case):
            text = canon(case)
            if st["best"] is not None:
                # shrinking: bounded time, then only the best case keeps failing
                if time.time() - st["t"] > SHRINK[tier] and text != st["best"]:
                    return
            elif time.time() - t0 > budget:
                return
            if st["first"] is None:
                st["hist"].append(text)
                res["evaluations"] += 1
            try:
                r = run_case(sub, text, note if st["first"] is None else (lambda tag: None))
            except Violation as v:
                if st["first"] is None:
                    st["first"] = text
                    st["t"] = time.time()
                st["best"] = text
                st["msg"] = str(v)
                raise
            if st["first"] is None and r:
                h = hashlib.sha1((sub.name + text).encode()).hexdigest()[:16]
                if h not in nontrivial:
                    nontrivial.add(h)
                    m = len(nontrivial)
                    if m <= 2 or (m & (m - 1)) == 0:
                        if len(text) < 3000 and len(res["samples"]) < 14:
                            res["samples"].append({"sub": sub.name, "case": json.loads(text)})

        f = given(sub.strategy)(test)
        f = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            print_blob=False,
        )(f)
        f = hypothesis.seed((seed * 1000003 + shard * 101 + k) % (2**63))(f)
        before = res["evaluations"]
        ts = time.time()
        try:
            f()
        except Violation:
            pass
        except BaseException:
            if st["first"] is None:
                raise
            # a failing case that does not fail again: depends on earlier cases
        res["subs"][sub.name] = {"evaluations": res["evaluations"] - before, "s": round(time.time() - ts, 2)}
        if st["first"] is not None:
            i = st["hist"].index(st["first"]) if st["first"] in st["hist"] else len(st["hist"])
            res["violation"] = {
                "sub": sub.name,
                "case": json.loads(st["best"]),
                "first": json.loads(st["first"]),
                "message": st["msg"],
                "history": [json.loads(x) for x in st["hist"][: i + 1]],
            }
            break
    res["nontrivial"] = sorted(nontrivial)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    return 0


# ---------------------------------------------------------------- replay


def replay(pid, path):
    """Exit 1 when the recorded case (after its recorded history) violates."""
    with open(path) as f:
        rep = json.load(f)
    mod = load_property(pid)
    from vlib.core import Violation, canon

    sub = {s.name: s for s in mod.SUBS}[rep["sub"]]
    quiet = lambda tag: None
    for case in rep.get("history", []):
        try:
            run_case(sub, canon(case), quiet)
        except Violation:
            pass
    try:
        run_case(sub, canon(rep["case"]), quiet)
    except Violation as v:
        print("reproduced: %s" % v)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("not reproduced")
    return 0


def try_replay(pid, path, env):
    p = subprocess.run(
        [sys.executable, "-B", os.path.abspath(__file__), pid, "--replay", path],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
    )
    return p.returncode == 1


def write_replay(pid, v, seed, tier, env, scratch):
    d = os.path.join(ROOT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)

    def put(case, history):
        with open(path, "w") as f:
            json.dump(
                {"property": pid, "sub": v["sub"], "message": v["message"], "seed": seed, "tier": tier, "case": case, "history": history},
                f, indent=1,
            )

    put(v["case"], [])
    if try_replay(pid, path, env):
        return path
    # Needs earlier cases: find a short suffix of the history that suffices.
    hist = v["history"][:-1]
    n = 0
    while True:
        put(v["first"], hist[len(hist) - n :] if n else [])
        if try_replay(pid, path, env):
            return path
        if n >= len(hist):
            break
        n = min(len(hist), max(1, 4 * n))
    return path


# ---------------------------------------------------------------- main


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha1(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    if args[:1] == ["--worker"]:
        return worker(pid, tier, seed, int(args[1]), int(args[2]), args[3])

    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    env = dict(os.environ)
    env["VERIF_SCRATCH"] = scratch
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["HOME"] = os.path.join(scratch, "home")
    env["TMPDIR"] = scratch
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    os.makedirs(env["MPLCONFIGDIR"])
    os.makedirs(env["HOME"])
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    if args[:1] == ["--replay"]:
        if "VERIF_IN_REPLAY" not in env:
            env["VERIF_IN_REPLAY"] = "1"
            try:
                return subprocess.run([sys.executable, "-B", os.path.abspath(__file__)] + sys.argv[1:], env=env).returncode
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(os.environ["VERIF_SCRATCH"], exist_ok=True)
        return replay(pid, args[1])

    t0 = time.time()
    procs = []
    try:
        for s in range(SHARDS):
            out = os.path.join(scratch, "r%d.json" % s)
            log = open(os.path.join(scratch, "log%d" % s), "w")
            e = dict(env)
            e["VERIF_SCRATCH"] = os.path.join(scratch, "w%d" % s)
            e["TMPDIR"] = e["VERIF_SCRATCH"]
            os.makedirs(e["VERIF_SCRATCH"])
            procs.append((subprocess.Popen(
                [sys.executable, "-B", os.path.abspath(__file__), pid, "--worker", str(s), str(SHARDS), out],
                stdout=log, stderr=subprocess.STDOUT, env=e, cwd=e["VERIF_SCRATCH"],
            ), out, log.name))
        results, errors = [], []
        pending = list(procs)
        stop_at = None
        while pending:
            for p in list(pending):
                if p[0].poll() is None:
                    continue
                pending.remove(p)
                if p[0].returncode == 0 and os.path.exists(p[1]):
                    with open(p[1]) as f:
                        results.append(json.load(f))
                    if results[-1]["violation"] and stop_at is None:
                        stop_at = time.time() + 10
                else:
                    with open(p[2]) as f:
                        errors.append("worker exit %s\n%s" % (p[0].returncode, f.read()[-4000:]))
            if stop_at is not None and time.time() > stop_at:
                for p in pending:
                    p[0].kill()
                    p[0].wait()
                pending = []
            if time.time() - t0 > BUDGET[tier] + 400:
                for p in pending:
                    p[0].kill()
                    p[0].wait()
                errors.append("worker exceeded the time limit")
                pending = []
            time.sleep(0.02)

        mod = load_property(pid)
        violations = [r["violation"] for r in results if r["violation"]]
        nontrivial = set()
        tags, samples, evaluations, subs = {}, [], 0, {}
        for r in results:
            nontrivial.update(r["nontrivial"])
            evaluations += r["evaluations"]
            for k, v in r["tags"].items():
                tags[k] = tags.get(k, 0) + v
            for k, v in r["subs"].items():
                subs[k] = subs.get(k, 0) + v["evaluations"]
            samples += r["samples"][:2]
        replay_path = None
        if violations:
            violations.sort(key=lambda v: len(json.dumps(v["case"])))
            renv = dict(env)
            renv["VERIF_IN_REPLAY"] = "1"
            replay_path = write_replay(pid, violations[0], seed, tier, renv, scratch)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(
                {
                    "property": pid,
                    "tier": tier,
                    "seed": seed,
                    "level": "exploration",
                    "coverage": {
                        "evaluations": evaluations,
                        "distinct_nontrivial": len(nontrivial),
                        "rule": mod.RULE,
                        "samples": samples[:8],
                        "searches": subs,
                        "classes": dict(sorted(tags.items())),
                    },
                    "assumptions": getattr(mod, "ASSUMPTIONS", []),
                    "violations": [
                        {"sub": v["sub"], "message": v["message"], "case": v["case"]} for v in violations[:3]
                    ],
                    "wall_s": round(time.time() - t0, 2),
                },
                f, indent=1,
            )
        for kf in known_findings():
            if kf["property"] == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
        if violations:
            print("%s [%s]: %s" % (pid, violations[0]["sub"], violations[0]["message"]))
            print("VIOLATION property=%s replay=%s" % (pid, replay_path))
            return 1
        if errors:
            print(errors[0])
            return 2
        print(
            "%s: held on %d cases (%d distinct non-trivial), seed %d, %s, %.1f s"
            % (pid, evaluations, len(nontrivial), seed, tier, time.time() - t0)
        )
        return 0
    finally:
        for p in procs:
            if p[0].poll() is None:
                p[0].kill()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
