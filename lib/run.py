#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay space:index]

Builds the library from /repo's working tree, runs the property's explorers on
it, writes evidence/<PROPERTY>.json and answers with the exit code:
0 held on everything explored, 1 violated (VIOLATION line), 2 no answer.
"""
import argparse
import json
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import egbuild  # noqa: E402
from checks import CHECKS  # noqa: E402

VERIF = egbuild.VERIF


def known_findings(prop):
    """[(key regex, text)] of the findings recorded (not repaired) for this property."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def execute(exe, run, tier, replay=None, timeout=None, stop=None, known=()):
    out = exe + ".out.json"
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--tier", tier, "--out", out] + list(run.get("args", []))
    if replay:
        cmd += ["--replay", replay]
    if stop is not None:
        cmd += ["--stop", str(stop)]
    for k in known:
        cmd += ["--known", k]
    env = dict(os.environ)
    env["TZ"] = "UTC"
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env.update(run.get("env", {}))
    log = exe + ".log"
    with open(log, "wb") as lf:
        p = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    if not os.path.exists(out):
        tail = open(log, "rb").read()[-4000:].decode(errors="replace")
        if p.returncode < 0 or "terminate called" in tail or "AddressSanitizer" in tail or "runtime error" in tail:
            # the code under test brought the explorer down before the first case
            return dict(states=0, transitions=0, traces=0, dropped=0, incomplete=True, samples=[], notes={},
                        violations=[dict(key="the library crashes in ordinary use", detail=tail[:1500])])
        raise RuntimeError("explorer %s gave no result (exit %s)\n%s" % (exe, p.returncode, tail))
    return json.load(open(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    chk = CHECKS[a.prop]
    t0 = time.time()
    total = dict(states=0, transitions=0, traces=0, dropped=0, incomplete=False)
    viol, samples, notes, exes = [], [], {}, []
    try:
        for run in chk["runs"]:
            if run.get("tier") and run["tier"] != tier:
                continue
            tb = time.time()
            exe = egbuild.program(run["name"], run["variant"], run["srcs"], run.get("extra", ()),
                                  run.get("link", ()))
            tb = time.time() - tb
            tr = time.time()
            keys = [k for k, _ in known_findings(a.prop)]
            # after a violation the exploration goes on for a while to collect others
            r = execute(exe, run, tier, a.replay, stop=90, known=keys)
            if not a.replay and not r["traces"] and not r["violations"]:
                raise RuntimeError("explorer %s explored nothing" % exe)
            if any(v["key"] not in keys for v in r["violations"]) and not a.replay:
                # replay before report: the exploration is deterministic, so a
                # violation has to come back when everything is run again
                r2 = execute(exe, run, tier, stop=0, known=keys)
                if all(v["key"] in keys for v in r2["violations"]):
                    notes[run["name"] + ".not_reproduced"] = json.dumps(r["violations"])[:2000]
                    r = r2
            for k in ("states", "transitions", "traces", "dropped"):
                total[k] += r[k]
            total["incomplete"] |= r["incomplete"]
            for v in r["violations"]:
                v["run"] = run["name"]
                viol.append(v)
            samples += [dict(run=run["name"] + "/" + run["variant"], case=s) for s in r["samples"][:4]]
            for k, v in r["notes"].items():
                notes[run["name"] + "_" + run["variant"] + "." + k] = v
            notes[run["name"] + "_" + run["variant"] + ".seconds"] = "build %.1f run %.1f states %d transitions %d traces %d" % (
                tb, time.time() - tr, r["states"], r["transitions"], r["traces"])
    except (egbuild.BuildError, RuntimeError, subprocess.TimeoutExpired) as e:
        print("ERROR property=%s %s" % (a.prop, e))
        return 2

    known = known_findings(a.prop)
    new, seen = [], set()
    for v in viol:
        hit = None
        for i, (k, what) in enumerate(known):
            if v["key"] == k:
                hit = i
        if hit is None:
            new.append(v)
        else:
            seen.add(hit)
    for i, (k, what) in enumerate(known):
        if i in seen:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="model_checking",
              coverage=dict(states=total["states"], transitions=total["transitions"],
                            traces_validated_against_impl=total["traces"],
                            samples=samples,
                            exhaustive=not total["incomplete"] and total["dropped"] == 0,
                            bounds=chk["bounds"][tier] if isinstance(chk["bounds"], dict) else chk["bounds"],
                            known_findings_observed=len(seen), details=notes),
              assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s tier=%s states=%d transitions=%d traces=%d %.1fs%s" % (
        a.prop, tier, total["states"], total["transitions"], total["traces"], time.time() - t0,
        " INCOMPLETE" if total["incomplete"] else ""))
    if new:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, a.prop + ".txt")
        with open(path, "w") as f:
            for v in new:
                case = v["detail"].split(" :: ")[0].split(" ")[0]
                f.write("run=%s\nwhat=%s\ncase=%s\nreplay: python3 %s/lib/run.py %s --tier %s --replay '%s'\n\n" % (
                    v["run"], v["key"], v["detail"], VERIF, a.prop, tier, case))
        for v in new[:10]:
            print("  %s | %s" % (v["key"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
