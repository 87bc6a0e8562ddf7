#!/usr/bin/env python3
"""check.py <property> quick|thorough: rebuild, enumerate, compare, replay what failed, write the evidence.

Exit 0: every execution of the stated space agreed with the reference model (known findings are listed).
Exit 1: a disagreement that was reproduced; `VIOLATION property=<id> replay=<file>` names a replay file.
"""
import json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vbuild
from checks import CHECKS, META

ASAN = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:exitcode=77:quarantine_size_mb=16:malloc_context_size=3"


def drive(exe, run, tier, out, only=None, timeout=None):
    cmd = [exe, "--out", out, "--tier", tier, "--mode", run["mode"]]
    if only is not None:
        cmd += ["--only-esc", only]
    elif run.get("shards"):
        cmd += ["--shards", str(run["shards"])]
    env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="exitcode=0 report_signal_unsafe=0 history_size=4")
    if os.path.exists(out):
        os.unlink(out)
    errp = out + ".err"
    with open(errp, "wb") as ef:
        try:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -99
    with open(errp, "rb") as ef:
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(max(0, n - 6000))
        err = ef.read().decode("utf-8", "replace")
    try:
        with open(out) as f:
            return json.load(f), err, rc
    except (OSError, ValueError):
        return None, err, rc


def known(prop):
    res = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith(f"finding: property={prop} "):
                    # finding: property=<id> mode=<driver mode> key=<unit key> | <what fails>
                    head, _, what = line.partition(" | ")
                    mode = head.split(" mode=", 1)[1].split(" ", 1)[0]
                    key = head.split(" key=", 1)[1]
                    res.append((mode, key, what))
    except OSError:
        pass
    return res


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    runs = [r for r in CHECKS[prop] if tier == "thorough" or not r.get("thorough_only")]
    exes = vbuild.build(sorted({(r["driver"], r["variant"]) for r in runs}))
    t_build = time.time() - t0
    agg = {k: 0 for k in ("evaluations", "units", "transitions", "traces", "distinct", "states")}
    extra, samples, failures, hits = {}, [], [], []
    kn = known(prop)
    tmp = tempfile.mkdtemp(prefix="vcheck_")
    out = os.path.join(tmp, "out.json")
    for r in runs:
        exe = exes[(r["driver"], r["variant"])]
        d, err, rc = drive(exe, r, tier, out)
        if d is None:
            sys.stderr.write(err + f"\ndriver {r['driver']} {r['mode']} ended with {rc} and no result\n")
            raise SystemExit(2)
        for k in agg:
            agg[k] += d[k]
        for k, v in d["extra"].items():
            extra[k] = extra.get(k, 0) + v
        samples += d["samples"][: max(3, 12 // len(runs))]
        for f in d["failures"]:
            esc = json.dumps(f["key"])[1:-1]
            m = [w for mode, key, w in kn if mode == r["mode"] and key == f["key"]]
            if m:
                hits.append(m[0])
            else:
                failures.append((r, exe, f, esc, err))
    for w in sorted(set(hits)):
        print(f"KNOWN-FINDING: property={prop} {w}")
    violation = None
    # replay before report: the failing unit alone, then (state may have built up) the whole run again
    for r, exe, f, esc, err in failures[:3]:
        d, err2, _ = drive(exe, r, tier, out, only=esc, timeout=400)
        if d and d["failures"]:
            violation = (r, exe, d["failures"][0], esc, err2, "alone")
            break
    if failures and not violation:
        r, exe, f, esc, err = failures[0]
        d, err2, _ = drive(exe, r, tier, out, timeout=500)
        again = [g for g in (d["failures"] if d else []) if not any(m == r["mode"] and k == g["key"] for m, k, _ in kn)]
        if again:
            violation = (r, exe, again[0], json.dumps(again[0]["key"])[1:-1], err2, "full run")
        else:
            print(f"note: not reproduced, not reported: {f['key']}: {f['msg'][:300]}")
    meta = META[prop]
    cov = {}
    if meta["level"] == "model_checking":
        cov.update(states=agg["states"], transitions=agg["transitions"], traces_validated_against_impl=agg["traces"])
    cov.update(evaluations=agg["evaluations"], distinct_nontrivial=agg["distinct"], rule=meta["rule"],
               samples=samples[:16], units=agg["units"], exhaustive=True, build_s=round(t_build, 1), **extra)
    if meta["level"] != "model_checking" and agg["states"]:
        cov.update(states=agg["states"], transitions=agg["transitions"])
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
          "coverage": cov, "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for p in os.listdir(tmp):
        os.unlink(os.path.join(tmp, p))
    os.rmdir(tmp)
    if violation:
        r, exe, f, esc, err, how = violation
        rep = os.path.join(VERIF, "replay", f"{prop}.json")
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, "w") as fo:
            json.dump({"property": prop, "driver": r["driver"], "variant": r["variant"], "mode": r["mode"], "tier": tier,
                       "unit": f["key"], "what": f["msg"], "reproduced": how, "stderr": err[-4000:],
                       "cmd": f"python3 tools/vbuild.py {r['driver']} && {exe} --mode {r['mode']} --tier {tier} --only-esc '{esc}' --out /dev/stdout"},
                      fo, indent=1)
            fo.write("\n")
        print(f"{f['key']}: {f['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={rep}")
        return 1
    n = agg["evaluations"] or agg["transitions"]
    print(f"{prop} {tier}: {n} executions in {agg['units']} units, {agg['distinct']} distinct outcomes, "
          f"{agg['states']} states, {ev['wall_s']} s: held")
    return 0


if __name__ == "__main__":
    sys.exit(main())
