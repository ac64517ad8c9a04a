#!/usr/bin/env python3
"""Decide one property: discharge every obligation generated from /repo's
current source for the contracts of that property.

usage: check.py PROPERTY [quick|thorough]

exit 0  every obligation discharged
exit 1  an obligation of the property failed (VIOLATION line printed)
exit 2  no verdict (build error, time limit, contract environment not matched)
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS, TRUSTED, ASSUMPTIONS  # noqa: E402

EXPLAIN = ("Each harness is the contract of one entry point of /repo: the precondition builds the symbolic "
           "arguments, the real function compiled from the working tree runs, and every POST obligation is "
           "discharged by CBMC for all values of the symbolic inputs; the bounds entry says which shapes "
           "(account layouts, list lengths) are fixed. Loops are unrolled with unwinding assertions on, so "
           "within the stated shapes the result is complete. REACH covers show that the success paths are "
           "not vacuous.")
WORK = os.path.join(HERE, ".work")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
KANI_FLAGS = [
    "-Z", "stubbing", "-Z", "unstable-options", "-Z", "function-contracts", "-Z", "c-ffi",
    "--no-memory-safety-checks", "--no-overflow-checks",
    "--no-undefined-function-checks", "--no-assertion-reach-checks",
]
# keep constants in byte arrays of up to 1024 elements (must be the last arguments)
CBMC_ARGS = ["--cbmc-args", "--max-field-sensitivity-array-size", "1024"]
HARNESS_LIMIT = {"quick": 420, "thorough": 1500}
TOTAL_LIMIT = {"quick": 760, "thorough": 5400}


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". %s/kani/env.sh >/dev/null 2>&1; env -0" % HERE],
                         capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            e[k.decode()] = v.decode("utf8", "replace")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "CARGO_PROFILE_DEV_DEBUG", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["PATH"] = os.path.join(HERE, "kani", "bin") + ":" + e["PATH"]
    return e


def run(cmd, cwd, log, limit, extra=None):
    """Run to completion or kill the whole process group at the limit."""
    e = env()
    e.update(extra or {})
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, env=e,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    return rc


def kani_cmd(crate, target, feats, out, harness_limit, extra=()):
    c = ["cargo", "kani", "--target-dir", target] + KANI_FLAGS
    if os.path.exists(os.path.join(crate, "mem.c")):
        c += ["--c-lib", "mem.c"]
    c += ["-j", "8", "--output-format", "terse", "--features", ",".join(feats),
          "--harness-timeout", "%ds" % harness_limit, "--export-json", out]
    return c + list(extra) + CBMC_ARGS


def expected_harnesses(crate, feat, tier):
    """Harness names declared in the property's module (quick or all of them)."""
    src = open(os.path.join(crate, "src", feat + ".rs")).read()
    names, deep = [], False
    for line in src.splitlines():
        if 'feature = "thorough"' in line:
            deep = True
            continue
        m = re.match(r"\s*(?:proof\w*)!\((\w+),", line)
        if m:
            if not deep or tier == "thorough":
                names.append("%s::%s" % (feat, m.group(1)))
            deep = False
    return names


def classify(results, expected):
    """-> (post failures, problems, obligations, discharged, reach)"""
    fails, problems = [], []
    n = ok = reach = 0
    seen = set()
    for r in results:
        h = r["harness_id"]
        seen.add(h)
        total = h.endswith("_total")
        exact = h.endswith("_exact")  # an overflow would wrap in the deployed build
        undecided = not r["checks"]
        unwound = False
        for c in r["checks"]:
            d, st, cat = c["description"], c["status"].lower(), c.get("category", "")
            if d.startswith("REACH:") or cat == "cover":
                if d.startswith("REACH:"):
                    reach += 1
                    if st != "satisfied":
                        problems.append("%s: %s is %s (vacuous)" % (h, d, st))
                continue
            if d.startswith("POST:"):
                n += 1
                if st == "success" or st == "unreachable":
                    ok += 1
                elif st == "failure":
                    fails.append((h, c))
                else:
                    problems.append("%s: %s %s" % (h, d, st))
                continue
            if st == "failure":
                if d.startswith("ENV:"):
                    problems.append("%s: %s" % (h, d))
                elif cat == "unwind" or "unwinding assertion" in d or cat == "recursion":
                    unwound = True
                    problems.append("%s: %s (%s)" % (h, d, c.get("function", "")))
                elif cat == "unsupported_construct":
                    problems.append("%s: %s" % (h, d))
                elif total or (exact and "with overflow" in d and "/repo/" in c["location"].get("file", "")):
                    n += 1
                    fails.append((h, c))
            elif total and cat in ("assertion", "panic", "safety_check"):
                n += 1
                ok += 1
        if undecided:
            problems.append("%s: no result (%s)" % (h, r.get("status")))
    for h in expected:
        if h not in seen:
            problems.append("%s: no result (not run)" % h)
    # an unsatisfied cover behind a failed obligation is a consequence of it
    bad = {h for h, _ in fails}
    problems = [p for p in problems if not ("(vacuous)" in p and p.split(":")[0] + "::" + p.split(":")[2] in bad)]
    return fails, problems, n, ok, reach


def unwind_further(results, crate, target, feats, prop, t0, limit):
    """Code may loop more often than the harness allows for: try again with more room."""
    for i, r in enumerate(results):
        short = [c for c in r["checks"] if c["status"].lower() == "failure" and
                 (c.get("category") == "unwind" or "unwinding assertion" in c["description"])]
        post = [c for c in r["checks"] if c["status"].lower() == "failure" and c["description"].startswith("POST:")]
        left = limit - (time.time() - t0)
        if not short or post or left < 60:
            continue
        out = os.path.join(WORK, "%s.again.json" % prop)
        if os.path.exists(out):
            os.remove(out)
        print("more unwinding: %s" % r["harness_id"])
        run(kani_cmd(crate, target, feats, out, int(min(left, 300)),
                     ["--harness", r["harness_id"], "--exact", "--unwind", "70"]),
            crate, os.path.join(WORK, "%s.again.log" % prop), left)
        if os.path.exists(out):
            again = json.load(open(out))["verification_results"]["results"]
            if again and again[0]["checks"]:
                results[i] = again[0]
    return results


def functions_under_contract(results):
    out = set()
    for r in results:
        for c in r["checks"]:
            f = c.get("location", {}).get("file", "")
            if "/repo/" in f or f.startswith("programs/"):
                out.add(re.sub(r"::<.*", "", c.get("function", "")))
    return sorted(out)


def replay(prop, crate, feats, target, harness, fails, lines):
    """Turn the counterexample into a test of the real code and run it."""
    log = os.path.join(WORK, "%s.playback.log" % prop)
    base = list(KANI_FLAGS)
    if os.path.exists(os.path.join(crate, "mem.c")):
        base += ["--c-lib", "mem.c"]
    run(["cargo", "kani", "--target-dir", target] + base +
        ["--features", ",".join(feats), "--harness", harness, "--exact",
         "-Z", "concrete-playback", "--concrete-playback=print"] + CBMC_ARGS, crate, log, 600)
    text = open(log, errors="replace").read()
    tests = re.findall(r"```\n(.*?)```", text, re.S)
    tests = [t for t in tests if "#[test]" in t]
    lines.append("---- counterexamples (%d) ----" % len(tests))
    lines += tests
    if not tests:
        return False
    scratch = os.path.join(WORK, "replay")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    shutil.copytree(crate, os.path.join(scratch, "crate"))
    shutil.copytree(os.path.join(HERE, "kani", "vendor"), os.path.join(scratch, "vendor"))
    mod = harness.split("::")[0]
    seen, body = set(), []
    for t in tests:
        name = re.search(r"fn (\w+)\(", t).group(1)
        if name not in seen:
            seen.add(name)
            body.append(t)
    with open(os.path.join(scratch, "crate", "src", "replay.rs"), "w") as f:
        f.write("use crate::%s::*;\n%s\n" % (mod, "\n".join(body)))
    log2 = os.path.join(WORK, "%s.replay.log" % prop)
    run(["cargo", "kani", "playback", "-Z", "concrete-playback",
         "--features", ",".join(feats + ["replay"]), "--", "kani_concrete", "--test-threads=1"],
        os.path.join(scratch, "crate"), log2, 400,
        {"CARGO_TARGET_DIR": os.path.join(WORK, "target-replay")})
    out = open(log2, errors="replace").read()
    lines.append("---- replay of the counterexamples on the real code ----")
    lines.append(out[-12000:])
    shutil.rmtree(scratch, ignore_errors=True)
    want = {c["description"] for h, c in fails}
    return any(d in out for d in want) and "test result: FAILED" in out


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) obligation=(\S+) \| (.*?) \| (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    cfg = PROPS[prop]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    crate = os.path.join(HERE, "kani", cfg["crate"])
    target = os.path.join(WORK, "target-" + cfg["crate"])
    feat = cfg.get("feature", prop.lower())
    feats = [feat] + (["thorough"] if tier == "thorough" else [])
    out = os.path.join(WORK, "%s.json" % prop)
    log = os.path.join(WORK, "%s.log" % prop)
    if os.path.exists(out):
        os.remove(out)
    cmd = kani_cmd(crate, target, feats, out, HARNESS_LIMIT[tier])
    run(cmd, crate, log, TOTAL_LIMIT[tier])
    if not os.path.exists(out) and "failed to resolve" in open(log, errors="replace").read():
        # a function that a harness calls by name has moved: use the wire route
        feats.append("wire")
        cmd = kani_cmd(crate, target, feats, out, HARNESS_LIMIT[tier])
        run(cmd, crate, log, TOTAL_LIMIT[tier] - (time.time() - t0))
    expected = expected_harnesses(crate, feat, tier)
    text = open(log, errors="replace").read()
    if not os.path.exists(out):
        print("no verdict: the verifier gave no result; see %s" % log)
        err = [l for l in text.splitlines() if l.startswith("error")]
        print("\n".join(err[:10]))
        print("\n".join(text.splitlines()[-15:])[-3000:])
        sys.exit(2)
    d = json.load(open(out))
    results = d["verification_results"]["results"]
    results = unwind_further(results, crate, target, feats, prop, t0, TOTAL_LIMIT[tier])
    fails, problems, n, ok, reach = classify(results, expected)
    listed = known()
    fresh, quiet = [], []
    for h, c in fails:
        hit = [k for k in listed if k[0] == prop and k[1] == h and k[2] == c["description"]]
        (quiet if hit else fresh).append((h, c))
    for h, c in quiet:
        print("KNOWN-FINDING: property=%s %s in %s" % (prop, c["description"], h))
    solver = {x["harness_id"]: x["cbmc_stats"] for x in d.get("cbmc", [])}
    reproduced, replay_path = None, None
    if fresh:
        lines = ["property %s" % prop, "title: %s" % cfg["title"], ""]
        lines.append("failed obligations:")
        for h, c in fresh:
            lines.append("  %s: %s [%s:%s in %s]" % (h, c["description"], c["location"].get("file"),
                                                      c["location"].get("line"), c.get("function")))
        lines.append("verifier: %s" % " ".join(cmd))
        lines.append("---- verifier output ----")
        lines.append(text[-6000:])
        reproduced = False
        left = 880 - (time.time() - t0) if tier == "quick" else 3000
        if left > 200:
            h0 = fresh[0][0]
            reproduced = replay(prop, crate, feats, target, h0, [f for f in fresh if f[0] == h0], lines)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay_path = os.path.join(HERE, "replays", "%s.txt" % prop)
        with open(replay_path, "w") as f:
            f.write("\n".join(lines))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": cfg["level"],
        "coverage": {
            "obligations": n, "discharged": ok,
            "checker_cmd": " ".join(cmd),
            "back_end": "Kani 0.68.0 / CBMC 6.11.0 (CaDiCaL) on the code compiled from /repo's working tree",
            "harnesses": [{"name": r["harness_id"], "status": r["status"],
                           "post_obligations": sum(c["description"].startswith("POST:") for c in r["checks"]),
                           "all_checks": len(r["checks"]),
                           "wall_s": r["duration_ms"] / 1000.0,
                           "solver_s": solver.get(r["harness_id"], {}).get("runtime_solver_s"),
                           "symex_s": solver.get(r["harness_id"], {}).get("runtime_symex_s"),
                           "vccs": solver.get(r["harness_id"], {}).get("vccs_generated")} for r in results],
            "reachability_covers_satisfied": reach,
            "functions_under_contract": functions_under_contract(results),
            "bounds": cfg["bounds"],
            "trusted_base": TRUSTED,
            "explanation": EXPLAIN,
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": ASSUMPTIONS[cfg["crate"]] + cfg.get("assumptions", []),
        "violations": len(fresh),
    }
    if cfg["level"] == "model_checking":
        ev["coverage"].update({
            "states": sum(int(s.get("size_program_expression", 0)) for s in solver.values()),
            "transitions": sum(int(s.get("vccs_generated", 0)) for s in solver.values()),
            "traces_validated_against_impl": 0 if not reproduced else 1,
            "samples": ["%s: %s" % (r["harness_id"], c["description"])
                        for r in results for c in r["checks"] if c["description"].startswith("REACH:")][:20],
        })
    with open(os.path.join(EVID, "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print("%-44s %s %.1fs" % (r["harness_id"], r["status"], r["duration_ms"] / 1000.0))
    print("%s: %d obligations, %d discharged, %d covers" % (prop, n, ok, reach))
    for p in problems:
        print("  note: %s" % p)
    if fresh:
        for h, c in fresh:
            print("  failed: %s: %s" % (h, c["description"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay_path,
              "" if reproduced else " no-failing-input-found"))
        sys.exit(1)
    if problems or n == 0 or n != ok + len(quiet):
        print("no verdict")
        sys.exit(2)
    sys.exit(0)


main()
