#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds what the property's engines need from /repo's working tree,
runs them, writes evidence/ID.json and prints the verdict (exit 0, or 1 with a VIOLATION line;
any other exit is an error of the check, not a verdict)."""
import json, os, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
CRATE = os.path.join(HERE, "harness")
TARGET = os.path.join(CRATE, "target")
EVID = os.path.join(HERE, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"

# ---- builds of the harness (and with it of /repo)
# Each lists feature sets to try in order: a tree whose nightly-only code does not compile (the
# repository's own build never compiles it) is still judged by what it does without that code.
ALLF = [[], ["--no-default-features", "--features", "half"], ["--no-default-features"]]
BUILDS = {
    "release": dict(profile="release", features=ALLF),
    # what a user of the stable crate gets
    "stable": dict(profile="release", features=[["--no-default-features"]]),
    # debug assertions of the library and of the standard library's unsafe functions, overflow checks
    "checked": dict(profile="checked", features=ALLF),
    # AddressSanitizer (LLVM cannot instrument some of the AVX-512 code above -O1)
    "asan": dict(profile="release", features=ALLF, target=True, env={"CARGO_PROFILE_RELEASE_OPT_LEVEL": "1", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "64"},
                 flags="-Zsanitizer=address --cfg psv_system_alloc"),
    # with the C wrapper (which needs the half-float code)
    "capi": dict(profile="release", features=[["--features", "capi"], ["--no-default-features", "--features", "capi"]]),
    "capichecked": dict(profile="checked", features=[["--features", "capi"], ["--no-default-features", "--features", "capi"]]),
    "tsan": dict(profile="release", features=ALLF, target=True, std=True, flags="-Zsanitizer=thread --cfg psv_system_alloc"),
    "msan": dict(profile="release", features=ALLF, target=True, std=True, flags="-Zsanitizer=memory --cfg psv_system_alloc"),
}
RUNENV = {
    "asan": {"ASAN_OPTIONS": "halt_on_error=1:abort_on_error=0:exitcode=97:detect_leaks=0:handle_segv=0:allow_user_segv_handler=1"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=97:report_signal_unsafe=0:handle_segv=0"},
    "msan": {"MSAN_OPTIONS": "halt_on_error=1:exitcode=97:handle_segv=0"},
}

# ---- engines of each property: (build, scale of the quick tier, scale of the thorough tier)
ENGINES = {
    "C01": [("release", 5.0, 1.0), ("checked", 1.0, 0.2), ("asan", 1.0, 0.2), ("stable", 0.0, 0.3)],
    "C02": [("release", 6.0, 1.0), ("checked", 2.0, 0.5), ("stable", 0.0, 0.3)],
    "C03": [("release", 6.0, 1.0), ("checked", 1.0, 0.5), ("stable", 0.0, 0.3)],
    "C05": [("release", 12.0, 2.0), ("tsan", 0.5, 0.3)],
    "C10": [("release", 6.0, 2.0)],
    "C25": [("release", 2.0, 1.0), ("msan", 0.4, 0.3)],
    "C27": [("capi", 3.0, 1.0), ("capichecked", 1.0, 0.5)],
}
QUICK = {"C04": 5, "C06": 6, "C07": 6, "C08": 6, "C09": 8, "C11": 6, "C12": 10, "C13": 8, "C14": 10, "C15": 20, "C16": 20, "C17": 5,
         "C18": 8, "C19": 5, "C20": 6, "C21": 10, "C22": 12, "C23": 15, "C24": 10, "C26": 6, "C28": 15}
for _p, _s in QUICK.items():
    ENGINES[_p] = [("release", _s, 1.0), ("stable", 0.0, 0.3)]
TITLE = {"release": "release build", "stable": "build with the default (stable) features", "checked": "build with debug assertions and overflow checks",
         "asan": "AddressSanitizer build", "tsan": "ThreadSanitizer build", "msan": "MemorySanitizer build",
         "capi": "release build with the C wrapper", "capichecked": "checked build with the C wrapper"}


def build(name, log):
    """Returns the executable, or None with the reason in the log."""
    b = BUILDS[name]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            env.pop(k)
    env.update(b.get("env", {}))
    if b.get("flags"):
        env["RUSTFLAGS"] = b["flags"]
    env["CARGO_NET_OFFLINE"] = "true"
    target = os.path.join(TARGET, name)
    for feats in b["features"]:
        cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--target-dir", target, "--profile", b["profile"]] + feats
        if b.get("target"):
            cmd += ["--target", TRIPLE]
        if b.get("std"):
            cmd += ["-Zbuild-std"]
        try:
            r = subprocess.run(cmd, cwd=CRATE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            log.append("building %s took over ten minutes" % name)
            return None, feats
        if r.returncode == 0:
            exe = os.path.join(target, TRIPLE if b.get("target") else "", b["profile"], "psv")
            return exe, feats
        log.append("build %s %s failed:\n%s" % (name, " ".join(feats), r.stdout[-3000:]))
    return None, None


def norm(line):
    return " ".join(p for p in line.split() if "=" in p and not p.startswith("i="))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    only = os.environ.get("PSV_ENGINES", "").split(",") if os.environ.get("PSV_ENGINES") else None
    plan = [(n, q if tier == "quick" else th) for n, q, th in ENGINES[pid]]
    plan = [(n, s) for n, s in plan if s > 0 and (not only or n in only)]
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["property"] == pid]

    # builds run side by side
    exes, log = {}, []

    def one(n):
        exes[n] = build(n, log)

    ts = [threading.Thread(target=one, args=(n,)) for n, _ in plan]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    built = time.time()
    for m in log:
        print(m, file=sys.stderr)
    if exes[plan[0][0]][0] is None:
        print("error: the harness does not build", file=sys.stderr)
        return 2

    work = os.path.join(TARGET, "run." + pid)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    scale = float(os.environ.get("PSV_SCALE", "1"))
    tot = dict(cases=0, evaluations=0, distinct=0, cut=0)
    engines, viols, errors, samples, rule, printed = [], [], [], [], "", []
    # the whole check has 900 s: runs are cut to what the builds left (a cut is noted, not an error)
    left = (780 if tier == "quick" else 3000) - (built - t0)
    for n, sc in plan:
        exe, feats = exes[n]
        if exe is None:
            errors.append("the %s was not built" % TITLE[n])
            continue
        share = max(20.0, min(left / len(plan), 150.0 if tier == "quick" else 900.0))
        out = os.path.join(work, n + ".json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [exe, "run", pid, "--tier", tier, "--seed", str(seed), "--dir", os.path.join(work, n), "--json", out,
               "--scale", str(sc * scale), "--budget", "%.0f" % share]
        for k, v in RUNENV.get(n, {}).items():
            cmd += ["--env", "%s=%s" % (k, v)]
        e0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=share * 2 + 60)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            errors.append("%s: the run did not end" % TITLE[n])
            continue
        if not os.path.exists(out):
            errors.append("%s: no result (exit %d): %s" % (TITLE[n], rc, r.stdout[-500:]))
            continue
        with open(out) as f:
            d = json.load(f)
        errors += ["%s: %s" % (TITLE[n], x) for x in d["errors"]]
        for v in d["violations"]:
            viols.append((n, v["case"], v["what"]))
        tot["cases"] += d["cases"]
        tot["evaluations"] += d["evaluations"]
        tot["distinct"] += d["distinct"]
        tot["cut"] += d["cut_short"]
        rule = d["rule"]
        samples += d["samples"][: 8 if n == plan[0][0] else 2]
        engines.append(dict(engine=TITLE[n], features=" ".join(feats) or "default", cases=d["cases"], evaluations=d["evaluations"],
                            executions_in_which_something_was_judged=d["executions"], distinct=d["distinct"], cases_cut_for_time=d["cut_short"],
                            observed={**d["sums"], **d["maxs"]}, wall_s=round(time.time() - e0, 1)))

    # known findings: replayed on their own, each by its exact input
    listed = 0
    for k in known:
        n = k.get("build", plan[0][0])
        if n not in exes or exes[n][0] is None:
            continue
        r = subprocess.run([exes[n][0], "replay", pid, k["case"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        if r.returncode != 0:
            listed += 1
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    knowns = {norm(k["case"]) for k in known}
    viols = [v for v in viols if norm(v[1]) not in knowns]

    shown = 0
    seen = set()
    for i, (n, case, what) in enumerate(viols):
        path = os.path.join(EVID, "replay", "%s-%d.case" % (pid, i))
        with open(path, "w") as f:
            f.write("# property %s, %s, seed %d\n# %s\n%s\n# again: build with check.py, then %s replay %s <this file>\n" % (
                pid, TITLE[n], seed, what.replace("\n", "\n# "), case, exes[n][0], pid))
        print("%s: %s" % (TITLE[n], what.replace("\n", " | ")[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        shown += 1
        if shown >= 10:
            break

    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 1), violations=len(viols),
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"], rule=rule, samples=samples, cases=tot["cases"],
                            cases_cut_for_time=tot["cut"], engines=engines, known_findings_still_failing=listed, build_s=round(built - t0, 1),
                            notes=errors),
              assumptions=["the Rust toolchain, LLVM's sanitizers and the CPU of this machine behave as documented",
                           "CPU models other than this machine's are its own instruction set with features hidden from run-time detection",
                           "the conversions of colorutils-rs are taken as given"])
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d evaluations, %d distinct, %d violations, %.0f s (%.0f s building)" % (
        pid, tier, tot["cases"], tot["evaluations"], tot["distinct"], len(viols), time.time() - t0, built - t0))
    if viols:
        return 1
    if errors:
        for e in errors:
            print("error: " + e, file=sys.stderr)
        return 2
    if tot["distinct"] == 0 or tot["evaluations"] == 0:
        print("error: nothing was observed", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
