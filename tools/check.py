#!/usr/bin/env python3
"""Builds the explorer against /repo's working tree, runs one property in two
build configurations, and writes the property's evidence file."""
import json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = os.path.join(ROOT, "mc")
TARGET = os.path.join(MC, "target")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")
# name, cargo profile, output directory, what it stands for
BUILDS = [("plain", "release", "optimized, as shipped: no debug assertions, wrapping arithmetic"),
          ("checked", "checked", "optimized, with the library's debug assertions and overflow checks")]
# Per build: when to stop exploring (with exit 0 for what was explored, and the
# evidence saying what was not), and when to give up on an answer.
BUDGET = {"quick": 270, "thorough": 5 * 3600}
LIMIT = {"quick": 370, "thorough": 6 * 3600}
ASSUME = [
    "rustc, the Rust standard library (BTreeSet in particular), the few crate and this harness are trusted",
    "the code is generic: behaviour over the explored types (small user-defined ones and all built-in integers) stands for behaviour over every lawfully ordered type; nothing is claimed for unlawful Ord or Finite implementations",
    "beyond the stated bounds (number of distinct end points, values, operands or steps) nothing is claimed, other than what the many-interval families enumerate",
]

def say(*a):
    print(*a, flush=True)

def ids():
    return ["C%02d" % i for i in range(1, 28)]

def build(prop, tier):
    """Both configurations at once; returns the paths of copies of the binaries."""
    feats = prop.lower() + (",thorough" if tier == "thorough" else "")
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    procs = []
    for name, prof, _ in BUILDS:
        cmd = ["cargo", "build", "--offline", "--quiet", "--profile", prof, "--features", feats, "--message-format", "short"]
        procs.append((name, prof, subprocess.Popen(cmd, cwd=MC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    out = {}
    for name, prof, p in procs:
        log = p.communicate()[0]
        if p.returncode != 0:
            say("the %s build failed:\n%s" % (name, log[-4000:]))
            sys.exit(2)
        src = os.path.join(TARGET, prof, "mc")
        dst = os.path.join(TARGET, "bin", "%s-%s-%s" % (prop, tier, name))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if os.path.exists(dst):
            os.unlink(dst)
        shutil.copy2(src, dst)
        out[name] = dst
    return out

def env_for(tier):
    return dict(os.environ, MC_KNOWN=KNOWN, MC_REPLAYS=os.path.join("evidence", "replays"), MC_BUDGET=str(BUDGET[tier]))

def run(binary, prop, tier, name, timeout):
    """Runs one exploration; returns (exit code, RESULT object or None)."""
    p = subprocess.Popen([binary, prop, tier, name], cwd=ROOT, env=env_for(tier), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        say("the %s build gave no answer within %d s" % (name, timeout))
        return 2, None
    result = None
    for line in out.splitlines():
        if line.startswith("RESULT "):
            result = json.loads(line[7:])
        else:
            say(line)
    if p.returncode in (0, 1):
        return p.returncode, result
    if p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS):
        crashed(binary, prop, tier, name, p.returncode, err)
        return 1, None
    say("the %s build ended with %d: %s" % (name, p.returncode, err[-2000:]))
    return 2, None

def crashed(binary, prop, tier, name, rc, err):
    """The process died in the code under test (a stack overflow, say): runs
    again on one thread, recording each case before it starts."""
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    rel = os.path.join("evidence", "replays", "%s-%s-crash.txt" % (prop, name))
    trace = os.path.join(EVID, "replays", "trace-%d" % os.getpid())
    check, index = "unknown", "0"
    try:
        subprocess.run([binary, prop, tier, name], cwd=ROOT, env=dict(env_for(tier), MC_TRACE=trace, MC_REPLAYS=os.path.join("evidence", "replays", "trace")),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        lines = open(trace, errors="replace").read().splitlines()
        if len(lines) >= 2:
            check, index = lines[0], lines[1]
    except (subprocess.TimeoutExpired, OSError):
        pass
    if os.path.exists(trace):
        os.unlink(trace)
    with open(os.path.join(ROOT, rel), "w") as f:
        f.write("property: %s\nbuild: %s\ntier: %s\ncheck: %s\nindex: %s\ncase: see the check and index\nproblem: the process died with signal %d\n%s\n\nReplay (in /verif): ./check.sh replay %s\n"
                % (prop, name, tier, check, index, -rc, err[-1500:].strip(), rel))
    say("VIOLATION property=%s replay=%s" % (prop, rel))
    say("  [%s] %s case %s: the process died with signal %d" % (name, check, index, -rc))

def main_check(prop, tier):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, prop + ".json")
    if os.path.exists(path):
        os.unlink(path)
    bins = build(prop, tier)
    t1 = time.time()
    code, results, crashes = 0, {}, 0
    for name, _, _ in BUILDS:
        rc, res = run(bins[name], prop, tier, name, LIMIT[tier])
        if res is not None:
            results[name] = res
        if rc == 1 and res is None:
            crashes += 1
        # A violation outranks a missing answer.
        code = 1 if 1 in (code, rc) else max(code, rc)
    if code == 0:
        for name, res in results.items():
            empty = [c["name"] for c in res["checks"] if c["states"] == 0 or c["transitions"] == 0]
            if not res["checks"] or empty:
                say("nothing was explored by the %s build: %s" % (name, empty))
                code = 2
    per, total = {}, dict(states=0, transitions=0, traces=0)
    samples, exhaustive = [], True
    for name, _, what in BUILDS:
        res = results.get(name)
        if res is None:
            exhaustive = False
            continue
        cs = res["checks"]
        per[name] = dict(configuration=what, checks=[{k: c[k] for k in ("name", "states", "transitions", "traces", "distinct_outcomes", "exhaustive", "secs", "slowest_case_ms", "note")} for c in cs])
        for c in cs:
            total["transitions"] += c["transitions"]
            total["traces"] += c["traces"]
            exhaustive &= c["exhaustive"]
    first = results.get("plain") or results.get("checked")
    if first:
        total["states"] = sum(c["states"] for c in first["checks"])
        for c in first["checks"]:
            if c["samples"]:
                samples.append("%s: %s" % (c["name"], c["samples"][len(c["samples"]) // 2]))
    nviol = crashes + sum(r["violations"] for r in results.values())
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
        coverage=dict(states=total["states"], transitions=total["transitions"], traces_validated_against_impl=total["traces"],
            samples=samples[:24], exhaustive=bool(exhaustive and code == 0),
            explanation="states: objects of the real library (or operand values) explored, per build; transitions: operations of the real library executed and compared with the bit-set model, over both builds; traces: complete cases (histories, schedules, operand tuples) so replayed, over both builds. Nothing is random: the seed is not used.",
            builds=per, build_s=round(t1 - t0, 2)),
        assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    say("%s %s: %s (%d states, %d operations, %d cases, %.1f s)" % (prop, tier, {0: "holds", 1: "VIOLATED", 2: "NO ANSWER"}[code],
        total["states"], total["transitions"], total["traces"], time.time() - t0))
    return code

def replay(path):
    d = {}
    for line in open(path, errors="replace"):
        m = re.match(r"(property|build|tier|check|index): (.*)$", line.rstrip("\n"))
        if m and m.group(1) not in d:
            d[m.group(1)] = m.group(2)
    tier = d.get("tier", "quick")
    bins = build(d["property"], tier)
    rc = subprocess.run([bins[d["build"]], d["property"], tier, d["build"], d["check"], d["index"]], cwd=ROOT,
                        env=dict(env_for(tier), MC_REPLAYS=os.path.join("evidence", "replays", "again"))).returncode
    say("the case still fails" if rc != 0 else "the case holds now")
    return 0 if rc == 0 else 1

def main():
    a = sys.argv[1:]
    if a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    if a == ["setup"]:
        build("C23", "quick")
        say("the explorer builds")
        sys.exit(0)
    if len(a) == 2 and a[0] in ids() and a[1] in LIMIT:
        sys.exit(main_check(a[0], a[1]))
    say(__doc__)
    say("usage: check.sh <C01..C27> quick|thorough | check.sh replay <file> | check.sh setup")
    sys.exit(2)

main()
