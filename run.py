#!/usr/bin/env python3
"""Driver of every check: builds a monitor from /repo's working tree (through a go overlay),
runs it, writes evidence/<id>.json and reports violations.

  python3 run.py <property>            run the check (VERIF_SEED, VERIF_TIER)
  python3 run.py <property> --case ID  replay one case
  python3 run.py --setup               warm the build cache
"""
import json, os, re, subprocess, sys, time, shutil, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def raise_limits():
    import resource
    for hard in (1 << 20, 200000, 65536):
        try:
            resource.setrlimit(resource.RLIMIT_NOFILE, (hard, hard))
            return
        except (ValueError, OSError):
            pass


def goenv():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            if k in ("PATH",) or k.startswith("GO") or k.startswith("CGO"):
                env[k] = v
    env["GOFLAGS"] = "-mod=mod"
    env.setdefault("GOMAXPROCS", str(os.cpu_count() or 8))
    return env


def overlay(need_genesis=True, inpkg=()):
    """Map every file of harness/<pkg> to /repo/zverif/<pkg>, and the in-package harness files a
    part asks for (harness/inpkg/<path>/*.go) to their package. Nothing is written in /repo."""
    rep = {}
    h = os.path.join(VERIF, "harness")
    for root, _, files in os.walk(h):
        rel = os.path.relpath(root, h)
        for f in files:
            if not f.endswith(".go"):
                continue
            if rel.startswith("inpkg"):
                if rel == "inpkg" or os.path.relpath(rel, "inpkg") not in inpkg:
                    continue
                dst = os.path.join(REPO, os.path.relpath(rel, "inpkg"), f)
            else:
                dst = os.path.join(REPO, "zverif", rel, f)
            rep[dst] = os.path.join(root, f)
    if need_genesis:
        cfg = os.path.join(REPO, "common/config")
        have = False
        for f in os.listdir(cfg):
            if f.endswith(".go"):
                with open(os.path.join(cfg, f), errors="replace") as fh:
                    if re.search(r"^\s*(const|var)\s+genesisJson\b", fh.read(), re.M):
                        have = True
        if not have:
            rep[os.path.join(cfg, "genesis_json_verif.go")] = os.path.join(VERIF, "harness_extra/genesis_json.go")
    return rep


def write_overlay(path, inpkg=()):
    with open(path, "w") as f:
        json.dump({"Replace": overlay(inpkg=inpkg)}, f, indent=1)


def build(targets, env, outdir):
    """targets: list of (name, dict(pkg=..., race=bool, test=bool))"""
    bins = {}
    for name, t in targets:
        ov = os.path.join(outdir, "overlay-%s.json" % name)
        write_overlay(ov, t.get("inpkg", ()))
        out = os.path.join(outdir, name)
        if t.get("test"):
            cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
        else:
            cmd = ["go", "build", "-overlay", ov, "-o", out]
        if t.get("race"):
            cmd.append("-race")
        if t.get("tags"):
            cmd += ["-tags", t["tags"]]
        cmd.append("./" + t["pkg"])
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            if t.get("optional"):
                # this part looks inside a package and the package's inside has changed its form;
                # the other parts of the check still decide
                print("note: part %s was not built and is left out" % name)
                bins[name] = None
                continue
            return None, p.stdout
        bins[name] = out
    return bins, ""


def load_known():
    known = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        with open(p) as f:
            known = json.load(f)["findings"]
    return [k for k in known if k.get("status") == "known"]


def classify_crash(prop, out, rc):
    """A monitor process that died: a Go panic/fatal error/race inside the code under test."""
    m = re.search(r"^(panic: .*|fatal error: .*|WARNING: DATA RACE.*|SIG[A-Z]+: .*)$", out, re.M)
    if not m:
        return None
    head = m.group(1)
    frames = re.findall(r"github\.com/vitelabs/go-vite/v2/(?!zverif)([\w/.\-]+\.[\w().*]+)\(", out[m.start():])
    key = "crash:" + re.sub(r"0x[0-9a-f]+|\d+", "N", head)[:80] + (":" + frames[0] if frames else "")
    return {"key": key, "detail": out[m.start():m.start() + 4000], "replay": "whole-run"}


def logged(prop, log):
    """New violations a monitor had printed before it was stopped."""
    known = [x for x in load_known() if x["property"] == prop]
    out = []
    for m in re.finditer(r"^violation \[(.+?)\] case (\S+): (.*)$", log, re.M):
        if not any(re.fullmatch(x["key"], m.group(1)) for x in known):
            out.append({"key": m.group(1), "detail": m.group(3)[:4000], "replay": m.group(2)})
    return out


def run_parts(prop, spec, tier, seed, case, env, outdir, bins):
    """quick: every part once. thorough: rounds with fresh seeds until the budget is used."""
    if tier != "thorough" or case:
        return run_round(prop, spec, tier, seed, case, env, outdir, bins, 0)
    budget = float(os.environ.get("VERIF_THOROUGH_S", spec.get("budget", 900)))
    t0, k, reports, logs = time.time(), 0, [], []
    while k == 0 or time.time() - t0 < budget:
        res, lg = run_round(prop, spec, tier, seed + 1000 * k, case, env, outdir, bins, budget - (time.time() - t0))
        if res is None:
            return None, lg
        reports += res
        logs += lg
        k += 1
        if any(v for _, v in res):
            known = [x for x in load_known() if x["property"] == prop]
            if any(not any(re.fullmatch(x["key"], v["key"]) for x in known) for _, vs in res for v in vs):
                break
        if spec.get("once"):
            break
    return reports, logs


def run_round(prop, spec, tier, seed, case, env, outdir, bins, left):
    reports, logs = [], []
    for i, part in enumerate(spec["parts"]):
        if bins[part["name"]] is None:
            continue
        rep = os.path.join(outdir, "report%d.json" % i)
        scratch = os.path.join(outdir, "scratch%d" % i)
        os.makedirs(scratch, exist_ok=True)
        e = dict(env)
        e.update({"VERIF_SEED": str(seed), "VERIF_TIER": tier, "VERIF_OUT": rep, "VERIF_SCRATCH": scratch,
                  "TMPDIR": scratch, "HOME": scratch})
        if case:
            e["VERIF_CASE"] = case
        if tier == "thorough":
            e["VERIF_BUDGET_S"] = str(int(max(60, left)))
        race_log = None
        if part.get("race"):
            race_log = os.path.join(outdir, "race%d" % i)
            e["GORACE"] = "halt_on_error=0 history_size=3 log_path=" + race_log
        for k, v in part.get("env", {}).items():
            e[k] = v
        timeout = part.get("timeout", 780) if tier == "quick" else part.get("timeout_thorough", 3000)
        cmd = [bins[part["name"]]] + part.get("args", [])
        logf = os.path.join(outdir, "log%d.txt" % i)
        hung = False
        with open(logf, "w") as lf:
            p = subprocess.Popen(cmd, env=e, cwd=scratch, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, 9)
                p.wait()
        with open(logf, errors="replace") as lf:
            log = lf.read()
        shutil.rmtree(scratch, ignore_errors=True)
        r = None
        if os.path.exists(rep):
            with open(rep) as f:
                r = json.load(f)
        if os.path.exists(rep):
            os.remove(rep)
        viols = list(r["violations"]) if r else []
        for v in viols:
            v["seed"] = seed
        if hung:
            if part.get("hang_is_violation"):
                viols.append({"key": "hang", "detail": "no progress within %d s\n%s" % (timeout, log[-3000:]), "replay": "whole-run"})
            elif logged(prop, log):
                viols += logged(prop, log)
            else:
                return None, "timeout after %d s\n%s" % (timeout, log[-3000:])
        elif r is None or not r.get("done"):
            c = classify_crash(prop, log, p.returncode)
            if c is None and logged(prop, log):
                viols += logged(prop, log)
            elif c is None:
                return None, "monitor ended with %s without a report\n%s" % (p.returncode, log[-4000:])
            else:
                viols.append(c)
        if race_log:
            import glob
            for f in sorted(glob.glob(race_log + ".*")):
                with open(f, errors="replace") as fh:
                    txt = fh.read()
                for blk in txt.split("=================="):
                    if "DATA RACE" not in blk:
                        continue
                    frames = re.findall(r"github\.com/vitelabs/go-vite/v2/(?!zverif)([\w/.\-]+\.[\w().*]+)\(", blk)
                    if not frames:
                        continue  # race inside the harness only
                    key = "race:" + "|".join(sorted(set(frames[:1] + [x for x in frames if x][1:2])))
                    if not any(v["key"] == key for v in viols):
                        viols.append({"key": key, "detail": blk[:4000], "replay": "whole-run"})
        reports.append((r, viols))
        logs.append(log)
    return reports, logs


def main():
    args = sys.argv[1:]
    raise_limits()
    env = goenv()
    if args and args[0] == "--setup":
        return setup(env)
    prop = args[0]
    case = args[args.index("--case") + 1] if "--case" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    if "--quick" in args:
        tier = "quick"
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    outdir = tempfile.mkdtemp(prefix=prop + "-", dir=BUILD)
    try:
        targets, seen = [], set()
        for part in spec["parts"]:
            if part["name"] not in seen:
                seen.add(part["name"])
                targets.append((part["name"], part))
        bins, err = build(targets, env, outdir)
        if bins is None:
            print("BUILD FAILED\n" + err[-6000:])
            return 2
        t1 = time.time()
        res, logs = run_parts(prop, spec, tier, seed, case, env, outdir, bins)
        if res is None:
            print("CHECK BROKEN: " + str(logs))
            return 2
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    viols, evals, distinct, samples, counters, rules, assume = [], 0, 0, [], {}, [], []
    for r, v in res:
        viols += v
        if r:
            evals += r["evaluations"]
            distinct += r["distinct_nontrivial"]
            samples += r["samples"]
            if r["rule"] and r["rule"] not in rules:
                rules.append(r["rule"])
            for a in r.get("assumptions") or []:
                if a not in assume:
                    assume.append(a)
            for k, c in r["counters"].items():
                counters[k] = counters.get(k, 0) + c
    known = load_known()
    fresh, hit = [], {}
    for v in viols:
        for k in known:
            if k["property"] == prop and re.fullmatch(k["key"], v["key"]):
                hit[k["key"]] = k
                break
        else:
            fresh.append(v)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": " | ".join(rules),
                       "samples": samples[:12], "observed": counters,
                       "known_findings_seen": sorted(hit)},
          "assumptions": assume + spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if not case:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in known:
        if k["property"] == prop and (k["key"] in hit or k.get("always")):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s seed=%d: evaluations=%d distinct=%d build=%.1fs total=%.1fs" % (prop, tier, seed, evals, distinct, t1 - t0, time.time() - t0))
    for k in sorted(counters):
        print("   %s=%d" % (k, counters[k]))
    if not fresh and evals == 0:
        print("CHECK BROKEN: nothing evaluated")
        return 2
    if fresh:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(fresh):
            path = os.path.join(rdir, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": v.get("seed", seed), "case": v["replay"], "key": v["key"], "detail": v["detail"],
                           "command": "VERIF_SEED=%d VERIF_TIER=%s python3 %s/run.py %s --case '%s'" % (v.get("seed", seed), tier, VERIF, prop, v["replay"])}, f, indent=1)
            print("--- %s: %s" % (v["key"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def setup(env):
    os.makedirs(BUILD, exist_ok=True)
    outdir = tempfile.mkdtemp(prefix="setup-", dir=BUILD)
    try:
        done = set()
        for prop in sorted(CHECKS):
            for part in CHECKS[prop]["parts"]:
                k = (part["name"], part.get("race"))
                if k in done:
                    continue
                done.add(k)
                bins, err = build([(part["name"], part)], env, outdir)
                if bins is None:
                    print(err[-3000:])
                    return 1
                for b in bins.values():
                    if b:
                        os.remove(b)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
