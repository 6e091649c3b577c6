#!/usr/bin/env python3
"""Decide one property: build the monitors against /repo's working tree, run
them, judge what they observed, write the evidence.

usage: check.py PROPERTY [--thorough] [--seed N] [--only CASE] [--keep] [--repo DIR]

exit 0  held on everything explored (known findings are printed)
exit 1  a VIOLATION line
exit 2  the check could not decide (build error, watchdog, too few events)
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

CORE = "chunk,control,handshake,spec"
UPPER = CORE + ",client,server,cmd,cmd/conn,cmd/data,cmd/stream"


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off",
             GOFLAGS="", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.pop("GORACE", None)
    return e


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def build(args, cfg, work, env):
    """Returns (binary, sites, note) or raises."""
    gomod = open(os.path.join(HERE, "mod/go.mod")).read().replace("/verif/stub/amf0", os.path.join(HERE, "stub/amf0"))
    open(os.path.join(work, "go.mod"), "w").write(gomod)
    shutil.copy(os.path.join(HERE, "mod/go.sum"), os.path.join(work, "go.sum"))
    rc, out = run(["go", "build", "-buildvcs=false", "-o", os.path.join(work, "instr"), "."],
                  os.path.join(HERE, "tools/instr"), env, 300)
    if rc != 0:
        raise RuntimeError("building the instrumenter failed:\n" + out)
    pkg = cfg["bin"]
    note = ""
    for plain in (False, True):
        cmd = [os.path.join(work, "instr"), "-repo", args.repo, "-out", work, "-harness", os.path.join(HERE, "harness"),
               "-gomod", os.path.join(work, "go.mod"), "-gosum", os.path.join(work, "go.sum"),
               "-pkgs", CORE if pkg == "mon" else UPPER]
        if plain:
            cmd.append("-plain")
        rc, out = run(cmd, HERE, env, 120)
        if rc != 0:
            raise RuntimeError("instrumenting failed:\n" + out)
        cmd = ["go", "build", "-mod=readonly", "-buildvcs=false", "-overlay", os.path.join(work, "overlay.json"),
               "-o", os.path.join(work, "mon.bin")]
        if cfg.get("race"):
            cmd.append("-race")
        cmd.append("./zzverif/" + pkg)
        rc, out = run(cmd, args.repo, env, 600)
        if rc == 0:
            sites = json.load(open(os.path.join(work, "sites.json"))) or []
            return os.path.join(work, "mon.bin"), sites, note
        note = "instrumented build failed, plain build used:\n" + out
    raise RuntimeError("building the monitors against %s failed:\n%s" % (args.repo, out))


def races(work, repo):
    """Race reports that involve the code under test, deduplicated; and the others."""
    seen, other = {}, 0
    for f in sorted(glob.glob(os.path.join(work, "race.*"))):
        txt = open(f, errors="replace").read()
        for blk in re.split(r"(?m)^=+$", txt):
            if "WARNING: DATA RACE" not in blk:
                continue
            # a report is about the code under test when the innermost frame, standard
            # library aside, of either access is in it
            frames = []
            for stack in re.split(r"(?m)^(?=(?:Previous )?(?:[Rr]ead|[Ww]rite|Atomic|atomic|\[failed))", blk.split("\nGoroutine ")[0])[1:]:
                top = next((x for x in re.findall(r"^\s+(\S+\.go):\d+", stack, re.M) if x.startswith(repo + "/")), None)
                if top and not top.startswith(repo + "/zzverif/"):
                    frames.append(top)
            fns = [x for x in re.findall(r"^  github\.com/WatchBeam/rtmp/(\S+)\(\)$", blk.split("\nGoroutine ")[0], re.M) if not x.startswith("zzverif/")]
            if frames:
                seen.setdefault("|".join(fns), blk.strip())
            else:
                other += 1
    return seen, other


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--only", type=int, default=-1)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--repo", default="/repo")
    args = ap.parse_args()
    prop = args.prop
    cfg = PROPS[prop]
    tier = "thorough" if args.thorough or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = os.path.join(HERE, ".build", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        code = decide(args, prop, cfg, tier, seed, work, t0)
    finally:
        if not args.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def decide(args, prop, cfg, tier, seed, work, t0):
    env = goenv()
    try:
        binary, sites, note = build(args, cfg, work, env)
    except RuntimeError as e:
        print("ERROR: %s: %s" % (prop, e))
        return 2
    if note:
        print("note:", note[:2000])
    tb = time.time() - t0
    res_path = os.path.join(work, "result.json")
    cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", res_path, "-sites", str(len(sites))]
    if args.only >= 0:
        cmd += ["-only", str(args.only)]
    if cfg.get("race"):
        cmd.append("-race")
    renv = dict(env)
    renv["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2 log_path=" + os.path.join(work, "race")
    renv["GOTRACEBACK"] = "all"
    limit = cfg.get("limit", 780) if tier == "quick" else cfg.get("limit_thorough", 7200)
    rc, out = run(cmd, work, renv, limit)
    res = {}
    if os.path.exists(res_path):
        try:
            res = json.load(open(res_path))
        except ValueError:
            res = {}
    case = res.get("case", -1)
    if not res and os.path.exists(res_path + ".progress"):
        try:
            case = int(open(res_path + ".progress").read().split()[0])
        except (ValueError, IndexError):
            pass
    viol = []
    if res.get("violation"):
        viol.append(res["violation"])
    elif rc not in (0, 1, 4, None) and re.search(r"^(panic:|fatal error:|unexpected fault|runtime: goroutine stack exceeds|SIG[A-Z]+:)", out, re.M):
        m = re.search(r"^(panic:|fatal error:|unexpected fault|runtime: goroutine stack|SIG[A-Z]+:)", out, re.M)
        viol.append("the process crashed:\n" + out[m.start():m.start() + 4000])
    rr, other = races(work, args.repo.rstrip("/"))
    if cfg.get("race"):
        for k, blk in rr.items():
            viol.append("data race between %s\n%s" % (k, blk[:3500]))
    known = known_findings(prop)
    lines = []
    for key, what in sorted((res.get("findings") or {}).items()):
        if key in known:
            lines.append("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[key], key))
        else:
            viol.append("finding %s: %s" % (key, what))

    reached = res.get("reached") or []
    cov = {
        "evaluations": res.get("evaluations", 0),
        "distinct_nontrivial": res.get("distinct_nontrivial", 0),
        "rule": res.get("rule", ""),
        "samples": res.get("samples") or [],
        "observed": res.get("counts") or {},
        "statement_sites_reached": len([x for x in reached if x < len(sites)]),
        "statement_sites_total": len(sites),
        "statements_executed_by_code_under_test": res.get("steps", 0),
        "sites_reached_by_package": by_pkg(sites, reached),
        "race_detector": bool(cfg.get("race")),
        "race_reports_in_code_under_test": len(rr),
        "race_reports_in_harness": other,
        "build_s": round(tb, 2),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for l in lines:
        print(l)
    if viol:
        rp = os.path.join(HERE, ".replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s-%s-%d.json" % (prop, tier, seed))
        cmdl = "python3 %s %s --seed %d --only %d%s" % (os.path.join(HERE, "check.py"), prop, seed, case,
                                                        " --thorough" if tier == "thorough" else "")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "case": case, "scenario": res.get("scenario", ""),
                       "rerun": cmdl, "violations": viol}, f, indent=1)
            f.write("\n")
        for v in viol[:5]:
            print("  " + v[:3000].replace("\n", "\n  "))
        if res.get("scenario"):
            print("  scenario:", res["scenario"][:1000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if rc is None:
        print("INCONCLUSIVE: %s: the watchdog ended the run after %d s\n%s" % (prop, limit, out[-3000:]))
        return 2
    if rc != 0 or not res.get("complete"):
        print("INCONCLUSIVE: %s: monitor exited with %s\n%s" % (prop, rc, out[-4000:]))
        return 2
    if cov["evaluations"] == 0 and args.only < 0:
        print("INCONCLUSIVE: %s: nothing was evaluated" % prop)
        return 2
    if other:
        print("INCONCLUSIVE: %s: %d race reports inside the harness itself" % (prop, other))
        for f in sorted(glob.glob(os.path.join(work, "race.*")))[:1]:
            print(open(f, errors="replace").read()[:3000])
        return 2
    print("held: property=%s tier=%s evaluations=%d distinct=%d sites=%d/%d build=%.1fs wall=%.1fs" % (
        prop, tier, cov["evaluations"], cov["distinct_nontrivial"], cov["statement_sites_reached"], len(sites), tb, time.time() - t0))
    return 0


def by_pkg(sites, reached):
    tot, got = {}, {}
    rs = set(reached)
    for s in sites:
        p = os.path.dirname(s["file"]) or "."
        tot[p] = tot.get(p, 0) + 1
        if s["id"] in rs:
            got[p] = got.get(p, 0) + 1
    return {p: "%d/%d" % (got.get(p, 0), tot[p]) for p in sorted(tot)}


def known_findings(prop):
    r = {}
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return r


if __name__ == "__main__":
    main()
