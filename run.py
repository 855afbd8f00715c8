#!/usr/bin/env python3
"""Driver: builds the harness binaries of one property from /repo's working tree, runs them, judges
what their monitors reported, and writes evidence and replay files.

  run.py ID [quick|thorough]       check a property
  run.py --replay FILE             re-run the single case of a replay file
  run.py --build [ID...]           only build (used by setup_cmd)
"""
from concurrent.futures import ThreadPoolExecutor
import glob, json, os, re, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVOURS  # noqa: E402

CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}


def env_for(fl, tier, seed):
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=fl.get("toolchain", "nightly-2025-04-24"), CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0",
             CARGO_TARGET_DIR=f"{VERIF}/target/{fl['dir']}", VERIF_TIER=tier, VERIF_SEED=str(seed))
    if not fl.get("miri"):
        e["RUSTFLAGS"] = (fl.get("rustflags", "") + " --cap-lints=allow").strip()
    e.update(fl.get("env", {}))
    return e


def cargo_args(fl, run, cmd="build"):
    a = ["cargo"]
    if fl.get("miri"):
        a += ["miri", "run", "--manifest-path", f"{VERIF}/{run['crate']}/Cargo.toml", "--bin", run["bin"]]
        a += ["--offline", "-q"]
    else:
        a += [cmd] + fl.get("cargo", []) + ["--manifest-path", f"{VERIF}/{run['crate']}/Cargo.toml", "--offline", "-q",
              "--profile", fl.get("profile", "vp")]
        for b in run["bin"] if isinstance(run["bin"], list) else [run["bin"]]:
            a += ["--bin", b]
    feats = fl.get("features", [])
    a += ["--no-default-features"]
    if feats:
        a += ["--features", ",".join(feats)]
    if fl.get("target"):
        a += ["--target", fl["target"]]
    return a


def exe(fl, run):
    t = fl["target"] + "/" if fl.get("target") else ""
    return f"{VERIF}/target/{fl['dir']}/{t}{fl.get('profile', 'vp')}/{run['bin']}"


def build(runs, tier, seed):
    """Build what `runs` needs; returns an error text or None."""
    todo = {}
    for r in runs:
        todo.setdefault((r["flavour"], r["crate"]), set()).add(r["bin"])
    by_fl = {}
    for (f, crate), bins in todo.items():
        by_fl.setdefault(f, []).append((crate, sorted(bins)))

    def go(f):
        fl = FLAVOURS[f]
        for crate, bins in by_fl[f]:
            if fl.get("miri"):
                # interpreting needs the crates' metadata: run each workload with no case selected
                for b in bins:
                    run = {"crate": crate, "bin": b}
                    out = f"{VERIF}/results/warm.{b}.{os.getpid()}.json"
                    os.makedirs(f"{VERIF}/results", exist_ok=True)
                    p = subprocess.run(cargo_args(fl, run) + ["--", "--flavour", f, "--out", out, "--only", "none#0"],
                                       env=env_for(fl, tier, seed), cwd=VERIF, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
                    done = os.path.exists(out)
                    for x in glob.glob(out + "*"):
                        os.unlink(x)
                    if not done and sanitizer_report(p.stdout) is None:
                        return f"build of {crate} {b} ({f}) failed:\n" + p.stdout[-6000:]
                continue
            p = subprocess.run(cargo_args(fl, {"crate": crate, "bin": bins}), env=env_for(fl, tier, seed),
                               cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                return f"build of {crate} {bins} ({f}) failed:\n" + p.stdout[-6000:]
        return None

    with ThreadPoolExecutor(max_workers=4) as ex:
        for r in ex.map(go, by_fl):
            if r:
                return r
    return None


def one(run, tier, seed, budget, only=None, verbose=False):
    fl = FLAVOURS[run["flavour"]]
    os.makedirs(f"{VERIF}/results", exist_ok=True)
    part = run.get("env", {}).get("VMON_SHARD", "").replace("/", "of")
    out = f"{VERIF}/results/{run['bin']}.{run['flavour']}{part}.{os.getpid()}.json"
    for f in glob.glob(out + "*"):
        os.unlink(f)
    args = ["--flavour", run["flavour"], "--out", out, "--budget", str(budget)]
    if only:
        args += ["--only", only]
    if verbose:
        args += ["--verbose"]
    env = env_for(fl, tier, seed)
    env.update(run.get("env", {}))
    if fl.get("miri"):
        cmd = cargo_args(fl, run) + ["--"] + args
    else:
        cmd = [exe(fl, run)] + args
    limit = run.get("kill_after", max(300, 2.5 * budget))
    if tier == "thorough":
        limit = max(limit, 2.5 * budget + 600)
    log = out + ".log"
    t0 = time.time()
    with open(log, "w") as lf:
        p = subprocess.Popen(cmd, env=env, cwd=VERIF, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        timed_out = False
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            now = time.time()
            stuck = [open(f).read() for f in glob.glob(out + ".progress.*") if now - os.path.getmtime(f) > 150]
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    logtxt = open(log, errors="replace").read()
    prog = []
    for f in glob.glob(out + ".progress.*"):
        try:
            prog.append(open(f).read())
        except OSError:
            pass
    res = {"run": run, "rc": p.returncode, "wall": time.time() - t0, "violations": [], "error": None, "data": None}
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError as ex:
            res["error"] = f"unreadable result: {ex}"
    res["data"] = data
    if data and not run.get("san_only"):
        res["violations"] += data["violations"]
    tail = logtxt[-3000:]
    if timed_out:
        if stuck and not run.get("timeout_is_error"):
            res["violations"].append({"monitor": stuck[0].split("#")[0], "index": int(stuck[0].split("#")[1] or 0),
                                      "key": "hang", "detail": f"a case did not terminate: {stuck}", "case": ""})
        else:
            res["error"] = f"run exceeded {limit:.0f} s"
    elif p.returncode < 0 or p.returncode in (134, 139, 135, 132, 136) or (fl.get("san_rc") and p.returncode == fl["san_rc"]) \
            or (fl.get("miri") and p.returncode != 0 and data is None):
        sig = -p.returncode
        san = sanitizer_report(logtxt)
        if fl.get("miri") and san is None:
            res["error"] = "miri did not run:\n" + tail
        elif sig in (signal.SIGKILL, signal.SIGTERM):
            res["error"] = f"killed by signal {sig} (out of memory or stopped)"
        else:
            pr = prog[0] if prog else "?#0"
            mon, _, idx = pr.partition("#")
            res["violations"].append({"monitor": mon, "index": int(idx) if idx.isdigit() else 0,
                                      "key": san[0] if san else f"crash-signal-{sig}",
                                      "detail": (san[1] if san else tail)[-1500:], "case": f"in progress: {prog}"})
    elif data is None and not res["error"]:
        res["error"] = f"no result (exit {p.returncode}):\n{tail}"
    for f in glob.glob(out + ".progress.*"):
        os.unlink(f)
    for f in (out, log):
        if os.path.exists(f) and not res["error"]:
            os.unlink(f)
    return res


def sanitizer_report(txt):
    for pat, kind in ((r"ERROR: AddressSanitizer: (\S+)", "asan"), (r"WARNING: ThreadSanitizer: ([\w -]+)", "tsan"),
                      (r"ERROR: LeakSanitizer: ([\w ]+)", "lsan"), (r"error: (Undefined Behavior: [^\n]*)", "miri"),
                      (r"error: (memory leaked[^\n]*)", "miri"), (r"error: (the evaluated program aborted[^\n]*)", "miri"),
                      (r"unsafe precondition\(s\) violated: ([^\n]*)", "ub-check")):
        m = re.search(pat, txt)
        if m:
            return f"{kind}: {m.group(1)[:160]}", txt[max(0, m.start() - 200): m.start() + 2500]
    return None


def load_known():
    """known_findings.txt: lines 'KNOWN property=<id> match=<regex over key + detail> :: <text>'"""
    out = []
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^KNOWN property=(\S+) match=(.+?) :: (.*)$", line.strip())
            if m:
                out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    runs = [r for r in spec["runs"] if tier == "thorough" or not r.get("thorough_only")]
    avail = cpu_flags()
    skipped = [r for r in runs if not set(FLAVOURS[r["flavour"]].get("needs_cpu", [])) <= avail]
    runs = [r for r in runs if r not in skipped]
    err = build(runs, tier, seed)
    build_s = time.time() - t0
    results, errors = [], []
    if err:
        errors.append(err)
    else:
        def go(r):
            return one(r, tier, seed, r.get("budget", 25) if tier == "quick" else r.get("tbudget", 600))

        # single-threaded workloads side by side, the others one after another
        with ThreadPoolExecutor(max_workers=8) as ex:
            results += ex.map(go, [r for r in runs if r.get("side_by_side")])
        results += [go(r) for r in runs if not r.get("side_by_side")]
        for res in results:
            r = res["run"]
            if res["error"]:
                errors.append(f"{r['bin']} ({r['flavour']}): {res['error']}")
    known = [(k[1], k[2]) for k in load_known() if k[0] == pid]
    viols, known_hit = [], {}
    for res in results:
        for v in res["violations"]:
            text = f"{v['monitor']} [{v['key']}] {v['detail']}"
            for rx, desc in known:
                if rx.search(text):
                    known_hit[desc] = known_hit.get(desc, 0) + 1
                    break
            else:
                viols.append((res["run"], v))
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    lines, seen = [], set()
    for run, v in viols:
        k = (v["monitor"], v["key"], run["flavour"])
        if k in seen or len(lines) >= 10:
            continue
        seen.add(k)
        path = f"{VERIF}/replays/{pid}-{run['flavour']}-{re.sub(r'[^A-Za-z0-9_.-]', '_', v['monitor'])[:60]}-{v['index']}.json"
        json.dump({"property": pid, "run": run, "seed": seed, "tier": tier, "only": f"{v['monitor']}#{v['index']}", **v},
                  open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        print(f"# {v['monitor']}#{v['index']} [{v['key']}] ({run['flavour']}): {v['detail'][:600]}")
    evals = sum(r["data"]["evaluations"] for r in results if r["data"])
    distinct = sum(r["data"]["distinct"] for r in results if r["data"])
    samples, per, incon = [], {}, []
    for r in results:
        d = r["data"]
        if not d:
            continue
        tag = f"{r['run']['bin']}/{r['run']['flavour']}"
        if r["run"].get("env", {}).get("VMON_SHARD"):
            tag += "/" + r["run"]["env"]["VMON_SHARD"].replace("/", "of")
        samples += [f"[{r['run']['flavour']}] {s}" for s in d["samples"][:: max(1, len(d["samples"]) // 12)]]
        per[tag] = {"cpu_features_compiled": d["cpu_features"], "evaluations": d["evaluations"],
                    "distinct": d["distinct"], "monitors": d["monitors"], "events": d["counts"], "wall_s": d["wall_s"]}
        incon += [f"{tag}: {x}" for x in d["inconclusive"]]
    rule = " | ".join(dict.fromkeys(r["data"]["rule"] for r in results if r["data"] and r["data"]["rule"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule or spec.get("rule", ""),
                       "samples": samples[:40] or ["none"], "runs": per,
                       "skipped_flavours": [f"{r['bin']}/{r['flavour']} (CPU lacks it)" for r in skipped],
                       "inconclusive": incon, "errors": [e[:500] for e in errors], "build_s": round(build_s, 1),
                       "known_findings_hit": known_hit},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
    for desc in known_hit:
        print(f"KNOWN-FINDING: property={pid} {desc}")
    for line in lines:
        print(line)
    if lines:
        return 1
    for e in incon:
        print("NOTE:", e)
    if errors or not evals:
        for e in errors:
            print("INCONCLUSIVE:", e)
        return 2
    print(f"{pid} {tier}: held on {evals} evaluations ({distinct} distinct non-trivial), "
          f"build {build_s:.0f} s, total {time.time() - t0:.0f} s")
    return 0


def cpu_flags():
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return set(line.split(":")[1].split())
    except OSError:
        pass
    return set()


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--replay":
        r = json.load(open(a[1]))
        err = build([r["run"]], r["tier"], r["seed"])
        if err:
            print(err)
            return 2
        res = one(r["run"], r["tier"], r["seed"], 600, only=r["only"], verbose=True)
        for v in res["violations"]:
            print(f"{v['monitor']}#{v['index']} [{v['key']}]: {v['detail']}")
            print(f"VIOLATION property={r['property']} replay={a[1]}")
        if res["error"]:
            print(res["error"])
        return 1 if res["violations"] else (2 if res["error"] else 0)
    if a[0] == "--build":
        ids = a[1:] or list(CHECKS)
        avail = cpu_flags()
        runs = [r for i in ids for r in CHECKS[i]["runs"] if not r.get("thorough_only")
                and set(FLAVOURS[r["flavour"]].get("needs_cpu", [])) <= avail]
        err = build(runs, "quick", 1)
        if err:
            print(err)
        return 0 if not err else 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
