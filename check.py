#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working tree, runs its workers, judges their
records, writes evidence/<id>.json. Usage: check.py ID [--case N] [--seed S]"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
from checks import CONFIG  # noqa: E402

T0 = time.time()


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", HOME="/root", LANG="C.UTF-8",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def error(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def run_build(cmd, cwd, what, extra=None):
    e = env()
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        error(f"building {what} failed:\n{p.stdout[-4000:]}")


def build(bld, race=False, server=False, tracer=False, norace=True, fast=()):
    """The module files are copied so that the build never rewrites committed ones."""
    src = os.path.join(bld, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    out = {}
    jobs = []
    if norace:
        out["bin"] = os.path.join(bld, "w.test")
        jobs.append((["go", "test", "-c", "-vet=off", "-o", out["bin"], "."], src, "harness"))
    if race:
        out["race"] = os.path.join(bld, "w.race.test")
        jobs.append((["go", "test", "-c", "-race", "-vet=off", "-o", out["race"], "."], src, "race harness"))
    if server:
        out["server"] = os.path.join(bld, "server.race")
        jobs.append((["go", "build", "-race", "-o", out["server"], "."], REPO, "server"))
    if tracer:
        out["tracer"] = os.path.join(bld, "tracer")
        jobs.append((["gcc", "-O2", "-w", "-o", out["tracer"], os.path.join(src, "tracer", "tracer.c")], src, "tracer"))
    if fast:
        ov = fast_overlay(bld)
    for kind in fast:
        if kind == "fastserver":
            out[kind] = os.path.join(bld, "server.fast")
            jobs.append((["go", "build", "-race", "-overlay", ov, "-o", out[kind], "."], REPO, "server"))
            continue
        out[kind] = os.path.join(bld, "w." + kind + ".test")
        jobs.append((["go", "test", "-c", "-overlay", ov, *(["-race"] if kind == "fastrace" else []), "-vet=off", "-o", out[kind], "."], src, kind + " harness"))
    for cmd, cwd, what in jobs:
        run_build(cmd, cwd, what, {"GOFLAGS": "-mod=readonly"} if what == "server" else None)
    return out


SPEED = 100


def fast_overlay(bld):
    """Go's runtime with a clock that runs SPEED times as fast: timers, tickers and time.Now, for the harness's "fast" build."""
    root = subprocess.run(["go", "env", "GOROOT"], env=env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    rt = os.path.join(root, "src", "runtime")
    edits = {
        "time_nofake.go": [("return nanotime1()", f"return nanotime1() * {SPEED}")],
        "time_linux_amd64.s": [("\tADDQ\tDX, CX\n\tRET", f"\tADDQ\tDX, CX\n\tIMULQ\t${SPEED}, CX\n\tRET")],
        "os_linux.go": [("\tts.setNsec(ns)\n\tfutex(", f"\tts.setNsec(ns/{SPEED} + 1)\n\tfutex(")],
        "netpoll_epoll.go": [("\tvar waitms int32\n", f"\tvar waitms int32\n\tif delay > 0 {{\n\t\tdelay = delay/{SPEED} + 1\n\t}}\n")],
    }
    d = os.path.join(bld, "fast")
    os.mkdir(d)
    rep = {}
    for name, subs in edits.items():
        s = open(os.path.join(rt, name)).read()
        for a, b in subs:
            if s.count(a) != 1:
                error(f"runtime/{name} is not as expected: {a!r}")
            s = s.replace(a, b)
        rep[os.path.join(rt, name)] = os.path.join(d, name)
        open(os.path.join(d, name), "w").write(s)
    p = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p


class Worker:
    def __init__(self, n, cmd, envv, outp, errp, cwd, user):
        self.n, self.outp, self.errp = n, outp, errp
        self.cmd, self.env, self.cwd, self.user = cmd, envv, cwd, user
        self.size, self.hung, self.stopped = 0, None, False
        self.retried = {}
        self.start()

    def start(self):
        self.err = open(self.errp, "wb")
        kw = {}
        if self.user and os.geteuid() == 0:
            kw = dict(user=self.user, group=self.user, extra_groups=[])
        opts = dict(env=self.env, cwd=self.cwd, stdout=self.err, stderr=self.err, start_new_session=True)
        try:
            self.p = subprocess.Popen(self.cmd, **opts, **kw)
        except (OSError, subprocess.SubprocessError):
            if not kw:
                raise
            self.p = subprocess.Popen(self.cmd, **opts)  # no privilege to change the user: the scratch directory contains it
        self.since = time.time()

    def resume(self):
        """A worker that ended before its last case continues in a fresh process: after it asked for one (large heap), or
        after the Go runtime itself died of what its collector found, or after somebody killed it, as happens when the
        memory of the sandbox runs out (at most twice for the same case)."""
        if self.stopped or self.hung:
            return False
        recs = records(self.outp)
        last = recs[-1] if recs else {}
        if self.p.returncode == 0:
            at = last.get("next")
        else:
            at = last.get("begin")
            killed = self.p.returncode == -signal.SIGKILL
            if at is None or not (killed or RUNTIME_DEATH.search(tail(self.errp))) or self.retried.get(at, 0) >= 2:
                return False
            self.retried[at] = self.retried.get(at, 0) + 1
        if at is None:
            return False
        self.err.close()
        self.env["V_FROM"] = str(at)
        if self.p.returncode == 0:
            with open(self.outp, "a") as f:
                f.write('{"resumed": %d}\n' % at)
        self.start()
        return True

    def cpu(self):
        try:
            f = open(f"/proc/{self.p.pid}/stat").read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            return 0.0

    def kill(self, sig=signal.SIGKILL):
        try:
            os.killpg(self.p.pid, sig)
        except OSError:
            pass


# How the runtime dies of a damaged heap. Abandoning a synctest bubble whose goroutines are still blocked (Go's own
# deadlock panic, recovered) does that now and then; see DESIGN.md.
RUNTIME_DEATH = re.compile(r"marked free object|found pointer to free object|pointer to unallocated span|found bad pointer in Go heap|"
                           r"sweep increased allocation count|bad sweepgen|workbuf is (not )?empty|greyobject")


def records(path):
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8", errors="replace"):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


def tail(path, n=6000):
    try:
        b = open(path, "rb").read()
    except OSError:
        return ""
    b = b"\n".join(l for l in b.split(b"\n") if not re.match(rb"(Merge documents|Gravou|The \w+ was loaded)", l))
    if len(b) <= n:
        return b.decode(errors="replace")
    return (b[: n // 2] + b"\n...\n" + b[-n // 2:]).decode(errors="replace")


def norm_race(block):
    """The pair of stacks without line numbers and addresses."""
    fr = [l.strip() for l in block.splitlines() if re.match(r"\s+[\w./*()\[\]-]+\(", l) and ("goirlib" in l or l.strip().startswith("main."))]
    return re.sub(r"0x[0-9a-f]+", "", " | ".join(f.split("(")[0] + "(" + f.split("(", 1)[1][:24] for f in fr[:6]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--build", action="store_true", help="only build everything, as a test of the toolchain")
    ap.add_argument("--case", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--tier")
    ap.add_argument("-n", type=int)
    a = ap.parse_args()
    if a.build:
        d = tempfile.mkdtemp(prefix="vh-")
        try:
            build(d, race=True, server=True, tracer=True, fast=("fast", "fastrace", "fastserver"))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return
    cfg = CONFIG.get(a.prop) or error("unknown property %s" % a.prop)
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="vh-", dir=shm)
    os.chmod(scratch, 0o755)
    rc = 2
    try:
        rc = check(a, cfg, seed, tier, scratch)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def check(a, cfg, seed, tier, scratch):
    prop = a.prop
    bld = os.path.join(scratch, "build")
    os.mkdir(bld)
    bins = build(bld, race=bool(cfg.get("race")), server=cfg.get("server", False), tracer=cfg.get("tracer", False),
                 norace=cfg.get("race") != "only", fast=cfg.get("fast", ()))
    t_build = time.time() - T0
    workers = []
    runs = []  # (binary, parallel workers)
    if cfg.get("race") != "only":
        runs.append(("bin", cfg.get("par", 8)))
    if cfg.get("race"):
        runs.append(("race", cfg.get("race_par", cfg.get("par", 8))))
    for kind in cfg.get("fast_kinds", ()):
        runs.append((kind, cfg.get("par", 8)))
    agg = dict(retried=0, slowest=(0, -1), cases=0, fps=set(), nontriv=0, counters={}, samples=[], incon=[], races={}, race_blocks=0)
    violations = []
    for kind, par in runs:
        if a.case is not None:
            par = 1
        ws = []
        for k in range(par):
            wd = os.path.join(scratch, f"{kind}{k}")
            os.mkdir(wd)
            if cfg.get("user"):
                os.chmod(wd, 0o777)
            e = env()
            outp = os.path.join(wd, "out.jsonl")
            e.update(V_PROP=prop, V_SEED=str(seed), V_TIER=tier, V_OUT=outp, V_FROM=str(k), V_STEP=str(par),
                     V_SCRATCH=wd, V_KIND=kind, V_SELF=bins[kind], GOMAXPROCS=str(cfg.get("gomaxprocs", 4)),
                     GOTRACEBACK="all", GOGC="off", GOMEMLIMIT="1300MiB" if "race" in kind else "2000MiB",
                     GORACE=f"halt_on_error=0 exitcode=0 history_size=5 log_path={wd}/race")
            n = a.n or cfg.get("n", {}).get((tier, kind))
            if n:
                e["V_N"] = str(n)
            if a.case is not None:
                e.update(V_FROM=str(a.case), V_STEP="1", V_N=str(a.case + 1))
            for key in ("server", "tracer", "fast", "fastserver"):
                if key in bins:
                    e["V_" + key.upper()] = bins[key]
            cmd = [bins[kind], "-test.run", "^TestWorker$", "-test.timeout", "0"]
            ws.append(Worker(k, cmd, e, outp, os.path.join(wd, "err"), wd, cfg.get("user")))
        limit = time.time() + (700 if tier == "quick" else 6 * 3600)
        stall = cfg.get("stall", 240) if tier == "quick" else 600
        cpu0 = {}
        while any(w.p.poll() is None or w.resume() for w in ws):
            time.sleep(0.1)
            now = time.time()
            stop_all = False
            for w in ws:
                if w.p.poll() is not None:
                    if w.resume():
                        continue
                    if w.p.returncode != 0:
                        stop_all = True
                    elif any(r.get("fails") for r in records(w.outp)[-2:]):
                        stop_all = True
                    continue
                try:
                    sz = os.path.getsize(w.outp)
                except OSError:
                    sz = 0
                if sz != w.size:
                    w.size, w.since = sz, now
                    cpu0[w.n] = w.cpu()
                elif now - w.since > stall or now > limit:
                    # No case finished for a very long time: report where it hangs.
                    idle = w.cpu() - cpu0.get(w.n, 0.0)
                    w.hung = f"no case finished for {int(now - w.since)} s (limit reached: {now > limit}); CPU used meanwhile {idle:.1f} s"
                    w.kill(signal.SIGQUIT)
                    try:
                        w.p.wait(20)
                    except subprocess.TimeoutExpired:
                        pass
                    w.kill()
                    w.p.wait()
                    stop_all = True
            if stop_all:
                t1 = time.time()
                while time.time() - t1 < 20 and any(w.p.poll() is None for w in ws):
                    time.sleep(0.2)
                    if violations_in(ws):
                        break
                for w in ws:
                    w.stopped = w.stopped or w.p.poll() is None or w.p.returncode == 0
                    if w.p.poll() is None:
                        w.kill()
                        w.p.wait()
                        w.p.returncode = 0  # ended by us
        for w in ws:
            w.err.close()
            recs = records(w.outp)
            agg["retried"] += sum(w.retried.values())
            begun = [r["begin"] for r in recs if "begin" in r]
            for r in recs:
                if "case" not in r:
                    continue
                agg["cases"] += 1
                agg["slowest"] = max(agg["slowest"], (r.get("ms", 0), r["case"]))
                agg["fps"].add((kind, r["fp"]) if r.get("nontrivial") else None)
                agg["nontriv"] += bool(r.get("nontrivial"))
                for c, v in (r.get("counters") or {}).items():
                    agg["counters"][c] = agg["counters"].get(c, 0) + v
                if "sample" in r and len(agg["samples"]) < 4:
                    agg["samples"].append({"case": r["case"], "build": kind, **(r["sample"] if isinstance(r["sample"], dict) else {"text": r["sample"]})})
                if r.get("inconclusive"):
                    agg["incon"].append((r["case"], r["inconclusive"]))
                if r.get("fails"):
                    violations.append(dict(case=r["case"], build=kind, what=r["fails"], history=r.get("history", []), dropped=r.get("dropped", 0)))
            txt = tail(w.errp)
            # Race reports.
            for p in sorted(glob.glob(os.path.join(os.path.dirname(w.outp), "race.*"))):
                raw = open(p, errors="replace").read()
                for block in raw.split("=================="):
                    if "WARNING: DATA RACE" not in block:
                        continue
                    agg["race_blocks"] += 1
                    if "goirlib" not in block and "/repo/" not in block:
                        error("race report without a frame of the code under test (harness defect):\n" + block[:3000])
                    agg["races"].setdefault(norm_race(block), (begun[-1] if begun else -1, block))
            if w.p.returncode == 0:
                if w.stopped or violations:
                    continue
                if not any("done" in r for r in recs):
                    # os.Exit(0) or runtime.Goexit in the code under test
                    violations.append(dict(case=begun[-1] if begun else -1, build=kind, what=["the process ended silently in the middle of a case"], history=txt.splitlines()))
                continue
            if "HARNESS-PANIC" in txt:
                if violations:
                    continue
                error("harness error:\n" + txt)
            if not begun and "/goirlib/" in txt.split("\n\ngoroutine ")[0] + txt[:3000]:
                violations.append(dict(case=-1, build=kind, what=[f"a process that uses the library dies at its start (exit code {w.p.returncode})"], history=txt.splitlines()))
                continue
            if not begun:
                error(f"worker did not start (exit {w.p.returncode}):\n" + txt)
            if any(v["case"] == begun[-1] and v["build"] == kind for v in violations):
                continue
            if w.hung:
                # The goroutines with frames of the code under test, out of the whole dump.
                # A goroutine that runs (an endless loop) may have no stack to show.
                own = [g for g in open(w.errp, errors="replace").read().split("\n\n") if "goirlib" in g or "/repo/" in g or "[runn" in g and "vharness." not in g]
                txt = "\n\n".join(own[:40]) or txt
                if not own and "CPU used meanwhile 0." not in w.hung:
                    error("watchdog: " + w.hung + "\n" + txt)
                violations.append(dict(case=begun[-1], build=kind, what=["an operation never finishes: " + w.hung], history=txt.splitlines()))
            else:
                violations.append(dict(case=begun[-1], build=kind, what=[f"the process died (exit code {w.p.returncode}) during the case"], history=txt.splitlines()))
    for key, (case, block) in agg["races"].items():
        violations.append(dict(case=case, build="race", what=["data race: " + key], history=block.strip().splitlines()))
    return verdict(a, cfg, prop, seed, tier, agg, violations, t_build)


def violations_in(ws):
    for w in ws:
        if any(r.get("fails") for r in records(w.outp)):
            return True
    return False


def known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def verdict(a, cfg, prop, seed, tier, agg, violations, t_build):
    kf = [k for k in known() if k.get("property") == prop and k.get("status") == "known"]
    real, seen_known = [], {}
    for v in violations:
        unlisted = []
        for w in v["what"]:
            m = next((k for k in kf if re.search(k["match"], w)), None)
            if m:
                seen_known[m["id"]] = m
            else:
                unlisted.append(w)
        if unlisted:
            v["what"] = unlisted
            real.append(v)
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    distinct = len(agg["fps"] - {None})
    floor = cfg.get("floor", {})
    cov = dict(evaluations=agg["cases"], distinct_nontrivial=distinct, rule=cfg["rule"], samples=agg["samples"],
               observed=dict(sorted(agg["counters"].items())), race_reports=agg["race_blocks"],
               inconclusive_cases=len(agg["incon"]), runtime_deaths_retried=agg["retried"], slowest_case=dict(case=agg["slowest"][1], seconds=agg["slowest"][0] / 1000), build_seconds=round(t_build, 1))
    if real:
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        v = sorted(real, key=lambda v: v["case"])[0]
        path = os.path.join(out, f"{prop}-seed{seed}-case{v['case']}.json")
        json.dump(dict(property=prop, seed=seed, tier=tier, reproduce=f"VERIF_TIER={tier} python3 {VERIF}/check.py {prop} --seed {seed} --case {v['case']}",
                       violations=real[:10]), open(path, "w"), indent=1)
    if a.case is None and a.n is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov, assumptions=cfg.get("assumptions", []),
                  wall_s=round(time.time() - T0, 1), violations=len(real))
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} seed={seed} tier={tier}: {agg['cases']} cases, {distinct} distinct non-trivial, {len(agg['incon'])} inconclusive, "
          f"{agg['race_blocks']} race reports, slowest case {agg['slowest'][0]/1000:.1f}s, build {t_build:.0f}s, total {time.time()-T0:.0f}s")
    print("observed: " + ", ".join(f"{k}={v}" for k, v in sorted(agg["counters"].items())))
    if real:
        for w in v["what"][:3]:
            print("  " + w.replace("\n", "\n    ")[:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if a.case is None and a.n is None:
        for k, m in floor.items():
            if agg["counters"].get(k, 0) < m:
                error(f"too little observed: {k}={agg['counters'].get(k, 0)} < {m}")
        if agg["cases"] == 0 or distinct < 2:
            error("nothing observed")
        if len(agg["incon"]) * 5 > agg["cases"]:
            error(f"too many inconclusive cases: {agg['incon'][:3]}")
    return 0


if __name__ == "__main__":
    main()
