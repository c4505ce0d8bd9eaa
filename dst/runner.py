"""Checks, replay, minimisation, evidence.  One zygote process imports everything once; every
simulated run is a fresh fork of it."""
import argparse
import importlib
import json
import os
import pickle
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get("DST_REPO", "/repo")
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.json"
FIXED_ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
             "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
             "NUMEXPR_NUM_THREADS": "1", "MPLBACKEND": "Agg", "QT_QPA_PLATFORM": "offscreen", "TZ": "UTC",
             "PYTHONNOUSERSITE": "1", "HOME": "/root", "USER": "simuser", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}
r_time, r_sleep = _time.time, _time.sleep
WORKERS = int(os.environ.get("DST_WORKERS", "8"))
RUN_WALL = 150.0


class Ctx:
    """What a check prepares once and every run shares (read-only)."""

    def __init__(self, base, tier):
        self.base = Path(base)
        self.tier = tier
        self.data = {}


def load(pid):
    names = [p.stem for p in (VERIF / "dst" / "props").glob("c*.py") if p.stem.startswith(pid.lower())]
    if not names:
        raise SystemExit(f"no such property {pid}")
    return importlib.import_module(f"dst.props.{names[0]}")


def boot():
    """Import third-party modules, patch, then import the repository."""
    import warnings
    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    import numpy, pandas, h5py, scipy.interpolate, scipy.integrate  # noqa: F401,E401
    import logging, shutil, argparse, configparser, getpass, socket, platform, runpy  # noqa: F401,E401
    import pandas.io.formats.format, pandas.io.pickle  # noqa: F401,E401
    from . import seam
    seam.install()
    import seyfert.main.task_runners, seyfert.main.seyfert_core, seyfert.main.orchestration  # noqa: F401,E401
    import seyfert.main.report_maker, seyfert.fisher.results_collector  # noqa: F401,E401
    import seyfert.config.cmd_line  # noqa: F401
    assert Path(sys.modules["seyfert"].__file__).resolve().is_relative_to(Path(REPO).resolve()), "wrong seyfert"
    h = logging.getLogger()
    for x in list(h.handlers):
        h.removeHandler(x)
    import gc
    gc.collect()
    gc.freeze()


# --------------------------------------------------------------------------------- one run
def one_run(prop, sc, ctx, root):
    """Execute one scenario in this process; returns a plain dict."""
    from .kernel import Kernel, Livelock, SimError, Stall
    root = Path(root)
    root.mkdir(parents=True, exist_ok=True)
    k = Kernel(sc, str(root))
    res = {"violations": [], "error": None}
    t = r_time()
    try:
        res["violations"] = prop.run(k, sc, ctx, root) or []
    except Livelock as e:
        res["violations"] = [{"class": "no-progress", "sig": "no-progress",
                              "msg": f"work was still going on when the step/simulated-time bound was reached ({e})"}]
    except Stall as e:
        res["error"] = f"stall: {e} reached no seam for {k.stall_s:.0f} s of wall time"
        res["stall"] = True
    except SimError as e:
        res["error"] = f"SimError: {e}"
    except Exception:
        res["error"] = traceback.format_exc()
    finally:
        k.close()
    if k.unsupported and not res["violations"]:
        res["error"] = res["error"] or f"unsupported by the simulator: {sorted(set(k.unsupported))}"
    res.update(digest=k.digest(), fired=k.fired, counters=k.counters, sim_s=k.mono, steps=k.steps,
               ops=k.op_counts, switches=k.switches, listings=k.listings, containment=k.containment,
               key=getattr(k, "state_key", None), nontrivial=getattr(k, "nontrivial", bool(k.fired)),
               wall=r_time() - t, op_log=k.op_log, note=getattr(k, "note", None),
               trace=k.trace if sc.get("_keep_trace") else None)
    return res


class Pool:
    """Runs scenarios in forked workers, results by index."""

    def __init__(self, prop, ctx, workers=WORKERS):
        self.prop, self.ctx, self.workers = prop, ctx, workers
        self.n = 0

    def _start(self, sc):
        self.n += 1
        d = self.ctx.base / f"w{self.n:06d}"
        d.mkdir()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                from .kernel import _die_with_parent
                _die_with_parent()
                if sc.get("hashseed"):           # string hashing is fixed per interpreter: start another one
                    (d / "scenario.json").write_text(json.dumps(sc))
                    with open(self.ctx.base / f"ctx-{d.name}.pkl", "wb") as f:
                        pickle.dump((self.ctx.tier, self.ctx.data), f)
                    env = dict(os.environ, DST_HASHSEED=str(sc["hashseed"]), PYTHONHASHSEED=str(sc["hashseed"]))
                    os.chdir(VERIF)
                    os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "dst.runner", "sub", self.prop.ID,
                                               str(self.ctx.base), str(d)], env)
                res = one_run(self.prop, sc, self.ctx, d / "r")
                with open(d / "result.tmp", "wb") as f:
                    pickle.dump(res, f)
                os.rename(d / "result.tmp", d / "result")
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        return pid, d, r_time()

    def _collect(self, pid, d):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            with open(d / "result", "rb") as f:
                res = pickle.load(f)
        except (OSError, EOFError):
            res = {"violations": [], "error": "worker died without a result"}
        shutil.rmtree(d, ignore_errors=True)
        return res

    def map(self, scenarios, stop=None, deadline=None):
        """Yield (index, scenario, result) as they complete."""
        it = enumerate(scenarios)
        active, exhausted = {}, False
        while True:
            while not exhausted and len(active) < self.workers and not (stop and stop()) \
                    and not (deadline and r_time() > deadline):
                try:
                    i, sc = next(it)
                except StopIteration:
                    exhausted = True
                    break
                pid, d, t = self._start(sc)
                active[pid] = (i, sc, d, t)
            if not active:
                return
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                now = r_time()
                for q, (i, sc, d, t) in list(active.items()):
                    if now - t > RUN_WALL:
                        os.killpg(q, signal.SIGKILL)
                        os.waitpid(q, 0)
                        del active[q]
                        shutil.rmtree(d, ignore_errors=True)
                        yield i, sc, {"violations": [], "error": "wall limit", "stall": True}
                r_sleep(0.002)
                continue
            if pid in active:
                i, sc, d, _ = active.pop(pid)
                yield i, sc, self._collect(pid, d)

    def run1(self, sc):
        return next(iter(self.map([sc])))[2]


# ------------------------------------------------------------------------------ minimising
def default_shrink(sc):
    fs = sc.get("faults", [])
    for i in range(len(fs)):
        yield dict(sc, faults=fs[:i] + fs[i + 1:])


def minimise(prop, pool, sc, cls, budget_runs=80, budget_s=float(os.environ.get("DST_MINIMISE_S", "60"))):
    shrink = getattr(prop, "shrink", default_shrink)
    t0, n, cur = r_time(), 0, sc
    changed = True
    while changed and n < budget_runs and r_time() - t0 < budget_s:
        changed = False
        cands = list(shrink(cur))
        for j in range(0, len(cands), pool.workers):
            batch = cands[j:j + pool.workers]
            got = {}
            for i, _, r in pool.map(batch):
                n += 1
                if any(v["class"] == cls for v in r["violations"]):
                    got[i] = True
            if got:
                cur = batch[min(got)]
                changed = True
                break
            if n >= budget_runs or r_time() - t0 > budget_s:
                break
    return cur, n


# ----------------------------------------------------------------------------- known findings
def known_for(pid):
    if not KNOWN.exists():
        return []
    return [f for f in json.loads(KNOWN.read_text())["findings"] if f["property"] == pid and f["status"] == "known"]


def is_known(v, kf):
    return next((f for f in kf if f["class"] == v["class"] and re.search(f["match"], v.get("sig", "") + " " + v["msg"])),
                None)


# ----------------------------------------------------------------------------------- check
def scenarios(prop, ctx, seed, n):
    for i in range(n):
        rng = random.Random(f"{seed}/{prop.ID}/{i}")
        sc = prop.gen(rng, i, ctx)
        sc.setdefault("sched_seed", rng.getrandbits(32))
        sc["property"] = prop.ID
        sc["origin"] = {"seed": seed, "index": i}
        yield json.loads(json.dumps(sc))


def make_ctx(prop, tier):
    """Scratch space plus whatever the property prepares.  When the fault-free reference run the
    property starts from fails, that is itself the violation (ctx.data["broken"])."""
    from .flow import GoldenFailed
    base = tempfile.mkdtemp(prefix="seyfert-dst-")
    ctx = Ctx(os.path.realpath(base), tier)
    if hasattr(prop, "prepare"):
        try:
            prop.prepare(ctx)
        except GoldenFailed as e:
            ctx.data["broken"] = str(e)
        except BaseException:
            shutil.rmtree(ctx.base, ignore_errors=True)
            raise
    return ctx


def broken_result(ctx):
    return {"class": "fault-free-run-fails", "sig": "fault-free-run-fails", "msg": ctx.data["broken"]}


def check(pid, tier, seed, n_override=None):
    t0 = r_time()
    prop = load(pid)
    print(f"[{pid}] {prop.TITLE}; tier={tier} VERIF_SEED={seed}", flush=True)
    boot()
    ctx = None
    try:
        ctx = make_ctx(prop, tier)
        pool = Pool(prop, ctx)
        n = n_override or prop.N[tier]
        cap = {"quick": 420, "thorough": 3600 * 3}[tier]
        deadline = t0 + cap
        kf = known_for(pid)
        agg = {"runs": 0, "sim_s": 0.0, "steps": 0, "switches": 0, "listings": 0, "fired": {}, "ops": {}, "counters": {}}
        digests, keys, samples, found, errors, stalls, known_hit = set(), set(), [], [], [], [], {}
        t_run = r_time()
        if "broken" in ctx.data:
            found.append((0, {"property": prop.ID, "origin": {"seed": seed, "index": 0}}, broken_result(ctx)))
            n = 0
        for i, sc, r in pool.map(scenarios(prop, ctx, seed, n), stop=lambda: bool(found), deadline=deadline):
            if r.get("stall"):
                stalls.append((i, sc, r))
                continue
            if r["error"]:
                errors.append((i, sc, r["error"]))
                if len(errors) > 10:
                    break
                continue
            agg["runs"] += 1
            for f in ("sim_s", "steps", "switches", "listings"):
                agg[f] += r[f]
            for f in ("fired", "ops", "counters"):
                for a, b in r[f].items():
                    agg[f][a] = agg[f].get(a, 0) + b
            digests.add(r["digest"])
            if r["nontrivial"]:
                keys.add(r["key"] if r["key"] is not None else r["digest"])
            if len(samples) < 3 and r["nontrivial"]:
                samples.append({"scenario": sc, "fired": r["fired"], "simulated_s": round(r["sim_s"], 1), "note": r["note"]})
            for v in r["violations"]:
                f = is_known(v, kf)
                if f:
                    known_hit.setdefault(f["id"], (f, v))
                else:
                    found.append((i, sc, v))
        t_run = r_time() - t_run
        for i, sc, r in stalls:                      # alone, twice: a hang is a verdict only if it repeats
            again = [pool.run1(sc) for _ in range(2)]
            if all(a.get("stall") for a in again):
                found.append((i, sc, {"class": "hang", "sig": "hang",
                                      "msg": "a process computes for ever without doing anything observable: " + str(r["error"])}))
            elif any(a["error"] for a in again):
                errors.append((i, sc, str(again[0]["error"])))
        truncated = agg["runs"] + len(errors) + len(stalls) < n and not found
        determinism = {"rechecked": 0, "mismatches": 0}
        if not found:
            again = list(scenarios(prop, ctx, seed, min(3, n)))
            first = {}
            for rep in range(2):
                for i, sc, r in pool.map(again):
                    if r["error"]:
                        continue
                    if rep == 0:
                        first[i] = r["digest"]
                    elif i in first:
                        determinism["rechecked"] += 1
                        determinism["mismatches"] += first[i] != r["digest"]
        replay, viol_lines = None, []
        if found:
            found.sort(key=lambda x: x[0])
            i, sc, v = found[0]
            if "broken" in ctx.data:
                small, tries, vs = sc, 0, [v]
            else:
                small, tries = minimise(prop, pool, sc, v["class"])
                r = pool.run1(small)
                vs = [x for x in r["violations"] if x["class"] == v["class"]]
            if not vs:
                small, vs = sc, [v]
            replay = write_replay(prop, small, vs[0], tries)
            rc = subprocess.run([sys.executable, "-m", "dst.runner", "replay", str(replay)], cwd=VERIF,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            confirmed = rc.returncode == 1
            print(f"[{pid}] violation ({v['class']}): {vs[0]['msg']}")
            print(f"[{pid}] minimised in {tries} runs; replay in a fresh process "
                  f"{'reproduces it' if confirmed else 'DID NOT reproduce it: ' + rc.stdout[-600:]}")
            viol_lines.append(f"VIOLATION property={pid} replay={replay}")
        wall = r_time() - t0
        ev = evidence(prop, tier, seed, agg, digests, keys, samples, determinism, errors, wall, t_run, len(found),
                      known_hit, truncated)
        EVIDENCE.mkdir(exist_ok=True)
        tmp = EVIDENCE / f".{pid}.tmp"
        tmp.write_text(json.dumps(ev, indent=1, default=str))
        os.replace(tmp, EVIDENCE / f"{pid}.json")
        for f, v in known_hit.values():
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        for line in viol_lines:
            print(line, flush=True)
        if viol_lines:
            return 1
        if errors:
            print(f"[{pid}] harness errors: {len(errors)}; first (run {errors[0][0]}): {errors[0][2]}", file=sys.stderr)
            print(json.dumps(errors[0][1])[:2000], file=sys.stderr)
            return 3
        if truncated and tier == "quick" and agg["runs"] < n // 3:
            print(f"[{pid}] only {agg['runs']} of {n} runs fitted in {cap} s", file=sys.stderr)
            return 4
        print(f"[{pid}] held on {agg['runs']} simulated runs ({len(keys)} distinct non-trivial) in {wall:.1f} s; "
              f"faults fired: {agg['fired']}; determinism {determinism}", flush=True)
        return 0
    finally:
        if ctx is not None:
            shutil.rmtree(ctx.base, ignore_errors=True)


def write_replay(prop, sc, v, tries):
    d = EVIDENCE / "replays"
    d.mkdir(parents=True, exist_ok=True)
    o = sc.get("origin", {})
    path = d / f"{prop.ID}-seed{o.get('seed')}-run{o.get('index')}.json"
    path.write_text(json.dumps({"property": prop.ID, "violation": v, "scenario": sc, "minimise_runs": tries}, indent=1))
    return path


def evidence(prop, tier, seed, agg, digests, keys, samples, determinism, errors, wall, t_run, nviol, known_hit, truncated):
    per_h = 3600.0 / max(t_run, 1e-6)
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": len(keys), "rule": prop.RULE,
           "samples": samples or [{"note": "no non-trivial run"}],
           "distinct_event_traces": len(digests), "simulated_runs_and_seeds_per_hour": round(agg["runs"] * per_h),
           "simulated_seconds": round(agg["sim_s"], 1),
           "kernel_steps": agg["steps"], "context_switches": agg["switches"], "directory_listings_permuted": agg["listings"],
           "faults_fired": agg["fired"], "seam_operations": agg["ops"], "probes": agg["counters"],
           "determinism_recheck": determinism, "truncated_by_wall_clock": truncated,
           "real_components": getattr(prop, "REAL", ""), "stubbed_components": getattr(prop, "STUB", ""),
           "known_findings_seen": [f["id"] for f, _ in known_hit.values()], "harness_errors": len(errors)}
    return {"property": prop.ID, "tier": tier, "seed": seed, "level": getattr(prop, "LEVEL", "exploration"),
            "coverage": cov, "assumptions": getattr(prop, "ASSUME", []), "wall_s": round(wall, 2), "violations": nviol}


def replay(path):
    data = json.loads(Path(path).read_text())
    prop = load(data["property"])
    boot()
    ctx = make_ctx(prop, "quick")
    try:
        if "broken" in ctx.data:
            print(f"violation: {ctx.data['broken']}")
            same = data["violation"]["class"] == "fault-free-run-fails"
            print("reproduced" if same else "NOT reproduced")
            return 1 if same else 3
        if data["violation"]["class"] == "fault-free-run-fails":
            print("NOT reproduced")
            return 0
        r = Pool(prop, ctx).run1(data["scenario"])
        if r["error"] and not r["violations"]:
            print(f"replay error: {r['error']}")
            if r.get("stall") and data["violation"]["class"] == "hang":
                print(f"reproduced: hang")
                return 1
            return 3
        for v in r["violations"]:
            print(f"violation ({v['class']}): {v['msg']}")
        same = [v for v in r["violations"] if v["class"] == data["violation"]["class"]]
        print("reproduced" if same else "NOT reproduced", "digest", r["digest"])
        return 1 if same else 0
    finally:
        shutil.rmtree(ctx.base, ignore_errors=True)


def trace(pid, seed, index, out):
    prop = load(pid)
    boot()
    ctx = make_ctx(prop, "quick")
    try:
        sc = list(scenarios(prop, ctx, seed, index + 1))[index]
        sc["_keep_trace"] = True
        r = Pool(prop, ctx).run1(sc)
        print(json.dumps(sc, indent=1))
        for e in r.get("trace") or []:
            print(e)
        print({a: b for a, b in r.items() if a not in ("trace", "op_log")})
    finally:
        shutil.rmtree(ctx.base, ignore_errors=True)


def sub_run(pid, base, d):
    """One scenario in an interpreter of its own (see Pool._start)."""
    prop = load(pid)
    boot()
    ctx = Ctx(base, "quick")
    p = ctx.base / f"ctx-{d.name}.pkl"
    with open(p, "rb") as f:
        ctx.tier, ctx.data = pickle.load(f)
    p.unlink()
    res = one_run(prop, json.loads((d / "scenario.json").read_text()), ctx, d / "r")
    with open(d / "result.tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(d / "result.tmp", d / "result")
    sys.stdout.flush()
    os._exit(0)


def digests(pid, seed, n, workers):
    """Determinism proof: print index + digest for n scenarios."""
    prop = load(pid)
    boot()
    ctx = make_ctx(prop, "quick")
    try:
        out = {}
        for i, sc, r in Pool(prop, ctx, workers).map(scenarios(prop, ctx, seed, n)):
            out[i] = r.get("digest") or r["error"]
        for i in sorted(out):
            print(i, out[i])
    finally:
        shutil.rmtree(ctx.base, ignore_errors=True)


def main():
    for a, b in FIXED_ENV.items():
        if a == "PYTHONHASHSEED" and os.environ.get("DST_HASHSEED"):
            b = os.environ["DST_HASHSEED"]
        if os.environ.get(a) != b:
            env = dict(os.environ, **FIXED_ENV)
            if os.environ.get("DST_HASHSEED"):
                env["PYTHONHASHSEED"] = os.environ["DST_HASHSEED"]
            os.execve(sys.executable, [sys.executable, "-W", "ignore", "-m", "dst.runner"] + sys.argv[1:], env)
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("pid")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("-n", type=int, default=None)
    c = sub.add_parser("replay")
    c.add_argument("path")
    c = sub.add_parser("trace")
    c.add_argument("pid")
    c.add_argument("index", type=int)
    c.add_argument("--seed", type=int, default=1)
    c = sub.add_parser("sub")
    c.add_argument("pid")
    c.add_argument("base")
    c.add_argument("dir")
    c = sub.add_parser("digests")
    c.add_argument("pid")
    c.add_argument("-n", type=int, default=20)
    c.add_argument("--seed", type=int, default=1)
    c.add_argument("--workers", type=int, default=8)
    a = ap.parse_args()
    if a.cmd == "check":
        sys.exit(check(a.pid, a.tier, a.seed, a.n))
    if a.cmd == "replay":
        sys.exit(replay(a.path))
    if a.cmd == "trace":
        trace(a.pid, a.seed, a.index, None)
    if a.cmd == "sub":
        sub_run(a.pid, a.base, Path(a.dir))
    if a.cmd == "digests":
        digests(a.pid, a.seed, a.n, a.workers)


if __name__ == "__main__":
    main()
