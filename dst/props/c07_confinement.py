"""C07: a run of the submitter changes only the outputs it was asked to produce, in its own run directory."""
import hashlib
import os
import random
from pathlib import Path

from dst import flow
from dst.cluster import Cluster
from dst.kernel import Done

ID = "C07"
TITLE = "A run changes only what it was asked to, in its own run directory"
RULE = ("a run is 1-3 rounds of 1-2 concurrent submitters on a tree with a finished run (some outputs removed), new run "
        "directories and run directories linked to the finished one; random tasks, execution modes, overwrite and keep flags, "
        "a failing piece of work, death or a disk error of the submitter; the whole tree is compared before and after each "
        "round; non-trivial: an existing or linked directory was used or a fault fired; distinct: by event trace")
REAL = ("job_submitter, ForecastRunner/TaskRunner, WorkSpace, BsubInterface, generated job scripts, evaluate_final_results "
        "(batch part), densities and shot noise computation")
STUB = "LSF, clock, shell, compute program bodies (inputs checked, outputs copied; existing outputs kept as the real ones do)"
ASSUME = ["compute programs write where their arguments say (C05 runs the real ones)"]
N = {"quick": 190, "thorough": 20000}
OLD = b"old:"


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    ctx.data["gold"] = flow.golden(ctx)


def invocation(rng, names, j):
    have = [n for n in names]
    new = rng.random() < 0.35
    inv = {"id": f"n{j}", "ex": rng.choice(["interactive", "interactive", "batch", "batch", "no"]),
           "ow": rng.random() < 0.4, "keep": rng.random() < 0.35, "plan": {}, "fault": None, "ext": {}}
    if new:
        inv["target"] = None
        kind = rng.choice(["full", "ext-cl", "ext-cl", "ext-der", "both"])
        base = rng.choice(have)
        if kind == "full":
            inv["tasks"] = rng.choice([["-cl", "-der", "-fish"], ["-cl", "-der"], ["-cl"]])
        elif kind == "ext-cl":
            inv["tasks"], inv["ext"] = rng.choice([["-der", "-fish"], ["-der"]]), {"cl": base}
        elif kind == "ext-der":
            inv["tasks"], inv["ext"] = ["-cl", "-fish"], {"der": base}
        else:
            inv["tasks"], inv["ext"] = ["-fish"], {"cl": base, "der": base}
    else:
        inv["target"] = rng.choice(have)
        inv["tasks"] = rng.choice([["-cl"], ["-der"], ["-fish"], ["-fish"], ["-der", "-fish"], ["-cl", "-der", "-fish"],
                                   ["-cl", "-der"]])
    if rng.random() < 0.3:
        st = {"-cl": "cls", "-der": "der", "-fish": "fish"}[rng.choice(inv["tasks"])]
        inv["plan"] = {"stage": st, "pick": rng.getrandbits(16), "fail": rng.choice(["exit-silent", "exit-stderr", "late-exit-silent"])}
    elif rng.random() < 0.3:
        inv["fault"] = {"nth": rng.randrange(1, 160), "act": rng.choice(["crash", "crash", "enospc", "eio"])}
    return inv


def gen(rng, i, ctx):
    names, rounds, j = ["A"], [], 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = []
        for _ in range(rng.choice([1, 1, 2])):
            inv = invocation(rng, names, j)
            if inv["target"] in [x["target"] for x in r if x["target"]]:
                continue
            r.append(inv)
            j += 1
        rounds.append(r)
        names += [x["id"] for x in r if x["target"] is None]
    return {"rounds": rounds, "drop": [d for d in ("results", "vars", "cross", "auto") if rng.random() < 0.3],
            "jobseed": rng.getrandbits(30), "cwd": rng.choice(["same", "own"]), "links": rng.random() < 0.5}


class Keep(flow.Units):
    """Existing Fisher matrices are kept and existing results refused unless overwriting, as the real programs do."""

    def outputs(self, st, u, rd, wd):
        self.places.append((st, u, str(rd)))
        if st == "fish" and (rd / "base_fishers" / f"fisher_{u}.hdf5").exists():
            return
        super().outputs(st, u, rd, wd)

    def body(self, k, st, name, argv, cwd, env):
        if st == "res" and "batch" not in argv[1:]:
            rd = Path(cwd, flow.opt(argv, "-i", "--input_rundirs"))
            ow = flow.opt(argv, "-ow", "--overwrite") == "True"
            k.log("results-called", str(rd), ow)
            if not ow and any(p.is_file() and p.suffix == ".hdf5" for p in (rd / "final_results").glob("*/*/*")):
                self.places.append((st, "results", str(rd)))
                return Done(1, b"", b"FileExistsError: results exist\n")
        return (yield from super().body(k, st, name, argv, cwd, env))


def tree(root):
    """{path: (kind, identity)} of everything below root, links not followed."""
    out = {}
    stack = [str(root)]
    while stack:
        d = stack.pop()
        for e in os.scandir(d):
            if e.is_symlink():
                out[e.path] = ("link", os.readlink(e.path))
            elif e.is_dir():
                out[e.path] = ("dir",)
                if e.name != ".tmp":
                    stack.append(e.path)
            else:
                with open(e.path, "rb") as f:
                    out[e.path] = ("file", hashlib.sha1(f.read()).hexdigest())
    return out


def run(k, sc, ctx, root):
    gold, dvs = ctx.data["gold"], ctx.data["dvs"]
    jr = random.Random(sc["jobseed"])
    flow.setup(k, ctx)
    drop = {"results": ["final_results"], "vars": ["Angular/dvar_w0*"], "auto": ["auto_fisher_of_ells.h5", "base_fishers/fisher_*"],
            "cross": [f"base_fishers/fisher_{d}.hdf5" for d in dvs[3:]]}
    A = flow.clone_run(root, gold, drop=[p for d in sc["drop"] for p in drop[d]], name="A")
    inp = root / "in"
    for pat in ("base_fishers/*.hdf5", "final_results/*/*/*", "auto_fisher_of_ells.h5"):
        for p in A.glob(pat):
            p.write_bytes(OLD + str(p.relative_to(A)).encode())
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    work = root / "work"
    dirs = {"A": A}
    u = Keep(k, ctx, gold, {}, default_dt=1.0, strict=True)
    u.places = []
    Cluster(k, lambda i, cmd: {"body": "real", "pend": jr.random() * 4, "run": jr.random() * 5, "visible": jr.choice([0, 0, 3])})
    V, used_old = [], False

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    for n, rnd in enumerate(sc["rounds"]):
        pids, faults = [], []
        u.plan, u.places = {}, []
        mark = len(k.hist)
        rnd = [dict(x) for x in rnd if (x["target"] is None or x["target"] in dirs) and all(b in dirs for b in x["ext"].values())]
        for x in rnd:
            x["_cwd"] = work if sc["cwd"] == "same" else root / f"cwd{n}-{x['id']}"
            x["_cwd"].mkdir(exist_ok=True)
        before = tree(root)
        for x in rnd:
            exp = flow.expected_units(["w0"], x["tasks"], dvs)
            if x["plan"] and len(rnd) == 1:
                us = sorted(exp[x["plan"]["stage"]])
                u.plan[f"{x['plan']['stage']}/{us[x['plan']['pick'] % len(us)]}"] = {"fail": x["plan"]["fail"], "dt": 2}
            if x["fault"]:
                faults.append(dict(x["fault"], proc=f"js-{x['id']}", kind="*", match="*", _n=0, _fired=False))
            extra = ["-id", x["id"]]
            for t, b in x["ext"].items():
                extra += [f"-{t}_dir", str(dirs[b] / {"cl": "Angular", "der": "Derivative"}[t])]
            extra += ["-ow"] * x["ow"] + ["--keep_cl_variations"] * x["keep"]
            pids.append(k.spawn_script("job_submitter", flow.js_args(inp, x["ex"], x["tasks"], extra=extra,
                                       rundir=None if x["target"] is None else dirs[x["target"]]), x["_cwd"], label=f"js-{x['id']}"))
        k.faults = faults
        if not pids:
            continue
        ds = k.wait(*pids)
        ds = [ds] if len(pids) == 1 else ds
        k.drain()
        k.faults = []
        after = tree(root)
        for x, d in zip(rnd, ds):
            if x["target"] is None:
                mine = sorted(p for p in x["_cwd"].iterdir() if p.is_dir() and not p.is_symlink() and p.name.startswith(x["id"] + "_"))
                x["_new"] = mine[0] if mine else None
                if len(mine) > 1:
                    bad("two-run-directories", f"one submitter made {[p.name for p in mine]}")
                if mine and (mine[0] / "run_metadata.json").exists():      # its preparation was not cut short
                    dirs[x["id"]] = mine[0]
            x["_dir"] = dirs[x["target"]] if x["target"] else x["_new"]
            x["_fired"] = [f for f in faults if f["_fired"] and (f["proc"] == f"js-{x['id']}" or f["act"] == "crash")]
            x["_broke"] = bool(x["_fired"]) or any(y[2] == "unit-end" and y[5] != 0 for y in k.hist[mark:])
        # 1. everything that changed belongs to one of the submitters of this round
        for p in sorted(set(before) | set(after)):
            a, b = before.get(p), after.get(p)
            if a == b:
                continue
            what = "changed" if a and b else "removed" if a else "created"
            if not any(allowed(x, Path(p), a, b) for x in rnd):
                bad("foreign-change", f"round {n + 1}, {[desc(x) for x in rnd]}: {k.rel(p)} was {what}")
                break
        # 2. the work was done in the right place, and only the work asked for
        for st, unit, rd in u.places:
            if not any(x["_dir"] is not None and os.path.realpath(rd) == os.path.realpath(x["_dir"]) and x["ex"] != "no"
                       and st in flow.expected_units(["w0"], x["tasks"], dvs) for x in rnd):
                bad("work-elsewhere", f"round {n + 1}: {st} {unit} was run for {k.rel(rd)}, which nobody asked for")
                break
        # 3. what each submitter promises
        for x, d in zip(rnd, ds):
            rd = x["_dir"]
            if rd is None:
                if d.rc == 0:
                    bad("no-run-directory", f"{desc(x)} exited with status 0 without a run directory")
                continue
            linked = [t for t in ("Angular", "Derivative") if (rd / t).is_symlink()]
            own = {"-cl": "Angular", "-der": "Derivative"}
            into_link = [t for t in x["tasks"] if own.get(t) in linked]
            used_old |= x["target"] is not None or bool(x["ext"])
            if into_link and d.rc == 0:
                bad("recomputed-linked", f"{desc(x)} exited with status 0 although {own[into_link[0]]} belongs to another run")
            for p, a in before.items():
                if a[0] != "file" or not p.startswith(f"{rd}/"):
                    continue
                rel = p[len(str(rd)) + 1:]
                fish = rel.startswith(("base_fishers/fisher_", "final_results/")) or rel == "auto_fisher_of_ells.h5"
                gone, now = p not in after, after.get(p)
                if fish and not x["ow"] and now != a and "IST" not in rel:
                    bad("overwritten-unasked", f"{desc(x)}: {rel} was {'removed' if gone else 'replaced'} without being asked to")
                    break
                if gone and rel.startswith("Angular/dvar_") and not (d.rc == 0 or x["_fired"]):
                    bad("deleted-after-failure", f"{desc(x)} failed ({d.rc}) and deleted {rel}")
                    break
                if gone and rel.startswith("Angular/dvar_") and (x["keep"] or x["ex"] == "no" or "dvar_central" in rel):
                    bad("deleted-unasked", f"{desc(x)} deleted {rel}")
                    break
            if d.rc == 0 and x["ex"] != "no":
                if "-fish" in x["tasks"]:
                    miss = [v for v in dvs if not (rd / "base_fishers" / f"fisher_{v}.hdf5").exists()]
                    if miss or not list(rd.glob("final_results/*/*/*.hdf5")):
                        bad("missing-output", f"{desc(x)} exited with status 0 without {miss or 'final results'}")
                    if x["ow"]:
                        left = [str(p.relative_to(rd)) for pat in ("base_fishers/*.hdf5", "final_results/*/*/*", "auto*.h5")
                                for p in rd.glob(pat) if p.read_bytes()[:4] == OLD]
                        if left:
                            bad("not-overwritten", f"{desc(x)} was to overwrite results but kept {left[:3]}")
                if "-cl" in x["tasks"]:
                    vs = list(rd.glob("Angular/dvar_w0_*"))
                    if x["keep"] and len(vs) != len(flow.STEPS):
                        bad("deleted-unasked", f"{desc(x)} was to keep the varied spectra but {len(vs)} are left")
                    if not x["keep"] and vs:
                        bad("not-cleaned", f"{desc(x)} left {len(vs)} directories of varied spectra")
            if x["ex"] == "no" and d.rc == 0 and "-cl" in x["tasks"]:
                if len(list(rd.glob("Angular/dvar_w0_*/job_*.sh"))) < len(flow.STEPS):
                    bad("not-prepared", f"{desc(x)} left no job scripts to execute")
            if d.rc != 0 and not x["_broke"] and not into_link and not expected_failure(x, rd, before, dirs):
                bad("clean-run-fails", f"{desc(x)} failed ({d.rc}) although nothing was wrong: ...{d.text[-400:]}")
        if V:
            break
        k.advance(3.0)
    k.nontrivial = bool(k.fired) or used_old
    k.note = "; ".join(desc(x) for r in sc["rounds"] for x in r)
    return V


def desc(x):
    return (f"{x['id']}: {' '.join(x['tasks'])} -ex {x['ex']} on {x['target'] or 'a new directory'}"
            + (f" with {x['ext']}" if x["ext"] else "") + " -ow" * x["ow"] + " keep" * x["keep"])


def expected_failure(x, rd, before, dirs):
    """Failures that are the right answer: a linked directory is not there, or results exist and may not be replaced."""
    if any(str(dirs[b] / {"cl": "Angular", "der": "Derivative"}[t]) not in before for t, b in x["ext"].items()) or \
            ("cl" in x["ext"] and str(dirs[x["ext"]["cl"]] / "delta_cls.h5") not in before):
        return True
    if x["ex"] == "no":
        return False
    if "-fish" in x["tasks"] and not x["ow"] and any(p.startswith(f"{rd}/final_results/") and p.endswith(".hdf5") for p in before):
        return True
    return False


def allowed(x, p, a, b):
    rd = x["_dir"]
    if p.parent == x["_cwd"] and p.name.startswith("logfile_"):
        return True
    if rd is None:
        return False
    try:
        rel = p.relative_to(rd)
    except ValueError:
        return False
    if x["target"] is None:
        return True
    top = rel.parts[0]
    name = p.name.lstrip(".")
    if len(rel.parts) == 1 and name.startswith(("run_metadata.json", "logfile_")):
        return True
    if "-cl" in x["tasks"] and (top == "Angular" or name.startswith(("norm_densities.hdf5", "delta_cls.h5"))):
        return not (a and a[0] == "link") and not (b and b[0] == "link")
    if "-der" in x["tasks"] and top == "Derivative":
        return True
    return "-fish" in x["tasks"] and x["ex"] != "no" and (
        top in ("base_fishers", "final_results") or name.startswith("auto_fisher_of_ells.h5"))


def shrink(sc):
    rs = sc["rounds"]
    for i in range(len(rs)):
        yield dict(sc, rounds=rs[:i] + rs[i + 1:])
    for i, r in enumerate(rs):
        if len(r) > 1:
            for j in range(len(r)):
                yield dict(sc, rounds=rs[:i] + [r[:j] + r[j + 1:]] + rs[i + 1:])
        for j, x in enumerate(r):
            for ch in ({"fault": None}, {"plan": {}}, {"ow": False}, {"keep": False}, {"ex": "interactive"}):
                if any(x[a] != b for a, b in ch.items()):
                    yield dict(sc, rounds=rs[:i] + [r[:j] + [dict(x, **ch)] + r[j + 1:]] + rs[i + 1:])
    for d in sc["drop"]:
        yield dict(sc, drop=[y for y in sc["drop"] if y != d])
