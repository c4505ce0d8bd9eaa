"""C14: an orchestration makes every run of its grid once, whatever happens to the others."""
import json
import os
import random
import re
import shutil
from pathlib import Path

from dst import fixtures as fx, flow
from dst.cluster import Cluster

ID = "C14"
TITLE = "An orchestration makes each run of its grid once and says which ones failed"
RULE = ("a run is one orchestration of 1-6 forecasts (forecast, angular and Fisher configurations x power spectra), all tasks or "
        "some of them on external directories, or of 1-4 existing run directories, interactive or batch, some with an "
        "ambiguous or incomplete configuration, next to the directories "
        "of earlier runs, with failing units, killed or dying submitters, refused submissions, disk errors and clock steps; "
        "non-trivial: a fault or more than one forecast; distinct: by event trace")
REAL = "orchestrate_run, job_submitter and all submission code, generated job scripts, densities and shot noise"
STUB = "LSF, clock, shell, compute program bodies (inputs checked, outputs copied)"
ASSUME = ["configuration names have no spaces", "two runs with the same id do not start in the same second"]
N = {"quick": 110, "thorough": 12000}
CFGF = {"PowerSpectrum": "pmm_cfg", "Angular": "cl_cfg", "Derivative": "der_cfg", "Fisher": "fish_cfg"}
FC = ["lcdm", "lcdm_flat", "lcdm_4_sp_bins", "lcdm_40_sp_bins", "lcdm_12_sp_bins", "w0_1.0.0_2020-01-01T00-00-00", "b.c"]
REFUSE = ["two-pmm_cfg", "two-der_cfg", "two-res_cfg", "no-pmm_cfg", "no-der_cfg", "no-res_cfg", "no-fcfg", "no-cl_cfg", "no-fish_cfg",
          "lost-spectra", "no-spectra", "no-task", "no-execution", "wrong-pmms"]


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    ctx.data["gold"] = str(flow.golden(ctx))


def gen(rng, i, ctx):
    mode = rng.choice(["new"] * 5 + ["rundirs"] * 3 + ["ext"] * 2)
    sc = {"mode": mode, "ex": rng.choice(["interactive", "interactive", "batch"]), "jobseed": rng.getrandbits(30), "plan": {},
          "list": rng.choice(["args", "txt"]), "input": rng.choice(["option", "default", "option"]), "ini": rng.random() < 0.2,
          "flags": rng.choice([[], ["keep_cl_variations"], ["keep_cl_variations", "overwrite_results"]]),
          "old": rng.sample(["same", "longer", "file", "other", "plain"], rng.randrange(0, 4)), "q": rng.choice(["medium", "long"]),
          "op_dt": rng.choice([0, 0.0005, 0.01]), "jsfaults": [], "reject": None, "kill": None, "junk": rng.random() < 0.3, "steps": None}
    if mode == "new":
        while True:
            n = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 1, 2]), rng.choice([1, 1, 2]), rng.choice([1, 1, 2, 2])
            if n[0] * n[1] * n[2] * n[3] <= 6:
                break
        sc.update(fcfg=rng.sample(FC, n[0]), cl=n[1], fish=n[2], pmm=n[3], pmm_form=rng.choice(["txt", "dir"]) if n[3] == 1 else "txt",
                  pmm_names=rng.choice(["distinct", "same", "dated"]),
                  tasks=rng.choice([["-cl", "-der", "-fish"], ["-cl", "-der", "-fish"], ["-cl", "-der"], ["-cl"]]),
                  fcfg_by=rng.choice(["config", "config", "option"]), explicit_default=rng.random() < 0.5)
    elif mode == "ext":
        sc.update(fcfg=rng.sample(FC, rng.choice([1, 2, 3])), cl=1, fish=rng.choice([1, 2]), pmm=0, pmm_form=None, pmm_names=None,
                  tasks=rng.choice([["-fish"], ["-der", "-fish"]]), fcfg_by=rng.choice(["config", "option"]), explicit_default=False)
    else:
        sc.update(fcfg=[f"run_{x}" for x in "abcd"[:rng.choice([1, 2, 3, 4])]], cl=1, fish=1, pmm=0, pmm_form=None, pmm_names=None,
                  tasks=rng.choice([["-fish"], ["-der", "-fish"], ["-cl", "-der", "-fish"]]), fcfg_by="config", explicit_default=False)
        rng.shuffle(sc["fcfg"])
    if sc["fcfg_by"] == "option" and rng.random() < 0.4 and len(sc["fcfg"]) * sc["cl"] * sc["fish"] * max(1, sc["pmm"]) <= 4:
        sc["fcfg"].append(f"twin/{sc['fcfg'][0]}")     # another configuration with the same file name
    sc["refuse"] = REFUSE[i // 6 % len(REFUSE)] if i % 6 == 3 else None
    total = len(sc["fcfg"]) * sc["cl"] * sc["fish"] * max(1, sc["pmm"])
    c = rng.random()
    for _ in range(rng.choice([1, 1, 2])):
        r = str(rng.randrange(total))
        if c < 0.45:
            st = rng.choice([{"-cl": "cls", "-der": "der", "-fish": "fish"}[t] for t in sc["tasks"]] + ["res"])
            sc["plan"][f"{r}/{st}"] = {"fail": rng.choice(["exit-silent", "exit-stderr", "killed", "late-exit-silent"]),
                                       "at": rng.random()}
        elif c < 0.7:
            sc["jsfaults"].append({"run": int(r), "kind": rng.choice(["open_w", "mkdir", "open_r", "*"]),
                                 "match": rng.choice(["*.json", "*", "*/Angular*", "*"]), "nth": rng.choice([1, 1, 2, 4, 9, 30]),
                                 "act": rng.choice(["die", "die", "enospc", "eio", "eacces"])})
    if sc["ex"] == "batch" and c > 0.85:
        sc["reject"] = rng.randrange(1, 12 * total)
    elif sc["ex"] == "batch" and c > 0.75:
        sc["kill"] = rng.randrange(12 * total)
    if rng.random() < 0.15:
        sc["clock_steps"] = [[rng.choice([5, 60, 400]), rng.choice([-7200, 3600, -30])]]
    return sc


class Units(flow.Units):
    runs = None

    def plan_of(self, st, u, rd):
        i = self.runs(rd)
        p = self.plan.get(f"{i}/{st}", {})
        if p and self.first.setdefault((i, st), u) == u:
            return p
        return {}


def run(k, sc, ctx, root):
    from seyfert import VERSION
    gold = Path(ctx.data["gold"])
    jr = random.Random(sc["jobseed"])
    flow.setup(k, ctx)
    k.op_dt = sc["op_dt"]
    inp = flow.clone_inputs(ctx, root)
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    # -i tells where the input data are; without it, the environment does
    if sc["input"] == "option":
        shutil.move(inp / "data", inp / "given")
        (inp / "data").mkdir()
        k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
        data = inp / "given"
    else:
        k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
        data = inp / "data"
    work = root / "work"
    work.mkdir()
    runs = {}                  # run directory name -> its number, in order of appearance
    order = []
    u = Units(k, ctx, gold, sc["plan"], default_dt=1.0, strict=False)
    u.first = {}

    def number(rd):
        return runs.get(Path(os.path.realpath(rd)).name)
    u.runs = number
    rejects = {str(sc["reject"]): "reject"} if sc["reject"] else {}
    cl = Cluster(k, lambda i, cmd: {"body": "real", "pend": jr.random() * 5, "run": jr.random() * 3,
                                    "outcome": "kill" if sc["kill"] == i else "done"}, submit_faults=rejects)
    # ---- who starts: the submitter of each run is a real program, possibly one that dies
    started = []

    def submitter(k, argv, cwd, env):
        n = len(started)
        flt = [f for f in sc["jsfaults"] if f["run"] == n]
        label = f"js{n}"
        for f in flt:
            k.faults.append({"proc": label, "kind": f["kind"], "match": f["match"], "nth": f["nth"], "_n": 0, "_fired": False,
                             "act": f["act"]})
        before = {p.name for p in work.iterdir()}
        pid = k.spawn_script("job_submitter", argv[1:], cwd, env, label=label)
        started.append({"argv": argv[1:], "pid": pid, "before": before, "t": k.mono, "now": k.now})
        rec = started[-1]
        rec["d"] = d = yield ("wait", pid)
        return d
    k.programs["job_submitter"] = submitter

    def on_step():
        for p in work.glob("*/input_files_dict.json"):
            if p.parent.name not in runs and p.parent.name not in pre:
                runs[p.parent.name] = len(started) - 1
    # ---- configuration
    pmms = []
    for j in range(sc["pmm"]):
        nm = {"distinct": f"pk{j}", "same": "pk", "dated": f"pk{j}_{VERSION}_2020-02-03T04-05-06"}[sc["pmm_names"]]
        d = root / f"store{j}" / nm
        d.mkdir(parents=True)
        shutil.copytree(inp / "pmm" / "PowerSpectrum", d / "PowerSpectrum", symlinks=True)
        pmms.append(d / "PowerSpectrum")
    ccfg = ["-ccfg"]
    srcs = {}
    for n, (o, f) in {"PowerSpectrum": ("-pmm_cfg", "pmm"), "Angular": ("-cl_cfg", "angular"), "Derivative": ("-der_cfg", "derivative"),
                      "Fisher": ("-fish_cfg", "fisher")}.items():
        ccfg += [o, f"{inp}/cfg/{f}.json"]
        srcs[n] = f"{inp}/cfg/{f}.json"
    d = k.wait(k.spawn_script("orchestrate_run", ccfg, work))
    cdir = work / "config"
    if d.rc != 0 or not (cdir / "fcfg").is_dir():
        bad("config-tree", f"orchestrate_run -ccfg ended with status {d.rc}: ...{d.text[-300:]}")
        return V
    for n, s in CFGF.items():
        got = [p.read_bytes() for p in (cdir / s).iterdir()]
        if got != [Path(srcs[n]).read_bytes()]:
            bad("config-tree", f"config/{s} does not hold the {n} configuration that was given")
            return V
    tagged = {}
    for kind, s, f, n in (("cl", "cl_cfg", fx.angular_config, sc["cl"]), ("fish", "fish_cfg", fx.fisher_config, sc["fish"])):
        if n > 1:
            shutil.rmtree(cdir / s)
            for j in range(n):
                fx.write_json(cdir / s / f"{kind}_v{j}.json", f(tag=f"{kind}-{j}"))
        tagged[kind] = {p.read_bytes(): p.stem for p in (cdir / s).glob("*.json")}
    fdir = root / "fc"
    fdir.mkdir()
    fcs = {}
    for j, name in enumerate(sc["fcfg"]):
        p = (cdir / "fcfg" if sc["fcfg_by"] == "config" else fdir) / f"{name}.json"
        p.parent.mkdir(exist_ok=True)
        p = fx.write_json(p,
                          fx.forecast_config(free=["w0"], marg_sp=False, extra=f"F{j}"))
        fcs[p.read_bytes()] = name
    if sc["fcfg_by"] == "option":
        fx.write_json(cdir / "fcfg" / "unused.json", fx.forecast_config(free=["Omm"], marg_sp=False, extra="unused"))
    if sc["junk"]:
        for s in ("pmm_cfg", "der_cfg", "cl_cfg", "fcfg"):
            (cdir / s / ".aaa.swp").write_text("not a configuration")
    # ---- earlier runs
    base = re.sub(r"_\d\.\d\.\d_\d{4}.*", "", sc["fcfg"][0])
    if sc["mode"] != "rundirs":
        base += ("_fish_v0" if sc["fish"] > 1 else "") + ("_cl_v0" if sc["cl"] > 1 else "")
        base += "_pmm" if not pmms else "_pk" if sc["pmm_names"] == "same" else "_pk0"
    for o in [x for x in sc["old"] if sc["mode"] != "rundirs" or x != "plain"]:
        if o == "file":
            (work / f"{base}_notes.txt").write_text("x")
        else:
            nm = {"same": f"{base}_{VERSION}_2020-05-05T05-05-05", "longer": f"{base}er_{VERSION}_2020-05-05T05-05-05",
                  "other": f"zzz_{VERSION}_2020-05-05T05-05-05", "plain": base}[o]
            (work / nm).mkdir()
            (work / nm / "keep.txt").write_text("old")
    pre_rds = {}
    # ---- arguments
    args = ["-ex", sc["ex"], "-q", sc["q"], "-ncj", "2", "-mem", "2048"] + sc["tasks"]
    if sc["input"] == "option":
        args += ["-i", str(data)]
    if sc["flags"]:
        args += ["-af"] + sc["flags"]
    if sc["ini"]:
        (root / "o.ini").write_text("[config]\nqueue = fromini\n")
        args += ["-ini", str(root / "o.ini")]
    if sc["mode"] == "rundirs":
        for j, name in enumerate(sc["fcfg"]):
            drop = ["run_metadata.json"]
            if "-fish" in sc["tasks"]:
                drop += ["base_fishers", "auto_fisher_of_ells.h5", "final_results"]
            if "-der" in sc["tasks"]:
                drop += ["Derivative"]
            if "-cl" in sc["tasks"]:
                drop += ["Angular", "norm_densities.hdf5", "delta_cls.h5"]
            (root / "in").rename(root / "in_") if not j else None
            rd = flow.clone_run(root, gold, drop=drop, name=name)
            if not j:
                shutil.rmtree(root / "in") if (root / "in").exists() else None
                (root / "in_").rename(root / "in")
            (rd / "run_metadata.json").write_text(json.dumps({"run_id": name}))
            pre_rds[name] = rd
            runs[name] = j
        rds = [str(pre_rds[n]) for n in sc["fcfg"]]
        if sc["list"] == "txt":
            (root / "rds.txt").write_text("\n".join(rds) + "\n")
            rds = [str(root / "rds.txt")]
        args += ["-rds"] + rds
        if "-cl" in sc["tasks"]:
            args += ["-pmms", str(inp / "pmm" / "PowerSpectrum")]
    else:
        if pmms:
            if sc["pmm_form"] == "dir":
                args += ["-pmms", str(pmms[0])]
            else:
                (root / "pmms.txt").write_text("\n".join(map(str, pmms)) + "\n")
                args += ["-pmms", str(root / "pmms.txt")]
        if sc["fcfg_by"] == "option":
            fs = [str(fdir / f"{n}.json") for n in sc["fcfg"]]
            if sc["list"] == "txt":
                (root / "fcs.txt").write_text("\n".join(fs) + "\n")
                fs = [str(root / "fcs.txt")]
            args += ["-fcfgs"] + fs
        if sc["mode"] == "ext":
            ext = flow.clone_run(root / "ext", gold)
            e = {"pmm_dir": str(inp / "pmm" / "PowerSpectrum"), "cl_dir": str(ext / "Angular"), "der_dir": None}
            if "-der" not in sc["tasks"]:
                e["der_dir"] = str(ext / "Derivative")
            (cdir / "external_dirs.json").write_text(json.dumps(e))
    if sc["refuse"] and refused(sc, args, cdir, root, inp):
        before = sorted(p.name for p in work.iterdir())
        d = k.wait(k.spawn_script("orchestrate_run", args, work, label="orch"))
        k.drain()
        k.fire(f"refuse-{sc['refuse']}")
        k.nontrivial = True
        k.note = f"{sc['mode']}: {sc['refuse']}, status {d.rc}"
        if d.rc == 0:
            bad("not-refused", f"orchestrate_run accepted an ambiguous or missing configuration ({sc['refuse']})")
        if started or cl.jobs:
            bad("not-refused", f"orchestrate_run started {len(started)} forecasts in spite of {sc['refuse']}")
        new = [p.name for p in work.iterdir() if p.name not in before and not p.name.startswith("logfile_")]
        if new:
            bad("not-refused", f"orchestrate_run made {new} in spite of {sc['refuse']}")
        return V
    pre = {p.name for p in work.iterdir()} | set(pre_rds)
    snap_old = {p: p.read_text() for p in work.glob("*/keep.txt")}
    snap_cfg = {p: p.read_bytes() for rd in pre_rds.values() for p in [*rd.glob("input_files/**/*"), *rd.glob("*.json")]
                if p.is_file() and p.name != "run_metadata.json"}
    k.op_hook = lambda *a, **kw: on_step()
    d = k.wait(k.spawn_script("orchestrate_run", args, work, label="orch"))
    on_step()
    k.op_hook = None
    t_end = k.mono
    k.drain()
    k.tr("orchestrated", d.rc, len(started))
    # ---- oracle
    if sc["mode"] == "rundirs":
        want = [(n,) for n in sc["fcfg"]]
    else:
        want = [(f, c, s, p) for f in sc["fcfg"] for s in sorted(tagged["fish"].values()) for c in sorted(tagged["cl"].values())
                for p in (map(str, pmms) if pmms else [None])]
    if d.rc != 0:
        bad("orchestrator-fails", f"orchestrate_run ended with status {d.rc} (it should go on with the other runs): ...{d.text[-500:]}")
    if len(started) != len(want):
        bad("number-of-runs", f"{len(started)} forecasts were started for a grid of {len(want)}")
    text = d.text + "".join(p.read_text() for p in work.glob("logfile_orchestrator*"))
    tasks = sc["tasks"]
    pars = ["w0"]
    exp = flow.expected_units(pars, tasks, ctx.data["dvs"])
    seen, listed_want = [], []
    byrun = {}
    for (e, rd) in zip(u.log, u.where):
        byrun.setdefault(number(rd), []).append(e)
    names = {}
    for nm, i in runs.items():
        names.setdefault(i, []).append(nm)
    for i, s in enumerate(started):
        rcd = s.get("d")
        mine = names.get(i, [])
        if len(mine) > 1:
            bad("two-directories", f"forecast {i} has {len(mine)} run directories: {mine}")
        a = s["argv"]
        if sc["mode"] == "rundirs":
            got = (Path(flow.opt(a, "-rd") or "?").name,)
            if i < len(want) and got != want[i]:
                bad("wrong-order", f"run {i} was on {got[0]}, not on {want[i][0]} as listed")
        else:
            def key(o, by):
                p = flow.opt(a, o)
                return by.get(Path(work, p).read_bytes()) if p and Path(work, p).is_file() else None
            pd = flow.opt(a, "-pmm_dir")
            got = (key("-fcfg", fcs), key("-cl_cfg", tagged["cl"]), key("-fish_cfg", tagged["fish"]), pd if pmms else None)
        seen.append(got)
        ok = rcd is not None and rcd.rc == 0
        for o, w in (("-ex", sc["ex"]), ("-q", sc["q"]), ("-ncj", "2"), ("-mem", "2048"), ("-i", str(data))):
            if flow.opt(a, o) != w:
                bad("wrong-options", f"forecast {i} was started with {o} {flow.opt(a, o)}, not {w}")
        if sc["ini"] and flow.opt(a, "-ini") != str(root / "o.ini"):
            bad("wrong-options", f"forecast {i} was started without the ini file given")
        if {f"--{x}" for x in sc["flags"]} - set(a):
            bad("wrong-options", f"forecast {i} was started without {sc['flags']}")
        long = {"-cl": "--angular", "-der": "--derivative", "-fish": "--fisher"}
        if {long[t] for t in tasks} ^ ({x for x in a} & set(long.values())):
            bad("wrong-options", f"forecast {i} was started for {[x for x in a if x in long.values()]}, not {tasks}")
        ev = byrun.get(i, [])
        if ok:
            if len(mine) != 1:
                bad("no-directory", f"forecast {i} {got} ended with status 0 but has {len(mine)} run directories")
                continue
            done = {}
            for step, what, st, unit, r in ev:
                if what == "end" and r == 0:
                    done[(st, unit)] = done.get((st, unit), 0) + 1
            for st in exp:
                wrong = [x for x in exp[st] if done.get((st, x), 0) != 1]
                if wrong:
                    bad("work-count", f"forecast {i} {got} ended with status 0 but {len(wrong)} of its {st} units were done "
                                      f"{done.get((st, sorted(wrong)[0]), 0)} times, not once: {sorted(wrong)[:3]}")
            extra = [x for x in done if x[0] not in exp or x[1] not in exp[x[0]]]
            if extra:
                bad("extra-work", f"forecast {i} {got} also did {extra[:3]}")
        elif rcd is not None:
            ident = mine[0] if mine else sc["fcfg"][min(i, len(sc["fcfg"]) - 1)]
            word = (got[0] or "") if sc["mode"] == "rundirs" else re.sub(r"_\d\.\d\.\d_\d{4}.*", "", Path(got[0] or "").name)
            hits = [l for l in text.splitlines() if ("ERROR" in l or "WARNING" in l) and word in l]
            if not hits:
                bad("failure-hidden", f"forecast {i} ({ident}) failed with status {rcd.rc}, but the orchestrator has not said so")
        if mine and sc["mode"] != "rundirs":
            rd = work / mine[0]
            check_dir(bad, i, got, rd, sc, fcs, tagged, pmms, work)
    if not any(v["class"] in ("number-of-runs", "orchestrator-fails") for v in V):
        if sorted(map(str, seen)) != sorted(map(str, want)):
            bad("wrong-grid", f"the forecasts started were {seen}, the grid is {want}")
    # one after the other
    for a, b in zip(started, started[1:]):
        pass
    ts = sorted((x[0], x[3]) for x in k.hist if x[2] in ("unit-start",))
    if sc["mode"] != "rundirs":
        new = sorted(p.name for p in work.iterdir() if p.is_dir() and p.name not in pre)
        lists = sorted(work.glob("rundirs_*.json"))
        if d.rc == 0:
            if len(lists) != 1:
                bad("rundirs-list", f"{len(lists)} lists of run directories were written")
            else:
                got = [Path(x).name for x in json.loads(lists[0].read_text())]
                if sorted(got) != new:
                    bad("rundirs-list", f"the list of run directories holds {sorted(got)}, this orchestration has made {new}")
        names_ok = {nm for x in names.values() for nm in x}
        for nm in new:
            if nm not in names_ok and (work / nm / "input_files_dict.json").exists():
                bad("unknown-directory", f"{nm} does not belong to any of the forecasts started")
    for p, t in snap_cfg.items():
        if not p.is_file() or p.read_bytes() != t:
            bad("configuration-replaced", f"{k.rel(str(p))} of a run directory that was continued is "
                                          f"{'another' if p.is_file() else 'gone'}")
            break
    for p, t in snap_old.items():
        if not p.exists() or p.read_text() != t or len(list(p.parent.iterdir())) != 1:
            bad("old-run-touched", f"{p.parent.name}, which was there before, has been changed")
    k.nontrivial = bool(k.fired) or len(want) > 1
    nf = sum(1 for s in started if s.get("d") is None or s["d"].rc != 0)
    if nf:
        k.fire("forecast-failed", nf) if False else k.fire("forecast-failed")
    k.note = f"{sc['mode']} {sc['ex']}: {len(started)}/{len(want)} forecasts, {nf} failed"
    return V


def refused(sc, args, cdir, root, inp):
    """Makes the configuration ambiguous or incomplete; False if that cannot be done for this kind of orchestration."""
    what, _, sub = sc["refuse"].partition("-")
    if sub in CFGF.values() or sub in ("res_cfg", "fcfg"):
        if what == "two":
            if sub == "res_cfg":
                (cdir / sub / "aa.json").write_text("{}")
            (cdir / sub / "zz_other.json").write_text((next((cdir / sub).glob("*.json"))).read_text())
            return True
        if sub in ("fcfg", "cl_cfg", "fish_cfg") and sc["mode"] == "rundirs" or sub == "fcfg" and sc["fcfg_by"] == "option":
            return False           # not used
        for p in (cdir / sub).glob("*.json"):
            p.unlink()
        return True
    if sub == "task":
        args[:] = [a for a in args if a not in sc["tasks"]]
    elif sub == "execution":
        i = args.index("-ex")
        del args[i:i + 2]
    elif "-pmms" not in args:
        return False
    else:
        i = args.index("-pmms")
        if sub == "spectra" and what == "no":
            del args[i:i + 2]
        elif sub == "spectra":
            (root / "lost.txt").write_text(f"{inp}/pmm/PowerSpectrum\n{root}/nowhere/PowerSpectrum\n")
            args[i + 1] = str(root / "lost.txt")
        else:
            args[i + 1] = str(root / "lost.lst")
            (root / "lost.lst").write_text(f"{inp}/pmm/PowerSpectrum\n")
    return True


def check_dir(bad, i, got, rd, sc, fcs, tagged, pmms, work):
    f = rd / "input_files_dict.json"
    try:
        files = json.loads(f.read_text())
        rec = {n: (rd / p).read_bytes() for n, p in files.items() if n in ("forecast", "Angular", "Fisher")}
    except (OSError, ValueError):
        return                       # a forecast that died while writing it; complete ones are judged by C08
    if len(rec) < 3:
        return
    have = (fcs.get(rec["forecast"]), tagged["cl"].get(rec["Angular"]), tagged["fish"].get(rec["Fisher"]))
    if have != got[:3]:
        bad("wrong-configuration", f"run directory {rd.name} of forecast {got[:3]} holds the configurations {have}")
    pk = rd / "PowerSpectrum"
    if pmms and pk.is_symlink() and os.path.realpath(pk) != os.path.realpath(got[3]):
        bad("wrong-spectra", f"{rd.name} is linked to {os.path.realpath(pk)}, not to {got[3]}")
    if not rd.name.startswith(re.sub(r"_\d\.\d\.\d_\d{4}.*", "", Path(got[0]).name)):
        bad("wrong-name", f"the run directory of {got[0]} is called {rd.name}")


def shrink(sc):
    for x in sc["plan"]:
        yield dict(sc, plan={a: b for a, b in sc["plan"].items() if a != x})
    for j in range(len(sc["jsfaults"])):
        yield dict(sc, jsfaults=sc["jsfaults"][:j] + sc["jsfaults"][j + 1:])
    for key, v in (("refuse", None), ("old", []), ("flags", []), ("ini", False), ("junk", False), ("reject", None), ("kill", None), ("op_dt", 0),
                   ("ex", "interactive"), ("list", "args")):
        if sc[key] != v:
            yield dict(sc, **{key: v})
    if sc.get("clock_steps"):
        yield {a: b for a, b in sc.items() if a != "clock_steps"}
    if sc["mode"] == "new":
        for key in ("cl", "fish", "pmm"):
            if sc[key] > 1:
                yield dict(sc, **{key: 1})
    if len(sc["fcfg"]) > 1:
        yield dict(sc, fcfg=sc["fcfg"][1:])
        yield dict(sc, fcfg=sc["fcfg"][:-1])
