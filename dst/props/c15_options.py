"""C15: what a user asks of a submitter is what its jobs are given."""
import importlib.machinery
import importlib.util
import json
import os
import random
import shutil
from pathlib import Path

from dst import fixtures as fx, flow
from dst.cluster import Cluster
from dst.kernel import Done, REPO

ID = "C15"
TITLE = "Options given to a submitter, or in its ini file, reach every job it submits"
RULE = ("a run is one submitter (job_submitter, run_seyfert or evaluate_final_results) with random options on the command line or "
        "in an ini file, new or existing run directories, 1-3 forecasts or run directories, random batch system delays, noise and "
        "query failures; non-trivial: any option differs from its default or a fault fired; distinct: by event trace")
REAL = "the submitters, option and ini file handling, job scripts, the option parsers of the submitted programs"
STUB = "LSF, clock, shell, bodies of the submitted programs"
ASSUME = ["paths have no spaces", "memory of Fisher and results jobs is set by the program itself"]
N = {"quick": 300, "thorough": 20000}


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    ctx.data["gold"] = str(flow.golden(ctx))


def gen(rng, i, ctx):
    prog = rng.choice(["js"] * 5 + ["rs"] * 3 + ["res"] * 3)
    sc = {"prog": prog, "jobseed": rng.getrandbits(30), "query": {}, "op_dt": rng.choice([0, 0.001]),
          "q": rng.choice([None, "long", "medium", "short"]), "ncj": rng.choice([None, 1, 2, 7, 16]),
          "mem": rng.choice([None, 512, 2048, 6000, 12000]), "ex": rng.choice(["batch", "batch", "interactive"]), "n": rng.choice([1, 1, 2, 3])}
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2])):
            sc["query"][str(rng.randrange(1, 8))] = rng.choice(["down", "empty", "partial", "header", "noise"])
    if prog == "js":
        sc["ini"] = rng.choice([[], [], ["all"], sorted(rng.sample(["q", "ncj", "mem", "ex", "flags", "tasks", "paths", "id"], rng.randrange(1, 6)))])
        sc["old"] = rng.random() < 0.4
        sc["tasks"] = rng.choice([["cl"], ["der"], ["fish"], ["der", "fish"], ["cl", "der"], ["cl", "der", "fish"]]) if sc["old"] else \
            rng.choice([["cl"], ["cl", "der"], ["cl", "der", "fish"]])
        if sc["old"] and "cl" not in sc["tasks"] and "der" not in sc["tasks"]:
            sc["tasks"] = ["fish"]
        sc["flags"] = {f: rng.choice([True, False, None]) for f in ("keep_cl_variations", "overwrite_results", "verbose", "test")}
        if sc["old"]:
            sc["flags"]["test"] = rng.choice([False, None])
        sc["bins"] = rng.choice([4, 4, 24, 25, 40])
        sc["bool"] = rng.choice(["True", "true"])
        sc["id"] = rng.choice([None, "myrun", "x_1"])
        sc["extra_false"] = rng.random() < 0.5
        sc["bad"] = rng.choice(["ex", "ncj0", "ncj-", "noini", "option", "inikey", "inikey"]) if rng.random() < 0.12 else None
    elif prog == "rs":
        sc["bins"] = [rng.choice([4, 12, 24, 25, 40]) for _ in range(sc["n"])]
        sc["test_batch"] = rng.random() < 0.2
        sc["given"] = rng.random() < 0.6
        sc["list"] = rng.random() < 0.3
        sc["ex"] = "batch"
    else:
        sc["ow"] = rng.choice([None, "flag", "True", "False"])
        sc["outdir"] = rng.choice([None, "final_results", "res_2"])
        sc["nowait"] = rng.choice([None, "flag", "False", "True"])
        sc["test"] = rng.choice([None, None, "flag", "False"])
        sc["silent"] = rng.choice([None, "flag", "False"])
        sc["list"] = rng.random() < 0.3
    return sc


def parser_of(name, k):
    """The real option parser of one of the programs."""
    if "SEYFERT_INPUT_DATA" in k.env:
        os.environ["SEYFERT_INPUT_DATA"] = k.env["SEYFERT_INPUT_DATA"]
    path = f"{REPO}/bin/{name}"
    ld = importlib.machinery.SourceFileLoader(f"optparser_{name}", path)
    spec = importlib.util.spec_from_loader(ld.name, ld)
    m = importlib.util.module_from_spec(spec)
    import sys
    sys.dont_write_bytecode = True
    ld.exec_module(m)
    return m.program_options()


def run(k, sc, ctx, root):
    flow.setup(k, ctx)
    k.op_dt = sc["op_dt"]
    jr = random.Random(sc["jobseed"])
    cl = Cluster(k, lambda i, cmd: {"body": "real", "pend": jr.choice([0.3, 3, 30]) * jr.random(), "run": jr.random() * 5,
                                    "visible": jr.choice([0, 0, 2])}, query=sc["query"], first_id=jr.choice([98, 4100]))
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    {"js": job_submitter, "rs": run_seyfert, "res": results}[sc["prog"]](k, sc, ctx, root, cl, bad)
    logs = {}
    for j in cl.order:
        for o in ("-o", "-e"):
            p = os.path.join(j.cwd, j.opts.get(o, ""))
            if p in logs:
                bad("shared-log", f"jobs {logs[p]} and {j.jid} were submitted with the same {o} file {k.rel(p)}")
            logs[p] = j.jid
    k.nontrivial = bool(k.fired) or any(sc.get(x) for x in ("q", "ncj", "mem", "ini", "flags"))
    k.note = f"{sc['prog']} {sc['ex']}, {len(cl.order)} jobs"
    return V


def check_job(k, bad, j, q, ncj, mem):
    for o, w in (("-q", q), ("-n", ncj), ("-M", mem)):
        if w is not None and j.opts.get(o) != str(w):
            bad("wrong-option", f"job {j.jid} ({k.rel(j.cmd)[-80:]}) was submitted with {o} {j.opts.get(o)}, asked for {w}")
    m, r = j.opts.get("-M"), str(j.opts.get("-R", ""))
    if m and f"mem>{m}" not in r.replace(" ", "") or f"rusage[mem={m}]" not in r.replace(" ", ""):
        bad("wrong-resources", f"job {j.jid} asks for the resources {r} with a memory limit of {m} MB")


class Units(flow.Units):
    pass


def job_submitter(k, sc, ctx, root, cl, bad):
    gold = ctx.data["gold"]
    u = Units(k, ctx, gold, {}, default_dt=1.0)
    rd = None
    if sc["old"]:
        drop = []
        if "cl" in sc["tasks"]:
            drop += ["Angular", "norm_densities.hdf5", "delta_cls.h5"]
        if "der" in sc["tasks"]:
            drop += ["Derivative"]
        rd = flow.clone_run(root, gold, drop=drop)
        inp, work = root / "in", rd.parent
    else:
        inp = flow.clone_inputs(ctx, root)
        work = root / "work"
        work.mkdir()
    f = rd / "input_files_dir" / "forecast.json" if rd else inp / "cfg" / "forecast.json"
    if rd:
        f = rd / json.loads((rd / "input_files_dict.json").read_text())["forecast"]
    j = json.loads(f.read_text())
    j["synthetic_opts"]["n_sp_bins"] = sc["bins"]
    fx.write_json(f, j)
    fisher_before = sorted(p.name for p in (rd / "base_fishers").glob("*.hdf5")) if rd else []
    if rd:
        (rd / "base_fishers" / "marker").write_text("x")
        (rd / "final_results" / "marker").write_text("x")
    data = inp / "data"
    if rd is None:
        shutil.move(data, inp / "given")
        data.mkdir()
        data = inp / "given"
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    long = {"cl": "angular", "der": "derivative", "fish": "fisher"}
    opts = {"q": ("-q", "queue", sc["q"]), "ncj": ("-ncj", "n_cores_per_job", sc["ncj"]), "mem": ("-mem", "memory", sc["mem"])}
    args, ini = [], {}
    where = lambda x: "all" in sc["ini"] or x in sc["ini"]
    for x, (o, name, v) in opts.items():
        if v is not None:
            if where(x):
                ini[name] = v
                if jr_of(sc).random() < 0.4:
                    args += [o, {"q": "other", "ncj": "3", "mem": "1111"}[x]]
            else:
                args += [o, str(v)]
    args += ["-ex", "no" if where("ex") else sc["ex"]]
    if where("ex"):
        ini["execution"] = sc["ex"]
    for t in long:
        on = t in sc["tasks"]
        if where("tasks"):
            if on or sc["extra_false"]:
                ini[long[t]] = sc["bool"] if on else sc["bool"].replace("T", "F").replace("t", "f").replace("rue", "alse")
        elif on:
            args += [f"-{t}"] + (["True"] if sc["extra_false"] else [])
        elif sc["extra_false"]:
            args += [f"-{t}", "False"]
    for f, v in sc["flags"].items():
        if v is None:
            continue
        if where("flags"):
            ini[f] = sc["bool"] if v else {"True": "False", "true": "false"}[sc["bool"]]
        elif v:
            args += [f"--{f}"] + (["true"] if sc["bool"] == "true" else [])
        else:
            args += [f"--{f}", "False"]
    paths = {"input_data_dir": ("-i", data), "powerspectrum_config": ("-pmm_cfg", inp / "cfg" / "pmm.json"),
             "angular_config": ("-cl_cfg", inp / "cfg" / "angular.json"), "derivative_config": ("-der_cfg", inp / "cfg" / "derivative.json"),
             "fisher_config": ("-fish_cfg", inp / "cfg" / "fisher.json")}
    if rd is None:
        paths["forecast_config"] = ("-fcfg", inp / "cfg" / "forecast.json")
        paths["powerspectrum_dir"] = ("-pmm_dir", inp / "pmm" / "PowerSpectrum")
    else:
        paths["rundir"] = ("-rd", rd)
    for name, (o, v) in paths.items():
        if where("paths"):
            ini[name] = v
        else:
            args += [o, str(v)]
    if sc["id"] and rd is None:
        if where("id"):
            ini["run_id"] = sc["id"]
        else:
            args += ["-id", sc["id"]]
    if ini:
        (root / "o.ini").write_text("[config]\n" + "".join(f"{a} = {b}\n" for a, b in ini.items()))
        args += ["-ini", str(root / "o.ini")]
        k.fire("ini-file")
    b = sc.get("bad")
    if b:
        wrong = {"ex": ("-ex", "execution", "interctive"), "ncj0": ("-ncj", "n_cores_per_job", "0"),
                 "ncj-": ("-ncj", "n_cores_per_job", "-2")}.get(b)
        if wrong and ini:
            ini[wrong[1]] = wrong[2]
            (root / "o.ini").write_text("[config]\n" + "".join(f"{a} = {v}\n" for a, v in ini.items()))
        elif wrong:
            args += [wrong[0], wrong[2]]
        elif b == "inikey":
            # a misspelt option in the ini file
            ini[jr_of(sc).choice(["n_cores", "memory_mb", "overwrite", "queu"])] = "4"
            (root / "o.ini").write_text("[config]\n" + "".join(f"{a} = {v}\n" for a, v in ini.items()))
            args += [] if "-ini" in args else ["-ini", str(root / "o.ini")]
        elif b == "noini":
            args += ["-ini", str(root / "missing.ini")]
        else:
            args += ["--n_coers", "4"]
        before = sorted(p.name for p in work.iterdir() if p.is_dir())
        d = k.wait(k.spawn_script("job_submitter", args, work))
        k.drain()
        k.fire("bad-option")
        k.tr("ended", d.rc)
        if d.rc == 0:
            bad("bad-accepted", f"job_submitter accepted {k.rel(' '.join(args[-2:]))} (ini {k.rel(str(ini))})")
        if cl.order or u.log:
            bad("bad-started", f"work was started in spite of {b}: {len(cl.order)} jobs, {len(u.log)} units")
        if sorted(p.name for p in work.iterdir() if p.is_dir()) != before:
            bad("bad-rundir", f"a run directory was made in spite of {b}")
        return
    d = k.wait(k.spawn_script("job_submitter", args, work))
    k.drain()
    k.tr("ended", d.rc)
    if d.rc != 0:
        bad("fails", f"job_submitter with {k.rel(' '.join(args))} and ini {k.rel(str(ini))} ended with status {d.rc}: ...{d.text[-400:]}")
        return
    if rd is None:
        rd = flow.find_rundir(work)
        if rd is None:
            bad("no-rundir", "no run directory, or several")
            return
        if sc["id"] and not rd.name.startswith(sc["id"] + "_"):
            bad("wrong-id", f"the run directory is called {rd.name}, the id given is {sc['id']}")
        if not sc["id"] and any(rd.name.startswith(x) for x in ("myrun", "x_1")):
            bad("wrong-id", f"the run directory is called {rd.name}")
    on = [t for t in long if t in sc["tasks"]]
    exp = flow.expected_units(["w0"], [f"-{t}" for t in on], ctx.data["dvs"])
    ow, keep = bool(sc["flags"]["overwrite_results"]), bool(sc["flags"]["keep_cl_variations"])
    if sc["old"] and "fish" in on and not ow:
        # auto correlations are there: not asked for again
        exp["fish"] -= {x for x in flow.AUTOS}
        if sc["ex"] == "interactive":
            exp["fish"] |= set(flow.AUTOS)
    done = {}
    for step, what, st, unit, r in u.log:
        if what == "end" and r == 0:
            done.setdefault(st, []).append(unit)
    for st in set(done) | set(exp):
        if sorted(done.get(st, [])) != sorted(exp.get(st, set())):
            bad("wrong-work", f"asked for {on} (overwrite {ow}, {sc['ex']}), the {st} work done is {sorted(done.get(st, []))}, "
                              f"expected {sorted(exp.get(st, set()))}")
    if sc["ex"] == "interactive" and cl.order:
        bad("wrong-mode", f"{len(cl.order)} batch jobs were submitted by an interactive run")
    if sc["ex"] == "batch":
        inbatch = sum(1 for j in cl.order if not str(j.cmd).startswith("compute_fisher") and "evaluate_final" not in j.cmd)
        want = sum(len(exp.get(s, ())) for s in ("cls", "der"))
        if inbatch != want:
            bad("wrong-mode", f"{inbatch} batch jobs for {want} cls and derivative directories")
    ps = parser_of("evaluate_final_results", k)
    for st, argv, cwd in u.argv:
        if st != "res":
            continue
        try:
            a = vars(ps.parse_args(argv))
        except SystemExit:
            bad("bad-command", f"the command is refused by evaluate_final_results: {k.rel(' '.join(argv))}")
            continue
        if [os.path.realpath(Path(cwd, x)) for x in a["input_rundirs"]] != [os.path.realpath(rd)] or a["overwrite"] and not ow \
                or a["outdir_name"] != "final_results" or a["test"]:
            bad("wrong-argument", f"the results (overwrite {ow}) are evaluated with {k.rel(' '.join(argv))}")
    for j in cl.order:
        if "evaluate_final" in j.cmd:
            continue
        fish = j.cmd.startswith("compute_fisher")
        check_job(k, bad, j, sc["q"] or "long", sc["ncj"] or 1, None if fish else sc["mem"] or 2048)
    if "cl" in on:
        var = [p.name for p in (rd / "Angular").iterdir() if p.is_dir() and "central" not in p.name]
        if keep != bool(var) and "der" in on or (keep and not var):
            bad("cl-variations", f"keep_cl_variations is {keep}, but there are {len(var)} varied Cl directories after the run")
    if sc["old"]:
        m1, m2 = (rd / "base_fishers" / "marker").exists(), (rd / "final_results" / "marker").exists()
        if ow and "fish" in on and (m1 or m2):
            bad("not-overwritten", "results were to be overwritten, but older files are still there")
        if not (ow and "fish" in on) and not (m1 and m2):
            bad("overwritten", f"results were not to be overwritten (overwrite {ow}, tasks {on}), but older files are gone")
    try:
        rec = {n: (rd / p) for n, p in json.loads((rd / "input_files_dict.json").read_text()).items()}
    except (OSError, ValueError) as e:
        bad("no-record", f"input_files_dict.json cannot be read: {e}")
        return
    logf = list(rd.glob("logfile_*job_submitter*")) if not sc["flags"]["test"] else list(rd.glob("logfile_test.log"))
    if not logf:
        bad("no-log", f"the log of the submitter is not in the run directory: {sorted(p.name for p in rd.iterdir())}")


def jr_of(sc):
    return random.Random(sc["jobseed"] ^ 77)


def run_seyfert(k, sc, ctx, root, cl, bad):
    inp = flow.clone_inputs(ctx, root)
    work = root / "work"
    work.mkdir()
    data = inp / "data"
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    if sc["given"]:
        shutil.move(data, inp / "given")
        data.mkdir()
        data = inp / "given"
    fs = []
    for m in range(sc["n"]):
        fs.append(fx.write_json(inp / "cfg" / f"fc{m}_{sc['bins'][m]}_sp_bins.json",
                                fx.forecast_config(free=["w0"], n_sp_bins=sc["bins"][m], marg_sp=False, extra=f"F{m}")))
    flist = fs
    if sc["list"]:
        (root / "fcs.txt").write_text("\n".join(map(str, fs)) + "\n")
        flist = [root / "fcs.txt"]
    args = ["-ex", sc["ex"], "-wd", str(work), "-fcfg", *map(str, flist), "-pmm_dir", str(inp / "pmm" / "PowerSpectrum")]
    if sc["given"]:
        args += ["-i", str(data)]
    for t, n in {"powerspectrum": "pmm", "angular": "angular", "derivative": "derivative", "fisher": "fisher"}.items():
        args += [f"--{t}_config", str(inp / "cfg" / f"{n}.json")]
    for o, v in (("-q", sc["q"]), ("-ncj", sc["ncj"]), ("-mem", sc["mem"])):
        if v is not None:
            args += [o, str(v)]
    if sc["test_batch"]:
        args += ["--test_batch"]
    got = []

    def child(k, argv, cwd, env):
        if False:
            yield
        got.append((list(argv[1:]), cwd))
        return Done(0, b"ok\n")
    pid = k.spawn_script("run_seyfert", args, work)
    k.programs["run_seyfert"] = child
    d = k.wait(pid)
    k.drain()
    k.tr("ended", d.rc, len(got))
    if d.rc != 0:
        bad("fails", f"run_seyfert with {k.rel(' '.join(args))} ended with status {d.rc}: ...{d.text[-500:]}")
        return
    want = 0 if sc["test_batch"] else sc["n"]
    if len(cl.order) != want or len(got) != want:
        bad("number-of-jobs", f"{len(cl.order)} jobs were submitted and {len(got)} started for {want} forecasts")
        return
    if not want:
        return
    ps = parser_of("run_seyfert", k)
    asked = vars(ps.parse_args(args))
    seen = []
    for j in cl.order:
        m = next((m for m in range(sc["n"]) if f"/fc{m}_" in j.cmd), None)
        mem = sc["mem"] or 2048
        if m is not None and sc["bins"][m] > 24 and mem < 10000:
            mem = 10000
        check_job(k, bad, j, sc["q"] or "long", sc["ncj"] or 1, mem)
    for argv, cwd in got:
        try:
            a = vars(ps.parse_args(argv))
        except SystemExit:
            bad("bad-command", f"the submitted command is refused by the program: {k.rel(' '.join(argv))}")
            continue
        fc = [os.path.join(cwd, p) for p in a["forecast_config"]]
        seen += fc
        for key in asked:
            if key in ("execution", "workdir", "forecast_config", "is_batch_job", "test_batch"):
                continue
            x, y = asked[key], a[key]
            if str(x) != str(y):
                bad("wrong-argument", f"{key} is {k.rel(str(y))} for the job, {k.rel(str(x))} was asked for")
        if a["execution"] != "interactive" or str(a["is_batch_job"]) != "True":
            bad("wrong-argument", f"the job is started with execution {a['execution']}, is_batch_job {a['is_batch_job']}")
        wd = Path(cwd, a["workdir"])
        if wd.parent != work or len(fc) != 1 or Path(fc[0]).stem not in wd.name:
            bad("wrong-argument", f"the job for {[Path(x).name for x in fc]} is to run in {k.rel(str(wd))}")
    if sorted(seen) != sorted(map(str, fs)):
        bad("wrong-forecasts", f"jobs were submitted for {[Path(x).name for x in seen]}, asked for {[p.name for p in fs]}")


def results(k, sc, ctx, root, cl, bad):
    gold = ctx.data["gold"]
    rds = [flow.clone_run(root, gold, drop=["final_results", "Angular", "Derivative"], name=f"run{m}") for m in range(sc["n"])]
    work = rds[0].parent
    lst = [str(r) for r in rds]
    if sc["list"]:
        (root / "rds.txt").write_text("\n".join(lst) + "\n")
        lst = [str(root / "rds.txt")]
    args = ["-ex", "batch", "-i", *lst]
    for o, v in (("-q", sc["q"]), ("-ncj", sc["ncj"]), ("-mem", sc["mem"]), ("-o", sc["outdir"])):
        if v is not None:
            args += [o, str(v)]
    for o, v in (("-ow", sc["ow"]), ("-nowait", sc["nowait"]), ("--test", sc["test"]), ("--silent", sc["silent"])):
        if v is not None:
            args += [o] + ([] if v == "flag" else [v])
    on = lambda v: v in ("flag", "True")
    got = []

    def child(k, argv, cwd, env):
        got.append((list(argv[1:]), cwd))
        k.log("child-start", k.rel(argv[argv.index("--input_rundirs") + 1]) if "--input_rundirs" in argv else "?")
        yield ("sleep", 50)
        k.log("child-end")
        return Done(0, b"ok\n")
    pid = k.spawn_script("evaluate_final_results", args, work)
    k.programs["evaluate_final_results"] = child
    d = k.wait(pid)
    ended = sum(1 for x in k.hist if x[2] == "child-end")
    k.drain()
    k.tr("ended", d.rc, len(got))
    if d.rc != 0:
        bad("fails", f"evaluate_final_results with {k.rel(' '.join(args))} ended with status {d.rc}: ...{d.text[-400:]}")
        return
    test = on(sc["test"])
    if len(cl.order) != (0 if test else sc["n"]):
        bad("number-of-jobs", f"{len(cl.order)} jobs were submitted for {sc['n']} run directories (test mode {test})")
        return
    if test:
        return
    if on(sc["nowait"]) and ended == sc["n"]:
        bad("waits", "evaluate_final_results has waited for its jobs, although asked not to")
    if not on(sc["nowait"]) and ended != sc["n"]:
        bad("does-not-wait", f"evaluate_final_results has ended when {ended} of its {sc['n']} jobs had")
    for j in cl.order:
        check_job(k, bad, j, sc["q"] or "long", sc["ncj"] or 1, sc["mem"] or 2048)
    ps = parser_of("evaluate_final_results", k)
    seen = []
    for argv, cwd in got:
        try:
            a = vars(ps.parse_args(argv))
        except SystemExit:
            bad("bad-command", f"the submitted command is refused by the program: {k.rel(' '.join(argv))}")
            continue
        seen += [os.path.join(cwd, x) for x in a["input_rundirs"]]
        if a["execution"] != "interactive" or bool(a["overwrite"]) != on(sc["ow"]) or a["outdir_name"] != (sc["outdir"] or "final_results") \
                or bool(a["silent"]) != on(sc["silent"]) or a["test"]:
            bad("wrong-argument", f"the job is started with {k.rel(' '.join(argv))}, asked for {k.rel(' '.join(args))}")
    if sorted(seen) != sorted(map(str, rds)):
        bad("wrong-rundirs", f"jobs were submitted for {[Path(x).name for x in seen]}, asked for {[p.name for p in rds]}")


def shrink(sc):
    for x in sc["query"]:
        yield dict(sc, query={a: b for a, b in sc["query"].items() if a != x})
    for key in ("q", "ncj", "mem", "id", "outdir", "ow", "silent", "nowait", "test"):
        if sc.get(key) is not None:
            yield dict(sc, **{key: None})
    if sc["prog"] == "js":
        for f, v in sc["flags"].items():
            if v is not None:
                yield dict(sc, flags=dict(sc["flags"], **{f: None}))
        if sc["ini"]:
            yield dict(sc, ini=[])
        if sc["extra_false"]:
            yield dict(sc, extra_false=False)
    for key in ("list", "given", "test_batch"):
        if sc.get(key):
            yield dict(sc, **{key: False})
    if sc["op_dt"]:
        yield dict(sc, op_dt=0)
