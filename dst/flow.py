"""Shared pieces for properties that run the forecast workflow: tiny inputs, a golden run of the
real programs, and stand-ins for the compute programs."""
import os
import pickle
import select
import shutil
import traceback
from pathlib import Path

import dst.fixtures as fx
from .kernel import Done, Kernel, REPO

AUTOS = ["wlwl", "phph", "spsp"]
FISH_DATA = f"{REPO}/seyfert/data/fishers"


def opt(argv, *names):
    for i, a in enumerate(argv):
        if a in names and i + 1 < len(argv):
            return argv[i + 1]
        for n in names:
            if a.startswith(n + "="):
                return a[len(n) + 1:]
    return None


def stages(free_all, steps):
    """The units of work of a run: {stage: set of unit names}."""
    cls = {"dvar_central_step_0"}
    for p in free_all:
        for s in steps:
            cls.add(f"dvar_{p}_step_{'m' if s < 0 else 'p'}_{abs(s)}")
    return cls


STEPS = [s for s in range(-7, 8) if s]


def load_fcfg(path, input_dir):
    from seyfert.config.forecast_config import ForecastConfig
    f = ForecastConfig(input_file=Path(path), input_data_dir=Path(input_dir))
    f.loadPhysicalParametersFromJSONConfig()
    return f


def write_inputs(d, free=("w0",), marg_sp=False, extra=None, pmm=True, pmm_free=None, **kw):
    """inputs/: forecast + task configs, input data, external power spectra."""
    d = Path(d)
    fx.make_input_data(d / "data")
    fx.write_json(d / "cfg" / "forecast.json", fx.forecast_config(free=free, marg_sp=marg_sp, extra=extra, **kw))
    fx.write_json(d / "cfg" / "pmm.json", fx.pmm_config())
    fx.write_json(d / "cfg" / "angular.json", fx.angular_config())
    fx.write_json(d / "cfg" / "derivative.json", fx.derivative_config())
    fx.write_json(d / "cfg" / "fisher.json", fx.fisher_config())
    if pmm:
        fc = load_fcfg(d / "cfg" / "forecast.json", d / "data")
        fx.make_pmm_dir(d / "pmm" / "PowerSpectrum", fc.phys_pars)
    return d


def fisher_lists(ctx, crosses=2):
    """Shortened lists of data vectors and combinations (three autos first), read in place of the
    shipped ones; returns the brief names."""
    from seyfert.fisher import fisher_utils as fu
    dvs = fu.load_selected_data_vectors()
    names = [l for l in Path(f"{FISH_DATA}/selected_datavectors.txt").read_text().splitlines()
             if l.strip() and not l.strip().startswith("#")]
    keep = names[:3 + crosses]
    p = ctx.base / "lists"
    p.mkdir(exist_ok=True)
    (p / "dv.txt").write_text("\n".join(keep) + "\n")
    post = [l for l in Path(f"{FISH_DATA}/a_posteriori_fisher_combs.txt").read_text().splitlines()
             if l.strip() and not l.strip().startswith("#")]
    (p / "post.txt").write_text("\n".join(post[:3]) + "\n")
    ctx.data["overlay"] = {f"{FISH_DATA}/selected_datavectors.txt": str(p / "dv.txt"),
                           f"{FISH_DATA}/a_posteriori_fisher_combs.txt": str(p / "post.txt")}
    brief = [v.toBriefString() for v in dvs[:3 + crosses]]
    ctx.data["dvs"] = brief
    return brief


def setup(k, ctx):
    k.overlay.update(ctx.data.get("overlay", {}))


def clone_inputs(ctx, root, name="inputs"):
    dst = Path(root) / "in"
    shutil.copytree(ctx.base / name, dst, symlinks=True)
    return dst


def js_args(inp, ex, tasks=("-cl", "-der", "-fish"), rundir=None, extra=()):
    a = ["-ex", ex, "-q", "medium", "-ncj", "2", "-mem", "2048", "-i", f"{inp}/data", *tasks,
         "-pmm_cfg", f"{inp}/cfg/pmm.json", "-cl_cfg", f"{inp}/cfg/angular.json",
         "-der_cfg", f"{inp}/cfg/derivative.json", "-fish_cfg", f"{inp}/cfg/fisher.json"]
    if rundir is None:
        a += ["-fcfg", f"{inp}/cfg/forecast.json", "-pmm_dir", f"{inp}/pmm/PowerSpectrum"]
    else:
        a += ["-rd", str(rundir)]
    return a + list(extra)


def clone_run(root, gold, drop=(), name="run"):
    """A copy of a golden run directory (and of the inputs it links to), without what matches drop."""
    gold = Path(gold)
    d = Path(root) / "work" / name
    if not (Path(root) / "in").exists():
        shutil.copytree(gold.parent.parent / "in", Path(root) / "in", symlinks=True)
    shutil.copytree(gold, d, symlinks=True)
    f = d / "input_files_dict.json"
    f.write_text(f.read_text().replace(str(gold.parent.parent), str(root)))
    for pat in drop:
        for p in list(d.glob(pat)):
            shutil.rmtree(p) if p.is_dir() and not p.is_symlink() else p.unlink()
    return d


def find_rundir(work):
    rs = sorted(p.parent for p in Path(work).glob("*/input_files_dict.json"))
    return rs[0] if len(rs) == 1 else None


def golden(ctx, name="golden", inputs="inputs", tasks=("-cl", "-der", "-fish"), extra=("--keep_cl_variations",)):
    """One fault-free interactive run of the real programs; its run directory is kept."""
    k = Kernel({"sched_seed": 7, "shuffle_dirs": False}, str(ctx.base / name))
    root = Path(k.root)
    root.mkdir(exist_ok=True)
    setup(k, ctx)
    inp = clone_inputs(ctx, root, inputs)
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    work = root / "work"
    work.mkdir()
    d = k.wait(k.spawn_script("job_submitter", js_args(inp, "interactive", tasks, extra=extra), work))
    k.close()
    if d.rc != 0:
        raise GoldenFailed(f"a fault-free run of the real programs failed ({d.rc}): {d.text[-3000:]}")
    return find_rundir(work)


class GoldenFailed(Exception):
    pass


def parallel(jobs, n=8):
    """{name: function} -> {name: result}, each called in a process of its own, n at a time."""
    todo, running, out, failed = list(jobs.items()), {}, {}, []
    while todo or running:
        while todo and len(running) < n:
            name, f = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    res = (True, f())
                except BaseException as e:
                    res = (False, f"{name}: {e}" if isinstance(e, GoldenFailed) else f"{name}: {traceback.format_exc()}")
                with os.fdopen(w, "wb") as h:
                    pickle.dump(res, h)
                os._exit(0)
            os.close(w)
            running[r] = (name, pid)
        for r in select.select(list(running), [], [])[0]:
            name, pid = running.pop(r)
            with os.fdopen(r, "rb") as h:
                data = h.read()
            os.waitpid(pid, 0)
            good, res = pickle.loads(data) if data else (False, f"{name}: no result")
            if good:
                out[name] = res
            else:
                failed.append(res)
    if failed:
        raise GoldenFailed(min(failed))
    return {n: out[n] for n in jobs}


# ------------------------------------------------------------------ stand-in compute programs
class Units:
    """Stand-ins for compute_cls / compute_derivatives / compute_fisher_matrix /
    evaluate_final_results: they check that their inputs are there, take simulated time, write
    (copied) outputs, and fail as told.  plan: {unit: {"fail": kind, "dt": s}}"""

    def __init__(self, k, ctx, gold, plan, default_dt=3.0, strict=False):
        self.strict = strict
        self.k, self.ctx, self.gold, self.plan, self.default_dt = k, ctx, Path(gold), plan, default_dt
        self.log = []                 # (step, "start"/"end", stage, unit, rc)
        self.missing = []
        self.argv = []                # (stage, arguments) of each program
        self.where = []               # run directory of each entry of log
        for n, st in (("compute_cls", "cls"), ("compute_derivatives", "der"), ("compute_fisher_matrix", "fish"),
                      ("evaluate_final_results", "res")):
            k.programs[n] = lambda k, argv, cwd, env, st=st, n=n: self.body(k, st, n, argv, cwd, env)

    def body(self, k, st, name, argv, cwd, env):
        wd = opt(argv, "--workdir", "-wd")
        rd = opt(argv, "--rundir", "-rd")
        if st in ("cls", "der"):
            wd = Path(cwd, wd or cwd)
            rd = Path(cwd, rd) if rd else wd.parent.parent
            units = [wd.name]
        elif st == "fish":
            rd = Path(cwd, rd or cwd)
            units = []
            for a in argv[1:]:
                if a.startswith("-"):
                    break
                units.append(a)
            if not units:
                return Done(2, b"", b"compute_fisher_matrix: error: the following arguments are required\n")
        else:
            if "batch" in argv[1:]:
                pid = k.spawn_script(name, argv[1:], cwd, env, label=name)
                return (yield ("wait", pid))
            rds = []
            for i, a in enumerate(argv):
                if a in ("-i", "--input_rundirs"):
                    for b in argv[i + 1:]:
                        if b.startswith("-"):
                            break
                        rds.append(b)
            rd = Path(cwd, rds[0] if rds else cwd)
            units = ["results"]
        self.argv.append((st, list(argv[1:]), cwd))
        for u in units:
            self.log.append((k.steps, "start", st, u, None))
            self.where.append(rd)
            k.log("unit-start", st, u)
            miss = self.inputs_missing(st, u, rd)
            if miss:
                self.missing.append((st, u, miss))
                if self.strict:                  # as the real programs do
                    k.log("unit-end", st, u, 1)
                    return Done(1, b"", f"FileNotFoundError: {miss[:3]}\n".encode())
            pl = self.plan_of(st, u, rd)
            yield ("sleep", pl.get("dt", self.default_dt))
            fail = pl.get("fail")
            if fail:
                k.fire(f"unit_{fail}")
            if fail in ("exit-silent", "exit-stderr", "killed", "late-exit-silent", "stderr-only"):
                if fail == "late-exit-silent":
                    self.outputs(st, u, rd, wd)
                rc = 137 if fail == "killed" else 1
                k.log("unit-end", st, u, rc)
                self.log.append((k.steps, "end", st, u, rc))
                self.where.append(rd)
                return Done(0 if fail == "stderr-only" else rc, b"working\n",
                            b"Traceback (most recent call last):\nMemoryError\n"
                            if fail in ("exit-stderr", "stderr-only") else b"")
            self.outputs(st, u, rd, wd)
            k.log("unit-end", st, u, 0)
            self.log.append((k.steps, "end", st, u, 0))
            self.where.append(rd)
        return Done(0, b"done\n")

    def plan_of(self, st, u, rd):
        return self.plan.get(f"{st}/{u}", {})

    def inputs_missing(self, st, u, rd):
        def one(d, pat):
            return d.is_dir() and len(list(d.glob(pat))) == 1
        if st == "cls":
            return [] if (rd / "norm_densities.hdf5").exists() else ["densities"]
        if st == "der":
            names = ["dvar_central_step_0"] + [f"dvar_{u}_step_{'m' if s < 0 else 'p'}_{abs(s)}" for s in STEPS]
            return [n for n in names if not one(rd / "Angular" / n, "cl*.h5")]
        if st == "fish":
            if not (rd / "Derivative").is_dir() or not any((rd / "Derivative").iterdir()):
                return ["Derivative"]
            m = [d.name for d in (rd / "Derivative").iterdir() if d.is_dir() and not one(d, "cl_derivatives*.h5")]
            if not (rd / "delta_cls.h5").exists():
                m.append("delta_cls")
            if u not in AUTOS and any(not (rd / "base_fishers" / f"fisher_{a}.hdf5").exists() for a in AUTOS):
                m.append("auto fishers")
            return m
        return [f"fisher {u}" for u in self.ctx.data["dvs"] if not (rd / "base_fishers" / f"fisher_{u}.hdf5").exists()]

    def outputs(self, st, u, rd, wd):
        g = self.gold
        if st == "cls":
            src = next((g / "Angular" / "dvar_central_step_0").glob("cl*.h5"))
            shutil.copy(src, wd / src.name)
        elif st == "der":
            src = next((g / "Derivative").glob("*/cl_deriv*.h5"))
            shutil.copy(src, wd / src.name.replace("_w0_", f"_{u}_"))
        elif st == "fish":
            (rd / "base_fishers").mkdir(exist_ok=True)
            src = g / "base_fishers" / f"fisher_{u}.hdf5"
            if not src.exists():                  # more data vectors in this run than in the reference run
                src = g / "base_fishers" / f"fisher_{AUTOS[0]}.hdf5"
            shutil.copy(src, rd / "base_fishers" / f"fisher_{u}.hdf5")
            if u in AUTOS and not (rd / "auto_fisher_of_ells.h5").exists():
                shutil.copy(g / "auto_fisher_of_ells.h5", rd)
        else:
            shutil.copytree(g / "final_results", rd / "final_results", dirs_exist_ok=True)


def expected_units(pars, tasks, dvs):
    e = {}
    if "-cl" in tasks:
        e["cls"] = stages(pars, STEPS)
    if "-der" in tasks:
        e["der"] = set(pars)
    if "-fish" in tasks:
        e["fish"] = set(dvs)
        e["res"] = {"results"}
    return e


ORDER = ["cls", "der", "fish", "res"]


def judge_units(k, u, exp, rc, failed_plan):
    """Order, exactly-once and fail-stop over the recorded units.  Returns (violations, ok)."""
    out = []

    def bad(cls, msg):
        out.append({"class": cls, "sig": cls, "msg": msg})
    starts, ends = {}, {}
    for step, what, st, unit, r in u.log:
        (starts if what == "start" else ends).setdefault((st, unit), []).append((step, r))
    for (st, unit), v in starts.items():
        if st not in exp or unit not in exp[st]:
            bad("unexpected-work", f"{st} {unit} was run although it is not part of this run")
        if len(v) > 1:
            bad("work-repeated", f"{st} {unit} was run {len(v)} times")
    for st, unit, miss in u.missing:
        bad("started-before-inputs", f"{st} {unit} was started while its inputs were missing: {miss[:4]}")
    present = [s for s in ORDER if s in exp]
    first_fail = min([s for v in ends.values() for s, r in v if r != 0], default=None)
    for i, s in enumerate(present[1:], 1):
        for (st, unit), v in starts.items():
            if st != s:
                continue
            for p in present[:i]:
                notyet = [x for x in exp[p] if not any(r == 0 and e <= v[0][0] for e, r in ends.get((p, x), []))]
                if notyet:
                    bad("stage-order", f"{st} {unit} was started before {len(notyet)} of the {p} units had finished "
                                       f"successfully ({sorted(notyet)[:3]})")
                    break
    return out, starts, ends, first_fail
