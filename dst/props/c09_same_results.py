"""C09: the same forecast gives the same results however it is executed."""
import json
import random
import shutil
from pathlib import Path

import h5py
import numpy as np

from dst import compare, fixtures as fx, flow, single
from dst.cluster import Cluster

ID = "C09"
TITLE = "The same forecast gives the same results however it is executed"
RULE = ("a run is a whole forecast or some of its stages, executed by the real programs in one process, alone or after others, as a batch job, or as "
        "interactive or batch jobs, with random job order and timing, directory listing order, string hash seed and order of "
        "parameters in the configuration; outputs are compared number by number with one reference run; non-trivial: something "
        "differs from the reference run; distinct: by event trace")
REAL = "everything: submitters, compute programs, results evaluation, all numerical code"
STUB = "LSF, clock, shell; lists of data vectors and combinations shortened; tiny synthetic inputs"
ASSUME = ["tiny inputs exercise the same code paths as real ones"]
N = {"quick": 66, "thorough": 6000}
SHORT = [0.0125, 0.025, 0.05]
VARIANTS = {"w0": dict(free=("w0",)), "two": dict(free=("Omm", "w0")), "ia": dict(free=("w0",), include_IA=True, ia_free=("aIA",)),
            "gcsp": dict(free=("w0",), marg_sp=True, n_sp_bins=4), "ns": dict(free=("ns", "sigma8"), n_ell=4),
            "steps11": dict(free=("w0",), stem=[0.0125, 0.01875, 0.025, 0.03, 0.0375, 0.04, 0.05, 0.06, 0.07, 0.08, 0.1]),
            "steps3": dict(free=("h",), stem=SHORT)}


def probes(**kw):
    return lambda d: edit(d, "forecast", lambda j: [j["probes"][p].update(v) for p, v in kw.items()])


def edit(d, name, f):
    p = d / "cfg" / f"{name}.json"
    j = json.loads(p.read_text())
    f(j)
    fx.write_json(p, j)


def constant_bias(d):
    for n in ("ph_bias", "sp_bias"):
        with h5py.File(d / "data" / f"{n}.h5", "r+") as f:
            f["bias_model"].attrs["model_name"] = "constant"


def shot_noise(d):
    (d / "data" / "shot_noise").mkdir()
    ps = ["Lensing", "PhotometricGalaxy", "SpectroscopicGalaxy"]
    with h5py.File(d / "data" / "shot_noise" / "sn.h5", "w") as f:
        for i, a in enumerate(ps):
            for b in ps[i:]:
                f[f"{a}_{b}"] = np.eye(2) * 2e-8 if a == b else np.ones((2, 2)) * 1e-10
    edit(d, "forecast", lambda j: j["survey"].update(shot_noise_file="sn.h5"))


def multipoles(d):
    e = np.array([[10., 2], [30, 5], [100, 20], [200, 40], [300, 60]])
    for n, x in (("wl", e), ("ph", e[1:4]), ("sp", e[:4])):
        np.savetxt(d / "data" / f"ells_{n}.txt", x)
    probes(WL=dict(ell_external_filename="ells_wl.txt"), GCph=dict(ell_external_filename="ells_ph.txt"),
           GCsp=dict(ell_external_filename="ells_sp.txt"))(d)


# {variant: (arguments of write_inputs, further changes to the inputs)}
SETTINGS = {
    "analytic": (dict(marg_sp=True, marg_ph=True), probes(GCsp=dict(bias_derivative_method="Analytic"))),
    "analytic-ph": (dict(marg_ph=True), probes(GCph=dict(bias_derivative_method="Analytic"))),
    "constant": (dict(marg_sp=True), constant_bias),
    "constant-analytic": (dict(marg_ph=True), lambda d: (constant_bias(d), probes(GCph=dict(bias_derivative_method="Analytic"))(d))),
    "shot-noise": ({}, shot_noise),
    "multipoles": ({}, multipoles),
    "linear": (dict(l_max=14), probes(**{p: dict(ell_log_selection=False) for p in ("WL", "GCph", "GCsp")})),
    "off-diagonal": (dict(marg_sp=True), probes(GCsp=dict(specific_settings={"compute_gcsp_cl_offdiag": True}))),
    "ia-all": (dict(include_IA=True, ia_free=("aIA", "etaIA", "betaIA")), lambda d: None),
    "xc-noise": ({}, lambda d: edit(d, "fisher", lambda j: j.update(shot_noise_phsp_xc_factor=0.5))),
    "reversed": ({}, lambda d: edit(d, "forecast", lambda j: j.update(probes=dict(reversed(list(j["probes"].items())))))),
    "stem-factor": (dict(free=("Omm", "wa")), lambda d: edit(d, "forecast", lambda j: [
        p.update(stem_factor=2.0) for p in j["cosmology"]["parameters"] if p["name"] == "wa"])),
    "spline": ({}, lambda d: edit(d, "angular", lambda j: j["limber_pmm_spline_settings"].update(kx=1, ky=2))),
    "newton-cotes": ({}, lambda d: edit(d, "angular", lambda j: j["cl_integration_settings"].update(cl="newton-cotes_3"))),
}
ALL = [*VARIANTS, *SETTINGS]
SAME_STEPS = ["w0", "two", "ia", "gcsp", "ns"]       # differ in nothing but the forecast configuration
COMMON = ["norm_densities.hdf5", "delta_cls.h5", "base_fishers/fisher_*.hdf5", "final_results/*/*/*"]
FULL = ["Angular/dvar_central*/cl*.h5", "Derivative/*/cl_der*.h5", "auto_fisher_of_ells.h5"] + COMMON


def prepare(ctx):
    flow.fisher_lists(ctx)
    for v, kw in VARIANTS.items():
        flow.write_inputs(inputs_of(ctx, v), **kw)
    for v, (kw, change) in SETTINGS.items():
        change(flow.write_inputs(inputs_of(ctx, v), **dict(stem=SHORT, **kw)))
    got = flow.parallel({v: (lambda v=v: single.golden(ctx, inputs_of(ctx, v).name, f"single-{v}")[1]) for v in ALL}
                        | {"": lambda: str(flow.golden(ctx))})
    g = Path(got.pop(""))
    ctx.data["ref"] = got
    ctx.data["gold"] = str(g)
    ctx.data["stages"] = compare.reference(g, FULL)


def inputs_of(ctx, v):
    return ctx.base / ("inputs" if v == "w0" else f"inputs-{v}")


def gen(rng, i, ctx):
    kind = rng.choice(["single"] * 5 + ["single-batch"] * 2 + ["stage"] * 6 + ["jobs"] * 2 + ["many"] * 3)
    sc = {"kind": kind, "variant": rng.choice(ALL), "ex": rng.choice(["interactive", "batch", "batch"]),
          "jobseed": rng.getrandbits(30), "permute": rng.getrandbits(16) if rng.random() < 0.5 else None,
          "hashseed": rng.randrange(1, 4000) if rng.random() < (0.6 if kind != "jobs" else 0.3) else None, "keep": rng.random() < 0.5}
    if i < len(ALL):
        # the programs share the least code when they run as jobs: each variant once
        sc["kind"] = kind = "jobs"
        sc["variant"] = ALL[i]
    if kind == "many":
        sc["variants"] = rng.sample(SAME_STEPS, rng.choice([2, 2, 3]))
        sc["variant"] = sc["variants"][0]
    if kind == "stage":
        sc["variant"] = "w0"
        sc["tasks"] = rng.choice([["-cl"], ["-der"], ["-fish"], ["-fish"], ["-der", "-fish"], ["-cl", "-der"], ["res"], ["res"], ["fisher"]])
    return sc


def permuted(path, seed):
    """The same forecast with the parameters listed in another order."""
    r = random.Random(seed)
    d = json.loads(path.read_text())
    r.shuffle(d["cosmology"]["parameters"])
    ps = list(d["probes"].items())
    for _, p in ps:
        r.shuffle(p["extra_nuisance_parameters"])
    d["probes"] = dict(ps)
    fx.write_json(path, d)


def run(k, sc, ctx, root):
    jr = random.Random(sc["jobseed"])
    flow.setup(k, ctx)
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    cl = Cluster(k, lambda i, cmd: {"body": "real", "pend": jr.choice([0.1, 3, 40]) * jr.random(), "run": jr.random() * 5,
                                    "visible": jr.choice([0, 0, 2])}, first_id=jr.choice([98, 4100]))
    v = sc["variant"]
    inputs = inputs_of(ctx, v).name
    ref = ctx.data["ref"][v]
    if sc["kind"] == "stage":
        d, rd, names = stage(k, sc, ctx, root)
        ref = ctx.data["stages"]
        names = [n for n in ref if names(n)]
    elif sc["kind"] == "jobs":
        inp = flow.clone_inputs(ctx, root, inputs)
        if sc["permute"] is not None:
            permuted(inp / "cfg" / "forecast.json", sc["permute"])
        k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
        work = root / "work"
        work.mkdir()
        d = k.wait(k.spawn_script("job_submitter", flow.js_args(inp, sc["ex"], extra=["--keep_cl_variations"] * sc["keep"]), work))
        rd = flow.find_rundir(work)
        names = [n for n in ref if Path(n).match("norm_densities.hdf5") or n == "delta_cls.h5" or n.startswith(("base_fishers", "final"))
                 and "IST" not in n]
    elif sc["kind"] == "single-batch":
        inp = flow.clone_inputs(ctx, root, inputs)
        if sc["permute"] is not None:
            permuted(inp / "cfg" / "forecast.json", sc["permute"])
        k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
        work = root / "work"
        work.mkdir()
        a = ["-ex", "batch", "-i", str(inp / "data"), "-wd", str(work), "-fcfg", str(inp / "cfg" / "forecast.json"),
             "-pmm_dir", str(inp / "pmm" / "PowerSpectrum")]
        for t, n in single.CFG.items():
            a += [f"--{t}_config", str(inp / "cfg" / f"{n}.json")]
        d = k.wait(k.spawn_script("run_seyfert", a, work))
        k.drain()
        rd, names = flow.find_rundir(work), list(ref)
        if not cl.jobs or any(j.stat != "DONE" for j in cl.jobs.values()):
            bad("failed", f"the batch forecast ended as {[j.stat for j in cl.jobs.values()]}")
    elif sc["kind"] == "many":
        return many(k, sc, ctx, root, bad, V)
    else:
        inp, rd = single.place(k, ctx, root, inputs)
        if sc["permute"] is not None:
            permuted(inp / "cfg" / "forecast.json", sc["permute"])
        d = k.wait(k.spawn_script("run_seyfert", single.argv(inp, rd), root))
        names = list(ref)
    k.drain()
    k.tr("results", sc["kind"], d.rc)
    if d.rc != 0 or rd is None:
        bad("failed", f"a fault-free forecast ({describe(sc)}) failed ({d.rc}): ...{d.text[-600:]}")
        return V
    for kind, msg in compare.compare(rd, ref, names)[:3]:
        bad(f"result-{kind}", f"{describe(sc)}: {msg} (first: this run, second: the reference run)")
    k.nontrivial = True
    if sc["hashseed"]:
        k.fire("other-hash-seed")
    if sc["permute"] is not None and sc["kind"] != "stage":
        k.fire("parameters-reordered")
    k.note = describe(sc)
    return V


def many(k, sc, ctx, root, bad, V):
    """Several forecasts, one after the other in one process, each as if it were alone."""
    inp = flow.clone_inputs(ctx, root, inputs_of(ctx, sc["variant"]).name)
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    fcs = []
    for v in sc["variants"]:
        src = inputs_of(ctx, v)
        fcs.append(inp / "cfg" / f"fc-{v}.json")
        shutil.copy(src / "cfg" / "forecast.json", fcs[-1])
        if sc["permute"] is not None:
            permuted(fcs[-1], sc["permute"])
        for d in (src / "pmm" / "PowerSpectrum").iterdir():
            if not (inp / "pmm" / "PowerSpectrum" / d.name).exists():
                shutil.copytree(d, inp / "pmm" / "PowerSpectrum" / d.name)
    work = root / "work"
    work.mkdir()
    a = ["-ex", "interactive", "-i", str(inp / "data"), "-wd", str(work), "-pmm_dir", str(inp / "pmm" / "PowerSpectrum"),
         "-fcfg", *map(str, fcs)]
    for t, n in single.CFG.items():
        a += [f"--{t}_config", str(inp / "cfg" / f"{n}.json")]
    d = k.wait(k.spawn_script("run_seyfert", a, work))
    k.drain()
    k.tr("results", "many", d.rc)
    if d.rc != 0:
        bad("failed", f"{len(fcs)} forecasts in one process ({sc['variants']}) failed ({d.rc}): ...{d.text[-600:]}")
        return V
    for v in sc["variants"]:
        rds = list(work.glob(f"run_fc-{v}_*"))
        if len(rds) != 1:
            bad("failed", f"forecast {v} of {sc['variants']} has {len(rds)} run directories")
            continue
        for kind, msg in compare.compare(rds[0], ctx.data["ref"][v], list(ctx.data["ref"][v]))[:2]:
            bad(f"result-{kind}", f"{v}, one of {sc['variants']} in one process: {msg} (first: this run, second: the reference run)")
    k.nontrivial = True
    k.note = f"one process: {sc['variants']}"
    return V


def stage(k, sc, ctx, root):
    t = sc["tasks"]
    drop = []
    if "-cl" in t:
        drop += ["Angular", "norm_densities.hdf5", "delta_cls.h5"]
    if "-der" in t:
        drop += ["Derivative"]
    if "-fish" in t or t == ["fisher"]:
        drop += ["base_fishers", "auto_fisher_of_ells.h5", "final_results"]
    if t == ["res"]:
        drop += ["final_results"]
    rd = flow.clone_run(root, Path(ctx.data["gold"]), drop=drop)
    inp = root / "in"
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    work = rd.parent
    if t == ["res"]:
        d = k.wait(k.spawn_script("evaluate_final_results", ["-ex", sc["ex"], "-i", str(rd), "-wd", str(rd), "-q", "long", "-ncj", "1",
                                                             "-mem", "3000", "-ow", "False"], work))
        return d, rd, lambda n: n.startswith("final")
    if t == ["fisher"]:
        dvs = list(ctx.data["dvs"])
        random.Random(sc["jobseed"]).shuffle(dvs)
        auto, cross = [x for x in dvs if x in flow.AUTOS], [x for x in dvs if x not in flow.AUTOS]
        d = k.wait(k.spawn_script("compute_fisher_matrix", auto + ["--rundir", str(rd)], work))
        pids = [k.spawn_script("compute_fisher_matrix", [x, "--rundir", str(rd)], work) for x in cross]
        for p in pids:
            e = k.wait(p)
            d = e if e.rc else d
        return d, rd, lambda n: n.startswith(("base_fishers", "auto")) and "IST" not in n
    d = k.wait(k.spawn_script("job_submitter", flow.js_args(inp, sc["ex"], t, rundir=rd, extra=["--keep_cl_variations", "-ow"]), work))
    want = []
    if "-cl" in t:
        want += ["Angular", "norm_densities.hdf5", "delta_cls.h5"]
    if "-der" in t:
        want += ["Derivative"]
    if "-fish" in t:
        want += ["base_fishers", "auto_", "final_results"]
    return d, rd, lambda n: n.startswith(tuple(want))


def describe(sc):
    what = {"single": "one process", "single-batch": "one batch job", "jobs": f"{sc['ex']} jobs",
            "stage": f"{sc['ex']}, only {' '.join(sc.get('tasks', []))}"}[sc["kind"]]
    return (f"forecast '{sc['variant']}' as {what}" + (f", hash seed {sc['hashseed']}" if sc["hashseed"] else "")
            + (", parameters reordered" if sc["permute"] is not None else ""))


def shrink(sc):
    if sc["hashseed"]:
        yield dict(sc, hashseed=None)
    if sc["permute"] is not None:
        yield dict(sc, permute=None)
    if sc["ex"] == "batch":
        yield dict(sc, ex="interactive")
    if sc["kind"] == "many" and len(sc["variants"]) > 2:
        for i in range(3):
            yield dict(sc, variants=sc["variants"][:i] + sc["variants"][i + 1:])
    if sc["variant"] != "w0" and sc["kind"] not in ("stage", "many"):
        yield dict(sc, variant="w0")
    if sc["kind"] == "jobs":
        yield dict(sc, kind="single")
    if sc.get("shuffle_dirs", True):
        yield dict(sc, shuffle_dirs=False)
