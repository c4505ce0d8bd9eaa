"""C13: every stored number of a forecast is the one its inputs imply (refinement of a reference model)."""
import json
import random
from pathlib import Path

import h5py
import numpy as np

from dst import configs, flow, model, refine, single
from dst.cluster import Cluster
from dst.flow import FISH_DATA
from dst.kernel import REPO

ID = "C13"
TITLE = "Every stored number of a forecast is the one its inputs imply"
RULE = ("a run is a whole forecast of a random configuration in one process or as jobs, some interrupted by a disk error or "
        "death and repeated; or one stage (derivatives, Fisher matrices, final results) fed with random contents; every output is "
        "recomputed from the definitions by a separate model; non-trivial: always; distinct: by configuration and faults fired")
REAL = "everything: submitters, compute programs, results evaluation, all numerical code"
STUB = "LSF, clock, shell, disk errors; lists of data vectors and combinations shortened; analytic power spectra"
ASSUME = ["the stored power spectra are those of their step (C12)",
          "a forecast whose parameters its data cannot constrain (Fisher matrix singular to 1e-9) has no defined errors"]
N = {"quick": 170, "thorough": 20000}
DVS = flow.AUTOS + ["wlwl_phph", "wlwl_phph_wlph", "wlwl_wlph", "phph_wlph"]
COMBOS = ["[GCph] + [GCsp]", "[WL] + [GCph]", "[WL+GCph+XC(WL,GCph)] - [GCph]", "[WL+XC(WL,GCph)] + [GCph] + [GCsp]",
          "[GCph] + [XC(GCph,GCsp)]", "[GCsp] + [WL+GCph]", "[WL+GCph] + [GCsp(Pk)]", "[WL] + [GCph] - [GCph+XC(WL,GCph)]"]
STAGES = {"wide": dict(free=("w0", "wa", "Omm", "h"), marg_ph=True, marg_sp=True, include_IA=True, ia_free=("aIA",),
                       stem=[0.0125, 0.025]),
          "steps": dict(free=("w0",), marg_sp=True)}


def prepare(ctx):
    flow.fisher_lists(ctx, crosses=4)
    ctx.data["lum"] = f"{REPO}/seyfert/data/input_data/scaledmeanlum-E2Sa.dat"
    for n, kw in STAGES.items():
        flow.write_inputs(ctx.base / f"inputs-{n}", **kw)
    got = flow.parallel({n: (lambda n=n: str(flow.golden(ctx, f"golden-{n}", f"inputs-{n}"))) for n in STAGES})
    ctx.data["gold"] = got


def gen(rng, i, ctx):
    kind = rng.choice(["single"] * 6 + ["jobs"] + ["der"] * 3 + ["fish"] * 3 + ["res"] * 3)
    sc = {"kind": kind, "seed": rng.getrandbits(30), "fault": None, "ex": rng.choice(["interactive", "batch"])}
    if rng.random() < 0.3:
        sc["fault"] = {"kind": rng.choice(["*", "*", "open_r", "open_w,close,rename"]), "nth": int(10 ** rng.uniform(0, 2.3)),
                       "act": rng.choice(["eio", "enospc", "crash", "torn"])}
    if kind in ("single", "jobs"):
        sc["options"] = configs.draw(rng)
        if kind == "jobs":
            sc["options"]["stem"] = rng.choice([[0.0125, 0.025], [0.02]])
            sc["options"]["free"] = sc["options"]["free"][:1]
            sc["fault"] = None
    if kind == "res":
        sc["combos"] = rng.sample(COMBOS, rng.choice([1, 2, 4]))
    if kind == "der":
        sc["gold"] = rng.choice(list(STAGES))
    return sc


def config(ctx, inp):
    cfg = model.Config(inp / "cfg", inp / "data", inp / "pmm" / "PowerSpectrum")
    cfg.lum = ctx.data["lum"]
    return cfg


def run(k, sc, ctx, root):
    flow.setup(k, ctx)
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": f"{cls} {sc['kind']}", "msg": f"{describe(sc)}: {msg}"})
    combos = sc.get("combos") or [c for c in Path(ctx.data["overlay"][f"{FISH_DATA}/a_posteriori_fisher_combs.txt"]).read_text().split("\n") if c]
    k.nontrivial = True
    k.note = describe(sc)
    start, judge = {"single": forecast, "jobs": jobs, "der": derivatives, "fish": fishers, "res": results}[sc["kind"]](k, sc, ctx, root, combos)
    k.faults = [dict(sc["fault"], proc="prog0*", match="*", _n=0, _fired=False)] if sc["fault"] else []
    d = start("prog0")
    again = d.rc != 0 and bool(k.fired)
    if again:
        k.faults = []
        d = start("prog1")
    k.drain()
    k.state_key = f"{json.dumps(sc, sort_keys=True)} {again}"
    if d.rc != 0:
        if "Singular matrix" in d.text and sc["kind"] in ("single", "jobs"):
            k.note += " (degenerate)"
            return V
        bad("failed", f"ended with status {d.rc}{' when repeated without fault' if again else ''}: ...{d.text[-600:]}")
        return V
    j = judge()
    for c, m in j.V[:3]:
        bad(c, m + (" (repeated after a fault)" if again else " (exit status 0 though a fault fired)" if k.fired and not again else ""))
    for c, n in j.done.items():
        k.tr("judged", c, n)
    return V


def forecast(k, sc, ctx, root, combos):
    configs.write(sc["options"], root / "in")
    cfg = config(ctx, root / "in")
    k.env["SEYFERT_INPUT_DATA"] = f"{root}/in/data"
    w = root / "work"
    w.mkdir()
    (w / "PowerSpectrum").symlink_to(root / "in" / "pmm" / "PowerSpectrum")
    return (lambda label: k.wait(k.spawn_script("run_seyfert", single.argv(root / "in", w), root, label=label)),
            lambda: refine.judge(cfg, w, DVS, combos))


def jobs(k, sc, ctx, root, combos):
    configs.write(sc["options"], root / "in")
    cfg = config(ctx, root / "in")
    jr = random.Random(sc["seed"])
    Cluster(k, lambda i, cmd: {"body": "real", "pend": jr.random() * 5, "run": jr.random() * 5}, first_id=4100)
    k.env["SEYFERT_INPUT_DATA"] = f"{root}/in/data"
    w = root / "work"
    w.mkdir()
    return (lambda label: k.wait(k.spawn_script("job_submitter", flow.js_args(root / "in", sc["ex"], extra=["--keep_cl_variations"]), w, label=label)),
            lambda: refine.judge(cfg, flow.find_rundir(w), DVS, combos))


def stage(k, ctx, root, name, drop):
    rd = flow.clone_run(root, Path(ctx.data["gold"][name]), drop=drop)
    k.env["SEYFERT_INPUT_DATA"] = f"{root}/in/data"
    return rd, config(ctx, ctx.base / f"inputs-{name}")


def put(group, name, value):
    del group[name]
    group[name] = value


def derivatives(k, sc, ctx, root, combos):
    """Derivatives of made-up spectra: linear and not, of either sign, crossing zero, vanishing at some step."""
    nr = np.random.RandomState(sc["seed"])
    rd, cfg = stage(k, ctx, root, sc["gold"], ["Derivative"])
    par = cfg.free[nr.randint(len(cfg.free))]
    base = {}
    with h5py.File(refine.path(rd, "dvar_central_step_0"), "r") as f:
        for n, g in f["cls"].items():
            base[n] = g["c_lij"][()].shape
    scale = 10.0 ** nr.randint(-12, 3)
    law = {n: (nr.randint(0, 9, s), nr.normal(size=s), nr.normal(size=s), nr.normal(size=s)) for n, s in base.items()}
    xs = {s: cfg.values(par, s)[par] for s in cfg.steps}
    for s in cfg.steps:
        t = (xs[s] - xs[0]) / max(abs(v - xs[0]) for v in xs.values())
        with h5py.File(refine.path(rd, refine.variation(par, s) if s else "dvar_central_step_0"), "r+") as f:
            for n, (kind, a, b, c) in law.items():
                y = a + np.select([kind == i for i in range(9)],
                                  [b * t, b * t + 0.03 * c * t ** 2, b * t + c * t ** 3, 10 * b * t, 0 * t + 0 * a, c * abs(t) ** 3 + b * t,
                                   b * t + 0.02 * c * nr.normal(size=a.shape), b * np.sign(t) * t ** 2, c * np.exp(2 * t) - b])
                y = np.where((kind == 3) & (nr.random_sample(a.shape) < 0.1), 0.0, y)
                f["cls"][n]["c_lij"][...] = scale * y
    wd = rd / "Derivative" / par
    wd.mkdir(parents=True, exist_ok=True)

    def judge():
        j = refine.Judge(cfg, rd, DVS, combos)
        got = {par: refine.jobs_ders(rd)[par]}
        cfg.free = [par]
        j.derivatives(got, lambda p: {s: refine.stored_spectra(refine.path(rd, refine.variation(p, s) if s else "dvar_central_step_0"))
                                      for s in cfg.steps})
        return j
    return (lambda label: k.wait(k.spawn_script("compute_derivatives", ["--workdir", wd, "--logfile", "log.log", "--main_config",
                                                                        "derivative.json", "--rundir", rd], wd, label=label)), judge)


def fishers(k, sc, ctx, root, combos):
    """Fisher matrices from made-up covariances and derivatives, with multipoles of each probe's own."""
    nr = np.random.RandomState(sc["seed"])
    rd, cfg = stage(k, ctx, root, "wide", ["base_fishers", "auto_fisher_of_ells.h5", "final_results"])
    pool = np.sort(nr.choice(np.arange(10, 3000), 6, replace=False)).astype(float)
    shared = set(nr.choice(6, nr.randint(1, 4), replace=False))
    own = {p: sorted(shared | set(nr.choice(6, nr.randint(1, 5), replace=False))) for p in cfg.probes}
    if nr.random_sample() < 0.4:
        own = {p: list(range(6)) for p in cfg.probes}
    n = {p: cfg.dens[p]["edges"].size - 1 for p in cfg.probes}
    at = dict(zip(cfg.probes, np.cumsum([0] + list(n.values()))))
    size = sum(n.values())
    D = []
    for _ in pool:
        a = nr.normal(size=(size, 2 * size))
        s = 10.0 ** nr.uniform(-1, 1, size)
        D.append(1e-8 * (a @ a.T / size) * np.outer(s, s))
    D = np.array(D)
    delta = {}
    for a, b in cfg.pairs:
        ix = [i for i in own[a] if i in own[b]]
        delta[(a, b)] = pool[ix], D[ix][:, at[a]:at[a] + n[a], at[b]:at[b] + n[b]]
    with h5py.File(rd / "delta_cls.h5", "r+") as f:
        for (a, b), (e, m) in delta.items():
            for g in [f[f"single_blocks/{a}_{b}"]] + ([f[f"delta_cls/{a}"]] if a == b else []):
                put(g, "l_bin_centers", e)
                put(g, "delta_c_lij", m)
                for x in ("l_bin_widths", "c_lij", "noise_lij", "inv_delta_c_lij"):
                    if x in g:
                        put(g, x, {"l_bin_widths": np.ones(len(e)), "inv_delta_c_lij": np.linalg.inv(m) if a == b else m}.get(x, m))
        for name, g in f["delta_cls"].items():
            if name.endswith("XC"):
                e, m = model.joint(name.split("+")[:-1], delta)
                put(g, "l_bin_centers", e)
                put(g, "delta_c_lij", m)
                put(g, "inv_delta_c_lij", np.linalg.inv(m))
    for par in cfg.free:
        s = 10.0 ** nr.randint(-10, -6)
        probe = cfg.pars[par]["probe"]
        with h5py.File(next((rd / "Derivative" / par).glob("cl_derivatives*.h5")), "r+") as f:
            for (a, b), (e, m) in delta.items():
                put(f[f"{a}_{b}"], "l_bin_centers", e)
                d = s * nr.normal(size=m.shape)
                put(f[f"{a}_{b}"], "dc_lij", (d + np.transpose(d, (0, 2, 1)) if a == b else d) * (probe in (None, a, b)))
    todo = [x for x in DVS if x not in flow.AUTOS]
    nr.shuffle(todo)

    def start(label):
        d = k.wait(k.spawn_script("compute_fisher_matrix", flow.AUTOS + ["--rundir", rd], rd, label=label))
        if d.rc:
            return d
        if sc["ex"] == "batch":               # side by side
            ds = [k.wait(p) for p in [k.spawn_script("compute_fisher_matrix", [x, "--rundir", rd], rd, label=f"{label}-{x}") for x in todo]]
        else:
            ds = [k.wait(k.spawn_script("compute_fisher_matrix", todo + ["--rundir", rd], rd, label=label))]
        return next((x for x in ds if x.rc), ds[0])

    def judge():
        j = refine.Judge(cfg, rd, DVS, combos)
        j.fishers({p: (e, m) for p, (e, m) in delta.items()}, refine.jobs_ders(rd))
        return j
    return start, judge


def results(k, sc, ctx, root, combos):
    """Final results of made-up Fisher matrices with parameters in any order."""
    nr = np.random.RandomState(sc["seed"])
    rd, cfg = stage(k, ctx, root, "wide", ["final_results"])
    for p in sorted((rd / "base_fishers").glob("fisher_*.hdf5")):
        with h5py.File(p, "r+") as f:
            names = [x.decode() for x in f["indices"][()]]
            if nr.random_sample() < 0.3 and len(names) > 4 and "IST" not in p.name:      # some matrices lack a parameter
                names.remove([x for x in names if x not in ("w0", "wa")][nr.randint(len(names) - 2)])
            nr.shuffle(names)
            a = nr.normal(size=(len(names), 3 * len(names)))
            s = 10.0 ** nr.uniform(-2, 4, len(names))
            put(f, "fisher_matrix", a @ a.T * np.outer(s, s))
            put(f, "indices", np.array(names, dtype="S"))
            for g in ("cosmological_pars", "nuisance_pars"):
                if g in f:
                    put(f, g, np.array([x for x in f[g][()] if x.decode() in names], dtype="S"))
    post = root / "post.txt"
    post.write_text("\n".join(combos) + "\n")
    k.overlay[f"{FISH_DATA}/a_posteriori_fisher_combs.txt"] = str(post)

    def judge():
        j = refine.Judge(cfg, rd, DVS, combos)
        j.results()
        return j
    return (lambda label: k.wait(k.spawn_script("evaluate_final_results", ["-ex", "interactive", "-i", str(rd), "-wd", str(rd), "-ow", "True"],
                                                rd, label=label)), judge)


def describe(sc):
    what = {"single": "a forecast in one process", "jobs": f"a forecast as {sc['ex']} jobs", "der": "derivatives of random spectra",
            "fish": "Fisher matrices of random covariances", "res": "results of random Fisher matrices"}[sc["kind"]]
    return what + (f" with {json.dumps(sc['options'])}" if "options" in sc else f" (seed {sc['seed']})")


def shrink(sc):
    if sc["fault"]:
        yield dict(sc, fault=None)
    for n in sc.get("options", ()):
        if n not in ("free", "seed"):
            yield dict(sc, options={a: b for a, b in sc["options"].items() if a != n})
    if sc["kind"] == "jobs":
        yield dict(sc, kind="single")
    if len(sc.get("combos", ())) > 1:
        yield dict(sc, combos=sc["combos"][:1])
    if sc.get("shuffle_dirs", True):
        yield dict(sc, shuffle_dirs=False)
