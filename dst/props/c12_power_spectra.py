"""C12: each stored power spectrum is the solver's, for exactly the cosmology of its step."""
import json
import random
from pathlib import Path

import h5py
import numpy as np

from dst import compare, fixtures as fx, flow, solvers
from dst.cluster import Cluster

ID = "C12"
TITLE = "Each stored power spectrum is the solver's for exactly its step's cosmology"
RULE = ("a run is the power-spectrum stage of one forecast (any solver settings, grids, free parameters, step sizes, flat or "
        "curved), interactive or batch, with solvers that fail, hang or do not converge, dying jobs and disk errors, then the same "
        "stage again without faults, sometimes followed by the rest of the forecast; non-trivial: a fault, or any free parameter; "
        "distinct: by event trace")
REAL = ("job_submitter, compute_pmm, the solver drivers, Cosmology, HDF5; when followed by the rest of the forecast also "
        "compute_cls, compute_derivatives, compute_fisher_matrix and evaluate_final_results")
STUB = "the Boltzmann solvers camb and classy (closed-form spectra), LSF, clock, shell, file system faults"
ASSUME = ["CAMB's and CLASS's own numbers are right; CAMB is used with an ini file that has the entries that are updated"]
N = {"quick": 55, "thorough": 9000}
GOLD = [("h", 0.67), ("w0", -1.0), ("wa", 0.0), ("OmDE", 0.68), ("Omm", 0.32), ("Omb", 0.05), ("ns", 0.96), ("sigma8", 0.816),
        ("mnu", 0.06), ("gamma", 0.55)]
INIS = ["edited_cosmoist_params_full_withnu.ini", "camb_planck_2018.ini"]


def prepare(ctx):
    solvers.install()
    from seyfert.cosmology.cosmology import Cosmology
    for x in (0.5, np.array([0.5, 1.0])):                 # compiled once, for every run
        Cosmology._dimensionlessHubbleParameter(x, w0=-1.0, wa=0.0, Omm=0.3, OmDE=0.7)
    flow.fisher_lists(ctx)
    ctx.data["ref"] = {}
    sc = chain_case("CLASS")
    inp = ctx.base / "inputs-chain"
    write_inputs(inp, sc)
    fc = flow.load_fcfg(inp / "cfg" / "forecast.json", inp / "data")
    z, kk = grid(sc), kgrid(sc)
    for name, vals in expected(sc).items():
        for n, v in vals.items():
            fc.phys_pars[n].current_value = v
        fx.write_pmm_file(inp / "pmm" / "PowerSpectrum" / name / "p_mm.h5", fc.phys_pars, z, k=kk,
                          spectra=[solvers.spectrum(vals, z, kk, x) for x in (False, True)])
    g = flow.golden(ctx, name="golden", inputs="inputs-chain")
    ctx.data["ref"] = compare.reference(g, ["base_fishers/*.hdf5", "final_results/*/*/*.csv"])


def chain_case(code):
    return {"code": code, "ini": INIS[0], "free": ["w0"], "flat": True, "stem": list(fx.STEM), "factor": {}, "fid": dict(GOLD),
            "n_z": 40, "k": [50, 1e-4, 30], "chain": True}


def write_inputs(inp, sc):
    flow.write_inputs(inp, pmm=False)
    c = fx.forecast_config(free=sc["free"])
    c["cosmology"]["flat"] = sc["flat"]
    for p in c["cosmology"]["parameters"]:
        p["fiducial"] = p["current_value"] = sc["fid"][p["name"]]
        p["stem_factor"] = sc["factor"].get(p["name"], 1.0)
    c["derivative_settings"]["base_stem_disps"] = sc["stem"]
    fx.write_json(inp / "cfg" / "forecast.json", c)
    m = fx.pmm_config(sc["n_z"])
    s = m["boltzmann_codes_settings"]
    s["code"] = sc["code"]
    s["camb"].update(ini_filename=sc["ini"], k_max=sc["k"][0])
    s["class"].update(k_max=sc["k"][0], k_min=sc["k"][1], n_k=sc["k"][2])
    fx.write_json(inp / "cfg" / "pmm.json", m)
    (inp / "pmm" / "PowerSpectrum").mkdir(parents=True, exist_ok=True)


def grid(sc):
    return np.linspace(0.001, 2.5, sc["n_z"])


def kgrid(sc):
    if sc["code"] == "CLASS":
        return np.logspace(np.log10(sc["k"][1]), np.log10(sc["k"][0]), num=sc["k"][2])
    return np.geomspace(1e-4, sc["k"][0], 30)


def expected(sc):
    """{directory name: parameter values}"""
    out = {"dvar_central_step_0": dict(sc["fid"])}
    d = sorted(sc["stem"])
    for p in sc["free"]:
        for n, eps in enumerate(d, 1):
            for sgn, word in ((-1, "m"), (1, "p")):
                v = dict(sc["fid"])
                f = v[p]
                v[p] = f + sgn * eps * sc["factor"].get(p, 1.0) * (f if f != 0 else 1.0)
                if sc["flat"] and p == "Omm":
                    v["OmDE"] = 1 - v["Omm"]
                if sc["flat"] and p == "OmDE":
                    v["Omm"] = 1 - v["OmDE"]
                out[f"dvar_{p}_step_{word}_{n}"] = v
    return out


def gen(rng, i, ctx):
    code = rng.choice(["CLASS", "CAMB"])
    if i % 40 == 3:
        sc = chain_case(code)
        sc.update(ex="interactive", solver={}, cuts=[], kill=None, jobseed=1, disable_order=False, again=False)
        return sc
    flat = rng.random() < 0.7
    free = rng.sample([n for n, _ in GOLD], rng.choice([0, 1, 1, 1, 2, 3]))
    if flat and "OmDE" in free and "Omm" in free:
        free.remove("OmDE")
    ns = rng.choice([1, 2, 2, 3, 7, 9, 10, 12] if len(free) < 2 else [1, 2, 3])
    stem = sorted(rng.sample([0.00625, 0.0125, 0.01875, 0.025, 0.0375, 0.05, 0.1, 0.002, 0.004, 0.06, 0.08, 0.03], ns))
    if rng.random() < 0.2:
        rng.shuffle(stem)
    fid = dict(GOLD)
    for n, vals in (("h", [0.67, 0.7]), ("ns", [0.96, 1.0]), ("mnu", [0.06, 0.0, 0.15]), ("wa", [0.0, 0.2]), ("w0", [-1.0, -0.9]),
                    ("sigma8", [0.816, 0.8])):
        fid[n] = rng.choice(vals)
    if not flat:
        fid["OmDE"] = rng.choice([0.68, 0.7, 0.65])
    elif rng.random() < 0.4:
        fid["Omm"], fid["OmDE"] = rng.choice([(0.32, 0.68), (0.3, 0.7), (0.25, 0.75)])
    sc = {"code": code, "ini": rng.choice(INIS), "free": free, "flat": flat, "stem": stem, "fid": fid, "chain": False,
          "factor": {p: rng.choice([0.5, 2.0]) for p in free if rng.random() < 0.3},
          "n_z": rng.choice([12, 40, 40, 150, 151, 310]), "k": [rng.choice([50, 10, 20]), rng.choice([1e-5, 1e-4]), rng.choice([8, 30])]}
    dirs = sorted(expected(sc))
    sc.update(ex=rng.choice(["interactive", "batch"]), solver={}, cuts=[], kill=None, jobseed=rng.getrandbits(30), again=rng.random() < 0.5,
              op_dt=rng.choice([0, 0.001]))
    kind = rng.choice(["clean", "clean", "solver", "solver", "solver", "fault", "fault", "kill"])
    if kind == "solver":
        act = rng.choice(["raise", "raise", "memory", "exit", "loop"] if code == "CAMB" else ["raise", "memory", "exit"])
        for d in rng.sample(dirs, min(len(dirs), rng.choice([1, 1, 2]))):
            sc["solver"].setdefault("jobs", {})[d] = {"act": act, "call": rng.choice([1, 2, 3, 5]) if code == "CAMB" else 1}
        if act == "loop":
            for v in sc["solver"]["jobs"].values():
                v["call"] = 0
    if rng.random() < 0.5:
        sc["solver"]["all"] = {"dt": rng.choice([0.5, 20, 300])}
    if kind == "fault":
        for _ in range(rng.choice([1, 1, 2])):
            sc["cuts"].append({"proc": rng.choice(["compute_pmm", "compute_pmm", "compute_pmm", "*"]),
                               "kind": "*", "match": rng.choice(["*", "*p_mm.h5*", "*p_mm.h5*"]),
                               "nth": rng.choice([rng.randrange(1, 12), rng.randrange(1, 60)]),
                               "act": rng.choice(["crash", "die", "torn", "enospc", "eio"])})
    if kind == "kill" and sc["ex"] == "batch":
        sc["kill"] = rng.randrange(len(dirs))
    return sc


def run(k, sc, ctx, root):
    flow.setup(k, ctx)
    k.op_dt = sc.get("op_dt", 0)
    jr = random.Random(sc["jobseed"])
    inp = root / "in"
    write_inputs(inp, sc)
    work = root / "work"
    work.mkdir()
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    exp = expected(sc)
    rd = None
    rounds = 2 if sc["solver"].get("jobs") or sc["cuts"] or sc["kill"] is not None or sc["again"] else 1
    for rnd in range(rounds):
        k.env["DST_SOLVER"] = json.dumps(sc["solver"] if rnd == 0 else {})
        k.faults = [dict(f, _n=0, _fired=False) for f in sc["cuts"]] if rnd == 0 else []
        if sc["ex"] == "batch":
            kill = sc["kill"] if rnd == 0 else None

            def plan(i, cmd):
                p = {"body": "real", "pend": jr.choice([0.5, 3, 10]) * jr.random(), "run": jr.random() * 5}
                if i == kill:
                    p["outcome"] = "kill"
                    p["run"] = jr.choice([0.0, 1.0, 30.0])
                return p
            Cluster(k, plan)
        n0 = len(k.hist)
        had = {n for n in exp if rd and (rd / "PowerSpectrum" / n / "p_mm.h5").exists()}
        if rd is None:
            a = [x for x in flow.js_args(inp, sc["ex"], ["-pmm"])]
            j = a.index("-pmm_dir")
            del a[j:j + 2]
        else:
            a = flow.js_args(inp, sc["ex"], ["-pmm"], rundir=rd)
        d = k.wait(k.spawn_script("job_submitter", a, work))
        k.drain()
        rds = sorted(p for p in work.iterdir() if p.is_dir())
        hist = k.hist[n0:]
        broke = [x[2:] for x in hist if x[2] in ("fault", "crash") or x[2] == "note" and x[4:5] == ("solver-fault",)
                 or x[2] == "note" and "solver-fault" in x]
        slow = any(v.get("act") == "loop" for v in sc["solver"].get("jobs", {}).values()) and rnd == 0
        hurt = broke or slow or rnd == 0 and sc["kill"] is not None and sc["ex"] == "batch"
        if slow:
            k.fire("no-convergence")
        for x in broke:
            if "solver-fault" in x:
                k.fire("solver-fails")
        if len(rds) != 1:
            if not hurt:
                bad("fails", f"round {rnd}: the stage failed without any fault ({d.rc}): ...{d.text[-500:]}")
            break
        rd = rds[0]
        judge(k, sc, bad, rd, exp, had, rnd, d, hurt, broke)
        if V:
            break
        k.advance(10.0)
    if sc["chain"] and not V:
        d = k.wait(k.spawn_script("job_submitter", flow.js_args(inp, sc["ex"], rundir=rd), work))
        k.drain()
        if d.rc != 0:
            bad("chain-fails", f"the rest of the forecast failed ({d.rc}): ...{d.text[-600:]}")
        else:
            for name, msg in close(rd, ctx.data["ref"], sc["code"]):
                bad("chain-results", msg)
                break
        k.fire("whole-forecast")
    k.nontrivial = bool(k.fired) or bool(sc["free"])
    k.note = f"{sc['code']} {sc['ex']} free {sc['free']}"
    return V


def close(rd, ref, code):
    """The forecast from stored spectra of the same cosmologies gives the same numbers (CAMB: sigma8 is tuned to 1e-12)."""
    if code == "CLASS":
        return compare.compare(rd, ref)
    return compare.compare(rd, ref) and [x for x in loose(rd, ref)]


def loose(rd, ref):
    for n, v in ref.items():
        got = compare.content(rd / n) if (rd / n).exists() else None
        if got is None:
            yield n, f"{n} is missing"
            continue
        a, b = (got["matrix"], v["matrix"]) if "matrix" in v else (got["values"], v["values"])
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not np.allclose(a, b, rtol=1e-4, atol=1e-6 * np.nanmax(np.abs(b))):
            yield n, f"{n} differs"


def judge(k, sc, bad, rd, exp, had, rnd, d, hurt, broke):
    top = rd / "PowerSpectrum"
    there = sorted(p.name for p in top.iterdir() if p.is_dir()) if top.is_dir() else []
    extra = [n for n in there if n not in exp]
    if extra:
        bad("extra", f"round {rnd}: there are directories of no step of this forecast: {extra[:3]}")
    have = [n for n in exp if (top / n / "p_mm.h5").exists()]
    for n in have:
        m = wrong(top / n / "p_mm.h5", sc, exp[n])
        if m:
            bad(m[0], f"round {rnd} (status {d.rc}, {broke[:1]}): {n}/p_mm.h5: {m[1]}")
            return
    if d.rc == 0:
        miss = [n for n in exp if n not in have]
        if miss:
            bad("missing", f"round {rnd}: the stage succeeded without {len(miss)} of {len(exp)} spectra: {miss[:3]} ({broke[:2]})")
        if hurt and not (set(x for x in exp) <= set(have)):
            bad("failure-hidden", f"round {rnd}: the stage succeeded although {broke[:2]}")
    elif not hurt:
        bad("fails", f"round {rnd}: the stage failed without any fault ({d.rc}): ...{d.text[-700:]}")
    lost = [n for n in had if n not in have]
    if lost:
        bad("lost", f"round {rnd}: {lost[0]}/p_mm.h5 of the round before is gone ({broke[:1]})")


def near(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(b), 1e-300) + tol * np.max(np.abs(b), initial=0) * 1e-3))


def wrong(path, sc, vals):
    z, kk = grid(sc), kgrid(sc)
    try:
        with h5py.File(path, "r") as f:
            pars = {n: dict(g.attrs) for n, g in f["cosmology/cosmological_parameters"].items()}
            got = {n: f[f"power_spectrum/{n}"][()] for n in ("z_grid", "k_grid", "lin_p_mm_z_k", "nonlin_p_mm_z_k")}
            bg = {n: f[f"cosmology/{n}"][()] for n in ("z_grid", "dimensionless_hubble_array", "dimensionless_comoving_distance_array",
                                                      "growth_factor_z")}
            flat = bool(f["cosmology"].attrs["is_flat"])
            code = f["power_spectrum"].attrs["boltzmann_code"]
    except Exception as e:
        return "damaged", f"cannot be read: {type(e).__name__}: {e}"
    for n, v in vals.items():
        if n not in pars or abs(pars[n]["current_value"] - v) > 1e-12 * max(1, abs(v)) or pars[n]["fiducial"] != sc["fid"][n]:
            return "parameters", f"is marked {n}={pars.get(n, {}).get('current_value')} (fiducial {pars.get(n, {}).get('fiducial')}), " \
                                 f"expected {v} (fiducial {sc['fid'][n]})"
    if set(pars) != set(vals) or flat != sc["flat"] or code != sc["code"]:
        return "parameters", f"is marked {sorted(pars)}, flat {flat}, solver {code}"
    if not near(got["z_grid"], z) or not near(bg["z_grid"], z) or not near(got["k_grid"], kk):
        return "grids", "is not on the configured grids"
    for n, nl in (("lin_p_mm_z_k", False), ("nonlin_p_mm_z_k", True)):
        p = solvers.spectrum(vals, z, kk, nl)
        if got[n].shape != p.shape or not np.allclose(got[n], p, rtol=1e-8, atol=0):
            r = np.max(np.abs(got[n] / p - 1)) if got[n].shape == p.shape else got[n].shape
            return "spectrum", f"{n} is not the solver's for {vals} (off by {r})"
    E = np.sqrt(vals["Omm"] * (1 + z) ** 3 + vals["OmDE"] * (1 + z) ** (3 * (1 + vals["w0"] + vals["wa"])) * np.exp(-3 * vals["wa"] * z / (1 + z))
                + (1 - vals["Omm"] - vals["OmDE"]) * (1 + z) ** 2)
    if not np.allclose(bg["dimensionless_hubble_array"], E, rtol=1e-9):
        return "background", "has the expansion rate of another cosmology"
    x, w = np.polynomial.legendre.leggauss(60)
    def Ez(t):
        return np.sqrt(vals["Omm"] * (1 + t) ** 3 + vals["OmDE"] * (1 + t) ** (3 * (1 + vals["w0"] + vals["wa"])) *
                       np.exp(-3 * vals["wa"] * t / (1 + t)) + (1 - vals["Omm"] - vals["OmDE"]) * (1 + t) ** 2)
    r = np.array([np.sum(w / Ez(a / 2 * (x + 1))) * a / 2 for a in z])
    if not np.allclose(bg["dimensionless_comoving_distance_array"], r, rtol=1e-7):
        return "background", "has the distances of another cosmology"
    P = solvers.spectrum(vals, z, kk)
    if not np.allclose(bg["growth_factor_z"], np.sqrt(P[:, 0] / P[0, 0]), rtol=1e-8):
        return "background", "has the growth of another cosmology"
    return None


def shrink(sc):
    if sc["chain"]:
        return
    for i in range(len(sc["cuts"])):
        yield dict(sc, cuts=sc["cuts"][:i] + sc["cuts"][i + 1:])
    jobs = sc["solver"].get("jobs", {})
    for n in jobs:
        yield dict(sc, solver=dict(sc["solver"], jobs={a: b for a, b in jobs.items() if a != n}))
    if sc["solver"].get("all"):
        yield dict(sc, solver={"jobs": jobs} if jobs else {})
    if len(sc["stem"]) > 1 and not jobs:
        yield dict(sc, stem=sc["stem"][:-1])
    for p in sc["free"]:
        if not any(f"dvar_{p}_" in d for d in jobs):
            yield dict(sc, free=[x for x in sc["free"] if x != p])
    for a, v in (("kill", None), ("again", False), ("ex", "interactive"), ("flat", True), ("factor", {}), ("n_z", 12), ("fid", dict(GOLD))):
        if sc[a] != v:
            yield dict(sc, **{a: v})
