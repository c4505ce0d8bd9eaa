"""C05: an output file is under its final name complete or not at all, and an interrupted step can be repeated."""
import hashlib
import shutil

import numpy as np

from dst import compare, flow

ID = "C05"
TITLE = "Output files appear complete or not at all, and a failed step can be repeated"
RULE = ("a run is one program of the workflow (spectra, derivatives, Fisher matrices, final results, the "
        "table of derivatives, a density, or the submitter's own preparation) on a prepared run directory, with or without outputs of an earlier run, cut short 1-2 times at a random "
        "file operation (death, death in mid-write, full disk, I/O error), then repeated without faults; "
        "non-trivial: a fault fired; distinct: by program, state and faults fired")
REAL = ("compute_cls, compute_derivatives, compute_delta_cls, compute_fisher_matrix, evaluate_final_results, "
        "create_h5density, job_submitter; HDF5 library")
STUB = ("clock, process death, disk errors, directory order; power spectra are analytic; PyTables store kept in an HDF5 file; "
        "compute programs under job_submitter copy prepared outputs")
ASSUME = ["what a process wrote before it died is durable (process death, not power loss)"]
STORE = "auto_fisher_of_ells.h5"
N = {"quick": 260, "thorough": 30000}


def specs(dvs):
    cross = [d for d in dvs if d not in flow.AUTOS]
    def cl(name):
        return dict(script="compute_cls", out=[f"Angular/{name}/cl*.h5"],
                    argv=lambda rd: ["--workdir", rd / "Angular" / name, "--logfile", "log.log", "--main_config",
                                     "angular.json", "--rundir", rd], cwd=f"Angular/{name}")
    return {
        "cls-fid": cl("dvar_central_step_0"),
        "cls-var": cl("dvar_w0_step_m_3"),
        "der": dict(script="compute_derivatives", out=["Derivative/w0/cl_deriv*.h5"], cwd="Derivative/w0",
                    argv=lambda rd: ["--workdir", rd / "Derivative" / "w0", "--logfile", "log.log", "--main_config",
                                     "derivative.json", "--rundir", rd]),
        "fish-auto": dict(script="compute_fisher_matrix", cwd=".", drop=["base_fishers/fisher_*", "auto_fisher_of_ells.h5"],
                          out=[f"base_fishers/fisher_{a}.hdf5" for a in flow.AUTOS] + ["auto_fisher_of_ells.h5"],
                          argv=lambda rd: flow.AUTOS + ["--rundir", rd]),
        "fish-cross": dict(script="compute_fisher_matrix", cwd=".", out=[f"base_fishers/fisher_{a}.hdf5" for a in cross],
                           argv=lambda rd: cross + ["--rundir", rd]),
        "results": dict(script="evaluate_final_results", cwd=".", drop=["final_results"],
                        out=["final_results/*/*/*.hdf5", "final_results/*/*/*.csv", "final_results/*/*/*.xlsx"],
                        argv=lambda rd: ["-ex", "interactive", "-i", rd, "-wd", rd, "-ow", "True"]),
        "delta": dict(script="compute_delta_cls", cwd=".", out=["delta_cls.h5"], argv=lambda rd: [rd]),
        "density": dict(script="create_h5density", cwd=".", out=["PhotometricGalaxy_density.h5"],
                        argv=lambda rd: ["PhotometricGalaxy", "-ir", "phz", "-df", rd / "density.npz", "-f_sky", "0.3"]),
        "prepare": dict(script="job_submitter", cwd="..", drop=["norm_densities.hdf5", "delta_cls.h5", "run_metadata.json"],
                        out=["norm_densities.hdf5", "delta_cls.h5"],
                        argv=lambda rd: flow.js_args(rd.parent.parent / "in", "interactive", ["-cl"], rundir=rd,
                                                     extra=["--keep_cl_variations"])),
    }


def place(k, ctx, root, name, state):
    sp = specs(ctx.data["dvs"])[name]
    flow.setup(k, ctx)
    drop = (sp.get("drop") or sp["out"]) if state == "fresh" else []
    rd = flow.clone_run(root, ctx.data["gold"], drop=drop)
    k.env["SEYFERT_INPUT_DATA"] = f"{root}/in/data"
    if name == "prepare":
        flow.Units(k, ctx, ctx.data["gold"], {}, default_dt=0.0)
    return sp, rd


def start(k, sp, rd, label):
    return k.wait(k.spawn_script(sp["script"], sp["argv"](rd), rd / sp["cwd"], label=label))


def density_input(d):
    """What the specification "density" reads: no step of the workflow makes it."""
    z = np.linspace(0.01, 2.5, 40)
    np.savez(d / "density.npz", z=z, z_bin_edges=np.array([0.01, 0.8, 2.5]),
             dndzdomega_invsterad=z ** 2 * np.exp(-(z / 0.64) ** 1.5) * 1e8)


def prepare(ctx):
    from dst.kernel import Kernel
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    ctx.data["gold"] = flow.golden(ctx)
    density_input(ctx.data["gold"])
    ctx.data["ops"] = {}
    ctx.data["ref"] = {}
    for name in specs(ctx.data["dvs"]):
        for state in ("fresh", "over"):
            root = ctx.base / f"probe-{name}-{state}"
            root.mkdir()
            k = Kernel({"sched_seed": 1, "_record_ops": True, "shuffle_dirs": False}, str(root))
            sp, rd = place(k, ctx, root, name, state)
            d = start(k, sp, rd, "prog")
            k.close()
            if d.rc != 0:
                raise flow.GoldenFailed(f"{name} ({state}) failed without any fault ({d.rc}): {d.text[-2000:]}")
            ctx.data["ops"][f"{name}/{state}"] = [(kind, p) for lb, kind, p, _ in k.op_log if lb == "prog" and kind != "open_r"]
            if state == "fresh":
                ctx.data["ref"][name] = compare.reference(rd, sp["out"])
                if name == "density":             # no step of the workflow writes it
                    shutil.copy(rd / sp["out"][0], ctx.data["gold"])
                gold = compare.reference(ctx.data["gold"], sp["out"])
                if set(gold) != set(ctx.data["ref"][name]):
                    raise flow.GoldenFailed(f"{name} repeated alone wrote {sorted(ctx.data['ref'][name])}, "
                                            f"in the full run {sorted(gold)}")


def gen(rng, i, ctx):
    if "ops" not in ctx.data:
        return {"cuts": []}
    keys = sorted(ctx.data["ops"])
    key = keys[i % len(keys)] if rng.random() < 0.6 else rng.choice(keys)
    name, state = key.split("/")
    ops = ctx.data["ops"][key]
    cuts = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        if rng.random() < 0.4:
            n = rng.randrange(len(ops)) + 1
        else:
            idx = [j for j in range(1, len(ops)) if ops[j][1] != ops[j - 1][1]] or [0]
            n = rng.choice(idx) + rng.choice([0, 1])
        cuts.append({"nth": max(1, min(n, len(ops))), "act": rng.choice(["crash", "crash", "torn", "torn", "enospc", "eio"])})
    return {"prog": name, "state": state, "cuts": cuts}


def run(k, sc, ctx, root):
    sp, rd = place(k, ctx, root, sc["prog"], sc["state"])
    ref = ctx.data["ref"][sc["prog"]]
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": f"{cls} {sc['prog']}", "msg": f"{sc['prog']} ({sc['state']}): {msg}"})
    for j, cut in enumerate(sc["cuts"] + [None]):
        k.faults = [] if cut is None else [dict(cut, proc=f"prog{j}", kind="*", match="*", _n=0, _fired=False)]
        had = {n for n in ref if (rd / n).is_file()}
        d = start(k, sp, rd, f"prog{j}")
        fault = next((x[3:] for x in reversed(k.hist) if x[2] == "fault"), None) if cut else None
        there = [n for n in ref if (rd / n).is_file()]
        half = compare.compare(rd, ref, names=[n for n in there if n != STORE])
        if STORE in there:                    # grows by one entry per data vector; each entry is whole
            try:
                got = compare.content(rd / STORE)
            except Exception as e:
                half.append(("unreadable", f"{STORE} cannot be read: {type(e).__name__}: {e}"))
            else:
                dd = compare.diff(got, {a: b for a, b in ref[STORE].items() if a in got}, where=STORE)
                if dd:
                    half.append(("differs", dd))
                if d.rc == 0 and set(got) != set(ref[STORE]):
                    bad("failure-hidden", f"attempt {j + 1} ended with status 0 with only {sorted(got)} in {STORE}")
        extra = [n for n in compare.outputs(rd, sp["out"]) if n not in ref]
        if half:
            bad("partial-output", f"after attempt {j + 1} (exit {d.rc}, fault {fault}): {half[0][1]}")
        if extra:
            bad("stray-output", f"after attempt {j + 1} (exit {d.rc}, fault {fault}): {extra[:2]} would be taken for outputs")
        lost = had - set(there)
        if lost and sc["prog"] != "results":
            bad("lost-output", f"attempt {j + 1} (fault {fault}) destroyed {sorted(lost)[:2]}")
        if d.rc == 0 and len(there) < len(ref):
            bad("failure-hidden", f"attempt {j + 1} (fault {fault}) ended with status 0 without {sorted(set(ref) - set(there))[:2]}")
        if cut is None and d.rc != 0:
            bad("repeat-fails", f"repeating the step after {sc['cuts']} failed ({d.rc}): ...{d.text[-400:]}")
        m = rd / "run_metadata.json"
        if sc["prog"] == "prepare" and m.exists():
            import json
            try:
                json.loads(m.read_text())
            except ValueError as e:
                bad("partial-output", f"run_metadata.json cannot be parsed after attempt {j + 1} (fault {fault}): {e}")
        if V:
            break
        k.advance(2.0)
    k.nontrivial = bool(k.fired)
    k.state_key = hashlib.sha1(repr((sc["prog"], sc["state"], [x[3:] for x in k.hist if x[2] == "fault"])).encode()).hexdigest()
    k.note = f"{sc['prog']} {sc['state']}, faults {[x[3:] for x in k.hist if x[2] == 'fault']}"
    return V


def shrink(sc):
    for i in range(len(sc["cuts"])):
        yield dict(sc, cuts=sc["cuts"][:i] + sc["cuts"][i + 1:])
    for i, c in enumerate(sc["cuts"]):
        if c["act"] != "crash":
            yield dict(sc, cuts=sc["cuts"][:i] + [dict(c, act="crash")] + sc["cuts"][i + 1:])
    if sc["state"] == "over":
        yield dict(sc, state="fresh")
