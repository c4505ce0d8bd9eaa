"""C16: missing or damaged inputs are reported, never replaced by something else."""
import hashlib
import json
import random
import re
import shutil
from pathlib import Path

import h5py
import numpy as np

from dst import compare, flow, single, solvers
from dst.kernel import Kernel
from dst.props import c05_outputs as c05, c12_power_spectra as c12

ID = "C16"
TITLE = "Missing or damaged inputs are reported, never silently replaced"
RULE = ("a run is one program of the workflow, or a whole single-process forecast, started with one or two of the files it reads "
        "missing, empty, cut short, of another format, lacking one entry, unreadable or failing to be read at one moment, and then "
        "again with the file restored; non-trivial: something was damaged; distinct: by program, file and kind of damage")
REAL = "run_seyfert, compute_pmm, compute_cls, compute_derivatives, compute_fisher_matrix, evaluate_final_results, compute_delta_cls, create_h5density, job_submitter; HDF5 library"
STUB = "clock, disk errors, directory order; power spectra are analytic (closed-form stand-ins for camb and classy)"
ASSUME = ["damage that leaves a file complete and consistent (other numbers) cannot be told from another input"]
N = {"quick": 370, "thorough": 20000}
FORECASTS = {"single": "inputs", "single-other-values": "inputs2"}
SPECTRA = ["pmm-CLASS", "pmm-CAMB"]         # matter power spectra one step away from a universe that may be curved (and is not)
PMM_OUT = ["PowerSpectrum/dvar_Omm_step_p_1/p_mm.h5"]
NOT_INPUT = (".log", ".txt", ".ini", ".pyc")


def start(k, ctx, root, name, rd, label):
    if name in FORECASTS:
        return k.wait(k.spawn_script("run_seyfert", single.argv(root / "in", rd), root, label=label))
    if name in SPECTRA:
        wd = rd / "PowerSpectrum" / "dvar_Omm_step_p_1"
        return k.wait(k.spawn_script("compute_pmm", ["--workdir", wd, "--logfile", "log.log", "--main_config", "pmm.json", "--rundir", rd],
                                     wd, label=label))
    return c05.start(k, c05.specs(ctx.data["dvs"])[name], rd, label)


def outputs(ctx, name):
    return compare.SINGLE if name in FORECASTS else PMM_OUT if name in SPECTRA else c05.specs(ctx.data["dvs"])[name]["out"]


def prepare_spectra(ctx):
    """Run directories made ready for the power spectra of a universe that may be curved."""
    solvers.install()
    from seyfert.cosmology.cosmology import Cosmology
    for x in (0.5, np.array([0.5, 1.0])):                 # compiled once, for every run
        Cosmology._dimensionlessHubbleParameter(x, w0=-1.0, wa=0.0, Omm=0.3, OmDE=0.7)
    for name in SPECTRA:
        root = ctx.base / f"ready-{name}"
        sc = dict(c12.chain_case(name[4:]), flat=False, free=["Omm"], stem=[0.01, 0.02])
        c12.write_inputs(root / "in", sc)
        (root / "work").mkdir()
        k = Kernel({"sched_seed": 1, "shuffle_dirs": False}, str(root))
        flow.setup(k, ctx)
        k.env["SEYFERT_INPUT_DATA"] = f"{root}/in/data"
        a = flow.js_args(root / "in", "no", ["-pmm"])
        j = a.index("-pmm_dir")
        d = k.wait(k.spawn_script("job_submitter", a[:j] + a[j + 2:], root / "work"))
        k.close()
        rd = flow.find_rundir(root / "work")
        if d.rc != 0 or rd is None:
            raise flow.GoldenFailed(f"preparing the power spectra failed ({d.rc}): {d.text[-2000:]}")
        ctx.data["ready"][name] = rd


def place(k, ctx, root, name):
    if name in FORECASTS:
        flow.setup(k, ctx)
        return single.place(k, ctx, root, FORECASTS[name])[1]
    if name in SPECTRA:
        flow.setup(k, ctx)
        rd = flow.clone_run(root, ctx.data["ready"][name])
        k.env["SEYFERT_INPUT_DATA"] = f"{root}/in/data"
        k.env["DST_SOLVER"] = "{}"
        return rd
    return c05.place(k, ctx, root, name, "fresh")[1]


def other_values(d):
    """Values that no part of the program would choose by itself."""
    for n, f in (("angular", lambda j: j["limber_pmm_spline_settings"].update(kx=2, ky=2)),
                 ("fisher", lambda j: (j.update(shot_noise_phsp_xc_factor=0.5),
                                       j["cl_derivatives"].update(Lensing_SpectroscopicGalaxy=False))),
                 ("forecast", lambda j: [p.update(l_min=12) for p in j["probes"].values()])):
        p = d / "cfg" / f"{n}.json"
        j = json.loads(p.read_text())
        f(j)
        p.write_text(json.dumps(j))


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    other_values(flow.write_inputs(ctx.base / "inputs2", include_IA=True, f_sky=0.3, l_max=250, n_ell=4))
    flow.fisher_lists(ctx)
    ctx.data["gold"] = flow.golden(ctx)
    c05.density_input(ctx.data["gold"])
    ctx.data["reads"], ctx.data["ref"], ctx.data["ready"] = {}, {}, {}
    prepare_spectra(ctx)
    where = {}
    for name in sorted(c05.specs(ctx.data["dvs"])) + sorted(FORECASTS) + SPECTRA:
        root = ctx.base / f"probe-{name}"
        root.mkdir()
        k = Kernel({"sched_seed": 1, "_record_ops": True, "shuffle_dirs": False}, str(root))
        rd = place(k, ctx, root, name)
        had = {str(p) for p in root.rglob("*")}
        d = start(k, ctx, root, name, rd, "prog")
        k.close()
        if d.rc != 0:
            raise flow.GoldenFailed(f"{name} failed without any fault ({d.rc}): {d.text[-2000:]}")
        reads = []
        for lb, kind, p, _ in k.op_log:
            p = p.replace("$R", str(root))
            if lb == "prog" and kind == "open_r" and p in had and not p.endswith(NOT_INPUT) and Path(p).is_file():
                reads.append(str(Path(p).relative_to(root)))
        ctx.data["reads"][name] = sorted(set(reads))
        ctx.data["ref"][name] = compare.reference(rd, outputs(ctx, name))
        for f in ctx.data["reads"][name]:
            for x in leaves(root / f):
                where.setdefault((name in SPECTRA, re.sub(r"[0-9]+", "#", Path(f).name), x), []).append((name, f))
    # every named entry of every kind of file, each with the programs that read it
    ctx.data["entries"] = [(key[-1], where[key]) for key in sorted(where)]
    random.Random(7).shuffle(ctx.data["entries"])


def gen(rng, i, ctx):
    if not FORECASTS.keys() <= ctx.data.get("ref", {}).keys():
        return {"damage": []}
    if i % 5:
        es = ctx.data["entries"]
        leaf, at = es[(i - 1 - i // 5) % len(es)]
        name, f = rng.choice(at)
        return {"prog": name, "damage": [{"file": f, "kind": "entry", "leaf": leaf, "r": rng.getrandbits(30)}]}
    names = sorted(n for n in ctx.data["reads"] if ctx.data["reads"][n])
    name = names[i // 5 % len(names)] if rng.random() < 0.6 else rng.choice(sorted(FORECASTS))
    dam = []
    for _ in range(rng.choice([1, 1, 1, 1, 2])):
        left = [f for f in ctx.data["reads"][name] if f not in [d["file"] for d in dam]]
        if not left:
            break
        f = rng.choice(left)
        kind = rng.choice(["missing", "empty", "cut", "text", "dir", "entry", "entry", "entry", "entry", "eio", "eacces"])
        dam.append({"file": f, "kind": kind, "r": rng.getrandbits(30)})
    return {"prog": name, "damage": dam}


def entries(f):
    """Paths of all groups, datasets and attributes."""
    out = []

    def visit(n, o):
        out.append(("obj", n))
        out.extend(("attr", n, a) for a in o.attrs)
    f.visititems(visit)
    out.extend(("attr", "/", a) for a in f.attrs)
    return sorted(out)


def keys(d, path=()):
    for a, v in (d.items() if isinstance(d, dict) else enumerate(d) if isinstance(d, list) else ()):
        yield path + (a,)
        yield from keys(v, path + (a,))


def json_paths(j):
    # leaving out a whole probe is another configuration
    return [x for x in keys(j) if not (len(x) == 2 and x[0] == "probes") and isinstance(x[-1], str)]


def h5_leaf(e):
    return e[-1] if e[0] == "attr" else e[1].split("/")[-1]


def leaves(p):
    """The names of all entries of a file."""
    if p.suffix in (".h5", ".hdf5"):
        with h5py.File(p, "r") as f:
            return sorted({h5_leaf(e) for e in entries(f)})
    if p.suffix == ".json":
        return sorted({x[-1] for x in json_paths(json.loads(p.read_text()))})
    if p.suffix == ".npz":
        with np.load(p) as f:
            return sorted(f.files)
    return []


def damage(p, d):
    """Returns a description, or None if there is nothing to damage."""
    r = random.Random(d["r"])
    k = d["kind"]
    if not p.is_file():
        return None
    if k == "missing":
        p.unlink()
        return "missing"
    if k == "empty":
        p.write_bytes(b"")
        return "empty"
    if k == "text":
        p.write_bytes(b"404 Not Found\n")
        return "something else"
    if k == "dir":
        p.unlink()
        p.mkdir()
        return "a directory"
    data = p.read_bytes()
    if k == "cut":
        n = r.randrange(1, max(2, len(data) - 1))
        p.write_bytes(data[:n])
        return f"cut to {n} of {len(data)} bytes"
    if k == "entry":
        if p.suffix in (".h5", ".hdf5"):
            with h5py.File(p, "r+") as f:
                es = [e for e in entries(f) if h5_leaf(e) == d.get("leaf", h5_leaf(e))]
                if not es:
                    return None
                e = r.choice(es)
                if e[0] == "obj":
                    del f[e[1]]
                else:
                    del f[e[1]].attrs[e[2]]
            return f"without {' '.join(e)}"
        if p.suffix == ".json":
            j = json.loads(data)
            ks = [x for x in json_paths(j) if x[-1] == d.get("leaf", x[-1])]
            if not ks:
                return None
            path = r.choice(ks)
            o = j
            for a in path[:-1]:
                o = o[a]
            del o[path[-1]]
            p.write_text(json.dumps(j))
            return f"without {path}"
        if p.suffix == ".npz":
            with np.load(p) as f:
                j = dict(f)
            n = d.get("leaf") or r.choice(sorted(j))
            del j[n]
            np.savez(p, **j)
            return f"without {n}"
    return None


def only_density_absent(p, ref):
    """The copy of the input densities kept with the spectra lacks what the input lacked; nothing else differs."""
    if not p.name.startswith("cl"):
        return False
    try:
        c = compare.content(p)
    except (OSError, ValueError):
        return False
    lost = {n for n in ref if n not in c}
    return all(n.startswith("weight_functions/") and "/density/" in n for n in lost) and not compare.diff(
        c, {n: v for n, v in ref.items() if n not in lost})


def run(k, sc, ctx, root):
    name = sc["prog"]
    ref = ctx.data["ref"][name]
    rd = place(k, ctx, root, name)
    V, done = [], []
    save = root / "saved"
    save.mkdir()
    k.faults = []
    for i, d in enumerate(sc["damage"]):
        p = root / d["file"]
        if d["kind"] in ("eio", "eacces"):
            k.faults.append({"proc": "prog0", "kind": "open_r", "match": f"*{d['file']}", "nth": 1 + d["r"] % 2, "act": d["kind"],
                             "_n": 0, "_fired": False})
            done.append(f"{d['file']}: {d['kind']}")
            continue
        if p.is_file():
            shutil.copy(p, save / str(i))
        what = damage(p, d)
        if what:
            k.fire("input-" + d["kind"])
            done.append(f"{d['file']}: {what}")

    def bad(cls, msg):
        V.append({"class": cls, "sig": f"{cls} {name} {done[0].split(': ')[-1] if done else ''}", "msg": f"{name} with {'; '.join(done)}: {msg}"})
    for j in range(2):
        d = start(k, ctx, root, name, rd, f"prog{j}")
        k.drain()
        there = [n for n in ref if (rd / n).is_file()]
        if j == 0 and name == "results" and any("base_fishers" in x["file"] and x["kind"] == "missing" for x in sc["damage"]):
            # the results are those of the Fisher matrices that are there
            there = [n for n in there if n.endswith(".hdf5")]
        elif j == 0 and d.rc == 0 and len(there) < len(ref):
            bad("incomplete", f"status 0 without {sorted(set(ref) - set(there))[:3]}")
        wrong = [w for n in there if n != c05.STORE or d.rc == 0 for w in compare.compare(rd, ref, names=[n])
                 if not (j == 0 and only_density_absent(rd / n, ref[n]))]
        if wrong and j == 0:
            bad("replaced" if d.rc == 0 else "wrong-output", f"status {d.rc}; {wrong[0][1]}")
        elif wrong:
            bad("remains", f"with the inputs restored: {wrong[0][1]}")
        if j == 1 and d.rc != 0:
            bad("not-recovered", f"with the inputs restored it fails ({d.rc}): ...{d.text[-500:]}")
        if V or j == 1:
            break
        k.faults = []
        for i, x in reversed(list(enumerate(sc["damage"]))):
            p = root / x["file"]
            if (save / str(i)).exists():
                if p.is_dir():
                    shutil.rmtree(p)
                shutil.copy(save / str(i), p)
        k.advance(2.0)
        if d.rc == 0:
            break
    k.nontrivial = bool(k.fired)
    k.state_key = hashlib.sha1(repr((name, done)).encode()).hexdigest()
    k.note = f"{name}: {'; '.join(done)}"
    return V


def shrink(sc):
    for i in range(len(sc["damage"])):
        if len(sc["damage"]) > 1:
            yield dict(sc, damage=sc["damage"][:i] + sc["damage"][i + 1:])
