"""C18: external spectra, angular spectra and Fisher matrices are converted exactly, each under its own step."""
import hashlib
import random
import re
from pathlib import Path

import numpy as np

from dst import compare, fixtures as fx, seam
from dst.props.c07_confinement import tree

ID = "C18"
TITLE = "Converted external inputs are the source's numbers, each under its own step"
RULE = ("a run is 1-3 processes, one after another or at once, each using one reader for 1-5 conversions of generated sources of power "
        "spectra, angular spectra, derivatives and Fisher matrices, intact or damaged, with unreadable files, full disks and process "
        "death at random operations, and listings in any order; non-trivial: a fault fired, a source was damaged, processes ran at "
        "once or a reader was used again; distinct: by calls, outcomes and faults")
REAL = "the reader of external inputs, the classes it fills and stores, and the HDF5 library"
STUB = "disk errors, process death, directory order, clock, scheduling"
ASSUME = ["a damaged row is one with a value missing or not a number: another number is another source",
          "conversions started for the same name in the same second may refuse each other"]
N = {"quick": 400, "thorough": 40000}

STEM = fx.STEM
EPS = {"6p3E-3": 0.00625, "1p3E-2": 0.0125, "1p9E-2": 0.01875, "2p5E-2": 0.025, "3p8E-2": 0.0375, "5p0E-2": 0.05, "1p0E-1": 0.1}
NAMES = {"Omb": "Ob", "OmDE": "Ode", "Omm": "Om", "h": "h", "ns": "ns", "sigma8": "s8", "w0": "w0", "wa": "wa"}
FID = dict(fx.COSMO)
PROBES = {"GCph": ("PhotometricGalaxy", "PhotometricGalaxy"), "GCsp": ("SpectroscopicGalaxy", "SpectroscopicGalaxy"),
          "XC": ("PhotometricGalaxy", "SpectroscopicGalaxy")}
SHAPE = {"GCph": (10, 10), "GCsp": (4, 4), "XC": (10, 4)}
FISH = {"WL": "[WL]", "GCph": "[GCph]", "GCsp": "[GCsp(Pk)]", "GCph_WL_XC": "[WL+GCph+XC(WL,GCph)]",
        "GCsp_GCph_WL_XC": "[WL+GCph+XC(WL,GCph)] + [GCsp(Pk)]"}


# ------------------------------------------------------------------ sources and what they mean
def cosmologies(s):
    return [None] + [tuple(x) for x in s["steps"]]


def tag(c):
    return "fiducial" if c is None else f"{NAMES[c[0]]}_{'mn' if c[1] < 0 else 'pl'}_eps_{c[2]}"


def step_dir(c):
    if c is None:
        return "dvar_central_step_0"
    return f"dvar_{c[0]}_step_{'m' if c[1] < 0 else 'p'}_{list(EPS).index(c[2]) + 1}"


def values(c, flat):
    v = dict(FID)
    if c is not None:
        p, sign, e = c
        v[p] = FID[p] + sign * EPS[e] * (FID[p] or 1)
        if flat and p == "Omm":
            v["OmDE"] = 1 - v["Omm"]
        if flat and p == "OmDE":
            v["Omm"] = 1 - v["OmDE"]
    return v


def num(s, c, what, *shape):
    """The numbers of one file of the source, as they are printed there."""
    r = np.random.RandomState(int(hashlib.sha1(repr([s["seed"], c, what]).encode()).hexdigest()[:8], 16))
    a = 10.0 ** r.uniform(-3, 4, shape)
    return np.array([float(f"{x:.8e}") for x in a.ravel()]).reshape(shape)


def grids(s):
    z = np.array([float(f"{x:.6e}") for x in np.linspace(0.0 if s["z0"] else 0.05, 2.5, s["nz"])])
    k = np.array([float(f"{x:.6e}") for x in np.geomspace(1e-4, 30, s["nk"])])
    return z, k


def rows_text(rows):
    return [" ".join(x if isinstance(x, str) else f"{x:.12g}" for x in r) for r in rows]


def pairs(name, s):
    a, b = SHAPE[name]
    p = [(i, j) for i in range(a) for j in range(b) if a != b or j >= i]
    if name == "XC" and s.get("xct"):
        p = [(j, i) for i, j in p]
    return p


def cl_lines(s, c, name):
    p = pairs(name, s)
    v = num(s, c, name, len(s["ells"]), len(p))
    b = s["base"]
    head = [f"{i + b}{s['sep']}{j + b}" for i, j in p]
    out = ["# ell " + " ".join(head[:7])] + ["# " + " ".join(head[7:])] if s["split"] and len(head) > 7 else ["# ell " + " ".join(head)]
    return out, rows_text([[f"{l:.6f}"] + [f"{x:.8e}" for x in r] for l, r in zip(s["ells"], v)])


def cl_values(s, c, name):
    a, b = SHAPE[name]
    p = pairs(name, s)
    v = num(s, c, name, len(s["ells"]), len(p))
    out = np.zeros((len(s["ells"]), a, b))
    for n, (i, j) in enumerate(p):
        if name == "XC" and s.get("xct"):
            i, j = j, i
        out[:, i, j] = v[:, n]
        if a == b:
            out[:, j, i] = v[:, n]
    return out


def fish_values(s):
    n = len(s["names"])
    m = num(s, "fisher", "m", n, n)
    return m + m.T


def our_name(n):
    m = re.fullmatch(r"b([0-9]+)", n)
    return f"bgph{int(m.group(1)) - 1}" if m else {"Omegam": "Omm", "Omegab": "Omb", "Omegade": "OmDE"}.get(n, n)


def expected(s):
    """What the (intact) source holds, in the program's terms; for directories: {name of step: ...}."""
    if s["kind"] == "pmm":
        z, k = grids(s)
        out = {}
        for c in cosmologies(s):
            v = values(c, s["flat"])
            h = v["h"]
            pl, pn = num(s, c, "lin", len(z), len(k)), num(s, c, "nonlin", len(z), len(k))
            out[step_dir(c)] = {"pars": {n: float(x) for n, x in v.items()}, "flat": s["flat"], "model": "CPL", "code": "CAMB",
                                "z": z[z > 0], "z_cosmo": z[z > 0], "k": k * h, "lin": pl[z > 0] / h ** 3, "nonlin": pn[z > 0] / h ** 3}
        return out
    if s["kind"] == "cls":
        ell = np.array([float(f"{l:.6f}") for l in s["ells"]])
        return {step_dir(c): {f"{a}_{b}": {"ell": ell, "cl": cl_values(s, c, n), "probes": [a, b]} for n, (a, b) in PROBES.items()}
                for c in cosmologies(s)}
    if s["kind"] == "ders":
        return {p: {f"{PROBES[n][0]}_{PROBES[n][1]}": cl_values(s, p, n) for n in s["probes"]} for p in s["pars"]}
    names = [our_name(n) for n in s["names"]]
    order = sorted(range(len(names)), key=lambda i: names[i])
    m = fish_values(s)
    return {"name": s["given"] or FISH.get(s["which"]), "index": [names[i] for i in order], "columns": [names[i] for i in order],
            "m": m[np.ix_(order, order)], "cos": sorted(n for n in names if not s["split_pars"] or not n.startswith("bgph")),
            "nui": sorted(n for n in names if s["split_pars"] and n.startswith("bgph"))}


def damage_rows(d, head, rows, per=None):
    """The text of the file after the damage (None: no file)."""
    r = random.Random(d["seed"])
    rows = list(rows)
    i = r.randrange(len(rows))
    what = d["what"]
    if what == "missing":
        return None
    if what == "empty":
        return ""
    if what == "text":
        return "this is not a table of numbers\nand never was\n"
    if what == "norows":
        return "\n".join(head) + "\n"
    if what == "row":
        del rows[i]
    elif what == "twice":
        rows.insert(i, rows[i])
    elif what == "cut":
        t = rows[i].split()
        rows = rows[:i] + [" ".join(t[:r.randrange(1, len(t))])]
    elif what in ("nan", "word"):
        t = rows[i].split()
        t[r.randrange(len(t))] = {"nan": "nan", "word": "1.23e-0x4"}[what]
        rows[i] = " ".join(t)
    elif what == "short":
        t = rows[i].split()
        del t[r.randrange(len(t))]
        rows[i] = " ".join(t)
    return "\n".join(head + rows) + "\n"


def write_source(s, root):
    r = random.Random(s["seed"])
    d = s.get("damage")
    files = {}
    if s["kind"] == "pmm":
        z, k = grids(s)
        for c in cosmologies(s):
            pl, pn = num(s, c, "lin", len(z), len(k)), num(s, c, "nonlin", len(z), len(k))
            rows = [[f"{z[i]:.6e}", f"{k[j]:.6e}", f"{pl[i, j]:.8e}", f"{pn[i, j]:.8e}"]
                    for i in (range(len(z)) if s["order"] == "asc" else reversed(range(len(z)))) for j in range(len(k))]
            if s["order"] == "any":
                r.shuffle(rows)
            sub = "" if c is None else f"{tag(c) if s['own_dirs'] else NAMES[c[0]]}/"
            files[f"{sub}pkz-{'Fiducial' if c is None else tag(c)}.txt"] = ([], rows_text(rows), c)
    elif s["kind"] == "cls":
        for c in cosmologies(s):
            for n in PROBES:
                files[f"{n}/Cij-{tag(c)}.dat"] = (*cl_lines(s, c, n), c)
    elif s["kind"] == "ders":
        for p in s["pars"]:
            for n in s["probes"]:
                files[f"{n}/dCijGGd{NAMES[p]}-{NAMES[p]}-Stef.dat"] = (*cl_lines(s, p, n), p)
    else:
        m = fish_values(s)
        files[f"EuclidISTF_{s['which']}_w0wa_flat.txt" if s["which"] in FISH else f"{s['which']}.txt"] = (
            [" ".join(s["names"])], rows_text([[f"{x:.17g}" for x in row] for row in m]), None)
    names = sorted(files)
    hit = None if not d else "pkz-Fiducial.txt" if s["kind"] == "pmm" and d["what"] == "missing" else names[d["file"] % len(names)]
    for n in names:
        head, rows, c = files[n]
        t = damage_rows(d, head, rows) if n == hit else "\n".join(head + rows) + "\n"
        p = root / n
        p.parent.mkdir(parents=True, exist_ok=True)
        if t is not None:
            p.write_text(t)
    if s["kind"] == "pmm" and r.random() < 0.4:
        for sub in sorted({Path(n).parent for n in names}):
            (root / sub / "README.md").write_text("# notes\n")
    return files[hit][2] if d else "none"


# ------------------------------------------------------------------ scenarios
def gen_source(rng):
    kind = rng.choice(["pmm"] * 5 + ["cls"] * 4 + ["ders", "fish", "fish"])
    s = {"kind": kind, "seed": rng.getrandbits(24)}
    flat = rng.random() < 0.6
    if kind in ("pmm", "cls"):
        pars = rng.sample(sorted(NAMES), rng.choice([1, 1, 2, 3, 8]))
        if flat and {"Omm", "OmDE"} <= set(pars):
            pars.remove(rng.choice(["Omm", "OmDE"]))
        if rng.random() < 0.5 and "h" not in pars:
            pars.append("h")
        steps = [[p, sg, e] for p in pars for sg in (-1, 1) for e in EPS]
        if len(pars) > 3 or rng.random() < 0.7:
            steps = rng.sample(steps, min(len(steps), rng.randrange(1, 9)))
        s["steps"] = steps
        s["flat"] = flat
    if kind == "pmm":
        s.update(nz=rng.choice([2, 3, 6]), nk=rng.choice([2, 5, 9]), z0=rng.random() < 0.6, own_dirs=rng.random() < 0.5,
                 order=rng.choice(["desc", "desc", "asc", "any"]))
    elif kind in ("cls", "ders"):
        s.update(base=rng.randrange(2), sep=rng.choice(["-", ",", "_"]), split=rng.random() < 0.3, xct=rng.random() < 0.3,
                 ells=sorted(rng.sample(range(10, 3000), rng.choice([1, 2, 3, 7]))))
        if kind == "ders":
            s.update(pars=rng.sample(sorted(NAMES), rng.randrange(1, 5)), probes=rng.sample(sorted(PROBES), rng.randrange(1, 4)))
        elif len(s["steps"]) > 6:
            s["steps"] = s["steps"][:6]
    else:
        names = rng.sample(["Omegam", "Omegab", "w0", "wa", "h", "ns", "sigma8", "Omegade"], rng.randrange(1, 9))
        names += [f"b{i + 1}" for i in range(rng.choice([0, 0, 1, 10, 12]))]
        rng.shuffle(names)
        s.update(names=names, which=rng.choice(sorted(FISH) + ["fisher_other"]), given=rng.choice([None, None, "mine"]),
                 split_pars=rng.random() < 0.4)
    if rng.random() < 0.35:
        whats = ["missing", "empty", "text", "norows", "row", "cut", "word", "short"]
        whats += ["nan"] if kind in ("pmm", "fish") else []
        whats += ["twice"] if kind in ("pmm", "fish") else []
        s["damage"] = {"what": rng.choice(whats), "file": rng.choice([0, 0, rng.randrange(50)]), "seed": rng.getrandbits(20)}
        # what leaves another consistent source behind is no damage
        w = s["damage"]["what"]
        if kind == "ders" and w in ("missing", "row") or kind == "fish" and len(s["names"]) == 1 and w in ("cut", "short"):
            s["damage"]["what"] = "word"
        elif kind == "fish" and w == "missing":
            s["damage"]["what"] = "empty"
    return s


def gen(rng, i, ctx):
    srcs = [gen_source(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    procs = []
    par = rng.random() < 0.3
    for p in range(rng.choice([1, 2, 3]) if not par else 2):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3, 5])):
            ops.append({"src": rng.randrange(len(srcs)), "dst": rng.choice(["a", "a", "b"]), "pause": rng.choice([0, 0.3, 1.0, 2.5, 2.5])})
        faults = []
        if rng.random() < 0.4:
            w = rng.choice(["read", "write", "write", "die"])
            faults.append({"kind": "open_r" if w == "read" else rng.choice(["h5ds", "mkdir", "open_w", "h5ds,h5grp,h5attr", "rename"])
                           if w == "write" else "*", "nth": rng.choice([1, 2, 3, 5, 8, 13, 21, 40]),
                           "act": rng.choice(["eio", "eacces"]) if w == "read" else rng.choice(["eio", "enospc"]) if w == "write"
                           else rng.choice(["crash", "die"]), "match": "$R/s*" if w == "read" else "$R/out/*"})
        procs.append({"ops": ops, "faults": faults, "free": sorted(NAMES) if rng.random() < 0.7 else "needed"})
    return {"srcs": srcs, "procs": procs, "par": par, "op_dt": rng.choice([0.0, 0.0, 0.01])}


# ------------------------------------------------------------------ simulated processes
def parameters(s, free):
    from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
    c = PhysicalParametersCollection(base_stem_disps=np.array(STEM), is_universe_flat=s["flat"])
    for n, v in fx.COSMO:
        c[n] = PhysicalParameter(name=n, fiducial=v, current_value=v, kind="CosmologicalParameter", is_free_parameter=n in free,
                                 stem_factor=1.0, derivative_method="SteM", units="None")
    return c


def client(ops, srcs, free):
    """One process: a reader for each set of parameters, used for all its conversions."""
    import time
    from seyfert.file_io.ext_input import ISTInputReader
    from seyfert.fisher.fisher_matrix import FisherMatrix
    readers = {}
    out = []
    for j, op in enumerate(ops):
        s = srcs[op["src"]]
        if op["pause"]:
            time.sleep(op["pause"])
        src, dst = Path(f"s{op['src']}"), Path(f"out/{op['dst']}{op['src']}")
        fr = set(NAMES) if free != "needed" else {x[0] for x in s.get("steps", [])}
        if s.get("flat") and {"Omm", "OmDE"} <= fr:
            fr -= {"Omm", "OmDE"} - {x[0] for x in s["steps"]} or {"Omm"}
        key = (s.get("flat"), tuple(sorted(fr)))
        if key not in readers:
            readers[key] = ISTInputReader(parameters({"flat": bool(s.get("flat"))}, fr))
        r = readers[key]
        seam.note("begin", j)
        try:
            if s["kind"] == "pmm":
                r.convertISTPowerSpectra(src, dst, s["flat"], "CPL")
                got = None
            elif s["kind"] == "cls":
                r.convertSCameraDerivativesInput(src, dst)
                got = None
            elif s["kind"] == "ders":
                got = {p: dict(d) for p, d in r.readSCameraClDerivatives(src).items()}
            else:
                f = next(src.glob("*.txt"))
                kw = {}
                names = [our_name(n) for n in s["names"]]
                if s["split_pars"]:
                    kw = {"cosmological_parameters": {n for n in names if not n.startswith("bgph")},
                          "nuisance_parameters": {n for n in names if n.startswith("bgph")}}
                m = FisherMatrix.from_ISTfile(f, name=s["given"], **kw)
                got = {"name": m.name, "index": [str(x) for x in m.matrix.index], "columns": [str(x) for x in m.matrix.columns],
                       "m": m.matrix.to_numpy(), "cos": sorted(m.cosmological_parameters), "nui": sorted(m.nuisance_parameters)}
        except Exception as e:
            seam.note("raised", j, type(e).__name__, str(e)[:150])
        else:
            seam.note("ok", j)
            out.append((j, got))
    return out


def reader(root):
    """Read every stored file back as the workflow does."""
    from seyfert.cosmology.c_ells import AngularCoefficientsCollector
    from seyfert.cosmology.cosmology import Cosmology
    out = {}
    for d in sorted(Path(root).iterdir()):
        out[d.name] = {}
        for f in sorted(d.glob("*/*")):
            if f.suffix != ".h5":
                continue
            try:
                if f.name == "p_mm.h5":
                    c = Cosmology.fromHDF5(f)
                    p = c.power_spectrum
                    x = {"pars": {n: float(q.current_value) for n, q in c.params.items()}, "flat": bool(c.is_flat),
                         "model": c.model_name, "code": p.boltzmann_code, "z": p.z_grid, "k": p.k_grid, "z_cosmo": c.z_grid,
                         "lin": p.lin_p_mm_z_k, "nonlin": p.nonlin_p_mm_z_k}
                else:
                    c = AngularCoefficientsCollector.fromHDF5(f)
                    x = {key: {"ell": a.l_bin_centers, "cl": a.c_lij, "probes": [a.probe1, a.probe2]} for key, a in c.cl_dict.items()}
                out[d.name][f.parent.name] = ("ok", f.name, x)
            except Exception as e:
                out[d.name][f.parent.name] = ("raised", f.name, f"{type(e).__name__}: {e}"[:150])
    return out


FILE = {"pmm": "p_mm.h5", "cls": "cl_PhotometricGalaxy_SpectroscopicGalaxy.h5"}
STAMP = r"\d{4}-\d\d-\d\dT\d\d-\d\d-\d\d"


def run(k, sc, ctx, root):
    V = []

    def bad(cls, msg, what=""):
        V.append({"class": cls, "sig": f"{cls} {what}", "msg": msg})
    srcs = sc["srcs"]
    hurt = {}
    for i, s in enumerate(srcs):
        (root / f"s{i}").mkdir()
        hurt[i] = write_source(s, root / f"s{i}")
    before = {i: tree(root / f"s{i}") for i in range(len(srcs))}
    (root / "out").mkdir()
    want = {i: expected(s) for i, s in enumerate(srcs)}
    mine = {}                   # pid -> (proc number)
    for n, p in enumerate(sc["procs"]):
        fs = [dict(f, proc=f"p{n}", _n=0, _fired=False) for f in p["faults"]]
        k.faults = (k.faults if sc["par"] else []) + fs
        pid = k.spawn_call(client, p["ops"], srcs, p["free"], cwd=str(root), label=f"p{n}")
        mine[pid] = n
        if not sc["par"]:
            k.wait(pid)
            k.advance(2.0)
    dones = {mine[pid]: k.wait(pid) for pid in mine}
    k.faults = []
    k.advance(5.0)
    got = k.wait(k.spawn_call(reader, "out", cwd=str(root), label="reader"))
    if got.rc:
        bad("driver", f"reading the outputs: {got.text[-300:]}")
        return V
    stored = got.ret
    # what happened to every call
    byproc = {f"p{n}": n for n in dones}
    calls = []                  # dicts: proc, j, t, outcome, faults
    open_call = {}
    for x in k.hist:
        if x[2] == "note" and x[3] in byproc and x[4] == "begin":
            open_call[x[3]] = {"proc": byproc[x[3]], "j": x[5], "t": x[1], "out": None, "flt": [], "why": ""}
            calls.append(open_call[x[3]])
        elif x[2] == "note" and x[3] in byproc:
            c = open_call[x[3]]
            c["out"], c["why"], c["t1"] = x[4], " ".join(map(str, x[6:])), x[1]
        elif x[2] == "fault":
            lab = next((f for f in x[3:] if f in byproc), None)
            if lab is None or lab not in open_call:
                bad("driver", f"fault of no call {x}")
            else:
                open_call[lab]["flt"].append(x[3])
    done_per = {}
    for c in calls:
        op = sc["procs"][c["proc"]]["ops"][c["j"]]
        i, s = op["src"], srcs[op["src"]]
        c["src"], c["base"], c["kind"] = i, f"{op['dst']}{i}", s["kind"]
        name = f"{s['kind']} source {i} ({s.get('damage', {}).get('what', 'intact')})"
        damaged = bool(s.get("damage"))
        if c["out"] == "ok":
            if c["flt"]:
                bad("failure-hidden", f"{name}: {c['flt']} was not reported", s["kind"])
            if s["kind"] in ("ders", "fish"):
                if dones[c["proc"]].ret is None:
                    continue                 # died later
                x = dict(dones[c["proc"]].ret)[c["j"]]
                d = compare.diff(x, want[i], rtol=1e-13)
                if d:
                    bad("wrong-content", f"{name}: {d}", s["kind"])
            else:
                done_per.setdefault(c["base"], []).append(c)
        elif c["out"] == "raised":
            near = [o for o in calls if o is not c and sc["procs"][o["proc"]]["ops"][o["j"]]["dst"] == op["dst"]
                    and sc["procs"][o["proc"]]["ops"][o["j"]]["src"] == i and abs(o["t"] - c["t"]) < 1.0 + (o.get("t1", o["t"]) - o["t"])]
            if not c["flt"] and not damaged and not ("FileExistsError" in c["why"] and near):
                bad("conversion-fails", f"{name}: raised {c['why']} though nothing was wrong", s["kind"])
        elif dones[c["proc"]].rc == 0:
            bad("driver", f"{name}: no outcome ({dones[c['proc']].text[-200:]})")
    # what is stored
    left = {}
    for d, steps in stored.items():
        m = re.fullmatch(rf"([ab])(\d)(?:_converted_on)?_({STAMP})", d)
        if not m:
            bad("misplaced", f"{d}: not a directory of a conversion")
            continue
        i = int(m.group(2))
        s, exp = srcs[i], want[i]
        own = None if hurt[i] == "none" else step_dir(hurt[i])
        full = set(steps) == set(exp)
        for st, (state, fname, x) in steps.items():
            if st not in exp or fname != FILE[s["kind"]]:
                bad("misplaced", f"{d}/{st}/{fname}: not of the source", s["kind"])
            elif state == "ok":
                w = exp[st]
                e = compare.diff(x, w, rtol=1e-13)
                if e and not (st == own and s["kind"] == "cls"):
                    bad("wrong-content", f"{d}/{st}: {e}", s["kind"])
                full = full and not e
            else:
                full = False
        if full:
            left.setdefault(f"{m.group(1)}{i}", []).append(d)
    for b, cs in done_per.items():
        if len(left.get(b, [])) < len(cs):
            what = {d: {st: v[0] if v[0] == "ok" else v for st, v in x.items()} for d, x in stored.items() if d.startswith(b)}
            bad("lost", f"{len(cs)} conversions to {b} ended well, {len(left.get(b, []))} complete directories: {str(what)[:300]}", cs[0]["kind"])
    for i in range(len(srcs)):
        if tree(root / f"s{i}") != before[i]:
            bad("source-changed", f"source {i} ({srcs[i]['kind']})", srcs[i]["kind"])
    k.nontrivial = bool(k.fired) or sc["par"] or any(s.get("damage") for s in srcs) or len(calls) > 1
    k.state_key = hashlib.sha1(repr([x[3:] for x in k.hist if x[2] in ("note", "fault")]).encode()).hexdigest()
    k.note = f"{len(calls)} conversions in {len(sc['procs'])} processes"
    return V


def shrink(sc):
    ps = sc["procs"]
    for i in range(len(ps)):
        if len(ps) > 1:
            yield dict(sc, procs=ps[:i] + ps[i + 1:])
    for i, p in enumerate(ps):
        for j in range(len(p["faults"])):
            yield dict(sc, procs=ps[:i] + [dict(p, faults=p["faults"][:j] + p["faults"][j + 1:])] + ps[i + 1:])
        for j in range(len(p["ops"])):
            if len(p["ops"]) > 1:
                yield dict(sc, procs=ps[:i] + [dict(p, ops=p["ops"][:j] + p["ops"][j + 1:])] + ps[i + 1:])
    for i, s in enumerate(sc["srcs"]):
        if s.get("damage"):
            yield dict(sc, srcs=sc["srcs"][:i] + [{x: y for x, y in s.items() if x != "damage"}] + sc["srcs"][i + 1:])
        for j in range(len(s.get("steps", []))):
            yield dict(sc, srcs=sc["srcs"][:i] + [dict(s, steps=s["steps"][:j] + s["steps"][j + 1:])] + sc["srcs"][i + 1:])
