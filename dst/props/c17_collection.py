"""C17: collected results are exactly the results of the runs."""
import json
import os
import pickle
import random
import shutil
from pathlib import Path

import h5py
import numpy as np
import pandas as pd

from dst import compare, fixtures as fx, flow, single

ID = "C17"
TITLE = "Collected results are exactly the results of each run, tagged with its options"
RULE = ("a run is 1-3 collections of the results of 1-5 run directories (different options, parameters and values; other directories "
        "and files around them), with any listing order, runs without (all of) their results, results re-evaluated at the same "
        "time, disk errors and death of the collection; non-trivial: a fault, or more than one run; distinct: by event trace")
REAL = "collect_results, evaluate_final_results (when re-evaluating), all result reading and writing code"
STUB = "clock, shell, file system faults; run directories made by real forecasts on tiny synthetic inputs"
ASSUME = ["run directories have one of the standard names"]
N = {"quick": 60, "thorough": 8000}
OPTS = {"w0": dict(free=("w0",)), "two": dict(free=("Omm", "w0"), n_sp_bins=12), "gcsp": dict(free=("w0",), marg_sp=True),
        "ns": dict(free=("ns", "sigma8"))}
COSM, SUBS = ["w0_wa_CDM", "LCDM"], ["marg_before", "marg_after", "nuis_fixed"]
KEEP = ["input_files_dir", "input_files_dict.json", "run_metadata.json", "base_fishers", "final_results"]


def prepare(ctx):
    flow.fisher_lists(ctx)
    rng = random.Random(4)
    ctx.data["gold"] = {}
    from dst.kernel import Kernel
    for n, (v, kw) in enumerate(OPTS.items()):
        flow.write_inputs(ctx.base / f"inputs-{v}", **kw)
        w, _, _ = single.golden(ctx, f"inputs-{v}", f"single-{v}")
        runs = [w]
        k = Kernel({"sched_seed": 1}, str(ctx.base / f"scaled-{v}"))
        flow.setup(k, ctx)
        k.env["SEYFERT_INPUT_DATA"] = f"{ctx.base}/single-{v}/in/data"
        d = Path(k.root) / "run_scaled"
        copy_run(w, d)
        scale(d)
        r = k.wait(k.spawn_script("evaluate_final_results", ["-ex", "interactive", "-i", str(d), "-wd", str(d)], d))
        k.close()
        if r.rc != 0:
            raise flow.GoldenFailed(f"evaluating the results of a finished run failed ({r.rc}): {r.text[-2500:]}")
        runs.append(d)
        ctx.data["gold"][v] = [str(x) for x in runs]


def copy_run(src, dst):
    dst.mkdir(parents=True)
    for n in KEEP:
        p = Path(src) / n
        if p.is_dir():
            shutil.copytree(p, dst / n, symlinks=True)
        elif p.exists():
            shutil.copy(p, dst / n)


def scale(d):
    shutil.rmtree(d / "final_results")
    for f in (d / "base_fishers").glob("fisher_*.hdf5"):
        with h5py.File(f, "r+") as h:
            h["fisher_matrix"][...] = h["fisher_matrix"][()] * 4.0


def gen(rng, i, ctx):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5])
    runs = []
    for m in range(n):
        runs.append({"v": rng.choice(sorted(OPTS)), "scaled": rng.random() < 0.4, "scenario": rng.choice(["optimistic", "pessimistic"]),
                     "reduced": rng.random() < 0.4, "minus": rng.random() < 0.4, "only": rng.choice([None, True, False]),
                     "bins": rng.choice([4, 4, 12, 24, 40]), "order": rng.getrandbits(16) if rng.random() < 0.5 else None,
                     "form": rng.randrange(3), "late": n > 1 and rng.random() < 0.15,
                     "hole": rng.choice(["results", "sub", "csv", "rel", "cosmology", "params", "extra-csv"]) if rng.random() < 0.12 else None})
    if all(r["late"] for r in runs):
        runs[0]["late"] = False
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        faults.append({"proc": f"collect{rng.randrange(2)}", "kind": rng.choice(["*", "open_w,close,rename", "open_r", "rename,mkdir"]),
                       "match": "*", "nth": rng.choice([rng.randrange(1, 40), rng.randrange(1, 200)]),
                       "act": rng.choice(["crash", "torn", "torn", "enospc", "eio", "eacces"])})
    return {"runs": runs, "junk": rng.sample(["file", "dir", "plain", "empty", "name"], rng.randrange(0, 4)), "rounds": rng.choice([1, 2, 2, 3]),
            "where": rng.choice(["cwd", "root", "out", "both"]), "cuts": faults, "op_dt": rng.choice([0, 0.001]),
            "redo": rng.random() < 0.15, "hashseed": rng.randrange(1, 3000) if rng.random() < 0.2 else None}


def label(r, m):
    return [f"run_{r['scenario']}_{m}_1.3.7_2021-01-0{m + 1}T00-00-00", f"{r['scenario']}_{r['bins']}_sp_bins_x{m}",
            f"scenario_{r['scenario']}__n_sp_bins_{r['bins']}__m_{m}"][r["form"]]


def opts_of(r):
    o = {"scenario": r["scenario"], "n_sp_bins": r["bins"], "shot_noise_sp_reduced": r["reduced"], "gcph_minus_gcsp": r["minus"]}
    if r["only"] is not None:
        o["gcph_only_bins_in_spectro_range"] = r["only"]
    if r["order"] is not None:
        items = list(o.items())
        random.Random(r["order"]).shuffle(items)
        o = dict(items)
    return o


def place(ctx, top, m, r):
    d = top / label(r, m)
    copy_run(ctx.data["gold"][r["v"]][int(r["scaled"])], d)
    rel = json.loads((d / "input_files_dict.json").read_text())["forecast"]
    f = d / rel
    c = json.loads(f.read_text())
    c["synthetic_opts"] = opts_of(r)
    f.unlink()
    fx.write_json(f, c)
    return d


def punch(d, hole):
    """Take away (a part of) the results, as if the run had not got that far; returns how to mend it."""
    t = {"results": "final_results", "cosmology": "final_results/LCDM", "sub": "final_results/w0_wa_CDM/marg_after",
         "csv": "final_results/LCDM/marg_before/marginalized_errors*.csv", "params": None, "extra-csv": None,
         "rel": "final_results/w0_wa_CDM/nuis_fixed/relative_marginalized_errors*.csv"}[hole]
    if hole == "params":
        p = d / json.loads((d / "input_files_dict.json").read_text())["params"]
    elif hole == "extra-csv":
        q = next((d / "final_results/w0_wa_CDM/marg_before").glob("marginalized_errors*.csv"))
        q2 = q.with_name("marginalized_errors_old.csv")
        shutil.copy(q, q2)
        return lambda: q2.unlink()
    else:
        p = next(iter(d.glob(t)))
    away = d.parent.parent / f"away-{d.name}"
    shutil.move(p, away)
    return lambda: shutil.move(away, p)


def rows(d, r, cosm, sub, pat):
    f = list((Path(d) / "final_results" / cosm / sub).glob(pat))
    df = pd.read_csv(f[0], index_col=0)
    out = []
    for name, row in df.iterrows():
        out.append({"fisher": str(name), **opts_of(r), **{c: float(x) for c, x in row.items() if not pd.isna(x)}})
    return out


def norm(row):
    return tuple(sorted((str(a), x if isinstance(x, str) else f"{float(x):.9g}") for a, x in row.items()))


def read_table(path):
    df = pd.read_excel(path)
    return [{str(a): x for a, x in row.items() if not (isinstance(x, float) and np.isnan(x))} for row in df.to_dict("records")]


def fishers(d, cosm, sub, free):
    """The Fisher matrices of a results directory, for the parameters that were free in the run."""
    out = {}
    for f in (Path(d) / "final_results" / cosm / sub).glob("fisher*.hdf5"):
        c = compare.h5_content(f)
        rel = [i for i, x in enumerate(c["labels"]) if x in free or x in c["nuisance_pars"]]
        out[c["name"]] = dict(c, labels=[c["labels"][i] for i in rel], matrix=c["matrix"][np.ix_(rel, rel)])
    return out


def an_content(an):
    out = {}
    for n, F in an.fisher_matrices.items():
        m = F.matrix.sort_index().sort_index(axis=1)
        out[n] = {"labels": [str(x) for x in m.index], "matrix": m.to_numpy(), "nuis": sorted(F.nuisance_parameters)}
    return out


def run(k, sc, ctx, root):
    flow.setup(k, ctx)
    k.op_dt = sc["op_dt"]
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    top = root / "runs"
    top.mkdir()
    k.env["SEYFERT_INPUT_DATA"] = f"{ctx.base}/single-w0/in/data"
    dirs, mend = {}, {}
    for m, r in enumerate(sc["runs"]):
        if not r["late"]:
            dirs[m] = place(ctx, top, m, r)
            if r["hole"]:
                mend[m] = punch(dirs[m], r["hole"])
                k.fire("incomplete-run")
    for j in sc["junk"]:
        {"file": lambda: (top / "run_optimistic.log").write_text("x"), "dir": lambda: (top / "plots").mkdir(),
         "plain": lambda: (top / "notes.txt").write_text("x"), "empty": lambda: (top / "my_run_x").mkdir(),
         "name": lambda: copy_run(ctx.data["gold"]["w0"][0], top / "old" / "run_optimistic_sub")}[j]()
    wd = {"cwd": top, "out": top}.get(sc["where"], root)
    out = root / "collected" if sc["where"] in ("out", "both") else wd / "results_collection"
    args = (["--root_dir", str(top)] if sc["where"] in ("root", "both") else []) + (["--outdir", str(out)] if sc["where"] in ("out", "both") else [])
    k.faults = [dict(f, _n=0, _fired=False) for f in sc["cuts"]]
    had = {}
    for rnd in range(sc["rounds"]):
        if rnd == 1:
            for m, r in enumerate(sc["runs"]):
                if r["late"]:
                    dirs[m] = place(ctx, top, m, r)
        if rnd == sc["rounds"] - 1 and rnd:
            for m in sorted(mend):
                mend.pop(m)()
        redo = None
        if sc["redo"] and rnd == sc["rounds"] - 1:
            m = sorted(dirs)[0]
            if m not in mend and not sc["runs"][m]["scaled"]:
                redo = m
        pids, before = [], {m: snapshot(d) for m, d in dirs.items() if m != redo}
        if redo is not None:
            src = ctx.data["gold"][sc["runs"][redo]["v"]][1]
            for f in (Path(src) / "base_fishers").glob("fisher_*"):
                shutil.copy(f, dirs[redo] / "base_fishers" / f.name)
            pids.append(k.spawn_script("evaluate_final_results", ["-ex", "interactive", "-i", str(dirs[redo]), "-wd", str(dirs[redo]), "-ow", "True"],
                                       dirs[redo], label="redo"))
            k.fire("re-evaluated")
        p = k.spawn_script("collect_results", args, wd, label=f"collect{rnd}")
        res = k.wait(p)
        fault = [x[3:] for x in k.hist if x[2] == "fault"]
        here = judge(k, sc, ctx, bad, rnd, res, out, dirs, mend, redo, had, bool(k.fired and any(f["_fired"] for f in k.faults)))
        for q in pids:
            k.wait(q)
        k.drain()
        for m, b in before.items():
            if snapshot(dirs[m]) != b:
                bad("run-changed", f"the collection changed {label(sc['runs'][m], m)}")
        had = here
        k.advance(5.0)
        if V:
            break
    k.nontrivial = bool(k.fired) or len(sc["runs"]) > 1
    k.note = f"{len(sc['runs'])} runs, {sc['rounds']} rounds"
    return V


def snapshot(d):
    return sorted((str(p.relative_to(d)), p.stat().st_size, p.stat().st_mtime_ns) for p in d.rglob("*") if p.is_file())


def judge(k, sc, ctx, bad, rnd, res, out, dirs, mend, redo, had, faulted):
    """Compare what is in the collection with the results of the runs; returns what is there."""
    here = {}
    ok = res.rc == 0
    if ok and any(sc["runs"][m]["hole"] not in (None, "params") for m in mend):
        bad("incomplete-collected", f"round {rnd}: the collection succeeded although the results of "
                                    f"{[label(sc['runs'][m], m) for m in mend]} are not complete ({[sc['runs'][m]['hole'] for m in mend]})")
    if not ok and not mend and not faulted and redo is None:
        bad("fails", f"round {rnd}: collecting the results of {len(dirs)} complete runs failed ({res.rc}): ...{res.text[-500:]}")
        return had
    for cosm in COSM:
        for sub in SUBS:
            for fn, pat in (("marginalized_errors.xlsx", "marginalized_errors*.csv"),
                            ("relative_marginalized_errors.xlsx", "relative_marginalized_errors*.csv")):
                p = out / cosm / sub / fn
                key = (cosm, sub, fn)
                if not p.exists():
                    if ok or key in had:
                        bad("missing", f"round {rnd} (status {res.rc}): there is no {cosm}/{sub}/{fn}")
                    continue
                try:
                    got = sorted(norm(x) for x in read_table(p))
                except Exception as e:
                    bad("damaged", f"round {rnd} (status {res.rc}): {cosm}/{sub}/{fn} cannot be read: {type(e).__name__}: {e}")
                    continue
                here[key] = got
                if got == had.get(key) and not ok:
                    continue
                want, alt = [], None
                for m, d in dirs.items():
                    try:
                        if m == redo:
                            r = sc["runs"][m]
                            alt = [[norm(x) for x in rows(ctx.data["gold"][r["v"]][s], r, cosm, sub, pat)] for s in (0, 1)]
                        else:
                            want += [norm(x) for x in rows(d, sc["runs"][m], cosm, sub, pat)]
                    except IndexError:
                        bad("invented", f"round {rnd}: {cosm}/{sub}/{fn} was written although {d.name} has no such results")
                wants = [sorted(want)] if alt is None else [sorted(want + a) for a in alt]
                if got not in wants:
                    w = wants[0]
                    lost, add = [x for x in w if x not in got], [x for x in got if x not in w]
                    bad("wrong-rows", f"round {rnd}: {cosm}/{sub}/{fn} does not hold the results of the runs: missing "
                                      f"{lost[:1]}, unexpected {add[:1]} ({len(got)} rows, {len(w)} expected)")
            p = out / cosm / sub / "fisher_analyses.pickle"
            key = (cosm, sub, p.name)
            if not p.exists():
                if ok or key in had:
                    bad("missing", f"round {rnd} (status {res.rc}): there is no {cosm}/{sub}/{p.name}")
                continue
            try:
                df = pd.read_pickle(p)
                got = [({c: row[c] for c in df.columns if c != "analysis" and row[c] is not None and row[c] == row[c]}, row["analysis"])
                       for _, row in df.iterrows()]
                got = [(norm(a), an_content(b), {n: v for n, v in b.metadata.items() if n in a}) for a, b in got]
            except Exception as e:
                bad("damaged", f"round {rnd} (status {res.rc}): {cosm}/{sub}/{p.name} cannot be read: {type(e).__name__}: {e}")
                continue
            here[key] = [g[0] for g in got]
            if not ok:
                continue
            if redo is None:
                for rel in ("", "relative_"):
                    evaluated(bad, rnd, p, bool(rel), here.get((cosm, sub, f"{rel}marginalized_errors.xlsx")))
            left = list(got)
            for m, d in dirs.items():
                r = sc["runs"][m]
                srcs = [d] if m != redo else ctx.data["gold"][r["v"]]
                refs = [fishers(s, cosm, sub, OPTS[r["v"]]["free"]) for s in srcs]
                for g in left:
                    if g[0] == norm(opts_of(r)) and any(same(g[1], ref) for ref in refs) or \
                            m == redo and g[0] == norm(opts_of(r)) and mixed(g[1], refs):
                        left = [x for x in left if x is not g]
                        break
                else:
                    why = [x[0] for x in got if x[0] == norm(opts_of(r))]
                    bad("wrong-analysis", f"round {rnd}: {cosm}/{sub}/{p.name} has no entry with the options and matrices of {d.name}: "
                                          f"{len(why)} with its options, others {[x[0] for x in got if x[0] not in why][:2]}")
            if left:
                bad("wrong-analysis", f"round {rnd}: {cosm}/{sub}/{p.name} has {len(left)} entries of no run: {left[0][0]}")
    return here


def evaluated(bad, rnd, p, relative, table):
    """The errors that follow from the collected analyses, as a user gets them, are the collected errors."""
    from seyfert.fisher.results_collector import ResultsCollector
    try:
        rc = ResultsCollector()
        rc.loadFisherAnalysesPickle(p)
        df = rc.getErrorsTableFromAnalysesDataFrame(relative=relative)
    except Exception as e:
        bad("analyses-unusable", f"round {rnd}: the errors cannot be evaluated from {p.parent.name}/{p.name}: {type(e).__name__}: {e}")
        return
    # GCsp(Pk), which comes from outside, has other parameters than the run: its analysis holds a part of them
    got = [{str(a): x for a, x in row.items() if x is not None and x == x} for row in df.to_dict("records") if "Pk" not in row["fisher"]]

    def order(rows):
        return sorted(rows, key=lambda r: [f"{a}={x:.5g}" if isinstance(x, float) else f"{a}={x}" for a, x in sorted(r.items())])
    want = order([{a: x if a in ("fisher", "scenario") else float(x) for a, x in row}
                  for row in table or [] if "Pk" not in dict(row)["fisher"]])
    got = order([{a: x if isinstance(x, str) else float(x) for a, x in row.items()} for row in got])
    for g, w in zip(got, want):
        if set(g) != set(w) or any(not (g[a] == w[a] or isinstance(g[a], float) and abs(g[a] - w[a]) <= 1e-6 * abs(w[a])) for a in w):
            bad("wrong-errors", f"round {rnd}: {p.parent.parent.name}/{p.parent.name}/{p.name} implies the errors {g}, collected are {w}")
            return
    if len(got) != len(want):
        bad("wrong-errors", f"round {rnd}: {p.parent.parent.name}/{p.parent.name}/{p.name} implies {len(got)} rows of errors, {len(want)} are collected")


def same(got, ref):
    return set(got) == set(ref) and all(one(got[n], ref[n]) for n in ref)


def one(g, r):
    return g["labels"] == r["labels"] and np.allclose(g["matrix"], r["matrix"], rtol=1e-9, atol=0, equal_nan=True) and \
        g["nuis"] == r["nuisance_pars"]


def mixed(got, refs):
    """Each matrix is the one from before or after the re-evaluation."""
    return set(got) <= set(refs[0]) and all(any(one(got[n], r[n]) for r in refs) for n in got)


def shrink(sc):
    if len(sc["runs"]) > 1:
        for i in range(len(sc["runs"])):
            yield dict(sc, runs=sc["runs"][:i] + sc["runs"][i + 1:])
    for i in range(len(sc["cuts"])):
        yield dict(sc, cuts=sc["cuts"][:i] + sc["cuts"][i + 1:])
    if sc["rounds"] > 1:
        yield dict(sc, rounds=sc["rounds"] - 1)
    for a, v in (("junk", []), ("redo", False), ("hashseed", None), ("where", "cwd")):
        if sc[a] != v:
            yield dict(sc, **{a: v})
    for i, r in enumerate(sc["runs"]):
        for a, v in (("hole", None), ("late", False), ("order", None), ("only", None), ("scaled", False)):
            if r[a] != v:
                yield dict(sc, runs=sc["runs"][:i] + [dict(r, **{a: v})] + sc["runs"][i + 1:])
