"""C08: every new forecast has its own run directory, which records exactly the inputs it was given."""
import datetime
import json
import os
import random
import re
from pathlib import Path

from dst import fixtures as fx, flow, stored
from dst.cluster import Cluster
from dst.props.c07_confinement import tree

ID = "C08"
TITLE = "A forecast has its own run directory that records exactly its inputs"
RULE = ("a run is 1-3 rounds of 1-3 forecasts started together or seconds apart in one directory (job_submitter, or run_seyfert "
        "directly or as batch jobs; sources given directly, by relative paths or through links), with equal or different ids and configuration files of equal or different names, wall clock "
        "frozen or stepped, sources edited later, a death or disk error of a submitter, and continuations of finished runs; "
        "non-trivial: two forecasts, a fault, a clock step or an edit; distinct: by event trace")
REAL = ("job_submitter, run_seyfert, ForecastRunner/TaskRunner, WorkSpace, configuration reading, generated job scripts; the "
        "whole forecast computation in a sample of the single-process runs")
STUB = "LSF, clock, shell, compute program bodies of the many-process runs (outputs copied)"
ASSUME = ["the clock does not step during a run whose recorded duration is judged"]
N = {"quick": 170, "thorough": 20000}
CFG = {"forecast": "-fcfg", "PowerSpectrum": "-pmm_cfg", "Angular": "-cl_cfg", "Derivative": "-der_cfg", "Fisher": "-fish_cfg"}
NAMES = {"distinct": {"forecast": "forecast.json", "PowerSpectrum": "pmm.json", "Angular": "angular.json",
                      "Derivative": "derivative.json", "Fisher": "fisher.json"},
         "same": {n: "config.json" for n in CFG},
         "pair": dict.fromkeys(("Angular", "Fisher"), "task.json") | dict.fromkeys(("forecast", "Derivative"), "c.json") |
         {"PowerSpectrum": "Derivative_c.json"},
         "params": {"forecast": "run.json", "PowerSpectrum": "pmm.json", "Angular": "params.json",
                    "Derivative": "Angular_params.json", "Fisher": "params.json"},
         "fparams": {"forecast": "params.json", "PowerSpectrum": "pmm.json", "Angular": "angular.json",
                     "Derivative": "derivative.json", "Fisher": "fisher.json"}}
REC = ["*/input_files_dir/*", "*input_files_dict.json*", "*params.json*", "*run_metadata.json*", "*/work/*", "*"]


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    ctx.data["gold"] = flow.golden(ctx)


def start(rng, j):
    s = {"j": j, "prog": rng.choice(["js"] * 5 + ["rs", "rs", "rsb"]), "id": rng.choice([None, "alpha", "alpha", "beta", "alpha_2"]),
         "names": rng.choice(["distinct", "distinct", "same", "pair", "params", "fparams"]), "delay": rng.choice([0, 0, 0, 0.4, 1, 2.5, 61]),
         "ex": rng.choice(["interactive", "interactive", "batch", "no"]), "free": rng.choice(["w0", "w0", "Omm"]), "edit": rng.random() < 0.35,
         "dt": rng.choice([1, 1, 30, 700]), "long": rng.choice([0] * 5 + [40000, 90000, 200000]), "target": None,
         "tasks": rng.choice([["-cl", "-der", "-fish"], ["-cl", "-der"], ["-cl"]]), "nf": 1, "whole": False, "fail": rng.random() < 0.15,
         "via": rng.choice(["plain", "plain", "link", "relative"])}
    if s["prog"] != "js":
        s["nf"] = rng.choice([1, 1, 2])
        s["whole"] = s["prog"] == "rs" and s["nf"] == 1 and rng.random() < 0.2
        if s["whole"]:
            s["free"] = "w0"
    return s


def gen(rng, i, ctx):
    rounds, j = [], 0
    for n in range(rng.choice([1, 1, 2, 2, 3])):
        r = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            s = start(rng, j)
            olds = [x for q in rounds for x in q if x["prog"] == "js" and x["target"] is None]
            if olds and rng.random() < 0.3:
                o = rng.choice(olds)
                if o["j"] not in [x["target"] for x in r]:
                    s.update(prog="js", target=o["j"], edit=False, names=o["names"], id=rng.choice([None, "other"]), whole=False, nf=1,
                             tasks=rng.choice([["-cl"], ["-cl", "-der"], ["-cl", "-der", "-fish"]]))
            r.append(s)
            j += 1
        if len(r) > 1 and rng.random() < 0.3:          # the very same start twice, at once
            x = r[0] if r[0]["target"] is None else dict(start(rng, 0), j=r[0]["j"])
            if rng.random() < 0.4:
                x = dict(x, prog="rsb", whole=False)
            r = [dict(x, j=y["j"], free=x["free"], delay=rng.choice([0, 0, 0.4])) for y in r]
        rounds.append(r)
    sc = {"rounds": rounds, "steps": [], "jobseed": rng.getrandbits(30), "op_dt": rng.choice([0, 0, 0.0005, 0.01]),
          "fault": None}
    c = rng.random()
    if c < 0.3:                                     # the clock is put back between the rounds
        sc["steps"] = [rng.choice([0, 1, 2, 60, 3600]) for _ in rounds[1:]]
    if rng.random() < 0.35:
        r = rng.choice(rounds)
        s = rng.choice(r)
        sc["fault"] = {"j": s["j"], "kind": rng.choice(["*", "open_w", "close", "mkdir", "open_r"]), "match": rng.choice(REC),
                       "nth": rng.choice([1, 1, 2, 3, rng.randrange(1, 60)]), "act": rng.choice(["crash", "enospc", "eio", "eacces"])}
        if sc["fault"]["kind"] == "open_r":
            sc["fault"].update(act="eio", match="*.json")
    return sc


class Recorded(flow.Units):
    hook = None

    def body(self, k, st, name, argv, cwd, env):
        if st in ("cls", "der"):
            rd = Path(cwd, flow.opt(argv, "--rundir", "-rd") or cwd)
        elif st == "fish":
            rd = Path(cwd, flow.opt(argv, "--rundir", "-rd") or cwd)
        else:
            rd = Path(cwd, flow.opt(argv, "-i", "--input_rundirs") or cwd)
        self.hook(st, rd)
        return (yield from super().body(k, st, name, argv, cwd, env))


def write_sources(root, inp, s):
    """Configuration files of one start, every one with bytes of its own.  {name: [paths]}"""
    d = root / "src" / f"s{s['j']}"
    src = {}
    for n, fn in NAMES[s["names"]].items():
        ms = range(s["nf"] if n == "forecast" else 1)
        src[n] = [d / f"{n}{m}" / fn for m in ms]
        for m, p in enumerate(src[n]):
            tag = f"S{s['j']}c{m}-{n}"
            fx.write_json(p, content(n, tag, s, m))
    return src


def content(n, tag, s, m, v=0):
    if n == "forecast":
        return fx.forecast_config(free=[s["free"]], marg_sp=False, extra=tag, f_sky=round(0.3 + s["j"] / 100 + m / 1000 + v / 10000, 5)) \
            | {"derivative_settings": {"base_stem_disps": fx.STEM if s["whole"] else [x * (1 + s["j"] + 7 * m + v) for x in fx.STEM]}}
    c = {"PowerSpectrum": fx.pmm_config, "Angular": fx.angular_config, "Derivative": fx.derivative_config, "Fisher": fx.fisher_config}[n]()
    return dict(c, sim_tag=tag + (f"v{v}" if v else ""))


def want_params(path, data):
    return stored.snap("params", flow.load_fcfg(path, data).phys_pars)


def run(k, sc, ctx, root):
    from seyfert import VERSION
    gold = ctx.data["gold"]
    jr = random.Random(sc["jobseed"])
    flow.setup(k, ctx)
    inp = flow.clone_inputs(ctx, root)
    k.env.update(SEYFERT_INPUT_DATA=f"{inp}/data", USER="alice")
    (root / "empty" / "PowerSpectrum").mkdir(parents=True)
    work = root / "work"
    work.mkdir()
    k.op_dt = sc["op_dt"]
    u = Recorded(k, ctx, gold, {}, default_dt=1.0, strict=True)
    Cluster(k, lambda i, cmd: {"body": "real", "pend": jr.random() * 4, "run": jr.random() * 3}, user="alice")
    V, info, bymain = [], {}, {}

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})

    def recorded(rd, s, m=0, when=""):
        """The inputs recorded in rd are, byte for byte, those of start s."""
        try:
            d = json.loads((rd / "input_files_dict.json").read_text())
        except (OSError, ValueError) as e:
            return bad("not-recorded", f"{desc(s)}{when}: {k.rel(rd)} has no readable record of its input files ({e})")
        for n in CFG:
            texts = [t[m if n == "forecast" else 0] for t in s["_texts"][n]]
            p = rd / d.get(n, "nowhere")
            if not p.is_file():
                return bad("not-recorded", f"{desc(s)}{when}: no copy of the {n} configuration in {k.rel(rd)} ({d.get(n)})")
            if p.read_text() not in texts:
                return bad("other-input-recorded", f"{desc(s)}{when}: the recorded {n} configuration {k.rel(p)} is not the one "
                                                   f"given but has {tags(p)}")
            if os.path.islink(p) or any(os.path.samefile(p, q) for q in s["_src"][n]):
                return bad("not-a-copy", f"{desc(s)}{when}: {k.rel(p)} is the source file itself")
        if Path(d.get("input_data_dir", "")) != (inp / "data").resolve():
            return bad("other-input-recorded", f"{desc(s)}{when}: recorded input data directory {d.get('input_data_dir')}")
        from seyfert.cosmology.parameter import PhysicalParametersCollection
        try:
            got = stored.snap("params", PhysicalParametersCollection.fromJSON(rd / d["params"]))
        except Exception as e:
            return bad("parameters-not-recorded", f"{desc(s)}{when}: recorded parameters cannot be read: {e!r}")
        why = _differ(want_params(rd / d["forecast"], inp / "data"), got)
        if why:
            bad("other-parameters-recorded", f"{desc(s)}{when}: recorded parameters are not those of the configuration: {why}")

    def metadata(rd, s, when=""):
        try:
            md = json.loads((rd / "run_metadata.json").read_text())
        except (OSError, ValueError) as e:
            bad("no-metadata", f"{desc(s)}{when}: run_metadata.json of {k.rel(rd)} cannot be read ({e})")
            return None
        first = info.get(s["target"], s) if s["target"] is not None else s
        for key, want in (("executor", "alice"), ("code_version", VERSION),
                          ("run_id", f"{first['id']}_{VERSION}" if first["id"] else None),
                          ("external_dirs", {"PowerSpectrum": str((inp / "pmm" / "PowerSpectrum").resolve())})):
            if key == "run_id" and want is None:
                if not md.get("run_id"):
                    bad("metadata", f"{desc(s)}{when}: no run id is recorded")
                elif not rd.name.startswith(md["run_id"] + "_"):
                    bad("metadata", f"{desc(s)}{when}: run id {md['run_id']} is recorded in {rd.name}")
            elif md.get(key) != want:
                bad("metadata", f"{desc(s)}{when}: {key} is recorded as {md.get(key)!r}, not {want!r}")
        return md

    def hook(st, rd):
        s = owner(rd)
        if s is None:
            return bad("work-elsewhere", f"{st} was started for {k.rel(rd)}, which belongs to no forecast")
        s.setdefault("_units", []).append(k.mono)
        if len(s["_units"]) == 1:
            orig = info[s["target"]] if s["target"] is not None else s
            recorded(rd, orig, when=" when work was started")
            metadata(rd, s, when=" when work was started")
            if s["edit"]:
                edit(s)
    u.hook = hook

    def edit(s):
        k.fire("source-edited")
        for n, ps in s["_src"].items():
            for m, p in enumerate(ps):
                fx.write_json(p, content(n, f"S{s['j']}c{m}-{n}", s, m, v=1))
        if s["prog"] == "rsb":
            for n, ps in s["_src"].items():
                s["_texts"][n].append([p.read_text() for p in ps])

    def owner(rd):
        for s in cur:
            if s["target"] is not None:
                if info[s["target"]].get("_dir") == rd:
                    return s
            elif any(f"S{s['j']}c" in t for t in dirtags(rd)):
                return s
        return None

    def plan_for(s):
        first = {"-cl": "cls/dvar_central_step_0", "-der": f"der/{s['free']}"}
        p = {}
        if s["long"] and not any(x["ex"] == "batch" for x in cur):     # the wait for batch jobs has a limit (C01)
            p[first["-cl"]] = {"dt": s["long"]}
        if s["fail"]:
            p[first["-cl"]] = {"dt": 2, "fail": "exit-stderr"}
        return p
    back = 0.0
    for n, rnd in enumerate(sc["rounds"]):
        cur = [dict(s) for s in rnd if s["target"] is None or info.get(s["target"], {}).get("_ok")]
        if n and n <= len(sc["steps"]):
            x = sc["steps"][n - 1]
            back = k.mono if x == 0 else back + x            # 0: to the very time of the first round
            k.clock_steps.append((k.mono, -back))
            k.fire("clock-put-back")
        old = {p: tree(p / "input_files_dir") | {"d": (p / "input_files_dict.json").read_bytes() if (p / "input_files_dict.json").exists() else b""}
               for p in work.iterdir() if p.is_dir() and (p / "input_files_dir").is_dir()}
        metas = {p: p / "run_metadata.json" for p in old}
        metas = {p: f.read_bytes() for p, f in metas.items() if f.exists()}
        u.plan = {}
        k.faults = []
        pids = []
        t_round = k.mono
        for s in sorted(cur, key=lambda x: x["delay"]):
            if s["delay"] > k.mono - t_round:
                k.advance(s["delay"] - (k.mono - t_round))
            u.plan.update(plan_for(s))
            if s["target"] is None:
                s["_src"] = write_sources(root, inp, s)
                s["_texts"] = {x: [[p.read_text() for p in ps]] for x, ps in s["_src"].items()}
            else:
                o = info[s["target"]]
                s["_src"], s["_texts"], s["_rd"] = o["_src"], o["_texts"], o["_dir"]
            f = sc["fault"]
            if f and f["j"] == s["j"]:
                k.faults = [dict(proc=f"s{s['j']}", kind=f["kind"], match=f["match"], nth=f["nth"], act=f["act"], _n=0, _fired=False)]
            s["_t"] = k.mono
            s["_pid"] = launch(k, s, inp, root, work)
            k.on_done(s["_pid"], lambda d, s=s: s.update(_te=k.mono))
            pids.append(s["_pid"])
            info[s["j"]] = s
        if not pids:
            continue
        edits = [s for s in cur if s["edit"] and s["prog"] == "rsb"]
        if edits:
            k.advance(2.0)
            for s in edits:
                edit(s)
        ds = {}
        for s in cur:
            ds[s["j"]] = k.wait(s["_pid"])
        k.drain()
        broke = [f for f in k.faults if f["_fired"]]
        crashed = any(f["act"] == "crash" for f in broke)
        k.faults = []
        # every directory belongs to one forecast
        dirs = sorted(p for p in work.iterdir() if p.is_dir() and not p.is_symlink())
        who = {}
        for p in dirs:
            ts = dirtags(p)
            js = {t.split("c")[0] for t in ts}
            fs = {t.split("-")[0] for t in ts if t.endswith("-forecast")}
            if len(js) > 1 or len(fs) > 1:
                bad("shared-run-directory", f"{p.name} holds the inputs of several forecasts: {sorted(ts)[:8]}")
            for t in fs:
                who.setdefault(t, []).append(p)
        for t, ps in who.items():
            if len(ps) > 1:
                bad("two-run-directories", f"one forecast ({t}) made {[p.name for p in ps]}")
        # what was recorded before stays as it was
        for p, fp in old.items():
            now = tree(p / "input_files_dir") | {"d": (p / "input_files_dict.json").read_bytes() if (p / "input_files_dict.json").exists() else b""}
            if now != fp:
                bad("record-changed", f"round {n + 1}, {[desc(s) for s in cur]}: the recorded inputs of {p.name} changed: "
                                      f"{[k.rel(x) for x in sorted(set(now) | set(fp)) if now.get(x) != fp.get(x)][:3]}")
            if p not in [info[s["target"]]["_dir"] for s in cur if s["target"] is not None] and p in metas and \
                    (p / "run_metadata.json").read_bytes() != metas[p]:
                bad("record-changed", f"round {n + 1}: the metadata of {p.name}, which nobody was asked to continue, changed")
        for s in cur:
            d = ds[s["j"]]
            hit = crashed or any(f["proc"] == f"s{s['j']}" for f in broke)
            mine = [who.get(f"S{s['j']}c{m}", []) for m in range(s["nf"])] if s["target"] is None else [[info[s["target"]]["_dir"]]]
            twins = [x for x in info.values() if x is not s and x["target"] is None and x["prog"][:2] == s["prog"][:2]]
            refused = (twins or sc["steps"] or s["nf"] > 1) and "FileExistsError" in d.text
            lost = s["fail"] and s["prog"] == "js" and s["ex"] != "no"
            if s["prog"] == "js":
                if d.rc == 0 and not mine[0]:
                    bad("no-run-directory", f"{desc(s)} exited with status 0 without a run directory with its inputs")
                if d.rc != 0 and not (hit or refused or u.plan and lost or any(x["fail"] for x in cur)):
                    bad("clean-run-fails", f"{desc(s)} failed ({d.rc}) although nothing was wrong: ...{d.text[-400:]}")
                if d.rc == 0 and mine[0]:
                    s["_dir"], s["_ok"] = mine[0][0], s["target"] is None
                    recorded(mine[0][0], info[s["target"]] if s["target"] is not None else s, when=" at the end")
                    md = metadata(mine[0][0], s, when=" at the end")
                    if md is not None:
                        timing(k, bad, s, md)
            else:
                for m in range(s["nf"]):
                    done = (s["whole"] or s["prog"] == "rsb") and d.rc == 0
                    if done and not mine[m]:
                        if not hit and not crashed:
                            bad("no-run-directory", f"{desc(s)} exited with status 0 without a run directory for its forecast {m + 1}")
                    if mine[m] and not hit and (done or s["prog"] == "rs" and m == 0):
                        recorded(mine[m][0], s, m, when=" at the end")
                if d.rc != 0 and not (hit or refused or s["prog"] == "rs" and not s["whole"]):
                    bad("clean-run-fails", f"{desc(s)} failed ({d.rc}) although nothing was wrong: ...{d.text[-400:]}")
        if V:
            break
        k.advance(jr.choice([0.0, 0.3, 2.0]))
    k.nontrivial = bool(k.fired) or any(len(r) > 1 for r in sc["rounds"])
    k.note = "; ".join(desc(x) for r in sc["rounds"] for x in r)
    return V


def launch(k, s, inp, root, work):
    lab, data, pmm = f"s{s['j']}", f"{inp}/data", f"{inp}/pmm/PowerSpectrum"
    src = s["_src"]
    if s.get("via") == "link":                 # the sources are reached through symbolic links
        d = root / "links" / lab
        if not d.is_dir():
            for n, ps in src.items():
                for m, p in enumerate(ps):
                    (d / f"{n}{m}").mkdir(parents=True)
                    os.symlink(p, d / f"{n}{m}" / p.name)
            os.symlink(data, d / "data")
            os.symlink(pmm, d / "PowerSpectrum")
        src = {n: [d / f"{n}{m}" / p.name for m, p in enumerate(ps)] for n, ps in src.items()}
        data, pmm = str(d / "data"), str(d / "PowerSpectrum")
    elif s.get("via") == "relative":
        src = {n: [os.path.relpath(p, work) for p in ps] for n, ps in src.items()}
        data, pmm = os.path.relpath(data, work), os.path.relpath(pmm, work)
    if s["prog"] == "js":
        a = ["-ex", s["ex"], "-q", "medium", "-i", data, *s["tasks"], "--keep_cl_variations", "-ow"]
        if s["target"] is not None:
            a += ["-rd", str(s["_rd"])]
        else:
            a += ["-fcfg", str(src["forecast"][0]), "-pmm_dir", pmm]
        for n, o in CFG.items():
            if n != "forecast":
                a += [o, str(src[n][0])]
        if s["id"]:
            a += ["-id", s["id"]]
        return k.spawn_script("job_submitter", a, work, label=lab)
    a = ["-ex", "batch" if s["prog"] == "rsb" else "interactive", "-i", data, "-wd", str(work), "-fcfg",
         *[str(p) for p in src["forecast"]], "-pmm_dir", pmm if s["whole"] else f"{root}/empty/PowerSpectrum"]
    for n, o in CFG.items():
        if n != "forecast":
            a += [o, str(src[n][0])]
    return k.spawn_script("run_seyfert", a, work, label=lab)


def dirtags(d):
    """Tags of the configuration files recorded or used in a run directory."""
    t = set()
    for p in [*d.glob("input_files_dir/*"), *d.glob("*/*/*.json")]:
        t.update(tags(p))
    return t


def tags(p):
    return sorted(set(re.findall(r'"sim_tag": "(S[0-9]+c[0-9]+-[A-Za-z]+)', p.read_text(errors="replace"))))


def _differ(a, b):
    import numpy as np
    for x in ("order", "flat", "steps"):
        if a[x] != b[x]:
            return f"{x}: {b[x]} instead of {a[x]}"
    if not np.array_equal(a["stem"], b["stem"]):
        return f"steps {list(b['stem'])[:3]} instead of {list(a['stem'])[:3]}"
    for n, p in a["pars"].items():
        for f, v in p.items():
            if b["pars"][n].get(f) != v:
                return f"{n}.{f}: {b['pars'][n].get(f)!r} instead of {v!r}"
    return None


def timing(k, bad, s, md):
    """Recorded start, end and duration against the simulated clock."""
    def wall(t):
        off = 0.0
        for x, o in k.clock_steps:
            if t >= x:
                off = o
        return k.t0 + t + off
    try:
        ts, te = (datetime.datetime.strptime(md[x], "%Y-%m-%dT%H:%M:%S").replace(tzinfo=datetime.timezone.utc).timestamp()
                  for x in ("start_time", "end_time"))
        m = re.fullmatch(r"(\d+)h (\d+)m (\d+)s ([\d.]+)ms", md["duration"])
        dur = int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3]) + float(m[4]) / 1000
    except (KeyError, ValueError, TypeError) as e:
        return bad("metadata", f"{desc(s)}: start, end or duration is missing or unreadable ({e!r}): {md}")
    lo, hi = wall(s["_t"]), wall(s["_te"])
    first = wall(s["_units"][0]) if s.get("_units") else hi
    if not lo - 1.01 <= ts <= first + 1.01 or not (first if s.get("_units") else ts) - 1.01 <= te <= hi + 1.01:
        bad("wrong-times", f"{desc(s)}: ran from {lo:.0f} to {hi:.0f} but {ts:.0f} to {te:.0f} is recorded")
    if abs(dur - (te - ts)) > 1.6:
        bad("wrong-duration", f"{desc(s)}: duration {md['duration']} is recorded for a run of {te - ts:.0f} s")


def desc(s):
    w = {"js": "job_submitter", "rs": "run_seyfert", "rsb": "run_seyfert batch"}[s["prog"]]
    return (f"start {s['j']} ({w} {s['ex'] if s['prog'] == 'js' else ''} {' '.join(s['tasks']) if s['prog'] == 'js' else ''} "
            f"id {s['id']}, {s['names']} file names" + (f", continuing start {s['target']}" if s["target"] is not None else "") + ")")


def shrink(sc):
    rs = sc["rounds"]
    for i in range(len(rs)):
        yield dict(sc, rounds=rs[:i] + rs[i + 1:], steps=sc["steps"][:max(0, len(rs) - 2)])
    for i, r in enumerate(rs):
        if len(r) > 1:
            for j in range(len(r)):
                yield dict(sc, rounds=rs[:i] + [r[:j] + r[j + 1:]] + rs[i + 1:])
        for j, x in enumerate(r):
            for ch in ({"fail": False}, {"edit": False}, {"long": 0}, {"delay": 0}, {"ex": "interactive"}, {"names": "distinct"},
                       {"nf": 1}, {"whole": False}, {"id": None}, {"via": "plain"}, {"tasks": ["-cl"]}):
                if any(x[a] != b for a, b in ch.items()):
                    yield dict(sc, rounds=rs[:i] + [r[:j] + [dict(x, **ch)] + r[j + 1:]] + rs[i + 1:])
    if sc["fault"]:
        yield dict(sc, fault=None)
    if sc["steps"]:
        yield dict(sc, steps=[])
    if sc["op_dt"]:
        yield dict(sc, op_dt=0)
