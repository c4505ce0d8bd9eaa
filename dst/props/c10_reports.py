"""C10: reports say how each batch job ended."""
import csv
import math
import random
import re
import shutil
from pathlib import Path

from dst import flow, fixtures as fx
from dst.cluster import Cluster
from dst.kernel import Done
from dst.props.c07_confinement import tree

ID = "C10"
TITLE = "Reports of batch jobs say how each job ended"
RULE = ("a run is one forecast submitted to the batch system once or several times, or several forecasts of one batch job each, with "
        "jobs that succeed, fail silently or not, are killed, write no output, run for days or lose or truncate their log files, and "
        "with reports made during and after the execution; non-trivial: a job did not simply succeed, or a report was made during "
        "the execution; distinct: by event trace")
REAL = "do_jobs_report, report_batch_jobs, job_submitter, run_seyfert (submission), the resource usage table, BsubInterface"
STUB = "LSF, clock, shell, the compute programs (outputs copied from a reference run)"
ASSUME = ["LSF's reports have LSF's wording; job ids grow and the clock of the submitting host does not go back"]
N = {"quick": 130, "thorough": 16000}
S, F, U, NE = "SUCCESS", "FAILURE", "UNDEFINED", "NOT_EXECUTED"
TALK = [b"", b"", b"working\n", b"Successfully completed.\n", b"Exited with exit code 1.\n", b"Started at Thu Jan  1 00:00:00 2015\n",
        b"Job 17 on <8*bc-18.ge.infn.it>\nTERM_RUNLIMIT\n", b"caf\xe8 \xff\xfe\n"]
ERRS = [b"Traceback (most recent call last):\nMemoryError\n", b"\xff\xfe bad bytes\n", b"OSError: [Errno 5] Input/output error\n"]


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    ctx.data["gold"] = flow.golden(ctx)


def gen(rng, i, ctx):
    sc = {"jobseed": rng.getrandbits(30), "t0": rng.choice([1.6e9, 1.61e9, 1.7e9, 1.9e9]), "op_dt": rng.choice([0, 0.001]),
          "first_id": rng.choice([7, 98, 995, 4100]), "reports": [rng.choice([20, 60, 150, 400]) * rng.random() for _ in range(rng.choice([0, 1, 1, 2]))],
          "p": rng.choice([0, 0.03, 0.15, 0.4]), "long": rng.random() < 0.15, "rfault": None}
    if rng.random() < 0.25:
        sc.update(kind="farm", n=rng.choice([0, 1, 2, 4]), pattern=rng.random() < 0.3)
        return sc
    sc.update(kind="run", free=rng.choice([["w0"], ["w0"], ["Omm"], ["w0", "Omm"], []]), rounds=[])
    for n in range(rng.choice([1, 1, 2, 3])):
        t = rng.choice([["-cl", "-der"], ["-cl", "-der", "-fish"], ["-cl", "-der", "-fish"], ["-cl"], ["-pmm"], ["-pmm", "-cl", "-der"]]) \
            if n == 0 else rng.choice([["-cl"], ["-der"], ["-cl", "-der"], ["-der", "-fish"]])
        sc["rounds"].append({"tasks": t, "p": sc["p"] if n == 0 or rng.random() < 0.5 else 0.0, "ex": rng.choice(["batch"] * 7 + ["interactive", "no"])})
    if rng.random() < 0.2:
        sc["rfault"] = rng.choice([{"kind": "open_r", "match": "*.out", "act": "eio"}, {"kind": "open_r", "match": "*.err", "act": "eacces"},
                                   {"kind": "open_w,close", "match": "*report_*.log", "act": "enospc"},
                                   {"kind": "open_w,close", "match": "*summary_*.log", "act": "eio"},
                                   {"kind": "open_w,close", "match": "*report_*.log", "act": "die"}])
        sc["rfault"].update(proc="*do_jobs_report*", nth=rng.choice([1, 1, 2, 5]))
    return sc


class Talk(flow.Units):
    """Stand-ins that also print things, write nothing, dump core or complain though they succeed."""

    def __init__(self, k, ctx, gold, jr, inp):
        super().__init__(k, ctx, gold, {}, default_dt=1.0)
        self.jr, self.p, self.inp = jr, 0.0, inp
        k.programs["compute_pmm"] = self.pmm

    def pmm(self, k, argv, cwd, env):
        wd = Path(cwd, flow.opt(argv, "--workdir", "-wd") or cwd)
        f = self.fate()
        yield ("sleep", 1.0)
        if f.get("fail") not in ("exit-silent", "exit-stderr", "killed", "no-output", "core"):
            shutil.copy(self.inp / "pmm" / "PowerSpectrum" / wd.name / "p_mm.h5", wd)
        return self.word(f, wd, Done(1 if f.get("fail", "").startswith(("exit", "late", "core")) else 137 if f.get("fail") == "killed" else 0))

    def fate(self):
        jr = self.jr
        f = {"dt": jr.choice([0.5, 3.0, 20.0])}
        if jr.random() < self.p:
            f["fail"] = jr.choice(["exit-silent", "exit-silent", "exit-stderr", "late-exit-silent", "killed", "no-output", "noisy", "core"])
        return f

    def plan_of(self, st, u, rd):
        return self._f

    def outputs(self, st, u, rd, wd):
        if self._f.get("fail") not in ("no-output", "core"):
            super().outputs(st, u, rd, wd)

    def body(self, k, st, name, argv, cwd, env):
        f = self._f = self.fate()
        wd = Path(cwd, flow.opt(argv, "--workdir", "-wd") or cwd)
        g = super().body(k, st, name, argv, cwd, env)
        x = None
        while True:                                  # several stand-ins run at the same time
            self._f = f
            try:
                y = g.send(x)
            except StopIteration as e:
                return self.word(f, wd, e.value)
            x = yield y

    def word(self, f, wd, d):
        jr, err, rc = self.jr, d.err, d.rc
        fail = f.get("fail")
        if fail:
            self.k.fire("unit_" + fail)
        if fail == "exit-stderr":
            err = jr.choice(ERRS)
        if fail == "noisy":
            err = jr.choice([b"RuntimeWarning: overflow\n", b"\n"])
        if fail == "core":
            rc, err = 139, jr.choice([b"Segmentation fault (core dumped)\n", b""])
            (wd / f"core.{jr.randrange(1, 9999)}").write_bytes(b"\x7fELF")
        return Done(rc, jr.choice(TALK) + d.out, err)


def job_plan(sc, jr, p):
    def plan(i, cmd):
        x = {"body": "real", "pend": jr.choice([0.5, 3, 30]) * jr.random(), "run": jr.choice([1, 5, 60]) * jr.random(),
             "visible": jr.choice([0, 0, 3])}
        if sc["long"] and jr.random() < 0.2:
            x["run"] = jr.choice([5000, 90000, 200000]) * (0.8 + 0.4 * jr.random())
        if jr.random() < p():
            k = jr.choice(["kill", "lose_logs", "lose_out", "lose_err", "cut"])
            x.update({"outcome": "kill", "run": jr.random() * 20} if k == "kill" else {k: jr.choice([0, 40, 300, 520, 700]) if k == "cut" else True})
            if k == "cut" and jr.random() < 0.5:
                x["outcome"] = "kill"
        return x
    return plan


def run(k, sc, ctx, root):
    flow.setup(k, ctx)
    k.op_dt = sc["op_dt"]
    jr = random.Random(sc["jobseed"])
    V = []

    def bad(cls, msg):
        if not any(v["class"] == cls for v in V):
            V.append({"class": cls, "sig": cls, "msg": msg})
    inp = flow.clone_inputs(ctx, root)
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    work = root / "work"
    work.mkdir()
    (farm if sc["kind"] == "farm" else forecast)(k, sc, ctx, jr, inp, work, bad)
    return V


# ------------------------------------------------------------------ one forecast of many jobs
def forecast(k, sc, ctx, jr, inp, work, bad):
    fx.write_json(inp / "cfg" / "forecast.json", fx.forecast_config(free=sc["free"], marg_sp=False))
    fc = flow.load_fcfg(inp / "cfg" / "forecast.json", inp / "data")
    shutil.rmtree(inp / "pmm" / "PowerSpectrum")
    src = ctx.base / "inputs" / "pmm" / "PowerSpectrum" / "dvar_central_step_0" / "p_mm.h5"
    for n in flow.stages(fc.phys_pars.free_cosmological_parameters, flow.STEPS):
        (inp / "pmm" / "PowerSpectrum" / n).mkdir(parents=True)
        shutil.copy(src, inp / "pmm" / "PowerSpectrum" / n)
    u = Talk(k, ctx, ctx.data["gold"], jr, inp)
    cl = Cluster(k, job_plan(sc, jr, lambda: u.p / 2), first_id=sc["first_id"])
    k.faults = [dict(sc["rfault"], _n=0, _fired=False)] if sc["rfault"] else []
    rd, tables = None, []
    during = 0
    for n, r in enumerate(sc["rounds"]):
        u.p = r["p"]
        extra = ["--keep_cl_variations"] + (["-ow"] if n else [])
        a = flow.js_args(inp, r["ex"], r["tasks"], rundir=rd, extra=extra)
        if "-pmm" in r["tasks"] and "-pmm_dir" in a:
            j = a.index("-pmm_dir")
            del a[j:j + 2]
        mark = len(cl.order)
        pid = k.spawn_script("job_submitter", a, work)
        for t in sc["reports"]:
            k.advance(t)
            now = flow.find_rundir(work)
            if now is not None:
                during += 1
                report(k, cl, now, bad, f"during round {n + 1}", False)
        d = k.wait(pid)
        if flow.find_rundir(work) is None:
            bad("fails", f"the submitter made no run directory: {d.text[-500:]}")
            return
        rd = flow.find_rundir(work)
        waited = all(j.ended for j in cl.order[mark:])        # (the submitter stops waiting after some hours)
        if jr.random() < 0.3:
            report(k, cl, rd, bad, f"as round {n + 1} ended", False)
        k.drain()
        report(k, cl, rd, bad, f"after round {n + 1}", True)
        if waited and d.rc == 0 and "-fish" in r["tasks"]:
            resources(k, cl.order[mark:], rd, bad)
        k.advance(5.0)
    k.nontrivial = bool(k.fired) or during > 0
    k.note = f"{len(cl.order)} jobs, {len(sc['rounds'])} rounds"


def sec(t):
    return math.floor(t)


def host(job):
    return job.host


def expected(cl, jobdir, pattern="*.h5"):
    """(acceptable statuses, last ended job, whether its logs are whole)"""
    js = [j for j in cl.order if Path(j.cwd, str(j.opts["-o"])).parent == jobdir]
    ended = [j for j in js if j.ended]
    if not ended:
        return {NE}, None, False
    j = ended[-1]
    p = j.plan
    if any(x.plan.get("lose_logs") for x in ended):
        return {S, F, U, NE}, None, False
    out = any(jobdir.glob(pattern))
    err = bool(j.err_text) and not p.get("lose_err")
    if err or j.rc != 0 and not p.get("lose_out") and "cut" not in p:
        return {F}, j, not p.get("lose_out") and "cut" not in p
    if j.rc != 0:
        return {F, U}, j, False
    if p.get("lose_out") or p.get("lose_err") or "cut" in p or j.err_text:
        return {S, U} if out else {U}, j, not p.get("lose_out") and "cut" not in p
    return {S} if out else {U}, j, True


def report(k, cl, rd, bad, when, quiet):
    n0, before = len(k.hist), tree(rd) if quiet else None
    state0 = {d: (expected(cl, d)[0], [j.jid for j in cl.order if j.ended]) for t in ("PowerSpectrum", "Angular", "Derivative")
              if (rd / t).is_dir() and not (rd / t).is_symlink() for d in (rd / t).iterdir() if d.is_dir()}
    ended0 = {j.jid for j in cl.order if j.ended}
    d = k.wait(k.spawn_script("do_jobs_report", [str(rd)], rd.parent, label="do_jobs_report"))
    hurt = [x for x in k.hist[n0:] if x[2] == "fault"]
    if d.rc != 0:
        if not hurt:
            bad("report-fails", f"{when}: no report could be made ({d.rc}): ...{d.text[-500:]}")
        return
    if any(x[3] in ("enospc", "die") or x[3] == "eio" and x[5] != "open_r" for x in hurt):
        bad("failed-writing-hidden", f"{when}: the report could not be written ({hurt[:1]}), but its status is 0")
        return
    if quiet:
        after = tree(rd)
        ch = [p for p in set(before) | set(after) if before.get(p) != after.get(p) and Path(p).name not in
              (f"report_{rd.name}.log", f"summary_{rd.name}.log") and p != str(rd)]
        if ch:
            bad("run-changed", f"{when}: making the report changed {k.rel(ch[0])}")
    try:
        text = (rd / f"report_{rd.name}.log").read_text(errors="replace")
        summary = (rd / f"summary_{rd.name}.log").read_text(errors="replace")
    except OSError as e:
        bad("report-missing", f"{when}: {e}")
        return
    moved = {j.jid for j in cl.order if j.ended} - ended0
    judge(k, cl, rd, bad, when, text, summary, d.out.decode("utf-8", "replace"), state0, moved, hurt, quiet)


def judge(k, cl, rd, bad, when, text, summary, out, state0, moved, hurt, quiet):
    head = re.match(r"Run (.*): (\w+)\n", text)
    if not head or not out.startswith(head.group(0)) or not summary.startswith(head.group(0)):
        bad("report-format", f"{when}: the report starts with {text[:80]!r}, the summary with {summary[:80]!r}")
        return
    tasks = {m.group(1): m for m in re.finditer(r"^#{11} WORKDIR: (\S+) (\w+) #{11}$", text, re.M)}
    want = {d.parent.name for d in state0}
    present = [t for t in ("PowerSpectrum", "Angular", "Derivative") if (rd / t).is_dir() and not (rd / t).is_symlink()]
    if quiet and not set(present) == set(tasks):
        bad("task-missing", f"{when}: the report is about {sorted(tasks)}, the run has {present}")
    secs, names = {}, list(tasks)
    for i, t in enumerate(names):
        end = tasks[names[i + 1]].start() if i + 1 < len(names) else len(text)
        parts = re.split(r"^## (?=\S+$)", text[tasks[t].end():end], flags=re.M)
        secs[t] = (parts[0], {p.split("\n", 1)[0]: p for p in parts[1:]}, [p.split("\n", 1)[0] for p in parts[1:]])
    for dpath, (st0, _) in sorted(state0.items()):
        t = dpath.parent.name
        if not dpath.is_dir():
            continue
        if t not in secs or dpath.name not in secs[t][1]:
            bad("job-missing", f"{when}: the report does not mention {t}/{dpath.name}")
            return
        body = secs[t][1][dpath.name]
        got = dict(re.findall(r"^- ([A-Za-z ]+): (.*)$", body, re.M))
        st1, j, whole = expected(cl, dpath)
        stirred = any(x.jid in moved for x in cl.order if Path(x.cwd, str(x.opts["-o"])).parent == dpath) \
            or not quiet and any(x.stat == "RUN" for x in cl.order if Path(x.cwd, str(x.opts["-o"])).parent == dpath)
        if hurt and got["Status"] != S:
            continue
        if got["Status"] not in st1 | (st0 | {U} if stirred else set()):
            bad("wrong-status", f"{when}: {t}/{dpath.name} is reported as {got['Status']}, expected {sorted(st1)}: job "
                f"{(j.jid, j.rc, j.plan.get('outcome'), j.err_text[:40]) if j else None}, {[p.name for p in dpath.iterdir() if p.suffix in ('.out', '.err', '.h5')]}")
            return
        if j is None or stirred:
            continue
        if whole:
            if got["JobID"] != str(j.jid):
                bad("wrong-job", f"{when}: {t}/{dpath.name} is reported as job {got['JobID']}, it was {j.jid}")
            if got["Execution Hosts"] != f"8*{host(j)}":
                bad("wrong-host", f"{when}: job {j.jid} is reported to have run on {got['Execution Hosts']!r}, it ran on 8*{host(j)}")
            m = re.match(r"(\d+)h (\d+)m (\d+)s", got["Execution Time"])
            s = m and int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3])
            if s != sec(j.wall_end) - sec(j.wall_start):
                bad("wrong-time", f"{when}: job {j.jid} ran for {sec(j.wall_end) - sec(j.wall_start)} s, reported: {got['Execution Time']!r}")
        if got["Status"] == S:
            names_ = [p.name for p in dpath.glob("*.h5")]
            m = re.search(r"  - Name: (.*)\n  - Size: (\S+) MB", body)
            if not m or m[1] not in names_ or abs(float(m[2]) - (dpath / m[1]).stat().st_size / 1e6) > 1e-6:
                bad("wrong-output", f"{when}: {t}/{dpath.name}: reported output {m and m.groups()}, there is {names_}")
        elif got["Status"] == F and not j.plan.get("lose_err"):
            if j.err_text.decode("utf-8", "replace").strip() not in body:
                bad("error-not-shown", f"{when}: the report of {t}/{dpath.name} does not show its errors")
            core = b"ore dump" in j.err_text or any(re.match(r"core\.\d", p.name) for p in dpath.iterdir())
            if got.get("Core Dump") != str(core):
                bad("core-dump", f"{when}: {t}/{dpath.name}: core dumped: {core}, reported {got.get('Core Dump')}")
    # tasks and run
    stat = {}
    for t, m in tasks.items():
        ss = [dict(re.findall(r"^- ([A-Za-z ]+): (.*)$", b, re.M))["Status"] for b in secs[t][1].values()]
        stat[t] = m.group(2)
        right = (F if F in ss else S if ss and set(ss) == {S} else NE if set(ss) <= {NE} else None)
        if (right and m.group(2) != right) or (not right and m.group(2) in (S, F, NE)):
            bad("wrong-task-status", f"{when}: {t} is reported as {m.group(2)}, its jobs are {sorted(set(ss))}")
        if m.group(2) != NE:
            for what, n in (("succeeded", ss.count(S)), ("failed", ss.count(F))):
                if f"\n{n}/{len(ss)} jobs {what}\n" not in secs[t][0]:
                    bad("wrong-count", f"{when}: {n} of {len(ss)} jobs of {t} {what}, but the summary says {secs[t][0][:300]!r}")
            times = [re.search(r"^- Execution Time: (\d+)h (\d+)m (\d+)s", b, re.M) for b in secs[t][1].values()]
            mean = re.search(r"^Mean Execution Time: (\d+)h (\d+)m (\d+)s", secs[t][0], re.M)
            if mean is None or all(times) and all(any(map(int, x.groups())) for x in times) and times and \
                    not abs(hms(mean) - sum(map(hms, times)) / len(times)) <= 1:
                bad("wrong-mean-time", f"{when}: {t}: {mean and mean[0]!r}, but its jobs ran for {[hms(x) for x in times if x]} s")
            cores = sum("- Core Dump: True\n" in b for b in secs[t][1].values())
            if f"\n{cores}/{ss.count(F)} failed jobs core dumped\n" not in secs[t][0]:
                bad("wrong-count", f"{when}: {cores} of {ss.count(F)} failed jobs of {t} dumped core, but the summary says {secs[t][0][:300]!r}")
            for what, st in (("failed", F), ("succeeded", S)):
                on = {h for b in secs[t][1].values() if f"- Status: {st}\n" in b
                      for h in (re.search(r"^- Execution Hosts: (.*)$", b, re.M) or ["", ""])[1].split()}
                line = re.search(rf"^Hosts on which jobs {what}: (.*)$", secs[t][0], re.M)
                if line is None or {x for x in line[1].split(", ") if x} != on:
                    bad("wrong-hosts", f"{when}: {t}: {line and line[0]!r}, but its jobs that {what} ran on {sorted(on)}")
            size = re.search(r"^Total output size: (\S+) MB", secs[t][0], re.M)
            sizes = [float(x) for b in secs[t][1].values() for x in re.findall(r"^  - Size: (\S+) MB", b, re.M)]
            if size is None or abs(float(size[1]) - sum(sizes)) > 0.00051:
                bad("wrong-total-size", f"{when}: {t}: {size and size[0]!r}, but its outputs have {sizes} MB")
        ids = [int(x) for b in secs[t][2] for x in re.findall(r"^- JobID: (\d+)$", secs[t][1][b], re.M)]
        if len(ids) == len(ss) and ids != sorted(ids):
            bad("jobs-out-of-order", f"{when}: the jobs of {t} are listed as {ids[:6]}")
    ss = set(stat.values())
    right = F if F in ss else S if ss == {S} else NE if ss <= {NE} else None
    ok = {right} | ({"NOT_COMPLETED"} if right == NE else set())
    if (right and head[2] not in ok) or (not right and head[2] in (S, F, NE)):
        bad("wrong-run-status", f"{when}: the run is reported as {head[2]}, its tasks are {stat}")


def hms(m):
    return int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3])


def resources(k, jobs, rd, bad):
    """The resource usage table of the Fisher jobs, if it was written."""
    fish = [j for j in jobs if "compute_fisher_matrix" in j.cmd]
    if not fish:
        return
    where = Path(fish[0].opts["-o"]).parent
    f = where.parent / "resources_usage.csv"
    if any(a in j.plan for j in fish for a in ("lose_logs", "lose_out", "cut")) or any(not j.ended for j in fish):
        return
    if not f.exists():
        bad("resources-missing", f"no resource usage table was written for {len(fish)} jobs that completed")
        return
    rows = {r["fisher"]: r for r in csv.DictReader(f.open())}
    for j in fish:
        n = re.match(r"out_(.*)_\d{4}-\d\d-\d\dT", Path(j.opts["-o"]).name)[1]
        if n not in rows or float(rows[n]["duration_s"]) != sec(j.wall_end) - sec(j.wall_start) or any(
                abs(float(rows[n][a]) - v) > 1e-6 for a, v in (("max_mem_MB", 120.0), ("avg_mem_MB", 60.0), ("req_mem_MB", 2048.0), ("delta_mem_MB", 1928.0))):
            bad("resources-wrong", f"job {n} ran for {sec(j.wall_end) - sec(j.wall_start)} s with 120 MB, the table says {rows.get(n)}")
            return
    if len(rows) != len(fish):
        bad("resources-wrong", f"{len(rows)} rows for {len(fish)} jobs")
    k.fire("resource-table")


# ------------------------------------------------------------------ several forecasts of one job each
def farm(k, sc, ctx, jr, inp, work, bad):
    cfgs = []
    for n in range(sc["n"]):
        c = inp / "cfg" / f"f{n}.json"
        fx.write_json(c, fx.forecast_config(free=["w0"], marg_sp=False))
        cfgs.append(str(c))
    p = sc["p"]

    def prog(k, argv, cwd, env):
        yield ("sleep", jr.choice([1.0, 30.0]))
        if jr.random() < p:
            k.fire("unit_fails")
            return Done(1, jr.choice(TALK), jr.choice(ERRS + [b""]))
        return Done(0, jr.choice(TALK), b"")
    k.programs["run_seyfert"] = prog
    cl = Cluster(k, job_plan(sc, jr, lambda: p), first_id=sc["first_id"])
    for c in cfgs:
        a = ["-ex", "batch", "-i", str(inp / "data"), "-wd", str(work), "-fcfg", c, "-pmm_dir", str(inp / "pmm" / "PowerSpectrum")]
        d = k.wait(k.spawn_script("run_seyfert", a, work))
        if d.rc != 0:
            bad("fails", f"run_seyfert could not submit ({d.rc}): {d.text[-400:]}")
    for t in sc["reports"]:
        k.advance(t)
        farm_report(k, sc, cl, work, bad, "during the execution")
    k.drain()
    farm_report(k, sc, cl, work, bad, "at the end")
    k.nontrivial = bool(k.fired) or bool(sc["reports"]) or sc["n"] == 0
    k.note = f"{len(cl.order)} forecasts of one job"


def farm_report(k, sc, cl, work, bad, when):
    args, cwd = (["--workdir", str(work)], work.parent) if sc["jobseed"] % 2 else ([], work)
    if sc["pattern"]:
        args += ["--pattern", "*/batch_logs/out/*.out"]
    done0 = [j for j in cl.order if j.ended]
    files0 = {p.name for p in work.glob("run_*/batch_logs/out/out*.out")}
    d = k.wait(k.spawn_script("report_batch_jobs", args, cwd))
    files1 = {p.name for p in work.glob("run_*/batch_logs/out/out*.out")}
    if d.rc != 0:
        bad("report-fails", f"{when}: report_batch_jobs failed ({d.rc}): ...{d.text[-400:]}")
        return
    if files0 != files1 or [j for j in cl.order if j.ended] != done0:
        return
    said = "All found runs successfully completed" in d.text
    blamed = " ".join(x for x in d.text.splitlines() if "wrong" in x)
    wrong = unclear = 0
    for j in done0:
        name = Path(j.opts["-o"]).name
        if name not in files0:
            continue
        if j.rc != 0:
            wrong += 1
            if name not in blamed:
                bad("failure-not-reported", f"{when}: job {j.jid} ended with status {j.rc} ({j.plan}), but {name} is not reported")
        elif "cut" in j.plan:
            unclear += 1
        elif name in blamed:
            bad("success-blamed", f"{when}: job {j.jid} completed, but is reported as failed")
    if said and (wrong or not files0):
        bad("success-claimed", f"{when}: all found runs are said to have completed; {len(files0)} were found, {wrong} of them failed")
    if not said and files0 and not wrong and not unclear:
        bad("success-not-reported", f"{when}: all {len(files0)} found runs completed: {d.text[-300:]}")


def shrink(sc):
    if sc["rfault"]:
        yield dict(sc, rfault=None)
    for i in range(len(sc["reports"])):
        yield dict(sc, reports=sc["reports"][:i] + sc["reports"][i + 1:])
    if sc["kind"] == "run":
        if len(sc["rounds"]) > 1:
            yield dict(sc, rounds=sc["rounds"][:-1])
        for a in (["w0"], []):
            if len(a) < len(sc["free"]):
                yield dict(sc, free=a)
        for i, r in enumerate(sc["rounds"]):
            if len(r["tasks"]) > 1:
                yield dict(sc, rounds=sc["rounds"][:i] + [dict(r, tasks=r["tasks"][:1])] + sc["rounds"][i + 1:])
            if r["p"]:
                yield dict(sc, rounds=sc["rounds"][:i] + [dict(r, p=0.0)] + sc["rounds"][i + 1:])
    elif sc["n"] > 1:
        yield dict(sc, n=1)
    if sc["p"]:
        yield dict(sc, p=0.0)
    for a, v in (("long", False), ("op_dt", 0), ("first_id", 4100)):
        if sc[a] != v:
            yield dict(sc, **{a: v})
