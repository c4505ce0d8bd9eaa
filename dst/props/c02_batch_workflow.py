"""C02: the batch workflow runs every stage once, in order, and stops at the first failure."""
from dst import flow, fixtures as fx
from dst.cluster import Cluster

ID = "C02"
TITLE = "Batch runs do every piece of work once, stage by stage, and stop on failure"
RULE = ("a run is one batch forecast with 1-3 free parameters, a random subset of stages, random queueing and running "
        "times per job, and at most two of: failing/killed job, rejected submission, status-query failures, slow "
        "visibility; non-trivial: any fault or unusual job state fired; distinct: by event trace")
REAL = ("job_submitter, ForecastRunner/TaskRunner, BsubInterface, the generated job scripts, evaluate_final_results "
        "(batch part), densities and shot-noise (delta Cl) computation")
STUB = "LSF, clock, shell, compute_cls / compute_derivatives / compute_fisher_matrix bodies (inputs checked, outputs copied)"
ASSUME = ["compute programs read the inputs the stand-ins check for"]
N = {"quick": 230, "thorough": 20000}


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    ctx.data["gold"] = flow.golden(ctx)
    flow.fisher_lists(ctx, crosses=8)


def gen(rng, i, ctx, ex="batch"):
    free = rng.choice([["w0"], ["w0"], ["Omm"], ["w0", "Omm"]])
    marg = len(free) == 1 and rng.random() < 0.25
    tasks = rng.choice([["-cl", "-der", "-fish"]] * 5 + [["-cl"], ["-cl", "-der"]])
    pars = free + (["bgsp0", "bgsp1"] if marg else [])
    exp = flow.expected_units(pars, tasks, ctx.data["dvs"])
    kind = rng.choice(["clean", "unit", "unit", "unit", "reject", "kill"] if ex == "batch" else
                      ["clean", "unit", "unit", "unit", "unit"])
    sc = {"free": free, "marg": marg, "tasks": tasks, "plan": {}, "jobseed": rng.getrandbits(30), "query": {},
          "again": rng.choice([None, None, None, "prepared", "failed", "finished"]), "gap": rng.choice([0, 3.0]),
          "submit_faults": {}, "kill": None, "op_dt": rng.choice([0, 0.001, 0.02]), "slow": rng.random() < 0.4}
    allu = [f"{st}/{u}" for st in flow.ORDER if st in exp for u in sorted(exp[st])]
    if kind == "unit":
        st = rng.choice([s for s in exp])
        us = [x for x in allu if x.startswith(st + "/")]
        for x in rng.sample(us, 1 if rng.random() < 0.7 else min(3, len(us))):
            sc["plan"][x] = {"fail": rng.choice(["exit-silent", "exit-stderr", "exit-silent", "late-exit-silent", "killed"] +
                                                (["stderr-only"] if ex == "interactive" and st != "res" else [])),
                             "dt": rng.choice([1, 5, 40, 100])}
    njobs = sum(len(v) for v in exp.values())
    if kind == "kill":
        sc["kill"] = rng.randrange(njobs)
    if kind == "reject":
        sc["submit_faults"] = {str(rng.randrange(1, njobs + 1)): "reject"}
    if ex == "batch" and rng.random() < 0.4:
        for _ in range(rng.choice([1, 2, 5])):
            sc["query"][str(rng.randrange(1, 12))] = rng.choice(["down", "empty", "partial", "header", "noise"])
    return sc


class FirstAttempt(Exception):
    pass


def start(k, sc, ctx, root, ex, extra=()):
    flow.setup(k, ctx)
    inp = flow.clone_inputs(ctx, root)
    fx.write_json(inp / "cfg" / "forecast.json", fx.forecast_config(free=sc["free"], marg_sp=sc["marg"]))
    k.env["SEYFERT_INPUT_DATA"] = f"{inp}/data"
    work = root / "work"
    work.mkdir()
    pars = sc["free"] + (["bgsp0", "bgsp1"] if sc["marg"] else [])
    exp = flow.expected_units(pars, sc["tasks"], ctx.data["dvs"])
    u = flow.Units(k, ctx, ctx.data["gold"], sc["plan"])
    rd = None
    if sc.get("again"):
        # the run directory of a run that was only prepared, that has failed, or that is complete
        if sc["again"] == "finished":
            u.plan = {}
            extra = (*extra, "--overwrite_results")
        if sc["again"] == "failed":
            x = f"der/{sc['free'][-1]}" if "-der" in sc["tasks"] and sc["jobseed"] % 2 else "cls/dvar_central_step_0"
            u.plan = {x: {"fail": "exit-silent", "dt": 1}}
        d = k.wait(k.spawn_script("job_submitter", flow.js_args(inp, "no" if sc["again"] == "prepared" else "interactive", sc["tasks"]),
                                  work, label="first"))
        k.drain()
        rd = flow.find_rundir(work)
        if rd is None or (d.rc != 0) != (sc["again"] == "failed"):
            raise FirstAttempt(f"the first attempt, which was to be {sc['again']}, ended with status {d.rc}: ...{d.text[-300:]}")
        for x in (u.log, u.where, u.missing, u.argv):
            x.clear()
        u.plan = sc["plan"]
        k.advance(sc["gap"])
        k.fire(f"again-{sc['again']}")
    pid = k.spawn_script("job_submitter", flow.js_args(inp, ex, sc["tasks"], rundir=rd, extra=extra), work)
    return pid, work, exp, u


def run(k, sc, ctx, root):
    import random
    jr = random.Random(sc["jobseed"])

    def plan(i, cmd):
        p = {"body": "real", "pend": jr.choice([0.5, 3, 10, 50]) * jr.random(), "run": jr.random() * 5}
        if sc["slow"] and jr.random() < 0.3:
            p["run"] = jr.choice([40, 100, 400]) * jr.random()
        if jr.random() < 0.2:
            p["visible"] = jr.choice([2, 6, 20])
        if jr.random() < 0.1:
            p["susp"] = [["SSUSP", 0.1, 1.0]]
        if sc["kill"] == i:
            p["outcome"] = "kill"
        return p
    cl = Cluster(k, plan, query=sc["query"], submit_faults=sc["submit_faults"], first_id=jr.choice([98, 4100, 99990]))
    try:
        pid, work, exp, u = start(k, sc, ctx, root, "batch")
    except FirstAttempt as e:
        return [{"class": "first-attempt", "sig": "first-attempt", "msg": str(e)}]
    d = k.wait(pid)
    t_end, step_end = k.mono, k.steps
    return judge(k, sc, cl, u, exp, d, work, step_end, t_end)


def judge(k, sc, cl, u, exp, d, work, step_end, t_end):
    h = list(k.hist)
    k.drain()
    V, starts, ends, ff = flow.judge_units(k, u, exp, d.rc, sc["plan"])

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    # job-level: which units belong to which job
    bad_jobs = [j for j in cl.order if j.rc not in (0, None)]
    rejected = any(x[2] == "bsub-reject" for x in h)
    broke = bool(bad_jobs) or rejected or any(r != 0 for v in ends.values() for _, r in v)
    done_units = {s: {x for x in exp[s] if any(r == 0 for _, r in ends.get((s, x), []))} for s in exp}
    if broke:
        if d.rc == 0:
            bad("failure-hidden", f"a job failed or could not be submitted "
                f"({[(j.jid, j.rc, j.cmd[-60:]) for j in bad_jobs][:2]}, rejected={rejected}), but the submitter exited with status 0")
        # nothing of a later stage than the failing one may have been submitted
        stage_of = {}
        for x in k.hist:
            if x[2] == "unit-start":
                stage_of.setdefault(x[4], x[3])
    else:
        if d.rc != 0:
            bad("clean-run-fails", f"no job failed and no submission was rejected, but the submitter exited with {d.rc}: "
                                   f"...{d.text[-300:]}")
        for s in exp:
            lost = exp[s] - done_units[s]
            if lost:
                bad("work-lost", f"the run ended normally but {len(lost)} {s} units were never run: {sorted(lost)[:3]}")
        late = [x for x in k.hist if x[2] == "unit-end" and x[0] > step_end]
        if late:
            bad("left-before-end", f"the submitter exited before {late[0][3]} {late[0][4]} had finished")
    # a failed job is noticed: nothing is submitted long after a poll reported EXIT
    ex_q = next((x for x in h if x[2] == "query" and any(s == "EXIT" for _, s in x[5])), None)
    if ex_q is not None:
        owner_sub = [x for x in h if x[2] == "submit" and x[0] > ex_q[0]]
        if owner_sub:
            bad("submits-after-failure", f"{len(owner_sub)} jobs were submitted after a poll had reported a failed job")
    if not broke and d.rc == 0:
        ends_t = [x[1] for x in k.hist if x[2] == "job" and x[4] in ("DONE", "EXIT")]
        if ends_t and t_end - max(ends_t) > 120 + 40 * len(sc["query"]):
            bad("slow-to-finish", f"the submitter ended {t_end - max(ends_t):.0f} s after the last job")
    k.nontrivial = bool(k.fired)
    k.note = f"{len(cl.order)} jobs, exit {d.rc}, {t_end:.0f} simulated s"
    return V


def shrink(sc):
    for x in sc["plan"]:
        yield dict(sc, plan={a: b for a, b in sc["plan"].items() if a != x})
    for x in sc["query"]:
        yield dict(sc, query={a: b for a, b in sc["query"].items() if a != x})
    if sc["again"]:
        yield dict(sc, again=None)
    if sc["marg"]:
        yield dict(sc, marg=False)
    if len(sc["free"]) > 1:
        yield dict(sc, free=sc["free"][:1])
    if sc["slow"]:
        yield dict(sc, slow=False)
    if sc["op_dt"]:
        yield dict(sc, op_dt=0)
    if sc["kill"] is not None:
        yield dict(sc, kill=None)
    if sc["submit_faults"]:
        yield dict(sc, submit_faults={})
