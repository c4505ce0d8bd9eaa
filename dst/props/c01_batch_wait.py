"""C01: waiting for batch jobs tells the truth and ends."""
from dst import seam
from dst.cluster import CLEAN_PERIOD, Cluster

ID = "C01"
TITLE = "Waiting for batch jobs ends when, and only when, they are all finished"
RULE = ("a run is 1-7 submitted jobs with random pending/running/suspended times, outcomes, visibility delays and "
        "user names, a random polling interval and maximum wait, and a random sequence of status-query failures, driven "
        "through the real submit-and-wait code; non-trivial: at least one fault or unusual job state fired, or a job "
        "failed, or the maximum wait was reached; distinct: by the event trace")
REAL = "BsubInterface submission, bjobs parsing and the wait loop"
STUB = "LSF (bsub/bjobs), clock, job bodies"
ASSUME = ["a job reported DONE stays successful (LSF does not requeue it)"]
N = {"quick": 500, "thorough": 60000}
USERS = ["lpaganin", "root", "user1", "m_bonici2", "jdoe-ext", "LPaganin", "a.b", "u"]


def gen(rng, i, ctx):
    n = rng.choice([1, 1, 2, 3, 3, 4, 5, 7])
    if rng.random() < 0.03:               # as many as a forecast over all data vectors and combinations submits
        n = rng.choice([25, 60, 120, 280, 450])
    res = rng.choice([1, 5, 10, 30.0, 30.0, 15, 60, 0.5, 2.5, 7.3])
    max_h = rng.choice([0.02, 0.02, 0.05, 0.1, 0.1, 0.25, 0.5, 1, 3])
    horizon = max_h * 3600
    style = rng.choice(["plain", "plain", "fail", "hang", "mixed", "mixed", "purge"])
    jobs = []
    for j in range(n):
        run = rng.choice([0.2, 3, 20, 31, 90, 400, 400, 1500]) * (0.5 + rng.random())
        p = {"pend": rng.choice([0, 1, 5, 30, 120, 900]) * rng.random() + 0.1, "run": run, "outcome": "done"}
        if style in ("fail", "mixed") and rng.random() < (0.6 if style == "fail" else 0.25):
            p["outcome"] = rng.choice(["fail", "kill"])
        if style == "hang" and rng.random() < 0.5:
            p["run"] = horizon * 3
        if rng.random() < 0.4:
            p["visible"] = rng.choice([1, 4, 6, 20, 45, 100])
        if rng.random() < 0.3:
            p["susp"] = [[rng.choice(["SSUSP", "USUSP", "UNKWN"]), run * 0.2, run * 0.5]]
        if rng.random() < 0.2:
            p["pend_susp"] = [["PSUSP", 0.05, p["pend"] * 0.5]]
        if style == "purge":
            p["clean"] = rng.choice([40, 90, 3600])
            p["run"] = rng.choice([5, 100, 700, 4000]) * (0.5 + rng.random())
        jobs.append(p)
    if n > 7 and rng.random() < 0.8:      # one of many makes the difference
        max_h = rng.choice([0.5, 1])
        for p in jobs:
            p.update(pend=rng.random(), run=5 + 100 * rng.random(), outcome="done")
            p.pop("clean", None)
        p = rng.choice(jobs)
        p.update(rng.choice([{"run": 700.0}, {"run": 700.0}, {"outcome": "fail"}]))
        style = "plain"
    q = {}
    if rng.random() < 0.6:
        kinds = rng.sample(["down", "empty", "partial", "header", "noise"], rng.choice([1, 1, 2, 3]))
        for x in range(rng.choice([1, 2, 4, 8])):
            q[str(rng.randrange(1, rng.choice([3, 6, 20])))] = rng.choice(kinds)
        if rng.random() < 0.15:
            q["every"] = [rng.choice([2, 3]), rng.choice(kinds)]
    wait_n = n if rng.random() < 0.8 else rng.randrange(0, n + 1)
    if q and style == "purge":          # a job must stay listed while queries fail, else nobody could know
        for p in jobs:
            p["clean"] = 3600
    order = list(range(n))
    if rng.random() < 0.3:
        rng.shuffle(order)
    # where the first job id falls, so that ids cross digit-count boundaries
    return {"jobs": jobs, "res": res, "max_h": max_h, "overhead": rng.choice([5, 5, 0, 1, 12]), "query": q,
            "user": rng.choice(USERS), "await": order[:wait_n], "first_id": rng.choice([4100, 97, 998, 1, 12345678]),
            "id_step": rng.choice([1, 1, 1, 9, 900]), "int_ids": rng.random() < 0.2, "op_dt": rng.choice([0, 0, 0.01])}


def driver(root, sc):
    from seyfert.main.bsub_utils import BsubInterface
    b = BsubInterface()
    b.setOptions(queue="medium", n_cores=2, memory_MB=2048)
    ids = []
    for j in range(len(sc["jobs"])):
        ids.append(b.submitJob(cmd_to_execute=f"/bin/job_{j}.sh", logs_path=root, silent=True, logs_start_str=f"j{j}"))
    aw = [ids[j] for j in sc["await"]]
    if sc["int_ids"]:
        aw = [int(x) for x in aw]
    seam.note("wait-start", tuple(int(x) for x in aw))
    try:
        b.waitForJobsToComplete(aw, check_time_resolution_secs=sc["res"], max_time_wait_h=sc["max_h"],
                                wait_overhead_secs=sc["overhead"])
    except Exception as e:
        seam.note("wait-raise", type(e).__name__, str(e))
    else:
        seam.note("wait-return")


def run(k, sc, ctx, root):
    cl = Cluster(k, lambda i, cmd: dict(sc["jobs"][i]), user=sc["user"], first_id=sc["first_id"], query=sc["query"],
                 id_step=sc["id_step"])
    k.max_steps = 600_000
    d = k.wait(k.spawn_call(driver, str(root), sc, label="driver"))
    if d.rc != 0:
        return [{"class": "driver-error", "sig": "driver", "msg": f"submitting failed: {d.text[-400:]}"}]
    return judge(k, sc, cl)


def judge(k, sc, cl, V=None):
    out = []
    h = k.hist
    start = next(x for x in h if x[2] == "note" and x[4] == "wait-start")
    end = next(x for x in h if x[2] == "note" and x[4] in ("wait-return", "wait-raise"))
    awaited = set(start[5])
    qs = [x for x in h if x[2] == "query" and start[0] <= x[0] <= end[0]]
    seen_done, exit_at, all_at, one_shot = set(), None, None, None
    for n, q in enumerate(qs):
        rows = {j: s for j, s in q[5] if j in awaited}
        seen_done |= {j for j, s in rows.items() if s == "DONE"}
        if exit_at is None and "EXIT" in rows.values():
            exit_at = n
        if all_at is None and seen_done == awaited:
            all_at = n
        if one_shot is None and set(rows) == awaited and set(rows.values()) == {"DONE"}:
            one_shot = n
    raised = end[4] == "wait-raise"
    elapsed = end[1] - start[1]
    limit = sc["max_h"] * 3600
    slack = 1.6 + 0.05 * len(qs)

    def bad(cls, msg):
        out.append({"class": cls, "sig": cls, "msg": msg})
    # the maximum wait is measured from some point at or after the call; an early give-up is one before `limit`
    timed_out = elapsed >= limit - 1e-6
    if not raised:
        if seen_done != awaited and not timed_out:
            bad("returned-early", f"the wait reported completion after {elapsed:.1f} s but jobs {sorted(awaited - seen_done)} "
                                  f"were never reported DONE (of {sorted(awaited)}); last answers: {[q[4:6] for q in qs[-3:]]}")
        if exit_at is not None:
            bad("failure-swallowed", f"a poll reported EXIT for an awaited job but the wait returned normally: {qs[exit_at][5]}")
    else:
        if exit_at is None and not timed_out:
            bad("spurious-failure", f"the wait raised {end[5]}({end[6]}) although no awaited job was reported failed; "
                                    f"last answers: {[q[4:6] for q in qs[-3:]]}")
    if exit_at is not None and len(qs) > exit_at + 1:
        bad("failure-late", f"polling went on {len(qs) - exit_at - 1} times after a poll had reported EXIT")
    if one_shot is not None and len(qs) > one_shot + 1:
        bad("completion-missed", f"polling went on {len(qs) - one_shot - 1} times after a poll had shown every job DONE")
    if all_at is not None and exit_at is None and len(qs) > all_at + 3:
        bad("completion-missed", f"polling went on {len(qs) - all_at - 1} times after every job had been reported DONE")
    # what the batch system would have answered: an ended job is found out at the next answers, not at the maximum wait
    ok = [q[1] for q in qs if q[4] == "ok"]
    for what, jobs in (("failed", [j for j in cl.order if j.stat == "EXIT"]), ("done", [j for j in cl.order if j.stat == "DONE"])):
        first, until = [], []
        for j in jobs:
            if j.jid in awaited:
                first.append(max(j.t_end, j.visible_at))
                until.append(j.t_end + j.plan.get("clean", CLEAN_PERIOD))
        if not first or (what == "done" and len(first) < len(awaited)):
            continue
        t = min(first) if what == "failed" else max(first)
        u = until[first.index(t)] if what == "failed" else min(until)
        late = [x for x in ok if t < x < u]
        if len(late) > 3 and late[-1] > late[0] + 2.5 * sc["res"] + slack:
            bad("state-missed", f"{len(late)} queries were answered after {'a job had failed' if what == 'failed' else 'all jobs were done'}"
                                f" ({late[0] - t:.1f} s and more), and the wait went on")
    # pace: at least one query per polling interval until the end
    times = [start[1] + sc["overhead"]] + [q[1] for q in qs] + [end[1]]
    gap = max([b - a for a, b in zip(times, times[1:])] or [0])
    if awaited and gap > sc["res"] + slack:
        bad("slow-poll", f"{gap:.1f} s passed without a status query; the polling interval is {sc['res']} s")
    if qs and len(qs) > (elapsed / sc["res"]) * 1.5 + 3:
        bad("busy-poll", f"{len(qs)} queries in {elapsed:.1f} s with a polling interval of {sc['res']} s")
    if elapsed > limit + 2 * sc["res"] + sc["overhead"] + 5 + 0.02 * k.steps:
        bad("no-give-up", f"waited {elapsed:.0f} s, the maximum is {limit:.0f} s")
    k.nontrivial = bool(k.fired) or exit_at is not None or (timed_out and not raised)
    if timed_out:
        k.count("max_wait_reached")
    if exit_at is not None:
        k.count("exit_seen")
    k.note = f"{len(awaited)} awaited, {len(qs)} polls, {'raised' if raised else 'returned'} after {elapsed:.0f} s"
    return out


def shrink(sc):
    n = len(sc["jobs"])
    if n > 1:
        for j in range(n):
            jobs = sc["jobs"][:j] + sc["jobs"][j + 1:]
            aw = [a - (a > j) for a in sc["await"] if a != j]
            yield dict(sc, jobs=jobs, **{"await": aw})
    for q in list(sc["query"]):
        yield dict(sc, query={a: b for a, b in sc["query"].items() if a != q})
    for j, p in enumerate(sc["jobs"]):
        for key in ("susp", "pend_susp", "visible", "clean"):
            if key in p:
                np = {a: b for a, b in p.items() if a != key}
                yield dict(sc, jobs=sc["jobs"][:j] + [np] + sc["jobs"][j + 1:])
        if p["run"] > 10:
            yield dict(sc, jobs=sc["jobs"][:j] + [dict(p, run=5.0)] + sc["jobs"][j + 1:])
        if p["pend"] > 1:
            yield dict(sc, jobs=sc["jobs"][:j] + [dict(p, pend=0.5)] + sc["jobs"][j + 1:])
    if sc["user"] != "lpaganin":
        yield dict(sc, user="lpaganin")
    if sc["first_id"] != 4100 or sc["id_step"] != 1:
        yield dict(sc, first_id=4100, id_step=1)
