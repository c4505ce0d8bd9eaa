"""C03: interactive runs execute one command at a time, in order, and stop at the first failure."""
from dst import flow
from dst.props import c02_batch_workflow as c02

ID = "C03"
TITLE = "Interactive runs execute work one at a time, in order, and stop on failure"
RULE = ("a run is one interactive forecast with 1-3 free parameters, a random subset of stages, and up to three "
        "failing units (silent exit status, traceback, killed, or failing after its output was written), or a full disk / "
        "I/O error in the submitter; non-trivial: a fault fired; distinct: by event trace")
REAL = "job_submitter, ForecastRunner/TaskRunner, the generated job scripts, densities and shot-noise computation"
STUB = "shell, clock, compute programs and final-results bodies (inputs checked, outputs copied)"
ASSUME = ["compute programs read the inputs the stand-ins check for"]
N = {"quick": 400, "thorough": 30000}
prepare = c02.prepare
shrink = c02.shrink
TARGETS = ["*norm_densities.hdf5*", "*delta_cls.h5*", "*input_files_dict.json*", "*run_metadata.json*", "*.sh",
           "*params.json*", "*fisher_IST*", "*/input_files_dir/*"]


def gen(rng, i, ctx):
    sc = c02.gen(rng, i, ctx, ex="interactive")
    sc["faults"] = []
    if not sc["plan"] and rng.random() < 0.8:
        sc["faults"] = [{"proc": "job_submitter", "kind": rng.choice(["open_w", "close", "open_w,close,h5ds,rename", "rename"]),
                         "match": rng.choice(TARGETS), "nth": rng.choice([1, 1, 2, 3, 9]),
                         "act": rng.choice(["enospc", "eio", "eacces"])}]
    return sc


def run(k, sc, ctx, root):
    try:
        pid, work, exp, u = c02.start(k, sc, ctx, root, "interactive")
    except c02.FirstAttempt as e:
        return [{"class": "first-attempt", "sig": "first-attempt", "msg": str(e)}]
    d = k.wait(pid)
    V, starts, ends, ff = flow.judge_units(k, u, exp, d.rc, sc["plan"])

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    # strictly one at a time
    open_ = None
    for step, what, st, unit, r in u.log:
        if what == "start":
            if open_:
                bad("overlap", f"{st} {unit} was started while {open_} was still running")
            open_ = f"{st} {unit}"
        else:
            open_ = None
    failed = [(e[0][0], st, x) for (st, x), e in ends.items() if e[0][1] != 0]
    faulted = any(f["_fired"] for f in k.faults)
    if failed:
        t, st, x = min(failed)
        after = [f"{a[2]} {a[3]}" for a in u.log if a[1] == "start" and a[0] > t]
        if after:
            bad("went-on-after-failure", f"{st} {x} failed, yet {len(after)} more units were started: {after[:3]}")
        if d.rc == 0:
            bad("failure-hidden", f"{st} {x} failed but the submitter exited with status 0")
    if faulted and d.rc == 0:
        bad("fault-hidden", f"writing failed in the submitter ({[x for x in k.trace if x[1] == 'fault'][:1]}) "
                            f"but it exited with status 0")
    if not failed and not faulted:
        if d.rc != 0:
            bad("clean-run-fails", f"nothing failed, but the submitter exited with {d.rc}: ...{d.text[-300:]}")
        lost = [f"{s} {x}" for s in exp for x in exp[s] if (s, x) not in ends]
        if lost:
            bad("work-lost", f"the run ended normally but {len(lost)} units were never run: {sorted(lost)[:3]}")
    k.note = f"{len(starts)} units started, exit {d.rc}"
    return V
