"""C04: an interrupted single-process forecast, started again, ends with the results of an uninterrupted one."""
import hashlib
import re

from dst import compare, flow, single

ID = "C04"
TITLE = "An interrupted forecast job can be started again and gives the same results"
RULE = ("a run is 1-3 attempts of one forecast job cut short at a random file operation (sudden death, death in the middle "
        "of a write, full disk, I/O error), the disk state kept, then one attempt without faults; non-trivial: a fault "
        "fired; distinct: by the operations performed and faults fired")
REAL = "run_seyfert and everything it calls (densities, spectra, derivatives, Fisher matrices, final results), HDF5 library"
STUB = "clock, process death, disk errors, directory order; power spectra are analytic; PyTables store kept in an HDF5 file"
ASSUME = ["what a process wrote before it died is durable (process death, not power loss)"]
N = {"quick": 110, "thorough": 20000}

KEEP = ["norm_densities.hdf5", "delta_cls.h5", "Angular/dvar_central_step_0/cls_fiducial.h5", "Derivative/cl_ders.pickle"]


def prepare(ctx):
    flow.write_inputs(ctx.base / "inputs")
    flow.fisher_lists(ctx)
    w, ref, ops = single.golden(ctx)
    ctx.data.update(ref=ref, ops=ops)


def part(p):
    """Which part of the forecast a file belongs to."""
    if "/.tmp/" in p:
        return "final_results"
    q = re.sub(r"\.(\d+\.)?tmp$", "", p.replace("/work/.", "/work/").replace("/.", "/"))
    q = re.sub(r"^\$R/work/?", "", q).split("/")
    if q[0].startswith(("logfile", "input_files", "PowerSpectrum")):
        return "setup"
    return "/".join(q[:2]) if q[0] == "base_fishers" else q[0] if q[0][:1].isupper() or "." in q[0] or q[0] == "final_results" else "setup"


def pick(rng, ops):
    """A fault at one operation of a fault-free attempt: every part of the forecast as often as any other, and there
    as often at a change of file as anywhere."""
    parts = {}
    for n, (_, p) in enumerate(ops, 1):
        parts.setdefault(part(p), []).append(n)
    at = parts[rng.choice(sorted(parts))] if rng.random() < 0.7 else list(range(1, len(ops) + 1))
    n = rng.choice(at)
    if rng.random() < 0.5:     # first/last operation on a file
        n = rng.choice([m for m in at if m == at[0] or ops[m - 1][1] != ops[m - 2][1]]) + rng.choice([0, 0, 1])
    return {"nth": max(1, min(n, len(ops))), "act": rng.choice(["crash", "crash", "torn", "torn", "enospc", "eio"])}


def gen(rng, i, ctx):
    if "ops" not in ctx.data:
        return {"cuts": []}
    k = rng.choice([1, 1, 1, 2, 3])
    return {"cuts": [pick(rng, ctx.data["ops"]) for _ in range(k)], "gap": rng.choice([0.0, 1.0, 4000.0, 200000.0])}


def stamps(w):
    out = {}
    for n in KEEP:
        p = w / n
        if p.is_file():
            s = p.stat()
            out[n] = (s.st_ino, s.st_mtime_ns)
    b = w / "base_fishers"
    for p in (b.glob("fisher_*.hdf5") if b.is_dir() else []):
        if "IST" not in p.name:
            s = p.stat()
            out[str(p.relative_to(w))] = (s.st_ino, s.st_mtime_ns)
    return out


def run(k, sc, ctx, root):
    flow.setup(k, ctx)
    inp, w = single.place(k, ctx, root)
    V = []

    def bad(cls, msg):
        V.append({"class": cls, "sig": cls, "msg": msg})
    done = False
    before = {}
    for j, cut in enumerate(sc["cuts"] + [None]):
        k.faults = [] if cut is None else [dict(cut, proc=f"run{j}", kind="*", match="*", _n=0, _fired=False)]
        d = k.wait(k.spawn_script("run_seyfert", single.argv(inp, w), root, label=f"run{j}"))
        now = stamps(w)
        for n, s in before.items():
            if n not in now:
                bad("lost-output", f"{n}, complete before attempt {j + 1}, is gone after it")
            elif now[n] != s:
                bad("redone", f"{n} was complete before attempt {j + 1} and was written again by it")
        half = compare.compare(w, ctx.data["ref"], names=[n for n in now])
        if half:
            bad("partial-output", f"after attempt {j + 1} (exit {d.rc}) {half[0][1]}")
        if d.rc == 0:
            diffs = compare.compare(w, ctx.data["ref"])
            if diffs:
                bad("wrong-results", f"attempt {j + 1} ended with status 0 but {diffs[0][1]}")
            done = True
        elif cut is None:
            bad("restart-fails", f"the attempt without faults, after {[c for c in sc['cuts']]}, failed with status {d.rc}: "
                                 f"...{d.text[-500:]}")
        before = now
        k.advance(sc.get("gap", 1.0) + 1.0)
        if V:
            break
    k.nontrivial = bool(k.fired)
    k.state_key = hashlib.sha1(repr([x[3:] for x in k.hist if x[2] == "fault"]).encode()).hexdigest()
    k.note = f"attempts {len(sc['cuts']) + 1}, faults {[x[3:] for x in k.hist if x[2] == 'fault']}"
    return V


def shrink(sc):
    for i in range(len(sc["cuts"])):
        yield dict(sc, cuts=sc["cuts"][:i] + sc["cuts"][i + 1:])
    for i, c in enumerate(sc["cuts"]):
        if c["act"] != "crash":
            yield dict(sc, cuts=sc["cuts"][:i] + [dict(c, act="crash")] + sc["cuts"][i + 1:])
    if sc.get("gap"):
        yield dict(sc, gap=0.0)
