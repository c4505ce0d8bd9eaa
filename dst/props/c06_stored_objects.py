"""C06: stored objects come back as they were saved, through failed saves and loads and dying processes."""
import hashlib

from dst import compare, seam, stored

ID = "C06"
TITLE = "Stored objects are read back exactly as they were saved"
RULE = ("a run is 1-4 processes one after the other, each performing 2-7 saves and loads of random objects of every stored kind "
        "on shared files, with I/O errors, full disks and process death at random operations, loads of what is not there and "
        "saves onto what is; non-trivial: a fault fired or a call was refused; distinct: by calls, outcomes and faults")
REAL = "every class that saves to or loads from HDF5 or JSON files, and the HDF5 library"
STUB = "disk errors, process death, clock"
ASSUME = ["spectra and covariance collections have a file of their own (all the repository's callers do this)",
          "HDF5 errors surface at the call that writes, not when the library flushes"]
N = {"quick": 420, "thorough": 60000}

SHARED = [("f0.h5", r) for r in ("A", "C/x")] + [("f1.h5", "A")]


def target(rng):
    k = rng.choice(stored.GROUPED * 2 + stored.WHOLE * 2 + stored.REPLACED * 2)
    if k in stored.GROUPED:
        f, r = rng.choice(SHARED)
        return [k, f, f"{r}_{k}"]              # one kind per name
    return [k, f"{k}{rng.randrange(2)}.{'json' if k == 'params' else 'h5'}", "/"]


def gen(rng, i, ctx):
    procs, used = [], []
    for p in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randrange(2, 8)):
            if used and rng.random() < 0.55:
                t = rng.choice(used) if rng.random() < 0.9 else target(rng)
                ops.append(["load", *t, rng.random() < 0.4])
            else:
                t = rng.choice(used) if used and rng.random() < 0.35 else target(rng)
                used.append(t)
                ops.append(["save", *t, rng.getrandbits(20)])
        faults = []
        while rng.random() < 0.45:
            faults.append({"kind": rng.choice(["h5ds", "h5ds,h5grp,h5attr", "open_w", "rename", "h5ds,h5attr,close,rename"]),
                           "nth": rng.choice([1, 1, 2, 3, 5, 9, 17]), "act": rng.choice(["eio", "enospc", "enospc", "crash"])})
        for f in faults:
            if "close" in f["kind"]:
                f["act"] = "crash"
        procs.append({"ops": ops, "faults": faults})
    procs.append({"ops": [["load", *t, False] for t in {tuple(u): u for u in used}.values()], "faults": []})
    return {"procs": procs}


def client(ops, base, history):
    """One process: perform the calls, remember every exception (as an interactive session does)."""
    kept = []
    for j, op in enumerate(ops):
        what, kind, file, root, arg = op
        if what == "save":
            o = stored.build(kind, arg)
            before = stored.snap(kind, o)
            seam.note("begin", base + j)
            try:
                stored.save(kind, o, file, root)
            except Exception as e:
                kept.append(e)
                seam.note("raised", base + j, type(e).__name__, str(e)[:100])
            else:
                seam.note("saved", base + j)
            d = compare.diff(stored.snap(kind, o), before, rtol=0)
            if d:
                seam.note("changed", base + j, d)
        else:
            seam.note("begin", base + j)
            try:
                o = stored.load(kind, file, root, arg)
                got = stored.snap(kind, o)
            except Exception as e:
                kept.append(e)
                seam.note("raised", base + j, type(e).__name__, str(e)[:100])
            else:
                hits, why = [], []
                for b, (k, f, r, seed) in history.items():
                    if (f, r) == (file, root) and k == kind:
                        d = compare.diff(got, stored.snap(k, stored.build(k, seed)), rtol=1e-15)
                        hits += [b] if d is None else []
                        why += [d] if d else []
                seam.note("loaded", base + j, tuple(hits), "; ".join(why)[:200])
        if what == "save":
            history[base + j] = (kind, file, root, arg)


def run(k, sc, ctx, root):
    d = root / "d"
    d.mkdir()
    V = []

    def bad(cls, op, msg):
        V.append({"class": cls, "sig": f"{cls} {op[1]}", "msg": f"{op[0]} {op[1]} {op[2]}:{op[3]}: {msg}"})
    model = {}                # (file, root) -> save index, or None if unknown
    lost = set()              # files a process died writing
    history, base = {}, 0
    odd = 0
    for n, p in enumerate(sc["procs"]):
        k.faults = [dict(f, proc=f"p{n}", match="$R/d/*", _n=0, _fired=False) for f in p["faults"]]
        mark = len(k.hist)
        done = k.wait(k.spawn_call(client, p["ops"], base, dict(history), cwd=str(d), label=f"p{n}"))
        ev = k.hist[mark:]
        res, faulty, changed, cur = {}, {}, {}, None
        for x in ev:
            if x[2] == "note" and x[4] == "begin":
                cur = x[5]
            elif x[2] == "fault":
                faulty.setdefault(cur, []).append(x[3])
            elif x[2] == "note" and x[4] == "changed":
                changed[x[5]] = x[6]
            elif x[2] == "note":
                res[x[5]] = x[4:]
        for j, op in enumerate(p["ops"]):
            b = base + j
            what, kind, file, r, arg = op
            key = (file, r)
            got, flt = res.get(b), faulty.get(b)
            if got is None:              # the process died here (or before)
                if flt and "crash" in flt and what == "save":
                    history[b] = (kind, file, r, arg)
                    if kind in stored.REPLACED:
                        model.setdefault(key, None)
                        model[key] = ("either", model[key], b)
                    else:
                        lost.add(file)
                elif done.rc == 0:
                    bad("driver", op, f"no result ({done.text[-200:]})")
                break
            if changed.get(b):
                bad("save-changes-object", op, changed[b])
            there = key in model
            if what == "save":
                history[b] = (kind, file, r, arg)
                if got[0] == "saved":
                    if flt:
                        bad("failure-hidden", op, f"{flt} during the save was not reported")
                    if there and kind not in stored.REPLACED and file not in lost and model[key] is not None:
                        bad("overwritten", op, f"was saved onto the object of call {model[key]} without an error")
                    model[key] = b if file not in lost or kind in stored.REPLACED else None
                else:
                    odd += 1
                    expected = flt or (kind not in stored.REPLACED and (there or file in lost))
                    if not expected:
                        bad("save-fails", op, f"raised {got[2:]} though nothing was wrong")
                    if kind not in stored.REPLACED and flt and (not there or model[key] is None):
                        model[key] = None             # half an object may be there: nobody may rely on it
                    if kind in stored.REPLACED and not there:
                        model[key] = ("either", None, None)
            elif file in lost:
                continue
            elif not there or model[key] in (("either", None, None),):
                if got[0] == "loaded":
                    bad("phantom", op, f"an object was loaded that was never completely saved ({got})")
                odd += 1
            elif model[key] is not None:
                m = model[key]
                ok = set()
                while isinstance(m, tuple):
                    ok.add(m[2])
                    m = m[1]
                ok.add(m)
                if flt:
                    if got[0] == "loaded" and not ok & set(got[2]):
                        bad("wrong-object", op, f"does not match the object saved by call {ok}: {got[3]}")
                    continue
                if got[0] == "raised":
                    if None not in ok:
                        bad("unreadable", op, f"saved completely by call {sorted(ok)} but loading raised {got[2:]}")
                elif not ok & set(got[2]):
                    bad("wrong-object", op, f"does not match the object saved by call {sorted(map(str, ok))}: {got[3]}")
        base += len(p["ops"])
        if V:
            break
    k.nontrivial = bool(k.fired) or odd > 0
    k.state_key = hashlib.sha1(repr([x[3:] for x in k.hist if x[2] in ("note", "fault")]).encode()).hexdigest()
    k.note = f"{base} calls in {len(sc['procs'])} processes"
    return V


def shrink(sc):
    ps = sc["procs"]
    for i in range(len(ps)):
        yield dict(sc, procs=ps[:i] + ps[i + 1:])
    for i, p in enumerate(ps):
        for j in range(len(p["faults"])):
            yield dict(sc, procs=ps[:i] + [dict(p, faults=p["faults"][:j] + p["faults"][j + 1:])] + ps[i + 1:])
        for j in range(len(p["ops"])):
            yield dict(sc, procs=ps[:i] + [dict(p, ops=p["ops"][:j] + p["ops"][j + 1:])] + ps[i + 1:])
