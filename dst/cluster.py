"""A simulated LSF batch system: bsub / bjobs / bkill as kernel programs.

Semantics follow LSF: a submitted job waits (PEND, PSUSP), runs (RUN, SSUSP, USUSP, UNKWN, ZOMBI) and
ends DONE or EXIT; `-o`/`-e` files receive the job report and standard error when it ends; finished
jobs can be queried for CLEAN_PERIOD and are then forgotten; a job may not be visible for some seconds
after submission; the query command can fail, or answer for some of the jobs only.
"""
import datetime
import os
import random

from . import seam
from .kernel import Done, run_lines

OPTS_WITH_ARG = {"-P", "-q", "-M", "-n", "-e", "-o", "-J", "-W", "-w", "-R", "-m", "-u", "-G", "-a", "-E", "-i",
                 "-c", "-C", "-v", "-g", "-eo", "-oo"}
OPTS_NO_ARG = {"-B", "-N", "-H", "-x", "-r", "-K", "-I"}
CLEAN_PERIOD = 3600.0
NODES = ["farm01", "farm02", "bc-18", "n7"]


class Job:
    def __init__(self, idx, jid, cmd, opts, cwd, env, plan, t):
        self.idx, self.jid, self.cmd, self.opts, self.cwd, self.env, self.plan = idx, jid, cmd, opts, cwd, env, plan
        self.t_submit = t
        self.stat = "PEND"
        self.visible_at = t + plan.get("visible", 0.0)
        self.t_start = self.t_end = None
        self.rc = None
        self.wall_start = self.wall_end = None

    @property
    def ended(self):
        return self.stat in ("DONE", "EXIT")


class Cluster:
    """plan(idx, cmd) -> dict(pend, run, outcome in done|fail|kill, visible, susp=[(at, len, kind)...],
    body in real|stub)"""

    def __init__(self, k, plan, user="lpaganin", first_id=4100, query=None, submit_faults=(), id_step=1):
        self.k, self.plan, self.user = k, plan, user
        self.jobs = {}
        self.order = []
        self.next_id = first_id
        self.id_step = id_step
        self.query = query or {}            # {nth query (1-based): fault}
        self.submit_faults = dict(submit_faults)
        self.nqueries = 0
        self.nsubmits = 0
        self.stub_body = None               # fn(k, job, argv) -> generator, run at the job's end instead of cmd
        k.programs["bsub"] = self.bsub
        k.programs["bjobs"] = self.bjobs
        k.programs["bkill"] = self.bkill
        self.host_rng = random.Random(k.sc.get("sched_seed", 0) ^ 0x5EED)

    # -- bsub -----------------------------------------------------------------------------
    def bsub(self, k, argv, cwd, env):
        if False:
            yield
        self.nsubmits += 1
        opts, i = {}, 1
        while i < len(argv) and argv[i].startswith("-"):
            a = argv[i]
            if a in OPTS_WITH_ARG:
                opts[a] = argv[i + 1] if i + 1 < len(argv) else ""
                i += 2
            elif a in OPTS_NO_ARG:
                opts[a] = True
                i += 1
            elif a[:2] in OPTS_WITH_ARG:
                opts[a[:2]] = a[2:]
                i += 1
            else:
                k.log("bsub-bad", a)
                return Done(255, b"", f"bsub: illegal option -- {a}\n".encode())
        cmd = " ".join(argv[i:])
        f = self.submit_faults.get(str(self.nsubmits))
        if f == "reject":
            k.fire("bsub_reject")
            k.log("bsub-reject", cmd)
            return Done(255, b"", b"LSF is down. Please wait ... Request aborted by esub. Job not submitted.\n")
        if not cmd:
            return Done(255, b"", b"Empty job. Job not submitted.\n")
        jid = self.next_id
        self.next_id += self.id_step
        plan = self.plan(len(self.order), cmd)
        job = Job(len(self.order), jid, cmd, opts, cwd, dict(env), plan, k.mono)
        job.wall_submit = k.now
        self.jobs[jid] = job
        self.order.append(job)
        k.log("submit", jid, k.rel(cmd), k.rel(cwd), tuple(sorted((a, k.rel(str(b))) for a, b in opts.items())))
        k.count("jobs")
        self._schedule(job)
        noise = b""
        if f == "noisy":
            k.fire("bsub_noise")
            noise = b"Warning: 7 of your jobs are still pending. The 3 projects <c7> limits apply\n"
        return Done(0, noise + f"Job <{jid}> is submitted to queue <{opts.get('-q', 'normal')}>.\n".encode(), b"")

    def _set(self, job, stat):
        if job.ended:
            return
        job.stat = stat
        self.k.log("job", job.jid, stat)
        if stat not in ("PEND", "RUN", "DONE"):
            self.k.fire("state_" + stat)

    def _schedule(self, job):
        k, pl = self.k, job.plan
        if pl.get("visible", 0) > 0:
            k.fire("late_visibility")
        t = 0.0
        for kind, at, length in pl.get("pend_susp", []):
            k.at(at, lambda s=kind: self._set(job, s))
            k.at(at + length, lambda: self._set(job, "PEND"))
        k.at(t + pl.get("pend", 5.0), lambda: self._start(job))

    def _start(self, job):
        k, pl = self.k, job.plan
        if job.ended:
            return
        self._set(job, "RUN")
        job.t_start, job.wall_start = k.mono, k.now
        for kind, at, length in pl.get("susp", []):
            if at + length < pl["run"]:
                k.at(at, lambda s=kind: self._set(job, s))
                k.at(at + length, lambda: self._set(job, "RUN"))
        if pl.get("body") == "real" and pl.get("outcome", "done") != "kill":
            node = f"job{job.jid}"

            def body(k):
                st = {"cwd": job.cwd, "env": dict(job.env), "exit": None, "node": node}
                return (yield from run_lines(k, job.cmd, st, None))
            pid = k.spawn_gen(body, label=f"job{job.jid}")
            k.procs[pid].node = node
            k.on_done(pid, lambda d: k.at(max(0.0, pl["run"] - (k.mono - job.t_start)),
                                           lambda: self._end(job, d)))
        else:
            k.at(pl["run"], lambda: self._run_stub(job))

    def _run_stub(self, job):
        if job.ended:
            return
        if self.stub_body is None:
            d = Done(0 if job.plan.get("outcome", "done") == "done" else 1)
            return self._end(job, d)
        pid = self.k.spawn_gen(lambda k: self.stub_body(k, job), label=f"job{job.jid}")
        self.k.on_done(pid, lambda d: self._end(job, d))

    def _end(self, job, d):
        if job.ended:
            return
        k, pl = self.k, job.plan
        job.t_end, job.wall_end = k.mono, k.now
        out = pl.get("outcome", "done")
        rc = d.rc
        if out == "fail" and rc == 0:
            rc = 1
        if out == "kill":
            rc = 137
            k.fire("job_killed")
        elif out == "fail":
            k.fire("job_failed")
        job.rc = rc
        err = d.err
        if out == "fail" and not err and pl.get("stderr", True):
            err = b"Traceback (most recent call last):\nRuntimeError: simulated job failure\n"
        self._report(job, rc, d.out, err, out == "kill")
        self._set(job, "DONE" if rc == 0 else "EXIT")

    def _report(self, job, rc, out, err, killed):
        def path(p):
            return os.path.join(job.cwd, str(p).replace("%J", str(job.jid)))
        job.err_text = err
        if job.plan.get("lose_logs"):
            self.k.fire("job_logs_lost")
            return
        job.host = self.host_rng.choice(NODES)
        head = lsf_report(job, rc, killed, self.user, job.host)
        if "cut" in job.plan:                # the disk was full: the report ends after so many bytes
            self.k.fire("job_log_cut")
            head, out = head[:job.plan["cut"]], b""
        for a in ("lose_out", "lose_err"):
            if job.plan.get(a):
                self.k.fire("job_log_lost")
        if "-o" in job.opts and not job.plan.get("lose_out"):
            try:
                with seam._real["open"](path(job.opts["-o"]), "ab") as f:
                    f.write(head.encode() + (b"" if "cut" in job.plan else b"\n\nThe output (if any) follows:\n\n" + out))
            except OSError:
                pass
        if "-e" in job.opts and not job.plan.get("lose_err"):
            try:
                with seam._real["open"](path(job.opts["-e"]), "ab") as f:
                    f.write(err)
            except OSError:
                pass

    # -- bjobs ----------------------------------------------------------------------------
    def bjobs(self, k, argv, cwd, env):
        if False:
            yield
        self.nqueries += 1
        ids, i, wide, all_ = [], 1, False, False
        while i < len(argv):
            a = argv[i]
            if a.startswith("-"):
                wide |= "w" in a or "l" in a
                all_ |= a == "-a"
                if a in ("-u", "-q", "-J", "-o"):
                    i += 1
            else:
                try:
                    ids.append(int(a))
                except ValueError:
                    return Done(255, b"", f"{a}: Illegal job ID.\n".encode())
            i += 1
        explicit = bool(ids)
        if not explicit:
            ids = [j.jid for j in self.order if all_ or not j.ended]
        f = self.query.get(str(self.nqueries))
        if f is None and self.query.get("every"):
            n, kind = self.query["every"]
            if self.nqueries % n == 0:
                f = kind
        err = ""
        if f == "down":
            k.fire("bjobs_down")
            k.log("query", tuple(ids), "down", ())
            return Done(255, b"", b"LSF is down. Please wait ...\nFailed in an LSF library call: lsf daemon not responding\n")
        if f == "empty":
            k.fire("bjobs_empty")
            k.log("query", tuple(ids), "empty", ())
            return Done(0, b"", b"")
        rows, shown = [], []
        for jid in ids:
            j = self.jobs.get(jid)
            if j is None or k.mono < j.visible_at or \
                    (j.ended and k.mono > j.t_end + j.plan.get("clean", CLEAN_PERIOD)):
                if j is not None:
                    k.fire("job_not_visible" if k.mono < j.visible_at else "job_purged")
                err += f"Job <{jid}> is not found\n"
                continue
            rows.append(j)
        if f == "partial" and rows:
            keep = rows[: len(rows) // 2]
            if len(keep) < len(rows):
                k.fire("bjobs_partial")
            rows = keep
        if f == "noise":
            k.fire("bjobs_noise")
        if f == "header":
            k.fire("bjobs_header_only")
            rows = []
        out = ""
        if rows or f == "header":
            out = "JOBID   USER    STAT  QUEUE      FROM_HOST   EXEC_HOST   JOB_NAME   SUBMIT_TIME\n"
        if f == "noise":
            out = "Cluster is running in a degraded mode: 12 hosts UNAVAIL, 3 jobs DONE\n" + out
        for j in rows:
            shown.append((j.jid, j.stat))
            host = "   -   " if j.t_start is None else "8*" + NODES[j.jid % len(NODES)]
            when = datetime.datetime.utcfromtimestamp(j.wall_submit)
            name = j.cmd if wide else "*" + j.cmd[-9:]
            out += (f"{j.jid:<7} {self.user if wide else self.user[:7]:<7} {j.stat:<5} {j.opts.get('-q', 'normal'):<10} "
                    f"{'ui01':<11} {host:<11} {name:<10} {when.strftime('%b %e %H:%M')}\n")
        k.log("query", tuple(ids), f or "ok", tuple(shown))
        return Done(0 if rows else 255, out.encode(), err.encode())

    def bkill(self, k, argv, cwd, env):
        if False:
            yield
        for a in argv[1:]:
            if a.isdigit() and int(a) in self.jobs:
                j = self.jobs[int(a)]
                k.log("bkill", j.jid)
                j.plan = dict(j.plan, outcome="kill")
                k.kill_node(f"job{j.jid}")
                self._end(j, Done(137))
        return Done(0)


def lsf_time(t):
    return datetime.datetime.utcfromtimestamp(t).strftime("%a %b %e %H:%M:%S %Y")


def lsf_report(job, rc, killed, user, host):
    return report_text(job.jid, job.cmd, user, host, job.opts.get("-q", "normal"), job.cwd, job.wall_submit,
                       job.wall_start, job.wall_end, rc, killed)


def report_text(jid, cmd, user, host, queue, cwd, t_sub, t_start, t_end, rc, killed, cpu=1.5, mem=120.0):
    if rc == 0:
        verdict = "Successfully completed."
    elif killed:
        verdict = ("TERM_MEMLIMIT: job killed after reaching LSF memory usage limit.\n"
                   f"Exited with exit code {rc}.")
    else:
        verdict = f"Exited with exit code {rc}."
    status = "Done" if rc == 0 else "Exited"
    return f"""Sender: LSF System <lsfadmin@{host}.ge.infn.it>
Subject: Job {jid}: <{cmd}> in cluster <genova> {status}

Job <{cmd}> was submitted from host <farmui01.ge.infn.it> by user <{user}> in cluster <genova> at {lsf_time(t_sub)}
Job was executed on host(s) <8*{host}.ge.infn.it>, in queue <{queue}>, as user <{user}> in cluster <genova> at {lsf_time(t_start)}
</home/{user}> was used as the home directory.
<{cwd}> was used as the working directory.
Started at {lsf_time(t_start)}
Terminated at {lsf_time(t_end)}
Results reported on {lsf_time(t_end)}

Your job looked like:

------------------------------------------------------------
# LSBATCH: User input
{cmd}
------------------------------------------------------------

{verdict}

Resource usage summary:

    CPU time :                                   {cpu:.2f} sec.
    Max Memory :                                 {mem:.2f} MB
    Average Memory :                             {mem / 2:.2f} MB
    Total Requested Memory :                     2048.00 MB
    Delta Memory :                               {2048 - mem:.2f} MB
    Max Swap :                                   -
    Max Processes :                              4
    Max Threads :                                8
    Run time :                                   {t_end - t_start:.0f} sec.
    Turnaround time :                            {t_end - t_sub:.0f} sec."""
