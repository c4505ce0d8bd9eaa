"""The simulator kernel: one discrete-event loop that owns time, scheduling, processes, the
shell, and every fault.  Simulated processes are forked children of the kernel of which exactly
one runs at a time (it holds the token until its next seam call); everything else here is plain
single-threaded Python, so a scenario (JSON) plus the code under test determine the execution.
"""
import fnmatch
import hashlib
import heapq
import io
import os
import pickle
import random
import runpy
import select
import shlex
import signal
import socket
import struct
import sys
import traceback
import warnings
import ctypes

from . import seam

REPO = os.environ.get("DST_REPO", "/repo")
T0 = 1_700_000_000.0            # 2023-11-14T22:13:20Z
PYENV = {"HOME": "/root", "USER": "simuser", "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8",
         "LC_ALL": "C.UTF-8", "TZ": "UTC", "MPLBACKEND": "Agg", "PYTHONPATH": REPO}


class SimError(Exception):
    """Something the simulator does not model: a harness error, never a verdict."""


class Livelock(Exception):
    """The step or simulated-time bound was reached with work still going on."""


class Stall(Exception):
    """A process computed without reaching the seam for too long (wall clock)."""


_libc = None


def _die_with_parent():
    global _libc
    if _libc is None:
        _libc = ctypes.CDLL(None)
    _libc.prctl(1, 9)


class Done:
    """Completed simulated process."""
    __slots__ = ("rc", "out", "err", "ret", "crashed")

    def __init__(self, rc, out=b"", err=b"", ret=None, crashed=False):
        self.rc, self.out, self.err, self.ret, self.crashed = rc, out, err, ret, crashed

    @property
    def text(self):
        return (self.out + self.err).decode("utf-8", "replace")


class Proc:
    def __init__(self, pid, label, parent=None):
        self.pid, self.label, self.parent = pid, label, parent
        self.done = None
        self.waiters = []           # callables taking Done
        self.node = "host"


class RProc(Proc):
    """A real (forked) process."""

    def __init__(self, *a):
        super().__init__(*a)
        self.ospid = None
        self.sock = None
        self.pending = None         # reply value to send when scheduled
        self.nops = 0
        self.reason = None


class GProc(Proc):
    """A process whose body is a generator run inside the kernel."""

    def __init__(self, *a):
        super().__init__(*a)
        self.gen = None


class Kernel:
    def __init__(self, scenario, root, verbose=False):
        self.sc = scenario
        self.root = os.path.realpath(root)
        self.rng = random.Random(scenario.get("sched_seed", 0))
        self.mono = 0.0
        self.clock_steps = list(scenario.get("clock_steps", []))    # [(mono, offset), ...] wall jumps
        self.t0 = scenario.get("t0", T0)
        self.heap = []
        self.seq = 0
        self.steps = 0
        self.max_steps = scenario.get("max_steps", 400_000)
        self.max_time = scenario.get("max_time", 40 * 86400.0)
        self.stall_s = 90.0
        self.op_dt = scenario.get("op_dt", 0.0)
        self.p_switch = scenario.get("p_switch", 0.3)
        self.shuffle = scenario.get("shuffle_dirs", True)
        self.faults = [dict(f, _n=0, _fired=False) for f in scenario.get("faults", [])]
        self.fired = {}
        self.procs = {}
        self.ready = []             # RProcs holding a pending reply
        self.current = None
        self.nextpid = 100
        self.hist = []              # oracle-visible history
        self.trace = []             # full event log
        self.programs = {}          # command name -> generator function(kernel, argv, cwd, env)
        self.real_programs = set(os.listdir(f"{REPO}/bin")) if os.path.isdir(f"{REPO}/bin") else set()
        self.overlay = {}
        self.env = dict(PYENV, TMPDIR=f"{self.root}/.tmp")
        os.makedirs(f"{self.root}/.tmp", exist_ok=True)
        self.op_counts = {}
        self.op_log = [] if scenario.get("_record_ops") else None
        self.containment = []
        self.unsupported = []
        self.verbose = verbose
        self.op_hook = None         # property hook(kernel, proc, kind, path, path2) before each op
        self.counters = {}
        self.listings = 0
        self.switches = 0

    # -- time ---------------------------------------------------------------------------
    @property
    def now(self):
        off = 0.0
        for t, d in self.clock_steps:
            if self.mono >= t:
                off = d
        return self.t0 + self.mono + off

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.mono + max(0.0, delay), self.seq, fn))

    # -- logs ---------------------------------------------------------------------------
    def rel(self, p):
        if isinstance(p, bytes):
            p = p.decode("utf-8", "replace")
        return str(p).replace(self.root, "$R") if p is not None else ""

    def log(self, kind, *fields):
        self.hist.append((self.steps, self.mono, kind) + fields)
        self.tr("H", kind, *fields)

    def tr(self, *fields):
        self.trace.append((round(self.mono, 6),) + tuple(self.rel(f) if isinstance(f, (str, bytes, os.PathLike)) else f
                                                           for f in fields))

    def digest(self):
        return hashlib.sha256(repr(self.trace).encode()).hexdigest()

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    # -- starting processes ---------------------------------------------------------------
    def _newpid(self):
        self.nextpid += 1
        return self.nextpid

    def spawn_script(self, name, argv, cwd, env=None, label=None, parent=None):
        """A real script of the repository, as its own process."""
        path = f"{REPO}/bin/{name}"
        argv = [path] + [str(a) for a in argv]

        def target():
            sys.argv = argv
            sys.path[0:0] = [os.path.dirname(path)]
            runpy.run_path(path, run_name="__main__")
        return self._spawn_real(target, cwd, env, label or name, parent)

    def spawn_call(self, fn, *args, cwd=None, label="call", env=None):
        """Run fn(*args) in a process of its own; its return value is Done.ret."""
        return self._spawn_real(lambda: fn(*args), cwd or self.root, env, label, None)

    def _spawn_real(self, target, cwd, env, label, parent):
        pid = self._newpid()
        p = RProc(pid, label, parent)
        ks, cs = socket.socketpair()
        seed = self.rng.getrandbits(32)
        self.tr("fork", pid, label, cwd)
        sys.stdout.flush()
        sys.stderr.flush()
        ospid = os.fork()
        if ospid == 0:
            code = 79
            try:
                _die_with_parent()
                ks.close()
                code = self._child(target, cwd, env, label, cs.fileno(), pid, seed)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
            finally:
                seam._real["os._exit"](code)
        cs.close()
        p.ospid, p.sock = ospid, ks
        self.procs[pid] = p
        p.pending = ("go",)
        self.ready.append(p)
        return pid

    def _child(self, target, cwd, env, label, fd, pid, seed):
        client = seam.Client(fd, label, self.root, self.overlay, self.now, self.mono, seed)
        client.simpid = pid
        out, err = io.BytesIO(), io.BytesIO()
        sys.stdout = io.TextIOWrapper(out, write_through=True)
        sys.stderr = io.TextIOWrapper(err, write_through=True)
        os.environ.clear()
        os.environ.update(self.env if env is None else env)
        os.chdir(cwd)
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        n = struct.unpack("<I", seam._read_all(fd, 4))[0]
        rep = pickle.loads(seam._read_all(fd, n))
        client.now, client.mono = rep[0], rep[1]
        seam.enter(client)
        rc, ret = 0, None
        try:
            try:
                ret = target()
            finally:
                import logging
                for h in list(logging.getLogger().handlers):
                    try:
                        h.flush()
                    except Exception:
                        pass
        except SystemExit as e:
            c = e.code
            rc = 0 if c is None else c if isinstance(c, int) else 1
            if rc == 1 and not isinstance(c, int):
                sys.stderr.write(str(c) + "\n")
        except BaseException:
            rc = 1
            traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        seam.P = None                 # finalizers run in no fixed order: not simulated
        import gc
        gc.collect()
        try:                          # what the interpreter's exit would still do to open files
            import h5py
            for o in [o for o in gc.get_objects() if isinstance(o, h5py.File)]:
                if o.id and o.id.valid:
                    o.close()
        except OSError:
            pass
        try:
            body = pickle.dumps(("exit", rc, out.getvalue(), err.getvalue(), ret), protocol=4)
        except Exception as e:
            body = pickle.dumps(("exit", 70, out.getvalue(), f"unpicklable result {e!r}".encode(), None))
        seam._write_all(fd, struct.pack("<I", len(body)) + body)
        return 0

    def spawn_gen(self, genfn, *args, label="task", parent=None):
        pid = self._newpid()
        p = GProc(pid, label, parent)
        self.procs[pid] = p
        p.gen = genfn(self, *args)
        self.tr("task", pid, label)
        self.at(0, lambda: self._step_gen(p, None))
        return pid

    def _step_gen(self, p, value):
        if p.done is not None:
            return
        try:
            req = p.gen.send(value)
        except StopIteration as e:
            r = e.value
            if not isinstance(r, Done):
                r = Done(*(r if isinstance(r, tuple) else (0 if r is None else r,)))
            self._finish(p, r)
            return
        if req[0] == "sleep":
            self.at(req[1], lambda: self._step_gen(p, None))
        elif req[0] == "wait":
            self.on_done(req[1], lambda d: self._step_gen(p, d))
        else:
            raise SimError(f"bad task request {req!r}")

    def on_done(self, pid, fn):
        q = self.procs[pid]
        if q.done is not None:
            self.at(0, lambda: fn(q.done))
        else:
            q.waiters.append(fn)

    def _finish(self, p, done):
        p.done = done
        self.tr("exit", p.pid, p.label, done.rc, hashlib.sha1(done.out + b"|" + done.err).hexdigest()[:10]
                if self.sc.get("_hash_output") else len(done.err))
        ws, p.waiters = p.waiters, []
        for w in ws:
            self.at(0, lambda w=w: w(done))

    # -- main loop ------------------------------------------------------------------------
    def wait(self, *pids):
        """Pump events until these processes are finished; returns their Done(s)."""
        while any(self.procs[q].done is None for q in pids):
            if not self._turn():
                raise SimError("deadlock: " + ", ".join(self.procs[q].label for q in pids
                                                         if self.procs[q].done is None))
        r = [self.procs[q].done for q in pids]
        return r[0] if len(r) == 1 else r

    def drain(self, until=None):
        """Run until nothing is left to happen (or simulated time `until`)."""
        while True:
            if until is not None and not self.ready and (not self.heap or self.heap[0][0] > until):
                self.mono = max(self.mono, until)
                return
            if not self._turn():
                return

    def advance(self, dt):
        self.drain(until=self.mono + dt)

    def _turn(self):
        self.steps += 1
        if self.steps > self.max_steps or self.mono > self.max_time:
            raise Livelock(f"steps={self.steps} simulated={self.mono:.0f}s")
        if self.ready:
            # timers that are due compete with ready processes for the next turn
            if self.heap and self.heap[0][0] <= self.mono and (len(self.ready) == 0 or self.rng.random() < 0.5):
                self._pop()
                return True
            p = self._pick()
            self._run(p)
            return True
        if self.heap:
            self._pop()
            return True
        return False

    def _pop(self):
        t, _, fn = heapq.heappop(self.heap)
        self.mono = max(self.mono, t)
        fn()

    def _pick(self):
        if len(self.ready) == 1:
            p = self.ready[0]
        elif self.current in self.ready and self.rng.random() >= self.p_switch:
            p = self.current
        else:
            p = self.ready[self.rng.randrange(len(self.ready))]
            if p is not self.current:
                self.switches += 1
        self.ready.remove(p)
        self.current = p
        return p

    def _run(self, p):
        """Give p the token: send its pending reply, then take its next request."""
        if self.op_dt:
            self.mono += self.rng.random() * self.op_dt
        body = pickle.dumps((self.now, self.mono, p.pending), protocol=4)
        p.pending = None
        try:
            p.sock.sendall(struct.pack("<I", len(body)) + body)
            req = self._recv(p)
        except (BrokenPipeError, ConnectionResetError):
            req = None
        if req is None:
            _, st = os.waitpid(p.ospid, 0)
            p.sock.close()
            if p.reason is None:
                code = os.waitstatus_to_exitcode(st)
                raise SimError(f"process {p.label} vanished with status {code}")
            self._finish(p, Done(-9, b"", b"", None, True))
            if p.reason == "crash-node":
                self.kill_node(p.node)
            return
        getattr(self, "rq_" + req[0])(p, *req[1:])

    def _recv(self, p):
        hdr = self._read(p, 4)
        if hdr is None:
            return None
        return pickle.loads(self._read(p, struct.unpack("<I", hdr)[0]))

    def _read(self, p, n):
        out = b""
        while len(out) < n:
            r, _, _ = select.select([p.sock], [], [], self.stall_s)
            if not r:
                raise Stall(p.label)
            c = p.sock.recv(n - len(out))
            if not c:
                return None
            out += c
        return out

    def reply(self, p, value):
        p.pending = value
        self.ready.append(p)

    # -- requests -------------------------------------------------------------------------
    def rq_exit(self, p, rc, out, err, ret):
        os.waitpid(p.ospid, 0)
        p.sock.close()
        self._finish(p, Done(rc, out, err, ret))

    def rq_op(self, p, kind, path, path2):
        p.nops += 1
        rp, r2 = self.rel(path), self.rel(path2)
        self.tr("op", p.pid, kind, rp, r2)
        self.op_counts[kind] = self.op_counts.get(kind, 0) + 1
        if self.op_log is not None:
            self.op_log.append((p.label, kind, rp, r2))
        act = ""
        for f in self.faults:
            if f["_fired"] or not fnmatch.fnmatch(p.label, f.get("proc", "*")):
                continue
            if f.get("kind", "*") != "*" and kind not in f["kind"].split(","):
                continue
            if f.get("kind", "*") == "*" and kind == "open_r" and not f.get("reads"):
                continue
            if not fnmatch.fnmatch(rp, f.get("match", "*")):
                continue
            f["_n"] += 1
            if f["_n"] == f.get("nth", 1):
                if not f.get("sticky"):
                    f["_fired"] = True
                else:
                    f["_n"] -= 1
                act = f["act"]
                self.fire(act if act in ("crash", "torn", "die") else f"{act}_{kind}")
                self.tr("fault", act, p.label, kind, rp)
                self.log("fault", act, p.label, kind, rp)
                break
        if self.op_hook is not None and not act:
            self.op_hook(self, p, kind, path, path2)
        if act == "die":                     # this process alone, as by kill -9 or the out-of-memory killer
            p.reason, act = "died", "crash"
        elif act in ("crash", "torn"):
            p.reason = "crash-node"
            if act == "torn" and kind not in ("close", "rename", "mkdir", "unlink", "rmdir", "symlink"):
                act = "crash"
        self.reply(p, act)

    def rq_sleep(self, p, dt):
        self.tr("sleep", p.pid, round(dt, 6))
        self.at(dt, lambda: self.reply(p, None) if p.done is None else None)

    def rq_list(self, p, path):
        self.listings += 1
        seed = self.rng.getrandbits(32) if self.shuffle else None
        self.tr("list", p.pid, path)
        self.reply(p, seed)

    def rq_note(self, p, *fields):
        self.log("note", p.label, *fields)
        self.reply(p, None)

    def rq_containment(self, p, what, path):
        self.containment.append((p.label, what, self.rel(path)))
        self.tr("containment", what, path)
        self.reply(p, None)

    def rq_unsupported(self, p, what):
        self.unsupported.append(what)
        self.reply(p, None)

    def rq_spawn(self, p, line, argv, cwd, env):
        self.tr("spawn", p.pid, line if line is not None else " ".join(argv))
        self.log("spawn", p.label, self.rel(line) if line is not None else self.rel(shlex.join(argv)))
        if argv is not None:
            name = os.path.basename(argv[0])
            known = name in self.programs or name in self.real_programs or os.path.exists(argv[0]) \
                or name in BUILTINS or name.startswith("python") or name in ("sh", "bash")
            if not known:
                return self.reply(p, ("err", "FileNotFoundError", 2))
        pid = self.spawn_gen(sh_main, line, argv, cwd, env, p, label="sh", parent=p.pid)
        self.procs[pid].node = p.node
        self.reply(p, ("ok", pid))

    def rq_waitpid(self, p, pid, _):
        self.on_done(pid, lambda d: self.reply(p, (d.rc, d.out, d.err)) if p.done is None else None)

    def rq_waitpid_for(self, p, pid, timeout):
        state = {"over": False}

        def fin(ok):
            if not state["over"] and p.done is None:
                state["over"] = True
                self.reply(p, ok)
        self.on_done(pid, lambda d: fin(True))
        self.at(timeout, lambda: fin(False))

    def rq_polled(self, p, pid):
        self.reply(p, self.procs[pid].done is not None)

    def rq_kill(self, p, pid, sig):
        self.kill(pid)
        self.reply(p, None)

    # -- killing --------------------------------------------------------------------------
    def kill(self, pid):
        q = self.procs.get(pid)
        if q is None or q.done is not None:
            return
        if isinstance(q, RProc):
            os.kill(q.ospid, signal.SIGKILL)
            os.waitpid(q.ospid, 0)
            q.sock.close()
            if q in self.ready:
                self.ready.remove(q)
        for c in list(self.procs.values()):
            if c.parent == pid and c.done is None:
                self.kill(c.pid)
        self._finish(q, Done(-9, b"", b"", None, True))

    def kill_node(self, node):
        for q in list(self.procs.values()):
            if q.done is None and q.node == node:
                self.kill(q.pid)

    def close(self):
        for q in self.procs.values():
            if isinstance(q, RProc) and q.done is None:
                try:
                    os.kill(q.ospid, signal.SIGKILL)
                    os.waitpid(q.ospid, 0)
                    q.sock.close()
                except OSError:
                    pass
                q.done = Done(-9)


# ------------------------------------------------------------------------------------ shell
BUILTINS = {"cd", "source", ".", "true", "false", ":", "echo", "exit", "export", "set", "hostname", "uname",
            "module", "pwd", "mkdir", "umask", "unset", "sleep", "test", "[", "ulimit", "date", "whoami"}
OPS = {"&&", "||", ";", "\n", "&", "|", ">", ">>", "<", "(", ")", ">&", "&>"}


def tokenize(line):
    lx = shlex.shlex(line, posix=True, punctuation_chars=";&|<>()")
    lx.whitespace_split = True
    lx.commenters = ""
    return list(lx)


def quoted_tokens(line):
    """Tokens plus whether each is an (unquoted) operator: quotes protect operators."""
    toks, cur, has, i, n = [], "", False, 0, len(line)
    while i < n:
        c = line[i]
        if c in "'":
            j = line.find("'", i + 1)
            if j < 0:
                raise ValueError("Unterminated quoted string")
            cur += line[i + 1:j]
            has = True
            i = j + 1
        elif c == '"':
            i += 1
            has = True
            while i < n and line[i] != '"':
                if line[i] == "\\" and i + 1 < n and line[i + 1] in '"\\$`':
                    i += 1
                cur += line[i]
                i += 1
            if i >= n:
                raise ValueError("Unterminated quoted string")
            i += 1
        elif c == "\\" and i + 1 < n:
            cur += line[i + 1]
            has = True
            i += 2
        elif c in " \t":
            if has or cur:
                toks.append((cur, False))
            cur, has = "", False
            i += 1
        elif c == "#" and not cur and not has:
            while i < n and line[i] != "\n":
                i += 1
        elif c in ";&|<>()\n":
            fdnum = ""
            if c in "<>" and cur.isdigit() and not has:
                fdnum, cur = cur, ""
            if has or cur:
                toks.append((cur, False))
            cur, has = "", False
            op = c
            if line[i:i + 2] in ("&&", "||", ">>", ">&", "&>", "<<"):
                op = line[i:i + 2]
            toks.append((fdnum + op, True))
            i += len(op)
        else:
            cur += c
            i += 1
    if has or cur:
        toks.append((cur, False))
    return toks


def sh_main(k, line, argv, cwd, env, parent):
    """A shell command (or a directly executed argv) as a kernel task."""
    st = {"cwd": cwd, "env": dict(env), "exit": None}
    if argv is not None:
        return (yield from run_argv(k, argv, st, parent))
    return (yield from run_lines(k, line, st, parent))


def run_lines(k, text, st, parent):
    try:
        toks = quoted_tokens(text)
    except ValueError as e:
        return Done(2, b"", f"sh: 1: Syntax error: {e}\n".encode())
    out, err, rc = b"", b"", 0
    i, n = 0, len(toks)
    skip = False
    while i < n:
        argv, redirs = [], []
        while i < n and not (toks[i][1] and toks[i][0] in ("&&", "||", ";", "\n", "&", "|")):
            t, isop = toks[i]
            if isop:
                if t in ("(", ")", "<<"):
                    k.unsupported.append(f"shell syntax {t}")
                    return Done(2, b"", b"sh: unsupported\n")
                tgt = toks[i + 1][0] if i + 1 < n else ""
                redirs.append((t, tgt))
                i += 2
            else:
                argv.append(t)
                i += 1
        conn = toks[i][0] if i < n else ";"
        i += 1
        if conn == "|":
            k.unsupported.append("shell pipe")
            return Done(2, out, b"sh: unsupported\n")
        if argv and not skip:
            argv = [expand(a, st["env"]) for a in argv]
            while argv and "=" in argv[0] and argv[0].split("=")[0].isidentifier():
                a, b = argv.pop(0).split("=", 1)
                st["env"][a] = b
            if argv:
                if conn == "&":
                    k.spawn_gen(sh_main, None, argv, st["cwd"], st["env"], parent, label="sh&")
                    d = Done(0)
                else:
                    d = yield from run_argv(k, argv, st, parent)
                o, e = d.out, d.err
                for t, tgt in redirs:
                    if t in (">", "1>", ">>", "1>>", "&>"):
                        _redir(tgt, o if t != "&>" else o + e, st["cwd"], ">>" in t)
                        o = b""
                        if t == "&>":
                            e = b""
                    elif t in ("2>", "2>>"):
                        _redir(tgt, e, st["cwd"], ">>" in t)
                        e = b""
                    elif t == "2>&":
                        o, e = o + e, b""
                    elif t in (">&", "1>&"):
                        o, e = b"", o + e
                out += o
                err += e
                rc = d.rc
                if st["exit"] is not None:
                    return Done(st["exit"], out, err)
                if rc and st.get("errexit"):
                    return Done(rc, out, err)
        if conn == "&&":
            skip = skip or rc != 0
        elif conn == "||":
            skip = rc == 0
        else:
            skip = False
    return Done(rc, out, err)


def expand(a, env):
    if "$" not in a:
        return a
    import re
    return re.sub(r"\$(\w+|\{\w+\})", lambda m: env.get(m.group(1).strip("{}"), ""), a)


def _redir(tgt, data, cwd, append):
    p = os.path.join(cwd, tgt)
    if p == "/dev/null":
        return
    with seam._real["open"](p, "ab" if append else "wb") as f:
        f.write(data)


def run_argv(k, argv, st, parent):
    name = os.path.basename(argv[0])
    cwd, env = st["cwd"], st["env"]
    if argv[0] in k.programs or (name in k.programs and "/" not in argv[0]):
        k.log("exec", name, tuple(k.rel(a) for a in argv[1:]), k.rel(cwd))
        d = yield from k.programs[name](k, argv, cwd, env)
        if not isinstance(d, Done):
            d = Done(*d) if isinstance(d, tuple) else Done(d or 0)
        k.log("exec-end", name, d.rc)
        return d
    if name in BUILTINS and "/" not in argv[0]:
        return _builtin(k, name, argv, st)
    if name in ("sh", "bash") and len(argv) > 2 and argv[1] in ("-c", "-lc"):
        return (yield from run_lines(k, argv[2], dict(st), parent))
    if name in ("sh", "bash") and len(argv) > 1:
        argv = [os.path.join(cwd, argv[1])] + argv[2:]
        name = os.path.basename(argv[0])
        if os.path.isfile(argv[0]):
            txt = seam._real["open"](argv[0]).read()
            sub = {"cwd": cwd, "env": dict(env), "exit": None}
            return (yield from run_lines(k, txt, sub, parent))
    if name.startswith("python") and len(argv) > 1:
        argv = argv[1:]
        while argv and argv[0] in ("-u", "-W", "ignore", "-E", "-s"):
            argv = argv[1:]
        name = os.path.basename(argv[0]) if argv else ""
    full = argv[0] if "/" in argv[0] else None
    is_bin = name in k.real_programs and (full is None or os.path.realpath(os.path.join(cwd, full))
                                           == os.path.realpath(f"{REPO}/bin/{name}"))
    if is_bin:
        k.log("exec", name, tuple(k.rel(a) for a in argv[1:]), k.rel(cwd))
        if not os.path.isdir(cwd):
            return Done(1, b"", b"shell-init: error retrieving current directory\n")
        pid = k.spawn_script(name, argv[1:], cwd, env, label=name)
        if parent is not None:
            k.procs[pid].node = parent.node if hasattr(parent, "node") else "host"
        node = st.get("node")
        if node:
            k.procs[pid].node = node
        d = yield ("wait", pid)
        k.log("exec-end", name, d.rc)
        return d
    if full is not None:
        p = os.path.join(cwd, full)
        if os.path.isfile(p):
            if not os.access(p, os.X_OK) or not os.stat(p).st_mode & 0o111:
                return Done(126, b"", f"sh: 1: {full}: Permission denied\n".encode())
            k.log("script", k.rel(os.path.realpath(p)))
            txt = seam._real["open"](p).read()
            sub = {"cwd": cwd, "env": dict(env), "exit": None, "node": st.get("node")}
            d = yield from run_lines(k, txt, sub, parent)
            k.log("script-end", k.rel(os.path.realpath(p)), d.rc)
            return d
    return Done(127, b"", f"sh: 1: {argv[0]}: not found\n".encode())


def _builtin(k, name, argv, st):
    if name == "cd":
        p = os.path.normpath(os.path.join(st["cwd"], argv[1] if len(argv) > 1 else st["env"].get("HOME", "/")))
        if not os.path.isdir(p):
            return Done(2, b"", f"sh: 1: cd: can't cd to {argv[1]}\n".encode())
        st["cwd"] = p
        st["env"]["PWD"] = p
        return Done(0)
    if name in ("source", "."):
        p = os.path.join(st["cwd"], argv[1])
        if not os.path.isfile(p):
            return Done(1, b"", f"bash: {argv[1]}: No such file or directory\n".encode())
        return Done(0)
    if name == "exit":
        st["exit"] = int(argv[1]) if len(argv) > 1 else 0
        return Done(st["exit"])
    if name == "false":
        return Done(1)
    if name == "echo":
        return Done(0, (" ".join(argv[1:]) + "\n").encode())
    if name == "pwd":
        return Done(0, (st["cwd"] + "\n").encode())
    if name == "hostname":
        return Done(0, b"10.0.0.7 \n" if "-I" in argv or "-i" in argv else b"simhost\n")
    if name == "uname":
        return Done(0, b"x86_64\n")
    if name == "whoami":
        return Done(0, b"simuser\n")
    if name == "export":
        for a in argv[1:]:
            if "=" in a:
                x, y = a.split("=", 1)
                st["env"][x] = y
        return Done(0)
    if name == "set":
        if any(a.startswith("-") and "e" in a for a in argv[1:]):
            st["errexit"] = True
        return Done(0)
    if name == "mkdir":
        for a in argv[1:]:
            if not a.startswith("-"):
                p = os.path.realpath(os.path.join(st["cwd"], a))
                if not p.startswith(k.root + os.sep):
                    return Done(1, b"", b"mkdir: refused\n")
                os.makedirs(p, exist_ok=True)
        return Done(0)
    return Done(0)
