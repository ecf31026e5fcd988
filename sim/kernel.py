"""The simulator: runs simulated jobs one step at a time.

A job is a real process tree (the script or a scenario function and its pool
workers) whose every contact with the outside world is a request to this
kernel.  Exactly one simulated process runs at any time.  At every request the
kernel decides, from the Choices of the run, which parked process continues and
whether a fault happens to its request.  Files live in a scratch directory; the
kernel keeps track of what would survive a power loss.
"""
import ctypes
import errno
import hashlib
import os
import select
import shutil
import signal
import socket
import time

from . import shim, wire

_rt = shim.real                      # the original os/time functions

PROC_CPU_LIMIT = 40.0                # seconds of CPU between two requests
MAX_STEPS = 60000
MAX_RESPAWN = 30                  # a pool starts workers again for ever; its job is then stopped by the operator
MAX_PROCS = 3000
CLK = os.sysconf("SC_CLK_TCK")


class Stuck(Exception):
    """A simulated process computes without end."""


class HarnessError(Exception):
    """The simulator itself failed; says nothing about the code under test."""


class Proc:
    def __init__(self, simpid, job, kind, pool=None, parent=None):
        self.simpid, self.job, self.kind, self.pool, self.parent = simpid, job, kind, pool, parent
        self.sock = None
        self.ospid = None
        self.pending = None           # request waiting for an answer
        self.alive = True
        self.kill_next = None         # fault to apply when its next request comes
        self.task = None              # chunk a pool worker works on
        self.orphan = False
        self.children_pools = []


class PoolState:
    def __init__(self, pid, owner, n, kind):
        self.id, self.owner, self.n, self.kind = pid, owner, n, kind
        self.queue = []               # (job, idx, data)
        self.jobs = {}                # job -> [result or None]
        self.order = {}               # job -> indices in completion order
        self.taken = {}               # job -> how many yielded by imap_unordered
        self.closed = self.dead = self.broken = False
        self.respawn = self.respawned = 0
        self.orphan_budget = None


class Job:
    """What to run: a script (module, argv) or a function with arguments."""

    def __init__(self, name, module=None, argv=None, func=None, args=()):
        self.name, self.module, self.argv, self.func, self.args = name, module, argv, func, args
        self.status = None            # exit status, None if killed
        self.payload = None
        self.killed = False
        self.hung = False

    @property
    def ok(self):
        return self.status == 0


class Fault:
    """One planned fault: the `index`-th operation of class `cls` meets `kind`."""

    def __init__(self, cls, index, kind, param=0, job=None):
        self.cls, self.index, self.kind, self.param = cls, index, kind, param
        self.job = job                # count and strike operations of this job only
        self.fired = False

    def __repr__(self):
        return f"{self.kind}@{self.cls}[{self.index}]/{self.param}" + (f" of {self.job}" if self.job else "")


class Kernel:
    def __init__(self, choices, root, seed):
        self.ch = choices
        self.sched = choices.sub("schedule")
        self.root = root
        self.seed = seed
        self.addr = "\0fsim-%d-%x" % (_rt.os_getpid(), id(self))
        self.listener = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.listener.bind(self.addr)
        self.listener.listen(64)
        self.procs = {}
        self.pools = {}
        self.next_pid = 1
        self.next_pool = 1
        self.wall0 = 1.7e9
        self.now = 0.0
        self.wall_off = 0.0
        self.log = []                 # event log, one tuple per step
        self.steps = 0
        self.switches = 0
        self.p_stay = 1.0             # probability of not switching process
        self.list_mode = 0
        self.bufsize = 8192
        self.short_writes = 0         # 0: whole writes; k: pieces of at most k bytes
        self.faults = []
        self.counts = {}
        self.jcounts = {}
        self.fired = {}               # fault kind -> count
        self.full_disk = 0            # remaining writes that meet a full disk
        self.watch = None             # callable(kernel, op, args) after file operations
        self.after_op = None
        self.on_point = {}
        # what is on the platter
        self.durable = {}             # path -> bytes known to be durable
        self.journal = []             # directory changes that may be lost
        self.shadow = root + ".shadow"
        os.makedirs(self.shadow, exist_ok=True)
        self.nshadow = 0
        self.sim_time = 0.0
        self.stall = {}
        self.power_losses = 0
        self.observations = []

    # ------------------------------------------------------------ processes

    def start(self, job):
        simpid = self.next_pid
        self.next_pid += 1
        p = Proc(simpid, job, "root")
        self.procs[simpid] = p
        seed = self._proc_seed(simpid)
        pid = os.fork()
        if pid == 0:
            try:
                self.listener.close()
                for q in self.procs.values():
                    if q.sock is not None:
                        q.sock.close()
                shim.configure(getattr(self, "conf", None))
                if job.func is not None:
                    shim.enter_root(self.addr, simpid, self.root, seed, job.func, job.args)
                else:
                    shim.enter_root(self.addr, simpid, self.root, seed,
                                    shim.script_entry, (job.module, job.argv))
            finally:
                os._exit(99)
        p.ospid = pid
        self._accept(simpid)
        return p

    def _proc_seed(self, simpid):
        h = hashlib.sha256(f"{self.seed}/{simpid}".encode()).digest()
        return int.from_bytes(h[:6], "big")

    def _accept(self, simpid):
        r, _, _ = select.select([self.listener], [], [], 120)
        if not r:
            raise HarnessError("process does not connect")
        s, _ = self.listener.accept()
        msg = wire.recv(s)
        if msg[0] != "hello" or msg[1] != simpid:
            raise HarnessError(f"unexpected hello {msg}")
        p = self.procs[simpid]
        p.sock, p.ospid = s, msg[2]
        self._receive(p)

    def _cpu(self, pid):
        try:
            with _rt.open(f"/proc/{pid}/stat") as f:
                parts = f.read().rsplit(")", 1)[1].split()
            return (int(parts[11]) + int(parts[12])) / CLK
        except (OSError, IndexError):
            return 0.0

    def _receive(self, p):
        """Let p run until its next request (or its end)."""
        fd = p.sock
        cpu0 = None
        waited = 0
        while True:
            r, _, _ = select.select([fd], [], [], 4)
            if r:
                break
            waited += 4
            c = self._cpu(p.ospid)
            if cpu0 is None:
                cpu0 = c
            elif c - cpu0 > PROC_CPU_LIMIT:
                raise Stuck(f"{p.kind} of job {p.job.name} computes without end")
            if waited > 600:
                raise HarnessError("no progress of a simulated process")
        try:
            op, args, note = wire.recv(fd)
        except wire.Gone:
            self._dead(p)
            return
        p.pending = (op, args)
        if note:
            for kind, where in note:
                self.fired[kind] = self.fired.get(kind, 0) + 1
                self.log.append((p.simpid, "fired", kind, where))

    def _answer(self, p, value=None, status="ok", arm=None):
        p.pending = None
        self.now += 1e-3
        # system clocks stay between 1970 and 2106 (gzip stores 32 bits)
        wall = min(max(self.wall0 + self.wall_off, 1.0), 4.2e9) + self.now
        wire.send(p.sock, (status, value, wall,
                           self.now, arm, self.bufsize))

    def _dead(self, p):
        """p has ended (killed, exited or crashed)."""
        if not p.alive:
            return
        p.alive = False
        p.pending = None
        if p.sock is not None:
            p.sock.close()
        try:
            os.waitpid(p.ospid, os.WNOHANG)
        except ChildProcessError:
            pass
        # its pools lose their master
        for pool in list(self.pools.values()):
            if pool.owner is p and not pool.dead:
                pool.dead = True
                if pool.kind == "exec":
                    pool.orphan_budget = pool.n + 1
                else:
                    pool.queue.clear()
        # a worker that dies loses its task
        if p.pool is not None:
            pool = self.pools[p.pool]
            if not pool.dead:
                if pool.kind == "exec":
                    if p.exit_code_ok is False:
                        pool.broken = True
                        for q in self._members(pool):
                            self._kill(q)
                elif not pool.closed:
                    pool.respawn += 1

    def _members(self, pool):
        return [q for q in self.procs.values() if q.alive and q.pool == pool.id]

    def _kill(self, p):
        if not p.alive:
            return
        try:
            os.kill(p.ospid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.exit_code_ok = False
        self._dead(p)

    def kill_job(self, job):
        for p in sorted(self.procs.values(), key=lambda q: q.simpid):
            if p.job is job and p.alive:
                self._kill(p)
        if job.status is None:
            job.killed = True

    def kill_all(self):
        for job in {p.job for p in self.procs.values() if p.alive}:
            self.kill_job(job)

    # ------------------------------------------------------------ scheduling

    def _blocked(self, p):
        op, args = p.pending
        if self.stall.get(p.simpid, 0) > self.steps:
            return True
        if op == "pool_get":
            pool = self.pools[args[0]]
            if pool.dead:
                if pool.kind == "exec":
                    return not (pool.queue and pool.orphan_budget > 0)
                return False
            return not (pool.queue or pool.closed)
        if op == "pool_wait":
            return self._wait_value(p, *args) is None
        if op == "pool_any":
            return self._any_value(args[0]) is None
        if op == "pool_join":
            return bool(self._members(self.pools[args[0]]))
        return False

    def _wait_value(self, p, pid, job, mode, idx):
        pool = self.pools[pid]
        res = pool.jobs[job]
        if mode == "all" and all(r is not None for r in res):
            return "value", self._job_value(pool, job)
        if mode == "index" and res[idx] is not None:
            return "value", res[idx]
        if mode == "next" and pool.taken.get(job, 0) < len(pool.order[job]):
            return "value", "next"
        if pool.broken:
            return "broken", None
        if pool.respawn and pool.respawned < MAX_RESPAWN:     # workers that cannot start: no progress
            return "respawn", pool.respawn
        return None

    def _job_value(self, pool, job):
        """All chunk results, the first failure (in time) first."""
        res = pool.jobs[job]
        bad = [i for i in pool.order[job] if not res[i][0]]
        if bad:
            return [res[bad[0]]]
        return res

    def _any_value(self, jobs):
        done = []
        for i, (pid, job) in enumerate(jobs):
            pool = self.pools[pid]
            if all(r is not None for r in pool.jobs[job]):
                done.append((pool.seq[(job,)], i))
            elif pool.broken:
                done.append((1 << 60, i))
        return min(done)[1] if done else None

    def run(self, jobs, drain=True):
        """Start the jobs and step until all of them have ended.

        With drain=False, workers that outlive their killed job stay parked and
        take part in the next run().  Returns True if some job hung and had to
        be killed by the operator.
        """
        for job in jobs:
            self.start(job)
        return self.resume(jobs, drain)

    def resume(self, jobs, drain=True):
        hung = False
        cur = None
        steps0 = self.steps
        while True:
            if all(j.status is not None or j.killed for j in jobs):
                if not drain or not any(p.alive for p in self.procs.values()):
                    break
            cand = [p for p in self.procs.values()
                    if p.alive and p.pending is not None and not self._blocked(p)]
            if not cand:
                if self.stall:
                    self.stall.clear()
                    continue
                live = [j for j in jobs if j.status is None and not j.killed]
                if live:
                    # the operator kills the jobs that make no progress
                    hung = True
                    for j in live:
                        j.hung = True
                        self.kill_job(j)
                    self.log.append(("operator", "kill hung"))
                    if not drain:
                        break
                    continue
                self.kill_all()
                break
            cand.sort(key=lambda q: q.simpid)
            if cur is not None and cur in cand and cand[0] is not cur:
                cand.remove(cur)
                cand.insert(0, cur)
            if len(cand) == 1:
                nxt = cand[0]
            else:
                k = self.sched.choose(len(cand), self.p_stay)
                nxt = cand[k]
                if k:
                    self.switches += 1
            cur = nxt
            self.step(nxt)
            if self.steps - steps0 > MAX_STEPS:
                raise Stuck("no end within the step budget")
        self.sim_time = self.now
        return hung

    # --------------------------------------------------------------- one step

    CLASSES = {"open": "open", "write": "write", "fsync": "fsync", "replace": "replace",
               "unlink": "unlink", "list": "list", "stat": "stat", "read": "read",
               "pool_get": "take", "pool_res": "result", "pool_put": "submit",
               "fork": "fork", "start": "start", "point": "point", "mkdir": "mkdir"}

    def _planned(self, op, p):
        """Faults whose moment has come with this operation."""
        cls = [self.CLASSES.get(op, op), "any"]
        if op == "open" and p.pending[1][1][0] != "r":
            cls.append("create")
        due = []
        for c in cls:
            i = self.counts.get(c, 0)
            self.counts[c] = i + 1
            key = (p.job.name, c)
            n = self.jcounts.get(key, 0)
            self.jcounts[key] = n + 1
            for f in self.faults:
                if not f.fired and f.cls == c and f.job in (None, p.job.name) and \
                        f.index == (i if f.job is None else n):
                    due.append(f)
        return due

    def step(self, p):
        op, args = p.pending
        self.steps += 1
        self.log.append((p.simpid, op) + tuple(
            len(a) if isinstance(a, (bytes, list)) else a for a in args
            if isinstance(a, (str, int, bytes, list, type(None)))))
        due = self._planned(op, p)
        arm = None
        err = None
        torn = None
        after = None
        for f in due:
            k = f.kind
            f.fired = True
            if k in ("mem", "intr", "rand"):
                arm = (k, 1 + f.param)     # counted when it really strikes
                continue
            if k == "clock":
                self.wall_off += (f.param - 8) * 86400.0 * 3
                self._count("clock_jump")
            elif k == "stall":
                self.stall[p.simpid] = self.steps + 5 * (1 + f.param)
                self._count("stall")
                return                      # parked again
            elif k in ("kill", "killjob", "power"):
                if f.param % 3 == 0:        # before the operation
                    self._count(k)
                    self._crash(p, k)
                    return
                if op == "write" and f.param % 3 == 2:
                    torn = (k, f.param)
                else:
                    after = k
            elif k == "enospc":
                if op in ("write", "open", "mkdir", "replace", "fsync"):
                    self.full_disk = 1 + f.param
                else:
                    self.full_disk = 2 + f.param
            elif k == "eio":
                if op in ("read", "write", "open", "fsync", "replace", "list"):
                    err = errno.EIO
                    self._count("eio_" + op)
            elif k == "emfile":
                if op == "open":
                    err = errno.EMFILE
                    self._count("emfile")
        handler = getattr(self, "op_" + op, None)
        if handler is None:
            raise HarnessError(f"unknown operation {op}")
        if op in ("write", "open", "mkdir", "fsync") and self.full_disk > 0 and \
                not (op == "open" and args[1][0] == "r"):
            self.full_disk -= 1
            err = errno.ENOSPC
            self._count("enospc")
        if torn:
            k, par = torn
            n = args[1]
            cut = (par // 3) % n if n > 1 else 0
            self._count(k + "_torn")
            self._answer(p, (cut, errno.EINTR))
            self._receive(p)               # it has written `cut` bytes
            self._crash(p, k)
            return
        if err is not None:
            if op == "write":
                n = args[1]
                self._answer(p, (n // 2 if n > 1 else 0, err), arm=arm)
            else:
                self._answer(p, (err, str(args[0]) if args else None), "err", arm=arm)
            self._receive(p)
        else:
            handler(p, arm, *args)
            if p.alive and p.pending is None and op != "exit":
                self._receive(p)
        if self.watch is not None and op in ("open", "write", "wrote", "replace", "unlink",
                                             "trunc", "link"):
            self.watch(self, op, args)
        if after is not None and p.alive:
            self._count(after)
            self._crash(p, after)
        elif after is not None:
            self._count(after)
            if after == "power":
                self._crash(p, after)

    def _count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.log.append(("fault", kind))

    def _crash(self, p, kind):
        if kind == "kill":
            job = p.job
            root = p.kind == "root"
            self._kill(p)
            if root:
                job.killed = True
        elif kind == "killjob":
            self.kill_job(p.job)
        else:
            self.power_loss()

    # ----------------------------------------------------------- operations

    def op_start(self, p, arm):
        self._answer(p, arm=arm)

    def op_point(self, p, arm, name, *data):
        fn = self.on_point.get(name)
        val = fn(*data) if fn else None
        self._answer(p, val, arm=arm)

    def op_choose(self, p, arm, stream, n, p0):
        self._answer(p, self.ch.choose(stream, n, p0), arm=arm)

    def op_sleep(self, p, arm, s):
        self.now += s
        self._answer(p, arm=arm)

    def op_exit(self, p, arm, status, payload):
        p.exit_code_ok = status == 0
        if p.kind == "root":
            p.job.status, p.job.payload = status, payload
        elif status:
            self.observations.append(payload)
        self._answer(p)
        try:
            wire.recv(p.sock)
        except wire.Gone:
            pass
        root = p.kind == "root"
        self._dead(p)
        if root:
            # at exit a program ends its daemonic pool workers and waits for the others
            for q in list(self.procs.values()):
                if q.alive and q.job is p.job:
                    self._kill(q)

    def op_fork(self, p, arm, kind, pool):
        simpid = self.next_pid
        if len(self.procs) > MAX_PROCS:
            raise Stuck("no end within the budget of processes")
        self.next_pid += 1
        self.procs[simpid] = Proc(simpid, p.job, kind, pool, p)
        if self.pools[pool].respawn:
            self.pools[pool].respawn -= 1
            self.pools[pool].respawned += 1
        self._answer(p, (simpid, self._proc_seed(simpid)), arm=arm)
        self._accept(simpid)

    # files: the process acts on the real scratch directory after the answer

    def op_open(self, p, arm, rel, mode):
        if mode[0] == "w":
            self.durable[rel] = 0
        elif mode[0] in "ax":
            self.durable.setdefault(rel, self._size(rel))
        self._answer(p, arm=arm)

    def op_write(self, p, arm, rel, n):
        k = n
        if self.short_writes and n > self.short_writes:
            k = self.short_writes
            self.fired["short_write"] = self.fired.get("short_write", 0) + 1
        self.durable.setdefault(rel, 0)
        self._answer(p, (k, 0), arm=arm)

    def op_wrote(self, p, arm, rel):
        self._answer(p, arm=arm)

    def op_read(self, p, arm, rel):
        self._answer(p, arm=arm)

    def op_trunc(self, p, arm, rel):
        self.durable[rel] = 0
        self._answer(p, arm=arm)

    def op_fsync(self, p, arm, rel):
        full = os.path.join(self.root, rel)
        if os.path.isdir(full):
            self.journal = [j for j in self.journal if j[3] != rel]
        else:
            self.durable.pop(rel, None)
        self._answer(p, arm=arm)

    def op_replace(self, p, arm, a, b):
        if a is not None and b is not None:
            bak = self._backup(b)
            self.journal.append(("replace", a, b, os.path.dirname(b) or ".", bak,
                                 self.durable.get(b)))
            da = self.durable.pop(a, None)
            self.durable.pop(b, None)
            if da is not None:
                self.durable[b] = da
        self._answer(p, arm=arm)

    def op_link(self, p, arm, a, b):
        self._answer(p, arm=arm)

    def op_unlink(self, p, arm, a):
        bak = self._backup(a)
        if bak is not None:
            self.journal.append(("unlink", a, None, os.path.dirname(a) or ".", bak,
                                 self.durable.pop(a, None)))
        self._answer(p, arm=arm)

    def op_mkdir(self, p, arm, a):
        self._answer(p, arm=arm)

    op_rmdir = op_mkdir

    def op_stat(self, p, arm, rel):
        self._answer(p, arm=arm)

    def op_list(self, p, arm, rel):
        key = self.list_mode
        if key > 1:
            key = key * 1000 + self.counts.get("list", 0)
        self._answer(p, key, arm=arm)

    def _size(self, rel):
        try:
            return os.path.getsize(os.path.join(self.root, rel))
        except OSError:
            return 0

    def _backup(self, rel):
        full = os.path.join(self.root, rel)
        if not os.path.isfile(full):
            return None
        self.nshadow += 1
        bak = os.path.join(self.shadow, str(self.nshadow))
        os.link(full, bak)
        return bak

    def power_loss(self):
        """Everything stops; what was not synchronised may be gone."""
        self.kill_all()
        self.power_losses += 1
        st = self.ch.sub("platter")
        # the last directory changes may not have reached the disk
        lost = st.choose(min(3, len(self.journal)) + 1, 0.6)
        for _ in range(lost):
            kind, a, b, _, bak, dur = self.journal.pop()
            fa = os.path.join(self.root, a)
            if kind == "replace":
                fb = os.path.join(self.root, b)
                if os.path.isfile(fb):
                    _rt.os_replace(fb, fa)
                    if b in self.durable:
                        self.durable[a] = self.durable.pop(b)
                if bak is not None:
                    _rt.os_link(bak, fb)
                    if dur is not None:
                        self.durable[b] = dur
            elif not os.path.exists(fa):
                _rt.os_link(bak, fa)
                if dur is not None:
                    self.durable[a] = dur
        if lost:
            self._count("lost_rename")
        # data that was never synchronised is cut, mostly to nothing
        for rel in sorted(self.durable):
            full = os.path.join(self.root, rel)
            if not os.path.isfile(full):
                continue
            size = os.path.getsize(full)
            keep = self.durable[rel]
            if size > keep:
                mode = st.choose(4)
                new = {0: keep, 1: keep + (size - keep) // 2, 2: size - 1, 3: size}[mode]
                if new < size:
                    # cut a copy: the old inode may be linked in the shadow directory
                    with _rt.open(full, "rb") as f:
                        data = f.read(new)
                    _rt.os_unlink(full)
                    with _rt.open(full, "wb") as f:
                        f.write(data)
                    self._count("lost_data")
        self.durable.clear()
        self.journal.clear()
        self.log.append(("power", lost))
        if self.watch is not None:
            self.watch(self, "power", ())

    # pools

    def op_pool_new(self, p, arm, n, kind):
        pid = self.next_pool
        self.next_pool += 1
        pool = self.pools[pid] = PoolState(pid, p, n, kind)
        pool.seq = {}
        self._answer(p, pid, arm=arm)

    def op_pool_put(self, p, arm, pid, job, chunks):
        pool = self.pools[pid]
        if pool.broken:
            self._answer(p, "broken", arm=arm)
            return
        pool.jobs[job] = [None] * len(chunks)
        pool.order[job] = []
        for i, data in enumerate(chunks):
            pool.queue.append((job, i, data))
        self._answer(p, arm=arm)

    def op_pool_get(self, p, arm, pid):
        pool = self.pools[pid]
        if pool.queue and (not pool.dead or pool.kind == "exec"):
            if pool.dead:
                pool.orphan_budget -= 1
                self.fired["orphan_task"] = self.fired.get("orphan_task", 0) + 1
            p.task = pool.queue.pop(0)
            self._answer(p, p.task, arm=arm)
        else:
            self._answer(p, None)

    def op_pool_res(self, p, arm, pid, job, idx, ok, data):
        pool = self.pools[pid]
        p.task = None
        if pool.dead and pool.kind == "pool":
            self._kill(p)                  # broken pipe: the worker ends
            return
        if not pool.dead:
            pool.jobs[job][idx] = (ok, data)
            pool.order[job].append(idx)
            if all(r is not None for r in pool.jobs[job]):
                pool.seq[(job,)] = self.steps
        self._answer(p, arm=arm)

    def op_pool_wait(self, p, arm, pid, job, mode, idx):
        what, val = self._wait_value(p, pid, job, mode, idx)
        if what == "value" and isinstance(val, str):
            pool = self.pools[pid]
            i = pool.order[job][pool.taken.get(job, 0)]
            pool.taken[job] = pool.taken.get(job, 0) + 1
            val = pool.jobs[job][i]
        self._answer(p, (what, val), arm=arm)

    def op_pool_any(self, p, arm, jobs):
        self._answer(p, self._any_value(jobs), arm=arm)

    def op_pool_poll(self, p, arm, pid, job):
        pool = self.pools[pid]
        self._answer(p, pool.broken or all(r is not None for r in pool.jobs[job]), arm=arm)

    def op_pool_close(self, p, arm, pid):
        self.pools[pid].closed = True
        self._answer(p, arm=arm)

    def op_pool_term(self, p, arm, pid):
        pool = self.pools[pid]
        pool.closed = True
        pool.queue.clear()
        for q in sorted(self._members(pool), key=lambda q: q.simpid):
            self._kill(q)
        self._answer(p, arm=arm)

    def op_pool_join(self, p, arm, pid):
        self._answer(p, arm=arm)

    # ------------------------------------------------------------------ misc

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]

    def interleaving(self):
        """Digest of who did what in which order (no sizes)."""
        h = hashlib.sha256()
        for e in self.log:
            h.update(f"{e[0]}:{e[1]};".encode())
        return h.hexdigest()[:12]

    def close(self):
        self.kill_all()
        self.listener.close()
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except ChildProcessError:
            pass
        shutil.rmtree(self.shadow, ignore_errors=True)


Proc.exit_code_ok = False


def become_subreaper():
    """Orphaned simulated processes are reaped by this process."""
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
