"""Crash and fault exploration of save_model (C21)."""
import ctypes
import errno
import itertools
import os
import pickle
import shutil
import sys
import traceback

import numpy as np
import torch

from lib import drd
from lib.mc import require
from lib.sched import run_with_fault

LEVEL = "model_checking"
TECH = "exhaustive crash-point and fault injection at every file-system call of the real save (libc interposition), plus enumeration of all disk states a power loss may leave from the recorded operations"
RULE = (
    "a child process saves a model while every libc call that changes the directory is numbered; the run is repeated with the process ending before each call, with each write torn at several lengths, with each call "
    "failing with each errno, with a short write followed by failure, with an exception raised at every source line of the package, and with each record failing to serialise. After every run the model file must load to the complete "
    "previous or the complete new model, a reported success must be the new one, and a later save must succeed. From the recorded operation log every power-loss state (crash index x persisted prefix of directory "
    "operations x unsynced data kept, dropped or torn per file) is built and judged by the same rule. A state is (history, injection) or a disk state."
)
BOUNDS = "0..3 earlier saves; 3 model sizes (one or several write calls); text, path and default directory; all calls x {exit, 3 errnos, 5 torn lengths, short write}; all source lines; all records; up to 2 consecutive interrupted saves"
ASSUMPTIONS = [
    "directory operations reach the disk in order (any prefix), data only when fsynced",
    "a power loss after a reported success may still show the previous model (the code does not sync the directory)",
    "files are changed through libc calls, which the recorded log is checked to reproduce exactly (otherwise the power-loss states are skipped and counted)",
]
JOBS = 8
LIB = ctypes.CDLL(None)
MODELS = {
    "small": dict(eddy="MANN"),
    "net": dict(eddy="TAUNET", width=3, layers=2),
    "big": dict(eddy="TAUNET", width=64, layers=3, learn_nu=True),
}


def ip():
    from drdmannturb import IntegrationParameters

    return IntegrationParameters(ops_num_points=3, coh_num_points=3)


_pb = {}


def problem(kind):
    if kind not in _pb:
        _pb[kind] = drd.make_problem(integration=ip(), **MODELS[kind])
    return _pb[kind]


def vec(kind, i):
    n = len(problem(kind).parameters)
    return np.random.RandomState(100 + i).uniform(-0.5, 0.5, n)


class Plan:
    """What happens to the save: at which call, how."""

    def __init__(self, at=-1, mode=0, err=0, keep=0):
        self.at, self.mode, self.err, self.keep = at, mode, err, keep


def child(fn, root=None, plan=None, log=None):
    """fn() in a child process. Returns 0 finished, 10 raised, 88 ended by the plan."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 10
        try:
            if root is not None:
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
                p = plan or Plan()
                LIB.vf_arm(root.encode(), p.at, p.mode, p.err, ctypes.c_long(p.keep), fd)
            fn()
            code = 0
        except BaseException:  # noqa: BLE001
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            code = 10
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st)


def save(kind, v, how, d, pid=None):
    from pathlib import Path

    pb = problem(kind)
    pb.parameters = v
    if pid is not None:
        os.getpid = lambda: pid
    if how == "str":
        pb.save_model(d)
    elif how == "path":
        pb.save_model(Path(d))
    else:
        pb.output_directory = Path(d)
        pb.save_model()


def content(path):
    """Vector of a complete model file, None if there is no file, 'broken' otherwise."""
    if not os.path.exists(path):
        return None
    with open(path, "rb") as f:
        b = f.read()
    return judge(b)


def judge(b):
    import io

    try:
        f = io.BytesIO(b)
        rec = pickle.load(f)
        if len(rec) != 5 or f.read(1) != b"":
            return "broken"
        return np.asarray(rec[4], dtype=float)
    except Exception:  # noqa: BLE001
        return "broken"


def same(a, b):
    if a is None or b is None:
        return a is b
    return not isinstance(a, str) and not isinstance(b, str) and a.shape == b.shape and np.array_equal(a, b)


def which(got, prev, new, what):
    require(not (isinstance(got, str)), f"{what}: the model file is damaged")
    if same(got, new):
        return "new"
    require(same(got, prev), f"{what}: the model file holds neither the previous nor the new model", got=None if got is None else got[:4])
    return "old"


def target(ck, kind):
    """Name of the model file, learnt from an undisturbed save."""
    d = os.path.join(ck.scratch, "name")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    assert child(lambda: save(kind, vec(kind, 0), "str", d)) == 0, "an undisturbed save failed"
    names = os.listdir(d)
    require(len(names) == 1, "files after one save", got=names)
    return names[0]


def setup(ck, kind, prior, how):
    d = os.path.join(ck.scratch, "dir")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    prev = None
    for i in range(prior):
        prev = vec(kind, i)
        require(child(lambda: save(kind, prev, how, d)) == 0, "an undisturbed save failed")
    return d, prev


def later(kind, how, d, name, what, pid):
    """A later save, from a new process, succeeds and leaves the new model."""
    v = vec(kind, 50)
    require(child(lambda: save(kind, v, how, d, pid)) == 0, f"{what}: a later save failed")
    require(same(content(os.path.join(d, name)), v), f"{what}: a later save did not replace the model")


def inject(ck, kind, prior, how, plans, expect, pid=4242):
    """Consecutive saves, each under its plan, then a clean one."""
    name = target(ck, kind)
    d, prev = setup(ck, kind, prior, how)
    path = os.path.join(d, name)
    for j, p in enumerate(plans):
        new = vec(kind, 10 + j)
        rc = child(lambda: save(kind, new, how, d, pid), d, p, os.path.join(ck.scratch, "log"))
        what = f"save {j + 1} with call {p.at} mode {p.mode} errno {p.err} keep {p.keep}"
        require(rc in (0, 10, 88), f"{what}: the process ended with {rc}")
        got = which(content(path), prev, new, what)
        if rc == 0:
            require(got == "new", f"{what}: success was reported but the model is not the new one")
        if rc == 10 and p.mode == 0:
            require(False, f"{what}: an undisturbed save failed")
        if got == "new":
            prev = new
        ck.outcome(kind, prior, rc, got, p.mode)
        ck.step()
    later(kind, how, d, name, what, pid)
    later(kind, how, d, name, what + " (other process)", None)
    ck.step(2)
    ck.state(kind, prior, how, [(p.at, p.mode, p.err, p.keep) for p in plans])


# ---- the log and the disk states it allows ----------------------------------------------------------
def read_log(path):
    b = open(path, "rb").read()
    ops, i = [], 0
    while i < len(b):
        j = b.index(b"\n", i)
        n, op, a, c, size = b[i:j].decode().split("\t")
        size = int(size)
        ops.append((op, a, c, b[j + 1 : j + 1 + size]))
        i = j + 1 + size
    return ops


def observe(ck, kind, prior, how):
    d, prev = setup(ck, kind, prior, how)
    before = {os.path.join(d, n): open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
    log = os.path.join(ck.scratch, "log")
    new = vec(kind, 10)
    require(child(lambda: save(kind, new, how, d, 4242), d, None, log) == 0, "an undisturbed save failed")
    ops = read_log(log)
    after = {os.path.join(d, n): open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
    return d, prev, new, before, ops, after


class Disk:
    """Names -> files; a file is (synced bytes, list of later writes)."""

    def __init__(self, names):
        self.files = [[b, []] for b in names.values()]  # [durable, pending]
        self.names = {p: i for i, p in enumerate(names)}
        self.journal = []  # directory operations in order

    @staticmethod
    def apply(b, w):
        kind, off, data = w
        if kind == "t":
            return b[:off] + b"\0" * max(0, off - len(b))
        b = b + b"\0" * max(0, off - len(b))
        return b[:off] + data + b[off + len(data) :]

    def do(self, op, a, c, data):
        if op == "create":
            self.files.append([b"", []])
            self.journal.append(("set", a, len(self.files) - 1))
            self.names[a] = len(self.files) - 1
        elif op == "truncate":
            self.files[self.names[a]][1].append(("t", 0, b""))
        elif op == "ftruncate":
            self.files[self.names[a]][1].append(("t", int(c), b""))
        elif op == "write":
            self.files[self.names[a]][1].append(("w", int(c), data))
        elif op == "fsync":
            if a in self.names:  # a directory sync is not needed by the rule
                f = self.files[self.names[a]]
                for w in f[1]:
                    f[0] = self.apply(f[0], w)
                f[1] = []
        elif op == "rename":
            i = self.names.pop(a)
            self.journal.append(("move", a, c, i))
            self.names[c] = i
        elif op == "link":
            self.journal.append(("set", c, self.names[a]))
            self.names[c] = self.names[a]
        elif op == "unlink":
            self.names.pop(a)
            self.journal.append(("del", a))
        elif op in ("mkdir", "rmdir"):
            pass
        else:
            raise KeyError(op)

    def live(self):
        out = {}
        for p, i in self.names.items():
            b = self.files[i][0]
            for w in self.files[i][1]:
                b = self.apply(b, w)
            out[p] = b
        return out

    def variants(self, i):
        """All contents of file i after a power loss."""
        dur, pend = self.files[i]
        out, b = [dur], dur
        for w in pend:
            if w[0] == "w":
                for cut in {1, len(w[2]) // 2, len(w[2]) - 1}:
                    if 0 < cut < len(w[2]):
                        out.append(self.apply(b, ("w", w[1], w[2][:cut])))
            b = self.apply(b, w)
            out.append(b)
        if pend:
            out.append(b"\0" * len(b))  # length on disk, data not
        return list(dict.fromkeys(out))


def power_loss(ck, kind, prior, how):
    name = target(ck, kind)
    d, prev, new, before, ops, after = observe(ck, kind, prior, how)
    path = os.path.join(d, name)
    try:
        full = Disk(before)
        for o in ops:
            full.do(*o)
        ok = full.live() == after
    except (KeyError, ValueError):
        ok = False
    if not ok:
        ck.add("unmodelled_logs")
        return
    ck.add("logged_operations", len(ops))
    for n in range(len(ops) + 1):
        disk = Disk(before)
        for o in ops[:n]:
            disk.do(*o)
        start = {p: i for i, p in enumerate(before)}
        for j in range(len(disk.journal) + 1):
            names = dict(start)
            for e in disk.journal[:j]:
                if e[0] == "set":
                    names[e[1]] = e[2]
                elif e[0] == "move":
                    names.pop(e[1], None)
                    names[e[2]] = e[3]
                else:
                    names.pop(e[1], None)
            if path not in names:
                require(prev is None, f"power loss after operation {n} ({j} directory operations on disk): the previous model is gone")
                ck.state(kind, prior, how, "power", n, j, "none")
                continue
            for b in disk.variants(names[path]):
                got = which(judge(b), prev, new, f"power loss after operation {n} of {[o[0] for o in ops]} with {j} directory operations on disk and {len(b)} bytes of the file")
                ck.state(kind, prior, how, "power", n, j, len(b), got)
                ck.step()
        ck.step()
    # a finished save: its data are synced
    require(not any(full.files[i][1] for p, i in full.names.items() if p == path), "the data of a finished save were not synced")


# ---- failures inside the process ---------------------------------------------------------------------
class Unpicklable:
    def __reduce__(self):
        raise RuntimeError("cannot be serialised")


class KillPickle:
    def __reduce__(self):
        raise KeyboardInterrupt


def unserialisable(ck, kind, prior, how, record, bad):
    name = target(ck, kind)
    d, prev = setup(ck, kind, prior, how)
    new = vec(kind, 10)

    def body():
        pb = problem(kind)
        o = {"nn": pb.nn_params, "prob": pb.prob_params, "loss": pb.loss_params, "phys": pb.phys_params}[record]
        o.extra = bad()
        save(kind, new, how, d)

    rc = child(body)
    got = which(content(os.path.join(d, name)), prev, new, f"{record} cannot be serialised")
    require(rc != 0 or got == "new", "success reported for a model that was not saved")
    require(rc == 10, "a failure to serialise was not reported", got=rc)
    later(kind, how, d, name, f"after {record} could not be serialised", None)
    ck.step(2)
    ck.state("serialise", kind, prior, how, record, bad.__name__)


def lines(kind, how, d):
    """Number of source-line events of a save."""
    r, w = os.pipe()

    def body():
        n, _ = run_with_fault(lambda: save(kind, vec(kind, 10), how, d), None, False)
        os.write(w, str(n).encode())

    rc = child(body)
    os.close(w)
    n = int(os.read(r, 64) or b"0")
    os.close(r)
    assert rc == 0, rc
    return n


def interrupted(ck, kind, prior, how, at):
    name = target(ck, kind)
    d, prev = setup(ck, kind, prior, how)
    new = vec(kind, 10)
    state = {}

    def body():
        _, fired = run_with_fault(lambda: save(kind, new, how, d), at, False)
        os._exit(20 if fired else 0)

    rc = child(body)
    got = which(content(os.path.join(d, name)), prev, new, f"interrupted at line event {at}")
    require(rc != 0 or got == "new", "success reported for a model that was not saved")
    later(kind, how, d, name, f"after an interruption at line event {at}", None)
    ck.step(2)
    ck.state("line", kind, prior, how, at)


def run(ck):
    torch.set_default_dtype(torch.float64)
    from lib.mc import quiet

    combos = [(k, p, h) for k, p, h in itertools.product(MODELS, (0, 1, 2, 3) if ck.thorough else (0, 1, 2), ("str", "path", "default")) if ck.thorough or h == "str" or (k == "net" and p == 1)]
    for kind, prior, how in combos:
        with quiet():
            _, _, _, _, ops, _ = observe(ck, kind, prior, how)
            n_lines = lines(kind, how, setup(ck, kind, prior, how)[0])
        n = len(ops)
        lab = f"{kind}/{prior}/{how}"
        ck.case(f"{lab}/none", inject, ck, kind, prior, how, [Plan()], "ok")
        ck.case(f"{lab}/power", power_loss, ck, kind, prior, how)
        exits = [Plan(i, 1) for i in range(n)]
        errs = [Plan(i, 2, e) for i in range(n) for e in (errno.ENOSPC, errno.EIO, errno.EACCES)]
        torn = [Plan(i, 3, 0, k) for i in range(n) if ops[i][0] == "write" for k in (0, 1, 7, 1000000, -1)]
        short = [Plan(i, 4, errno.ENOSPC, k) for i in range(n) if ops[i][0] == "write" for k in (1, 1000000, -1)]
        for p in exits + errs + torn + short:
            ck.case(f"{lab}/at{p.at}/mode{p.mode}/errno{p.err}/keep{p.keep}", inject, ck, kind, prior, how, [p], "any")
        if how == "str" and (ck.thorough or kind == "net"):
            for p, q in itertools.product(exits + torn[::2], exits + errs[::3]):
                ck.case(f"{lab}/two/{p.at}.{p.mode}.{p.keep}/{q.at}.{q.mode}", inject, ck, kind, prior, how, [p, q], "any")
        for i in range(n_lines):
            ck.case(f"{lab}/line{i}", interrupted, ck, kind, prior, how, i)
        for r, b in itertools.product(("nn", "prob", "loss", "phys"), (Unpicklable, KillPickle)):
            ck.case(f"{lab}/serialise/{r}/{b.__name__}", unserialisable, ck, kind, prior, how, r, b)
