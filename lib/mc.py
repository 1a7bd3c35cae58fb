"""Runner shared by all checks: exploration bookkeeping, violations, replay files, evidence.

A check is a module checks/cNN.py with

    LEVEL, RULE, BOUNDS, ASSUMPTIONS      (texts for the evidence file)
    def run(ck): ...                      (enumerates its whole bounded space)

`run` enumerates cases (operation histories, schedules, crash points, configurations). Each case is
executed by ck.case(label, fn): fn() drives the real code and raises Mismatch where it disagrees with
the reference model. A failing case is executed again before it is reported, so a report is always
reproducible within the run; it is written to evidence/replay/ and can be re-executed alone with
`run.py <property> --replay <file>`.
"""
import contextlib
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Mismatch(Exception):
    """The implementation disagrees with the reference model."""


def canon(x, digits=9):
    """Stable digest of a nested value; floats are rounded to significant digits (never used for verdicts)."""
    h = hashlib.blake2b(digest_size=12)

    def feed(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.shape).encode())
            if v.dtype.kind == "f":
                with np.errstate(all="ignore"):
                    m = np.float64(np.max(np.abs(v[np.isfinite(v)]), initial=0.0)) or 1.0
                    h.update(np.round(v.astype(float) / m * 10**5).astype(np.float64).tobytes())
            else:
                h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, (list, tuple)):
            h.update(b"(")
            for e in v:
                feed(e)
            h.update(b")")
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                feed(k)
                feed(v[k])
        elif isinstance(v, float):
            h.update(f"{v:.{digits}g}".encode())
        else:
            h.update(repr(v).encode())

    feed(x)
    return h.hexdigest()


def require(cond, msg, **info):
    if not cond:
        extra = " ".join(f"{k}={_short(v)}" for k, v in info.items())
        raise Mismatch(f"{msg} {extra}".strip())


def _short(v):
    if isinstance(v, np.ndarray):
        return f"array{v.shape} {np.array2string(v.ravel()[:6], precision=6)}"
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """max|got-want| <= atol + rtol*scale, scale defaulting to max|want|; also same shape and finiteness."""
    got, want = np.asarray(got), np.asarray(want)
    require(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    if got.size == 0:
        return 0.0
    fg, fw = np.isfinite(got), np.isfinite(want)
    require(bool(np.array_equal(fg, fw)), f"{what}: finiteness differs", got=got, want=want)
    nan_ok = np.isnan(got[~fg]) == np.isnan(want[~fw])
    require(bool(np.all(nan_ok)), f"{what}: nan/inf pattern differs")
    if not fg.any():
        return 0.0
    err = np.abs(np.where(fg, got, 0) - np.where(fw, want, 0))
    s = np.max(np.abs(want[fw])) if scale is None else scale
    tol = atol + rtol * s
    m = float(np.max(err))
    if not m <= tol:
        i = np.unravel_index(int(np.argmax(err)), err.shape)
        raise Mismatch(
            f"{what}: differs from the reference at {tuple(int(j) for j in i)}: got {got[i]!r} want {want[i]!r} "
            f"(|err| {m:.3e} > tol {float(tol):.3e})"
        )
    return m


def close_rel(got, want, what, rtol=1e-9, atol=0.0):
    """Element-wise |got-want| <= atol + rtol*|want|."""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    require(got.shape == want.shape, f"{what}: shape", got=got.shape, want=want.shape)
    bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
    bad &= ~(np.isnan(got) & np.isnan(want))
    bad &= ~(np.isinf(got) & (got == want))
    if bad.any():
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Mismatch(f"{what}: at {tuple(int(j) for j in i)}: got {got[i]!r} want {want[i]!r} (rtol {rtol:g})")


def expect_raises(exc, fn, what):
    try:
        fn()
    except exc as e:
        return e
    except Exception as e:  # noqa: BLE001
        raise Mismatch(f"{what}: raised {type(e).__name__}({e}) instead of {exc}") from e
    raise Mismatch(f"{what}: no error raised")


FAST = bool(os.environ.get("VERIF_FAST"))  # stop all workers at the first violation (mutation runs only)


class Check:
    def __init__(self, pid, module, tier, seed, replay=None):
        self.pid, self.module, self.tier, self.seed = pid, module, tier, seed
        self.level = module.LEVEL
        self.replay_label = replay
        self.t0 = time.time()
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.samples = []
        self.labels = []
        self.extra = {}
        self.violations = []
        self.known_hit = {}
        self.max_violations = 3
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.shard = None  # (index, count) in a worker process
        self.index = 0
        self.in_case = False
        self.known_list = load_known(pid)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- bookkeeping -------------------------------------------------------------------------
    def state(self, *key):
        self.states.add(canon(key))

    def outcome(self, *key):
        self.outcomes.add(canon(key))

    def step(self, n=1):
        self.transitions += n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def note(self, **kw):
        self.extra.update(kw)

    def add(self, key, n=1):
        if not self.in_case and self.shard and self.shard[0]:
            return  # counted once, by the first worker
        self.extra[key] = self.extra.get(key, 0) + n

    def known(self, fid, detail=""):
        """A deviation listed in known_findings.json (by its id) was observed. Unlisted: a violation."""
        if fid not in self.known_list:
            raise Mismatch(f"deviation {fid}: {detail}")
        self.known_hit.setdefault(fid, detail)

    # ---- cases -------------------------------------------------------------------------------
    def want(self, label):
        return self.replay_label is None or self.replay_label == str(label)

    def case(self, label, fn, *a, **kw):
        """Run one case. Returns True if it held."""
        label = str(label)
        if not self.want(label):
            return True
        self.index += 1
        if FAST and os.path.exists(os.path.join(os.path.dirname(self.scratch), "stop")):
            raise Done()
        if self.shard and self.index % self.shard[1] != self.shard[0]:
            return True
        self.cases += 1
        if self.cases & (self.cases - 1) == 0:
            self.labels.append(label)
        self.in_case = True
        try:
            return self._run_case(label, fn, a, kw)
        finally:
            self.in_case = False

    def _run_case(self, label, fn, a, kw):
        err = self._attempt(fn, a, kw)
        if err is None:
            self.traces += 1
            return True
        again = [self._attempt(fn, a, kw) for _ in range(2)]
        if all(e is None for e in again):
            # passes when repeated: reported only if a fresh process fails at the same case again (see main)
            self.extra.setdefault("unreproduced", []).append([label, err[0]])
            return True
        self.report(label, err)
        return False

    def _attempt(self, fn, a, kw):
        try:
            with quiet():
                fn(*a, **kw)
            return None
        except Mismatch as e:
            return (str(e), traceback.format_exc(limit=6))
        except (KeyboardInterrupt, SystemExit, TimeoutError):
            raise
        except BaseException as e:  # noqa: BLE001 - an unexpected error of the code under test
            return (f"unexpected {type(e).__name__}: {e}", traceback.format_exc(limit=12))

    def report(self, label, err):
        if self.shard:
            self.violations.append((self.index, label, err))
            if FAST:
                open(os.path.join(os.path.dirname(self.scratch), "stop"), "w").close()
                raise Done()
        else:
            self.publish(label, err)
        if len(self.violations) >= self.max_violations:
            raise Done()

    def publish(self, label, err, shard=None):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations) + 1}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": self.pid,
                    "case": label,
                    "shard": shard,  # set: the case fails only after the cases before it in this shard
                    "what": err[0],
                    "trace": err[1],
                    "tier": self.tier,
                    "seed": self.seed,
                    "rerun": f"cd /verif && ./run.sh {self.pid} {self.tier} --replay {path}",
                },
                f,
                indent=1,
            )
        self.violations.append(path)
        print(f"case {label}: {err[0]}"[:1500], file=sys.__stdout__)
        print(f"VIOLATION property={self.pid} replay={path}", file=sys.__stdout__, flush=True)

    # ---- worker processes --------------------------------------------------------------------
    FIELDS = ("states", "outcomes", "transitions", "traces", "cases", "samples", "labels", "extra", "violations", "known_hit", "index")

    def merge(self, parts):
        for p in parts:
            self.states |= p["states"]
            self.outcomes |= p["outcomes"]
            self.known_hit = {**p["known_hit"], **self.known_hit}
            for k in ("transitions", "traces", "cases"):
                setattr(self, k, getattr(self, k) + p[k])
            self.samples = (self.samples + p["samples"])[:6]
            self.labels = (self.labels + p["labels"])[:12]
            for k, v in p["extra"].items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    self.extra[k] = self.extra.get(k, 0) + v
                elif isinstance(v, list):
                    self.extra.setdefault(k, []).extend(v)
                else:
                    self.extra[k] = v
        found = sorted((v for p in parts for v in p["violations"]), key=lambda v: v[0])
        for _, label, err in found[: self.max_violations]:
            self.publish(label, err)

    # ---- end ---------------------------------------------------------------------------------
    def evidence(self):
        m = self.module
        cov = {
            "rule": m.RULE,
            "bounds": m.BOUNDS,
            "exhaustive": self.replay_label is None and not self.violations,
            "samples": self.samples + [{"case": x} for x in self.labels[:12]],
            "cases": self.cases,
            "distinct_outcomes": len(self.outcomes),
        }
        if self.level in ("model_checking",):
            cov.update(
                states=len(self.states), transitions=self.transitions, traces_validated_against_impl=self.traces
            )
        else:
            cov.update(evaluations=max(self.transitions, self.cases), distinct_nontrivial=len(self.states))
        cov.update(self.extra)
        if self.known_hit:
            cov["known_findings"] = self.known_hit
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": m.ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(d, f"{self.pid}.json"))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


class Done(Exception):
    pass


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for e in json.load(open(path))["findings"]:
            if e["property"] == pid:
                out[e["id"]] = e["what"]
    return out


@contextlib.contextmanager
def quiet():
    """The code under test prints progress and warns a lot; keep our own output readable."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def explore(ck, module):
    """Run the enumeration in this process; whatever it raises is a finding."""
    try:
        with quiet():
            module.run(ck)
    except Done:
        pass
    except TimeoutError as e:
        if not ck.violations:
            with contextlib.suppress(Done):
                ck.report("watchdog", (f"the enumeration did not terminate in time: {e}", traceback.format_exc(limit=8)))
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        with contextlib.suppress(Done):
            ck.report("harness", (f"unexpected {type(e).__name__}: {e}", traceback.format_exc()))
        traceback.print_exc()


def worker(ck, module, i, n, limit):
    """Child process: every n-th case. Never returns."""
    try:
        ck.shard = (i, n)
        ck.scratch = os.path.join(ck.scratch, f"w{i}")
        os.makedirs(ck.scratch)
        os.chdir(ck.scratch)
        signal.alarm(limit)
        explore(ck, module)
        signal.alarm(0)
        with open(ck.scratch + ".part", "wb") as f:
            pickle.dump({k: getattr(ck, k) for k in Check.FIELDS}, f)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        os._exit(3)


def fork_workers(ck, module, todo, jobs, limit, tag):
    sys.stdout.flush()
    sys.stderr.flush()
    base = ck.scratch
    ck.scratch = os.path.join(base, tag)
    os.makedirs(ck.scratch)
    pids = {}
    for i in todo:
        p = os.fork()
        if p == 0:
            worker(ck, module, i, jobs, limit)
        pids[p] = i
    parts, dead = {}, []
    while pids:
        p, st = os.wait()
        if p not in pids:
            continue
        i = pids.pop(p)
        path = os.path.join(ck.scratch, f"w{i}.part")
        if st == 0 and os.path.exists(path):
            parts[i] = pickle.load(open(path, "rb"))
        else:
            dead.append((i, st))
    ck.scratch = base
    return parts, dead


def main(pid, module, tier, seed, replay, shard=None):
    ck = Check(pid, module, tier, seed, replay)

    def on_alarm(*_):
        raise TimeoutError("watchdog")

    os.chdir(ck.scratch)  # the code under test may write into the working directory (tensorboard runs/)
    signal.signal(signal.SIGALRM, on_alarm)
    limit = int(os.environ.get("VERIF_LIMIT") or (800 if tier == "quick" else 6 * 3600))
    jobs = int(os.environ.get("VERIF_JOBS") or min(8, len(os.sched_getaffinity(0))))
    jobs = min(jobs, getattr(module, "JOBS", jobs))
    try:
        if replay is not None and not shard:
            signal.alarm(limit)
            explore(ck, module)
        else:
            if shard:
                ck.replay_label = None
                todo, jobs = [shard[0]], shard[1]
            else:
                todo = list(range(jobs))
            parts, dead = fork_workers(ck, module, todo, jobs, limit, "a")
            again = [i for i in parts if parts[i]["extra"].get("unreproduced")]
            if again:
                # a case that failed once and passed when repeated depends on what ran before it: run those shards
                # once more from a pristine process, and report what fails at the same case again
                second, _ = fork_workers(ck, module, again, jobs, limit, "b")
                for i, q in second.items():
                    seen = {x[0] for x in q["extra"].get("unreproduced", [])}
                    for label, what in parts[i]["extra"]["unreproduced"]:
                        if label in seen and len(ck.violations) < ck.max_violations:
                            ck.publish(label, (what + " (depends on the cases run before it; seen in two fresh processes)", ""), (i, jobs))
            ck.merge(list(parts.values()))
            for i, st in dead:
                ck.publish("worker", (f"worker process {i} ended with wait status {st}", ""))
            idx = {p["index"] for p in parts.values() if not p["violations"]}
            if len(idx) > 1:
                ck.extra["workers_enumerated_different_case_lists"] = sorted(idx)
    finally:
        signal.alarm(0)
        os.chdir(VERIF)
        ck.evidence()
        ck.close()
    for fid, what in ck.known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {fid}: {ck.known_list[fid]}")
    print(
        f"{pid} {tier}: cases={ck.cases} states={len(ck.states)} transitions={ck.transitions} "
        f"traces={ck.traces} outcomes={len(ck.outcomes)} violations={len(ck.violations)} "
        f"wall={time.time() - ck.t0:.1f}s"
    )
    if ck.extra.get("unreproduced"):
        print("unreproduced:", ck.extra["unreproduced"][:3])
    return 1 if ck.violations else 0
