"""Optional learning-rate schedules (C30)."""
import itertools

import torch

from checks.c17 import ip
from lib import drd
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "explicit-state exploration: every epoch of every run length, and every word over recorded objectives and scheduler steps, of the real schedule builders against a reference automaton"
RULE = (
    "the schedules are built by the calibration problem for real optimisers and stepped epoch by epoch; after every step the rates of all parameter groups are compared with the rates of the phase. The "
    "balance-driven schedule is explored over all words of recorded objective pairs and steps, with one and with two schedules of the same problem. A state is (schedule, run length, epoch) or (word prefix)."
)
BOUNDS = "three phases: run lengths 1..120, 250, 1000 (all epochs, and 5 beyond the end), 3 optimisers, 2 parameter groups; balance: all words of length <= 4 (thorough 6) over 7 actions behind 0, 5, 9, 10 and 14 recorded evaluations, and all histories of 10 to 16 evaluations with one or two changes of balance, epochs 0..25, and runs to epoch 360"
ASSUMPTIONS = ["at an epoch equal to 70 % of the run length within rounding the rate may be that of either phase", "scheduler arithmetic is torch's"]
PAIRS = {"b": (1.0, 0.8), "o": (90.0, 0.5), "c": (0.01, 3.0), "z": (0.4, 0.0), "m": (12.0, 1.0), "t": (1e-3, 1e-4)}
_pb = []


def problem():
    if not _pb:
        drd.no_tensorboard()
        _pb.append(drd.make_problem(eddy="MANN", integration=ip()))
    pb = _pb[0]
    if hasattr(pb, "loss_history"):
        del pb.loss_history
    return pb


def opt(kind="Adam", rates=(0.3, 0.02)):
    ps = [torch.nn.Parameter(torch.ones(2)) for _ in rates]
    return getattr(torch.optim, kind)([dict(params=[p], lr=r) for p, r in zip(ps, rates)], lr=9.0)


def step(o, s):
    o.step()
    s.step()


def rates(o):
    return [g["lr"] for g in o.param_groups]


def three(ck, n, kind):
    pb = problem()
    r0 = (0.3, 0.02)
    o = opt(kind, r0)
    s = pb.get_three_phase_scheduler(o, n)
    for e in range(n + 6):
        x = e / n
        f = 2.0 if x <= 0.3 else 2.0 - (x - 0.3) / 0.4 if x < 0.7 else 0.1
        if abs(x - 0.7) < 1e-12:
            ok = any(all(abs(a - b * v) <= 1e-9 * b for a, b in zip(rates(o), r0)) for v in (0.1, 1.0))
            require(ok, f"{n} epochs, epoch {e}: rate at the phase boundary", got=rates(o))
        else:
            close_rel(rates(o), [f * r for r in r0], f"{n} epochs, epoch {e}: rate", rtol=1e-9)
        ck.state("three", n, kind, e)
        ck.step()
        step(o, s)
    require(not hasattr(pb, "loss_history") or not pb.loss_history["total"], "building the schedule recorded losses")


def factor(hist, e):
    if len(hist["total"]) < 10:
        return 1.0
    a, c = (sum(hist[k][-5:]) / len(hist[k][-5:]) for k in ("ops", "coherence"))
    q = a / (c + 1e-8)
    return 0.5 if q > 10 or q < 0.1 else 0.95 ** (e - 10)


def balance(ck, start, word, two):
    """Actions: record a pair (letter of PAIRS) or step the schedule (.), after `start` balanced evaluations."""
    pb = problem()
    hist = {"ops": [], "coherence": [], "total": []}

    def record(c):
        a, b = PAIRS[c]
        for k, v in zip(("ops", "coherence", "total"), (a, b, a + b)):
            hist[k].append(v)
            pb.loss_history[k].append(v)

    prefix = start if isinstance(start, str) else "bo"[start == 14] * start
    there = len(prefix) % 2
    if there:  # a history that is already there is continued
        pb.loss_history = {"ops": [], "coherence": [], "total": []}
    else:
        o = opt()
        s = pb.get_adaptive_multi_scheduler(o, 20)
    for c in prefix:
        record(c)
    live = []
    if there:
        o = opt()
        s = pb.get_adaptive_multi_scheduler(o, 20)
        live.append([o, s, 0, factor(hist, 0)])
    else:
        live.append([o, s, 0, 1.0])
    if two:
        o2 = opt("SGD", (1.5, 0.7))
        live.append([o2, pb.get_adaptive_multi_scheduler(o2, 7), 0, factor(hist, 0)])
    base = [(0.3, 0.02), (1.5, 0.7)]
    for i, c in enumerate(word):
        if c == ".":
            for x in live[: 1 + (i % 2)] if two else live:
                step(x[0], x[1])
                x[2] += 1
                x[3] = factor(hist, x[2])
        elif c == ">":  # several epochs at once
            for x in live:
                for _ in range(9):
                    step(x[0], x[1])
                x[2] += 9
                x[3] = factor(hist, x[2])
        else:
            record(c)
        for x, b in zip(live, base):
            close_rel(rates(x[0]), [x[3] * r for r in b], f"start {start} word {word[: i + 1]}: rates at epoch {x[2]}", rtol=1e-9)
        require({k: list(v) for k, v in pb.loss_history.items()} == hist, f"word {word[: i + 1]}: recorded history changed")
        ck.step()
        ck.state("balance", start, word[: i + 1], two)
    ck.outcome([round(x[3], 9) for x in live])


def run(ck):
    torch.set_default_dtype(torch.float64)
    for n in (*range(1, 121), 250, 1000):
        for kind in ("Adam", "SGD", "RMSprop") if n <= 20 else ("Adam",):
            ck.case(f"three/{n}/{kind}", three, ck, n, kind)
    # one or two changes of balance anywhere in the recorded history
    for n in (10, 11, 13, 16):
        for x, y in itertools.permutations("boczm", 2):
            for i in range(n + 1):
                ck.case(f"change/{n}/{x}{y}/{i}", balance, ck, x * i + y * (n - i), "." + y + ".", False)
                for j in range(i + 1, n) if n < 16 or ck.thorough else ():
                    ck.case(f"change2/{n}/{x}{y}/{i}/{j}", balance, ck, x * i + y * (j - i) + x * (n - j), ".", False)
    # long runs: the factor goes on decaying
    for start, two in itertools.product((9, 10, 14), (False, True)):
        for w in (">" * 12, "." + ">" * 40, ">>>>c>>>>b>>>>>>>", ">" * 7 + "oo" + ">" * 7 + "z.b....>>>"):
            ck.case(f"late/{start}/{two}/{w}", balance, ck, start, w, two)
    for start, two in itertools.product((0, 5, 9, 10, 14), (False, True)):
        for d in range(1, 7 if ck.thorough else 5):
            for w in map("".join, itertools.product("bocz.>m" if d < 5 else "boc.>", repeat=d)):
                if w[-1] in ".>" and not (two and d > 3 and not ck.thorough):
                    ck.case(f"balance/{start}/{two}/{w}", balance, ck, start, w, two)
