"""The training log (TensorBoard) and its plots (C29)."""
import itertools
import math
import os
import pathlib
import time

import numpy as np
import torch

from checks.c17 import ip
from checks.c27 import no_render
from checks.c19 import ALPHABET, LK, inputs
from lib import drd
from lib.mc import require

LEVEL = "model_checking"
TECH = "exhaustive exploration of loss words, enabled terms, runs per directory and directory orders on the real code; log files read back with TensorBoard's own reader and compared with the values computed from the word"
RULE = (
    "the aggregator is driven along every word over an alphabet of losses for every subset of enabled terms with the real TensorBoard writer, and the resulting file is compared record by record with the "
    "reference; real calibrations are run one after another into one directory, each log is compared with the recorded history of its run - read at the moment calibration returns, with the writer "
    "thread slowed down - and earlier logs byte by byte with what they were; the plots are made for every run number under every order in which the directory may be listed. A state is (enabled terms, word) or (runs so far, listing order, run number)."
)
BOUNDS = "words of length <= 2 over 6 letters (thorough: 3) for all 16 subsets of enabled terms, length <= 4 over {a,b} with all terms, and periodic words of up to 130 evaluations; 1..4 runs in one directory (12 in the same second), all listing orders of up to 4 logs and three of 12; Adam and LBFGS, constant, Mann and network lifetimes"
ASSUMPTIONS = ["values are stored in single precision (relative tolerance 1e-6)", "the system clock does not run backwards between runs"]
TAGS = {"mse": "MSE Loss", "pen1": "1st Order Penalty", "pen2": "2nd Order Penalty", "regularization": "Regularization", "coherence": "Coherence Loss/Total"}
RATIO = {"mse": "Component_Ratios/MSE", "coherence": "Component_Ratios/Coherence", "regularization": "Component_Ratios/Regularization"}


def read(f):
    """tag -> [(step, value)] in file order."""
    from tensorboard.backend.event_processing.event_file_loader import EventFileLoader
    from tensorboard.util import tensor_util

    out = {}
    for ev in EventFileLoader(f).Load():
        for v in ev.summary.value if ev.HasField("summary") else ():
            x = v.simple_value if v.HasField("simple_value") else float(tensor_util.make_ndarray(v.tensor))
            out.setdefault(v.tag, []).append((ev.step, x))
    return out


def same(got, want, what):
    require(sorted(got) == sorted(want), f"{what}: recorded terms", got=sorted(got), want=sorted(want))
    for t, w in want.items():
        g = got[t]
        require([s for s, _ in g] == [s for s, _ in w], f"{what}: evaluation numbers of {t}", got=[s for s, _ in g][:12], want=[s for s, _ in w][:12])
        a, b = np.array([x for _, x in g]), np.array([x for _, x in w])
        require(np.all(np.abs(a - b) <= 2e-6 * np.abs(b) + 1e-12), f"{what}: values of {t}", got=a[:6], want=b[:6])


def expected(hist, steps, coef, parts):
    """Records of a history of (weighted) terms; parts: the three unweighted coherence misfits of every evaluation."""
    want, avg = {}, None
    for h, s, c in zip(hist, steps, parts):
        for k, tag in TAGS.items():
            if k == "mse" or coef[k]:
                want.setdefault(tag, []).append((s, h[k]))
        if coef["coherence"]:
            for n, x in zip("UVW", c):
                want.setdefault(f"Coherence Loss/{n}-component", []).append((s, x))
        avg = dict(h) if avg is None else {k: 0.9 * avg[k] + 0.1 * h[k] for k in h}
        tot = sum(avg.values())
        if s > 0 and tot > 0:
            for k, tag in RATIO.items():
                want.setdefault(tag, []).append((s, avg[k] / tot))
            want.setdefault("Component_Ratios/Penalties", []).append((s, (avg["pen1"] + avg["pen2"]) / tot))
    return want


def wait_flush(agg):
    w = getattr(agg, "writer", None)
    if hasattr(w, "flush"):
        w.flush()
    else:
        time.sleep(1.0)


def words(ck, on, ws, d, size=(0.5, 0.25, 2.0, 1.5)):
    """Every word with the given terms enabled (coefficients all different)."""
    from drdmannturb import LossAggregator, LossParameters

    coef = dict(zip(("pen1", "pen2", "regularization", "coherence"), (c if o else 0.0 for c, o in zip(size, on))), mse=1.0)
    for w in ws:
        sub = os.path.join(d, w)
        agg = LossAggregator(LossParameters(alpha_pen1=coef["pen1"], alpha_pen2=coef["pen2"], beta_reg=coef["regularization"], gamma_coherence=coef["coherence"]), torch.tensor(np.exp(LK)), 1.0, tb_log_dir=sub)
        hist, parts = [], []
        for i, c in enumerate(w):
            (y, data, th, cd), v = inputs(c)
            # three different misfits whose mean is the letter's
            m = [v["coherence"] * f for f in (0.5, 0.75, 1.75)]
            for n, x in zip("uvw", m):
                cd[f"model_{n}"] = torch.tensor(cd[f"data_{n}"] + np.sqrt(x))
            agg.eval(y, data, th, i, coherence_data=cd)
            hist.append({k: coef[k] * x for k, x in v.items()})
            parts.append(m)
            ck.step()
        wait_flush(agg)
        fs = os.listdir(sub)
        require(len(fs) == 1, f"{w}: one log file", got=fs)
        same(read(os.path.join(sub, fs[0])), expected(hist, range(len(w)), coef, parts), f"{w} with {on}")
        ck.state(on, w)
        ck.outcome(on, tuple(round(sum(h.values()), 6) for h in hist))
        close = getattr(getattr(agg, "writer", None), "close", None)
        if close:
            close()


class Slow:
    """Slows the writer thread down, so that only an explicit wait makes the log complete."""

    def __enter__(self):
        from tensorboard.summary.writer.record_writer import RecordWriter

        self.cls, self.real = RecordWriter, RecordWriter.write
        real = self.real

        def write(s, data):
            time.sleep(0.01)
            return real(s, data)

        RecordWriter.write = write

    def __exit__(self, *a):
        self.cls.write = self.real


K1 = torch.logspace(-1.0, 1.0, 4, dtype=torch.float64)


def calibrated(pb, ncomp, opt, slow):
    import contextlib

    data = {"k1": K1, "ops": drd.ops_tensor(4, 1)}
    with Slow() if slow else contextlib.nullcontext():
        pb.calibrate(data, optimizer_class=opt)


def fit(ck, d, eddy, epochs, coef, opt, seed, slow):
    from drdmannturb import LossParameters

    torch.manual_seed(seed)
    pb = drd.make_problem(eddy=eddy, width=3, layers=1, integration=ip(1), nepochs=epochs, tol=1e-16, learning_rate=0.05 + 0.01 * seed, num_components=3, loss=LossParameters(**coef), wolfe_iter_count=2)
    pb.logging_directory = d
    return pb


def run_logs(ck, d, spec, opt):
    """Runs one after another into one directory."""
    before, order, series = {}, [], []
    for i, (eddy, epochs, coef) in enumerate(spec):
        pb = fit(ck, d, eddy, epochs, coef, opt, i, True)
        calibrated(pb, 3, opt, True)
        names = set(os.listdir(d))
        new = names - set(before)
        require(len(new) == 1, f"run {i}: one new log", got=sorted(new))
        f = os.path.join(d, new.pop())
        h = pb.LossAggregator.component_losses
        hist = [dict(zip(TAGS, t)) for t in zip(*(h[k] for k in TAGS))]
        n = len(hist)
        c = dict(mse=1.0, pen1=coef.get("alpha_pen1"), pen2=coef.get("alpha_pen2"), regularization=coef.get("beta_reg") and eddy == "TAUNET", coherence=0)
        got = read(f)
        same(got, expected(hist, [0] + list(range(n - 1)), c, [()] * n), f"run {i} when calibration returned")
        for g, b in before.items():
            require(open(os.path.join(d, g), "rb").read() == b, f"run {i}: the log of an earlier run changed")
        before = {g: open(os.path.join(d, g), "rb").read() for g in os.listdir(d)}
        order.append(os.path.basename(f))
        series.append(got)
        ck.step(n)
        ck.state("runs", opt.__name__, [e for e, _, _ in spec[: i + 1]], n)
    return order, series


class Listing:
    """os.listdir answers in the given order for one directory."""

    def __init__(self, d, perm):
        self.d, self.perm = os.path.realpath(d), perm

    def __enter__(self):
        self.real = os.listdir
        real = self.real

        def listdir(p="."):
            r = real(p)
            if os.path.realpath(p) == self.d:
                r = sorted(r, key=lambda n: self.perm.index(n))
            return r

        os.listdir = listdir

    def __exit__(self, *a):
        os.listdir = self.real


def shown(fn):
    """The panels of the figure that fn makes: title -> data of its curve."""
    import matplotlib.pyplot as plt

    plt.close("all")
    real, plt.show = plt.show, lambda *a, **k: None
    try:
        with no_render():
            fn()
        require(len(plt.get_fignums()) == 1, "one figure", got=plt.get_fignums())
        out = {}
        for ax in plt.gcf().axes:
            require(ax.get_title() not in out and len(ax.lines) == 1, "one panel per term with one curve", got=ax.get_title())
            out[ax.get_title()] = np.asarray(ax.lines[0].get_ydata(), dtype=float)
        return out
    finally:
        plt.show = real
        plt.close("all")


def panels(got, series, what):
    require(sorted(got) == sorted(series), f"{what}: one panel per recorded term", got=sorted(got), want=sorted(series))
    for t, y in got.items():
        full = np.array([v for _, v in series[t]])
        require(len(full) - 2 <= len(y) <= len(full), f"{what}: length of {t}", got=len(y), want=len(full))
        require(np.array_equal(y, full[len(full) - len(y) :]), f"{what}: the curve of {t} is the recorded series", got=y[:4], want=full[-len(y) :][:4] if len(y) else [])


def plots(ck, d, spec, opt, perms):
    order, series = run_logs(ck, d, spec, opt)
    pb = fit(ck, d, "CONST", 1, {}, opt, 0, False)
    for perm in perms(order):
        for i in range(len(order)):
            with Listing(d, list(perm)):
                got = shown(lambda: pb.plot_losses(run_number=i))
            panels(got, series[i], f"run {i} listed as {[order.index(p) for p in perm]}")
            ck.step()
            ck.state("plot", opt.__name__, len(order), [order.index(p) for p in perm], i)
            ck.outcome(tuple(sorted(got)))


def logfile(ck, d, word, on, as_path):
    """The plot of a single log file given as a string or a path."""
    from drdmannturb import LossAggregator, LossParameters, plot_loss_logs

    agg = LossAggregator(LossParameters(**on), torch.tensor(np.exp(LK)), 1.0, tb_log_dir=d)
    for i, c in enumerate(word):
        (y, data, th, cd), v = inputs(c)
        agg.eval(y, data, th, i, coherence_data=cd)
    wait_flush(agg)
    f = os.path.join(d, os.listdir(d)[0])
    got = shown(lambda: plot_loss_logs(pathlib.Path(f) if as_path else f))
    panels(got, read(f), f"{word} {sorted(on)}")
    ck.step(len(word))
    ck.state("file", word, sorted(on), as_path)


def same_second(ck, d, n):
    """Many short runs within a second: the counter in the file name passes ten."""
    order = []
    for i in range(n):
        pb = fit(ck, d, "CONST", 1, {}, torch.optim.Adam, i, False)
        calibrated(pb, 3, torch.optim.Adam, False)
        order += sorted(set(os.listdir(d)) - set(order))
        require(len(order) == i + 1, f"run {i}: one new log", got=len(order))
    series = [read(os.path.join(d, f)) for f in order]
    for perm in (order, order[::-1], sorted(order)):
        for i in range(n):
            with Listing(d, list(perm)):
                got = shown(lambda: pb.plot_losses(run_number=i))
            panels(got, series[i], f"run {i} of {n}")
            ck.step()
            ck.state("second", n, [order.index(p) for p in perm], i)


def numbered(ck, d, start, n, step, host):
    """Logs named as TensorBoard names them, the counter passing a power of ten; their dates agree with their names."""
    from drdmannturb import LossAggregator, LossParameters

    letters = "".join(ALPHABET)
    order, series = [], []
    pb = fit(ck, d, "CONST", 1, {}, torch.optim.Adam, 0, False)
    pb.logging_directory = out = os.path.join(d, "out")
    os.makedirs(out)
    for i in range(n):
        sub = os.path.join(d, str(i))
        agg = LossAggregator(LossParameters(), torch.tensor(np.exp(LK)), 1.0, tb_log_dir=sub)
        for j, c in enumerate((letters[i % len(letters) :] + letters)[: 2 + i % 5]):
            (y, data, th, cd), v = inputs(c)
            agg.eval(y, data, th, j)
        wait_flush(agg)
        close = getattr(getattr(agg, "writer", None), "close", None)
        if close:
            close()
        t = 1700000000 + (i * step) // n
        name = f"events.out.tfevents.{t}.{host}.4242.{start + i}"
        os.rename(os.path.join(sub, os.listdir(sub)[0]), os.path.join(out, name))
        os.utime(os.path.join(out, name), (t + 0.01 * i, t + 0.01 * i))
        order.append(name)
        series.append(read(os.path.join(out, name)))
        ck.step()
    for perm in (order, order[::-1], sorted(order), order[::2] + order[1::2])[:: 1 if ck.thorough else 2]:
        for i in range(n):
            with Listing(out, list(perm)):
                got = shown(lambda: pb.plot_losses(run_number=i))
            panels(got, series[i], f"run {i} of {n} from {start}")
            ck.state("numbered", start, n, step, host, [order.index(p) for p in perm], i)


def tiny(ck, d, m):
    """Losses of any magnitude: the shares are still written."""
    from drdmannturb import LossAggregator, LossParameters

    agg = LossAggregator(LossParameters(alpha_pen1=0.5 * m, gamma_coherence=m), torch.tensor(np.exp(LK)), 1.0, tb_log_dir=d)
    coef = dict(mse=1.0, pen1=0.5 * m, pen2=0.0, regularization=0.0, coherence=m)
    hist, parts = [], []
    for i, c in enumerate("abcab"):
        (y, data, th, cd), v = inputs(c)
        data = y * math.exp(-math.sqrt(v["mse"] * m))
        agg.eval(y, data, th, i, coherence_data=cd)
        v = dict(v, mse=v["mse"] * m)
        hist.append({k: coef[k] * u for k, u in v.items()})
        parts.append([v["coherence"]] * 3)
    wait_flush(agg)
    got = read(os.path.join(d, os.listdir(d)[0]))
    want = expected(hist, range(5), coef, parts)
    require(sorted(got) == sorted(want), f"losses of {m}: recorded terms", got=sorted(got), want=sorted(want))
    for t, w in want.items():
        require([s for s, _ in got[t]] == [s for s, _ in w], f"losses of {m}: evaluation numbers of {t}")
        a, b = np.array([x for _, x in got[t]]), np.array([x for _, x in w])
        require(np.all(np.abs(a - b) <= 1e-5 * np.abs(b) + 1e-14), f"losses of {m}: values of {t}", got=a, want=b)
    ck.step(5)
    ck.state("tiny", m)


def again(ck, d, eddy, opt, n):
    """The same problem calibrated several times: every run starts its own log at evaluation zero."""
    pb = fit(ck, d, eddy, 3, dict(alpha_pen1=0.2), opt, 1, False)
    old = set()
    for i in range(n):
        calibrated(pb, 3, opt, False)
        new = set(os.listdir(d)) - old
        require(len(new) == 1, f"calibration {i}: one new log", got=sorted(new))
        old |= new
        h = pb.LossAggregator.component_losses
        hist = [dict(zip(TAGS, t)) for t in zip(*(h[k] for k in TAGS))]
        c = dict(mse=1.0, pen1=0.2, pen2=0, regularization=0, coherence=0)
        same(read(os.path.join(d, new.pop())), expected(hist, [0] + list(range(len(hist) - 1)), c, [()] * len(hist)), f"calibration {i} of one problem")
        ck.step(len(hist))
        ck.state("again", eddy, opt.__name__, i)


SPEC = [
    ("CONST", 3, {}),
    ("TAUNET", 4, dict(alpha_pen1=0.5, beta_reg=0.3)),
    ("MANN", 3, dict(alpha_pen1=0.2, alpha_pen2=0.4)),
    ("TAUNET", 5, dict(beta_reg=0.1)),
]


def run(ck):
    torch.set_default_dtype(torch.float64)
    import matplotlib

    matplotlib.use("Agg")
    letters = "".join(ALPHABET)
    short = ["".join(p) for n in ((1, 2, 3) if ck.thorough else (1, 2)) for p in itertools.product(letters, repeat=n)]
    dirs = itertools.count()

    def d():
        p = os.path.join(ck.scratch, f"tb{next(dirs)}-{os.getpid()}")
        os.makedirs(p)
        return p

    for on in itertools.product((0, 1), repeat=4):
        for c in letters:
            ck.case(f"words/{''.join(map(str, on))}/{c}", lambda *a: words(*a, d()), ck, on, [w for w in short if w[0] == c])
    # every coefficient small and large on its own and with the others
    for j, big, on in itertools.product(range(4), (1e-3, 7.0, 60.0), ((1, 1, 1, 1), None)):
        on = on or tuple(int(i == j) for i in range(4))
        size = tuple(big if i == j else s for i, s in enumerate((0.5, 0.25, 2.0, 1.5)))
        ck.case(f"size/{j}/{big}/{on}", lambda ck, on, size: words(ck, on, [letters[:2], letters[1:]], d(), size), ck, on, size)
    for a, b in itertools.product("ab", repeat=2):
        ck.case(f"long/{a}{b}", lambda *x: words(*x, d()), ck, (1, 1, 1, 1), [a + b + x + y for x, y in itertools.product("ab", repeat=2)])
    for n in (11, 40, 101, 130):
        ck.case(f"length/{n}", lambda *x: words(*x, d()), ck, (1, 1, 1, 1), [(letters * n)[:n]])
        ck.case(f"length/{n}/some", lambda *x: words(*x, d()), ck, (0, 1, 0, 1), [("ab" * n)[:n]])
    for opt in (torch.optim.Adam, torch.optim.LBFGS):
        for n in (1, 2, 3, 4):
            for s in {1: [[x] for x in SPEC], 2: [SPEC[i : i + 2] for i in range(3)], 3: [SPEC[:3], SPEC[1:]], 4: [SPEC]}[n]:
                if opt is torch.optim.LBFGS and n > 2 and not ck.thorough:
                    continue
                ck.case(f"plots/{opt.__name__}/{n}/{SPEC.index(s[0])}", lambda *x: plots(ck, d(), *x), s, opt, itertools.permutations)
    for w in ("a", "z", "ab", "abc", "abcde"):
        for on in ({}, dict(alpha_pen1=0.5), dict(gamma_coherence=1.5, beta_reg=1.0)):
            for p in (False, True):
                ck.case(f"file/{w}/{sorted(on)}/{p}", lambda *x: logfile(ck, d(), *x), w, on, p)
    hosts = ("box", "node10.site-2", "a.9.b")
    for start, step, host in itertools.product((0, 5, 95, 995, 9995), (1, 3, 40), hosts) if ck.thorough else ((5, 1, hosts[0]), (95, 1, hosts[1]), (9995, 3, hosts[0]), (0, 40, hosts[2]), (995, 1, hosts[2])):
        ck.case(f"numbered/{start}/{step}/{host}", lambda *a: numbered(ck, d(), *a), start, 12, step, host)
    for m in (1e-2, 1e-4, 1e-6, 1e-8, 1e2):
        ck.case(f"tiny/{m}", lambda *a: tiny(ck, d(), *a), m)
    for e, o in itertools.product(("CONST", "TAUNET"), (torch.optim.Adam, torch.optim.LBFGS)):
        ck.case(f"again/{e}/{o.__name__}", lambda *a: again(ck, d(), *a), e, o, 3)
    ck.case("second/12", lambda: same_second(ck, d(), 12))
