"""C31: the low-frequency studies report the runs they made."""
import concurrent.futures as cf
import contextlib
import copy
import io
import itertools
import re
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

import drdmannturb.fluctuation_generation.low_frequency.large_plot as lp
from checks.c27 import no_render
from lib.mc import close_rel, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of sweep ranges, realisation counts, completion orders of the runs and subsets of failing runs on the real study code; every realisation drawn is recorded and the returned values, printed tables and figures are recomputed from the record"
RULE = (
    "the studies run on the real generator, whose constructor and generate() are wrapped to record every configuration asked for and every field returned (and, for the fixed sweeps of the studies, to use fewer points); "
    "the process pool is replaced by one that delivers the runs in every order with every subset of them failing; a state is (study, sweep, realisations, completion order, failing subset)."
)
BOUNDS = "single runs: 6 (4) sweep values x 5 base configurations x 1..4 realisations; sweeps of up to 4 runs in every completion order with every subset failing, and the default sweeps; anisotropy: every ordered selection of up to 3 of 5 angles x 1..3 realisations x figure on/off; full fixed sweeps of the grid and rectangle studies for 1..3 realisations; figure-2 comparison for 1..4 realisations"
ASSUMPTIONS = ["worker processes are replaced by in-process runs delivered in a chosen order (operating-system process failures other than an exception are not explored)", "spectra and fields themselves are C12, C13"]

G = lp.ffg.LowFreqGenerator
BASE = dict(sigma2=0.6, L_2d=10.0, psi=0.7, z_i=2.0, L1_factor=2.0, L2_factor=1.0, exp1=3, exp2=3)
BASES = [
    BASE,
    dict(BASE, L_2d=15000.0, z_i=500.0, L1_factor=6, L2_factor=6, sigma2=2.0),
    dict(BASE, L1_factor=0.5, L2_factor=0.25, exp1=2, exp2=2),
    dict(BASE, psi=1.2, L1_factor=5, L2_factor=5, exp1=4, exp2=4),
    dict(BASE, L1_factor=7.0, L2_factor=7.0, exp1=2, exp2=3, sigma2=30.0),
]


@contextlib.contextmanager
def recording(shift=0, fails=None):
    """Wrap the generator: record configurations and realisations; use 2**shift times fewer points per direction."""
    log = []
    init0, gen0 = G.__init__, G.generate
    names = list(G.__init__.__code__.co_varnames)

    def init(self, config, *a, **k):
        rec = dict(config=dict(config), runs=[], gen=self)
        log.append(rec)
        if fails is not None and fails(config):
            raise RuntimeError("planned failure of this run")
        small = dict(config)
        for e in ("exp1", "exp2") if shift else ():
            small[e] = max(2, int(config[e]) - shift)
        init0(self, small, *a, **k)
        self.config = config
        self._rec = rec

    def generate(self, *a, **k):
        out = gen0(self, *a, **k)
        self._rec["runs"].append(tuple(np.array(x) for x in (*out, self.u1_full, self.u2_full)))
        return out

    assert names[1] == "config"
    G.__init__, G.generate = init, generate
    show = plt.show
    plt.show = lambda *a, **k: None
    plt.close("all")
    try:
        with warnings.catch_warnings(), no_render():
            warnings.simplefilter("ignore")
            yield log
    finally:
        plt.show = show
        G.__init__, G.generate = init0, gen0
        plt.close("all")


class Pool:
    """Stands in for a process pool: runs are executed at submission, delivered by as_completed in the chosen order."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def shutdown(self, *a, **k):
        pass

    def submit(self, fn, *a, **k):
        f = cf.Future()
        try:
            # arguments cross a process boundary: the run works on its own copy
            f.set_result(fn(*copy.deepcopy(a), **copy.deepcopy(k)))
        except Exception as e:
            f.set_exception(e)
        return f

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)


@contextlib.contextmanager
def pool(order):
    keep = cf.ProcessPoolExecutor, cf.as_completed, cf.wait

    def as_completed(fs, timeout=None):
        fs = list(fs)
        return iter([fs[i] for i in order] if order is not None and len(order) == len(fs) else fs)

    cf.ProcessPoolExecutor, cf.as_completed = Pool, as_completed
    cf.wait = lambda fs, *a, **k: (set(fs), set())
    try:
        yield
    finally:
        cf.ProcessPoolExecutor, cf.as_completed, cf.wait = keep


def out_of(fn, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fn(*a, **k)
    return r, buf.getvalue()


def figures():
    return [plt.figure(n) for n in plt.get_fignums()]


def xy(ax, label):
    found = [ln for ln in ax.get_lines() if ln.get_label() == label]
    require(len(found) == 1, f"one curve {label!r}", got=[ln.get_label() for ln in ax.get_lines()])
    return np.asarray(found[0].get_xdata(), float), np.asarray(found[0].get_ydata(), float)


def curve(ax, label, x, y, what):
    gx, gy = xy(ax, label)
    close_rel(gx, x, f"{what}: abscissae of {label}", rtol=1e-9)
    close_rel(gy, y, f"{what}: {label}", rtol=1e-9)


def same_config(got, want, what):
    require(set(got) == set(want), f"{what}: configuration keys", got=sorted(got), want=sorted(want))
    for k in want:
        require(got[k] == want[k] or abs(got[k] - want[k]) <= 1e-12 * abs(want[k]), f"{what}: configuration entry {k}", got=got[k], want=want[k])


def mean_stats(rec):
    """norm and variance of the mean of the realisations, and mean of the variances."""
    g = rec["gen"]
    out = []
    for c in (0, 1):
        m = np.mean([r[c] for r in rec["runs"]], axis=0)
        out.append((np.sum(m**2) * g.user_dx * g.user_dy, np.var(m)))
    (n1, v1), (n2, v2) = out
    return n1, n2, v1, v2


def vars_of(rec, i):
    return np.array([np.var(r[i]) for r in rec["runs"]])


# ---- single runs -------------------------------------------------------------------------------
def single(ck, which, value, base, n):
    fn, keys = (lp._run_single_mesh, ("exp1", "exp2")) if which == "mesh" else (lp._run_single_domain_size, ("L1_factor", "L2_factor"))
    cfg = dict(base)
    with recording() as log:
        r, _ = out_of(fn, value, cfg, n) if n != 5 else out_of(fn, value, cfg)
        what = f"{which} run {value} x{n}"
        require(cfg == base, f"{what}: the configuration passed was changed", got=cfg, want=base)
        require(len(log) == 1 and len(log[0]["runs"]) == n, f"{what}: one generator, {n} realisations", got=[len(x["runs"]) for x in log])
        same_config(log[0]["config"], dict(base, **{k: value for k in keys}), what)
        want = [value, *mean_stats(log[0])] + ([base["L_2d"] * value] if which == "size" else [])
        require(len(r) == len(want), f"{what}: entries returned", got=r)
        close_rel(np.array(r, float), np.array(want, float), what, rtol=1e-9)
    ck.step(n)
    ck.state("single", which, value, canon_cfg(base), n)
    ck.outcome([round(float(x), 6) for x in r])


def canon_cfg(c):
    return tuple(sorted((k, float(v)) for k, v in c.items()))


# ---- sweeps over the process pool --------------------------------------------------------------
def sweep(ck, which, values, order, failing, shift):
    key = ("exp1", "exp2") if which == "mesh" else ("L1_factor", "L2_factor")
    bad = {float(values[i]) for i in failing}
    with recording(shift, lambda c: float(c[key[0]]) in bad) as log, pool(order):
        if which == "mesh":
            out_of(lp.mesh_independence_study, int(values[0]), int(values[-1]))
        elif values is DEFAULT:
            out_of(lp.domain_size_study)
        else:
            out_of(lp.domain_size_study, values)
        what = f"{which} study {[float(v) for v in values]} order {order} failing {failing}"
        require(sorted(float(r["config"][key[0]]) for r in log) == sorted(map(float, values)), f"{what}: runs made", got=[r["config"][key[0]] for r in log])
        for r in log:
            same_config(r["config"], dict(log[0]["config"], **{k: r["config"][key[0]] for k in key}), what)
        good = sorted((r for r in log if r["runs"]), key=lambda r: float(r["config"][key[0]]))
        require(len(good) == len(values) - sum(float(v) in bad for v in values), f"{what}: completed runs", got=len(good))
        require(len({len(r["runs"]) for r in good}) <= 1, f"{what}: the same number of realisations in every run")
        figs = figures()
        require(len(figs) == (1 if good else 0), f"{what}: figures", got=len(figs))
        if good:
            stats = np.array([mean_stats(r) for r in good])
            x = np.array([float(r["config"][key[0]]) * (1 if which == "mesh" else r["config"]["L_2d"] / 1000) for r in good])
            a1, a2 = figs[0].axes
            for ax, c in ((a1, 0), (a2, 2)):
                curve(ax, "u1", x, stats[:, c], what)
                curve(ax, "u2", x, stats[:, c + 1], what)
            require(a2.get_yscale() == ("log" if which == "mesh" else "linear"), f"{what}: scale of the variance axis")
            if which == "size":
                _, y = xy(a2, "Target σ²")
                close_rel(np.unique(y), np.array([good[0]["config"]["sigma2"]]), f"{what}: target", rtol=1e-12)
    ck.step(len(values))
    ck.state("sweep", which, tuple(map(float, values)), order, failing)


DEFAULT = tuple(range(1, 17))


# ---- comparison with the theoretical spectra ---------------------------------------------------
def generator(case, seed):
    return G(dict(CMP[case]), seed=seed)


CMP = [
    dict(BASE, exp1=3, exp2=2, sigma2=600.0),
    dict(BASE, L1_factor=6, L2_factor=5.5, exp1=4, exp2=3, psi=1.1, sigma2=90.0),
    dict(BASE, L_2d=15000.0, z_i=500.0, L1_factor=1, L2_factor=0.125, exp1=3, exp2=2, sigma2=2000.0),
    dict(BASE, exp1=1, exp2=1, sigma2=600.0),
]


def number(text, label, what, tol):
    m = re.findall(re.escape(label) + r"\s*:?\s*([-+0-9.e]+|nan)", text)
    require(len(m) == 1, f"{what}: one line {label!r}", got=m)
    return float(m[0])


def printed(text, label, want, what, tol=6e-5):
    got = number(text, label, what, tol)
    require(abs(got - want) <= tol + 1e-9 * abs(want), f"{what}: printed {label}", got=got, want=float(want))


def comparison(ck, case, hist):
    g = generator(case, 3)
    what = f"comparison {case} after {hist} fields"
    with recording():
        g._rec = dict(runs=[])
        for _ in range(hist):
            g.generate()
        before = g.u1.copy(), g.u2.copy()
        _, text = out_of(lp.plot_spectra_comparison, g)
        require(np.array_equal(before[0], g.u1) and np.array_equal(before[1], g.u2), f"{what}: the fields changed")
        k, *num = g.compute_spectrum()
        ana = g.analytical_spectrum(k)
        figs = figures()
        require(len(figs) == 1 and len(figs[0].axes) == 2, f"{what}: two panels")
        for c, ax in enumerate(figs[0].axes):
            n = f"{c + 1}{c + 1}"
            curve(ax, f"Numerical k1*F{n}", k * g.L_2d, k * num[c], what)
            curve(ax, f"Analytical k1*F{n}", k * g.L_2d, k * ana[c], what)
            require(ax.get_xscale() == ax.get_yscale() == "log", f"{what}: logarithmic axes")
            u = (g.u1, g.u2)[c]
            printed(text, f"Variance u{c + 1} (Actual)", np.var(u), what)
            if len(k) > 1:
                # both signs of k1; the highest wavenumber of an even grid has one only
                dk = k[1] - k[0]
                got = number(text, f"Variance u{c + 1} (From F{n}_num)", what, 0)
                lo, hi = 2 * np.sum(num[c][:-1]) * dk + num[c][-1] * dk, 2 * np.sum(num[c]) * dk
                require(min(lo, hi) * (1 - 1e-9) - 6e-5 <= got <= max(lo, hi) * (1 + 1e-9) + 6e-5, f"{what}: printed variance of F{n}", got=got, want=(lo, hi))
    ck.step(hist)
    ck.state("comparison", case, hist)


def figure2(ck, a, b, n, plot):
    what = f"figure 2 of {a} and {b}, {n} realisations"
    gens = generator(a, 5), generator(b, 6)
    twins = generator(a, 5), generator(b, 6)
    with recording():
        for g in (*gens, *twins):
            g._rec = dict(runs=[])
        _, text = out_of(lp.recreate_fig2, *gens, n, plot) if n != 10 else out_of(lp.recreate_fig2, *gens)
        require(all(len(g._rec["runs"]) == n for g in gens), f"{what}: realisations drawn", got=[len(g._rec["runs"]) for g in gens])
        want = []
        for t, lim in zip(twins, ((-1, 3), (0.5, 4.5))):
            sp = []
            for _ in range(n):
                t.generate()
                k, *f = t.compute_spectrum()
                sp.append(f)
            kt = np.logspace(*lim, 500) / t.L_2d
            tgt = t.analytical_spectrum(kt)
            f = np.mean(sp, axis=0)
            want.append(dict(k=k * t.L_2d, num=[k * x for x in f], kt=kt * t.L_2d, tgt=[kt * x for x in tgt]))
        figs = figures()
        require(len(figs) == (1 if plot else 0), f"{what}: figures", got=len(figs))
        if plot:
            require(len(figs[0].axes) == 4, f"{what}: four panels")
            for i, (row, c) in enumerate(itertools.product((0, 1), (0, 1))):
                w = want[row]
                curve(figs[0].axes[i], "target", w["kt"], w["tgt"][c], f"{what}: panel {i}")
                curve(figs[0].axes[i], "numerical", w["k"], w["num"][c], f"{what}: panel {i}")
        parts = re.split(r"--- CASE \((.)\) ---", text)
        require(len(parts) == 5, f"{what}: two printed tables")
        for w, body, at in ((want[0], parts[2], (0.1, 1.0, 10.0)), (want[1], parts[4], (10.0, 100.0, 1000.0))):
            rows = re.findall(r"(Target|Numerical)\s+\(k1L=([-0-9.e+]+)\): k1F11=([-0-9.e+]+), k1F22=([-0-9.e+]+)", body)
            expect = []
            for v in at:
                for nm, kk, ff in (("Target", w["kt"], w["tgt"]), ("Numerical", w["k"], w["num"])):
                    i = int(np.argmin(np.abs(kk - v)))
                    expect.append((nm, kk[i], ff[0][i], ff[1][i]))
            require(len(rows) == len(expect), f"{what}: rows of the table", got=rows)
            for g_, e in zip(rows, expect):
                ok = g_[0] == e[0] and all(abs(float(x) - y) <= 6e-4 + 1e-9 * abs(y) if j == 0 else abs(float(x) - y) <= 6e-5 + 1e-9 * abs(y) for j, (x, y) in enumerate(zip(g_[1:], e[1:])))
                require(ok, f"{what}: row of the table", got=g_, want=e)
            peaks = re.findall(r"(Target|Numerical)\s*: ([-0-9.e+]+) at k1L=([-0-9.e+]+)", body)
            expect = [(nm, np.max(f), kk[int(np.argmax(f))]) for c in (0, 1) for nm, kk, f in (("Target", w["kt"], w["tgt"][c]), ("Numerical", w["k"], w["num"][c]))]
            require(len(peaks) == len(expect), f"{what}: peaks printed", got=peaks)
            for g_, e in zip(peaks, expect):
                require(g_[0] == e[0] and abs(float(g_[1]) - e[1]) <= 6e-5 and abs(float(g_[2]) - e[2]) <= 6e-4 * max(1, abs(e[2]) * 1e-6), f"{what}: peak", got=g_, want=e)
    ck.step(2 * n)
    ck.state("figure2", a, b, n, plot)


# ---- fixed sweeps ------------------------------------------------------------------------------
def grids(ck, base, n, plot):
    what = f"grid and domain study x{n}"
    cfg = dict(base)
    with recording(5) as log:
        _, text = out_of(lp.length_AND_grid_size_study, cfg, plot, n)
        require(cfg == base, f"{what}: the configuration passed was changed", got=cfg)
        exps, facs = sorted({int(r["config"]["exp1"]) for r in log}), sorted({r["config"]["L1_factor"] for r in log})
        table = {}
        for r in log:
            e, f = int(r["config"]["exp1"]), r["config"]["L1_factor"]
            same_config(r["config"], dict(base, exp1=e, exp2=e, L1_factor=f, L2_factor=f), what)
            require(len(r["runs"]) == n and (e, f) not in table, f"{what}: every combination once with {n} realisations", got=len(r["runs"]))
            table[e, f] = vars_of(r, 0).mean(), vars_of(r, 1).mean()
        require(exps == [7, 8, 9, 10, 11] and facs == list(range(2, 21, 2)) and len(table) == 50, f"{what}: combinations", got=(exps, facs, len(table)))
        blocks = re.split(r"Combination \d+/\d+: ", text)[1:]
        seen = set()
        for b in blocks:
            m = re.match(r"Grid=(\d+)x(\d+), Domain factor=(\S+)", b)
            require(m is not None and m[1] == m[2], f"{what}: heading", got=b[:60])
            key = int(m[1]).bit_length() - 1, int(float(m[3]))
            seen.add(key)
            v1, v2 = table[key]
            for label, v in (("Avg u1 variance", v1), ("Avg u2 variance", v2), ("Avg Total variance", v1 + v2)):
                printed(b, label, v, f"{what} at {key}", tol=6e-7)
        require(seen == set(table), f"{what}: combinations printed", got=len(seen))
        figs = figures()
        require(len(figs) == (3 if plot else 0), f"{what}: figures", got=len(figs))
        for c, fig in enumerate(figs):
            ax = fig.axes[0]
            im = ax.get_images()[0]
            want = np.array([[(*table[e, f], sum(table[e, f]))[c] for f in facs] for e in exps])
            close_rel(np.asarray(im.get_array(), float), want, f"{what}: heat map {c}", rtol=1e-9)
            require([t.get_text() for t in ax.get_xticklabels()] == [str(f) for f in facs], f"{what}: column labels")
            require([t.get_text().split()[0] for t in ax.get_yticklabels()] == [f"2^{e}" for e in exps], f"{what}: row labels")
            require(len(ax.texts) == want.size, f"{what}: values written in the cells", got=len(ax.texts))
            for t in ax.texts:
                x, y = t.get_position()
                v = want[int(round(y)), int(round(x))]
                require(abs(float(t.get_text()) - v) <= max(6e-4, 6e-3 * abs(v)) and (v >= 1e-3 or abs(float(t.get_text()) - v) <= 6e-3 * v), f"{what}: value written in cell {(x, y)}", got=t.get_text(), want=v)
            name = ("u1", "u2", "Total")[c]
            require(name in ax.get_title(), f"{what}: title of map {c}", got=ax.get_title())
    ck.step(50 * n)
    ck.state("grids", canon_cfg(base), n, plot)


PAIRS = [((16, 8), (11, 10)), ((16, 4), (11, 9)), ((8, 4), (11, 10)), ((8, 2), (12, 10)), ((4, 2), (11, 10)),
         ((2, 4), (10, 11)), ((2, 8), (10, 12)), ((4, 8), (10, 11)), ((4, 16), (10, 12)), ((8, 16), (10, 11))]


def rectangles(ck, base, n):
    what = f"rectangle study x{n}"
    cfg = dict(base)
    with recording(6) as log:
        _, text = out_of(lp.rectangular_domain_study, cfg, n)
        require(cfg == base, f"{what}: the configuration passed was changed", got=cfg)
        got = [((r["config"]["L1_factor"], r["config"]["L2_factor"]), (r["config"]["exp1"], r["config"]["exp2"])) for r in log]
        require(sorted(got) == sorted(PAIRS), f"{what}: configurations", got=got)
        blocks = re.split(r"L1_L2_factor: ", text)[1:]
        require(len(blocks) == len(PAIRS), f"{what}: blocks printed", got=len(blocks))
        for b in blocks:
            f, e = (tuple(int(x) for x in re.findall(r"\d+", s)) for s in re.match(r"(\(.*?\))\s+N1_N2_pair: (\(.*?\))", b).groups())
            require((f, e) in got, f"{what}: heading", got=(f, e))
            r = log[got.index((f, e))]
            same_config(r["config"], dict(base, L1_factor=f[0], L2_factor=f[1], exp1=e[0], exp2=e[1]), what)
            require(len(r["runs"]) == n, f"{what}: realisations", got=len(r["runs"]))
            v = [vars_of(r, i).mean() for i in range(4)]
            for label, w in (("Avg var u1", v[0]), ("Avg var u2", v[1]), ("Avg Total var", v[0] + v[1]),
                             ("Avg Full u1 var", v[2]), ("Avg Full u2 var", v[3]), ("Avg Full Total var", v[2] + v[3]), ("Target sigma2", base["sigma2"])):
                printed(b, label, w, f"{what} at {(f, e)}", tol=1e-9 * abs(w))
    ck.step(10 * n)
    ck.state("rectangles", canon_cfg(base), n)


# ---- anisotropy --------------------------------------------------------------------------------
def windows(v, n):
    return [v[i : i + n].mean() for i in range(len(v) - n + 1)]


def anisotropy(ck, base, angles, n, plot):
    what = f"anisotropy study {angles} x{n}"
    cfg = dict(base)
    with recording() as log:
        r, text = out_of(lp.anisotropy_study, cfg, list(angles), n, plot)
        require(cfg == base, f"{what}: the configuration passed was changed", got=cfg)
        by = {}
        for x in log:
            p = [a for a in angles if abs(np.deg2rad(a) - x["config"]["psi"]) < 1e-12]
            require(len(p) == 1, f"{what}: angle used", got=x["config"]["psi"])
            same_config(x["config"], dict(base, psi=np.deg2rad(p[0])), what)
            by.setdefault(p[0], []).extend(x["runs"])
        require(sorted(r) == sorted(angles), f"{what}: angles reported", got=list(r))
        tab = re.split(r"Processing Psi = ", text)[1:]
        for a in angles:
            runs = by[a]
            ok = [(v1, v2) for v1, v2 in zip(*(windows(np.array([np.var(x[c]) for x in runs]), n) for c in (0, 1)))]
            got = r[a]["avg_u1_var"], r[a]["avg_u2_var"]
            require(any(np.allclose(got, w, rtol=1e-9, atol=0) for w in ok), f"{what}: variances at {a}", got=got, want=ok)
            close_rel(r[a]["avg_total_var"], sum(got), f"{what}: total at {a}", rtol=1e-12)
            b = [t for t in tab if t.startswith(f"{a} ")]
            require(len(b) == 1, f"{what}: printed block of {a}")
            for label, v in (("Average var(u1)", got[0]), ("Average var(u2)", got[1]), ("Average var(Total)", sum(got))):
                printed(b[0], label, v, f"{what} at {a}")
        figs = figures()
        require(len(figs) == (1 if plot else 0), f"{what}: figures", got=len(figs))
        if plot:
            axes = [ax for ax in figs[0].axes if ax.get_images()]
            require(len(axes) == 2 * len(angles), f"{what}: panels", got=len(axes))
            lims, top = set(), 0.0
            for i, a in enumerate(angles):
                ims = [axes[2 * i + c].get_images()[0] for c in (0, 1)]
                data = [np.asarray(im.get_array(), float).T for im in ims]
                require(any(all(np.array_equal(d, x[c]) for c, d in enumerate(data)) for x in by[a]), f"{what}: the panels of {a} show one field generated at that angle")
                require(f"{a}" in axes[2 * i].get_ylabel(), f"{what}: label of row {i}", got=axes[2 * i].get_ylabel())
                l1, l2 = (base["L_2d"] * base[k] / 1000 for k in ("L1_factor", "L2_factor"))
                hx, hy = l1 / 2 ** base["exp1"] / 2, l2 / 2 ** base["exp2"] / 2
                for im in ims:
                    lims.add(im.get_clim())
                    require(im.origin == "lower", f"{what}: orientation")
                    close_rel(np.array(im.get_extent(), float), np.array([-hx, l1 - hx, -hy, l2 - hy]), f"{what}: extent", rtol=1e-9, atol=1e-12 * l1)
                top = max(top, *(np.max(np.abs(d)) for d in data))
            require(len(lims) == 1, f"{what}: one colour scale", got=lims)
            lo, hi = lims.pop()
            require(abs(lo + hi) <= 1e-12 * hi and abs(hi - top) <= 1e-9 * top, f"{what}: symmetric colour scale of the largest value", got=(lo, hi), want=top)
    ck.step(len(angles) * n)
    ck.state("anisotropy", canon_cfg(base), angles, n, plot)


def run(ck):
    for i, base in enumerate(BASES):
        for n in range(1, 5):
            for e in (1, 2, 3, 4, 5, 6) if i < 2 else (2, 4):
                ck.case(f"mesh/{i}/{e}/{n}", single, ck, "mesh", e, base, n)
            for f in (0.5, 1, 3, 5, 6.5, 8):
                ck.case(f"size/{i}/{f}/{n}", single, ck, "size", f, base, n)
    ck.case("mesh/default", single, ck, "mesh", 3, BASE, 5)
    ck.case("size/default", single, ck, "size", 2, BASE, 5)
    top = 5 if ck.thorough else 4
    for m in range(1, top):
        for order in itertools.permutations(range(m)):
            for bits in range(2**m):
                failing = tuple(i for i in range(m) if bits >> i & 1)
                if m == 4 and order != tuple(sorted(order)) and len(failing) not in (0, 1):
                    continue
                ck.case(f"mesh-study/{order}/{failing}", sweep, ck, "mesh", list(range(5, 5 + m)), order, failing, 3)
                for j, vals in enumerate(([1, 2, 6, 3.5][:m], [8, 0.5, 5, 2][:m])):
                    ck.case(f"size-study/{j}/{order}/{failing}", sweep, ck, "size", vals, order, failing, 6)
    ck.case("size-study/array", sweep, ck, "size", np.array([7, 2, 4]), (2, 0, 1), (), 6)
    ck.case("size-study/default", sweep, ck, "size", DEFAULT, tuple(range(15, -1, -1)), (3, 9), 5)
    ck.case("mesh-study/wide", sweep, ck, "mesh", list(range(4, 10)), (5, 1, 0, 3, 4, 2), (), 3)
    for case in range(len(CMP)):
        for h in (1, 2, 3):
            ck.case(f"comparison/{case}/{h}", comparison, ck, case, h)
    for a, b in ((0, 2), (1, 0), (1, 1), (2, 3)):
        for n in range(1, 5):
            ck.case(f"figure2/{a}{b}/{n}", figure2, ck, a, b, n, n % 2 == 1 or a == 1)
    for i, base in enumerate((BASES[0], BASES[1])):
        for n in (1, 2, 3):
            ck.case(f"grids/{i}/{n}", grids, ck, base, n, n == 2 or i == 1)
            ck.case(f"rectangles/{i}/{n}", rectangles, ck, base, n)
    A = (20, 45, 70, 20.5, 88)
    for base in (BASE, dict(BASE, L1_factor=6, L2_factor=5.5, exp1=4, exp2=3), dict(BASE, exp1=2, exp2=4, L_2d=4000.0, z_i=300.0)):
        for m in (1, 2, 3):
            for sel in itertools.permutations(A, m):
                if m == 3 and not ck.thorough and sel[0] > sel[2]:
                    continue
                for n in (1, 2, 3):
                    ck.case(f"anisotropy/{base['exp1']}{base['exp2']}/{sel}/{n}", anisotropy, ck, base, sel, n, (n + len(sel)) % 2 == 1 or n == 3)
