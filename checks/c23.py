"""C23: coherence files - placement of rows, reload histories, and pairing of model and data in calibration."""
import itertools
import os

import numpy as np
import torch

from lib import drd, ref
from lib.mc import close_rel, expect_raises, require

LEVEL = "model_checking"
TECH = "exhaustive enumeration of file contents (all row orders, all row subsets, index encodings) and of load/calibrate histories, against a reference placement model and an independent coherence evaluation"
RULE = (
    "every permutation of the rows of small grids, every non-empty subset of rows, and every combination of index offsets, gaps, value orders and text layouts is written to a file, "
    "loaded by the real code and compared cell by cell with the dictionary (separation index, frequency index) -> values; all histories of loads of different files, a missing file "
    "and calibrations follow the last successful load; in calibration the coherence misfit of every optimiser step is recomputed from the file and the parameters at that step. "
    "A state is the table loaded (or history prefix)."
)
BOUNDS = (
    "grids up to 3x3; all 720 orders of 2x3 and 3x2 grids; all 511 subsets of 3x3 (127 of a 7-row one in quick); 6 index encodings x 4 value orders x 3 layouts; 1..10 separations; "
    "all histories of length <= 4 over 6 operations (4 at length 4 in quick); calibrations: 2 models x 3 conversion factors x 2 speeds x {with, without zero frequency} x 1..6 separations, and frequencies from 2e-6; 4 value orders x 2 index encodings x 4 sizes; 6 kinds of unusual values (repeated, negative, many digits, tiny); files of up to 300 frequencies or 120 separations in 3 row orders"
)
ASSUMPTIONS = ["a file names each grid position at most once", "Adam with one closure per epoch is used to read the misfit of each epoch"]

INDEX = {
    "zero": lambda i: i,
    "one": lambda i: i + 1,
    "gap": lambda i: 3 * i + 2,
    "far": lambda i: 1000 + 17 * i,
    "negative": lambda i: i - 2,
    "square": lambda i: i * i,
}


def values(ns, nf, order, salt=0):
    r = np.random.RandomState(ns * 100 + nf * 10 + salt)
    seps = np.round(np.cumsum(r.uniform(0.5, 3.0, ns)), 4)
    freqs = np.round(np.cumsum(r.uniform(0.05, 0.7, nf)), 5)
    if order in ("dec-sep", "dec-both"):
        seps = seps[::-1]
    if order in ("dec-freq", "dec-both"):
        freqs = freqs[::-1]
    coh = np.round(r.uniform(0, 1, (3, ns, nf)), 6)
    return seps, freqs, coh


def text(rows, layout):
    cols = ["sep_idx", "freq_idx", "spatial_sep", "frequency", "coh_u", "coh_v", "coh_w"]
    head = "# coherence\n# more about the file\n"
    if layout == "aligned":
        body = "  ".join(cols) + "\n" + "".join("   ".join(f"{x!r:>14}" for x in r) + "\n" for r in rows)
        return head + body
    if layout == "tabs":
        return "\t".join(cols) + "\n" + "".join("\t".join(repr(x) for x in r) + "\n" for r in rows)
    perm = [6, 4, 0, 3, 5, 1, 2]
    return head + " ".join(cols[i] for i in perm) + "\n" + "".join(" ".join(repr(r[i]) for i in perm) + "\n" for r in rows)


def make_rows(ns, nf, order="inc", si="zero", fi="zero", salt=0):
    seps, freqs, coh = values(ns, nf, order, salt)
    return [
        (INDEX[si](i), INDEX[fi](j), float(seps[i]), float(freqs[j]), *(float(coh[c, i, j]) for c in range(3)))
        for i in range(ns)
        for j in range(nf)
    ]


def expected(rows):
    S = sorted({r[0] for r in rows})
    F = sorted({r[1] for r in rows})
    seps = np.array([next(r[2] for r in rows if r[0] == s) for s in S])
    freqs = np.array([next(r[3] for r in rows if r[1] == f) for f in F])
    coh = np.full((3, len(S), len(F)), np.nan)
    for r in rows:
        coh[:, S.index(r[0]), F.index(r[1])] = r[4:]
    return seps, freqs, coh


def write(ck, rows, layout="aligned", name="coh.dat"):
    path = os.path.join(ck.scratch, name)
    with open(path, "w") as f:
        f.write(text(rows, layout))
    return path


def same(a, b):
    """Equal up to the last digit of the text conversion."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-14, atol=0, equal_nan=True)


def verify(pb, rows, what):
    seps, freqs, coh = expected(rows)
    require(same(pb.coherence_spatial_seps, seps), f"{what}: separations", got=pb.coherence_spatial_seps, want=seps)
    require(same(pb.coherence_frequencies, freqs), f"{what}: frequencies", got=pb.coherence_frequencies, want=freqs)
    for c, n in enumerate("uvw"):
        got = np.asarray(getattr(pb, f"coherence_{n}"))
        require(same(got, coh[c]), f"{what}: coherence {n}", got=got, want=coh[c])
    require(tuple(pb.coherence_shape) == coh.shape[1:], f"{what}: shape", got=pb.coherence_shape)
    idx = np.asarray(pb.coherence_plot_sep_indices)
    n = len(seps)
    require(len(idx) == 4 and idx[0] == 0 and idx[-1] == n - 1, f"{what}: four separations from first to last", got=idx)
    require(bool(np.all(np.abs(idx - np.linspace(0, n - 1, 4)) < 1.0)) and bool(np.all(np.diff(idx) >= 0)), f"{what}: evenly spaced", got=idx)
    require(same(pb.coherence_plot_separations, seps[idx]), f"{what}: selected separations", got=pb.coherence_plot_separations)


PB = {}


def problem(key="x", **kw):
    if key not in PB:
        PB[key] = drd.make_problem(eddy="CONST", **kw)
    return PB[key]


TAGS = {
    "digits": [0.12345678901, 1 / 3, 2 / 7, 0.1 + 0.2, 0.99999999999],
    "negative": [-0.25, 0.0, 1.0, 1.7, -3.0],
    "extreme": [1e-12, 1e-300, 0.0, 1.0, 1e5],
    "same": [0.5],
    "zeros": [0.0],
    "ones": [1.0, 0.0],
}


def unusual(ns, nf, tag):
    """Coherence values, separations and frequencies with many digits, repeated, negative, very small."""
    t = TAGS[tag]
    s0, f0 = {"digits": (1 / 3, 1 / 7), "extreme": (1e-9, 1e-7), "negative": (1.0, 0.1)}.get(tag, (0.5, 0.25))
    return [(i, j, (i + 1) * s0, (j + 1) * f0, t[(i + j) % len(t)], t[(2 * i + j) % len(t)], t[(i * j) % len(t)]) for i in range(ns) for j in range(nf)]


def load_case(ck, rows, layout, what):
    pb = problem()
    path = write(ck, rows, layout)
    before = open(path).read()
    pb.load_coherence_data(path)
    require(open(path).read() == before, "file modified")
    verify(pb, rows, what)
    ck.step()
    ck.state(sorted(rows), layout, rows[0], rows[-1])
    ck.outcome(np.asarray(pb.coherence_u), np.asarray(pb.coherence_w))


# ---- calibration -----------------------------------------------------------------------------------
def calib_problem(eddy, gamma=0.8, factor=None, Uref=3.0, epochs=3):
    from drdmannturb import IntegrationParameters, LossParameters

    phys = {} if factor is None else {"wavenumber_conversion_factor": factor}
    ip = IntegrationParameters(ops_log_min=-2, ops_log_max=2, ops_num_points=4, coh_log_min=-2, coh_log_max=2, coh_num_points=5)
    pb = drd.make_problem(eddy=eddy, integration=ip, loss=LossParameters(gamma_coherence=gamma), Uref=Uref, phys=phys, nepochs=epochs,
                          learning_rate=0.02, tol=1e-12, num_components=3)
    if eddy == "TAUNET":
        drd.set_weights(pb, 4)
    return pb, 10.0 ** np.arange(0)


K1 = torch.tensor([0.05, 0.4, 2.0], dtype=torch.float64)


def run_calibration(pb, path):
    from torch.optim.optimizer import register_optimizer_step_pre_hook

    params = []
    h = register_optimizer_step_pre_hook(lambda *a: params.append(np.array(pb.parameters, dtype=float)))
    try:
        pb.calibrate({"k1": K1.clone(), "ops": drd.ops_tensor(3, 5), "coherence": None}, coherence_data_file=path, optimizer_class=torch.optim.Adam)
    finally:
        h.remove()
    return params


def misfit(pb, rows, v, eddy, factor, Uref, gamma):
    seps, freqs, coh = expected(rows)
    idx = np.asarray(pb.coherence_plot_sep_indices)
    m = drd.decode(v, eddy=eddy)
    low = freqs <= 1e-6
    model = np.ones((3, 4, len(freqs)))
    L0 = pb.phys_params.L
    model[:, :, ~low] = ref.coherence(factor * freqs[~low] / Uref, seps[idx], ref.log_grid(-2, 2, 5) / L0, m["tau"], m["L"], m["T"], m["sigma"])
    return gamma * np.mean((model - coh[:, idx]) ** 2), model


def calibrate_case(ck, eddy, factor, Uref, zero, ns, nf=4, low=False, order="inc", enc="zero"):
    rows = make_rows(ns, nf, order, enc, enc, salt=ns)
    if zero:
        rows = [r[:3] + (0.0 if r[1] == 0 else r[3],) + r[4:] for r in rows]
    if low:
        small = (2e-6, 1e-4, 5e-3)
        rows = [r[:3] + ((small[r[1]],) if r[1] < 3 else r[3:4]) + r[4:] for r in rows]
    rows = rows[::-1]
    gamma = 0.8
    pb, _ = calib_problem(eddy, gamma, factor, Uref)
    f = 1 / (2 * np.pi) if factor is None else factor
    path = write(ck, rows)
    params = run_calibration(pb, path)
    verify(pb, rows, "after calibration")
    got = pb.LossAggregator.component_losses["coherence"]
    require(len(params) == 3 and len(got) >= 4, "one misfit per epoch", got=len(got), steps=len(params))
    mse = pb.LossAggregator.component_losses
    for i, v in enumerate(params):
        want, model = misfit(pb, rows, v, eddy, f, Uref, gamma)
        close_rel([got[-3 + i]], [want], f"coherence misfit of epoch {i + 1}", rtol=1e-8)
        close_rel([mse["total"][-3 + i]], [mse["mse"][-3 + i] + got[-3 + i]], "misfit enters the loss", rtol=1e-9)
        ck.step()
    ck.state(eddy, factor, Uref, zero, ns, low, order, enc)
    ck.outcome(np.array(got))


def missing_points(ck, drop, gamma):
    """A file with missing points cannot be fitted, but is no obstacle when coherence is not fitted."""
    rows = [r for i, r in enumerate(make_rows(2, 3)) if i != drop]
    pb, _ = calib_problem("CONST", gamma)
    path = write(ck, rows)
    if gamma:
        expect_raises((ValueError, RuntimeError), lambda: run_calibration(pb, path), "missing coherence data")
    else:
        run_calibration(pb, path)
    verify(pb, rows, "missing points")
    ck.step()
    ck.state("missing", drop, gamma)


FILES = {
    "A": make_rows(2, 3, salt=1),
    "B": make_rows(4, 2, "dec-both", "gap", "one", salt=2)[::-1],
    "C": [r for i, r in enumerate(make_rows(3, 3, salt=3)) if i not in (1, 5)],
}


def history(ck, hist):
    pb, _ = calib_problem("CONST", 0.5, epochs=1)
    cur = None
    for i, op in enumerate(hist):
        what = f"after {'.'.join(hist[: i + 1])}"
        if op == "x":
            expect_raises((OSError, ValueError), lambda: pb.load_coherence_data(os.path.join(ck.scratch, "absent.dat")), "missing file")
        elif op == "k":  # calibration with file A
            params = run_calibration(pb, write(ck, FILES["A"], name="A.dat"))
            cur = FILES["A"]
            want, _m = misfit(pb, cur, params[-1], "CONST", 1 / (2 * np.pi), 3.0, 0.5)
            close_rel([pb.LossAggregator.component_losses["coherence"][-1]], [want], f"{what}: misfit", rtol=1e-8)
        elif op == "n":  # calibration without a file: no coherence term, whatever was loaded before
            run_calibration(pb, None)
            require(not np.any(pb.LossAggregator.component_losses["coherence"]), f"{what}: coherence term without a file")
        else:
            pb.load_coherence_data(write(ck, FILES[op], name=f"{op}.dat"))
            cur = FILES[op]
        if cur is not None:
            verify(pb, cur, what)
        ck.step()
        ck.state("hist", hist[: i + 1])


def run(ck):
    torch.set_default_dtype(torch.float64)
    drd.no_tensorboard()
    for ns, nf in ((2, 3), (3, 2)):
        rows = make_rows(ns, nf)
        for p in itertools.permutations(range(6)):
            ck.case(f"order/{ns}x{nf}/{''.join(map(str, p))}", load_case, ck, [rows[i] for i in p], "aligned", "permuted rows")
    rows = make_rows(3, 3, "inc", "one", "gap")
    for mask in range(1, 512):
        if ck.thorough or mask % 4 == 3 or bin(mask).count("1") in (1, 2, 8):
            for rev in (False, True):
                sub = [r for i, r in enumerate(rows) if mask >> i & 1]
                ck.case(f"subset/{mask}/{rev}", load_case, ck, sub[::-1] if rev else sub, "aligned", "subset of rows")
    for si, fi, o, lay in itertools.product(INDEX, INDEX, ("inc", "dec-sep", "dec-freq", "dec-both"), ("aligned", "tabs", "permuted")):
        rows = make_rows(3, 4, o, si, fi)
        ck.case(f"index/{si}/{fi}/{o}/{lay}", load_case, ck, rows, lay, "index encoding")
        ck.case(f"index-mixed/{si}/{fi}/{o}/{lay}", load_case, ck, rows[5:] + rows[:5][::-1], lay, "index encoding")
    for ns, nf in itertools.product(range(1, 11), (1, 2, 5)):
        ck.case(f"size/{ns}x{nf}", load_case, ck, make_rows(ns, nf), "aligned", "grid size")
    for eddy, factor, U, zero, ns in itertools.product(("CONST", "TAUNET"), (None, 1.0, 2 * np.pi), (3.0, 21.0), (False, True), range(1, 7)):
        ck.case(f"calibrate/{eddy}/{factor}/{U}/{zero}/{ns}", calibrate_case, ck, eddy, factor, U, zero, ns)
    for eddy, U, ns in itertools.product(("CONST", "TAUNET"), (0.2, 21.0), (2, 4)):
        ck.case(f"calibrate-low/{eddy}/{U}/{ns}", calibrate_case, ck, eddy, None, U, False, ns, 5, True)
    for eddy, order, enc, (ns, nf) in itertools.product(("CONST", "TAUNET"), ("inc", "dec-freq", "dec-sep", "dec-both"), ("gap", "negative"), ((1, 3), (3, 3), (5, 6), (12, 2))):
        ck.case(f"calibrate-order/{eddy}/{order}/{enc}/{ns}x{nf}", calibrate_case, ck, eddy, None, 3.0, False, ns, nf, False, order, enc)
    for (ns, nf), o, enc in itertools.product(((20, 3), (3, 40), (11, 12), (33, 4), (2, 130), (64, 2), (1, 300), (120, 1)), ("inc", "dec-both"), ("zero", "gap")):
        rows = make_rows(ns, nf, o, enc, enc)
        rs = np.random.RandomState(ns + nf)
        for how, rr in (("file", rows), ("reversed", rows[::-1]), ("shuffled", [rows[i] for i in rs.permutation(len(rows))])):
            ck.case(f"large/{ns}x{nf}/{o}/{enc}/{how}", load_case, ck, rr, "aligned", "large file")
    for (ns, nf), eddy in itertools.product(((7, 20), (20, 4), (33, 3), (3, 60), (9, 9), (50, 2)), ("CONST", "TAUNET")):
        ck.case(f"calibrate-large/{eddy}/{ns}x{nf}", calibrate_case, ck, eddy, None, 3.0, False, ns, nf)
    for eddy, ns, zero, nf in itertools.product(("CONST", "TAUNET"), (1, 2, 5), (False, True), (1, 2)):
        ck.case(f"calibrate-few/{eddy}/{ns}x{nf}/{zero}", calibrate_case, ck, eddy, None, 3.0, zero, ns, nf)
    for U, f in itertools.product((0.05, 1.0, 10.0, 60.0), (0.01, 0.5, 1.0, 30.0)):
        ck.case(f"calibrate-scale/{U}/{f}", calibrate_case, ck, "CONST", f, U, False, 3, 4)
    for tag, (ns, nf), lay, rev in itertools.product(TAGS, ((1, 1), (2, 3), (5, 4), (3, 12)), ("aligned", "tabs", "permuted"), (False, True)):
        rows = unusual(ns, nf, tag)
        ck.case(f"unusual/{tag}/{ns}x{nf}/{lay}/{rev}", load_case, ck, rows[::-1] if rev else rows, lay, f"{tag} values")
    for drop, g in itertools.product(range(6), (0.0, 0.7)):
        ck.case(f"missing/{drop}/{g}", missing_points, ck, drop, g)
    for n in range(1, 5):
        for h in itertools.product("ABCxkn" if ck.thorough or n < 4 else "ABkn", repeat=n):
            ck.case(f"history/{'.'.join(h)}", history, ck, h)
