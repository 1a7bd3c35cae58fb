"""C05: rejected requests and interruptions."""
import itertools

import numpy as np

from lib import gen
from lib.mc import Mismatch, require
from lib.sched import Injected, first_occurrences, run_with_fault

LEVEL = "model_checking"
TECH = "fault enumeration: exception injected at every executed line/bytecode of the package; exhaustive valid/invalid request histories"
RULE = (
    "(a) all histories over valid and invalid requests: each invalid one must raise ValueError and the field must stay that of the "
    "history without it; (b) an exception raised at every line event (and bytecode event on one configuration) inside the package "
    "during a multi-block generate(): the field left behind must be a whole number of blocks equal to the first blocks of the "
    "uninterrupted field. A state is (configuration, history prefix) or (configuration, fault point)."
)
BOUNDS = (
    "histories of length 4 (quick; 5 thorough) over 3 valid and 25 invalid requests with at least one of each (stratified: all invalid kinds in every "
    "position of all valid patterns); fault at every line event of generate(3), fresh and after an earlier call, with and without "
    "low-frequency model; every bytecode event of generate(2) on one configuration (thorough: all configurations); the same at line granularity on 4 larger grids (up to 32 points per axis, one of site scale)"
)
ASSUMPTIONS = ["a fault is an exception raised between two bytecodes of the package; numpy and FFTW calls are atomic"]
LF = gen.LFCFG

BAD = {
    "type-lower": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="log"),
    "type-empty": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype=""),
    "type-none": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype=None),
    "type-unknown-plexp": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="EXP", plexp=0.2),
    "zref0": dict(zref=0.0, uref=5.0, z0=0.1, windprofiletype="LOG"),
    "zref-neg": dict(zref=-10.0, uref=5.0, z0=0.1, windprofiletype="PL", plexp=0.2),
    "uref0": dict(zref=10.0, uref=0.0, z0=0.1, windprofiletype="PL", plexp=0.2),
    "uref-neg": dict(zref=10.0, uref=-5.0, z0=0.1, windprofiletype="LOG"),
    "z0-0": dict(zref=10.0, uref=5.0, z0=0, windprofiletype="LOG"),
    "z0-neg": dict(zref=10.0, uref=5.0, z0=-0.1, windprofiletype="LOG"),
    "z0-neg-pl": dict(zref=10.0, uref=5.0, z0=-0.1, windprofiletype="PL", plexp=0.1),
    "pl-noexp": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="PL"),
    "both-neg": dict(zref=-10.0, uref=-5.0, z0=0.1, windprofiletype="LOG"),
    "two-neg-z": dict(zref=-10.0, uref=5.0, z0=-0.1, windprofiletype="LOG"),
    "all-neg": dict(zref=-1.0, uref=-1.0, z0=-1.0, windprofiletype="PL", plexp=0.1),
    "zref-tiny": dict(zref=-1e-12, uref=5.0, z0=0.1, windprofiletype="LOG"),
    "uref-tiny": dict(zref=10.0, uref=-1e-12, z0=0.1, windprofiletype="PL", plexp=0.1),
    "z0-tiny": dict(zref=10.0, uref=5.0, z0=-1e-12, windprofiletype="LOG"),
    "zref-huge": dict(zref=-1e9, uref=5.0, z0=0.1, windprofiletype="PL", plexp=0.1),
    "type-prefix": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="L"),
    "type-longer": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="LOGARITHMIC", plexp=0.2),
    "type-space": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="LOG "),
    "type-pl-lower": dict(zref=10.0, uref=5.0, z0=0.1, windprofiletype="pl", plexp=0.2),
    "uref0-pl-z0": dict(zref=10.0, uref=-0.0, z0=0.1, windprofiletype="LOG"),
    "zref0-uref0": dict(zref=0, uref=0, z0=0.1, windprofiletype="PL", plexp=0.1),
}
GOOD = {"L1": ("log", 1), "P1": ("pl", 1), "L2": ("log2", 2)}


def configs():
    b = gen.base
    return {
        "mann": b(levels=(1, 1, 1)),
        "mann-lf": b(levels=(1, 1, 1), lf=LF),
        "vk-b0-lf": b(model="VK", levels=(2, 1, 1), blend=0, lf=LF, T=0.0),
        "mann-b1": b(levels=(2, 1, 2), blend=1),
    }


def large_configs():
    b = gen.base
    return {
        "long": b(levels=(5, 1, 1), dims=(9.0, 2.0, 2.0), blend="default"),
        "tall": b(model="VK", levels=(1, 2, 5), dims=(2.0, 3.0, 9.0), blend=0, lf=LF),
        "wide": b(levels=(1, 5, 2), dims=(2.0, 9.0, 3.0), blend=12),
        "site": gen.site(levels=(4, 3, 3)),
    }


def close(a, b, what):
    require(a.shape == b.shape, f"{what}: shape", got=a.shape, want=b.shape)
    if a.size:
        e = float(np.max(np.abs(a - b)))
        require(e <= 2e-5 * np.max(np.abs(b)), what, err=e)


def history(ck, name, c, clean, hist):
    """clean: function(valid prefix) -> field."""
    g = gen.build(c)
    valid = ()
    for i, op in enumerate(hist):
        ck.step()
        if op in GOOD:
            p, n = GOOD[op]
            g.generate(n, **gen.PROF[p])
            valid += (op,)
        else:
            nb = 1 + i % 2
            try:
                g.generate(nb, **BAD[op])
            except ValueError:
                pass
            except Exception as e:  # noqa: BLE001
                raise Mismatch(f"invalid request {op} raised {type(e).__name__} instead of ValueError") from e
            else:
                raise Mismatch(f"invalid request {op} was accepted")
        close(g.total_fluctuation, clean(valid), f"field after {'.'.join(hist[: i + 1])} is not that of the run without the rejected requests")
        ck.state(name, hist[: i + 1])
    ck.outcome(name, valid)


def interrupt(ck, name, c, whole, pre, n, at, opcodes):
    p = gen.PROF["log"]
    g = gen.build(c)
    if pre:
        g.generate(pre, **p)
    ev, fired = run_with_fault(lambda: g.generate(n, **p), at, opcodes)
    nx = 2 ** c["levels"][0] + 1
    f = g.total_fluctuation
    require(f.shape[0] % nx == 0, f"fault at event {at}: {f.shape[0]} planes is not a whole number of blocks of {nx}")
    require(f.shape[0] >= pre * nx, f"fault at event {at}: blocks of an earlier call were lost", got=f.shape[0] // nx)
    require(f.shape[0] <= (pre + n) * nx, f"fault at event {at}: too many blocks", got=f.shape[0] // nx)
    close(f, whole[: f.shape[0]], f"fault at event {at} of generate({n}) after {pre} blocks: the field left behind is not a prefix")
    ck.step()
    ck.state(name, pre, n, at, opcodes)
    ck.outcome(name, pre, f.shape[0] // nx, fired)


def run(ck):
    depth = 5 if ck.thorough else 4
    for name, c in {**configs(), **large_configs()}.items():
        large = name in large_configs()
        memo = {}

        def clean(valid):
            if valid not in memo:
                g = gen.build(c)
                for v in valid:
                    p, n = GOOD[v]
                    g.generate(n, **gen.PROF[p])
                memo[valid] = g.total_fluctuation.copy()
            return memo[valid]

        hs = []
        for pat in itertools.product([None, "L1", "P1"] + (["L2"] if ck.thorough else []), repeat=depth):
            holes = [i for i, x in enumerate(pat) if x is None]
            if not holes or len(holes) == depth:
                continue
            if len(holes) <= (2 if ck.thorough else 1):
                fills = itertools.product(BAD, repeat=len(holes))
            else:  # several invalid requests: neighbouring pairs of kinds, rotating
                ks = list(BAD)
                fills = [tuple(ks[(s + 5 * j) % len(ks)] for j in range(len(holes))) for s in range(len(ks))]
            for f in fills:
                h = list(pat)
                for i, x in zip(holes, f):
                    h[i] = x
                hs.append(tuple(h))
        hs += [(b, "L1", "L2", "P1") for b in BAD] + [("L2", b, "L2", b, "P1") for b in BAD]
        if large or (not ck.thorough and name not in ("mann", "mann-lf")):
            hs = hs[-2 * len(BAD) :]
        for h in hs:
            ck.case(f"{name}/{'.'.join(h)}", history, ck, name, c, clean, h)
        # interruptions
        from lib.mc import quiet

        for pre, n in ((1, 2), (0, 4)) if large else ((0, 3), (1, 2), (2, 3)):
            with quiet():
                whole = gen.build(c).generate(pre + n, **gen.PROF["log"]).copy()
            for opc in (False, True):
                if opc and (large or not ck.thorough) and not ( (name == "mann-lf" and pre == 1)):
                    continue
                with quiet():
                    g = gen.build(c)
                    if pre:
                        g.generate(pre, **gen.PROF["log"])
                    total, _ = run_with_fault(lambda: g.generate(n, **gen.PROF["log"]), None, opc)
                ck.add("fault_points", total)
                for at in range(total):
                    ck.case(f"{name}/fault/{pre}+{n}/{'op' if opc else 'line'}{at}", interrupt, ck, name, c, whole, pre, n, at, opc)
