"""C02: determinism under interleaving - all interleavings of two generators with global random-state actions, and
all two-thread schedules with a bounded number of preemptions."""
import itertools
import os
import random

import numpy as np
import torch

from lib import drd, gen
from lib.mc import canon, require
from lib.sched import Run2, first_occurrences

LEVEL = "model_checking"
TECH = "explicit-state exploration of interleavings; stateless two-thread exploration with a controlled scheduler (preemption-bounded)"
RULE = (
    "every interleaving of the operation lists of two generators with equal arguments, a third with another seed and global "
    "random-state actions; and two threads, each building a generator and generating, preempted at every source line of the "
    "package (controlled scheduler, one thread runs at a time). Oracle: the field a generator with the same arguments makes "
    "alone, which itself is compared with the reference noise stream. A state is (configuration, positions in all operation "
    "lists); a schedule is non-trivial if it contains at least one preemption inside the package."
)
BOUNDS = (
    "sequential: all interleavings of A:[new,g1,g2] B:[new,g2,g1] G:[reseed,draw] (560) for 4 configurations (quick; all seeds 0,7 "
    "and 9 configurations thorough), all orders of construction of A,B,C; every two of some 150 seeds (small, neighbours of powers of 2 and 10); threads: every single preemption at one of the first "
    "three executions of each source line for both starting threads (quick), at every line event, and every pair of "
    "preemption points on the generate-only body (thorough)"
)
ASSUMPTIONS = [
    "preemption granularity is one source line of the package; numpy/FFTW calls are atomic in the schedules",
    "equality up to 2e-5 of the largest value (FFTW may pick different plans)",
]
LF = gen.LFCFG


def same(a, b, what):
    require(a.shape == b.shape, f"{what}: shape", got=a.shape, want=b.shape)
    e = float(np.max(np.abs(a - b))) if a.size else 0.0
    require(e <= 2e-5 * np.max(np.abs(b), initial=0), f"{what}: differs from the field of the same seed made alone", err=e)


def differ(a, b, what):
    require(a.shape != b.shape or float(np.max(np.abs(a - b))) > 1e-3, what)


def configs(ck):
    b = gen.base
    out = {
        "mann-lf": b(lf=LF),
        "site": gen.site(levels=(3, 2, 2), blend=3, seed=4242),
        "vk-seed0-lf": b(model="VK", seed=0, lf=LF, blend=0, levels=(1, 1, 1)),
        "mann-seed0": b(seed=0, levels=(1, 1, 2)),
        "drd-lf": b(model="DRD", path=drd_file(ck), lf=LF, L=None, T=None, E=None, levels=(1, 1, 1)),
    }
    if ck.thorough:
        for m, s, l in itertools.product(("VK", "Mann"), (2**32 - 1, 12345), (None, LF)):
            out[f"{m}-{s}-{bool(l)}"] = b(model=m, seed=s, lf=l, levels=(2, 1, 2), blend="default")
    return out


def drd_file(ck):
    d = os.path.join(ck.scratch, "drd")
    if not os.path.isdir(d):
        pb = drd.make_problem(outdir=ck.scratch)
        drd.set_weights(pb, 5)
        pb.save_model(save_dir=d)
    return os.path.join(d, sorted(os.listdir(d))[0])


P = gen.PROF["log"]


def interleavings(lists):
    """All merges of the operation lists, as tuples of list indices."""
    total = sum(len(x) for x in lists)

    def rec(pos):
        if sum(pos) == total:
            yield ()
            return
        for i, x in enumerate(lists):
            if pos[i] < len(x):
                q = list(pos)
                q[i] += 1
                for rest in rec(tuple(q)):
                    yield (i,) + rest

    yield from rec(tuple(0 for _ in lists))


def do_global(i):
    if i == 0:
        np.random.seed(1234)
        torch.manual_seed(99)
        random.seed(5)
    else:
        np.random.normal(size=17)
        torch.randn(5)
        random.random()


def interleave(ck, name, c, alone, merge):
    objs = {}
    ops = [["new", 1, 2], ["new", 2, 1], ["seed", "draw"]]
    pos = [0, 0, 0]
    done = [0, 0]
    for i in merge:
        op = ops[i][pos[i]]
        pos[i] += 1
        ck.step()
        if i == 2:
            do_global(0 if op == "seed" else 1)
        elif op == "new":
            objs[i] = gen.build(c)
        else:
            r = objs[i].generate(op, **P)
            done[i] += op
            nx = 2 ** c["levels"][0] + 1
            same(r, alone[: done[i] * nx], f"generator {'AB'[i]} after {op} more blocks in {merge}")
        ck.state(name, tuple(pos))
    ck.outcome(name, objs[0].total_fluctuation)


def body(c, n):
    def f():
        return gen.build(c).generate(n, **P)

    return f


def run_threads(ck, label, mk, wants, first, lengths):
    r = Run2(mk(), first, lengths)
    res = r.go()
    ck.step(r.switches + 1)
    ck.state(label, first, tuple(lengths))
    for i in (0, 1):
        same(res[i], wants[i], f"thread {i} under schedule first={first} run-lengths={lengths}")
    if r.switches:
        ck.add("schedules_with_preemption")
    ck.outcome(label, canon(res))


def args_untouched(ck, c):
    dims = np.array(c["dims"], dtype=float)
    lev = np.array(c["levels"])
    cfg = dict(c["lf"]) if c["lf"] else None
    d0, l0, c0 = dims.copy(), lev.copy(), dict(cfg) if cfg else None
    from drdmannturb import FluctuationFieldGenerator

    kw = {} if cfg is None else {"config_2d_model": cfg}
    if c["path"]:
        kw["path_to_parameters"] = c["path"]
    g = FluctuationFieldGenerator(c["ustar"], c["h"], dims, lev, c["model"], c["L"], c["T"], c["E"], seed=c["seed"], **kw)
    g.generate(2, **P)
    g.save_to_vtk(os.path.join(ck.scratch, "a"))
    require(np.array_equal(dims, d0) and np.array_equal(lev, l0), "grid arguments were modified")
    require(cfg == c0, "the low-frequency configuration was modified", got=cfg)
    ck.step(3)


def config_untouched(ck, cfg):
    """The caller's configuration is only read: equal before and after, and a second generator built from it agrees with the first."""
    cfg = dict(cfg)
    c = gen.base(lf=cfg, levels=(1, 1, 1))
    from drdmannturb import FluctuationFieldGenerator

    def build():
        return FluctuationFieldGenerator(c["ustar"], c["h"], np.array(c["dims"]), np.array(c["levels"]), c["model"], c["L"], c["T"], c["E"], seed=3, config_2d_model=cfg)

    keep = dict(cfg)
    np.random.seed(40)
    a = build()
    f = a.generate(1, **P).copy()
    np.random.seed(41)
    require(cfg == keep, "the low-frequency configuration was modified", got=cfg, want=keep)
    b = build()
    require(np.array_equal(a.low_freq_gen.u1, b.low_freq_gen.u1) and np.array_equal(a.low_freq_gen.u2, b.low_freq_gen.u2), "second generator from the same configuration differs")
    same(b.generate(1, **P), f, "second generator from the same configuration")
    require(cfg == keep, "the low-frequency configuration was modified", got=cfg, want=keep)
    ck.step(2)
    ck.state("config", cfg)


def seeds_differ(ck, c):
    """All pairs of distinct seeds give distinct fields, unseeded generators differ from one another; equal ones agree."""
    seeds = [0, 1, 2, 7, 2**31, 2**32 - 1, None, None]
    fs = []
    for s in seeds:
        np.random.seed(3)  # a user reseeding the global state must not make unseeded generators equal
        fs.append(gen.build(c, seed=s).generate(2, **P).copy())
    for i, j in itertools.combinations(range(len(seeds)), 2):
        ck.step()
        differ(fs[i], fs[j], f"seeds {seeds[i]} and {seeds[j]} give the same field")
    for s, f in zip(seeds, fs):
        if s is not None:
            np.random.seed(77)
            same(gen.build(c, seed=s).generate(2, **P), f, f"seed {s} twice")
            ck.step()


def many_seeds():
    s = set(range(40)) | {2**k + d for k in range(3, 33) for d in (-1, 0, 1)} | {10**k + d for k in range(2, 10) for d in (0, 1, 7)} | {0xFFFFFFFF, 0xFFFF0007, 0x80000007, 0x10007, 0x100, 12345, 54321}
    return sorted(x for x in s if 0 <= x < 2**32)


def all_seeds(ck, c):
    """Every two of some 150 seeds (neighbours, powers of two and ten, equal low or high halves) differ, in the field and in its low-frequency part."""
    seeds = many_seeds()
    small, lf = [], []
    for s in seeds:
        g = gen.build(c, seed=s)
        small.append(g.generate(1, **P).ravel())
        if c["lf"]:
            lf.append(np.concatenate([g.low_freq_gen.u1.ravel(), g.low_freq_gen.u2.ravel()]))
        ck.step()
        ck.state("seed", c["model"], bool(c["lf"]), s)
    for what, fs in (("field", small), ("low-frequency field", lf)):
        fs = np.array(fs)
        for i in range(len(fs)):
            d = np.max(np.abs(fs[i + 1 :] - fs[i]), axis=1) if i + 1 < len(fs) else np.ones(1)
            require(d.min() > 1e-3 * np.max(np.abs(fs[i])), f"seeds {seeds[i]} and {seeds[i + 1 + int(d.argmin())] if i + 1 < len(seeds) else ''} give the same {what}")


def lf_differs(ck, c):
    """The low-frequency part itself depends on the seed, and only on it."""
    fields = {}
    for s in (0, 1, 7):
        np.random.seed(s + 40)
        a = gen.build(c, seed=s).low_freq_gen
        u = np.stack([a.u1, a.u2]).copy()
        np.random.seed(1)
        b = gen.build(c, seed=s).low_freq_gen
        require(np.allclose(u, np.stack([b.u1, b.u2]), rtol=1e-9, atol=1e-12), f"low-frequency field of seed {s} not reproduced")
        fields[s] = u
        ck.step()
    for a, b in itertools.combinations(fields, 2):
        differ(fields[a], fields[b], f"seeds {a} and {b} give the same low-frequency field")


def other_seeds(ck, c, wants, order):
    """Generators with different seeds alive at once, built and used in every order."""
    gs = {}
    for s in order[0]:
        gs[s] = gen.build(c, seed=s)
    nx = 2 ** c["levels"][0] + 1
    for k in range(2):
        for s in order[1]:
            r = gs[s].generate(1, **P)
            same(r, wants[s][: (k + 1) * nx], f"seed {s} after {k + 1} rounds, order {order}")
            ck.step()


def run(ck):
    np_state, t_state = np.random.get_state(), torch.get_rng_state()
    try:
        for name, c in configs(ck).items():
            alone = {}

            def mk_alone():
                alone["f"] = gen.build(c).generate(3, **P).copy()
                if c["lf"] is None and c["model"] != "DRD":
                    from lib import ref

                    w = np.concatenate([ref.with_profile(r, c["dims"], P) for r in gen.reference_raw(c, 3)])
                    same(alone["f"], w, "alone vs reference noise stream")

            if not ck.case(f"{name}/alone", mk_alone):
                continue
            if "f" not in alone:
                mk_alone()
            for m in interleavings([[0] * 3, [0] * 3, [0] * 2]):
                ck.case(f"{name}/merge-{''.join('ABG'[i] for i in m)}", interleave, ck, name, c, alone["f"], m)
            ck.case(f"{name}/args", args_untouched, ck, c)
            ck.case(f"{name}/seeds", seeds_differ, ck, c)
            if c["lf"]:
                ck.case(f"{name}/lf-seeds", lf_differs, ck, c)
            wants = {s: gen_quiet(c, s) for s in (0, 3, 8)}
            for o1 in itertools.permutations((0, 3, 8)):
                for o2 in itertools.permutations((0, 3, 8)):
                    ck.case(f"{name}/others-{o1}-{o2}", other_seeds, ck, c, wants, (o1, o2))
        for L, rz, f, e in itertools.product((8.0, 600.0), (0.1, 1.0, 3.0), ((1.0, 1.0), (2.0, 1.0), (1.0, 3.0), (6.0, 6.0)), ((3, 3), (3, 2), (2, 4))):
            cfg = dict(sigma2=0.6, L_2d=L, psi=0.7, z_i=rz * L, L1_factor=f[0], L2_factor=f[1], exp1=e[0], exp2=e[1])
            ck.case(f"config/{L}/{rz}/{f}/{e}", config_untouched, ck, cfg)
        for psi, s2, L, rz in itertools.product((0.01, 0.2, 0.5, 0.78, 0.79, 1.0, 1.3, 1.55), (0.01, 1.0, 25.0), (8.0, 600.0, 15000.0), (0.05, 0.5, 2.0)):
            cfg = dict(sigma2=s2, L_2d=L, psi=psi, z_i=rz * L, L1_factor=1.0, L2_factor=1.0, exp1=2, exp2=3)
            ck.case(f"config/psi{psi}/{s2}/{L}/{rz}", config_untouched, ck, cfg)
        for model, l in itertools.product(("VK", "Mann"), (None, LF)):
            ck.case(f"seeds/{model}/{bool(l)}", all_seeds, ck, gen.base(model=model, levels=(0, 1, 0), blend=0, lf=l))
        threads(ck)
    finally:
        np.random.set_state(np_state)
        torch.set_rng_state(t_state)


def gen_quiet(c, s, n=2):
    from lib.mc import quiet

    with quiet():
        return gen.build(c, seed=s).generate(n, **P).copy()


def threads(ck):
    c = gen.base(lf=LF, levels=(1, 1, 1), T=0.3)
    cases = [
        ("same-seed", gen.base(lf=LF, levels=(1, 1, 1), T=0.3), 7, 7, 2, False),
        ("two-seeds", gen.base(model="VK", levels=(1, 1, 1), T=0.3, blend=0), 0, 9, 3, False),
        ("prebuilt", gen.base(levels=(1, 1, 1), T=0.3, lf=LF), 7, 9, 2, True),
    ]
    for label, c, s0, s1, n, prebuilt in cases:
        wants = [gen_quiet(c, s0, n), gen_quiet(c, s1, n)]

        def mk():
            if prebuilt:
                gs = [gen.build(c, seed=s) for s in (s0, s1)]
                return [lambda g=g: g.generate(n, **P) for g in gs]
            return [body(dict(c, seed=s0), n), body(dict(c, seed=s1), n)]

        from lib.mc import quiet

        with quiet():
            r = Run2(mk(), 0, [])
            r.go()
        total = r.count
        ck.add("preemption_points", sum(total))
        for first in (0, 1):
            for k in first_occurrences(r.lines[first], 10**9 if ck.thorough else 3) + [total[first]]:
                ck.case(f"threads/{label}/{first}/{k}", run_threads, ck, label, mk, wants, first, [k])
        if ck.thorough and prebuilt:
            for first in (0, 1):
                for k in range(0, total[first] + 1):
                    for j in range(0, total[1 - first] + 1):
                        ck.case(f"threads/{label}/{first}/{k}/{j}", run_threads, ck, label, mk, wants, first, [k, j])
        ck.sample({"threads": label, "line_events": total, "example_schedule": {"first": 0, "run_lengths": [total[0] // 2]}})
