"""Builds /verif/seeded/<id>/ from the specifications in tools/seeds*.py and tries them out in a scratch copy.

    seedlib.py make [ID...]     write patch.diff, demo.sh, demo.py, meta.json
    seedlib.py try [ID...]      demo on the clean and on the changed tree, stable tests and checks on the changed tree
    seedlib.py check [ID...]    only the property's check on the changed tree (add --all for every check)
"""
import concurrent.futures as cf
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
BASE = "3f93e08"
sys.path.insert(0, HERE)

DEMO_SH = """#!/bin/bash
# exit 0: the property holds on this input; non-zero: it is broken. Runs with cwd = the repository.
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)" || exit 2
trap 'rm -rf "$S"' EXIT
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$S/mpl" CUDA_VISIBLE_DEVICES= TMPDIR="$S" DEMO_SCRATCH="$S"
mkdir -p "$S/mpl"
"$PY" "$D/demo.py" > "$S/out" 2> "$S/err"
rc=$?
tail -n 5 "$S/out"; [ $rc -eq 0 ] || tail -n 5 "$S/err" >&2
exit $rc
"""

PRE = '''"""Demonstration: exits 0 while the property holds, non-zero (assertion) when it is broken."""
import os, sys, warnings
import numpy as np
import torch
warnings.filterwarnings("ignore")
torch.set_default_dtype(torch.float64)
SCRATCH = os.environ["DEMO_SCRATCH"]
os.chdir(SCRATCH)
from drdmannturb import *
from drdmannturb.fluctuation_generation import *
'''

GEN = '''
from drdmannturb.fluctuation_generation import FluctuationFieldGenerator
def gen(model="Mann", dims=(40.0, 20.0, 20.0), levels=(3, 2, 2), L=6.0, G=1.5, seed=3, blend=0, **kw):
    return FluctuationFieldGenerator(friction_velocity=0.5, reference_height=10.0, grid_dimensions=np.array(dims),
        grid_levels=np.array(levels), model=model, length_scale=L, time_scale=G, energy_spectrum_scale=1.0,
        seed=seed, blend_num=blend, **kw)
P = dict(zref=10.0, uref=8.0, z0=0.1, windprofiletype="LOG")
LF = dict(sigma2=2.0, L_2d=200.0, psi=np.deg2rad(43.0), z_i=50.0, L1_factor=1, L2_factor=1, exp1=5, exp2=5)
'''

CAL = '''
from drdmannturb.spectra_fitting import CalibrationProblem
from drdmannturb.enums import EddyLifetimeType as ELT
from drdmannturb.parameters import *
def problem(elt=ELT.TWOTHIRD, L=0.6, G=3.0, s=1.2, nn=None, loss=None, phys=None, ip=None, **pp):
    pp.setdefault("nepochs", 2); pp.setdefault("wolfe_iter_count", 2)
    torch.manual_seed(5)
    return CalibrationProblem(nn_params=nn or NNParameters(nlayers=2, hidden_layer_size=4),
        prob_params=ProblemParameters(eddy_lifetime=elt, **pp), loss_params=loss or LossParameters(),
        phys_params=PhysicalParameters(L=L, Gamma=G, sigma=s, **(phys or {})),
        integration_params=ip or IntegrationParameters(ops_num_points=12, coh_num_points=12),
        logging_directory=os.path.join(SCRATCH, "log"), output_directory=SCRATCH)
def kaimal(n=8, zref=1.0):
    from drdmannturb.spectra_fitting.data_generator import generate_kaimal_spectra
    return generate_kaimal_spectra(torch.logspace(-1, 1, n), zref, 1.0)
'''


def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "seeds*.py"))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out


def scratch():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    t = os.path.join(d, "repo")
    shutil.copytree("/repo", t, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "results", "runs"))
    subprocess.run(["git", "-C", t, "checkout", "-q", "--", "."], check=True)
    return d, t


def apply_edits(t, s):
    for path, old, new in s["edits"]:
        p = os.path.join(t, "drdmannturb", path)
        text = open(p).read()
        assert text.count(old) == s.get("count", 1), (s["id"], path, text.count(old), old)
        open(p, "w").write(text.replace(old, new))


def make(s):
    d, t = scratch()
    try:
        apply_edits(t, s)
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
        base = {}
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                f = line[6:]
                base[f] = set(subprocess.run(["git", "-C", t, "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.splitlines())
            elif line.startswith("-") and not line.startswith("---"):
                if line[1:] not in base[f]:
                    print(f"  {s['id']}: removed line is not original: {line}")
        o = os.path.join(SEEDED, s["id"])
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        open(os.path.join(o, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        open(os.path.join(o, "demo.py"), "w").write(PRE + s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)


def demo(sid, t):
    r = subprocess.run(["bash", os.path.join(SEEDED, sid, "demo.sh")], cwd=t, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def check(pid, t, tier="quick"):
    # evidence of these runs goes to a scratch copy of /verif
    v = tempfile.mkdtemp(prefix="seedv.", dir="/tmp")
    try:
        shutil.copytree(VERIF, os.path.join(v, "verif"), ignore=shutil.ignore_patterns("seeded", "evidence", ".git", "__pycache__"))
        r = subprocess.run(["bash", os.path.join(v, "verif", "run.sh"), pid, tier], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=t, VERIF_SEED="1", VERIF_TIER=tier))
        caught = r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout
        what = ""
        if caught:
            reps = sorted(glob.glob(os.path.join(v, "verif", "evidence", "replay", f"{pid}*.json")))
            if reps:
                what = str(json.load(open(reps[0])).get("what"))[:200]
        return r.returncode, caught, what
    finally:
        shutil.rmtree(v)


def tests(t):
    want = {x.split("::")[-1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--runslow",
                        "-p", "randomly", "--randomly-seed=0", "--randomly-dont-reorganize", "-rA", "test/datagen/test_gen.py",
                        "test/fluctuation_field/test_generator_class.py", "test/fluctuation_field/test_low_freq.py"],
                       cwd=t, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=t, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
    passed = {l.split("::")[-1].strip() for l in r.stdout.splitlines() if l.startswith("PASSED")}
    return sorted(want - passed)


def trial(s, mode, checks=None):
    d, t = scratch()
    out = [s["id"]]
    try:
        if mode == "try":
            rc, o = demo(s["id"], t)
            out.append(f"demo-clean={rc}" + ("" if rc == 0 else " !!! " + o))
        p = subprocess.run(["git", "-C", t, "apply", os.path.join(SEEDED, s["id"], "patch.diff")], capture_output=True, text=True)
        if p.returncode:
            return out + ["PATCH DOES NOT APPLY " + p.stderr]
        if mode == "try":
            rc, o = demo(s["id"], t)
            out.append(f"demo-bug={rc}" + ("  !!! " if rc == 0 else "") + " " + (o.strip().splitlines()[-1][-100:] if o.strip() else ""))
            failed = tests(t)
            out.append("tests=ok" if not failed else f"!!! tests fail: {failed}")
        for pid in checks or [s["property"]]:
            rc, caught, what = check(pid, t)
            if not checks or caught or rc not in (0, 1):
                out.append(f"{pid}: " + (f"CAUGHT {what}" if caught else f"MISSED rc={rc}"))
    finally:
        shutil.rmtree(d)
    return out


def note(r):
    """Keep the verdict of the property's own check for DESIGN.md."""
    p = os.path.join(VERIF, "design", "seeded_results.json")
    d = json.load(open(p)) if os.path.exists(p) else {}
    v = r[-1].split(" ", 2)
    d[r[0]] = {"CAUGHT": "caught", "MISSED": "missed"}.get(v[1], "?") + " by " + v[0].rstrip(":") if len(v) > 1 else "?"
    json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    allc = "--all" in args
    ids = [a for a in args if not a.startswith("--")]
    S = load()
    ids = [i for i in S if not ids or i in ids or any(i.startswith(x) for x in ids)]
    if mode == "make":
        for i in ids:
            make(S[i])
        return
    checks = [f"C{n:02d}" for n in range(1, 40) if os.path.exists(os.path.join(VERIF, "checks", f"c{n:02d}.py"))] if allc else None
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for r in ex.map(lambda i: trial(S[i], mode, checks), ids):
            print(" | ".join(r), flush=True)
            if not allc:
                note(r)


if __name__ == "__main__":
    main()
