"""Fifth set: the low-frequency studies; late epochs, wide scales, large batches, other kinds of saved numbers."""
from seedlib import CAL, GEN
from seeds1 import CALP, CK, COM, DG, FG, GR, LFG, LOSS, NM, NN, OPS, PAR, SM, WP

LPF = "fluctuation_generation/low_frequency/large_plot.py"
SEEDS = []


def seed(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


STUDY = '''
import concurrent.futures as cf, contextlib, io
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
import drdmannturb.fluctuation_generation.low_frequency.large_plot as lp
plt.show = lambda *a, **k: None
G = lp.ffg.LowFreqGenerator
B = dict(sigma2=0.6, L_2d=10.0, psi=0.7, z_i=2.0, L1_factor=6.0, L2_factor=6.0, exp1=3, exp2=3)
RUNS = []
_gen, _init = G.generate, G.__init__
BAD = None
def init(self, config, *a, **k):
    if config["L1_factor"] == BAD: raise RuntimeError("no memory")
    # fewer points: the studies are made for large grids
    _init(self, dict(config, exp1=min(config["exp1"], 4), exp2=min(config["exp2"], 4 if config["exp2"] > 4 else config["exp2"])), *a, **k)
    self.asked = dict(config)
def generate(self):
    out = _gen(self); RUNS.append((self, out[0].copy(), out[1].copy())); return out
G.generate, G.__init__ = generate, init
class Pool:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def submit(self, f, *a):
        r = cf.Future()
        try: r.set_result(f(*a))
        except Exception as e: r.set_exception(e)
        return r
'''

seed("c31-completion-order", "C31", [(LPF, "        results.sort(key=lambda x: x[0])\n        domain_sizes = np.array([r[5] / 1000 for r in results])  # Convert to km\n", "        domain_sizes = np.sort([r[5] for r in results]) / 1000  # Convert to km\n")],
"runs that finish in another order than their sizes", "norms and variances are plotted against the sizes of other runs", STUDY + '''
cf.ProcessPoolExecutor, cf.as_completed = Pool, lambda fs: iter(list(fs)[::-1])
lp.domain_size_study([1, 6, 8])
ax = plt.gcf().axes[0]
x, y = ax.lines[0].get_data()
want = {}
for f in (1, 6, 8):
    r = [(g, u) for g, u, _ in RUNS if g.asked["L1_factor"] == f]
    m = sum(u for _, u in r) / len(r)
    want[f * 15.0] = np.sum(m**2) * r[0][0].user_dx * r[0][0].user_dy
assert all(np.isclose(b, want[a]) for a, b in zip(x, y)), (x, y, want)
''')

seed("c31-failed-run", "C31", [(LPF, '''                print(f"Error: {e}")

    if results:
        results.sort(key=lambda x: x[0])
        domain_sizes''', '''                print(f"Error: {e}")
                executor.shutdown(cancel_futures=True)
                break

    if results:
        results.sort(key=lambda x: x[0])
        domain_sizes''')],
"a run that fails while others are still to be collected", "runs that completed are left out of the figure", STUDY + '''
Pool.shutdown = lambda self, *a, **k: None
cf.ProcessPoolExecutor, cf.as_completed = Pool, lambda fs: iter(list(fs))
BAD = 6
lp.domain_size_study([1, 6, 8])
x = plt.gcf().axes[0].lines[0].get_xdata()
assert np.allclose(x, [15.0, 120.0]), x
''')

seed("c31-base-changed", "C31", [(LPF, '    local_config = config.copy()\n    local_config["L1_factor"] = domain_factor\n', '    local_config = config\n    local_config["L1_factor"] = domain_factor\n')],
"the same base configuration used for another run afterwards", "the base configuration keeps the size of the previous run", STUDY + '''
c = dict(B)
lp._run_single_domain_size(2, c, 1)
assert c == B, c
''')

seed("c31-lateral-spacing", "C31", [(LPF, '''    u2_norm = np.sum(u2**2) * gen.user_dx * gen.user_dy

    u1_var = np.var(u1)
    u2_var = np.var(u2)

    print(f"Completed domain''', '''    u2_norm = np.sum(u2**2) * gen.user_dy**2  # square domains and grids

    u1_var = np.var(u1)
    u2_var = np.var(u2)

    print(f"Completed domain''')],
"a grid with different numbers of points in the two directions", "the norm of the lateral component uses the wrong cell area", STUDY + '''
r = lp._run_single_domain_size(6, dict(B, exp2=2), 2)
g = RUNS[0][0]; m = (RUNS[0][2] + RUNS[1][2]) / 2
assert np.isclose(r[2], np.sum(m**2) * g.user_dx * g.user_dy), r
''')

seed("c31-angle-key", "C31", [(LPF, "        generated_fields[psi_deg] = (gen.X, gen.Y, u1_plot, u2_plot)  # Store X,Y too\n", "        generated_fields[round(psi_deg)] = (gen.X, gen.Y, u1_plot, u2_plot)  # Store X,Y too\n"),
 (LPF, "            X, Y, u1_plot, u2_plot = generated_fields[psi_deg]\n", "            X, Y, u1_plot, u2_plot = generated_fields[round(psi_deg)]\n")],
"two angles that round to the same degree", "both rows of the figure show the field of the second angle", STUDY + '''
lp.anisotropy_study(B, [43.2, 42.9], 1)
a = [ax for ax in plt.gcf().axes if ax.get_images()]
d = np.asarray(a[0].get_images()[0].get_array()).T
assert any(np.array_equal(d, u) for g, u, _ in RUNS if np.isclose(g.psi, np.deg2rad(43.2))), "wrong field"
''')

seed("c31-robust-average", "C31", [(LPF, "    F22_b_numerical = np.mean(np.array(f22_b_list), axis=0)\n", "    F22_b_numerical = np.median(np.array(f22_b_list), axis=0)\n")],
"three or more realisations", "the measured spectrum is the median, which is below the mean for such estimates", STUDY + '''
a, b = G(dict(B), seed=1), G(dict(B), seed=2)
t = G(dict(B), seed=2)
lp.recreate_fig2(a, b, 4)
f = []
for _ in range(4):
    t.generate(); k, _, f22 = t.compute_spectrum(); f.append(f22)
y = plt.gcf().axes[3].lines[1].get_ydata()
assert np.allclose(y, k * np.mean(f, axis=0)), (y, k * np.mean(f, axis=0))
''')

seed("c31-full-total", "C31", [(LPF, "            avg_full_total_var.append(np.var(gen.u1_full) + np.var(gen.u2_full))\n", "            avg_full_total_var.append(np.var(np.stack([gen.u1_full, gen.u2_full])) * 2)\n"), (LPF, "            avg_total_var.append(np.var(u1) + np.var(u2))\n", "            avg_total_var.append(np.var(np.stack([u1, u2])) * 2)\n")],
"components with different means, as on a window of the field", "the total variance contains the difference of the means", STUDY + '''
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
    lp.rectangular_domain_study(dict(B), 1)
import re
v = [float(x) for x in re.findall(r"Avg (?:var u1|var u2|Total var): (\\S+)", buf.getvalue())]
for i in range(0, len(v), 3): assert np.isclose(v[i] + v[i + 1], v[i + 2], rtol=1e-9), v[i : i + 3]
''')

seed("c14-same-sum", "C14", [(OPS, '        self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)\n', '''        key = (len(k1_input), float(k1_input.sum()))
        if getattr(self, "_grid_key", None) != key:  # the grid is the same in every epoch
            self.k = torch.stack(torch.meshgrid(k1_input, self.ops_grid_k2, self.ops_grid_k3, indexing="ij"), dim=-1)
            self._grid_key = key
''')],
"two batches of the same length and sum (for instance the same wavenumbers in another order) on one object", "the second batch is evaluated with the wavenumbers of the first", CAL + '''
pb = problem(ELT.TWOTHIRD)
k = torch.tensor([0.25, 0.75, 4.0])
with torch.no_grad():
    a = pb.OPS(k).clone(); b = pb.OPS(k.flip(0))
assert torch.allclose(b, a.flip(-1), rtol=1e-8), (a[0], b[0])
''')

seed("c14-amplitude-cap", "C14", [(OPS, "        self.Magnitude = torch.exp(self.logMagnitude)  # NOTE: this is sigma\n", "        self.Magnitude = torch.exp(self.logMagnitude.clamp(max=8.0))  # NOTE: this is sigma\n")],
"an amplitude above 2981", "the spectra stop growing with the amplitude", CAL + '''
k = torch.tensor([0.2, 0.9])
with torch.no_grad():
    a = problem(s=1.0).OPS(k); b = problem(s=1e4).OPS(k)
assert torch.allclose(b, 1e4 * a, rtol=5e-3), (b / a)
''')

seed("c30-decay-floor", "C30", [(CALP, "                return 0.95 ** (epoch - 10)\n", "                return max(0.95 ** (epoch - 10), 0.05)\n")],
"a balanced fit beyond epoch 68", "the rate stops decaying", CAL + '''
pb = problem(ELT.MANN)
pb.loss_history = {"ops": [1.0] * 14, "coherence": [1.0] * 14, "total": [2.0] * 14}
o = torch.optim.SGD([torch.nn.Parameter(torch.ones(1))], lr=1.0)
s = pb.get_adaptive_multi_scheduler(o, 200)
for _ in range(100): o.step(); s.step()
assert np.isclose(o.param_groups[0]["lr"], 0.95**90), o.param_groups[0]["lr"]
''')

seed("c20-cpu-unpickler-kind", "C20", [(COM, '            return lambda b: torch.load(io.BytesIO(b), map_location="cpu")\n', '            return lambda b: torch.load(io.BytesIO(b), map_location="cpu").float()\n')],
"a stored tensor of double precision or of integers read through the CPU unpickler", "values are rounded to single precision", CAL + '''
import pickle
from drdmannturb.common import CPU_Unpickler
t = torch.tensor([1 / 3, 2 / 7])
f = os.path.join(SCRATCH, "t.pkl")
pickle.dump({"x": t}, open(f, "wb"))
x = CPU_Unpickler(open(f, "rb")).load()["x"]
assert x.dtype == t.dtype and torch.equal(x, t), x
''')

seed("c19-late-advice", "C19", [(CALP, "            if epoch % 50 == 0:  # Check every 50 epochs\n", "            if epoch % 50 == 0 and epoch <= 250:  # Check every 50 epochs\n")],
"a calibration of 300 epochs or more", "no advice is given in the later part", CAL + '''
import io, contextlib
calls = []
pb = problem(nepochs=310, learning_rate=1e-3, tol=1e-14, ip=IntegrationParameters(ops_num_points=4))
from drdmannturb.spectra_fitting.loss_functions import LossAggregator
orig = LossAggregator.should_adjust_learning_rate
LossAggregator.should_adjust_learning_rate = lambda self, *a, **k: (calls.append(len(self.component_losses["total"])), orig(self, *a, **k))[1]
pb.calibrate(kaimal(4), optimizer_class=torch.optim.Adam)
assert len(calls) == 6, calls
''')

seed("c12-falling-profile", "C12", [(FG, "                normed_block[..., 0] += u1_interp[..., np.newaxis]  # Add u1_interp to u component\n", "                normed_block[..., 0] += u1_interp[..., np.newaxis] * (1.0 if plexp is None else np.sign(plexp + 1e-12))  # Add u1_interp to u component\n")],
"a power law with a negative exponent (a low-level jet above its nose) together with the two-dimensional model", "the low-frequency component enters with the opposite sign", GEN + '''
p = dict(zref=10.0, uref=8.0, z0=0.1, windprofiletype="PL", plexp=-0.2)
g = gen(config_2d_model=LF); q = gen(config_2d_model=LF)
d = g.generate(1, **p)[..., 1:, 0] - q.generate(1, **P)[..., 1:, 0]
d = d - d.mean(axis=(0, 1))
assert np.abs(d).max() < 1e-4, np.abs(d).max()
''')
