"""Fourth set: long runs, tiny coefficients, names with dots, sizes that are not powers of two."""
from seedlib import CAL, GEN
from seeds1 import CALP, CK, COM, DG, FG, GR, LFG, LOSS, NM, NN, OPS, PAR, SM, WP
from seeds3 import LOGS

SEEDS = []


def seed(id, property, edits, needs, what, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, **kw))


PLOT = CAL + '''
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
'''

seed("c27-dotted-name", "C27", [(CALP, '            base_filename = save_filename if save_filename else "drdmannturb_final_spectra_fit"\n', '            base_filename = Path(save_filename).stem if save_filename else "drdmannturb_final_spectra_fit"\n')],
"a figure name that contains a dot", "the figure is written under another name, so fits of different versions overwrite each other", PLOT + '''
pb = problem()
d = kaimal(8)
pb.calibrate(d)
out = os.path.join(SCRATCH, "fig")
pb.plot(plot_tau=False, save=True, save_dir=out, save_filename="fit.v1.2")
assert os.listdir(out) == ["fit.v1.2_spectra.png"], os.listdir(out)
''')

seed("c19-long-calibration", "C19", [(CALP, "            self.e_count += 1\n", "            self.e_count += 1\n            if self.e_count % 400 == 0:  # only the default window is needed\n                self.LossAggregator.component_losses = {k: v[-50:] for k, v in self.LossAggregator.component_losses.items()}\n"), (CALP, '            if epoch % 50 == 0:  # Check every 50 epochs\n', '            if not epoch % 50:  # Check every 50 epochs\n')],
"a calibration of more than 400 loss evaluations", "the history of the earlier evaluations is lost", CAL + '''
pb = problem(nepochs=410, learning_rate=1e-3, tol=1e-14, ip=IntegrationParameters(ops_num_points=4))
pb.calibrate(kaimal(4), optimizer_class=torch.optim.Adam)
n = len(pb.LossAggregator.component_losses["total"])
assert n == 411, n
''')

seed("c04-fine-vertical", "C04", [(FG, "        z_space = np.linspace(0.0, self.grid_dimensions[2], 2 ** (self.grid_levels[2]) + 1)\n", "        z_space = np.linspace(0.0, self.grid_dimensions[2], curr_block.shape[2], endpoint=curr_block.shape[2] <= 64)\n")],
"a vertical grid level of six or more", "the mean profile is evaluated at heights that stop short of the top of the grid", GEN + '''
a = gen(levels=(1, 1, 6)); b = gen(levels=(1, 1, 6))
f = a.generate(1, **P)[..., 0] - b.generate(1, **dict(P, uref=4.0))[..., 0]
z = np.linspace(0, 20.0, 65)
w = 4.0 * np.log(z / 0.1 + 1) / np.log(10.0 / 0.1)
assert np.allclose(f, w, atol=1e-6), abs(f - w).max()
''')

seed("c09-grid-rounding", "C09", [(WP, "    x = np.array([spacing[0] * n for n in range(shape[0])])\n", "    x = np.arange(0.0, spacing[0] * shape[0], spacing[0])\n"), (WP, "    y = np.array([spacing[1] * n for n in range(shape[1])])\n", "    y = np.arange(0.0, spacing[1] * shape[1], spacing[1])\n"), (WP, "    z = np.array([spacing[2] * n for n in range(shape[2])])\n", "    z = np.arange(0.0, spacing[2] * shape[2], spacing[2])\n")],
"a spacing whose multiples are rounded up, such as six points of 0.1", "the grid has one point too many", '''
from drdmannturb.fluctuation_generation.wind_plot import create_grid
for s in (0.1, 0.3, 0.7, 1.0):
    for n in range(1, 12):
        X, Y, Z = create_grid((s, s, s), (n, 2, 3))
        assert X.shape == (n, 2, 3), (s, n, X.shape)
''')

seed("c09-figure-floor", "C09", [(WP, "            surface_count=surf_count,\n", "            surface_count=surf_count,\n            isomin=float(np.percentile(wind_magnitude, 1)),\n")],
"any point whose speed is in the lowest percent", "the slowest points are missing from the volume figure", '''
from drdmannturb.fluctuation_generation.wind_plot import plot_velocity_magnitude
f = np.random.RandomState(0).normal(size=(6, 5, 4, 3))
t = plot_velocity_magnitude((1.0, 1.0, 1.0), f).data[0]
m = np.sqrt((f**2).sum(-1))
assert t.isomin is None or t.isomin <= m.min(), (t.isomin, m.min())
''')

seed("c10-large-multiple-of-four", "C10", [(LFG, "        comp_N1 = max(comp_N1, 2) if n1_min_ideal > 0 else 0\n", "        comp_N1 = max(comp_N1, 2) if n1_min_ideal > 0 else 0\n        comp_N1 += comp_N1 % 4 if comp_N1 > 4096 else 0\n")],
"an internal grid of more than 4096 points downwind, not a multiple of four", "the internal grid is larger than required", '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(sigma2=1.0, L_2d=100.0, psi=0.7, z_i=10.0, L1_factor=9001.3, L2_factor=5.0, exp1=5, exp2=2))
assert (g.comp_N1 - 2) * g.comp_dx < 900130.0, g.comp_N1
''')

seed("c11-single-row", "C11", [(LFG, "        start_y = (ny_computed - ny_requested) // 2\n", "        start_y = (ny_computed - ny_requested) // 2 if ny_requested > 1 else 0\n")],
"a requested grid with a single lateral point (exp2=0)", "the delivered line is the edge of the internal field, not its centre", '''
from drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_generator import LowFreqGenerator
g = LowFreqGenerator(dict(sigma2=1.0, L_2d=100.0, psi=0.7, z_i=10.0, L1_factor=8.0, L2_factor=1.0, exp1=3, exp2=0), seed=3)
u, v = g.generate()
j = (g.comp_N2 - 1) // 2
assert np.array_equal(u[:, 0], g.u1_full[(g.comp_N1 - 8) // 2 :, j][:8]), (u.shape, j)
''')

seed("c19-average-height", "C19", [(LOSS, "        self.ema_decay = 0.9\n", "        self.ema_decay = 0.9 if zref >= 1 else 0.99\n")],
"a reference height below one", "the running averages forget too slowly", LOGS + '''
agg = LossAggregator(LossParameters(), K, 0.5, tb_log_dir=os.path.join(SCRATCH, "z"))
y = torch.ones(2, 3)
v = [float(agg.eval(y, y * float(np.exp(x)), None, i)) for i, x in enumerate((1.0, 0.5, 0.2))]
w = 0.9 * (0.9 * v[0] + 0.1 * v[1]) + 0.1 * v[2]
assert abs(agg.running_averages["mse"] - w) < 1e-9, (agg.running_averages["mse"], w)
''')

seed("c29-small-shares", "C29", [(LOSS, "            if total_avg > 0:\n", "            if total_avg > 1e-6:\n")],
"running averages below one millionth (a fit that is nearly exact)", "the shares are no longer written", LOGS + '''
_, r, _ = log([1e-4, 2e-4, 1e-4])
assert len(r["Component_Ratios/MSE"]) == 2, list(r)
''')

seed("c18-tiny-coefficient", "C18", [(LOSS, "        if self.params.beta_reg > 0 and theta_NN is not None:\n", "        if self.params.beta_reg > 1e-8 and theta_NN is not None:\n")],
"a regularisation coefficient below 1e-8", "the enabled term is left out", LOGS + '''
agg, _, _ = log([0.1], beta_reg=5e-9)
assert agg.component_losses["regularization"][-1] > 0
''')

seed("c27-model-values", "C27", [(CALP, "        kF_model_vals = model_vals if model_vals is not None else self.OPS(k1_data_pts) / self.phys_params.ustar**2.0\n", "        kF_model_vals = (model_vals if model_vals is not None else self.OPS(k1_data_pts)) / self.phys_params.ustar**2.0\n")],
"model values handed to plot() and a friction velocity other than one", "values already divided by the squared friction velocity are divided again", PLOT + '''
pb = problem(phys=dict(ustar=2.0))
d = kaimal(8)
pb.calibrate(d)
with torch.no_grad():
    m = pb.OPS(d["k1"]) / 4.0
pb.plot(model_vals=m, plot_tau=False)
y = np.asarray(pb.ax_spectra_flat[0].lines[0].get_ydata())
assert np.allclose(y, m[0]), (y[:3], m[0][:3])
''')

seed("c23-raw-axis", "C23", [(CALP, '        sep_mapping = df.groupby("sep_idx")["spatial_sep"].first().sort_index()\n', '        sep_mapping = df.groupby("sep_idx")["spatial_sep"].mean().round(4).sort_index()\n')],
"separations given with more than four decimals", "the axis holds rounded separations", CAL + '''
f = os.path.join(SCRATCH, "c.dat")
open(f, "w").write("sep_idx freq_idx spatial_sep frequency coh_u coh_v coh_w\\n" + "".join(f"{i} {j} {(i + 1) / 3!r} {0.1 * (j + 1)!r} 0.5 0.4 0.3\\n" for i in range(3) for j in range(2)))
pb = problem(); pb.load_coherence_data(f)
assert np.allclose(pb.coherence_spatial_seps, [1 / 3, 2 / 3, 1.0], rtol=1e-9), pb.coherence_spatial_seps
''')
