#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that the texts stay reviewable)."""
import json
FG="drdmannturb/fluctuation_generation/"
SF="drdmannturb/spectra_fitting/"
LFPLOT=FG+"low_frequency/large_plot.py"; FFG=FG+"fluctuation_field_generator.py"; LF=FG+"low_frequency/fluctuation_field_generator.py"
CAL=SF+"calibration.py"; OPS=SF+"one_point_spectra.py"; LOSS=SF+"loss_functions.py"; DG=SF+"data_generator.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))

p("C01","The generated field does not depend on how the blocks were requested",
"Requesting blocks in several calls yields the same field as requesting the same total in one call (with the same profile), with or without a low-frequency component. Every call appends exactly the requested number of blocks, each as long as the grid is in the streamwise direction, after the field already present, whose values - and arrays handed out earlier - are never altered. Other calls in between (export, divergence, profile evaluation, repeated reads) change nothing.",
["histories","configurations"],"every sequence of public operations up to a depth, over models, blend lengths, grids and low-frequency on/off",
"The tests never call generate twice on one object nor mix it with other operations; splitting the request is a quantifier over call histories.",
[FFG],[("append after existing field","FluctuationFieldGenerator.generate"),("noise window carried between blocks","FluctuationFieldGenerator._generate_block"),("low-frequency offset of the next block","FluctuationFieldGenerator.generate")],
state=[dict(name="total_fluctuation",meaning="accumulated field",where=FFG),dict(name="noise",meaning="white-noise window of the last block",where=FFG)],
observe_at=["return value of generate","total_fluctuation"],hook_needed=None)

p("C02","Same seed and configuration, same field, whatever else runs",
"Two generators built with equal arguments and the same seed (0 included) produce the same field, low-frequency component included, however their calls are interleaved with each other, with other generators, in other threads, or with use or reseeding of global random state; different seeds give different fields and unseeded generators differ from each other. No argument passed to a generator is modified.",
["schedules","histories"],"all interleavings of the operations of two generators and global-random-state actions up to a depth, and all two-thread schedules of two generate calls with a bounded number of preemptions at source-line granularity",
"Tests build one generator at a time in one thread and never compare two runs.",
[FFG,FG+"gaussian_random_fields.py",FG+"sampling_methods.py",LF],[("per-object random state","GaussianRandomField.__init__/reseed"),("per-object transform buffers","Sampling_VF_FFTW"),("low-frequency stream derived from the seed","FluctuationFieldGenerator.__init__")],
observe_at=["return value of generate"],hook_needed=None)

p("C03","Blocks are filtered white noise on one continuous noise stream",
"Up to its normalisation every generated block equals the user's window of the periodic convolution, on the padded domain, of Gaussian white noise with the square root of the selected model's spectral tensor. Successive blocks use noise windows that overlap and advance by exactly one block length, so that with a fixed seed the whole field is determined by one continuous noise stream drawn from the seeded generator. This holds for every blend length, padding and model.",
["configurations","histories"],"all grids, models, length/time scales and blend lengths of a bounded lattice, several blocks each",
"No test looks at field values at all; the padding, trimming and window shift must be right for every combination of sizes.",
[FFG,FG+"gaussian_random_fields.py",FG+"sampling_methods.py"],[("noise window roll and refill","_generate_block"),("padding and cut-out slices","FluctuationFieldGenerator.__init__"),("noise scaling","GaussianRandomField.sample_noise")],
observe_at=["return value of generate"],hook_needed=None)

p("C04","Unit-intensity fluctuations around the requested mean profile",
"In every block, removing the requested mean profile from the streamwise component leaves fluctuations whose mean square over all points and components is one; the other components carry no mean profile. The logarithmic profile is uref*ln(z/z0+1)/ln(zref/z0), the power-law profile uref*(z/zref)^alpha, with z running from the ground to the top of the grid. Blocks generated with different profiles in one field differ only by their profiles.",
["inputs","configurations","histories"],"all profile parameter combinations of a lattice, all orders of profiles across calls",
"No stable test evaluates a profile or an intensity.",
[FFG],[("normalisation and profile","FluctuationFieldGenerator._normalize_block, log_law, power_law")],
observe_at=["return value of generate","log_law","power_law"],hook_needed=None)

p("C05","Rejected or interrupted requests leave a usable, consistent generator",
"A request with an unknown profile type, a non-positive reference height, reference velocity or roughness, or a power law without exponent raises a value error and leaves the generator as if it had not been made: later blocks are those of a run without the rejected request. If generation is interrupted at any point, the field present afterwards consists of whole blocks equal to the first blocks of the uninterrupted field.",
["fault_sequences","histories","crash_points"],"all valid/invalid request sequences up to a depth; an exception injected at every executed line of a multi-block generation",
"Tests check one rejection on a fresh object and never continue afterwards; no test interrupts anything.",
[FFG],[("validation before noise is drawn","FluctuationFieldGenerator._validate_profile, generate"),("append only after a block is complete","generate")],
observe_at=["exceptions","total_fluctuation after the call","later blocks"],hook_needed=None)

p("C06","The spectral tensor square root is the model's and is divergence-free",
"At every wavevector the tensor used for synthesis is finite, its product with its conjugate transpose equals the spectral tensor of the selected model (von Karman; Mann's sheared tensor with the Mann eddy lifetime; the calibrated eddy lifetime for the learned model), is positive semidefinite, is annihilated by the wavevector and vanishes at zero wavevector. It has the reflection and conjugation symmetries of the model, scales with the energy amplitude, and reduces to von Karman when the time scale is zero. Evaluating it has no side effects and does not depend on earlier evaluations. A kernel constructed with an evaluation function of its own returns that function's value.",
["inputs","configurations"],"all wavevectors of a signed lattice including axes and zero, for a lattice of length, time and energy scales and network weights",
"No stable test evaluates any tensor.",
[FG+"covariance_kernels.py",FG+"nn_covariance.py"],[("closed-form square roots","VonKarmanCovariance, MannCovariance, NNCovariance .precompute_Spectrum")],
observe_at=["return value of precompute_Spectrum"],hook_needed=None)

p("C07","Random-field sampling is exactly the stated linear transform of the noise",
"For every sampling method the sampled field is a fixed linear function of the supplied noise - the noise transformed, multiplied by the kernel's spectrum at the grid's wavenumbers, transformed back and scaled by the domain size - for every grid shape, even or odd. Sampling keeps no memory of earlier samples, leaves the supplied noise unchanged and returns arrays that later samples do not overwrite. Unknown methods are rejected, and reseeding with the same value reproduces the noise, which has variance equal to the cell volume.",
["inputs","histories","configurations"],"a complete basis of noise inputs for each method and grid shape of a lattice; all orders of two samples",
"No test compares a sampled value with anything; linearity over all inputs is decided by a basis, not by samples.",
[FG+"sampling_methods.py",FG+"gaussian_random_fields.py"],[("forward/backward transforms and scaling","Sampling_FFT, Sampling_FFTW, Sampling_VF_FFTW, Sampling_DST, Sampling_DCT"),("noise scaling","GaussianRandomField.sample_noise")],
observe_at=["GaussianRandomField.sample","VectorGaussianRandomField.sample"],hook_needed=None)

p("C08","Exported VTK files reproduce the field",
"The exported image file, read back, contains exactly the generated field: as many cells per direction as the field has points, the grid spacing of the domain, and the three velocity components of every point unchanged and in place. This holds for any number of blocks and any grid, for string and path file names, and exporting changes neither the field nor later generation.",
["configurations","histories"],"all grids and block counts of a lattice, export after every generate of a history",
"The export tests are not among those that pass, and they do not read the file back.",
[FFG],[("image export","FluctuationFieldGenerator.save_to_vtk")],observe_at=["the written file"],hook_needed=None)

p("C09","Divergence, grid and figure helpers agree with the field they are given",
"The divergence evaluator returns, for any vector field and spacing, the sum of the three component derivatives by second-order central differences (one-sided at the boundary), by default for the generated field; spacings of wrong length and fields without three components are rejected. The point grid has the requested shape and spacing with matching index order, the component split returns independent contiguous copies, and the volume figures and the maps of the low-frequency field show every value at its own coordinates, the maps on one colour scale symmetric about zero.",
["inputs","configurations"],"a complete basis of fields on all shapes of a lattice, all spacings of an alphabet",
"One stable test covers none of these; linear operators need a basis of inputs to be settled.",
[FFG,FG+"wind_plot.py"],[("finite differences","evaluate_divergence"),("grid and figures","create_grid, format_wind_field, plot_velocity_components, plot_velocity_magnitude, LowFreqGenerator.plot_velocity_fields")],
observe_at=["return values"],hook_needed=None)

p("C10","The low-frequency computational grid always contains the requested domain",
"For every configuration the internal low-frequency grid is isotropic at the finer of the two requested spacings, has an even number of points in each direction, is at least five length scales long and at least as long as the requested domain in each direction, and is no larger than that requires. The wavenumbers are those of that grid, the user coordinates start at zero with the requested spacing, a warning is issued exactly when the requested domain is smaller than five length scales, and the supplied configuration is not modified.",
["configurations"],"all combinations of domain factors and resolutions of a lattice, including non-representable ratios",
"The tests check six hand-picked configurations.",
[LF],[("grid sizing","LowFreqGenerator._calculate_buffer_sizes, __init__")],observe_at=["comp_* and user_* attributes"],hook_needed=None)

p("C11","The low-frequency field is the prescribed divergence-free filtered noise",
"On the internal grid the two velocity components are the linear filter of unit white noise given by the anisotropic two-dimensional spectrum and a stream function, so that the field is spectrally divergence-free, has zero mean, and has per-component ensemble variances equal to the sum of the discrete spectrum. The spectrum amplitude makes twice the integral of the shape equal to the requested variance. The delivered field is the central part of the internal one, sampled at the requested spacing; regenerating with a seeded source reproduces the sequence of fields.",
["inputs","configurations"],"a spanning set of noise inputs for each configuration of a lattice of spectrum parameters and grids",
"The tests compare one variance with a loose statistical tolerance on unseeded noise.",
[LF],[("spectral filter","LowFreqGenerator._generate_numba_helper"),("amplitude","_compute_c"),("extraction","_extract_field_portion"),("noise","generate")],
observe_at=["u1, u2, u1_full, u2_full"],hook_needed=None)

p("C12","The low-frequency field is added in place, continuously along the wind",
"When a low-frequency model is configured, each point of every block receives, on top of what the same generator without it produces, the bilinear interpolation of the two-dimensional field at its own downwind distance from the start of the whole field and at its lateral position with the block centred in the two-dimensional domain, zero outside it. The addition is the same at every height, affects only the streamwise and lateral components, and interpolating before the field exists is rejected.",
["configurations","histories"],"all splits of the block sequence, grids narrower/wider/longer than the 2D domain, coordinates inside, on the edge of and outside the domain",
"No test combines the two models.",
[FFG,LF],[("coupling","FluctuationFieldGenerator.generate"),("interpolation","LowFreqGenerator.interp_slice")],
observe_at=["difference of fields with and without low-frequency model","interp_slice"],hook_needed=None)

p("C13","Low-frequency spectra are estimated and predicted consistently",
"The estimated one-dimensional spectra of a generated field are the lateral sums of its two-dimensional periodogram at each positive streamwise wavenumber of the requested grid below the highest one, so that on a square-spaced grid they integrate to the field's variance at those wavenumbers. The theoretical spectra are the integrals of the two-dimensional spectrum over the lateral wavenumber up to the given limit, even in the streamwise wavenumber and zero at zero. Estimating before generating is rejected, and neither evaluation changes the field.",
["inputs","configurations"],"every Fourier mode of each grid of a lattice as input field; lattice of spectrum parameters and wavenumbers",
"No stable test evaluates either spectrum.",
[LF],[("periodogram","compute_spectrum, _compute_spectrum_numba_helper"),("quadrature","analytical_spectrum")],observe_at=["return values"],hook_needed=None)

p("C14","One-point spectra are the integrals of the sheared spectral tensor",
"For every eddy-lifetime model, parameter vector and wavenumber, the evaluated spectra are the wavenumber times the trapezoidal integral, over the configured grid, of the six components of the sheared von Karman (or adjustable-exponent) tensor in the order uu, vv, ww, uw, vw, uv, with the three scales equal to the exponentials of the first three parameters. Each output depends only on its own wavenumber and the current parameters - not on the other inputs, their order, or earlier evaluations - and the normal spectra are positive with the uw spectrum negative under shear.",
["inputs","configurations","histories"],"lattice of eddy-lifetime models, scales, exponents and grids; all subsets/orders of wavenumbers; all evaluation histories up to a depth",
"The one stable calibration-side test only checks data generation.",
[OPS,"drdmannturb/common.py"],[("tensor and quadrature","OnePointSpectra.forward, PowerSpectra, quad23"),("scales","exp_scales")],
observe_at=["OnePointSpectra.forward","CalibrationProblem.eval"],hook_needed=None)

p("C15","Every eddy lifetime is its stated function, positive and even",
"The constant, two-thirds, Mann and approximate Mann eddy lifetimes equal the time scale times their stated functions of wavenumber times length scale (the approximation being the log-log regression of the Mann function), and the learned one the time scale times the rational kernel of the residual network of the component magnitudes. All are positive, finite for non-zero wavevectors and unchanged by flipping the sign of any component, depend only on the current parameters and the wavevector, and respect batch shape; the von Karman and adjustable energy spectra equal their formulas.",
["inputs","configurations","histories"],"all signed wavevectors of a lattice, all models, scales, network shapes and activations of a lattice; all evaluation orders",
"The eddy-lifetime tests in the repository fail on an outdated API, so nothing is checked.",
[OPS,"drdmannturb/common.py","drdmannturb/nn_modules.py"],[("lifetimes","OnePointSpectra.EddyLifetime, MannEddyLifetime, Mann_linear_exponential_approx"),("network","TauNet, Rational")],
observe_at=["EddyLifetime","TauNet.forward"],hook_needed=None)

p("C16","Model parameters can be read and written back without loss",
"Reading the parameter vector and writing it back, or writing any vector of the right length and reading it, is lossless, and the model evaluated afterwards is the one of that vector; two problems of the same architecture given the same vector evaluate identically. The first three entries are the logarithms of length, time and amplitude, initialised from the physical parameters, and initial noise perturbs only the others, as white noise of the configured magnitude; vectors of wrong length and non-positive scales are rejected without changing the model. Reading and writing copy, the network has the configured layers and activations, and invalid network shapes or component counts are rejected.",
["histories","configurations"],"all sequences of read/write/evaluate/reject operations up to a depth over all model kinds and architectures of a lattice",
"No stable test touches the parameter vector.",
[CAL,"drdmannturb/nn_modules.py",OPS],[("getter/setter","CalibrationProblem.parameters"),("initial scales","log_dimensional_scales"),("validation","TauNet.__init__, CalibrationProblem.__init__")],
observe_at=["parameters","eval"],hook_needed=None)

p("C17","Calibration stops when it should and reports the parameters it reached",
"Calibration runs one optimiser step per epoch and ends after the first epoch whose loss is below the tolerance, or after the configured number of epochs; a non-finite loss raises an error instead of returning. It returns the exponentials of the first three entries of the final parameter vector (plus both exponents when they are learnable), fits exactly the requested three, four or six components against the matching data components, works for every model option, and leaves the supplied data unchanged. The learning rate follows a cosine from the configured rate to zero over the configured epochs.",
["histories","configurations"],"all sequences of epoch losses from {above, below tolerance, infinite, NaN} up to a depth; all combinations of model options",
"No stable test runs calibrate at all.",
[CAL],[("training loop","CalibrationProblem.calibrate"),("component selection","calibrate")],observe_at=["return value","number of optimiser steps","exceptions"],hook_needed=None)

p("C18","The training loss is the sum of exactly the enabled terms",
"The loss equals the mean squared log ratio of model to data plus, for each coefficient that is positive, that coefficient times its term - first and second order log-log slope penalties on the given wavenumbers scaled by reference height, mean squared network parameters, mean squared coherence misfit over the three components when coherence data are given - and nothing else. Each evaluation appends every term and the total to the history; a NaN term raises a value error; inputs are not modified.",
["inputs","configurations","histories"],"all on/off combinations of coefficients and optional inputs, over a lattice of spectra including penalised and unpenalised shapes, sequences of evaluations",
"No stable test evaluates a loss.",
[LOSS],[("terms","LossAggregator.eval, MSE_term, Pen1stOrder, Pen2ndOrder, Regularization, CoherenceLoss")],observe_at=["eval","component_losses"],hook_needed=None)

p("C19","Loss histories, averages and learning-rate advice follow the losses seen",
"After any sequence of losses the running averages are the first value followed by the 0.9/0.1 exponential average, the diagnostics describe exactly the last window of values (means, deviations, dominant term, improvement, stability) and are empty before a window is full. Learning-rate advice is given in the order insufficient data, stagnation, instability, dominance, healthy, with the factors 0.5, 0.3 and 0.7; calibration applies it every fiftieth epoch.",
["histories"],"all loss sequences over a small alphabet up to a length, with windows from two on",
"No test drives the aggregator over time.",
[LOSS,CAL],[("tracking","update_running_averages, get_loss_diagnostics, should_adjust_learning_rate, get_current_loss_info")],observe_at=["running_averages","return values"],hook_needed=None)

p("C20","A saved model reloads to the same model and the same wind",
"Saving a calibration problem writes one file, named after the eddy lifetime; loading it, with pickle or with the library's CPU unpickler, yields equal configuration objects and a parameter vector with which a new problem evaluates identically; saving again replaces the earlier file, saving to another directory does not touch it. A generator built from the file uses the saved scales and network - its padding, spectral tensor and fields are those of the saved model, not of any other state - and asking for a missing file or directory is rejected.",
["histories","configurations"],"all sequences of save/modify/load/generate operations up to a depth over all model kinds",
"No stable test saves or loads a model.",
[CAL,FFG,"drdmannturb/common.py"],[("pickle of five records","CalibrationProblem.save_model"),("load","FluctuationFieldGenerator.__init__")],observe_at=["the saved file","eval after loading","generate"],hook_needed=None)

p("C21","A crash or error while saving never loses the previous model",
"If saving is interrupted at any point - an error or the loss of the process at any file operation, or a failure to serialise - the file name holds either the complete previous model or the complete new one, and an interrupted save does not prevent a later one. A save that reported success is complete on disk.",
["crash_points","fault_sequences"],"every file-system operation of a save, failing or being the last one to happen, with unsynced writes kept, dropped or torn, over all histories of up to three saves",
"No test saves a model, let alone interrupts it.",
[CAL],[("write beside and replace","CalibrationProblem.save_model")],observe_at=["directory contents after the crash"],hook_needed=None)

p("C22","Model coherence is a normalised function of separation and wavenumber",
"The model coherence of each velocity component is the squared modulus of the cross-spectrum at the given lateral separation divided by that at zero separation, integrated over the configured coherence grid: one at zero separation, between zero and one elsewhere, even in separation. Each value depends only on its own separation and wavenumber and the current parameters, not on batch composition, earlier evaluations or whether training has started.",
["inputs","configurations","histories"],"lattice of separations, wavenumbers, models, scales and grids; all evaluation histories up to a depth",
"No test evaluates coherence.",
[OPS,CAL],[("coherence integral","OnePointSpectra.SpectralCoherence, _PowerSpectra_coherence, _quad23_coherence"),("grid fixed at construction","OnePointSpectra.__init__")],observe_at=["SpectralCoherence"],hook_needed=None)

p("C23","Coherence data are placed by their indices, whatever the file looks like",
"Loading a coherence file puts each row's three values at the grid position its separation and frequency indices denote and its physical separation and frequency on the axes, for any row order, any index offsets and gaps, and any subset of rows; positions without a row are missing values, and loading another file replaces everything. Calibration with such a file compares model and data at the same separations and frequencies, with frequencies converted to wavenumbers by the configured factor over the reference speed.",
["inputs","histories"],"all row permutations and subsets of small grids, index offsets and gaps; all load histories of two files",
"No test loads a coherence file.",
[CAL],[("placement","CalibrationProblem.load_coherence_data"),("model/data pairing","calibrate, _compute_model_coherence")],observe_at=["coherence_* attributes","loss inputs"],hook_needed=None)

p("C24","Synthetic reference spectra follow their formulas",
"The generated Kaimal and von Karman data equal the published frequency-weighted formulas at every wavenumber, with all other tensor entries zero, Kaimal data proportional to the squared friction velocity and depending on wavenumber only through its product with the height. Each row depends only on its own wavenumber, the wavenumbers are returned unchanged, and the inputs are not modified.",
["inputs","configurations"],"lattice of wavenumbers over ten decades, heights, velocities, length scales and constants, all orders and batch compositions, both floating types",
"The stable test evaluates one default case.",
[DG],[("formulas","generate_kaimal_spectra, generate_von_karman_spectra")],observe_at=["return values"],hook_needed=None)

p("C25","Measured-spectra files are accepted only when complete",
"Loading a table of measured spectra rejects a missing file and any table that lacks a component needed for the requested number of components (three normal, plus uw for four, plus vw and uv for six), naming the missing component, for every column order and any extra columns.",
["inputs"],"all subsets and orders of the six component columns, all component counts, with and without extra columns",
"The tests for the loader use an outdated API and fail.",
[DG],[("column validation","CustomDataLoader._load_ops_data")],observe_at=["exceptions"],hook_needed=None)

p("C26","Configuration objects hold what they were given, separately",
"Every configuration object keeps the values it was constructed with and its documented defaults, independent objects share no mutable state, and domain descriptions accept tuples, lists or arrays of length three, expose them as arrays and reject other lengths. Every name the package advertises can be imported.",
["inputs","configurations"],"all field subsets overridden, all container kinds and lengths, all pairs of instances, all advertised names",
"No test covers the configuration objects.",
["drdmannturb/parameters.py","drdmannturb/enums.py","drdmannturb/__init__.py"],[("dataclasses","parameters.py")],observe_at=["attributes"],hook_needed=None)

p("C27","Fit plots show each component's model and data in its own panel",
"Plotting a fit draws, in each of the six panels, the model spectrum of that component and, exactly for the fitted components, the data of that same component, divided by the squared friction velocity and with the sign of uw flipped, against the data's wavenumbers; the eddy-lifetime figure shows the model's lifetime along the stated directions. Saving writes the named files to the named directory, and plotting changes neither model nor data.",
["configurations","histories"],"all component counts, data sources, friction velocities and model kinds of a lattice, repeated plotting",
"No test plots a fit.",
[CAL],[("plot","CalibrationProblem.plot")],observe_at=["figure contents"],hook_needed=None)

p("C28","Gradients used in calibration are the derivatives of what is evaluated",
"For every model option and parameter vector, the gradient of every spectrum, coherence value, eddy lifetime and loss - with any combination of terms enabled - with respect to every parameter (the three scales, both exponents, every network weight and the exponent nu) is the derivative of the value that the same evaluation returns. It depends only on the current parameters, not on earlier evaluations or backward passes, and no enabled loss term is left out of it.",
["inputs","configurations","histories"],"all pairs of output and parameter over a lattice of model options and parameter vectors; all combinations of loss terms; all evaluation histories up to a depth",
"No stable test differentiates anything; a detached term still gives a decreasing loss on some data.",
[OPS,LOSS,"drdmannturb/nn_modules.py","drdmannturb/common.py"],[("differentiable evaluation","OnePointSpectra.forward, SpectralCoherence, EddyLifetime"),("loss","LossAggregator.eval"),("coherence in training","CalibrationProblem._compute_model_coherence")],
observe_at=["autograd gradients","finite differences of evaluations"],hook_needed=None)

p("C29","The training log and its plots record every evaluation",
"Every loss evaluation writes each enabled term, with its coefficient, to the TensorBoard log under its evaluation number with the value that entered the loss (for coherence also each component's misfit), and from the second number on the shares of the running averages, which add up to one; terms that are switched off are not written. Each calibration run writes one log of its own in the problem's logging directory and leaves earlier logs untouched; when calibration returns, the log is complete. The loss plots of run number n show, one panel per recorded term, the recorded series of the n-th run in order of time, however the directory is listed; a log file may be given as a string or a path.",
["histories","configurations","schedules"],"all loss words up to a depth for every subset of enabled terms; sequences of runs into one directory, every order of the directory listing; a writer thread that is slower than the fit",
"Tests only check that plotting does not raise.",
[LOSS,CAL,"drdmannturb/common.py"],[("logging","LossAggregator"),("plots","CalibrationProblem.plot_losses, plot_loss_logs")],
observe_at=["log files","figure contents"],hook_needed=None)

p("C30","The optional learning-rate schedules follow their phases",
"The three-phase schedule multiplies the configured rate of every parameter group by 2 during the first 30 % of the epochs, falls linearly from 2 to 1 until 70 %, and is 0.1 from then on, for any number of epochs. The balance-driven schedule leaves the rate unchanged until ten evaluations have been recorded; afterwards it halves the rate while the mean of the last five one-point losses is more than ten times or less than a tenth of that of the coherence losses, and otherwise applies 0.95 to the power of the epochs beyond the tenth. Neither changes the recorded history.",
["inputs","histories"],"every epoch of every run length up to a bound; all words over recorded objectives and scheduler steps",
"No test calls either schedule.",
[CAL],[("schedules","get_three_phase_scheduler, get_adaptive_multi_scheduler")],
observe_at=["rates of the optimiser's parameter groups"],hook_needed=None)

p("C31","The low-frequency studies report the runs they made",
"Every study of the low-frequency model makes one generator per configuration of its sweep - the given base configuration with only the swept entries replaced, and the base left as it was - and draws the requested number of realisations from each. What it returns, prints or plots are the averages over exactly those realisations, beside the configuration they belong to, whatever the order in which parallel runs finish; runs that fail are left out without affecting the others. The comparison figures show the measured spectrum, averaged over the realisations, beside the theoretical spectrum of the same generator. Any domain size and any number of angles is accepted.",
["inputs","configurations","schedules"],"all sweeps up to a length in every completion order with every subset of failing runs; all realisation counts up to a bound; base configurations on both sides of the minimum domain",
"No test calls a study; a mix-up of runs and labels shows only for some completion order.",
[LFPLOT],[("studies","mesh_independence_study, domain_size_study, length_AND_grid_size_study, rectangular_domain_study, anisotropy_study"),("comparisons","plot_spectra_comparison, recreate_fig2")],
observe_at=["returned values","standard output","figure contents"],hook_needed=None)

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
