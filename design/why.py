WHY = {
"C01": ("the field of the same configuration generated in one call, and bit-copies of everything handed out earlier", "the tests call generate once or twice with one configuration; the property quantifies over all ways of splitting requests and over calls in between.", "about 10 s quick"),
"C02": ("the field of the same seed made alone in a fresh order; the reference noise stream", "interference needs a particular interleaving of constructors, calls and global reseeding, or a preemption at one source line.", "about 15 s quick, hours thorough (all pairs of preemption points)"),
"C03": ("reference synthesis: padded layout, one continuous RandomState stream, float64 convolution with the reference tensor", "tests look at shapes and one stored value; window or padding errors show only for some blend length, block index or padding parity.", "about 8 s quick"),
"C04": ("profile formulas and the unit-intensity reference fluctuations", "profile and normalisation errors show only for particular parameters, heights or sequences of profiles.", "about 5 s quick"),
"C05": ("the run without the rejected or interrupted request", "needs an error at a particular line, between two particular blocks; enumerated completely.", "about 12 s quick"),
"C06": ("independent closed-form tensors (von Karman, Mann, learned lifetime) and their symmetries", "errors hide in single octants, planes, branches of the arctangent or scales.", "about 7 s quick"),
"C07": ("dense transforms built from definitions, applied to each basis vector", "linearity makes the complete basis a proof for all noise on that grid; aliasing needs a second sample.", "about 8 s quick"),
"C08": ("independent reader of VTK image files", "tests only check that a file is written.", "about 11 s quick"),
"C09": ("independent difference operator and coordinates", "every unit impulse on every shape decides the operator, including boundaries and anisotropic spacing.", "about 10 s quick"),
"C10": ("sizing rules written as inequalities", "rounding and parity corner cases over the whole factor x exponent lattice.", "about 12 s quick"),
"C11": ("reference filter in the spectral domain; exact ensemble variance from the complete impulse basis", "tests compare a noisy spectrum loosely; the basis identifies the map exactly.", "about 14 s quick"),
"C12": ("difference with the generator without the model, and an independent bilinear interpolator", "placement errors need a particular geometry or later block.", "about 16 s quick"),
"C13": ("quadratic form of each Fourier mode; log-grid quadrature of the two-dimensional spectrum", "tests compare smoothed averages.", "about 11 s quick"),
"C14": ("float64 integrals of the reference tensor", "no stable test evaluates a spectrum against a value; batch and history dependence need sequences.", "about 15 s quick"),
"C15": ("stated lifetime functions", "every sign pattern, shape and option, and all histories of parameter changes.", "about 8 s quick"),
"C16": ("the abstract vector and its reference evaluation", "aliasing shows only after write, mutate, read sequences.", "about 11 s quick"),
"C17": ("a reference training loop with the same torch optimiser; scripted losses", "every loss word up to the depth, including non-finite values at every position.", "about 14 s quick"),
"C18": ("explicit sums written column by column", "all combinations of enabled terms; histories of evaluations.", "about 9 s quick"),
"C19": ("reference automaton over loss words", "window boundaries and the precedence of the advice need particular words.", "about 7 s quick"),
"C20": ("an abstract file system of saved vectors; reference synthesis from the saved model", "stale or mixed-up state needs save / change / load / generate histories.", "about 24 s quick"),
"C21": ("old or new complete model, byte for byte", "needs a crash, error or torn write at one particular file-system call.", "about 25 s quick"),
"C22": ("float64 cross-spectrum integrals", "first-use state and batch effects need histories.", "about 22 s quick"),
"C23": ("the dictionary (separation index, frequency index) -> values, and an independent coherence evaluation at every optimiser step", "all row orders and subsets; the tests have one sorted file.", "about 9 s quick"),
"C24": ("published formulas", "precision, batches and parameter products.", "about 11 s quick"),
"C25": ("decision table over column sets", "all 64 column sets in all orders.", "about 5 s quick"),
"C26": ("table of documented defaults", "all subsets of fields; two-object histories for shared state.", "about 8 s quick"),
"C27": ("curves recomputed from data and parameters", "panel mix-ups depend on component count, normalisation and data source.", "about 40 s quick"),
"C28": ("central differences of the evaluated values", "each (option, output, parameter) triple is its own gradient path.", "about 30 s quick"),
"C29": ("loss words with known terms; the run's own history; TensorBoard's reader", "a log is only complete or in order under particular writer schedules, directory orders and run counts.", "about 40 s quick"),
"C30": ("the phase formulas evaluated per epoch; the word of recorded losses", "phase boundaries depend on the run length and the balance on the last five of an unbounded history.", "about 5 s quick"),
"C31": ("every configuration asked for and every realisation drawn, recorded at the generator; spectra recomputed from seeded twins", "a mix-up of run and label needs a completion order, a failing run or a domain below the minimum.", "about 30 s quick"),
}
