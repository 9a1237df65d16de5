"""Text of every property (source of properties.jsonl and of the MANIFEST entries)."""

MODEL = 'runtime monitor: reference model run in lock-step with random operation histories'
ORACLE = 'runtime monitor: independent reference oracle over randomised and hostile workloads'
META = 'runtime monitor: reference oracle plus metamorphic/conservation checks over randomised workloads'
TRACE = 'runtime monitor: recorded event log checked offline, with injected faults'
SAN = 'sanitizer: bounds-checked compiled kernels, guard canaries and crash watch under hostile workloads'
N0 = ('Bounded exploration: the property was observed to hold on every execution of the seeded workload; nothing is '
      'claimed about inputs outside the generator. Trusts numpy/scipy primitives used by the reference.')


def define(prop):
    prop('C01', 'Nested string-keyed mapping behaves as nested dictionaries with path access',
         'A dictionary container answers lookups, assignments, deletions and defaults by single keys, by slash-separated '
         'paths (empty path segments ignored, one nested mapping descended per segment) and by tuples of those '
         '(element by element), exactly as plain insertion-ordered nested dictionaries would, with a KeyError and no '
         'change for absent keys. Membership tests look at direct children only; values are stored by reference and '
         'nested mappings are shared, while copies and unions never share top-level state with their sources. Plain, '
         'printed, JSON and YAML forms show exactly the stored nested items.',
         'histories inputs', 'all operation sequences over all pools of nested mappings with string keys',
         'Tests touch a handful of fixed keys; equality with a dictionary model must hold after every history of nested '
         'reads, writes, deletes, copies and unions.',
         'core/containers/data_dict.py core/abc.py',
         [('path split and iterative descent', 'core/containers/data_dict.py:DataDict.__getitem__/__setitem__/__delitem__'),
          ('shallow copies', 'core/containers/data_dict.py:DataDict.copy/__or__/update')],
         ['every public mapping operation', 'to_simple_repr/to_json/to_yaml'], MODEL, N0)

    prop('C02', 'Column tables keep columns, rows and ownership exact',
         'A column table is an insertion-ordered mapping from names to arrays in which every access by key, tuple of keys '
         'or attribute returns the stored column itself, and row selection, column selection, stacking, concatenation, '
         'union and conversion apply the same operation to every column without changing values, dtypes or order. '
         'Construction, assignment, update, selection, copying and concatenation never share memory with their sources '
         'unless no-copy was requested, in which case no needless copy is made. Pickling and deep or shallow copying '
         'reproduce the table.',
         'histories inputs', 'all operation sequences over tables with any dtypes, trailing shapes, memory layouts and row selectors',
         'Tests construct one or two small tables; aliasing and per-column consistency need every order of operations.',
         'core/containers/data_table.py',
         [('copy discipline', 'core/containers/data_table.py:DataTable.__init__/__setitem__/update/subset/subcol'),
          ('attribute access', 'core/containers/data_table.py:DataTable.__getattr__')],
         ['public operations of the table', 'numpy.shares_memory between table and sources'], MODEL, N0)

    prop('C03', 'HDF5 write-then-read returns what was written',
         'Data written to an HDF5 file as nested dictionaries, tables, arrays, scalars or strings, by any of the writing '
         'entry points (whole-file or group dump, dataset and attribute managers, one-call shortcuts, text-table '
         'conversion, virtual or direct creation), is returned by every reading entry point with the same nesting, '
         'names, shapes, dtypes and values (strings come back as bytes from data sets and as text from attributes), also '
         'after closing and reopening and under any valid selection argument. Listing, iteration, length and membership '
         'report exactly the stored names.',
         'inputs histories', 'all nested dictionaries of supported values, names, dtypes and shapes incl. empty and 0-d; all entry points',
         'Tests round-trip a few fixed arrays through some entry points; the guarantee ranges over all trees, dtypes and entry points.',
         'io/h5/named_objs.py io/h5/shortcuts.py io/h5/utils.py io/h5/abc.py',
         [('recursive dump/load', 'io/h5/named_objs.py:Group.dump/Group.load and File.dump_to/load_from'),
          ('managers', 'io/h5/named_objs.py:DatasetManager/AttrManager')],
         ['files reopened through the library and through plain h5py'], ORACLE,
         N0 + ' Trusts h5py/libhdf5.')

    prop('C04', 'HDF5 overwrite, create and open flags are honoured',
         'Every file and item access flag of the HDF5 layer does exactly what it promises: exclusive creation fails if the '
         'target exists and leaves it unchanged, truncation discards, read-only never modifies, append or overwrite keeps everything '
         'not named in the request, and create-or-access returns the existing object of the requested kind. Asking '
         'for an item under a name that holds another kind of object, or that does not exist, is refused without side effects.',
         'histories configurations', 'all sequences of file opens, item writes and reads with all documented flags over a small name space',
         'Tests use one or two flag combinations; flag semantics are about histories of conflicting requests.',
         'io/h5/named_objs.py io/h5/abc.py',
         [('flag dispatch', 'io/h5/named_objs.py: create_group/create dataset flags x, ac, ca')],
         ['state of the file after each operation, read back with plain h5py'], MODEL, N0)

    prop('C05', 'A failed HDF5 write corrupts nothing already stored',
         'When writing a tree to HDF5 fails part-way (unsupported value, name conflict, or an I/O error at any step), everything '
         'stored before the failing step remains readable and unchanged, the error reaches the caller, and the file is closed so that it '
         'can be reopened for reading and writing at once.',
         'fault_sequences crash_points', 'an error injected at every successive create/write step of a dump, for random trees',
         'No test injects a failure; the quantifier is over every point at which a write can fail.',
         'io/h5/named_objs.py io/h5/utils.py',
         [('context-managed file handles', 'io/h5/named_objs.py:File.__enter__/__exit__, File.dump_to/load_from')],
         ['low-level create/write calls (wrapped by the harness)', 'file contents after the failure'], TRACE, N0)

    prop('C06', 'Fortran unformatted records are decoded exactly and in step',
         'Reading a sequential unformatted Fortran file returns, for any sequence of reads and skips, exactly the '
         'payload bytes of the corresponding record reinterpreted as the requested type and shape, and leaves the reader '
         'at the next record. A record whose leading and trailing lengths disagree, or that is truncated, is reported as '
         'an error rather than returned as data.',
         'inputs histories fault_sequences', 'all record sequences and read/skip interleavings; corrupted markers and truncated files',
         'Tests do not read Fortran files at all; correctness needs arbitrary record sequences and corruptions.',
         'io/binary/fortran.py', [('record markers', 'io/binary/fortran.py')],
         ['values returned and stream position'], MODEL, N0)

    prop('C07', 'Configuration and spreadsheet text parse to the stated values',
         'Parsing YAML text or files returns the same nested data the text denotes; a look-up by path returns the stored '
         'node, taking the deepest matching node on the way as the path descends, and a missing entry is a KeyError. '
         'Spreadsheet input and output preserve sheet names, column names, order and cell values, with the columns of '
         'several sheets told apart by sheet name.',
         'inputs', 'all nested configurations and all small sheets of supported cell types',
         'No test covers the parsers; equality must hold for arbitrary nested documents.',
         'io/yaml.py io/excel/__init__.py', [('parser', 'io/yaml.py'), ('sheets', 'io/excel/__init__.py')],
         ['parsed values'], ORACLE, N0)

    prop('C08', 'Periodic box and polar frames wrap, separate and rotate correctly',
         'In a periodic box positions within one box length of it are wrapped to their unique equivalent inside the box, '
         'separations of points take the nearest image, and results do not change when a point is replaced by one of its '
         'images. Conversions between polar and Cartesian coordinates invert each other, and rotations preserve lengths '
         'and compose additively.',
         'inputs', 'all box sizes, positions (scalars, arrays, any leading shape) and integer numbers of periods',
         'Tests check a few points; periodicity and inverses are for-all statements over reals.',
         'core/dataproc/frame.py', [('wrap and nearest image', 'core/dataproc/frame.py')],
         ['values returned'], META, N0)

    prop('C09', 'Small array utilities do what they say on every input',
         'Clipping, safe division, logarithms and other guarded arithmetic, masks and their combinations, chunk '
         'iteration, filters, padding, sorting, selection and attribute containers return what the corresponding '
         'elementary definition gives for every input shape and dtype, including zeros, negatives, NaN, infinities and '
         'empty input, and never modify their inputs unless asked to work in place.',
         'inputs', 'all numeric arrays (dtype, shape, special values) and all parameters of each helper',
         'Tests sample a few benign arrays.',
         'core/dataproc/num.py core/dataproc/mask.py core/dataproc/iter.py core/dataproc/filter.py core/dataproc/data_structs.py core/arrays/array.py core/arrays/dtype.py',
         [('guarded arithmetic', 'core/dataproc/num.py:Num'), ('chunking', 'core/dataproc/iter.py')],
         ['values returned', 'input arrays before/after'], ORACLE, N0)

    prop('C10', 'Grids and bins locate, enclose and count every value exactly once',
         'Bins defined by edges, range, width or quantiles have the promised edges, centres, widths and counts; every value is assigned to exactly the '
         'bin whose half-open interval contains it and out-of-range values follow the stated policy; binned data, sub-bin splits and histograms contain '
         'each selected sample exactly once, so counts and weights are conserved. Uniform and non-uniform grids return the nearest/left node for '
         'every query consistently with their node positions.',
         'inputs', 'all edge sets, value arrays (incl. values on edges, outside, NaN where stated), weights and policies',
         'Tests use one value set per class; off-by-one errors appear at edges and empty bins.',
         'stats/binning.py core/dataproc/grid.py core/dataproc/data_structs.py',
         [('location', 'stats/binning.py:*.locate'), ('grid location', 'core/dataproc/grid.py')],
         ['indices, members, counts per bin'], META, N0)

    prop('C11', 'Bisection and linear interpolation are exact on every node set',
         'Bisection returns the interval that contains the query for every ascending node set, and linear interpolation '
         'returns the value of the piecewise-linear function through the nodes (exact at nodes; outside them the end '
         'value or the requested fixed value), for scalar and array queries alike. Node sets that are not ascending are '
         'rejected.',
         'inputs', 'all ascending node sets (2 to hundreds of nodes, uneven spacing), queries at, between, and outside nodes',
         'Tests interpolate one smooth function; bisection faults show only at particular positions and sizes.',
         'numerical/interpolate.py', [('bisection', 'numerical/interpolate.py'), ('Linear', 'numerical/interpolate.py')],
         ['values returned'], ORACLE, N0)

    prop('C12', 'Reductions equal their statistical definitions',
         'Every reduction (count, sum, mean, standard deviation, quantiles, median, error bar, and combinations of them, '
         'also when chosen by name) returns the value of its textbook definition over the selected samples, row by row '
         'for two-dimensional data, honouring weights, masks and the fill value for empty selections, independent of '
         'sample order and of the other rows.',
         'inputs configurations', 'all sample arrays, weights, masks, axes, fill values and reduction choices',
         'Tests call some reductions on one array.',
         'stats/reduction.py stats/summary.py stats/stacking.py', [('reductions', 'stats/reduction.py')],
         ['values returned'], META, N0)

    prop('C13', 'Local regressions use exactly the neighbours they promise',
         'Nearest-neighbour and local-kernel regressions return, for each query, the stated reduction over exactly the '
         'nearest training points (the first k of them that lie nearer than the distance limit) or those within the '
         'kernel radius, weighted by the kernel and sample weights, with the requested scaling, minimum number of points '
         'and fill value; the result does not depend on the order of training points or on the other queries.',
         'inputs configurations', 'all training sets, dimensions, k, kernels, weights, reductions, limits and query sets',
         'Tests run one regression without an oracle.',
         'stats/regression.py stats/kernel.py', [('neighbour selection', 'stats/regression.py')],
         ['predicted values'], META, N0)

    prop('C14', 'Density estimates and contour levels equal their definitions',
         'Histogram, nearest-neighbour and kernel density estimates return at every query the value given by their '
         'definition (weights, normalisation and support included), and integrate to the total weight or to one as '
         'requested. Probability-to-level conversions and sorted masses select the smallest set of densest cells or '
         'points that encloses the requested probability.',
         'inputs configurations', 'all sample sets, weights, dimensions, bandwidths, bin sets, probabilities',
         'Tests draw one Gaussian sample and look at shapes.',
         'stats/density_estimation.py plot/two_dim.py stats/summary.py', [('estimators', 'stats/density_estimation.py'), ('levels', 'plot/two_dim.py')],
         ['density values and levels'], META, N0)

    prop('C15', 'Random draws are reproducible, isolated and correctly distributed',
         'The same seed gives the same draws whatever else the program does, namely those of a numpy generator with that '
         'seed; different generators do not disturb each other or the global random state, and a generator passed in is '
         'used and advanced rather than replaced. Draws have the promised shape, support and distribution: uniform and '
         'normal numbers, points on the sphere, noise, choices, shuffles and permutations.',
         'histories inputs configurations', 'all seeds, interleavings of several generators, shapes and distributions',
         'Tests check one seed; isolation is a statement about interleavings.',
         'stats/random.py stats/sampling.py', [('generator ownership', 'stats/random.py:Rng')],
         ['draws', 'state of numpy global generator'], META, N0)

    prop('C16', 'Data transforms are monotone, standardising and invertible as promised',
         'Rank-to-distribution mapping preserves order and yields the target distribution, standardisation gives the '
         'stated location and scale and is undone by its inverse for any data including other data than it was fitted '
         'on, and every smoothing kernel (Gaussian, top-hat) is non-negative, bounded by its support and equal to its '
         'formula.',
         'inputs', 'all sample arrays, axes, options and kernel parameters',
         'Tests transform one random sample.',
         'stats/preprocessing.py stats/prob_dist.py stats/kernel.py', [('fit/transform', 'stats/preprocessing.py'), ('kernels', 'stats/kernel.py')],
         ['transformed values'], META, N0)

    prop('C17', 'Mesh assignment and interpolation conserve mass and respect periodicity',
         'Depositing particles on a periodic mesh conserves total mass, spreads each particle over its neighbouring '
         'cells with the stated weights and commutes with whole-cell and whole-box shifts, and reading a field back at '
         'positions uses the same weights. Fields or partial deposits dumped in any number of pieces and joined are '
         'identical to the original field, with its metadata.',
         'inputs configurations', 'all particle sets (on cell centres, faces, box edges), weights, mesh sizes, box sizes, slab splits',
         'Tests deposit one random set and check shapes.',
         'field/cubic_box/mass_assignment.py field/cubic_box/field.py field/cubic_box/mesh.py', [('CIC', 'field/cubic_box/mass_assignment.py')],
         ['mesh values'], META, N0)

    prop('C18', 'Fourier smoothing applies exactly its window on even and odd meshes',
         'Smoothing a periodic field multiplies every Fourier mode by the stated window at that mode (Gaussian or top-hat of the given scale, with optional assignment correction), for even and odd meshes, preserving the mean, the mesh, '
         'real-valuedness, linearity and translation covariance, and leaving the input field unchanged.',
         'inputs configurations', 'all fields, mesh sizes (even and odd), box sizes, filter types and radii',
         'Tests smooth one field on one even mesh.',
         'field/cubic_box/smoothing.py field/cubic_box/fft.py', [('k-space windows', 'field/cubic_box/smoothing.py'), ('wave numbers', 'field/cubic_box/fft.py')],
         ['smoothed fields'], ORACLE, N0)

    prop('C19', 'Tidal tensors and cosmic-web classes follow their definitions',
         'Potential, tidal tensor and deformation eigenvalues of a density field equal the Fourier-space definition '
         '(symmetric tensor, trace equal to the overdensity), eigenvalues come in the stated order, and each cell is '
         'classified by the number of eigenvalues above the threshold; all of it covariant under mesh translations and '
         'axis permutations.',
         'inputs configurations', 'all density fields, mesh sizes (even and odd), thresholds and box sizes',
         'Tests run one field without an oracle.',
         'field/cubic_box/gravity.py field/cubic_box/cosmic_web.py', [('k-space tensor', 'field/cubic_box/gravity.py'), ('classification', 'field/cubic_box/cosmic_web.py')],
         ['tensor, eigenvalues, classes'], META, N0)

    prop('C20', 'Neighbour searches find all and only the neighbours',
         'Tree and mesh neighbour queries return, for every query, all points within the radius and only those, under '
         'the stated metric (periodic images included), with correct distances, indices, counts and sums; a mesh query '
         'may list farther points of the cells it visits but never misses one within the radius. Results match an '
         'exhaustive search and are independent of point order, leaf size and mesh resolution.',
         'inputs configurations', 'all point sets (duplicates, clustered, on box edges), radii, k, box sizes, mesh sizes, leaf sizes',
         'Tests query one random set.',
         'field/neighbor/kd_tree.py field/neighbor/kd_mesh.py', [('periodic search', 'field/neighbor/kd_tree.py'), ('mesh buckets', 'field/neighbor/kd_mesh.py')],
         ['returned indices, distances, sums'], ORACLE, N0)

    prop('C21', 'Cosmological background quantities satisfy the Friedmann relations',
         'Distances, times, densities and expansion rates of every cosmology object equal the integrals and formulas of '
         'its parameters in the stated units, predefined models carry their published parameters, distance, time and '
         'redshift inversions undo the forward functions, and quantities are monotone in redshift.',
         'inputs configurations', 'all flat parameter sets, all predefined models, redshifts from 0 to high values, scalars and arrays',
         'Tests evaluate a few redshifts of one model.',
         'astro/cosmology/model.py astro/cosmology/flat_lambda_cdm_nr.py astro/cosmology/param.py', [('background', 'astro/cosmology/model.py'), ('inverse tables', 'astro/cosmology/model.py')],
         ['returned quantities and units'], ORACLE, N0)

    prop('C22', 'Power spectra, growth and variances satisfy their defining integrals',
         'For every parameter set the transfer function, growth factor, linear power spectrum, dimensionless power and '
         'mass or radius variance equal their defining formulas and integrals, the spectrum is normalised to the '
         'requested amplitude, growth scales power by its square, variances decrease with scale, and invalid parameters '
         'are rejected.',
         'inputs configurations', 'all cosmological parameter sets, wave numbers, redshifts, radii and masses in the stated ranges',
         'Tests evaluate a default object.',
         'astro/cosmology/power_spectrum.py', [('transfer/growth', 'astro/cosmology/power_spectrum.py')],
         ['returned spectra and variances'], ORACLE, N0)

    prop('C23', 'Halo relations invert each other and match their tables',
         'Virial masses, radii, velocities and densities are mutually consistent at every redshift and overdensity '
         'definition, concentration and profile functions invert each other over their domain, enclosed mass is '
         'monotone, and tabulated relations interpolate their stored tables exactly at the nodes and linearly between '
         'neighbours elsewhere, refusing queries outside the table. Halo mass functions are requested from the calculator for the stated masses, step, redshift '
         'and mass definition (caller options taking precedence) and returned unchanged in the library\'s mass unit.',
         'inputs configurations', 'all masses, radii, redshifts, concentrations and cosmologies in range',
         'Tests evaluate single points.',
         'astro/cosmology/halo_theory.py', [('virial relations', 'astro/cosmology/halo_theory.py')],
         ['returned quantities'], META, N0)

    prop('C24', 'Units and sky coordinates convert exactly and invertibly',
         'Unit systems give every derived unit and constant the value implied by its base units, so any physical formula '
         'evaluates to the same physical quantity in every system, and conversion there and back is the identity. '
         'Sexagesimal strings and parts (degrees or hours, minutes, seconds) convert to degrees exactly, with signs '
         'preserved.',
         'inputs configurations', 'all base-unit triples, Hubble parameters, quantities; all angles incl. negative and fractional',
         'Tests check one or two values.',
         'astro/quantity/unit_system.py astro/coords/cvt.py', [('unit derivation', 'astro/quantity/unit_system.py'), ('sexagesimal', 'astro/coords/cvt.py')],
         ['returned values'], ORACLE, N0)

    prop('C25', 'Symmetry operations form the promised groups and act isometrically',
         'The operations of each supported point group are distinct orthogonal transformations closed under composition '
         'and inverse, act on points and arrays of points as the matching matrices, preserve lengths, angles and the '
         'cube or square they act on, and applying an operation and its inverse returns the input.',
         'inputs configurations', 'all operations of all groups, all point arrays and centres',
         'Tests check a subset of operations.',
         'group_theory/point_group.py', [('operation tables', 'group_theory/point_group.py')],
         ['transformed points'], META, N0)

    prop('C26', 'Compiled kernels never touch memory outside their arrays',
         'No call of the public API with valid arguments reads or writes outside the arrays involved, crashes the interpreter, or returns uninitialised memory, however small, empty, odd-shaped, strided or clustered the input is.',
         'inputs programs', 'all public entry points that reach compiled code, on boundary-hugging inputs',
         'Tests run the kernels without bounds checking, where an out-of-range access is silent.',
         'field/cubic_box/mass_assignment.py field/cubic_box/gravity.py field/cubic_box/cosmic_web.py numerical/interpolate.py field/neighbor/kd_mesh.py field/neighbor/kd_tree.py stats/density_estimation.py stats/regression.py',
         [('index arithmetic in compiled loops', 'field/cubic_box/mass_assignment.py and others')],
         ['IndexError from bounds-checked kernels, canaries, signals'], SAN, N0)

    prop('C27', 'Calls leave inputs and global state alone, and repeat to the same answer',
         'No computing call of the library modifies the arrays, mappings or objects passed to it, nor process-wide state such as the global random generator, floating-point error mode, warning filters, printing options, plotting defaults or working directory; '
         'and the same call on the same object repeated, in any order with other calls, returns the same answer.',
         'histories inputs', 'all interleavings of public computing calls on shared inputs',
         'Tests never compare inputs and global state before and after.',
         'stats/binning.py stats/reduction.py stats/regression.py stats/density_estimation.py field/cubic_box/smoothing.py astro/cosmology/model.py astro/cosmology/power_spectrum.py plot/runtime_config.py',
         [('defensive copies', 'stats/binning.py'), ('caches', 'core/abc.py:HasCache')],
         ['inputs and global state before/after each call'], META, N0)

    prop('C28', 'Plot calls draw exactly the requested artists',
         'Every drawing call of the plotting layer adds to the requested axes, and only there, the artists bare matplotlib draws from the given data with the formatter styles in force (line, marker, error bar, fill, text), '
         'call-level options overriding formatter settings, formatter settings overriding defaults, unknown formatter keys refused. Frame settings (limits, labels, scales, ticks, grid) stay in force on later frame calls; calls on arrays of axes act on every axes of the array, '
         'indexing, transposing and flattening keep the axes objects. Figures, subplots, subfigures, colour bars and secondary axes take the stated layout. Configuration objects change global settings only when applied, then exactly theirs, and never one another or the defaults.',
         'histories configurations', 'all sequences of style settings and drawing calls over axes arrays of any shape',
         'Tests draw a few figures and look at nothing.',
         'plot/axes.py plot/artist_formatter.py plot/figure.py plot/runtime_config.py plot/color.py plot/shortcut.py plot/abc.py',
         [('formatter merging', 'plot/artist_formatter.py'), ('broadcast', 'plot/axes.py:AxesArray')],
         ['artists of the figure', 'rcParams before/after'], MODEL, N0)

    prop('C29', 'Caches, logs, names and descriptions are faithful',
         'A cache returns the first computed value for its key for ever, computes each key at most once and never mixes keys or objects; printed, YAML, JSON and list descriptions of objects show exactly '
         'their listed attributes; log calls emit exactly their message when and only when enabled; names and parameter lists keep order and look-ups.',
         'histories configurations', 'all interleavings of cache, log and description calls over several objects',
         'Tests never exercise these bases directly.',
         'core/abc.py astro/cosmology/param.py', [('cache', 'core/abc.py:HasCache/HasMultiCache'), ('representations', 'core/abc.py:HasDictRepr')],
         ['calls of the fallback', 'standard output'], MODEL, N0)

    prop('C30', 'Resampling keeps rows together and binned volumes weigh correctly',
         'Bootstrap and other resamplings draw whole rows, the same rows for every array given, in the stated number and with the stated replacement, and summaries over resamplings equal those recomputed from the recorded draws. '
         'A binned volume density is the summed weight of the selected objects falling in each (possibly overlapping) bin, divided by survey volume and bin width; its mean and scatter are those over the kept resamplings drawn with the given seed, and its logarithmic form applies the stated floor.',
         'inputs histories', 'all array tuples, sizes, seeds, statistics; all object samples and volumes',
         'Tests run one bootstrap without an oracle.',
         'stats/sampling.py astro/stats/lss.py', [('row indices', 'stats/sampling.py'), ('volume weights', 'astro/stats/lss.py')],
         ['resampled arrays and summaries'], META, N0)

    prop('C31', 'Answers depend on the values given, not on how they are stored',
         'Every computing call gives the same answer when array arguments are replaced by equal values with another memory layout (strided, reversed, strided last axis, Fortran order, read-only, a window of a larger array), '
         'and, wherever it accepts them, by unaligned arrays, equal nested lists or equal whole values of an integer type: it never misreads or truncates them, refuses a layout, or needs to write to its input.',
         'inputs configurations', 'all computing calls, all layouts of all their array arguments',
         'Tests pass freshly made contiguous float64 arrays only.',
         'core/arrays/array.py core/dataproc/frame.py stats/binning.py stats/reduction.py stats/regression.py stats/density_estimation.py field/cubic_box/mass_assignment.py field/cubic_box/smoothing.py field/neighbor/kd_tree.py numerical/interpolate.py',
         [('conversions at the entry of compiled kernels', 'field/cubic_box/mass_assignment.py and others'), ('array conversions', 'core/arrays/array.py')],
         ['results of the same call on equal inputs of different layout'], META, N0)
