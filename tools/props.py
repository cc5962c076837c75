prop('P01', 'Parameter studies number, record and lay out calculations consistently',
 "After any sequence of append-mode and write-mode studies on the same root, the database holds exactly one record per calculation, numbered consecutively from the highest previous number (from 0 after write mode), and every machine directory holds one numbered directory per new calculation with every template filled in with exactly that record's values. Append mode never changes earlier records, earlier calculation directories or earlier revision numbers, and the run script of each machine starts exactly the newly written calculations in order. The list of calculations to exclude from a push, written when appending, holds exactly the calculations of earlier revisions.",
 ['histories', 'configurations'],
 'all sequences up to a depth of append/write studies with 0..2 parameter sets drawn from complete, incomplete and nested sets, one or two machines, custom table, study and directory names, backup on and off',
 'tests run one fixed three-step history with one set of names; numbering, revision and exclusion bugs depend on the history',
 ['batch.py', 'sql.py'], [('write_input numbering and insert', 'batch.py:ParameterStudy.write_input'), ('placeholder replacement', 'batch.py:Calculation.write_input')],
 state=[('calc.db rows', 'one per calculation', 'batch.py:ParameterStudy.write_input')],
 observe=['files below calc_root', 'rows of the sqlite table'],
 level='model_checking', note='Explores every history of the stated alphabet on the real code; the abstract study model predicts database, directories, run scripts and exclusion file; trusts sqlite3 and the file system.')

prop('P02', 'A killed parameter study loses nothing and can be rerun',
 "If the process writing a parameter study in append mode is killed at any moment, including in the middle of a file write, all records and calculation directories of earlier studies are intact and unchanged. Running the same study again afterwards succeeds and leaves the same records, numbering and calculation files as an uninterrupted run.",
 ['crash_points'],
 'every mutating system call of the write (before the call, and torn half-way for writes) for first and for appended studies, with and without backup; thorough also pairs of crashes',
 'no test interrupts a study',
 ['batch.py', 'sql.py', 'common.py'], [('insert after directories, single commit', 'batch.py:ParameterStudy.write_input'), ('backup copies instead of moves', 'common.py:backup')],
 level='fault_enumeration', note='Process-kill crashes at every file-system call (LD_PRELOAD injector); no power-loss reordering is modelled.',
 technique='exhaustive crash-point and torn-write enumeration of the real code')

prop('P03', 'Backups are complete, never overwrite anything and leave the source alone',
 "Backing up a file, a directory or a symbolic link always creates a complete copy under a new, previously unused name with the lowest free number after the existing consecutive ones, leaves the source itself as it was, and never changes or removes anything that already exists. A missing source creates nothing.",
 ['histories', 'inputs'],
 'all sequences of creating, changing, deleting and backing up files, directories, nested trees and links up to a depth, with pre-existing numbered names, several prefixes, names containing dots and trailing slashes',
 'tests make a couple of backups in an empty directory',
 ['common.py'], [('free name search and copy', 'common.py:backup')],
 level='model_checking', note='Explores every operation sequence against a model of the directory.')

prop('P04', 'Template files are filled in exactly',
 "Filling a template replaces every occurrence of every placeholder of the given parameters by exactly the text of its value and leaves every other byte of the template alone, whichever order the parameters come in. A placeholder which does not occur, or occurs several times, is only reported, and the template file itself is never changed. The general string replacement helpers do the same for both placeholder styles and refuse values that are missing or not text where they have to be.",
 ['inputs', 'configurations'],
 'all templates over a small alphabet of placeholders, text and newlines up to a length, all parameter subsets and orders, value types string/int/float/None-free, text and file templates, custom and default placeholder functions, job-file and per-machine templates',
 'tests fill a handful of templates',
 ['batch.py', 'common.py'], [('placeholder replacement', 'batch.py:FileTemplate.write'), ('text replacement', 'common.py:template_replace')],
 note='Enumerates templates and parameter sets to a bound; placeholders that are prefixes of each other or values that contain placeholders are outside the property.')

prop('P05', 'Adding and filling database columns changes exactly the addressed cells',
 "Any sequence of creating tables, adding, filling and attaching columns, appending rows with extension, and reading results behaves like the same operations on a plain table: only the addressed cells change, other rows, columns and their order stay as they were, and reading returns the stored values in order. Operations which are refused (attaching an existing column or filling a missing one, a start row outside the table without extension) leave the table unchanged, values beyond the last row are dropped without extension, and a cell which is not empty is never overwritten unless requested.",
 ['histories'],
 'all operation sequences up to a depth over small tables, column names, start rows, value lists of various lengths (incl. empty and missing values) and extend on/off',
 'tests run single operations on one filled table',
 ['sql.py'], [('column operations', 'sql.py:SQLiteDB.add_column/fill_column/attach_column/add_columns'), ('readers', 'sql.py:SQLiteDB.get_list1d/get_array/get_dict/get_header')],
 level='model_checking', note='Breadth-first search of the model with every transition replayed on the real class.')

prop('P06', 'Lazily computed attributes do not depend on the order of access',
 "For structures, trajectories and file parsers, the value of every derived attribute is the same whichever attributes were requested before, in whichever order and through whichever interface (attribute, getter, bulk set-up), and a value given by the user is never replaced by a computed one. Computing everything twice changes nothing.",
 ['histories', 'configurations'],
 'all orders of getters up to a depth, all minimal sets of given inputs, attribute/getter/bulk interfaces, lazy and eager construction',
 'tests request attributes in one order from one or two input combinations',
 ['base.py', 'crys.py', 'decorators.py'], [('getter dispatch', 'base.py:FlexibleGetters'), ('getters', 'crys.py:Structure'), ('lazy property', 'decorators.py:lazyprop'), ('crys_add_doc and opt2 decorators', 'decorators.py')],
 note='Every getter order to the stated depth on real objects, compared with values from an independent computation.')

prop('P07', 'Structure and trajectory attributes always describe the same crystal',
 "Whatever combination of cell, cell parameters, fractional or cartesian coordinates a structure or trajectory is built from, all derived attributes (both coordinate forms, cell, cell parameters, volume, pressure, masses, counts, symbols, velocities, time, kinetic energy and temperature where defined) are mutually consistent and equal those of the crystal put in. Units are applied exactly once to each given quantity, and 2d inputs of a trajectory are extended to all steps.",
 ['inputs', 'configurations'],
 'all input combinations, cells (cubic to triclinic, rotated), symbol lists, step counts 3.. and 1, unit dictionaries, eager/lazy set-up',
 'tests check a few crystals and one unit dictionary',
 ['crys.py'], [('getters', 'crys.py:Structure, Trajectory'), ('units', 'crys.py:UnitsHandler')],
 note='Oracle: independent plain-python crystallography; ortho-normal to triclinic cells with generic irrational entries.')

prop('P08', 'Slicing, indexing and iterating a trajectory selects exactly those steps',
 "Indexing a trajectory with any integer gives the structure of exactly that step, slicing with any slice gives the trajectory of exactly those steps with every time-dependent attribute sliced along time and every other attribute unchanged, and out-of-range indices are refused. Iterating visits every step once in order no matter how many loops run over the same trajectory at once, and no such access changes the original trajectory.",
 ['inputs', 'histories'],
 'all integers and all slices (start, stop, step incl. negative and None) for trajectories of 1..6 steps, all interleavings of up to three concurrent iterators and abandoned loops, nested slices',
 'tests use a few fixed slices and a single loop',
 ['crys.py'], [('slicing', 'crys.py:Trajectory.__getitem__'), ('iteration', 'crys.py:Trajectory.__iter__/__next__')],
 level='model_checking', note='All slices to the bound and all iterator interleavings to a depth against a list model.')

prop('P09', 'Joining trajectories and structures keeps every step and drops only the uncommon',
 "Concatenating any sequence of structures and trajectories gives a trajectory whose steps are those of the inputs in order, with exactly the attributes which all of them have in a compatible form, regardless of the order or number of the inputs, which stay unchanged. Repeating, averaging, and interpolating between structures gives exactly the requested number of steps with the expected values, first and last included.",
 ['inputs', 'histories'],
 'all sequences up to length 3 of structures and trajectories with all patterns of missing attributes and step counts; all small mixing sets; single- and multi-step averages',
 'tests join one trajectory with itself and with a structure',
 ['crys.py'], [('concatenate', 'crys.py:concatenate'), ('mean, mix', 'crys.py:mean/mix/Structure.get_traj')],
 note='Enumerates input sequences and attribute patterns.')

prop('P10', 'Functions do not change their arguments and copies share nothing',
 "Calling any of the library's computing functions leaves the arrays, lists, dictionaries, structures and trajectories passed to it bit for bit unchanged, unless in-place work is the documented purpose. A copy of a structure, trajectory or data container can be modified in any attribute without affecting the original, and vice versa.",
 ['inputs', 'histories'],
 'every public computing function of the numeric, crystal, signal, thermodynamic, fit, text and batch parts over its documented option combinations; every attribute of every copyable object in both directions',
 'tests look at return values, not at the arguments',
 ['crys.py', 'num.py', 'signal.py', 'pydos.py', 'common.py', 'base.py', 'mpl.py', 'rbf/hyperopt.py', 'thermo.py', 'comb.py'], [('copies', 'crys.py:Structure.copy, base.py, mpl.py:Data2D.copy'), ('pure functions', 'num.py, crys.py, signal.py')],
 note='A catalogue of calls is enumerated; arguments are compared bytewise before and after.')

prop('P11', 'Arrays written to text files are read back unchanged',
 "An array of one to three dimensions written to a text file along any axis, with or without header and comments, is read back with the same shape and the same numbers (to the printed precision), also when the shape and axis are given explicitly and when comment lines are added. A request for a 3d shape that does not match the number of rows in the file, or a file without any shape information, raises an error instead of returning other data.",
 ['inputs', 'configurations'],
 'all shapes with each dimension 1..4, all axes, dtypes int/float, header and explicit-shape variants, row ranges, several arrays and interleaved comments',
 'tests use one or two shapes, none with length-one dimensions',
 ['arrayio.py'], [('writer', 'arrayio.py:writetxt'), ('reader', 'arrayio.py:readtxt'), ('2d/3d conversion', 'arrayio.py:arr2d_to_3d')],
 note='Full enumeration of shapes and options to the bound.')

prop('P12', 'Structure files written by the library describe the same structure',
 "Writing a structure or trajectory to any of the supported crystal file formats and reading the file back (with the library's reader, or an independent reader of the published format where it has none) gives the same cell, positions, symbols, atom order, step count and forces, to the precision printed. This holds for every cell shape, atom count, symbol order and step count.",
 ['inputs'],
 'all small structures from a set of cells (cubic..triclinic, differently oriented), 1..4 atoms, all symbol patterns, 1..3 steps, coordinates inside and outside the cell, negative and large values',
 'tests write one or two structures',
 ['io.py', 'parse.py', 'lammps.py', 'pwscf.py', 'crys.py'], [('writers', 'io.py:write_cif/write_xyz/write_axsf/write_lammps/wien_sgroup_input'), ('input card strings', 'pwscf.py:atpos_str/atspec_str'), ('readers', 'parse.py:CifFile')],
 note='Independent readers for xsf, xyz, LAMMPS data and sgroup files.')

prop('P13', 'Saved objects and HDF5 dictionaries come back as they were stored',
 "Any sequence of writing dictionaries of arrays, numbers and strings to an HDF5 file, in write or append mode, followed by reading gives exactly the values written since the last write mode, under path-form keys; appending under an existing key is refused and keeps what is stored. Objects dumped to disk and loaded again have equal attributes.",
 ['histories'],
 'all sequences up to a depth of write/append/read with keys at different nesting, with and without leading slash, scalar/array/string values of changing shape and type; all object kinds for dumping, dumps by name and before/after computing',
 'tests write once and read once',
 ['io.py', 'base.py', 'crys.py'], [('HDF5', 'io.py:write_h5/read_h5/load_h5'), ('pickle', 'io.py:write_pickle/read_pickle, base.py:FlexibleGetters.dump')],
 level='model_checking', note='All histories to the depth against a dictionary model.')

prop('P14', 'Cell and coordinate conversions are mutually inverse and agree with definitions',
 "Converting between cell vectors, cell parameters, volumes, lattice-parameter conventions, Bravais-index cells, reciprocal cells and stress notations in either direction agrees with the textbook definition and with converting back, for single cells and for whole trajectories alike. Transforming coordinates between any two coordinate systems, along any axis convention, is inverse to the opposite transform and equal for 2d and 3d inputs.",
 ['inputs'],
 'all cells of a grid of lengths and angles, all orientations of a set of rotations, all Bravais indices, all array ranks and axis choices of the coordinate transform, all unit factors',
 'tests use one or two random cells',
 ['crys.py', 'pwscf.py', 'num.py'], [('cell conversions', 'crys.py:cell2cc/cc2cell/cc2celldm/celldm2cc/volume_*/recip_cell'), ('coordinate transform', 'crys.py:coord_trans/coord_trans3d'), ('ibrav', 'pwscf.py:ibrav2cell'), ('voigt', 'crys.py:voigt2tensor/tensor2voigt')],
 note='Grid enumeration with plain-python oracle.')

prop('P15', 'Distances under periodic boundaries are true minimum-image distances',
 "Wrapping coordinates into the cell changes them only by whole cell vectors and puts them inside; unwrapping or wrapping by minimum image never moves an atom by anything but whole cell vectors. Distances and distance vectors between atoms, with and without periodic boundaries, equal those from an explicit search over periodic images and are symmetric whenever they are below the documented validity radius, and agree between the different routines and numbers of threads.",
 ['inputs', 'schedules'],
 'all pairs of positions on a fractional grid incl. boundaries and outside the cell, all cells of the set, pbc per direction, chunked and threaded evaluation with 1..4 threads',
 'tests compare two implementations on random input, one thread count',
 ['crys.py'], [('minimum image', 'crys.py:pbc_wrap/pbc_wrap_coords/min_image_convention/distances'), ('compiled kernels', '../_ext_src/flib.f90:distsq_frac')],
 note='Oracle: brute-force search over 5x5x5 images.')

prop('P16', 'Supercells contain exactly the periodic images of the original crystal',
 "A supercell of a structure or trajectory with any repetition of each direction contains, for every atom and every cell of the repetition, exactly one atom at the corresponding periodic image with the same symbol, has the correspondingly scaled cell and volume, and numbers of atoms multiply. Position lists, masks, and both construction methods agree with each other.",
 ['inputs'],
 'all repetitions 1..3 in each direction, all cells and symbol patterns of the set, structures and trajectories of 1..3 steps, both methods',
 'tests use one or two repetitions',
 ['crys.py'], [('supercell', 'crys.py:scell/scell3d/scell_mask')],
 note='Oracle: explicit nested loops over images.')

prop('P17', 'Nearest-neighbour searches return the true neighbours',
 "For every structure and central atom, the search by number returns exactly that many closest atoms and the search by cutoff returns exactly the atoms within it, sorted by minimum-image distance, never including the central atom itself or any skipped symbol. Distances, when requested, belong to the returned atoms.",
 ['inputs', 'configurations'],
 'all structures on a position grid, all central atoms, numbers and cutoffs, skip lists (none, one, several symbols, the own symbol), pbc on/off, distances on/off, precomputed distances',
 'tests use one crystal with two settings',
 ['crys.py'], [('search', 'crys.py:nearest_neighbors/nearest_neighbors_from_dists/nearest_neighbors_struct')],
 note='Oracle: sorted brute-force distance list; ties compared as sets.')

prop('P18', 'Radial pair distribution functions count every pair exactly once',
 "The pair distribution function and coordination number integral of a structure or trajectory equal those from an explicit count of pair distances over periodic images, for any pair of atom selections, time and distance masks, and radius ranges up to the documented limit, and averaging over steps equals the average of the single steps. Pairs in the first bin are documented as not counted. The order of atoms and the way the selection is given (symbol or mask, one or two objects) have no influence, and the caller's arguments stay as they were.",
 ['inputs', 'configurations'],
 'all atom selections (symbols, masks, pairs, all), small crystals on a grid, rmax up to and at the documented limit, dr, number of steps, pbc on/off, tslice, dmask, 1..4 threads, norm_vmd on/off',
 'tests compare against stored references for one or two systems',
 ['crys.py'], [('rpdf', 'crys.py:rpdf')],
 note='Oracle: brute-force histogram.')

prop('P19', 'DCD trajectory readers agree and notice damaged files',
 "For every well-formed DCD file (both supported conventions, any number of atoms and steps), all readers return the frames, cell parameters and header data that were written, and agree with each other. A file cut off at any byte inside its header or frames is never returned as complete data by the default reader: it raises an error or, when cut exactly at a frame boundary, returns exactly the frames present.",
 ['inputs', 'fault_sequences'],
 'generated files over atoms 1..5, steps 1..5, with/without angle convention; every truncation length; every header marker corruption position for readers that check markers',
 'tests read two stored files',
 ['dcd.py', 'parse.py'], [('readers', 'dcd.py:read_dcd_data/read_dcd_data_ref/read_dcd_data_f/read_dcd_header'), ('Fortran reader', '../_ext_src/dcd.f90')],
 level='fault_enumeration', note='Independent DCD writer; every truncation byte of small files.')

prop('P20', 'Velocity correlations and power spectra do not depend on the method used',
 "The autocorrelation of a sequence and the velocity autocorrelation of a trajectory equal their defining sums for every implementation, mass weighting, normalisation and number of threads, and coordinates give the same result as the velocities they imply. Power spectra from the direct and the correlation route agree with each other up to the documented scaling, have the documented frequency axis, and areas normalised as requested.",
 ['inputs', 'schedules', 'configurations'],
 'all methods x options over small trajectories (1..3 atoms, 4..9 steps of generic and sparse unit-impulse data), 1..4 threads',
 'tests compare methods on one random trajectory with one thread count',
 ['signal.py', 'pydos.py', 'crys.py'], [('acorr', 'signal.py:acorr'), ('vacf', 'pydos.py:fvacf/pyvacf/vacf_pdos/direct_pdos/pdos'), ('kernels', '../_ext_src/flib.f90:vacf/acorr')],
 note='Linear kernels are checked on a complete basis of impulses, plus generic data; oracle is the defining sum.')

prop('P21', 'Signal helpers keep length, axis and content as documented',
 "Smoothing returns data of the same shape whose values equal an explicit convolution with reflected edges, zero padding and mirroring produce exactly the documented lengths with the original data unchanged at its place, and window, frequency and Fourier helpers agree with their defining formula along whichever axis is chosen. Peak finding returns exactly the strict interior local maxima above the threshold, in order.",
 ['inputs', 'configurations'],
 'all array ranks 1..3, all axes incl. negative, lengths 1..9, kernel lengths and edge modes, padding lengths and modes, all 0/1/2-level signals up to length 8 for peak finding',
 'tests use one signal each',
 ['signal.py', 'pydos.py'], [('helpers', 'signal.py:smooth/pad_zeros/welch/mirror/find_peaks/fftsample/dft/ezfft/scale/gauss/lorentz/FIRFilter')],
 note='Full enumeration of small signals.')

prop('P22', 'Array helpers do what the equivalent element loop does along any axis',
 "Taking or putting slices, extending, summing, normalising, sorting, matching masks, and measuring rms along any axis (positive or negative, single or several) of arrays of any rank gives exactly what an explicit loop over the elements gives, and inverse operations undo each other. Requests that do not fit the array raise an error.",
 ['inputs'],
 'all array ranks 1..4 with dimensions 1..3, all axes and axis tuples, all slices, keepdims and copy options',
 'tests use one or two arrays and axes',
 ['num.py'], [('helpers', 'num.py:slicetake/sliceput/extend_array/sum/norm_int/rms/rms3d/match_mask/order_similar/round_*/EvalPoint/meshgridt/inner_points_mask')],
 note='Loop oracles over complete small index spaces.')

prop('P23', 'Polynomial and spline fits reproduce what they were fitted to',
 "Polynomial fits in any number of dimensions and degree reproduce every polynomial of that degree and all its derivatives, with and without scaling, with vectorised or single-point evaluation. Spline and polynomial objects find minima, roots, inverse values and extrema at the true places, refuse points outside their range, and different evaluation interfaces agree.",
 ['inputs', 'configurations'],
 'every monomial basis element up to a degree in 1..3 dimensions (fits are linear), every derivative order combination, scaling and weighting on/off, shifts; families of functions with known minima/roots at every grid position',
 'tests fit a few functions',
 ['num.py'], [('PolyFit', 'num.py:polyfit/polyval/vander/PolyFit/PolyFit1D'), ('Spline', 'num.py:Spline/Fit1D'), ('Interpol2D', 'num.py:Interpol2D'), ('deriv', 'num.py:deriv_spl/find_root/findmin')],
 note='Linear in the data: a complete basis decides every polynomial of the degree (up to float tolerance).')

prop('P24', 'Equation-of-state and thermodynamic quantities satisfy their identities',
 "Energies from a known equation of state are fitted back to its parameters, and pressure, bulk modulus and derivatives are consistent with it. Harmonic vibrational energy, free energy, entropy and heat capacity equal the closed-form oscillator results, satisfy F = E - TS, do not depend on the order of calls, and quasi-harmonic Gibbs results on every T-P grid point equal the minimisation of F + PV with consistent axes, volume, thermal expansion and heat capacity.",
 ['inputs', 'configurations'],
 'grids of EOS parameters and volumes; all small frequency/DOS sets and temperatures; all small T-P-axis grids for the 1d, fake-1d and 2d cases; option combinations',
 'tests check one stored reference each',
 ['eos.py', 'thermo.py'], [('EOS', 'eos.py:EosFit/Vinet'), ('harmonic', 'thermo.py:HarmonicThermo'), ('QHA', 'thermo.py:Gibbs')],
 note='Closed-form oracles.')

prop('P25', 'Radial basis function models interpolate, differentiate and are deterministic',
 "A model without regularisation passes through its training points, analytic gradients equal the derivative of the prediction, single and vectorised evaluation agree, and the order of the training points does not matter. Fit errors and cross-validation errors equal explicitly computed ones, and hyper-parameter optimisation returns a model that is no worse than any candidate it had to consider and leaves the caller's settings alone.",
 ['inputs', 'configurations'],
 'all small point sets on a grid in 1..3 dimensions, all kernels, shape parameters and regularisations, all permutations of small training sets, all optimiser modes on small brute grids',
 'tests fit single functions',
 ['rbf/core.py', 'rbf/hyperopt.py'], [('model', 'rbf/core.py:Rbf'), ('optimisation', 'rbf/hyperopt.py:fit_opt/FitError')],
 note='Enumerated small configurations; numeric differentiation as oracle.')

prop('P26', 'Output parsers return exactly what the program output says',
 "For every well-formed output of the supported simulation programs, each parsed quantity equals the number printed in the file, converted to the library's units, for every number of steps and atoms and every unit variant of the block headers. Quantities whose block is missing are reported as missing without affecting the others, and reading one file never changes how another one is read.",
 ['inputs', 'histories', 'configurations'],
 'generated PWscf SCF/MD, CPMD, CP2K and LAMMPS outputs over steps 1..3, atoms 1..3, all header unit variants, all subsets of optional blocks; all ordered pairs of parser uses',
 'tests parse a few stored outputs, each in a fresh state, and mostly check that attributes are set',
 ['parse.py', 'io.py', 'base.py'], [('parsers', 'parse.py'), ('unit handling', 'parse.py:default_units, crys.py:UnitsHandler')],
 note='Generators written from the documented formats; values planted and compared.')

prop('P27', 'k-point grids and paths cover what was asked for',
 "A k-grid for a cell and spacing uses, per direction, the number of points the documented rule gives (never zero, even numbers when requested), and the inverse mapping agrees. k-paths contain every vertex exactly at the reported positions, in order, with the requested number of points per segment and a strictly consistent path length, and generated input cards list exactly those points. Plotted dispersions show every band at the path positions and mark the vertices where the path passes them.",
 ['inputs', 'configurations'],
 'all cells of the grid, spacings, minimal numbers, evenness options; all vertex lists up to length 4 on a fractional grid with repeated directions; all point counts 2..6',
 'tests use one or two paths',
 ['kpath.py', 'crys.py', 'pwscf.py'], [('k-grid', 'crys.py:kgrid'), ('k-path', 'kpath.py:kpath/get_path_norm/SpecialPointsPath'), ('cards', 'pwscf.py:kpoints_str')],
 note='Loop oracles.')

prop('P28', 'Parameter combinations are enumerated completely and in order',
 "Nested loops over any lists of parameters yield every combination exactly once in nesting order, flattened exactly when requested, and column and matrix builders keep keys, values and order. Removing duplicate rows or columns keeps each distinct one exactly once in first-seen order, flattening keeps every leaf once in order, removing items from a list removes exactly one occurrence of each, and membership masks mark exactly the members.",
 ['inputs'],
 'all lists of up to 3 lists of length 0..3 incl. nested tuples and strings, all row lists over a 3-letter alphabet up to length 5, all nestings to depth 3',
 'tests use one example each',
 ['comb.py', 'common.py', 'sql.py', 'num.py'], [('combinations', 'comb.py:nested_loops/unique2d'), ('flatten', 'common.py:flatten'), ('column builders', 'sql.py:sql_column/sql_matrix')],
 note='Complete enumeration of small inputs against itertools.')

prop('P29', 'Results do not depend on what was computed before in the same session',
 "Every library operation gives the same result in a session in which any other operations were performed before as it gives in a fresh session. In particular options, units and defaults given to one object never leak into another one created later, or earlier.",
 ['histories'],
 'all ordered pairs (thorough: triples) of a catalogue of operations covering parsers, containers, calculators, fits, optimisation, signal and batch functions, compared with the result in a fresh process',
 'each test runs one operation in its own state; pytest order is fixed',
 ['calculators.py', 'parse.py', 'rbf/hyperopt.py', 'crys.py', 'batch.py', 'thermo.py', 'base.py'], [('default handling', 'calculators.py:CalculatorBase, parse.py:default_units, rbf/hyperopt.py:fit_opt')],
 level='model_checking', note='All histories over the catalogue to the depth.')

prop('P30', 'Gridded 2d data stays consistent in all its representations',
 "A container for data on an x-y grid gives the same axes, grids, flattened lists and values whichever representation it was built from, and after any sequence of updates with new axes or values all representations describe the latest data. Copies are independent.",
 ['histories', 'inputs'],
 'all construction forms, all update sequences up to depth 3 over all forms of x-y and z updates, grid sizes 1..3',
 'tests build it once from each form and never update',
 ['mpl.py'], [('conversion', 'mpl.py:Data2D._update/update/copy')],
 level='model_checking', note='All update histories to the depth against a plain model.')

prop('P31', 'Phonon text outputs are read completely and in the right order',
 "For every well-formed phonon frequency, eigenvector, dynamical-matrix and infrared/Raman text output, all q-points, frequencies, eigenvectors and intensities are returned with the right shape, order and values. A file which ends early is refused or yields only values which it contains.",
 ['inputs'],
 'generated files over atoms 1..3, q-points 1..3, with and without imaginary/negative and adjacent numbers, all comment variants',
 'tests read one stored file per format',
 ['pwscf.py'], [('readers', 'pwscf.py:read_matdyn_modes/read_matdyn_freq/read_dynmat/read_all_dyn')],
 note='Generators written from the documented formats.')

prop('P32', 'Random structures always satisfy the requested constraints',
 "Every random structure that is returned has the requested symbols, a cell whose volume, side lengths and angles lie in the allowed ranges, and no two atoms closer than the allowed distance, whatever the random numbers drawn. When the attempts are used up an error is raised instead of returning a structure that violates them.",
 ['inputs', 'fault_sequences'],
 'all outcomes of the random number generator over a small alphabet of draws up to a number of draws, attempt limits 1..3, atom counts 1..3',
 'tests draw one random structure and check that it exists',
 ['random.py'], [('rejection loops', 'random.py:RandomStructure')],
 note='Depth-first exploration of the complete tree of random choices with a scripted generator.')

prop('P33', 'Calculators write complete inputs and read their results',
 "The input files of a calculation contain exactly the documented settings given to that calculator (or their defaults) and the structure given to it, whichever other calculators exist, with each kind of atom using its own pseudopotential, and are found by a program running in the calculation directory. Reading the result returns the energy, forces and stress of the program output in the units, sign convention and cell orientation of the atoms in the simulation environment. With backups enabled no earlier file is lost.",
 ['configurations', 'histories'],
 'all subsets of non-default settings for up to two calculators created in all orders, small structures, repeated calculations with and without backup, fake program outputs',
 'tests need the external programs and use one setting',
 ['calculators.py'], [('input', 'calculators.py:Pwscf.write_input/Lammps.write_input'), ('parameters', 'calculators.py:CalculatorBase')],
 note='Runs with a stand-in instead of the simulation program.')

prop('P34', 'Symmetry analysis keeps the crystal',
 "The space group of a structure does not depend on the choice of cell, orientation, origin, atom order or supercell. Reducing a structure to its primitive cell describes the same crystal: same composition, same volume per atom, same surroundings of every kind of atom and same space group, with the number of atoms of the primitive cell; only an irreducible structure is reported as such. Two structures compare as the same exactly if symbols, cell constants and fractional coordinates agree, and conversion to and from the symmetry library keeps cell, positions and elements.",
 ['inputs'],
 'all crystals of a set of prototypes in all orientations and supercell repetitions 1..2',
 'tests use one crystal',
 ['symmetry.py'], [('spglib conversion', 'symmetry.py:spglib_get_primitive/spglib_get_spacegroup/is_same_struct')],
 note='Trusts spglib.')

prop('P36', 'Results depend on the values of arrays, not on how they are stored',
 "Numerical library functions give the same result for the same numbers, whether the array is contiguous, Fortran ordered, a strided or reversed view, read only, held as integers or as floats of the same values, or given as a list or tuple where the documentation allows any sequence. The arguments stay unchanged.",
 ['inputs'],
 'all storage forms of every array argument of a catalogue of library calls, one at a time and all together',
 'tests use freshly created contiguous float arrays',
 ['crys.py', 'num.py', 'signal.py', 'pydos.py', 'thermo.py', 'eos.py', 'rbf/core.py', 'batch.py', 'flib.py'],
 [('structures and trajectories', 'crys.py'), ('signal processing', 'signal.py'), ('numerical helpers', 'num.py'), ('Fortran wrappers', '_ext_src/crys.f90, pydos.py, dcd.py')],
 note='Complete enumeration of storage forms; the reference is the same call with contiguous float arrays.')

prop('P35', 'Values written as text and read from text keep their meaning',
 "Numbers (also in Fortran spelling, with kind suffixes ignored), truth words, slices, lists and blocks of numbers read from text have exactly the value that is written there, and text which is none of these is refused. Values, lists, arrays, text files, settings and convergence tables written as text contain every value in order in the requested format and give the same values when read back. The SQLite type chosen for a value stores and returns that same value.",
 ['inputs'],
 'all spellings from a grammar of numbers, truth words and slices, all lists and arrays of small size with all formats, separators and cut-offs, all value types',
 'tests convert four values',
 ['common.py', 'regex.py', 'sql.py', 'parse.py', 'batch.py'],
 [('converters', 'common.py:toslice/tobool/ffloat/frepr/seq2str/str2seq/str_arr'), ('number blocks', 'parse.py:traj_from_txt/arr2d_from_txt'), ('types', 'sql.py:find_sqltype/SQLEntry'), ('tables', 'batch.py:conv_table')],
 note='Complete enumeration of a grammar of texts against references that take the text apart by themselves.')

prop('P37', 'Cutting run outputs at a step removes exactly that step and all later ones',
 "Cutting the output files of a CPMD or CP2K run at a step which is in the files removes exactly that and all later steps from every file of the run, keeps the earlier ones byte for byte, and saves the original files as backup. A run continued from there has the files of an uninterrupted run and can be cut again. A step behind the end, the simulate option and wrong arguments leave the run as it was.",
 ['histories', 'inputs'],
 'all first steps around changes in the number of digits, step counts, steps to cut at, atom counts, subsets of files and options, followed by a continued run and all second cuts',
 'there are no tests of the scripts',
 ['/repo/bin/cut-cpmd.sh', '/repo/bin/cut-cp2k.sh'], [('CPMD', 'bin/cut-cpmd.sh'), ('CP2K', 'bin/cut-cp2k.sh')],
 level='model_checking', note='Every cut, continue, cut history of the bounded space on the real scripts.')

prop('P38', 'Conversion scripts describe the same crystal in every section of their output',
 "The sections which the CIF conversion scripts print for PWscf, ABINIT, CPMD, CP2K, sgroup and the general crystal information all describe the crystal of the file: same cell, atoms, kinds, order and positions, and reciprocal data and k-point grids which belong to that cell. A PDB file converted to CIF has the same cell, symbols and positions, and so has a box after molecules were inserted, with the new atoms following. The phonon scripts give the table, the number of atoms and the dispersion path of their input, and no script changes its input files.",
 ['inputs', 'formats'],
 'all cells x symbol orders and repetitions x coordinates x output sections, all small DOS and dispersion files',
 'there are no tests of the scripts',
 ['/repo/bin/cif2any.py', '/repo/bin/cif2sgroup.py', '/repo/bin/pdb2cif.py', '/repo/bin/matdyn2fqha.py', '/repo/bin/plot_dispersion.py', '/repo/bin/solvate.sh'],
 [('CIF', 'bin/cif2any.py'), ('PDB', 'bin/pdb2cif.py')],
 level='exploration', note='Every crystal of the bounded grid through the real scripts, every section read back.')

prop('P39', 'Viewers and shell helpers: right file, right command, nothing left behind',
 "Every viewer call runs its program once, with its options, on a file which holds the given structure or trajectory, and does not change the object. Temporary files and open files are left behind only as requested (keepfiles, bg, names given). The shell helpers give the complete output, run the command once and report failures (listing the default replacement keys of a study leaves nothing behind either), and the radial distribution call of VMD gets exactly the steps, selections and radii asked for.",
 ['histories', 'faults'],
 'all sequences of viewer calls over viewer x object x file names x keep x background x display x options, all outcomes of a shell command',
 'tests do not run viewers',
 ['visualize.py', 'common.py'], [('viewers', 'visualize.ViewFactory'), ('shell', 'common.system, backtick')],
 level='model_checking', note='The real functions with stand-ins for the viewer programs against a model of files and descriptors.')

prop('P40', 'Plot helpers draw exactly what they were given',
 "Lines, legends, colours, figures, files and additional axes made with the plot helpers are exactly those asked for: every data set becomes one line with its values, legends hold the entries of the axes asked for in that order on the axis asked for, and colours and axis lines are set where asked and nowhere else. Inputs are not changed.",
 ['inputs', 'configurations'],
 'all shapes of line data, all combinations of labelled artists on three axes x axis orders in the legend, all axis/spine/label settings in sequences of two',
 'tests do not look at the figures',
 ['mpl.py'], [('legends', 'mpl.collect_legends, Plot.legend'), ('3d lines', 'mpl.plotlines3d'), ('axis lines', 'mpl.new_axis, color_ax')],
 level='exploration', note='Artists read back from matplotlib (Agg).')

prop('P41', 'Every element keeps its number, mass and symbol everywhere',
 "Every element of the periodic table, alone or together with others in any order, has its right atomic number, mass and radius in the tables, in all quantities derived from symbols, in every file written and in every structure read back or converted. The physical constants agree with CODATA and with their definitions in terms of each other.",
 ['inputs', 'formats'],
 'all elements x all positions among lighter and heavier ones x derived quantities, writers with their readers and conversions; all constants',
 'tests use a handful of elements',
 ['atomic_data.py', 'constants.py', 'crys.py', 'io.py', 'lammps.py', 'pwscf.py', 'symmetry.py'], [('table', 'atomic_data.py'), ('constants', 'constants.py')],
 level='exploration', note='Complete enumeration of the table; reference values from ase and scipy.')

prop('P42', 'Tag timers report the time between start and stop for every tag',
 "After any sequence of start, stop, print and message calls over several tags, a timer prints for each tag the time between its last start and stop (or now if not stopped), restarts after a completed measurement, refuses unknown tags and prints nothing when silenced. Timers do not influence each other.",
 ['histories'],
 'all call sequences up to a depth over two tags with a controlled clock',
 'there are no tests of repeated use with a controlled clock',
 ['timer.py'], [('state machine', 'timer.TagTimer.t, pt')],
 level='model_checking', note='Every call sequence of the bounded depth against a model.')

prop('P43', 'Thermostat and barostat masses follow the published formulas',
 "The fictitious masses of Nose-Hoover chains and of the barostat equal the formulas of the MTTK paper in Hartree atomic units for every frequency, temperature, number of degrees of freedom, dimension and chain length: the first mass of a chain has its special factor, all others are equal, and a chain has exactly the requested length.",
 ['inputs'],
 'all combinations of frequency, temperature, degrees of freedom, dimension and chain length from small sets',
 'there are no tests of these functions',
 ['mttk.py', 'constants.py'], [('formulas', 'mttk.py: particle_nhc_masses, barostat_nhc_masses, barostat_mass_w, barostat_mass_wg')],
 level='exploration', note='Formulas recomputed with the constants of scipy.')
