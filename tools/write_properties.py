#!/usr/bin/env python3
"""Regenerates properties.jsonl (the text lives here so that it is reviewable)."""
import json, os
PF='occuprob/partitionfunctions.py'; SP='occuprob/superpositions.py'; UT='occuprob/utils.py'; IO='occuprob/io.py'; CLI='occuprob/cli.py'; VER='occuprob/_version.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p('C01','Occupation probabilities form a distribution at every temperature',
 'For any non-empty set of contributions that describe the same minima with physically valid parameters, the occupation probabilities at every temperature of the request, zero included, are finite, lie in [0, 1] and sum to 1 over the minima. The result has exactly one row per minimum and one column per requested temperature.',
 ['inputs','configurations'],'Every number of minima, every mix of electronic / spin / classical / quantum / rotational / user-defined contributions, every array of finite temperatures >= 0 (and infinite temperature when no quantum-vibrational contribution takes part).',
 'Tests evaluate two fixed two-minima landscapes at two temperatures (0 and one huge value); the guarantee is over all landscapes, sizes, magnitudes (where partition functions span hundreds of decades) and all temperatures in between.',
 [SP,PF,UT],[('calc_probability','%s:SuperpositionApproximation.calc_probability'%SP),('extended precision for vibrations','%s:QuantumHarmonicPF.__init__'%PF)],['SuperpositionApproximation.calc_probability'])
p('C02','Electronic occupations follow the Boltzmann law',
 'With only the electronic contribution, the ratio of the occupations of two minima at a positive temperature T is the ratio of their spin multiplicities times exp(-(Ea-Eb)/(kB T)), energies in eV, T in K and kB the CODATA Boltzmann constant. The law holds for every pair of minima, whatever the order, sign or offset of the energies.',
 ['inputs'],'All finite energies, positive multiplicities and positive temperatures (up to values that underflow the floating-point range).',
 'Tests only check the T=0 and T=infinity ends, where the exponential has dropped out; no test evaluates a Boltzmann factor at an ordinary temperature.',
 [PF,UT,SP],[('ElectronicPF.calc_part_func','%s:ElectronicPF.calc_part_func'%PF),('calc_exponent / calc_beta','%s:calc_exponent'%UT)],['calc_probability','ElectronicPF.calc_part_func'])
p('C03','The zero of energy is arbitrary',
 'Adding one constant to the potential energies of all minima changes neither the occupation probabilities, nor the ensemble averages, nor the heat capacity, at any temperature and for offsets as large as absolute DFT energies.',
 ['inputs'],'All landscapes, contribution mixes, temperatures (zero included) and common offsets that floating point can represent next to the energy differences.',
 'All test landscapes have their minimum exactly at 0 eV in the first position, so a wrong or missing reference is invisible to them.',
 [PF,SP],[('relative energies','%s:ElectronicPF.__init__'%PF)],['calc_probability','calc_heat_capacity','calc_ensemble_average'])
p('C04','Zero temperature populates exactly the lowest-energy minima',
 'At T = 0 only the minima of lowest potential energy are occupied, sharing the occupation in proportion to their remaining weights, and nothing reported at T = 0 (probability, ensemble average, heat capacity) is NaN or infinite. What is reported at T = 0 is the limit of what is reported as T decreases to 0.',
 ['inputs','configurations'],'All landscapes (unique and degenerate ground states, in any position), contribution mixes and positions of the 0 K entry in the temperature array.',
 'Tests cover one non-degenerate ground state in first position, only for probabilities; degenerate grounds, heat capacity and averages at 0 K, and continuity towards 0 K are never evaluated.',
 [UT,PF,SP],[('infinite beta and masked products','%s:calc_beta'%UT),('masked exponent','%s:calc_exponent'%UT),('masked weighting','%s:SuperpositionApproximation.calc_ensemble_average'%SP)],['calc_probability','calc_heat_capacity','calc_ensemble_average'])
p('C05','High-temperature limit and classical correspondence',
 'As the temperature grows the energies stop mattering: occupations tend to the ratios of the temperature-independent weights (spin multiplicity, inverse product of the frequencies, rotational weight). In that limit the quantum and the classical vibrational descriptions of the same minima agree on occupations and heat capacity, up to corrections of second order in h nu / kB T.',
 ['inputs','configurations'],'All landscapes whose energies and quanta are small compared with kB T, and infinite temperature for non-quantum mixes.',
 'Tests check two two-minima examples, the quantum one only to 0.1 in probability, and never compare quantum with classical.',
 [PF,SP],[('ClassicalHarmonicPF','%s:ClassicalHarmonicPF'%PF),('QuantumHarmonicPF','%s:QuantumHarmonicPF'%PF)],['calc_probability','calc_heat_capacity'])
p('C06','Results follow the order of the minima',
 'Permuting the minima consistently in all inputs permutes the rows of the partition functions and occupation probabilities in the same way and leaves ensemble averages and heat capacity unchanged. Minima with identical parameters get identical occupations.',
 ['inputs'],'All landscapes, permutations, contribution mixes and temperatures.',
 'All tests use two minima with the ground state first; any dependence on position (reference taken from the first row, rows sorted on output) passes them.',
 [SP,PF],[('row-wise evaluation','%s:SuperpositionApproximation.combine_contributions'%SP)],['calc_probability','calc_partition_functions','calc_heat_capacity'])
p('C07','Each temperature is evaluated independently of the others',
 'The values reported for a temperature depend on that temperature only: not on the length, order, spacing, repetitions or numeric type of the temperature array, nor on whether it also holds 0 K. Column j always belongs to the j-th requested temperature.',
 ['inputs'],'All temperature arrays (any length including 1 and lengths equal to the number of minima or modes; unsorted, repeated, containing zeros anywhere, integer or floating) for every quantity and contribution mix.',
 'Tests only use two-element increasing arrays starting at 0, so shape coincidences, unsorted arrays and long grids are never exercised.',
 [UT,PF,SP],[('broadcast along the last axis','%s:calc_exponent'%UT)],['calc_probability','calc_partition_functions','calc_heat_capacity','calc_ensemble_average'])
p('C08','Contributions compose: factors multiply, logarithmic derivatives add',
 'The partition function of each minimum is the product over all registered contributions of their individual values, and the reported occupations derive from that product; derivatives (W, V) entering the heat capacity add up instead. The result does not depend on the order of registration, on whether contributions are added one by one or as a collection, or on a factor common to all minima, and holds for repeated and for user-defined contributions alike.',
 ['inputs','histories','configurations'],'All multisets of built-in and user-defined contributions, all registration orders and groupings.',
 'Tests register one fixed list in one fixed order; single additions, other iterables, repeated kinds and user-defined contributions are never exercised.',
 [SP],[('combine_contributions','%s:SuperpositionApproximation.combine_contributions'%SP),('add_partition_functions','%s:SuperpositionApproximation.add_partition_functions'%SP)],['calc_partition_functions','calc_probability','calc_heat_capacity'],
 [dict(name='registered contributions',meaning='the multiset of contributions the superposition combines',where=SP)])
p('C09','Queries are pure and objects are independent',
 'Every query answers as a function of the contributions registered so far and its own arguments: repeating, interleaving or reordering queries never changes an answer, a later addition takes effect in the next query, and no query or construction modifies arrays or lists supplied by the caller. Different superposition objects never influence each other, even when they share contribution objects.',
 ['histories'],'All interleavings of construction, addition and queries over several objects sharing contributions and input arrays.',
 'Each test builds one object and makes exactly one query; no test looks at inputs after a call or queries twice.',
 [SP,PF,UT],[('per-instance list','%s:SuperpositionApproximation.__init__'%SP),('fresh output arrays','%s:calc_exponent'%UT)],['all public methods, input arrays after each call'],
 [dict(name='registered contributions',meaning='per-object sequence of contributions',where=SP)])
p('C10','Nothing is reported without consistent contributions',
 'A superposition without contributions reports the absence of a result (None) for partition functions, probabilities, ensemble averages and heat capacity, and starts answering as soon as a contribution is added. Contributions that describe different numbers of minima are never combined into numbers.',
 ['histories','inputs'],'All histories starting from an empty object and all combinations of contributions of unequal size (including sizes that would broadcast, such as 1 against N).',
 'One test asks an empty object for probabilities only; other quantities, recovery after an empty query and mismatched sizes are not tested.',
 [SP],[('combine_contributions','%s:SuperpositionApproximation.combine_contributions'%SP),('None propagation','%s:SuperpositionApproximation.calc_ensemble_average'%SP)],['all SuperpositionApproximation queries'])
p('C11','Ensemble averages are probability-weighted means',
 'The ensemble average of an observable equals the sum over minima of its value times the occupation probability of the minimum at each temperature, returned as one row with one column per temperature. It is linear in the observable, preserves constants, lies between the smallest and largest value over populated minima, and is unaffected by the value (even infinite or NaN) of the observable at minima that are not populated.',
 ['inputs'],'All landscapes, temperatures and temperature-dependent or constant observables given as (N, M) or (N, 1) arrays.',
 'No test calls the ensemble average at all.',
 [SP],[('calc_ensemble_average','%s:SuperpositionApproximation.calc_ensemble_average'%SP)],['calc_ensemble_average'])
p('C12','Classical vibrational weight is the inverse product of the frequencies',
 'The classical harmonic contribution weighs minima in proportion to the inverse of the product of all their vibrational frequencies (kappa modes: geometric mean to the power -kappa), independently of temperature and of the order of the modes, and of a common unit of frequency. Its logarithmic derivative times beta is minus the number of modes, and beta^2 times its second derivative is the number of modes, for every minimum and temperature.',
 ['inputs'],'All positive frequency tables with any number of minima and modes (one mode and hundreds of modes included).',
 'Tests use two minima that differ in one of three modes at T=0 and infinity; nothing checks other mode counts, magnitudes, or the derivatives.',
 [PF,UT],[('ClassicalHarmonicPF','%s:ClassicalHarmonicPF'%PF),('calc_geometric_mean','%s:calc_geometric_mean'%UT)],['calc_probability','ClassicalHarmonicPF methods'])
p('C13','Quantum vibrational weight is the harmonic-oscillator partition function',
 'The quantum harmonic contribution weighs minima in proportion to the product over modes of exp(-x)/(1-exp(-2x)) with x = h nu / (2 kB T) (frequencies in THz, CODATA constants), so zero-point energy orders the minima at low temperature. Its logarithmic derivative times beta is -sum x coth x and beta^2 times the second derivative is sum (x/sinh x)^2, both finite at every positive temperature.',
 ['inputs'],'All positive frequencies (0.01 to 130 THz and beyond), mode counts and positive temperatures down to where the product underflows extended precision.',
 'One test compares one landscape at 1e5 K to within 0.1; no test touches the low-temperature regime, the derivatives, or the extended-precision range.',
 [PF,UT],[('QuantumHarmonicPF','%s:QuantumHarmonicPF'%PF)],['calc_probability','QuantumHarmonicPF methods','calc_heat_capacity'])
p('C14','Rotational weight is the rigid-rotor weight',
 'The rotational contribution weighs minima in proportion to sqrt(I1 I2 I3) divided by the order of the rotational symmetry subgroup, independently of temperature and of the order and common unit of the moments of nonlinear structures. A vanishing moment (linear structure) counts as a factor 1 whatever its rounding noise; the contribution adds -3/2 to beta W and 3/2 to beta^2 V of every minimum.',
 ['inputs'],'All positive moment triples and symmetry orders, structures with vanishing moments (exactly zero or zero up to rounding of either sign).',
 'Both rotational tests use unit moments with one exact zero, for which every power of the moments and every threshold gives the same answer.',
 [PF],[('RotationalPF','%s:RotationalPF'%PF)],['calc_probability','RotationalPF methods'])
p('C15','Heat capacity is the energy fluctuation and the slope of the mean energy',
 'The heat capacity in units of kB equals the population-weighted mean of beta^2 V plus the variance of beta W over the minima, i.e. beta^2 times the second beta-derivative of the logarithm of the total partition function. It is finite and (up to rounding) non-negative, returned as one row with one column per temperature, and integrates to the change of the mean energy between two temperatures.',
 ['inputs','configurations'],'All landscapes, contribution mixes (including minima whose vibrational and electronic energies are correlated) and temperatures, zero included.',
 'No test calls the heat capacity; a sign or weighting error between contributions only shows for several minima with different frequencies.',
 [SP,PF],[('calc_heat_capacity','%s:SuperpositionApproximation.calc_heat_capacity'%SP),('calc_part_func_w / _v','%s'%PF)],['calc_heat_capacity'])
p('C16','Every contribution reports its own exact logarithmic derivatives',
 'For every contribution and minimum, the reported W is beta times the derivative of the logarithm of that contribution with respect to beta, and the reported V is beta^2 times the second such derivative, both consistent with the partition function values the same contribution reports at neighbouring temperatures (up to the factors of beta and common constants the contribution omits by design). Both have one row per minimum and one column per temperature.',
 ['inputs'],'All built-in contributions, parameters and positive temperatures.',
 'Tests check W and V of the electronic contribution at 0 and infinite temperature only, where they are 0 or infinite.',
 [PF],[('calc_part_func_w','%s:PartitionFunction.calc_part_func_w'%PF),('calc_part_func_v','%s:PartitionFunction.calc_part_func_v'%PF)],['calc_part_func','calc_part_func_w','calc_part_func_v'])
p('C17','Loading an Extended XYZ file preserves every isomer\'s data',
 'Loading a file returns, in file order and for every isomer, exactly the stated energy, spin multiplicity and all vibrational frequencies in the stated order, whatever their number, together with that isomer\'s principal moments of inertia (amu A^2) and rotational symmetry order. Data of different isomers are never mixed, dropped or reordered.',
 ['inputs'],'All well-formed files: any number of isomers, atoms, modes (including 1 and 9, which the reader reshapes), integer or real notation, key order and extra keys.',
 'One test loads one file with two isomers whose scalar data and frequencies are all identical, so order, mixing and reshaping errors are invisible.',
 [IO],[('load_properties_from_extxyz','%s:load_properties_from_extxyz'%IO)],['load_properties_from_extxyz'])
p('C18','Symmetry order and moments describe the shape, not its placement',
 'The symmetry order of a nonlinear structure is the number of proper rotations (identity included, reflections and inversions excluded) that map it onto itself with equal elements. The symmetry order and the moments, and hence the rotational occupations, do not change when the structure is rotated, translated or its atoms are listed in another order.',
 ['inputs'],'All rigid structures that are clearly symmetric or clearly asymmetric relative to the detection tolerance, all rigid motions and atom orders.',
 'One test loads one bent three-atom structure in one orientation.',
 [IO,PF],[('calc_symmetry_order','%s:calc_symmetry_order'%IO)],['calc_symmetry_order','load_properties_from_extxyz','RotationalPF'])
p('C19','The command line computes what its options say',
 'For every combination of contribution options (-E or -S, -C or -Q, -R, in either case and bundled), the command-line run uses exactly the selected contributions built from the input file - -E with unit multiplicities, -S with the stated ones - and the saved occupation probabilities and heat capacity are those of the library for the same data. Conflicting options are rejected, and without any contribution the run says so and writes nothing.',
 ['configurations','inputs'],'All option combinations, spellings and orders, and all loadable input files.',
 'The command line has no tests at all.',
 [CLI],[('argument groups and contribution list','%s:main'%CLI)],['exit status, stdout, files written by the occuprob command'])
p('C20','Result files hold the full temperature grid in the documented place',
 'A run writes exactly one table per quantity: a first column with the temperatures min_temp, min_temp+1, ... up to and never beyond max_temp (the limit itself when it is on the grid), then one column per isomer in file order (occupation) or one column (heat capacity), at full double precision. The files are named <prefix>_P.dat and <prefix>_C.dat after --out_file, or after the input file with its .xyz extension removed, in any directory.',
 ['configurations','inputs'],'All temperature limits (integral or not, single point), output prefixes and input paths (directories or names that contain "xyz" or "dat").',
 'The command line has no tests at all.',
 [CLI],[('temperature grid and file names','%s:main'%CLI),('save_results','%s:save_results'%CLI)],['files written by the occuprob command'])
p('C21','Plots show exactly the computed results',
 'With --plot each quantity is also drawn to an image next to its table, same name with the chosen format as extension, of the requested size: one labelled curve per isomer for occupations, one curve for the heat capacity, over exactly the temperature range, with no data from other results. Plotting never changes the tables.',
 ['configurations','inputs','histories'],'All result sets, formats, sizes, output paths, and sequences of plots in one process.',
 'No test produces a plot.',
 [CLI,IO],[('plot_results','%s:plot_results'%IO),('plot_results','%s:plot_results'%CLI)],['image files written; the figure that is saved'])
p('C22','The reported version identifies the source state',
 'The version is the clean tag when the source is exactly at a tag, otherwise it states the closest tag, the number of commits since and the abbreviated revision, marks local modifications, and falls back to 0+untagged.<count>.g<rev> without tags; the full revision id reported is that of HEAD. The command line, the package attribute and the build report the same version.',
 ['histories'],'All histories of commits, tags and working-tree modifications of a checkout.',
 'No test looks at the version.',
 [VER,'versioneer.py',CLI,'occuprob/__init__.py'],[('git_pieces_from_vcs / render_pep440','%s:render_pep440'%VER)],['occuprob.__version__','occuprob --version'])
p('C23','Relative occupations do not depend on the other minima',
 'The ratio of the occupations of two minima is unchanged when other minima are added to or removed from the landscape, and a minimum listed k times gets k equal shares, together the share of one minimum with k times the weight. Growing the list of isomers therefore only rescales the existing occupations by a common factor at each temperature.',
 ['inputs'],'All landscapes, subsets and duplications of minima, contribution mixes and temperatures.',
 'Tests use fixed two-minima landscapes and never compare two related landscapes.',
 [SP,PF],[('per-minimum evaluation and single normalisation','%s:SuperpositionApproximation.calc_probability'%SP)],['calc_probability'])
p('C24','Thermal conversion helpers are exact at every temperature',
 'The inverse temperature is 1/(kB T) for every positive T and infinite at T = 0; the thermal exponent is energy times inverse temperature for every energy/temperature pair, exactly 0 for zero energy even at T = 0 and infinite with the sign of the energy otherwise at T = 0; the geometric mean of a row is the n-th root of the product of its n entries and 0 if any entry is 0. Outputs have the documented shape and inputs are left unchanged.',
 ['inputs'],'All energies of either sign (1-D, or with leading axes), temperatures >= 0 including infinity, and non-negative tables.',
 'Tests evaluate each helper on one small array with uniform rows and non-negative energies.',
 [UT],[('calc_beta','%s:calc_beta'%UT),('calc_exponent','%s:calc_exponent'%UT),('calc_geometric_mean','%s:calc_geometric_mean'%UT)],['calc_beta','calc_exponent','calc_geometric_mean'])
p('C25','Comparing property dictionaries is an equality test',
 'Two property dictionaries compare equal exactly when they have the same keys and, under every key, arrays of the same shape with numerically close entries; the outcome does not depend on the order of keys. A difference in any single entry, key or shape is detected, and the comparison never raises for arrays of different shape.',
 ['inputs'],'All pairs of dictionaries of numeric arrays.',
 'The test compares four hand-written dictionaries of equal shapes that differ in every entry.',
 [UT],[('compare_numpy_dictionaries','%s:compare_numpy_dictionaries'%UT)],['compare_numpy_dictionaries'])
p('C26','Independent parts of a system factorise',
 'When every minimum of a system is a pair of minima of two independent systems (energies and mode lists added up, degeneracies and user-defined partition functions multiplied), the occupation of a pair is the product of the occupations of its two parts, and the heat capacity and the average of an additive observable are the sums over the two parts, at every temperature.',
 ['inputs','configurations'],'All pairs of landscapes, contribution mixes that both parts (or only one of them) share, orders of the pairs, and temperatures.',
 'No test relates two landscapes; the guarantee ties every contribution, the normalisation and both moments of the heat capacity together over a whole product landscape.',
 [SP,PF],[('single normalisation','%s:SuperpositionApproximation.calc_probability'%SP),('combination of contributions','%s:SuperpositionApproximation.combine_contributions'%SP)],['calc_probability','calc_heat_capacity','calc_ensemble_average'])
p('C27','Only the ratios of energies and quanta to kB T matter',
 'Multiplying all energies, all vibrational frequencies and all temperatures by the same positive factor changes no occupation probability, no heat capacity and no ensemble average: the library contains no energy, frequency or temperature threshold of its own.',
 ['inputs','configurations'],'All landscapes, contribution mixes, temperatures (0 and infinity included) and positive factors.',
 'Tests use a handful of values of one magnitude; cut-offs, clips or switches at fixed energies, frequencies or temperatures are invisible to them.',
 [SP,PF,UT],[('calc_exponent','%s:calc_exponent'%UT),('vibrational quanta','%s:QuantumHarmonicPF'%PF)],['calc_probability','calc_heat_capacity','calc_ensemble_average'])
p('C28','Heating moves population and energy upwards',
 'When no contribution other than the electronic one depends on the energy scale, the ratio of the occupation of a higher minimum to that of a lower one never falls as the temperature rises, so the mean potential energy never falls. With any mix whose second moments are thermodynamically valid, the mean thermal energy -kB T <beta W> never falls with temperature.',
 ['inputs','configurations'],'All landscapes and pairs of temperatures, in any order in the request.',
 'Tests only look at the two ends (0 K and one huge temperature), never at the trend in between.',
 [SP,PF,UT],[('calc_exponent','%s:calc_exponent'%UT),('calc_ensemble_average','%s:SuperpositionApproximation.calc_ensemble_average'%SP)],['calc_probability','calc_ensemble_average'])
p('C29','Concurrent and nested queries get the answers they would get alone',
 'Queries are independent of each other in time: when several callers query shared or separate superposition objects, or a user-defined contribution queries another superposition from within a query, every reply is the one the same caller would get alone, under every interleaving, and every query ends.',
 ['schedules'],'All interleavings of queries (and of the construction of separate objects from shared contributions) at the granularity of source lines, and all nestings through user-defined contributions.',
 'The tests are sequential; state kept on an object, a class or a module between the steps of one query is invisible to them.',
 [SP,PF,UT],[('step-wise evaluation','%s:SuperpositionApproximation.combine_contributions'%SP),('heat capacity from several queries','%s:SuperpositionApproximation.calc_heat_capacity'%SP)],['calc_probability','calc_heat_capacity','calc_ensemble_average','calc_partition_functions'])
p('C30','Results depend on numbers, not on how arrays hold them',
 'Every array the caller passes (energies, multiplicities, frequencies, symmetry numbers, moments, user tables, temperatures, observables) may be of any memory layout (row- or column-major, strided, reversed, inside other data, unaligned), integer or at-least-double floating type, byte order, write protection or array subclass: equal numbers give equal results.',
 ['inputs','configurations'],'All strided views, numeric types of at least the needed range and precision, byte orders and protections, in every argument position.',
 'Tests only pass fresh contiguous double or integer arrays.',
 [SP,PF,UT],[('masked products','%s:calc_exponent'%UT),('masked weighting','%s:SuperpositionApproximation.calc_ensemble_average'%SP)],['calc_probability','calc_partition_functions','calc_heat_capacity','calc_ensemble_average'])
p('C31','Faulty input files are refused before anything is written',
 'When the input file does not exist, is empty or cut short, has unreadable numbers, lacks Energy, Multiplicity or Frequencies for any isomer, or gives isomers different numbers of frequencies, the command ends with a non-zero status and creates, changes or removes no file, results of earlier runs included. Once the file is repaired, the same command succeeds.',
 ['histories','inputs'],'All such faults in any isomer, all selections of contributions, and all histories of runs, edits, faults and repairs.',
 'No test runs the command line or a faulty file.',
 [IO,CLI],[('load_properties_from_extxyz','%s:load_properties_from_extxyz'%IO),('main','%s:main'%CLI)],['exit status','files on disk'])
p('C32','A run depends on nothing but its input data and options',
 'What a run of the command writes is determined by the current content of the input file and the options: runs before it, results and other files lying about, the name of the file, its time stamp and size, and the process it runs in make no difference. Repeating a run reproduces the same numbers, and a run changes no file other than its own results.',
 ['histories'],'All histories of runs, edits (that keep the size and time stamp of a file too), replacements of one file by another and removals of results.',
 'No test runs the command line at all, let alone twice.',
 [IO,CLI],[('load_properties_from_extxyz','%s:load_properties_from_extxyz'%IO),('main','%s:main'%CLI)],['files on disk'])
p('C33','Simultaneous runs do not disturb each other',
 'Runs of the command that are in progress at the same time, in one directory and on the same or different inputs but with different output prefixes, each end as if they were alone: with success, with the same numbers in the same files, whatever the order in which their operations on files interleave, and without any other file being left, changed or removed.',
 ['schedules'],'All interleavings of the file operations (on inputs, results, and whatever else the program keeps in temporary, cache or home directories) of runs with different prefixes.',
 'No test runs the command line; every sequential use of a run that shares a temporary file, a lock or a cache with others is blind to it.',
 [IO,CLI],[('save_results','%s:save_results'%CLI),('main','%s:main'%CLI)],['exit status','files on disk'])
p('C34','An interrupted or failed run does no harm and can be repeated',
 'When a run of the command is killed at any point, or cannot store its results (no space left, something is in the way), the input file and all files of other prefixes stay as they were; only a run that has written all of its results completely ends with status zero; and repeating the same command afterwards succeeds with the results of an undisturbed run.',
 ['crash_points','fault_sequences','histories'],'All points at which a run can be killed between or within its file operations, all failures to open or to fill a table, and all histories of such runs.',
 'Tests neither kill the program nor make writing fail.',
 [IO,CLI],[('save_results','%s:save_results'%CLI),('main','%s:main'%CLI)],['exit status','files on disk'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
