prop('C01', 'Unit conversion factors are physically correct or refused',
 'Converting between any two units of one physical quantity (named units with any metric prefix, by symbol or name, and products, ratios and powers of them, including expansion of derived units into base units) yields the factor that SI and Gaussian definitions imply. Converting a unit to a metric system for a given quantity lands on that system\'s canonical unit with the matching factor. Units of different dimension, and unknown units, are refused with the documented error (or give nothing when errors are turned off) rather than converted.',
 ['inputs'], 'every pair of unit expressions built from the defined units and prefixes; every quantity and metric system',
 'The tests list a few dozen pairs; the guarantee is over all combinations of units, prefixes, powers and spellings, where caches, rescaling and cancellation interact.',
 ['metric/_conversions.py', 'metric/_defined.py', 'metric/_reference.py', 'metric/__init__.py'],
 [('search of defined conversions, rescaling by prefix, term-by-term matching, reduction to base units', 'metric/_conversions.py'),
  ('prefix and base of a named unit', 'metric/_defined.py')],
 ['the number and unit of a conversion object', 'metric.ratio, and >> / << on units', 'the exception type'],
 'runtime oracle: independent SI table over generated unit pairs',
 'Randomised and partly exhaustive monitoring of the real conversion code; trusts the SI table in vlib/si.py. Prefixed electromagnetic units of different systems may be refused.')
prop('C02', 'Conversions compose and never depend on what was asked before',
 'Conversion factors form a groupoid: converting a unit to itself gives one, there and back gives one, and converting through an intermediate unit gives the direct factor whenever all are defined. The answer to any unit question (conversion, dimension, quantity, decomposition, canonical unit, comparison) is the same in every process, whatever was asked before it, in whatever order, and however the same unit was spelled.',
 ['inputs', 'histories'], 'every sequence of unit queries and every interpreter hash seed; every path between equivalent units',
 'Tests run in one fixed order in one process, so answers that depend on cache contents, singleton registration or set iteration order stay invisible.',
 ['metric/_conversions.py', 'metric/_units.py', 'metric/_systems.py', 'metric/_defined.py'],
 [('caches of conversions, converters, units, quantities and systems', 'metric/_conversions.py'), ('singleton units and their aliases', 'metric/_units.py')],
 ['answers of fresh processes to one list of queries in different orders'],
 'trace comparison across processes, orders and hash seeds; algebraic oracle',
 'Differential monitoring of recorded answers over several histories plus composition laws; every history is sampled, not enumerated.')
prop('C03', 'Units obey algebra, and comparisons mean what they say',
 'Multiplying, dividing and raising units gives a unit with exactly the product, ratio or power of their values and dimensions, and printing then reading a unit gives an equal unit. Two units are equal when one spelling can be rearranged into the other, equivalent exactly when they have one value and dimension, and consistent exactly when they have one dimension. Normalizing a unit to a metric system gives that system\'s coherent unit of the same dimension, and the reported dimension, quantity, name, symbol and scale of a unit, and its reduction to base units, are those of its definition.',
 ['inputs'], 'every expression over the defined units, prefixes and rational exponents',
 'Tests check tens of pairs; the algebra must hold for all expressions and spellings.',
 ['metric/_units.py', 'metric/_defined.py', 'metric/_dimensions.py', 'metric/_systems.py'],
 [('operators, equality, equivalence (&) and consistency (|)', 'metric/_units.py'), ('parsing of named units', 'metric/_defined.py')],
 ['the printed form of resulting units', 'boolean results of ==, &, |', 'dimensions, normalize()'],
 'runtime oracle: printed results evaluated with an independent SI table',
 'Randomised monitoring; frequency and radioactivity units are left out of the comparison part because the package keeps them irreducible.')
prop('C04', 'Symbolic expressions mean what ordinary algebra says',
 'Parsing a symbolic expression (products by * or white space, ratios, nested groups, integer, decimal or rational powers, numeric coefficients, square roots, alternative token sets) gives exactly the reduced product of powers that algebra gives, reading operators on one level from left to right. Products, ratios, powers, differences and reductions of expressions agree with algebra, two expressions are equal exactly when they denote the same product of powers (and then hash alike), and printing then parsing gives an equal expression. Terms take their algebraic value at a number, and applying a function to the bases of an expression keeps its powers and coefficients. Malformed text is refused, as is an ambiguous operator order when strict order is requested.',
 ['inputs'], 'every string of the expression grammar and every pair of expressions',
 'Tests hold a fixed list of strings; nesting, rational powers, coefficients and token sets combine without bound.',
 ['symbolic/_parser.py', 'symbolic/_operand.py', 'symbolic/_expression.py', 'symbolic/_operator.py'],
 [('recursive resolution of groups', 'symbolic/_parser.py'), ('patterns for constants, variables and groups', 'symbolic/_operand.py'), ('reduction of terms', 'symbolic/_expression.py')],
 ['terms of parsed expressions', 'results of operators', 'exception types'],
 'grammar-based workload against an exact-rational evaluator',
 'Generated expressions up to depth four; deeper nesting is not explored.')
prop('C05', 'Measuring keeps every number and its unit, in every accepted form',
 'However numbers and a unit are presented (flat, grouped, wrapped, pairwise, mixed numeric types, unit as text or object), measuring or parsing them yields exactly those numbers, in order, with that unit; measuring a measurement changes nothing and the input is left as it was. Measured values and sequences keep their number of elements, and converting them along any chain of units equals one direct conversion, multiplies the numbers by the physical factor and never alters the original. What is said to be measurable can be measured. Inputs with more than one unit, without numbers, with further arguments after a measured object, or with an incompatible target unit are refused, and what is not all numbers is said not to be measurable.',
 ['inputs', 'histories'], 'every list of numbers, every unit expression, every accepted presentation, every chain of compatible units',
 'Tests hold about a dozen literal presentations and one conversion each; losses appear for other nestings, numeric types and repeated conversions.',
 ['quantity/_functions.py', 'quantity/_measurement.py', 'quantity/__init__.py', 'measured/_factories.py', 'measured/_types.py', 'measured/_context.py', 'measured/_sequence.py', 'measured/_value.py'],
 [('recursive parsing of measurables', 'quantity/_functions.py'), ('unit conversion of measured values', 'measured/_context.py')],
 ['values and unit of a measurement', 'withunit results', 'exception types'],
 'runtime oracle: generated presentations against the numbers and unit they were built from',
 'Randomised monitoring over twelve presentations; generators are not a documented measurable form.')
prop('C06', 'Converted, transposed and scaled arrays keep their numbers',
 'Through any history of unit conversion, transposition, subscripting, scaling, negation and absolute value on physical arrays, vectors, tensors and scalars, each result holds exactly the numbers, unit, dimensions and axes that the composition of those steps implies, and every object made along the way keeps its own numbers, unit and axes. Converting along any chain of units equals one direct conversion. Physical objects, measured sequences and axes made from other measured objects have the numbers and the unit of those.',
 ['inputs', 'histories'], 'every sequence of operations on every physical object, with the originals used again later',
 'Tests apply one operation to a fresh object; a scale or an order that is lost or shared shows only after two or more steps, or on the original.',
 ['physical/_array.py', 'physical/_scalar.py', 'physical/_vector.py', 'physical/_tensor.py', 'physical/_object_factories.py'],
 [('accumulated scale of converted arrays and transposition of axes', 'physical/_array.py'), ('unit conversion of physical objects', 'physical/_object_factories.py')],
 ['numbers, unit, dimensions and axis values of each object', 'the same of earlier objects, again later'],
 'runtime oracle: numpy model carried along each history',
 'Randomised histories of up to about eight steps on arrays of up to four dimensions; negation and scaling by plain numbers only.')
prop('C07', 'Arithmetic on physical objects is numpy arithmetic with units',
 'Sums, differences, products, ratios, powers, rounding and comparisons of physical arrays, scalars, vectors and tensors with each other, with measured values and with plain numbers give the numbers that numpy gives once units agree, the unit that unit algebra gives, and the axes of both operands matched by name, singular axes being filled by the axis that contains them. Operands whose units do not admit the operation, sums and differences of operands whose axes hold different values, and products over dimensions that contradict each other in order or size are refused, and no operation changes its operands.',
 ['inputs'], 'every pair of operands, operators, units and named axes',
 'Tests combine a few fixed arrays; unit scales, shared and distinct dimensions, and operand types multiply into cases that are never sampled.',
 ['physical/_operations.py', 'physical/_array.py', 'physical/_scalar.py', 'physical/_axes.py', 'physical/_axis.py', 'physical/_object_factories.py'],
 [('operators of physical objects', 'physical/_operations.py'), ('merging of axes', 'physical/_axes.py')],
 ['numbers, unit and axes of results', 'operands after the operation', 'exception types'],
 'runtime oracle: numpy and independent unit algebra on the same operands',
 'Randomised monitoring; comparisons with plain numbers ignore the unit by design, and remainder and floor-division units follow division.')
prop('C08', 'Named dimensions combine in order and arrays broadcast by name',
 'Union, intersection, difference and symmetric difference of array dimensions follow set algebra while keeping the order of both operands, and orders that contradict each other are refused. Arithmetic on arrays with named dimensions matches them by name whatever their position, and gives an array over the merged dimensions. Operations on named axes (merging, inserting, replacing, permuting, extracting) keep every other axis, its name and its position. Axes made from lengths, a shape, unnamed axes, pairs or a mapping have the names and values given. Collections of axes are ordered as the sets of their names, and refuse the comparison when a shared axis differs.',
 ['inputs'], 'every pair of dimension lists and every pair of real arrays and axes over them',
 'Tests cover a few pairs of one to three dimensions; ordering faults need particular partial overlaps.',
 ['numeric/_array.py', 'real/_array.py', 'real/_operations.py', 'physical/_axes.py'],
 [('set operations on dimensions', 'numeric/_array.py'), ('broadcasting of arrays by name', 'real/_array.py')],
 ['dimension names of results', 'numbers of results', 'exception types'],
 'exhaustive pairs (thorough) and random arrays against a list and numpy model',
 'Exhaustive over all lists of up to four names in the thorough tier, sampled in the quick tier.')
prop('C09', 'Subscripts select exactly the numbers and axes asked for',
 'Subscripting an array with any mix of integers, slices, index sequences and an ellipsis, in full or abbreviated, selects along each dimension independently the numbers that numpy selects, keeps every dimension, and selects the same elements of each axis. The result is the same for arrays in memory and arrays still in a file, before and after unit conversion, and for chained subscripts. An empty selection is an empty array with the same unit and dimensions, and asking whether an array contains a number, or a measured number in the same unit, or iterating over it, uses exactly its numbers. Vectors, tensors and sequences give the parts asked for in the same way. Subscripts out of range, or more than there are dimensions, are refused.',
 ['inputs', 'histories'], 'every array shape, subscript and chain of subscripts, in memory and from file',
 'Tests list some subscripts of one array; combinations with lists, negative steps, lazy data and conversion are not sampled.',
 ['numeric/_array.py', 'real/_array.py', 'physical/_array.py', 'physical/_axes.py', 'physical/_axis.py'],
 [('normalisation of subscripts and lazy reading', 'physical/_array.py'), ('subscripts of axes', 'physical/_axis.py')],
 ['numbers, dimensions and axis values of results', 'exception types'],
 'runtime oracle: orthogonal numpy selection on the same data',
 'Randomised monitoring; boolean masks, numpy-array subscripts and bare lists are left out.')
prop('C10', 'Numpy functions on package arrays agree with numpy, units and axes',
 'Numpy reductions, cumulative sums, squeezing, transposition, gradients, integrals and universal functions applied to real and physical arrays give the numbers that numpy gives on the plain data, the unit that the operation implies, and the dimensions and axes that remain. Logarithms and trigonometric functions of quantities with other dimensions are refused, and the operand is left as it was.',
 ['inputs'], 'every registered function, axis argument, array shape and unit',
 'Tests run each function on one array with one or two axis arguments.',
 ['physical/_array.py', 'physical/_operations.py', 'real/_array.py', 'numeric/_array.py', 'numeric/_data.py'],
 [('implementations of numpy functions', 'physical')],
 ['numbers, unit and dimensions of results', 'exception types'],
 'runtime oracle: numpy on the plain data with independent units',
 'Randomised monitoring; reductions with keepdims over all axes, and one-dimensional trapz units, are left out.')
prop('C11', 'Axis values resolve to the positions that hold them',
 'Looking up values on an axis gives exactly the positions that hold them, in the order asked for, however the values are given: plain numbers in the unit of the axis, numbers with any commensurable unit, measured objects, points or symbols; converting the axis or the targets changes no position, rounding at either end included. A value that the axis does not hold is refused with a value error, unless the nearest position below or above it is asked for. Subscripting an array at positions found this way selects those axis values. A part of an axis holds the chosen values and reports the positions they had, and two axes are equal exactly when they hold the same values in the same unit.',
 ['inputs'], 'every axis kind, order, unit and form of target',
 'Tests look up a few targets on one axis in a convenient unit; rounding, order and unit cases are not sampled.',
 ['physical/_axis.py', 'physical/_axis_factories.py', 'container.py', 'numeric/_data.py'],
 [('lookup of points, symbols and coordinates', 'physical/_axis.py'), ('nearest value under a constraint', 'container.py')],
 ['index objects returned', 'exception types', 'subarrays selected'],
 'runtime oracle: positions known from how the axis and targets were made',
 'Randomised monitoring; values are separated well beyond the tolerance of the lookup; the nearest position beyond either end is left out.')
prop('C12', 'Array positions obey integer arithmetic and bounds',
 'Index values and sequences hold the integers they were made from, whatever the accepted form, and obey integer arithmetic and comparison elementwise, with values and integers applying to each member of a sequence; negative powers and non-integral or united arguments are refused. Shifting clips at the given floor and ceiling. Restricting an array to targets gives the smallest index range that brackets all of them; the nearest value under a bound is the nearest of those that satisfy it; an ellipsis stands for the missing dimensions.',
 ['inputs'], 'every pair of operands, bounds, arrays, targets and subscripts',
 'Tests use single small examples; wrong clipping, operand order or bracketing appears only for particular values.',
 ['numeric/_index.py', 'container.py'],
 [('index objects, bounds and subscript expansion', 'numeric/_index.py'), ('nearest', 'container.py')],
 ['integers held by results', 'ranges returned', 'exception types'],
 'runtime oracle: plain integer and numpy computation',
 'Randomised monitoring; sequences of unequal length are not combined.')
prop('C13', 'Every alias of a key reaches the same value',
 'In a mapping with aliases, every alias of a key reads, updates, deletes and tests the same one item, through any history of updates, deletions, alias registrations, pops, clears, copies and merges; iteration, length, views and equality agree with that. An alias never belongs to two items: registering one that is taken is refused, and merging groups that overlap leaves one group. Absent keys raise a key error and leave the mapping unchanged. Alias sets behave as sets, name maps give every alias its canonical name, grouped keys give the values of their members, and reduced or frozen copies keep the aliases of what they keep.',
 ['histories', 'inputs'], 'every sequence of operations on every set of aliases',
 'Tests apply single operations to one fixed mapping; corruption by overlapping groups or after deletions needs a history.',
 ['aliased.py'],
 [('alias groups, immutable and mutable mappings, name maps', 'aliased.py')],
 ['values through every alias after each step', 'iteration, length and views', 'exception types'],
 'runtime oracle: list-of-sets model stepped beside the real mapping',
 'Randomised monitoring of histories of up to thirty steps.')
prop('C14', 'Raw observables are the stored numbers in the metric system',
 'For any observer file, every quantity stored there (times, energies, speeds, pitch-angle cosines, masses, charges, positions, fields, density, distribution or flux) is observed, under its name and each documented alias, as exactly the stored numbers converted from the stored unit to the unit of the chosen metric system, with that unit, its dimensions, and axes that hold the stored times, shells, species, energies and cosines. Converting an observable or an observation to another unit scales its values and leaves the original as it was. The datafile interfaces to the axes, arrays and coordinate grid of a file report the same. The datafile view reports the stored numbers, units, dimensions and sizes untouched.',
 ['inputs'], 'every file content, stored unit, metric system and alias',
 'Tests read three shipped datasets in one unit each and compare a few shapes and units, not values in general.',
 ['datafile/_interfaces.py', 'datafile/_viewers.py', 'datafile/_core.py', 'reference.py', 'eprem.py', 'observable/_interfaces.py'],
 [('arrays and axes in a metric system', 'datafile/_interfaces.py'), ('file views', 'datafile/_viewers.py'), ('names and aliases', 'reference.py'), ('observer axes', 'eprem.py')],
 ['values, unit, dimensions and axes of every stored quantity', 'view contents'],
 'runtime oracle: raw numbers kept by the generator that wrote the file',
 'Randomised monitoring; files are synthetic and small; lengths, speeds and times stored in units that are also Gaussian electrical units are left out.')
prop('C15', 'Derived positions and fields obey their vector definitions',
 'Cartesian positions, magnitudes of the magnetic and velocity fields, the components of velocity along and across the field, the angle between them, and the divergence of the flow are, at every time and shell, what their vector definitions give for the stored components: positions have the stored radius, the two components recombine to the speed, the angle lies between 0 and pi and is finite even when the vectors are aligned, and the divergence is minus the logarithmic time derivative of the density.',
 ['inputs'], 'every field geometry, aligned and degenerate included',
 'Tests observe these on shipped runs, and compare units and shapes; degenerate geometries and wrong components are not sampled.',
 ['observable/_interfaces.py'],
 [('implementations of derived quantities', 'observable/_interfaces.py'), ('gradients and square roots of arrays', 'physical/_operations.py')],
 ['values, unit and axes of nine derived observables', 'identities among them'],
 'runtime oracle: vector algebra on the raw numbers',
 'Randomised monitoring; vanishing magnetic field or density is left out.')
prop('C16', 'Particle observables follow their definitions',
 'Rigidity, mean free path, acceleration rate, flux, fluence, energy density, average energy and integral flux have the values that their definitions give for the stored distribution (or stored flux), species, fields and the transport parameters in the run configuration file, in both metric systems. Flux and everything computed from it are proportional to the distribution. Integral flux above given minimum energies, in any unit of energy, integrates flux from each of them up, following a power law between stored energies; an energy above the grid is refused.',
 ['inputs', 'configuration'], 'every run, parameter set and minimum energy',
 'Tests check shapes and units of these on shipped runs with default parameters, and no values.',
 ['observable/_interfaces.py', 'parameter/_runtime.py', 'universal.py'],
 [('implementations of particle quantities', 'observable/_interfaces.py'), ('transport parameters', 'parameter/_runtime.py'), ('constants', 'universal.py')],
 ['values, unit and axes of eight observables', 'scaling laws', 'exception types'],
 'runtime oracle: the definitions evaluated with numpy on the raw numbers',
 'Randomised monitoring; running sums of integral flux over energy ranges and zero flux are left out.')
prop('C17', 'Subscribing an observable gives that part of the whole',
 'Observing any observable at any combination of integers, negative integers, slices with any step, sequences in any order with repeats, ranges, species symbols, empty ranges and ellipses gives exactly the values that the whole observation has there, with the unit of the observable, one dimension per dimension, and axes that hold the chosen times, shells, species, energies and cosines, also for observables whose computation needs neighbouring times, shells or energies. Positions beyond either end, too many subscripts and unknown species are refused.',
 ['inputs'], 'every observable and combination of subscripts',
 'Tests use a handful of subscripts; off-by-one or order errors in one dimension of one observable are not sampled.',
 ['observable/_objects.py', 'observable/_interfaces.py', 'numeric/_index.py', 'physical/_axis.py', 'physical/_array.py'],
 [('subscription of quantities', 'observable/_objects.py'), ('subscripted implementations', 'observable/_interfaces.py')],
 ['values, unit, dimensions and axes of observations', 'exception types'],
 'runtime oracle: numpy subscripts of whole arrays computed from the raw numbers',
 'Randomised monitoring; boolean masks and several species symbols at once are left out.')
prop('C18', 'Values between grid points come from linear interpolation',
 'Observing at times, radii, energies or pitch-angle cosines, given in any unit of the right kind and mixed with positions along other dimensions, gives linear interpolation of the stored or computed values between neighbouring grid points (over radius at each time with the radii of that time, before time; at the ends the end values), with formulas of interpolated components for positions, magnitudes, velocity components and angles, and the exact formulas for rigidity and mean free path. Values on the grid give the observation at that position. The axes hold the requested values, in the order given. Values beyond the grid and units of another kind are refused.',
 ['inputs'], 'every observable and combination of targets, units and positions',
 'Tests interpolate one quantity to one radius; wrong order, unit or axis of interpolation is not sampled.',
 ['observable/_interfaces.py', 'observable/_objects.py'],
 [('interpolation', 'observable/_interfaces.py'), ('contexts and targets', 'observable/_objects.py')],
 ['values, unit and axes of observations', 'exception types'],
 'runtime oracle: linear interpolation with numpy on the raw numbers',
 'Randomised monitoring; speeds between stored energies and integral flux are left out.')
prop('C19', 'Combined observables equal the combination of observations',
 'Products, quotients, real powers, sums and differences of observables, converted or not, of the same or different dimensions, built with operators or by name as a symbolic expression of names and aliases, have at every subscript and interpolation target the values and unit that the same combination of the single observations has, with dimensions merged in order, in both metric systems; observations in the two metric systems differ exactly by the unit. Unlike quantities do not add, units of another kind are refused, and names of nothing observable raise a key error. An observer lists every observable under every name once.',
 ['inputs'], 'every combination of observables, subscript, target, unit and metric system',
 'Tests combine two quantities and look at units and dimensions only, never at values.',
 ['observable/_objects.py', 'observable/_interfaces.py', 'eprem.py', 'reference.py', 'symbolic/_expression.py'],
 [('quantity algebra and units', 'observable/_objects.py'), ('symbolic look-up', 'observable/_interfaces.py')],
 ['values, unit and dimensions of combined observations', 'exception types'],
 'runtime oracle: numpy combinations of arrays computed from the raw numbers',
 'Randomised monitoring; quantities whose dimensions come in conflicting orders are not combined.')
prop('C20', 'Observers and datasets read the files their names mean',
 'A stream or point observer, a general observer, and every member of a dataset show the contents of exactly the output file that their identifier names in the given directory (stream, obs, flux, point and p_obs names, numbered or named), with the parameter values of the named configuration file and in the named metric system, whichever way directory and file are given (absolute, relative, home, path object or text, current directory). A dataset has one stream or point for every such file and no other, and asking again, in another order or in another process gives the same. Without a configuration name the first of the documented default names that exists is used. Missing directories, observers or configuration files and impossible identifiers are refused and leave later requests unharmed.',
 ['inputs', 'histories'], 'every directory content, way of naming and order of requests',
 'Tests open three shipped directories by one spelling each; collisions of identifiers, prefixes and relative paths need other directory contents.',
 ['eprem.py', 'datafile/_core.py', 'datafile/_interfaces.py', 'paths.py', 'parameter/_runtime.py'],
 [('observer and dataset discovery', 'eprem.py'), ('file interfaces', 'datafile/_interfaces.py'), ('path handling', 'paths.py')],
 ['which file, configuration and system each observer shows', 'streams and points of datasets', 'answers of fresh processes', 'exception types'],
 'runtime oracle: the generator of each directory knows what every file holds',
 'Randomised monitoring of small synthetic directories; names with glob characters are left out.')
prop('C21', 'Configuration files are read, compared and generated faithfully',
 'A configuration file maps each parameter to exactly the text given for it, last one wins, whatever the spacing, blank lines, equals signs in values, and whole-line or trailing comments with any comment marks. Two files compare to every parameter of either with the value of each or nothing, and differ in exactly the parameters that only one has. The command-line comparison shows, for each of the files and each parameter (or with differences only, each that differs among them) once, the value of that file with its unit or that it is the default, and the default of the package or of the given source code. A generated file states every default, reads back as the defaults, and does not differ from them. Files are never changed by reading, and missing or malformed ones are refused.',
 ['inputs'], 'every file text and group of files',
 'Tests read one well-formed file; blank lines, equals signs, repeats, several directories and default lists are not sampled.',
 ['parameter/_config.py', 'cli.py', 'paths.py', '__main__.py'],
 [('parsing and comparison', 'parameter/_config.py'), ('command-line comparison and generation', 'cli.py')],
 ['parsed mappings', 'comparisons', 'printed tables of processes and calls', 'generated files read back'],
 'runtime oracle: the generator of each text keeps what it says',
 'Randomised monitoring.')
prop('C22', 'Runtime parameters have the values that the run would use',
 'For every configuration file and every EPREM source directory (or the built-in reference), every parameter, under its name and each documented alias, has the value given in the file, or else the value that the default in the source evaluates to (numbers, constants, other parameters, their sums, differences, products and ratios) with the values given for this run, in the documented unit (given angles in degrees when the run uses degrees). Constants evaluate to what their definitions say, the reference tables, their text form, and a database of defaults made anew (or extended) from a source directory state the same definitions, and unknown names are refused. A single-valued parameter acts as a number in conversion and rounding and several-valued ones refuse to; indexing gives the values in order with the unit.',
 ['inputs', 'configuration'], 'every configuration file, source directory and parameter',
 'Tests compare the defaults of one reference; defaults that depend on given values, other sources and zero values need other inputs.',
 ['parameter/_runtime.py', 'parameter/_config.py', 'parameter/_src.py', 'parameter/_metadata.py', 'parameter/reference.py', 'scripts/default-parameters.py'],
 [('parameter values', 'parameter/_runtime.py'), ('evaluation of defaults', 'parameter/_config.py'), ('parsing of source code', 'parameter/_src.py'), ('units and aliases', 'parameter/_metadata.py'), ('database of defaults', 'scripts/default-parameters.py')],
 ['value and unit of every parameter under every name', 'constants and definitions', 'conversions of single values', 'exception types'],
 'runtime oracle: an independent table of parameters and independent evaluation of generated C definitions',
 'Randomised monitoring; sums of more than two terms, and operands with digits inside their names, are left out, as is the unit of angles that keep their defaults in a run that uses degrees.')
prop('C23', "A project's runs, directories and log tell one story",
 'Through any history of creating, running (with succeeding or failing programs), renaming and removing runs, in all or some branches, resetting, renaming, reopening, copying and removing the project, from Python or its own script, the runs and branches it reports are exactly the directories on disk (and no other files), each run directory has the given configuration (the project input of that name, or else the file that the name denotes) and the output of its program, and the log lists exactly the runs that finished successfully, each with its entry, under their present paths. Refused operations (existing or missing runs, existing projects, unknown branches, empty names) change nothing they refuse, and nothing outside the affected runs changes; whatever pattern is given, removing runs removes only directories inside the run directories. An update of the log that is cut off at any point or cannot be written leaves the log as it was. A copy has the attributes and inputs of the original and none of its runs.',
 ['histories', 'faults'], 'every history of operations, failing program and point of interruption',
 'There are no tests of projects; consistency of disk and log needs histories, failing programs and interrupted updates.',
 ['project.py', '_project_main.py', 'interfaces.py', 'paths.py'],
 [('project operations and run paths', 'project.py'), ('run log', 'project.py'), ('script in each project', '_project_main.py')],
 ['complete directory trees and log files after each operation', 'what programs were started with', 'printed reports', 'exception types'],
 'runtime oracle: model of disk and log stepped beside the real project, with fault injection in log updates',
 'Randomised monitoring as an unprivileged user in a scratch directory; creating or renaming to names that lead outside of the run directory is left out.')
prop('C24', 'What is observed never depends on what was observed before',
 'Whatever sequence of opening observers and datasets, observing, converting, combining, reducing, transposing and looking up quantities, parameters, axes and units came before, with objects reused or asked for again, each request gives the same values, units, dimensions, axes or refusal as it gives in a new process that does nothing else, whatever the hash seed. Results given out keep their values, unit and axes however often and in whatever way they, the arrays made from them, or the objects they came from are used afterwards, changing the numbers of an array copied from a result changes nothing else, and reading never alters any file. An observer opened after a file was replaced shows the new file, one already in use keeps showing what it opened, and folders whose files have equal names are never mixed up.',
 ['inputs', 'histories', 'configuration'], 'every history of requests over every set of files, and every hash seed',
 'Each test asks a few things of new objects; stale caches, shared mutable state and order-dependent registries show only over histories of mixed requests.',
 ['eprem.py', 'observable/_objects.py', 'observable/_algorithms.py', 'datafile/_interfaces.py', 'physical/_arrays.py', 'metric/_conversions.py'],
 [('caches of observers, observables, observed arrays and views', 'observable/_objects.py'), ('caches of units and conversions', 'metric/_conversions.py')],
 ['values, units, dimensions, axes and refusals of each request', 'the same of every result when the history is over', 'digests of files'],
 'runtime monitor: recorded histories checked step by step against fresh forked processes',
 'Randomised monitoring of random histories; each is sampled, not enumerated.')
prop('C25', 'Constants, quantities, systems and elements agree with physics',
 'In each metric system every physical quantity has the physical dimension and the coherent canonical unit of that system, however it is asked (by quantity, unit, dimension, in any spelling; one that could be several is taken as a unit first, then a dimension, then a quantity), every unit has the dimension of the quantity it measures, and two quantities are alike exactly if their dimensions agree in both systems. Every universal constant has its physical value and coherent unit in each system, the two agree by conversion, and using a constant never changes it. Elements have their names and masses; the symbols, masses and charges of lists of species determine one another, for whole numbers given exactly, as floats, or off by rounding; unknown quantities, constants, masses and inconsistent arguments are refused.',
 ['inputs'], 'every quantity, constant, system, unit expression and list of species',
 'Tests check a few entries of each table and a few ions.',
 ['metric/_systems.py', 'metric/_reference.py', 'metric/_dimensions.py', 'universal.py', 'atomic.py'],
 [('tables of quantities, units and dimensions', 'metric/_reference.py'), ('look-ups of metric systems', 'metric/_systems.py'), ('constants', 'universal.py'), ('elements and species', 'atomic.py')],
 ['units and dimensions of quantities', 'values and units of constants', 'symbols, masses and charges of species', 'exceptions'],
 'runtime oracle: independent tables of physics, over exhaustive tables and random inputs',
 'Tables are observed exhaustively, unit expressions and species lists at random. Constants are compared to about four digits; elements that share a rounded mass resolve to the first.')
prop('C26', 'Helper collections, paths and wrappers keep their contracts',
 'For every input, the helpers that the package is built on do what they say: removing repeats, wrapping and unwrapping, merging in order, distributing, measuring and recognising collections; nearest values within bounds; tables searched by value or by several keys; graphs with reciprocal weights, invertible mappings, and registries that lose no object through any history; wrappers that substitute values or exceptions for the known exceptions and their subtypes and pass all others on; types and instances kept single, and sentinels equal only to themselves; paths expanded, localised and searched in the order given, text files parsed line by line, comments stripped at the first mark; and subcommands that call their own function with the arguments given. What cannot be done is refused with the documented exception.',
 ['inputs', 'histories'], 'every collection, table, mapping, failing function, path and history of registrations',
 'Tests check examples of each; the contracts are over all shapes of input, repeats, subtypes of exceptions, and orders of registration.',
 ['container.py', 'exceptions.py', 'paths.py', 'etc.py', 'interfaces.py'],
 [('collections', 'container.py'), ('exception wrappers', 'exceptions.py'), ('paths and text files', 'paths.py'), ('types, instances and texts', 'etc.py'), ('subcommands', 'interfaces.py')],
 ['results of each helper', 'objects in registries and tables', 'exception types'],
 'runtime oracle: independent definitions of each helper over random inputs and histories',
 'Randomised monitoring; merging lists that repeat items within themselves and negative bounds of slice2range are left out.')
prop('C27', 'Objects print, copy, store and plot their true numbers and units',
 'Every measured object, physical array and axis, whatever conversions, subscripts, transpositions and copies it went through, prints without failing and shows its own numbers (rounded), unit, dimensions and type; its copies, deep copies and pickles, and those of units, dimensions, systems, conversions, constants, species, expressions and aliased mappings, are equal to it, show the same, and convert and combine as it does. Equal expressions have equal hashes, and every unit formats as text and TeX with exactly its terms and exponents. A plot of an array that varies along one dimension draws its numbers in the requested unit (its own by default) against that axis, the named axis or the given values, once, in a figure of its own, labelled with the unit drawn and the axis unless labels are given, shown or saved to the given path; other arrays and wrong arguments are refused, and failed plots leave nothing behind that alters later ones.',
 ['inputs', 'histories'], 'every object after every sequence of operations; every way of plotting',
 'There are no tests of plotting, copying or pickling, and the printed forms are compared for a few constant objects.',
 ['physical/_array.py', 'physical/_axis.py', 'physical/_axes.py', 'etc.py', 'symbolic/_operand.py', 'symbolic/_expression.py', 'measured/_object.py', 'metric/_units.py'],
 [('plots', 'physical/_array.py'), ('printing', 'etc.py'), ('formats of terms', 'symbolic/_operand.py'), ('singleton units and their restoration', 'metric/_units.py')],
 ['printed text', 'values, units, axes and conversions of copies', 'lines, labels, limits and files of figures as shown or saved', 'exception types'],
 'runtime monitor: what matplotlib holds when a figure is shown or saved, and printed and restored objects, against models',
 'Randomised monitoring; printed numbers are compared to the few digits that arrays show.')
