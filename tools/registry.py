"""Writes properties.jsonl and MANIFEST.json from the declarations below.

usage: python3 tools/registry.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
C = 'src/goats/core/'


def prop(id, title, statement, over, text, why, files, mechanism, observe_at, technique, note):
    PROPS.append(dict(
        prop={
            'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {
                'files': files,
                'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                'observe_at': observe_at, 'hook_needed': None,
            },
        },
        check={
            'property': id,
            'quick_cmd': f'bash /verif/check.sh {id} quick',
            'thorough_cmd': f'bash /verif/check.sh {id} thorough',
            'technique': technique, 'level': 'model_checking', 'level_note': note,
        },
    ))


EXPL = 'bounded exhaustive enumeration of executions of the real code against a reference model'

prop('P01', 'A symbolic string means what algebra says it means',
     'Parsing a string (or an iterable of operands) of the documented grammar gives the monomial that ordinary algebra assigns to it: '
     'its coefficient, its exact rational exponents and its bases, with like bases collected and terms in canonical order. '
     'Spacing, explicit or implied multiplication, grouping, roots, number notation and a choice of other operator tokens do not change the meaning. '
     'Strings outside the grammar are refused with an error instead of parsed as something else.',
     ['inputs', 'configurations'],
     'every string of up to three operands (or depth-3 groups) over the stated alphabet of coefficients, bases, exponents, operators and spacings; every token set',
     'the tests parse a few dozen fixed strings; the meaning must hold for every combination of coefficient, exponent, operator and nesting',
     [C + 'symbolic.py'],
     [('OperandFactory, Parser, Expression', C + 'symbolic.py'), ('reduce', C + 'symbolic.py')],
     ['symbolic.Expression(...)'], EXPL,
     'all strings of the grammar within the stated alphabet and depth; ambiguous spellings excluded')

prop('P02', 'Symbolic expressions obey the algebra of monomials',
     'Multiplying, dividing and raising expressions (plain, reflected or in place, with expressions or strings) gives the monomial that algebra gives, for every sequence of such operations, and never changes an operand that was not the target of an in-place operation. '
     'Expressions denote the same value if and only if they compare equal, equal ones hash alike, and printing an expression and parsing the text again gives an equal one. '
     'Differences and substitutions of terms agree with the algebra too.',
     ['histories', 'inputs'],
     'every sequence of up to three operations from every starting expression of the alphabet; all triples for the group laws',
     'the tests apply single operations to a few expressions; closure under sequences, aliasing and hash agreement are universally quantified',
     [C + 'symbolic.py', C + 'algebraic.py'],
     [('Expression, Term', C + 'symbolic.py'), ('Orderable, Additive, Multiplicative', C + 'algebraic.py')],
     ['symbolic.Expression operators', 'hash', 'str'], EXPL,
     'all operation sequences to depth 2 (3 thorough) over 11 expressions; values to relative 1e-9')

prop('P03', 'An aliased mapping is a many-to-one mapping under every history',
     'After any sequence of assignments, deletions, updates, alias registrations, copies and merges, each alias of an aliased mapping names exactly one value, all aliases of a group name the same value, and lookup, membership, length, iteration, the keys/values/items views and equality agree with that. '
     'An operation that is refused leaves the mapping as it was. '
     'A mapping built from another shares no state with it, and an immutable mapping cannot be changed.',
     ['histories'],
     'every sequence of up to 3 operations over 5 aliases from every kind of construction',
     'the tests check single operations on one mapping; consistency of the views is a property of every history, including refused operations',
     [C + 'aliased.py'],
     [('Mapping, MutableMapping', C + 'aliased.py'), ('KeysView, ValuesView, ItemsView', C + 'aliased.py')],
     ['aliased.Mapping', 'aliased.MutableMapping'], EXPL,
     'all operation sequences to depth 3 over 5 aliases; partly overlapping multi-alias assignment excluded (undefined)')

prop('P04', 'Alias groups stay a partition, and every reference alias names one quantity',
     'Groups of aliases are pairwise disjoint after any sequence of additions, updates, merges and removals: overlapping groups are merged, and every alias is found in exactly its own group however the group is written. '
     'Equal groups hash alike whatever the order of their aliases. '
     'Every alias of every reference quantity (observables, metadata, name maps) leads to the same entry as its canonical name.',
     ['histories', 'inputs'],
     'every sequence of up to 3 operations over 5 elements; every alias of the reference tables',
     'the tests add a few groups; a partition must survive every order of overlapping additions, and the tables have hundreds of aliases',
     [C + 'aliased.py', C + 'reference.py', C + 'metric.py'],
     [('Group, Groups, NameMap, keysfrom', C + 'aliased.py'), ('METADATA, NAMES', C + 'reference.py')],
     ['aliased.Groups', 'aliased.NameMap', 'reference.METADATA'], EXPL,
     'all operation sequences to depth 3 over 9 groups; all entries of the reference tables')

prop('P05', 'A unit conversion, when given, is the physical ratio of the units',
     'Whenever a conversion factor between two units is given, it equals the ratio of the physical sizes of the units, for every known unit, prefix, spelling, power and product; converting there and back gives 1 and conversions compose. '
     'Units that measure the same quantity term by term always convert, in products of up to three terms in any order, and the metre-kilogram-second and centimetre-gram-second units of each quantity convert into each other. '
     'Units of different dimensions never convert, unknown units are refused, and all entry points agree. A number in a unit (as in `2 m`) is part of its size. A unit reduced to the base units of a system, and products, quotients and powers of that, keep its size.',
     ['inputs'],
     'all pairs of the 47 base units with prefixes, all products of up to three terms over the stated alphabets, both directions',
     'the tests convert a short list of pairs; a wrong factor can hide in any of the ~10^6 combinations of unit, prefix, power and product',
     [C + 'metric.py'],
     [('Conversion, Converter, CONVERSIONS', C + 'metric.py'), ('_Conversion search by term, definition and dimension', C + 'metric.py')],
     ['metric.conversion', 'metric.Unit'],
     EXPL + ' (an independent table of SI and Gaussian units)',
     'all unit pairs and products within the stated alphabets; the oracle table is written independently of the code')

prop('P06', 'Every quantity has the right dimension and coherent unit in every metric system',
     'For every known quantity, and every product, ratio and power of quantities, the dimension in each metric system is the physical one and the canonical unit has exactly that dimension and the size 1 in that system. '
     'Every route to them (by quantity, by unit, by dimension, through a system or a quantity, in any spelling or case) gives the same answer, and dimensions of compound units are the product of those of their terms. '
     'Units are consistent with each other exactly when they measure the same thing, and unknown names are refused.',
     ['inputs', 'configurations'],
     'every quantity of the tables and all products of up to three quantities or units over the stated alphabets, in both systems and by every route',
     'the tests look at a handful of quantities; the tables have about a hundred entries per system and the composition rules apply to all products',
     [C + 'metric.py'],
     [('_QUANTITIES, _Property, DIMENSIONS, UNITS', C + 'metric.py'), ('Quantity, System, Dimension, Dimensions', C + 'metric.py'), ('Unit.norm, Unit.dimensions, Unit.__or__', C + 'metric.py')],
     ['metric.Quantity', 'metric.System', 'metric.Unit'],
     EXPL + ' (an independent table of quantities in SI and Gaussian terms)',
     'all quantities; products to length 3 over stated alphabets; the oracle table is written independently of the code')

prop('P07', 'What a unit means does not depend on what happened before',
     'Whatever units, quantities and conversions were created, refused, combined or changed before, each question about units (meaning, dimension, canonical unit, equality, conversion factor, product) has the answer it has in a fresh process. '
     'Making a unit again from any spelling used before gives the same object, of the class that was asked for. '
     'The mappings of canonical units, systems and dimensions that a unit hands out are copies: changing one changes no answer.',
     ['histories'],
     'every sequence of up to two of 95 operations before each of 69 questions, and all rotations of the questions in both directions',
     'tests run each question in one order; singletons, caches and alias registration make the answers depend on history in ways one order cannot show',
     [C + 'metric.py', C + 'metadata.py', C + 'aliased.py'],
     [('_UnitMeta and _NamedUnitMeta singletons', C + 'metric.py'), ('cached dimensions, norms, decompositions', C + 'metric.py'), ('measure', C + 'measurable.py')],
     ['metric.Unit', 'metric.conversion', 'metric.Quantity'],
     EXPL + ' (each history in a forked process, compared with a fresh one)',
     'all histories of length 2 over the stated operations; quick uses a subset of the operations for pairs')

prop('P08', 'Unit arithmetic and equality keep the physical meaning of units',
     'Multiplying, dividing and raising units (in plain, in-place and string forms, in any sequence) gives a unit of exactly the size and dimension that physics gives, and changes no operand. '
     'Units that differ in size or dimension never compare equal, and the documented equivalent spellings always do. '
     'As the unit of a quantity, a unit is unchanged by numbers, adds only to an equal unit, and refuses others with an error.',
     ['inputs', 'histories'],
     'all pairs of units with prefixes, powers of powers, and all sequences of up to two (three) operations over the stated alphabet',
     'the tests multiply a few units; decomposition into base units happens for every pair of the 47 units and every prefix',
     [C + 'metric.py', C + 'metadata.py'],
     [('Unit arithmetic, decompose, __eq__', C + 'metric.py'), ('Unit', C + 'metadata.py')],
     ['metric.Unit', 'metadata.Unit'],
     EXPL + ' (an independent table of SI and Gaussian units)',
     'all pairs and all sequences within the stated alphabets; electromagnetic mixtures of the two systems excluded')

prop('P09', 'Arithmetic of scalars and vectors is arithmetic of physical quantities',
     'For every sequence of additions, subtractions, products, quotients, powers (plain, in place, reflected, with plain numbers), unary operations, roundings, conversions to a unit or a metric system, and copies, the number times the unit of a measured quantity, scalar or vector is the physical amount that algebra gives, with the right dimension and the class documented. '
     'Quantities in different units never add or compare by order, numbers without a unit do not add to a quantity, and powers by quantities are refused with an error. '
     'Refused operations and operations that are not in place leave their operands unchanged; converting keeps the name and the amount; quantities are equal exactly when their values and units are equal.',
     ['histories', 'inputs'],
     'every sequence of up to two (three) operations from every starting quantity, for four classes; all pairs for comparison; all indices and slices of vectors',
     'the tests apply single operations to one or two quantities; amounts must survive every mixture of conversion and arithmetic',
     [C + 'measurable.py', C + 'physical.py', C + 'algebraic.py', C + 'metadata.py'],
     [('Quantified.implement, Quantity', C + 'measurable.py'), ('Scalar, Vector', C + 'physical.py'), ('OperatorFactory, Operation', C + 'metadata.py')],
     ['measurable.Quantity, measurable.Scalar', 'physical.Scalar, physical.Vector'],
     EXPL + ' (amounts in SI with an independent table of units)',
     'all operation sequences to depth 2 (3 thorough) over the stated quantities; values to relative 1e-9')

prop('P10', 'An array quantity is its array times its unit, however it was obtained',
     'For variables and named physical arrays, whatever the data came from (arrays, lists, integers, a dataset on disk) and whatever sequence of unit or system conversions, subscripts, copies and arithmetic operations was applied, the array a user reads times the unit is the physical amount that numpy arithmetic gives for the original data, with the right shape, axis names, name and class. '
     'Reading an array, or operating on it, never changes what another quantity of the same history holds. '
     'A subscript of a variable keeps all its dimensions; sequences select along each axis independently; integers, slices (negative, strided, out of range), sequences and an ellipsis work in every combination. '
     'Inconsistent units, sums with other units or bare numbers, orderings across units, number/quantity, powers by quantities, and indices out of range are refused and change nothing; variables are equal exactly when values, unit and dimensions (in order) are.',
     ['histories', 'inputs'],
     'all tuples of subscripts over the stated kinds with an ellipsis anywhere, in one to three dimensions; all sequences of two of 22 operations and three of 9 (thorough: three of 22 and four of 9), looked at after each step or only at the end',
     'the tests convert and subscript one array a few times; lazily loaded arrays, cached arrays and deferred scale factors make the outcome depend on the order of conversion, copying and reading',
     [C + 'variable.py', C + 'physical.py', C + 'measurable.py', C + 'metadata.py'],
     [('Array.__getitem__, _normalize_indices, _load_array, _scale', C + 'variable.py'), ('Quantity._update_unit', C + 'variable.py'), ('Array.apply_unit, _subscript_standard, _subscript_custom', C + 'physical.py')],
     ['variable.Quantity', 'physical.Array', 'measurable.measure'],
     EXPL + ' (numpy on the original data, in SI, with an independent table of units)',
     'all subscripts and all operation sequences within the stated alphabets; values to relative 1e-9; masks and new axes not explored')

prop('P11', 'Variables combine by the names of their dimensions',
     'The product or quotient of two variables, in any chain, has the union of their dimensions in order of appearance, and its value at each combination of coordinates is the product or quotient of the values there, whatever the order of dimensions, sizes or memory layout. '
     'Variables with a shared dimension of different length are refused, never truncated; sums and differences are refused unless dimensions (in order) and units agree; operands are unchanged. '
     'Means along any axis, tuple of axes (negative or positional too) and squeezes drop exactly the named dimensions and keep the unit. Lists of dimensions are equal only if they have the same names.',
     ['inputs', 'histories'],
     'all pairs and chains of three of the 16 tuples of distinct dimensions from three names, all sizes 1-3, and all axes of reduction',
     'the tests try three combinations of dimensions; order, transposition and size disagreements need every pair',
     [C + 'variable.py', C + 'metadata.py'],
     [('Quantity._ufunc_hook', C + 'variable.py'), ('_mean, _squeeze', C + 'variable.py'), ('Dimensions', C + 'metadata.py')],
     ['variable.Quantity operators', 'numpy.mean', 'numpy.squeeze'],
     EXPL + ' (a value per combination of named coordinates, with no array broadcasting)',
     'all pairs, chains and reductions within three dimension names; results without dimensions not explored')

prop('P12', 'Measuring keeps every value and its unit, or refuses',
     'Measuring an object (a number, a nested sequence of numbers with an optional unit at the end, scalars, vectors, arrays, variables, measurements, or sequences of those) gives all of its values, in order, with their unit; a missing unit means a pure number. '
     'Anything else (no values, two units, values with different units, a unit for values that already have one, text) is refused with an error; it is never measured with values left out or a unit replaced, and `ismeasurable` agrees. '
     'A measurement is an immutable sequence: indexing and slicing follow Python, and a scalar made from it has the same amount.',
     ['inputs', 'histories'],
     'every nested input of up to three (four) leaves over the stated alphabet of numbers, units and measurable objects, and all indices and slices of the results',
     'the tests measure about twenty fixed inputs; the parser dispatches on nesting, on types and on positions of units',
     [C + 'measurable.py', C + 'physical.py', C + 'iterables.py'],
     [('measure, parse_measurable, ismeasurable, Measurement', C + 'measurable.py'), ('scalar', C + 'physical.py'), ('unwrap, missing', C + 'iterables.py')],
     ['measurable.measure', 'measurable.ismeasurable', 'physical.scalar'], EXPL,
     'all nested inputs within the stated alphabet and size; empty value lists with a unit not claimed')

prop('P13', 'An observation is the requested part of the dataset',
     'Observing any variable of a dataset, by any of its names, in either metric system and in any compatible unit, gives the stored values converted to that unit, with the dimensions of the variable. '
     'Constraints on time, shell, species, energy, pitch angle and radius (by any alias; as integers, lists, ranges, slices, species symbols, or coordinates in any unit and spelling) select exactly those points, in that order; coordinates between grid points give the linear interpolation along that coordinate, where radius depends on time and energy depends on species. '
     'The axis values reported with the observation are those of the selected points, and the axes of an observer have the coordinates of the dataset in any unit, however often they are converted. Indices out of range, unknown species and inconsistent units are refused.',
     ['inputs', 'configurations'],
     'all combinations of constraints over the five axes and radius (on the grid, off the grid, by index, whole) on seven dataset shapes, all spellings of a target, and all sequences of unit conversions before and after observing',
     'the stable tests contain no observation of a dataset at all; which axes are subscripted, which are interpolated, and in which order depends on the combination',
     ['src/goats/eprem/__init__.py', C + 'observing.py', C + 'interpolation.py', C + 'axis.py', C + 'index.py', C + 'numerical.py', C + 'datafile.py', C + 'variable.py', C + 'reference.py'],
     [('Context._build, _subscript, interpolate, get_index', 'src/goats/eprem/__init__.py'), ('Axes', 'src/goats/eprem/__init__.py'), ('apply, restrict_coordinate', C + 'interpolation.py'), ('Observation, Observable, Context', C + 'observing.py')],
     ['Stream(...)[name].observe(**constraints)', 'Observation.data, .array, .unit, .dimensions, [axis], [unit]'],
     EXPL + ' (sums over stencils of generated datasets, in pure Python, with an independent table of units)',
     'all constraint combinations within the stated options per axis on grids of up to 4 points; values to relative 1e-9')

prop('P14', 'An observation does not depend on earlier observations',
     'Whatever an observer did before (observations with other constraints, parameters or units, refused calls, metadata look-ups, updates of its data source or configuration file, and the same on other observers), the same call gives the same values, unit, dimensions, axis values and parameters as on a new observer. '
     'An observation that was already made does not change later, two observations are equal exactly if their contents are, and a quantity object can be observed and converted any number of times in any order.',
     ['histories'],
     'all sequences of two of 20 calls and 4 updates, all sequences of three of 12 (thorough: of all), all pairs of calls on two observers in turn, and all sequences of up to three (four) uses of one quantity',
     'contexts are shared and mutable, with caches of indices, values, quantities and targets; the tests use each observer once',
     [C + 'observing.py', C + 'observer.py', 'src/goats/eprem/__init__.py'],
     [('Context.constrain, _cache', C + 'observing.py'), ('Observable.__getitem__, target', C + 'observing.py'), ('Observer.update, _build_context', 'src/goats/eprem/__init__.py'), ('Functions._cache', 'src/goats/eprem/__init__.py')],
     ['Stream(...)[name].observe(...)', 'Stream.update'],
     'bounded exhaustive enumeration of histories of the real code, each compared with the same call on a new observer in a new process',
     'all histories within the stated alphabet and depth')

prop('P15', 'Computed quantities follow their formulas in any metric system',
     'Every derived quantity an observer offers (position components, field and flow magnitudes and angles, divergence, density ratio, rigidity, mean free path, acceleration rate, isotropic distribution, energy density, average energy, flux, fluence, integral flux) equals its documented formula at every point of the dataset, under every alias, in mks and in cgs, with its documented unit and dimensions. '
     'Parameters come from the configuration file unless the call gives them, under any alias and unit, and are reported with the observation. It holds for every shape of dataset, including shared energies, a single species, axes of equal lengths and a stored flux, and for every combination of constraints on the axes.',
     ['inputs', 'configurations'],
     'all 20 quantities by all aliases on 8 dataset shapes in 2 systems with 2 configurations and every parameter option; all combinations of 3 (thorough: all of P13) constraints per axis; all pairs of field and flow vectors with components in {-1, 0, 2} at 3 (5) magnitudes',
     'the functions rely on broadcasting, so errors show only for particular shapes, species or parallel vectors; no stable test computes them',
     [C + 'computed.py', 'src/goats/eprem/__init__.py', C + 'observing.py'],
     [('computed functions', C + 'computed.py'), ('Method.parse', C + 'computed.py'), ('Functions', 'src/goats/eprem/__init__.py'), ('Application.evaluate_function', C + 'observing.py')],
     ['Stream(...)[name].observe(...)', 'goats.core.computed'],
     'bounded exhaustive enumeration of observations of the real code, each compared with a pure-Python model of the formulas over the dataset',
     'all quantities, aliases, shapes, systems and constraint combinations within the stated bounds')

prop('P16', 'A composition of observables is the product of its parts',
     'A symbolic composition of observable quantities (products, quotients, powers, parentheses, any number of names) observes the product of the powers of its parts, point by point along the union of their dimensions, with the composed unit, in any metric system or requested unit, and under any constraints and parameters. '
     'Its unit, dimensions and parameters are the same before and after observing, and are those of its parts. A composition with an unknown name is refused.',
     ['inputs', 'configurations'],
     'all ordered pairs of 21 quantities in 5 (thorough: 9) forms on 2 (4) datasets; all ordered triples of 7 (11) in 10 nested forms; 13 compositions of quantities with different dimensions under all combinations of constraints; other units; every parameter option',
     'parts have different dimensions, so the composition relies on alignment by name and on the reduction of expressions; no stable test composes quantities',
     ['src/goats/eprem/__init__.py', C + 'observing.py', C + 'symbolic.py', C + 'variable.py'],
     [('Context._build', 'src/goats/eprem/__init__.py'), ('Context.get_metadata', C + 'observing.py'), ('Parameters.merge', C + 'observing.py'), ('Interface._observes', C + 'observer.py')],
     ["Stream(...)['mfp / Vr'].observe(...)", 'Stream.observes'],
     'bounded exhaustive enumeration of compositions of the real code, each compared with a pure-Python model over the dataset',
     'all compositions and constraints within the stated bounds')

prop('P17', 'Searches, bounds, interpolations and transforms are exact',
     'find_nearest returns an element at minimal distance among those that satisfy its bound, with its index, in arrays of any order and shape. get_bounding_indices returns the neighbouring positions around a target in every row of a monotonic array along any axis. interpolation.apply is linear between neighbouring grid points of each row, exact on them, for any number of targets in any order, and leaves its arguments unchanged. '
     'xyz2rtp and rtp2xyz are inverse to each other for every point, scalar or array. cast gives the first of int, float, complex that reads its argument and otherwise refuses it, or gives None when not strict.',
     ['inputs'],
     'all arrays of up to 4 (thorough: 5) values in every shape; all monotonic grids of up to 6 values and pairs (triples) of rows with all targets on, between and outside of their values; all points over 5 component values at 3 (5) scales; all strings of up to 4 (5) of 9 characters',
     'errors show at ends, ties, repeated or unsorted values, and axes of particular shapes; the tests sample a few',
     [C + 'numerical.py', C + 'interpolation.py'],
     [('find_nearest', C + 'numerical.py'), ('find_1d_indices', C + 'numerical.py'), ('apply', C + 'interpolation.py'), ('xyz2rtp', C + 'numerical.py'), ('cast', C + 'numerical.py')],
     ['goats.core.numerical', 'goats.core.interpolation.apply'],
     'bounded exhaustive enumeration of calls of the real code, each compared with a pure-Python model',
     'all arrays, targets, points and strings within the stated bounds')

prop('P18', 'Known names work, unknown names are refused, near misses are suggested',
     'Every observable quantity, parameter and axis can be asked for by its every documented name; observes(), the listed names and item access agree with one another, and any other name is refused (an error, never some other quantity). '
     'A spell checker suggests exactly the known words within one edit of the misspelled one or, if there are none, within two edits; it accepts known words, keeps doing so after words are added, and the error for a misspelled observable names the suggestions.',
     ['inputs', 'histories'],
     'all words of up to 3 (thorough: 4) of 4 characters against all vocabularies of up to 2 of 12 words; all sequences of vocabulary updates; all names of all quantities on 2 datasets; all single edits of observable names',
     'suggestions depend on the exact set of words and kind of edit, and names come from five tables that have to agree; tests sample a few words',
     [C + 'spelling.py', C + 'observer.py', C + 'observing.py', C + 'reference.py', 'src/goats/eprem/__init__.py'],
     [('SpellChecker, suggestions, check, update', C + 'spelling.py'), ('Interface.observes, __getitem__, observables', C + 'observer.py')],
     ['spelling.SpellChecker', 'Stream.observes', 'Stream[...]'],
     'bounded exhaustive enumeration of words, vocabularies and names on the real code, compared with an edit-distance model',
     'all words, vocabularies and names within the stated bounds')

prop('P19', 'Every runtime parameter has the value that the run was configured with',
     'For every EPREM parameter and constant, the runtime interfaces give, under the name and every alias, the value in the configuration file if it has one and otherwise the default of configuration.c (evaluated: references to other parameters and constants, sums, products), with its type and documented unit. '
     'Blank lines, surrounding whitespace and comments (with any comment characters) do not matter, the last of repeated lines counts, zero is a value like any other, and no parameter affects another unless its default refers to it. Changing the paths of an existing object is like creating a new one. Comparing files shows exactly the differences; definitions read from (any) EPREM source code, and the database generated from it, mean the same as the source.',
     ['inputs', 'configurations', 'histories'],
     'every parameter x 10-12 values x ways of writing the line; all files of up to 2 (thorough: 3) of 17 lines x 4 sets of comment characters; all combinations of 4 (7) values of 5 dependent parameters; all sequences of 3 (4) path changes with every pattern of reads; all pairs (triples) of 7 files; 9 sets of constants x 15 sets of definitions x 4 sets of user values',
     'values depend on combinations of user values, defaults and layout of the file; the existing tests need EPREM source code and data that are not there',
     ['src/goats/eprem/runtime.py', 'src/goats/eprem/runtime.json', C + 'operational.py', C + 'iotools.py'],
     [('ConfigFile._parse', 'src/goats/eprem/runtime.py'), ('Runtime._evaluate, _resolve, path_to', 'src/goats/eprem/runtime.py'), ('BaseTypesH, ConfigurationC', 'src/goats/eprem/runtime.py'), ('Interface', 'src/goats/eprem/runtime.py'), ('compare_arguments, generate_defaults', 'src/goats/eprem/runtime.py')],
     ['runtime.Runtime', 'runtime.Interface', 'runtime.ConfigFile', 'runtime.BaseTypesH', 'runtime.ConfigurationC'],
     'bounded exhaustive enumeration of configurations and path histories on the real code, compared with an independent evaluator of the definitions',
     'all configurations and histories within the stated bounds')

prop('P20', 'The data shown are those of the file that was named',
     'A dataset interface shows exactly the variables, axes, units and values of the file at the given path, whatever the spelling of the path (relative, home, links, string or path) and the working directory; the same file gives the same object, different files and classes never share one, and changing the viewers of one dataset affects no other. '
     'An observer reads the first existing file of its kind in its source directory and the configuration file that was named, in the data directory first, also after its source or configuration is changed any number of times; a refused change leaves it as it was, and a source without data leaves nothing to show. Missing files and unknown formats are refused, searches return the first match in order, and read-only paths cannot be written through.',
     ['inputs', 'configurations', 'histories'],
     'all pairs of ways of writing the paths of 2 files from 3 working directories; all sequences of 3 (thorough: 4) of 8 viewer operations on 3 datasets; all modes of opening; all subsets of 5 files with all orders of templates; 5 sets of files x 8 ways of giving the config file x 3 working directories, and all updates of 9 pairs of sources x 16 pairs of configs x 4 orders',
     'instances are shared per path in a global table and paths are resolved lazily, so results depend on the working directory and on history; no stable test opens two files',
     [C + 'datafile.py', C + 'iotools.py', C + 'iterables.py', 'src/goats/eprem/__init__.py'],
     [('Interface, ViewerFactory', C + 'datafile.py'), ('PathSet, ReadOnlyPath, TextFile, search, find_file_by_template', C + 'iotools.py'), ('InstanceSet', C + 'iterables.py'), ('Observer._build_context, _build_confpath, _build_datapath', 'src/goats/eprem/__init__.py')],
     ['datafile.Interface', 'iotools', 'Stream(..., source=..., config=...)', 'Stream.update'],
     'bounded exhaustive enumeration of paths, files and histories on the real code, compared with a model of the directory tree',
     'all paths, files and histories within the stated bounds')

prop('P21', 'Lookup tables, registries, graphs and guards answer exactly',
     'A Table returns the entry a request determines: a strict search needs all pairs to match exactly one entry, an iterative search stops at the first pair that leaves one entry, find returns every entry with a value in order, and requests that match no entry, several entries or an uncommon key are refused with their own errors. '
     'Registering an object never replaces another one unless asked to, and copies and resets of a registry are independent; a Bijection inverts exactly and refuses repeated values; Connections link both ways with reciprocal weights and never overwrite a link; a Guard substitutes for known exceptions and their subclasses only; the list helpers agree with their documentation.',
     ['inputs', 'histories'],
     'all tables of 1-4 entries over 2 keys and 3 values (with missing keys for 1-3) with every request of up to 2 ordered pairs; all registry histories up to depth 3 (4) from 4 contents; all mappings of 3 (4) keys to 4 values; all sequences of 2 (3) of 19 links; all ordered sets of 2 (3) of 6 caught exceptions; all nested lists and tuples of depth 2',
     'these structures hold the units, elements, functions and conversions that everything else looks up; tests use one example of each',
     [C + 'iterables.py'],
     [('Table, ObjectRegistry, Bijection, Connections, Guard, whole, distribute, unwrap, hastype, missing', C + 'iterables.py')],
     ['iterables.Table', 'iterables.ObjectRegistry', 'iterables.Bijection', 'iterables.Connections', 'iterables.Guard'],
     'bounded exhaustive enumeration of contents and operation sequences on the real code, in lockstep with a model',
     'all contents and operation sequences within the stated bounds')

prop('P22', 'Parameters, constants and species keep value, unit and name',
     'An operational argument made from a number, sequence, string, measurement, scalar or vector gives back exactly those values and that unit, one by one, as a slice, as int or float, or measured; two arguments are equal exactly if values and units are, and a string counts as one value. '
     'A parameter is an assumption (with its unit and all its aliases, also after selecting a value or converting the unit) or an option. Every physical constant has its published value and unit in each metric system, and the two agree under conversion; every element symbol, mass and charge determine each other, in the given order for several species, and masses of no element are refused.',
     ['inputs'],
     'all forms of argument over 7 numbers, 4 sequences, 6 strings and 4 units, and all pairs of them; all ordered sets of 2 (3) of 8 parameters with every alias and conversion; all constants in both systems; all elements with 6 charges; all integral masses below 300',
     'tests check a handful of arguments, three constants and two elements',
     [C + 'operational.py', C + 'constant.py', C + 'physical.py', C + 'fundamental.py', C + 'plasma.py'],
     [('Argument', C + 'operational.py'), ('Assumption, Option, Interface', C + 'constant.py'), ('Constants, Vector.__init__, scalar', C + 'physical.py'), ('CONSTANTS, ELEMENTS, elements', C + 'fundamental.py'), ('Species', C + 'plasma.py')],
     ['operational.Argument', 'constant.Interface', 'physical.Constants', 'fundamental.elements', 'plasma.Species'],
     'bounded exhaustive enumeration of inputs on the real code, compared with a model and with a table of published values',
     'all inputs within the stated bounds')

#--INSERT--#

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            fp.write(json.dumps(p['prop'], ensure_ascii=False) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash /verif/setup.sh',
        'checks': [p['check'] for p in PROPS],
        'not_applicable': NOT_APPLICABLE,
        'notes': 'See DESIGN.md. No hooks in /repo are needed: the checks drive the public API; the commits in /repo are fixes only.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
        json.dump(manifest, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
