prop('C17', 'Uncertainty is repaired by fixed rules, exported and sampled faithfully',
     'Cleaning up uncertainty makes every distribution of every exchange, property, parameter and production volume consistent with its amount (mean, mode, ordered bounds), treats lognormal variances from 1 to e as not yet logarithmic and above e as 0.25, turns off-centre uniform into triangular ones, '
     'and removes only distributions which have no spread or do not contain the amount; values without distribution stay certain, amounts never change, and a second repair changes nothing. '
     'Distributions keep type, sign, location and spread when they are exported to stats_arrays and sampled.',
     ['inputs'], 'all distributions with all kinds of flaws, pedigree matrices, amounts of either sign and zero, time distances and scores',
     'Tests use one example per rule; the rules interact with sign, pedigree and order of bounds.',
     [PZ + 'uncertainty.py', T + 'uncertainty/distributions.py', T + 'uncertainty/pedigree.py'],
     [('repair of distributions', T + 'uncertainty/distributions.py'), ('export to stats_arrays', T + 'uncertainty/distributions.py'), ('pedigree tables', T + 'uncertainty/pedigree.py')],
     'comparison of real repairs and exports with restated rules', 'Every field of every distribution is compared with an independent statement of the rules. Samples are checked for sign, bounds and centre only.')

prop('C18', 'Formulas keep their meaning when translated to Python',
     'After translation, each ecoinvent formula evaluates to the value its original means: percent signs, `power`, `if`, nested `if`, commas, line breaks, upper case functions, powers with `^`, and variables named like Python keywords all keep their meaning. '
     'Variables are renamed consistently in their definition and everywhere they are used, and nowhere else. '
     'Only formulas which are not valid at all are removed, and no amount changes.',
     ['inputs'], 'all formulas of the ecoinvent dialect over all variable names, in exchanges, properties, parameters and production volumes',
     'Text substitutions interact (a keyword inside an `if` inside a `power`); tests check one construct each. Seven defects of this kind were found.',
     [PZ + 'known_ecoinvent_issues.py', PZ + 'python_compatibility.py'],
     [('fixing known problems', PZ + 'known_ecoinvent_issues.py'), ('reserved words and if, power, percent', PZ + 'python_compatibility.py')],
     'differential evaluation of real translations', 'Formulas are generated as trees, written in the ecoinvent dialect, translated by the real code, evaluated, and compared with the value of the tree. Power arguments are simple terms, as the code documents.')

prop('C19', 'Recalculation brings all values in line with formulas, in any order',
     'After recalculation every exchange, property, parameter and production volume with a formula has the value of that formula over the new values of all others, whatever order they are listed in; values without formula stay as they are, distributions follow the new amounts, divisions by zero count as zero, and amounts whose formula can\'t be evaluated (because it uses unknown names or functions) stay as they are. '
     'Recalculating again changes nothing, changing an independent value updates everything which depends on it, and datasets with circular references are left as they were without affecting others.',
     ['inputs', 'histories'], 'all systems of formulas (trees and chains of dependencies), all orders, sequences of changes and recalculations',
     'Tests evaluate two or three formulas in one order.',
     [PZ + 'recalculation.py', PZ + 'production_volumes.py'], [('evaluation in dependency order', PZ + 'recalculation.py')],
     'differential evaluation of real recalculations', 'Every value of every dataset is compared with an independent evaluation in dependency order, then again after shuffling, repeating and changing.')

prop('C34', 'References by id in formulas mean the value of the thing with that id',
     'Each reference to an exchange, parameter, property or production volume by its id is replaced by a variable which belongs to exactly that thing: its own variable name if it has one, else a new, unique one. '
     'The formula evaluates to the same value as with the value of the referred thing put in, formulas without references stay as they are, existing variables keep their names, '
     'and references to unknown things are refused with an error or leave the formula out, never bind to something else.',
     ['inputs'], 'all sets of references in all places of a dataset, to named and unnamed things, upper or lower case ids',
     'Tests have one example per kind of reference.',
     [PZ + 'implicit_references.py'], [('replacement of references', PZ + 'implicit_references.py')],
     'differential evaluation of real replacements', 'Every formula is evaluated after the real replacement and compared with an independent evaluation.')

IO = 'ocelot/io/'
prop('C20', 'Extraction reads exactly what the ecospold2 files say',
     'For every directory of ecospold2 files, extraction returns exactly the activity datasets in the files (also several per file; other files are ignored), each with all its exchanges, properties, parameters, formulas, distributions, pedigrees and production volumes as written. '
     'Parallel and serial extraction return the same datasets, and a file which cannot be read or understood stops the extraction with an error instead of leaving datasets out.',
     ['inputs', 'fault_sequences'], 'all valid ecospold2 files with all optional fields present or missing, broken files, one or several processes',
     'Tests extract a few real files and compare some fields; optional fields and combinations are not covered.',
     [IO + 'extract_ecospold2.py', IO + 'ecospold2_meta.py'], [('extraction of a file', IO + 'extract_ecospold2.py'), ('parallel extraction', IO + 'extract_ecospold2.py')],
     'round trip monitoring of generated files', 'Datasets are generated, written as ecospold2 by an independent writer, extracted by the real code and compared field by field.')

prop('C21', 'The cache never changes what a model run sees',
     'Whenever a directory is loaded, with or without cache, the result is what its files say at that time: after files were added, changed, removed or replaced (also by older copies, links, or another directory at the same path), also while an earlier extraction was running. '
     'A process which is killed, or meets a full disk, at any point of writing the cache leaves nothing which makes a later run fail or see anything else, and several processes which start at the same time all get the right data.',
     ['histories', 'crash_points', 'schedules'], 'all sequences of changes and loads over several directories, every crash point while caching, several processes at once',
     'Tests check each function on its own; defects need a crash or a change at a certain moment. Six such defects were found.',
     [IO + 'extract_ecospold2.py', 'ocelot/filesystem.py', 'ocelot/model.py'],
     [('freshness of the cache', 'ocelot/filesystem.py'), ('writing and reading of cached data', 'ocelot/filesystem.py'), ('directories', 'ocelot/filesystem.py')],
     'history, crash and concurrency monitoring', 'Histories are executed in scratch directories and each load is compared with the files. Crashes are real: killed processes, size limits on files, and exits at chosen audit events.')

prop('C22', 'Every run has its own, complete log and report',
     'The logs of a model run contain every message of that run in order: start, one start and end per function with the right index and numbers of datasets, every table and list element, and the end; and nothing of any other run, whether that run came before or after and whether it failed. '
     'The HTML report shows every function in order with all of its rows as they were logged, and the times and numbers of datasets of the log. '
     'Functions of the real system models log each change they report where their table says.',
     ['inputs', 'histories'], 'all sequences of model runs in one process, failures at any point, all kinds of transformation functions',
     'Tests check one message or one file at a time; two defects were found in sequences of runs and in whole functions which logged elsewhere.',
     ['ocelot/logger.py', 'ocelot/report.py', 'ocelot/model.py', T + 'consequential/'],
     [('log files', 'ocelot/logger.py'), ('report', 'ocelot/report.py'), ('logging of steps', 'ocelot/model.py')],
     'offline checking of recorded logs', 'Complete model runs are done with generated functions, and with the real ones; the recorded logs are compared line by line with a simulation.')

prop('C23', 'Functions run once, in order; exactly the requested states are saved',
     'A model run calls every function of its configuration exactly once, in order through any nesting of lists and collections, each on the result of the one before, and returns the last result. '
     'The intermediate results which the save strategy asks for, those of followed datasets, and the final result are saved as they were at that time, and no others. '
     'Configurations and strategies which are not understood are refused before any function is called.',
     ['inputs'], 'all configurations (functions, partials, wrappers, filters, collections, nested) and save strategies',
     'Tests run one short configuration.',
     ['ocelot/model.py', 'ocelot/results.py', 'ocelot/wrapper.py', 'ocelot/collection.py', 'ocelot/utils.py'],
     [('applying functions', 'ocelot/model.py'), ('save strategies', 'ocelot/results.py'), ('wrappers and collections', 'ocelot/wrapper.py')],
     'trace monitoring of model runs', 'Every call is recorded with its argument, and every saved file loaded, and compared with a simulation of the configuration.')

prop('C24', 'An interrupted run leaves nothing of itself behind, and everything else alone',
     'When a model run is interrupted by the user (KeyboardInterrupt, SIGINT) at any moment while functions run, results are saved or the report is written, the run ends with exit code 1 and its output directory is removed. '
     'Outputs of other runs and all other files stay as they were, and the next model run works as usual.',
     ['crash_points'], 'interrupts at every function, at every file event while saving and reporting, and at any time by a signal',
     'Tests do not interrupt runs.',
     ['ocelot/model.py', 'ocelot/results.py', 'ocelot/report.py'], [('cleaning up after an interruption', 'ocelot/model.py')],
     'fault injection with file system monitoring', 'Interrupts are raised in functions, at audit events of file operations, and by real signals; all files are compared before and after, and destructive calls outside of the scratch directory are refused and reported.')

prop('C25', 'Cleanup deletes exactly the model runs older than one week',
     'Cleaning up (by function or command line) deletes those directories in the output directory whose creation time (st_ctime) is more than one week ago, completely, and nothing else. '
     'Younger runs, files, symbolic links and what they point to, and everything outside of the output directory in use stay exactly as they were, whatever modification times and names things have.',
     ['inputs', 'histories'], 'all contents of output directories (runs, files, links, nested directories, unusual names), all ages around one week, default, configured, relative and linked locations',
     'Tests check that something is deleted; a mistake here destroys user data. One defect was found.',
     ['ocelot/io/cleanup.py', 'ocelot/filesystem.py', 'ocelot/bin/ocelot_cli.py'], [('age and choice of directories', 'ocelot/io/cleanup.py'), ('output directory', 'ocelot/filesystem.py')],
     'file system monitoring of real cleanups', 'Directories are created in two groups, and the clock of the process set so that one week ago is between (or long before or after) them; all files are compared before and after, and destructive calls outside of the scratch directory refused and reported.')

prop('C26', 'Results do not depend on order, process or history',
     'The same database gives the same activities, exchanges, codes, amounts, distributions and production volumes (up to rounding) whatever order its datasets, exchanges, properties and parameters have, however strings are hashed in the process, and whatever other model runs came before. '
     'A later run changes nothing in results returned earlier. '
     'Only fields of exchanges and activities merged from several ones which the method does not define (distributions) may differ.',
     ['inputs', 'histories', 'schedules'], 'all databases and orders, sequences of runs in one process, processes with other hash seeds, cutoff models and consequential model',
     'Tests run one order in one process. Several defects were found by this property.',
     ['ocelot/model.py', 'ocelot/transformations/', 'ocelot/collection.py'], [('order of allocation and merging', T + 'cutoff/'), ('topology caches', T + 'locations/'), ('linking in order', T + 'locations/linking.py')],
     'metamorphic comparison of complete model runs', 'Each database is run again shuffled, after others, and in other processes; all activities are compared. One known finding: metadata of recycled content activities depend on order.')

prop('C27', 'Codes identify activities',
     'Two activities get the same code exactly if their name, reference product, unit, location, start and end date agree (ignoring case); then they are refused as identical, and different activities never are. '
     'The code depends on nothing else: not on other fields or datasets, order, process or time.',
     ['inputs'], 'all pairs and sets of activities which differ in any field, also only in case, in missing fields or one letter',
     'Tests compare the code of one dataset with a constant.',
     [T + 'utils.py', T + 'identifying.py'], [('hash of an activity', T + 'utils.py'), ('codes and duplicates', T + 'identifying.py')],
     'pairwise comparison of real codes', 'Codes of all pairs of generated activities are compared with whether they are the same activity. One known finding: fields are joined without separator.')

prop('C28', 'The consequential model uses only best technologies and splits nothing',
     'After the consequential model each activity keeps all of its outputs: byproducts become negative inputs from the market of their product, combined productions are split by their formulas, '
     'constrained markets turn their conditional exchange around to the activity it is linked to, and every market is supplied only by its suppliers with the newest available technology, in proportion to production volume; ordinary activity links are dropped. '
     'Every amount, distribution, production volume and environmental exchange agrees with an independent statement of these rules, and products which nobody makes as reference product are refused.',
     ['inputs'], 'all generated databases with all technology levels, byproducts, combined productions and constrained markets',
     'Tests cover single functions; no test runs the consequential model. Several defects were found.',
     [T + 'consequential/', 'ocelot/configuration.py', T + 'production_volumes.py'],
     [('choice of suppliers', T + 'consequential/'), ('constrained markets', T + 'consequential/constrained_markets.py'), ('combined production', T + 'consequential/combined.py')],
     'differential monitoring of complete model runs', 'Complete runs are compared with a reference model; generated databases have no market groups, as the consequential model gives them no inputs.')

prop('C29', 'Brightway2 conversion keeps the linked database as it is',
     'Conversion to Brightway2 gives one activity per dataset, with the same code, metadata and product, and each exchange with its amount, sign and supplier: products as production, inputs as technosphere, byproducts as negative technosphere and emissions as biosphere. '
     'Only exchanges with amount zero and unlinked refinery gas are left out, the technology matrix stays the same, and the input is not changed.',
     ['inputs'], 'all linked databases, all kinds of exchanges with all signs',
     'Tests convert one small database.',
     [IO + 'brightway2.py'], [('conversion', IO + 'brightway2.py')],
     'comparison of real conversions', 'Every converted exchange is compared with its original, and the matrices of both databases with each other.')

prop('C30', 'Invalid databases are refused with the documented error',
     'A database with a flaw which makes correct linking impossible is refused with the error documented for it, before any result is returned: equal dataset ids or activities, variables defined twice, markets with no, several or their own product, '
     'hard links which cannot be resolved, allocation without prices or revenue, overlapping markets or suppliers, several global datasets, inconsistent or rest-of-world market groups, inputs without market, and zero production. '
     'The same database without the flaw is accepted, and validation changes nothing.',
     ['inputs'], 'all valid generated databases with one flaw of each kind at any place, cutoff models; all single datasets for the validation functions, also on the boundary (zero prices and amounts)',
     'Tests call each validation function with one flawed dataset; whether the system models still run it, and on every kind of activity, they do not check.',
     [T + 'validation.py', T + 'activity_links.py', T + 'cutoff/validation.py', T + 'locations/validation.py', T + 'parameterization/validation.py', T + 'identifying.py', 'ocelot/configuration.py'],
     [('order of validation in the system models', 'ocelot/configuration.py'), ('validation of activities', T + 'validation.py'), ('validation of links', T + 'activity_links.py'), ('validation of allocation', T + 'cutoff/validation.py'),
      ('validation of locations', T + 'locations/validation.py')],
     'fault injection into inputs, watching the outcome', 'Flaws are put in one at a time, so that the error to expect is known; several flaws at once are not checked. Where two documented errors describe the same flaw, both are accepted.')

prop('C31', 'Activities share no state',
     'After every function of every system model no list, dictionary or set is part of two activities or two exchanges, so that changing one activity or exchange changes no other. '
     'The results of two model runs share nothing either.',
     ['inputs', 'histories'], 'all generated databases, all functions of the cutoff and consequential models, changes of any activity or exchange of a result',
     'Transformation functions change activities in place; a shallow copy in allocation or linking makes a change to one activity appear in another one, which only shows in combinations the tests do not contain.',
     [T + 'utils.py', T + 'cutoff/', T + 'consequential/', T + 'locations/', 'ocelot/wrapper.py'],
     [('copies made by allocation', T + 'cutoff/utils.py'), ('copies made by linking', T + 'locations/markets.py'), ('copies of chosen products', T + 'utils.py')],
     'heap monitoring after every function', 'Identities of all reachable mutable objects are compared after each step; results are also changed at random and everything else compared with what it was.')

prop('C33', 'Validation accepts the documented format and nothing else',
     'The internal schema accepts every dataset in the documented format and refuses each with a missing or unknown field, a wrong type or an unlisted value. '
     'Validating a directory says that there are no errors exactly if all its datasets are valid, otherwise writes invalid ones, and no valid ones, to the error log; '
     'validation against the ecospold2 schema names exactly the files which are invalid.',
     ['inputs'], 'all datasets in the documented format, all single mutations of them, directories with any number of valid and invalid files, by function and command line',
     'Tests validate a few complete datasets; no test validates a directory or an invalid one.',
     [IO + 'validate_internal.py', IO + 'validate_ecospold2.py', 'ocelot/bin/ocelot_cli.py'], [('internal schema', IO + 'validate_internal.py'), ('validation of directories', IO + 'validate_ecospold2.py')],
     'mutation of valid input, watching what is reported', 'Invalid datasets with the same kind of error may be reported together (the code keeps one example of each). Gamma distributions are left out of ecospold2 validation, as the format demands a field the documentation lacks.')

prop('C35', 'Preparation and clean-up steps change exactly what they document',
     'Each preparation or clean-up step of the system models changes what it documents, in every place where it applies, and no other field of any dataset: removed links (zero amounts, products), repaired 3.5 links and parents, removed consequential exchanges, '
     'byproducts and wastes turned into inputs, renamed recyclables with their burden-free activities, suffixes, signs of markets, labels and normalisation of products, technology levels, corrected formulas, mandatory properties, byproduct and parameter production volumes, '
     'conditional exchanges of constrained markets, rest-of-world and whitelisted datasets without production, production of confidential datasets, the location of the gas pipeline, and removed formulas and variables. '
     'Each row it reports describes one of these changes with as many values as its table has columns, and each change is reported.',
     ['inputs'], 'all databases mixing the documented cases with near misses (other kinds of exchanges, other case or one letter different, amounts of zero or just not zero, missing fields)',
     'Tests show each step one or two datasets where it applies; that it leaves alone what only looks alike, and combinations of cases, they do not settle. Three defects were found.',
     ['ocelot/configuration.py', C + 'cleanup.py', C + 'wastes.py', C + 'markets.py', C + 'utils.py', C, T + 'activity_links.py', T + 'utils.py', T + 'cleanup.py', T + 'validation.py', T + 'production_volumes.py',
      T + 'consequential/technology_levels.py', L + 'markets.py', PZ + 'known_ecoinvent_issues.py', PZ + 'production_volumes.py'],
     [('activity links and consequential exchanges', C + 'cleanup.py'), ('wastes and recyclables', C + 'wastes.py'), ('constrained markets', C + 'markets.py'), ('labels and normalisation', T + 'utils.py'),
      ('links to parents', T + 'activity_links.py'), ('technology levels', T + 'consequential/technology_levels.py'), ('datasets without production', L), ('formulas which are known to be wrong', PZ + 'known_ecoinvent_issues.py')],
     'differential monitoring of single steps', 'Every field of every dataset after the real step is compared with an independent statement of that step. Where a step is only defined for some data (one product per dataset, say), only such data is given to it.')

prop('C36', 'A complete model run, from files and command line to saved results',
     'Running a system model over a directory of files, by function or command line, gives the results which the reference model computes from these files, with the model that was asked for (cutoff if none). '
     'Intermediate results are saved for exactly the steps of the save strategy, and each saved file holds all activities as they were after that step; followed activities are saved for every step; the report is opened exactly if asked for. '
     'Running again with the cache gives the results of what the files now say. Commands with an unknown model, without directory or of wrong usage, and interrupted ones, end with an error and leave no output of a run.',
     ['inputs', 'histories'], 'all generated databases written as ecospold2, all models, save strategies, followed activities, cache choices, sequences of runs with changes of files in between, and interruptions',
     'Tests call the parts with mocks; no test runs a model from files, or the command line.',
     ['ocelot/model.py', 'ocelot/bin/ocelot_cli.py', 'ocelot/results.py', 'ocelot/report.py', 'ocelot/filesystem.py', 'ocelot/io/extract_ecospold2.py', 'ocelot/configuration.py', 'ocelot/utils.py'],
     [('model run', 'ocelot/model.py'), ('command line', 'ocelot/bin/ocelot_cli.py'), ('saved results', 'ocelot/results.py'), ('cache', 'ocelot/filesystem.py')],
     'end to end monitoring of real runs', 'Files are written by an independent writer; saved files are compared with each other and the final results with the reference model. Opening pages is recorded instead of done.')

prop('C37', 'Queries of datasets answer for exactly what they ask and change nothing',
     'The functions which count, find or list exchanges, products, amounts, properties, numbers and tuples of a dataset answer for exactly the exchanges they document, in any mixture of kinds, with missing fields and zero amounts, and raise their documented error where there is no answer; they change nothing. '
     'Choosing a reference product keeps that exchange (amount and distribution scaled by the given allocation, refused if production is zero), makes all others dropped products and changes neither the original nor any other choice. '
     'Collections contain the functions they were made of, in order, however they are nested and edited.',
     ['inputs'], 'all datasets with any mixture of exchanges, all queries, all choices of products and factors, all nested collections and changes of them',
     'All models are built from these queries; tests ask each of them once or twice about one fixture.',
     [T + 'utils.py', 'ocelot/data_helpers.py', 'ocelot/collection.py', 'ocelot/errors.py'],
     [('queries', T + 'utils.py'), ('choice of a product', T + 'utils.py'), ('collections', 'ocelot/collection.py')],
     'differential monitoring of queries', 'Each answer is compared with an independent statement, and the dataset with a copy made before.')
