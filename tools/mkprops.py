"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(),
         observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': ['nimble/' + f for f in files],
            'state': [dict(name=n, meaning=m, where='nimble/' + w)
                      for n, m, w in state],
            'mechanism': [dict(name=n, where='nimble/' + w)
                          for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Views are read-only windows onto their source',
     'A view of a data object can never be used to change anything: every '
     'in-place operation called on the view, on its points or on its features '
     'is refused with an exception before anything is written, and no other '
     'operation on the view writes to the data of the view or of the object '
     'it was taken from.',
     ['programs', 'inputs'],
     'Every public operation and operator of every storage type\'s view '
     '(including views of views and single-point/feature/vector views), with '
     'any arguments.',
     'Tests call a fixed list of methods on small views; a newly added '
     'in-place method, a helper that writes through shared storage only for '
     'one storage type or argument shape, or an operator nobody listed is not '
     'sampled.',
     ['core/data/views.py', 'core/data/base.py', 'core/data/axis.py',
      'core/data/matrix.py', 'core/data/list.py', 'core/data/dataframe.py',
      'core/data/sparse.py'],
     [('BaseView/PointsView/FeaturesView read-only overrides',
       'core/data/views.py'),
      ('readOnlyException', 'core/data/_dataHelpers.py'),
      ('per-backend _view_implementation', 'core/data/*.py')],
     [('_source', 'object the view looks at', 'core/data/views.py'),
      ('_data', 'storage, shared with the source for most views',
       'core/data/*.py')],
     ['any public method of a view'])

prop('C02', 'Reading operations change neither the object nor the arguments',
     'An operation that is documented to return a result instead of working '
     'in place leaves the data, names and dimensions of the object it is '
     'called on exactly as they were, and no operation - in place or not - '
     'changes the contents of an object, list, dictionary, array or data '
     'frame that the caller passed in as an argument.',
     ['inputs', 'programs'],
     'All public methods and operators of data objects and their points and '
     'features, and all public module-level functions, for every storage '
     'type and every combination of argument types.',
     'The base tests compare before and after for selected calls; they do '
     'not do it for every combination of storage type, argument container '
     'and option, and aliasing bugs show only for particular ones.',
     ['core/data/base.py', 'core/data/axis.py', 'core/data/points.py',
      'core/data/features.py', 'core/data/matrix.py', 'core/data/list.py',
      'core/data/dataframe.py', 'core/data/sparse.py',
      'core/_createHelpers.py', 'core/learn.py', 'calculate/*.py', 'fill/*.py',
      'match/*.py'],
     [('copying before in-place work', 'core/data/*.py'),
      ('isAllowedRaw/initDataObject copy handling',
       'core/_createHelpers.py')],
     [('_data', 'backend storage', 'core/data/*.py'),
      ('_dims', 'list of dimension sizes', 'core/data/base.py')])

prop('C03', 'Copies, results, exports and new objects own their storage',
     'Data handed out by an operation - a copy in any format, a computed '
     'result, an extracted part, an object created from raw data - shares no '
     'modifiable storage or dimension record with the object or raw input it '
     'came from (views and explicit reuse of data excepted), so a later '
     'in-place change of one is never visible through the other.',
     ['inputs', 'histories'],
     'All creating, copying, exporting and computing operations, for every '
     'storage type and output format, followed by any history of in-place '
     'operations on either object.',
     'Sharing shows only when one object is modified after the other was '
     'made; tests mutate after a handful of producers and formats only.',
     ['core/data/base.py', 'core/data/matrix.py', 'core/data/list.py',
      'core/data/dataframe.py', 'core/data/sparse.py', 'core/data/axis.py',
      'core/_createHelpers.py'],
     [('_copy_implementation', 'core/data/*.py'),
      ('initDataObject / createDataNoValidation', 'core/_createHelpers.py'),
      ('_structuralBackend_implementation', 'core/data/*Axis.py')],
     [('_data, _dims', 'storage and shape', 'core/data/*.py')])

prop('C04', 'Every operation is logged once or not at all, as requested',
     'A public operation that accepts the useLog option writes no log entry '
     'at all when called with useLog=False, and otherwise offers exactly one '
     'entry of its own to the log - operations it uses internally never add '
     'entries of their own unless deep logging was asked for. An operation '
     'that does not accept the option never writes an entry. (A '
     'hyperparameter search has an entry for the search; the alternateControl '
     'block has one when entered and one when left.)',
     ['configurations', 'inputs', 'programs'],
     'All public operations, all three values of useLog, all logging '
     'configurations, all argument paths through each operation.',
     'Log tests count entries for one typical call per operation; an internal '
     'call on a rarely used branch that forgets to pass the option is not '
     'sampled.',
     ['core/logger/session_logger.py', 'core/data/*.py', 'core/learn.py',
      'core/create.py', 'core/interfaces/universal_interface.py',
      'core/tune.py', 'core/_createHelpers.py'],
     [('handleLogging/loggingEnabled', 'core/logger/session_logger.py'),
      ('prepLog', 'core/data/_dataHelpers.py'),
      ('useLog=False on internal calls', 'everywhere')])

prop('C05', 'Log entries are durable, safely stored and readable',
     'When a logged call returns, its entry has been committed to the log '
     'database; user supplied text only ever reaches the database as bound '
     'values, never as part of a statement (with as many values bound as the '
     'statement has places for); every kind of entry that can be written is '
     'understood by the log viewer, which finds every field it reads in each '
     'entry and shows anything it cannot interpret as it is; and describing '
     'the arguments of a call for its entry never makes the call fail.',
     ['inputs', 'crash_points', 'programs'],
     'Every statement executed on the log database, every writer of an entry '
     'and every entry type; any text in names, paths, headings, search terms.',
     'Tests never kill the process after a call, never search or log hostile '
     'text, and do not cover every entry type in the viewer.',
     ['core/logger/session_logger.py'],
     [('SessionLogger.insertToLog', 'core/logger/session_logger.py'),
      ('showLog query builder', 'core/logger/session_logger.py'),
      ('_buildLogString / build*LogString', 'core/logger/session_logger.py')])

prop('C06', 'Sparse objects never answer from stale positions',
     'After any in-place change of a sparse object, every later read by '
     'element, point, feature or iteration sees the changed data: whatever '
     'ordering or position information is remembered between reads is '
     'discarded by each change that completes.',
     ['histories'],
     'All histories that interleave reads (which build the remembered '
     'ordering) with in-place operations of sparse objects.',
     'It needs a read before and a read after one particular mutation; tests '
     'mostly build a fresh object per call, so the remembered ordering is '
     'empty.',
     ['core/data/sparse.py', 'core/data/sparseAxis.py'],
     [('_sortInternal/_resetSorted', 'core/data/sparse.py')],
     [('_sorted', 'axis and index array the coordinate data is ordered by',
       'core/data/sparse.py')])

prop('C07', 'All randomness flows from nimble\'s own seeded generators',
     'Every random choice made anywhere is drawn from nimble\'s own '
     'generators or from a generator seeded by an explicit or nimble-drawn '
     'seed, so that setting the seed (or passing a randomSeed) makes results '
     'repeatable; a user supplied seed is used; and drawing with an explicit '
     'seed or in an alternate-control block leaves the session\'s random '
     'state as it was, whether or not the code in between fails.',
     ['programs', 'histories', 'fault_sequences'],
     'Every call site of a random generator in the package and every function '
     'that accepts a seed; all exits including exceptions.',
     'A stray unseeded draw gives plausible output in every single test run; '
     'state restoration after an exception is not sampled.',
     ['random/randomness.py', 'core/tune.py', 'core/learn.py',
      'core/data/*.py', 'core/interfaces/*.py', 'learners/*.py'],
     [('alternateControl, setSeed, generateSubsidiarySeed, pythonRandom, '
       'numpyRandom', 'random/randomness.py')])

prop('C08', 'Temporary changes are undone on every exit',
     'Wherever an operation temporarily changes shared state - the dimensions '
     'or storage of a data object, the log nesting level, registered '
     'learners or options, global settings of Python or of another library - '
     'the previous state is back when the operation ends, also when it ends '
     'by an exception; files that are opened are closed on every exit.',
     ['fault_sequences', 'programs'],
     'Every save/modify/restore region, context manager and opened file in '
     'the package; normal and exceptional exit at any statement in between.',
     'Tests exercise the success path; restoration after a failure inside the '
     'region is not sampled, and a later operation is needed to see it.',
     ['core/data/base.py', 'core/data/views.py', 'core/data/list.py',
      'core/data/dataframe.py', 'core/logger/session_logger.py',
      'core/_createHelpers.py', 'core/configuration.py',
      'random/randomness.py', '_utility.py'],
     [('_treatAs2D', 'core/data/base.py'),
      ('trackEntry', 'core/logger/session_logger.py'),
      ('alternateControl', 'random/randomness.py'),
      ('with-statements around open', 'everywhere')])

prop('C09', 'Shape and names always describe the stored data',
     'When an in-place operation that can add, remove, reorder or reshape '
     'points or features completes, the object\'s recorded dimensions and its '
     'point and feature names have been updated by the same operation and in '
     'the same order as the stored data, for every storage type.',
     ['inputs', 'histories'],
     'All structural in-place operations of every storage type on objects '
     'with and without names, all later reads.',
     'Needs combinations of storage type, named/unnamed axis and operation; '
     'tests cover typical ones, and a missed update surfaces only in a later '
     'call.',
     ['core/data/axis.py', 'core/data/points.py', 'core/data/features.py',
      'core/data/base.py', 'core/data/matrix.py', 'core/data/sparse.py',
      'core/data/list.py', 'core/data/dataframe.py'],
     [('_adjustCountAndNames, _setInsertedCountAndNames, _sort/permute name '
       'handling', 'core/data/axis.py'),
      ('flatten/unflatten/transpose/merge', 'core/data/base.py')],
     [('_dims', 'dimension sizes', 'core/data/base.py'),
      ('names, namesInverse', 'name to index and index to name',
       'core/data/axis.py')])

prop('C10', 'A rejected call leaves the data object unchanged',
     'When an in-place operation of a data object, its points or its features '
     'refuses its arguments with an exception of its own, the object is still '
     'exactly as before the call: every such check happens before the first '
     'modification of the stored data, dimensions or names.',
     ['inputs', 'fault_sequences'],
     'Every exception explicitly raised anywhere below a public in-place '
     'operation, for every storage type and argument combination.',
     'Tests assert that the exception is raised; they rarely look at the '
     'object afterwards and cannot try every invalid combination.',
     ['core/data/base.py', 'core/data/axis.py', 'core/data/points.py',
      'core/data/features.py', 'core/data/sparse.py', 'core/data/list.py',
      'core/data/matrix.py', 'core/data/dataframe.py'],
     [('validation before _..._implementation calls', 'core/data/*.py')])

prop('C11', 'Optional packages are only needed by what uses them',
     'Importing nimble and using features that do not need an optional '
     'package work without it, and an operation that does need one checks '
     'that it is available before touching it, so its absence gives a clear '
     'package error and never an attribute or import error.',
     ['configurations'],
     'Every optional dependency installed or missing; every place that uses '
     'one.',
     'The test environment has one fixed set of packages installed; the other '
     'combinations are never run.',
     ['_dependencies.py', '_utility.py', 'core/data/base.py',
      'core/data/_dataHelpers.py', 'core/_createHelpers.py',
      'core/interfaces/*.py', 'core/tune.py', 'calculate/*.py'],
     [('DeferredModuleImport.nimbleAccessible', '_utility.py'),
      ('requires* helpers', '_utility.py')])

prop('C12', 'All storage types support every operation and option',
     'Each of the four storage types and their views provides its own '
     'implementation of every storage-specific step the shared code relies '
     'on, callable the way the shared code calls it, and every option value '
     'that the shared code accepts for an operation is handled by every '
     'storage type rather than falling through to nothing.',
     ['programs', 'inputs', 'configurations'],
     'Four storage types and their views x every storage-specific step x '
     'every accepted option value.',
     'Tests sample options on each storage type, but not the product with '
     'views and rarely used values.',
     ['core/data/base.py', 'core/data/axis.py', 'core/data/points.py',
      'core/data/features.py', 'core/data/matrix.py', 'core/data/list.py',
      'core/data/dataframe.py', 'core/data/sparse.py'],
     [('abstract *_implementation methods', 'core/data/base.py'),
      ('validation of accepted string options', 'core/data/*.py')])

prop('C13', 'Arguments reach the operation they name',
     'Every argument a public operation accepts influences the operation, and '
     'when one layer forwards its arguments to the next (public method to '
     'shared code, shared code to storage type, points and features to their '
     'common code) each value arrives at the parameter of the same meaning - '
     'starts as starts, ends as ends, points as points, features as '
     'features.',
     ['inputs'],
     'All public operations and all forwarding calls between layers, for all '
     'argument values.',
     'An argument that is dropped or swapped often equals its default or its '
     'neighbour in tests.',
     ['core/data/base.py', 'core/data/points.py', 'core/data/features.py',
      'core/data/axis.py', 'core/data/views.py', 'core/create.py',
      'core/learn.py', 'core/tune.py', 'core/_createHelpers.py'],
     [('keyword/positional forwarding', 'everywhere')])

prop('C14', 'Operators apply their own operation in their own direction',
     'Each arithmetic, logical and comparison operator of a data object and '
     'of its stretched form computes the operation it is named for with '
     'operands in the right order - reflected forms with the object on the '
     'right, in-place forms into the object itself - for every storage type '
     'and operand kind.',
     ['inputs', 'programs'],
     'All operator methods x plain/reflected/in-place x storage types x '
     'operand kinds.',
     'Commutative data, square shapes and a shared numpy oracle hide a '
     'swapped or mis-dispatched operator for some operand kinds.',
     ['core/data/base.py', 'core/data/stretch.py', 'core/data/sparse.py',
      'core/data/matrix.py', 'core/data/list.py', 'core/data/dataframe.py'],
     [('_genericBinaryOperations and _binaryOperations_implementation',
       'core/data/base.py'), ('Stretch operators', 'core/data/stretch.py')])

prop('C15', 'Data of more than two dimensions is never treated as flat',
     'An operation that is only defined for two dimensional data refuses an '
     'object with more than two dimensions with an exception, before doing '
     'anything; only the operations defined for more dimensions work on '
     'them. The same holds for arguments that only make sense for two '
     'dimensional data (sorting or selecting by a feature, part of the '
     'features, csv and mtx files, scipy formats), and two objects are only '
     'combined when their dimensions agree, not merely their flattened '
     'sizes.',
     ['inputs', 'programs'],
     'All public operations of data objects, points and features x all '
     'objects with three or more dimensions.',
     'Only a list of methods is tried with a three dimensional object; a new '
     'or changed method is not on it.',
     ['core/data/base.py', 'core/data/points.py', 'core/data/features.py',
      'core/data/_dataHelpers.py'],
     [('limitedTo2D', 'core/data/_dataHelpers.py')])

prop('C16', 'Session settings and saved settings stay separate',
     'Changing a configuration setting for the session never writes the '
     'configuration file. Only saving does; it saves exactly what it was '
     'asked for (one option, one section or everything) and leaves all other '
     'session changes in place, and the file is replaced in one step by a '
     'completely written new file. Reading settings never changes them and '
     'never hands out the stored settings themselves, every change of a '
     'value by set is told to the function registered for it, and nimble '
     'itself only sets or saves settings that it found missing.',
     ['histories', 'crash_points'],
     'All histories of reading, setting and saving settings; a crash at any '
     'point of a save.',
     'Tests run in one process with a patched location and never interrupt a '
     'save.',
     ['core/configuration.py'],
     [('SessionConfiguration.set/get/saveChanges',
       'core/configuration.py')])

prop('C17', 'A detected problem is always reported',
     'Wherever the code recognises an invalid input or state and prepares the '
     'error for it, that error is actually raised (or recorded where warnings '
     'are collected); no check ends without effect and no exception from '
     'nimble\'s own checks is swallowed silently.',
     ['inputs'],
     'Every place that composes an error message or constructs an exception, '
     'and every exception handler, in the package.',
     'A check without effect looks exactly like success in tests that do not '
     'provide that invalid input.',
     ['core/data/*.py', 'core/*.py', 'core/interfaces/*.py', 'calculate/*.py',
      'fill/*.py', 'match/*.py'],
     [('msg = ...; raise X(msg) idiom', 'everywhere')])

prop('C18', 'Downloaded archives cannot write outside their folder',
     'When data is fetched from a url and unpacked, every member of the '
     'archive is checked to stay within the destination folder before '
     'anything is extracted, for every supported archive format.',
     ['inputs'],
     'All archives, member names and formats.',
     'Tests mock the download with well behaved archives.',
     ['core/_createHelpers.py', 'core/create.py'],
     [('extraction helpers', 'core/_createHelpers.py')])

prop('C19', 'Evaluation never mixes training and testing data',
     'In training, testing, applying and cross validation, a learner is '
     'trained only with the training data and labels it was given for that '
     'purpose, predictions are made only from the testing data, and the '
     'performance function receives the known labels and the predictions of '
     'the same data in its declared order.',
     ['inputs', 'programs'],
     'All public training/testing entry points, multi-class strategies and '
     'validators, every option path.',
     'On easy data a leak only improves the score, so tests that check '
     'plausible scores do not see it.',
     ['core/learn.py', 'core/tune.py', 'core/_learnHelpers.py',
      'core/interfaces/universal_interface.py'],
     [('trainAndTest/trainAndApply/Validator classes', 'core/learn.py, '
       'core/tune.py'), ('computeMetrics', 'core/_learnHelpers.py')])

prop('C20', 'Performance functions declare which direction is best',
     'Every performance function nimble offers declares whether low or high '
     'values are best, the declaration survives the wrapping nimble applies, '
     'and every place that picks the best of several results uses it - the '
     'smallest for functions where lower is better and the largest '
     'otherwise.',
     ['inputs', 'programs'],
     'All functions offered as performance functions and all selection '
     'sites, both directions.',
     'Tests tune with one or two functions; a wrong direction still returns a '
     'candidate argument set.',
     ['calculate/*.py', 'core/tune.py', 'core/learn.py',
      'core/_learnHelpers.py'],
     [('performanceFunction decorator / optimal attribute',
       'calculate/utility.py')])

prop('C21', 'Learners only ever see validated input',
     'Every public way to train, test or apply a learner - by name, class or '
     'trained learner, for every supported package and for user defined '
     'learners - first runs the checks of the learner\'s arguments and of the '
     'type, shape and labels of the data, before the learner itself is '
     'called.',
     ['inputs', 'programs'],
     'All public entry points and all paths from them to the call of the '
     'underlying learner.',
     'Validation tests go through one entry point each; a bypass on one path '
     'works for all valid input.',
     ['core/learn.py', 'core/_learnHelpers.py',
      'core/interfaces/universal_interface.py',
      'core/interfaces/custom_learner.py', 'core/tune.py'],
     [('validateLearningArguments, _validateArgumentValues',
       'core/_learnHelpers.py, core/interfaces/universal_interface.py')])

prop('C22', 'Computed numbers are correct',
     'Statistics, performance functions, similarity, normalisation and linear '
     'algebra functions return the mathematically right value for their '
     'input.',
     ['inputs'], 'All numeric inputs, missing values, storage types.',
     'Only sampled values are compared with references.',
     ['calculate/*.py'], [('calculate functions', 'calculate/*.py')])

prop('C23', 'Saved data loads back as the same data',
     'Data written to a file in any supported format and loaded again is '
     'equal in values, names and dimensions.',
     ['inputs'], 'All data values, names and formats.',
     'Only sampled values and names are written and read.',
     ['core/data/base.py', 'core/_createHelpers.py'],
     [('save / file loaders', 'core/data/base.py, core/_createHelpers.py')])

prop('C24', 'Merging combines exactly the matching points',
     'Merging two objects yields exactly the points and features that the '
     'strategy defines, with values of matching points combined and '
     'conflicting values reported.',
     ['inputs'], 'All pairs of objects, strategies and name configurations.',
     'Only sampled pairs are merged.',
     ['core/data/base.py'], [('merge', 'core/data/base.py')])

prop('C25', 'Equal data is equal across storage types',
     'Objects with the same values, names and dimensions compare equal '
     'whatever their storage types, and every operation gives equal results '
     'for each storage type.',
     ['inputs'], 'All data values x operations x storage types.',
     'Only sampled values.',
     ['core/data/*.py'], [('isIdentical/isApproximatelyEqual',
                           'core/data/base.py')])

prop('C26', 'Automatic conversion keeps the meaning of values',
     'Loading data with automatic type conversion turns text into numbers '
     'only when that loses no information, and treats exactly the given '
     'values as missing.',
     ['inputs'], 'All text values and treatAsMissing settings.',
     'Only sampled values.',
     ['core/_createHelpers.py'], [('elementType handling',
                                   'core/_createHelpers.py')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..',
                   'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
