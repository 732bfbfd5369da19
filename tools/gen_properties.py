"""Writes /verif/properties.jsonl (run by hand when a property is edited)."""
import json, os

K = 'kamrecsys/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=n, where=w) for n, w in mech],
                      observe_at=observe, hook_needed=None,
                      **({'state': state} if state else {}))))


prop('C01', 'External and internal object ids stay in exact correspondence',
     "At every moment between operations, each event container numbers the distinct external ids of each object type "
     "in its events 0..n-1 without gaps or repeats, the two directions of conversion are inverse of each other, and "
     "converting the stored events back gives exactly the external events supplied, in order. "
     "Unknown external ids and out-of-range internal ids are reported as errors in single-id conversion, and become the "
     "number of objects of that type (or the caller's substitutes) in event conversion. "
     "This holds after any sequence of filling, refilling and filtering containers, also when an operation was interrupted "
     "part-way and repeated, and when several callers filter and convert the same container at once. "
     "If the data handed over for filling are refused with an error, the container keeps its previous contents.",
     ['schedules', 'inputs', 'histories', 'fault_sequences'],
     "all datasets (any number of object types, repeated or unused types in an event, integer, negative, huge or string "
     "ids, duplicate events), all operation histories, all interruption points, all interleavings of callers",
     "The data tests look at one 30-event file (missing here, so they do not even run) through one call each; refills, "
     "filters of filters, interrupted operations and concurrent callers are never exercised.",
     [K + 'data/base.py', K + 'data/event.py', K + 'base/base.py'],
     [('id table generation', K + 'data/base.py:_gen_id'),
      ('id conversion', K + 'data/base.py:to_eid,to_iid'),
      ('event conversion', K + 'data/event.py:to_eid_event,to_iid_event'),
      ('filling a container', K + 'data/event.py:set_event'),
      ('re-numbering on filtering', K + 'data/event.py:filter_event, data/base.py:_gen_id_substitution_table')],
     ['to_eid', 'to_iid', 'to_eid_event', 'to_iid_event', 'n_objects', 'eid', 'iid', 'event'])

prop('C02', 'Filtering keeps exactly the chosen events, aligned and isolated',
     "Filtering a container yields a container with exactly the selected events in the selected order, each still paired "
     "with its own score and event feature, and with exactly the objects that occur in them, each still paired with its own "
     "object feature. The source container, the caller's arrays and every container derived earlier keep their contents "
     "whatever is done afterwards to any of the others (filtering, refilling, attaching features, binarising, overwriting "
     "event or score arrays), also when callers overlap or an operation is interrupted. "
     "A filter or feature request that does not fit the container is refused and changes nothing, and so does an attempt "
     "to fill it with events or scores that are refused.",
     ['schedules', 'inputs', 'histories', 'fault_sequences'],
     "all datasets with scores, event features and object features, all selections (boolean or index, empty, repeated, "
     "reordered), all histories of derivation and modification, all interleavings and interruption points",
     "The filter tests check one mask on one missing data file and never modify the result or the source afterwards.",
     [K + 'data/event.py', K + 'data/event_with_score.py', K + 'data/base.py'],
     [('filtering events', K + 'data/event.py:filter_event'),
      ('filtering scores', K + 'data/event_with_score.py:filter_event'),
      ('object features', K + 'data/base.py:set_feature'),
      ('copy of inputs', K + 'data/event.py:set_event, data/event_with_score.py:set_event')],
     ['event', 'score', 'event_feature', 'feature', 'eid', 'n_events', 'n_objects'])

prop('C03', 'Score domain, levels and discretised scores agree in every container',
     "In every scored container the score domain, the number of levels, the list of levels and the bins describe the same "
     "scale, discretising a score gives the index of the nearest level, and binarising gives 0 up to the threshold and 1 "
     "above it together with the two-level domain. A derived container keeps the scale it was derived with even if extreme "
     "scores were filtered out, and binarising or refilling one container never changes the scale or scores of another, "
     "whatever the order or overlap of callers. Scores or a domain that are refused leave events, scores and scale together "
     "as they were.",
     ['schedules', 'inputs', 'histories'],
     "all score domains (given or estimated; integral, fractional and non-dyadic strides), all histories of filling, "
     "filtering, binarising and discretising on related containers, all interleavings of callers",
     "The tests check two fixed domains with dyadic strides on single containers; relations between derived containers "
     "and histories are not sampled.",
     [K + 'data/event_with_score.py', K + 'metrics/base.py'],
     [('domain and level count', K + 'data/event_with_score.py:set_event'),
      ('bins', K + 'metrics/base.py:generate_score_bins'),
      ('discretisation', K + 'data/event_with_score.py:digitize_score'),
      ('binarisation', K + 'data/event_with_score.py:binarize_score')],
     ['score_domain', 'n_score_levels', 'get_score_levels', 'generate_score_bins', 'digitize_score', 'binarize_score'])

prop('C04', 'Seeded training is exactly repeatable in any surroundings',
     "Training with the same data, settings and integer seed (or identically seeded generator) always learns bit-identical "
     "parameters, predictions and training report, whatever was done before with the same recommender object, whatever "
     "other training, prediction or filtering overlaps it, whatever the state of the global random generator, the log level, "
     "the hash seed or the process. Seeded training neither consumes nor reseeds the global random generator.",
     ['schedules', 'inputs', 'histories', 'configurations'],
     "all recommender types, seeds, data sets and settings, all histories of the object, all interleavings with other "
     "callers, all states of the global generator, all hash seeds",
     "The tests train each recommender once per process with one seed and compare with recorded constants; they never "
     "train twice, retrain an object or overlap anything.",
     [K + 'base/base.py', K + 'score_predictor/matrix_factorization.py', K + 'score_predictor/topic_model.py',
      K + 'item_finder/matrix_factorization.py'],
     [('generator set up per training', K + 'base/base.py:BaseRecommender.fit'),
      ('initial parameters', K + 'score_predictor/matrix_factorization.py:_init_coef'),
      ('initial responsibilities', K + 'score_predictor/topic_model.py:_init_params'),
      ('initial parameters', K + 'item_finder/matrix_factorization.py:_init_coef')],
     ['learned parameter attributes', 'fit_results_', 'predict', 'numpy.random.get_state'])

prop('C05', 'Training leaves data alone and trained models are independent',
     "Training and prediction never modify the data container or any argument of the caller, and a trained model drops its "
     "reference to the training events and scores. Once trained, a model's predictions and id conversion stay the same no "
     "matter what happens later to the container it was trained on, to the caller's settings objects, or to other models, "
     "including models sharing data or settings that are trained, interrupted or used concurrently.",
     ['schedules', 'inputs', 'histories', 'fault_sequences'],
     "all recommender types and settings, all histories of training, refilling, binarising, filtering and predicting over "
     "shared containers and settings objects, all interleavings and interruption points",
     "The tests use one model per container and throw both away; aliasing between models, containers and settings is "
     "never observable to them.",
     [K + 'base/base.py', K + 'data/base.py', K + 'data/event.py', K + 'score_predictor/matrix_factorization.py',
      K + 'item_finder/matrix_factorization.py'],
     [('taking over object tables', K + 'data/base.py:_set_object_info'),
      ('taking over events', K + 'data/event.py:_set_event_info'),
      ('dropping training data', K + 'base/base.py:remove_data'),
      ('settings', K + 'score_predictor/matrix_factorization.py:__init__')],
     ['predict', 'container contents', 'event/score/event_feature after training'])

prop('C06', 'An interrupted or failed training is reported and fully recoverable',
     "When training is interrupted or fails at any point (cancellation, lack of memory, a failing optimizer, unusable data), "
     "the error reaches the caller, and the data, the caller's arguments, other models and the global random generator are as "
     "before. Training the same recommender object again then gives bit-identical parameters, predictions and report to "
     "training a fresh object, and until then the object never answers with parameters learned from earlier data for the "
     "ids of the new data.",
     ['crash_points', 'inputs', 'histories', 'fault_sequences'],
     "all recommender types, data sets and settings, every point of a training run, repeated and mixed failures, "
     "interleavings with other training",
     "No test interrupts or fails a training run or trains an object twice.",
     [K + 'base/base.py', K + 'score_predictor/matrix_factorization.py', K + 'score_predictor/topic_model.py',
      K + 'item_finder/matrix_factorization.py', K + 'item_finder/base.py'],
     [('per-training state', K + 'base/base.py:BaseEventRecommender.fit'),
      ('parameter buffers', K + 'score_predictor/matrix_factorization.py:PMF.fit'),
      ('EM state', K + 'score_predictor/topic_model.py:MultinomialPLSA.fit'),
      ('binary score check', K + 'item_finder/base.py:BaseExplicitItemFinder.fit')],
     ['exceptions from fit', 'learned parameter attributes', 'fit_results_', 'predict'])

prop('C07', 'Served predictions follow the learned model, however they are requested',
     "A trained model's prediction for an event is the documented function of its learned parameters (bias plus factor "
     "product, squashed for item finding; expectation or mode over the score levels for the topic model), where objects "
     "unseen in training contribute nothing (for the topic model, evenly), so scores stay in their documented range. "
     "It is the same for one event or within any batch, order or input container, for concurrent and interrupted requests, and "
     "after saving and restoring the model; events are given by external ids of all event elements and only the elements "
     "chosen for training matter. Serving changes neither the request nor the model.",
     ['schedules', 'inputs', 'histories', 'fault_sequences', 'configurations'],
     "all recommender types, all trained parameters, all requests including unknown ids of any kind, all choices of event "
     "elements and event types, all interleavings and interruptions, save/restore at any point",
     "The tests compare a dozen predictions of one model with recorded constants; batches, column choices, string ids, "
     "unknown ids of shuffled types, concurrency and restored models are not reached.",
     [K + 'base/base.py', K + 'data/event.py', K + 'score_predictor/matrix_factorization.py',
      K + 'score_predictor/topic_model.py', K + 'item_finder/matrix_factorization.py'],
     [('id conversion and column choice', K + 'base/base.py:predict'),
      ('missing ids', K + 'data/event.py:to_iid_event'),
      ('prediction formulas', 'raw_predict of each recommender'),
      ('parameters of unknown objects', 'end of fit of each recommender')],
     ['predict', 'pickle.dumps/loads'])

prop('C08', 'The training report and learned parameters match what training did',
     "For factor models the optimizer is handed the stated objective (half the squared error, or the cross-entropy, over the "
     "training events - for implicit feedback over all user-item pairs, in whichever matrix format they are obtained - plus half C times the squared norm of all biases and "
     "factors), its exact gradient and the user's optimizer settings, and whatever the optimizer returns, also when it stops "
     "early or fails, is what the model holds. The report gives the objective at the start and at the learned parameters, true "
     "counts of users, items, events and parameters, and the optimizer's own status, message and effort. "
     "For the topic model all learned distributions are normalised, every permitted iteration performs one smoothed EM update, "
     "the reported losses are the mean negative log-likelihoods at the start and of the learned model, and success means the "
     "tolerance was reached within the permitted iterations, as status and message say. Settings that are not given take "
     "their documented values.",
     ['inputs', 'histories', 'configurations', 'fault_sequences'],
     "all data sets, hyper-parameters and optimizer settings, all outcomes of the optimizer (any point, status, count, early "
     "stop), all iteration budgets",
     "The tests check objective values at a few hand-made points and recorded final losses of full runs; early stops, "
     "failures, budgets and arbitrary optimizer outcomes never occur.",
     [K + 'score_predictor/matrix_factorization.py', K + 'score_predictor/topic_model.py',
      K + 'item_finder/matrix_factorization.py', K + 'item_finder/base.py', K + 'utils/base.py'],
     [('objective and gradient', 'loss and grad_loss of the factor models'),
      ('optimizer call and report', 'fit of the factor models'),
      ('EM', K + 'score_predictor/topic_model.py:maximization_step, fit'),
      ('implicit feedback matrix', K + 'item_finder/base.py:get_event_array'),
      ('status messages', K + 'utils/base.py:get_fit_status_message')],
     ['scipy.optimize.minimize call', 'fit_results_', 'learned parameter attributes'])

prop('C09', 'Using the library leaves the settings of the process as they were',
     "Importing the library and using it - containers, loading, training, prediction, splitting, metrics - leaves what belongs to "
     "the surrounding program as it was: numpy's error handling and print options, warning filters, logging outside the "
     "library's own loggers, the state of the generators of random numbers unless an unseeded operation draws from it, "
     "environment variables, working directory, umask, command line and module search path, standard streams, signal handlers, "
     "locale, garbage collection and limits of the interpreter and the functions of other packages. No thread is left running, no file is left open and nothing is "
     "written to standard output. This holds for any settings the program has chosen, also when several callers overlap and "
     "when an operation is refused or fails (in the optimizer, on unusable data, at a failing device).",
     ['schedules', 'inputs', 'histories', 'fault_sequences', 'configurations'],
     "all settings of the surrounding program, all histories of use and failures, all interleavings of callers",
     "No test looks at the state of the process, and changed settings that are restored at the end of an undisturbed call "
     "show only when calls overlap or fail.",
     [K + 'base/base.py', K + 'data/base.py', K + 'score_predictor/matrix_factorization.py',
      K + 'score_predictor/topic_model.py', K + 'item_finder/matrix_factorization.py', K + 'datasets/base.py',
      K + 'metrics/score_predictor.py', K + 'metrics/item_finder.py', K + 'model_selection/split.py', K + 'utils/base.py'],
     [('own generators of random numbers', K + 'base/base.py, score_predictor/topic_model.py:fit, model_selection/split.py'),
      ('silent optimizer', 'options.disp of the factor models'),
      ('null handlers of loggers', 'end of every module'),
      ('reports to the standard error', K + 'metrics/score_predictor.py:score_predictor_report, metrics/item_finder.py')],
     ['numpy.geterr', 'numpy.get_printoptions', 'warnings.filters', 'logging', 'os.environ', 'sys', 'signal', 'locale',
      'standard output'])

prop('C10', 'Loading returns the whole file or an error, however it is delivered',
     "Loading an event file gives exactly its records in order - ids, scores, event features and the requested score domain - "
     "whether it is named by path, passed as an open file or piped in, in whatever pieces the data arrive, with comments, blank "
     "lines, either line ending and with or without a final newline, down to a single record. If reading fails at any point "
     "the error is raised and never a partial container; a file cut inside a record's separators is rejected.",
     ['inputs', 'schedules', 'fault_sequences'],
     "all event files (any number of object types, feature layouts), all ways and chunkings of delivery, read errors at any "
     "read, truncation at any byte",
     "The load tests read one complete local file by path.",
     [K + 'datasets/base.py', K + 'datasets/others.py', K + 'datasets/flixster.py'],
     [('event loader', K + 'datasets/base.py:load_event'),
      ('scored event loader', K + 'datasets/base.py:load_event_with_score'),
      ('string-id loader', K + 'datasets/others.py:load_pci_sample')],
     ['load_event', 'load_event_with_score', 'load_pci_sample', 'load_flixster_rating'])

prop('C11', 'Converted datasets load back exactly, and conversion survives crashes',
     "Running a dataset converter on its raw files and then the matching loader gives exactly the raw ratings with their "
     "timestamps and every user and item feature attached to the right object. A converter that cannot read all its input or "
     "write all its output ends with an error, never modifies its input, and running it again after a failure or a crash at "
     "any point gives the same files as an undisturbed run. A loader that cannot read one of the files of its data set "
     "completely ends with an error.",
     ['inputs', 'crash_points', 'fault_sequences'],
     "all raw files in the distributed formats (accented titles, missing dates, every genre, age class and occupation), all "
     "crash points, full disks, read and write errors, short reads and writes",
     "Converters have no tests, and the loader tests need the converted files, which are not in the repository.",
     ['data/movielens100k.py', 'data/movielens1m.py', 'data/movielens_mini.py', 'data/flixster.py', 'data/sushi3.py',
      K + 'datasets/movielens.py', K + 'datasets/sushi3.py', K + 'datasets/flixster.py', K + 'data/base.py'],
     [('converters', 'data/*.py'),
      ('loaders', K + 'datasets/movielens.py, sushi3.py, flixster.py'),
      ('feature attachment', K + 'data/base.py:set_feature')],
     ['converted files', 'load_movielens100k', 'load_movielens_mini', 'load_movielens1m', 'load_sushi3b_score',
      'load_flixster_rating'])

prop('C12', 'Data splits are true partitions, per group, and repeatable',
     "Every split divides all sample positions into disjoint training and test sets; k-fold splitters put every sample in "
     "exactly one test set with fold sizes within each group differing by at most one (interlaced: sample i in fold i mod k), "
     "and the shuffled splitter draws the requested number of test (or, if only that is given, training) samples from each "
     "group anew for each split. With an integer seed the "
     "same splits come out each time they are asked for, without touching the global generator, however several traversals "
     "are interleaved, abandoned, interrupted or restarted, and splits already handed out never change. A request that no "
     "split can satisfy (fewer than two folds, more folds than samples, sizes that leave a set empty or overfull) is refused.",
     ['schedules', 'inputs', 'histories'],
     "all sample counts, group labellings (any label type, order, size), sizes and seeds, all interleavings of traversals "
     "and other users of randomness",
     "The module could not even be imported with the installed scikit-learn, and its tests take one fixed group layout and "
     "read each traversal once.",
     [K + 'model_selection/split.py'],
     [('shuffled splits within groups', K + 'model_selection/split.py:ShuffleSplitWithinGroups'),
      ('k-folds within groups', K + 'model_selection/split.py:KFoldWithinGroups'),
      ('interlaced k-folds', K + 'model_selection/split.py:InterlacedKFold')],
     ['split', 'get_n_splits'])

prop('C13', 'Experiment results are complete, aligned and free of leakage',
     "The result of an experiment run contains for every test event of every fold its user-item pair, true score, prediction, "
     "event feature and position, all from the same input event, with a fifth of each user's events tested in each "
     "cross-validation fold (or the whole test file for a hold-out run). Each prediction is what a model trained with the stated "
     "settings only on the other events (or the training file) gives, so test events never influence it. The recorded "
     "settings, file names, counts and training reports are those of the run, independent of how input is delivered, output is "
     "directed, logging is set, and of other experiments running at the same time.",
     ['inputs', 'configurations', 'schedules'],
     "all input files, methods, validation schemes, options and seeds, all deliveries of input, all overlaps of runs",
     "The experiment scripts have no tests at all.",
     ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py', 'scripts/exp_recsys_util.py', K + 'utils/kamexputils.py'],
     [('cross validation', 'scripts/exp_recsys_util.py:cv_test'),
      ('hold-out test', 'scripts/exp_recsys_util.py:holdout_test'),
      ('options', 'scripts/exp_recsys_sp.py:init_info, scripts/exp_recsys_if.py:init_info'),
      ('conversion to JSON', K + 'utils/kamexputils.py:json_decodable')],
     ['result files of exp_recsys_sp and exp_recsys_if'])

prop('C14', 'One-fold runs merged in any order equal the full cross-validation',
     "Running the folds of a seeded cross-validation as separate one-fold processes - in any order, at the same time, with any of "
     "them crashing and being run again - and merging their result files in any order gives the same events, true scores, "
     "predictions, features, positions and training reports for every fold as one full run, with every fold's "
     "environment and all common settings kept. Merging fails rather than producing a result if any input file is incomplete.",
     ['schedules', 'crash_points', 'histories', 'configurations'],
     "all experiments, fold counts, execution orders and overlaps, crash points and restarts, merge orders",
     "Neither the one-fold mode nor the merge script has a test.",
     ['scripts/exp_recsys_util.py', 'scripts/exp_recsys_fold_merge.py', 'scripts/exp_recsys_sp.py',
      'scripts/exp_recsys_if.py', K + 'model_selection/split.py'],
     [('one-fold mode', 'scripts/exp_recsys_util.py:cv_test'),
      ('seeding', 'scripts/exp_recsys_util.py:do_task'),
      ('merging', 'scripts/exp_recsys_fold_merge.py:first_fold,rest_fold')],
     ['merged result file', 'full-run result file'])

prop('C15', 'Success of a script means its output is completely on disk',
     "If an experiment, merge or statistics script ends successfully, its output file (or standard output) holds one complete "
     "result identical to that of an undisturbed run; if reading or writing fails anywhere, the script ends with an error. "
     "Input files are never modified, and an incomplete file left by a crashed or failed script is rejected with an error by "
     "every script that reads it instead of yielding results.",
     ['crash_points', 'fault_sequences', 'inputs'],
     "all scripts and inputs, full disks, write, flush, close and read errors at any operation, short reads and writes, crash at "
     "any write, truncation of leftovers at any byte",
     "The scripts have no tests, and no test injects an I/O failure.",
     ['scripts/exp_recsys_util.py', 'scripts/exp_recsys_fold_merge.py', 'scripts/stats_recsys.py'],
     [('writing results', 'scripts/exp_recsys_util.py:do_task'),
      ('merging', 'scripts/exp_recsys_fold_merge.py:do_task'),
      ('statistics', 'scripts/stats_recsys.py:do_task')],
     ['exit status', 'output files', 'standard output'])

prop('C16', 'Recorded times are those of the phase they describe',
     "For every fold the recorded start and end times of training and test enclose exactly the training or the prediction of that "
     "fold, in the order they happened, and the elapsed wall-clock and user times are the differences of the clock readings "
     "at those two moments. This holds for any speed of the phases and when the wall clock jumps forward or backward during "
     "the run.",
     ['schedules', 'fault_sequences', 'configurations'],
     "all experiments, durations of phases, clock rates and clock jumps",
     "No test looks at recorded times, and real clocks cannot be made to jump in a unit test.",
     ['scripts/exp_recsys_util.py'],
     [('training phase', 'scripts/exp_recsys_util.py:training'),
      ('test phase', 'scripts/exp_recsys_util.py:testing')],
     ['start_time, end_time, elapsed_time, elapsed_utime in result files'])

prop('C17', 'Statistics are exactly those of the recorded predictions',
     "The statistics of a result file - sample count, absolute and squared errors, means, deviations and histograms, or the area "
     "under the curve for item finding - are those of all recorded predictions of all folds, each prediction paired with "
     "its own true score, whether the result comes from a hold-out run, a full cross-validation or merged one-fold runs, "
     "in whatever order folds were computed, stored or merged. The remaining contents of the result are carried over "
     "unchanged, with the recorded predictions kept only on request. A result whose recorded scores are not finite, not "
     "paired, or not of its kind of task gives an error instead of statistics.",
     ['inputs', 'histories', 'configurations', 'schedules'],
     "all result files, fold orders, score domains, deliveries of input and output options",
     "The metric tests use one pair of short arrays; the statistics script has no test.",
     ['scripts/stats_recsys.py', K + 'metrics/score_predictor.py', K + 'metrics/item_finder.py', K + 'metrics/real.py',
      K + 'metrics/base.py'],
     [('gathering folds', 'scripts/stats_recsys.py:do_task'),
      ('score predictor statistics', K + 'metrics/score_predictor.py:score_predictor_statistics'),
      ('item finder statistics', K + 'metrics/item_finder.py:item_finder_statistics')],
     ['output of stats_recsys'])

prop('N01', 'Metric functions compute their mathematical definitions',
     "Called directly, the brief reports, the variance with a Gamma prior, the histogram for a given number of bins and the mean "
     "of statistics equal their published definitions for every input array.",
     ['inputs'], "all input arrays",
     "The tests check one pair of arrays per function.",
     [K + 'metrics/real.py', K + 'metrics/base.py', K + 'metrics/score_predictor.py', K + 'metrics/item_finder.py'],
     [('metrics', K + 'metrics/*.py')], ['return values'])

prop('N02', 'The safe sigmoid stays inside the open unit interval and is monotone',
     "For every finite real argument the squashing function returns a value in [1e-15, 1 - 1e-15], never decreasing in its "
     "argument.",
     ['inputs'], "all real arguments",
     "The tests check a handful of arguments.",
     [K + 'utils/kammath.py'], [('sigmoid', K + 'utils/kammath.py:safe_sigmoid')], ['return values'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
