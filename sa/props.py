"""The properties: text (-> properties.jsonl) and the analyses that decide each
(-> MANIFEST.json, check.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, jobs, na=None, state=None, observe=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, jobs=jobs, na=na, state=state, observe=observe, note=note))


def cmp(*names):
    return [('cmp', n) for n in names]


def rule(*names):
    return [('rule', n) for n in names]


M = 'pysad/models/'
TESTS = 'The tests feed a handful of random streams and check shapes, types or a single value; '

# ------------------------------------------------------------------ broad guarantees
prop('C01', 'Batch calls equal the per-instance calls in stream order',
     'Fitting, scoring or transforming a batch of n rows leaves the component in the same state and returns the same n values as n single-instance calls made in row order, each row paired with its own label (or with no label when none were given). '
     'Batch scoring performs only scoring calls and batch fitting only fitting calls, for any n including zero.',
     ['inputs', 'histories'], 'every model, transformer and postprocessor; every batch (any length, labels or none) at every point of any history',
     TESTS + 'equality of batch and incremental use must hold for every component, batch length and prior history.',
     ['pysad/core/base_model.py', 'pysad/core/base_transformer.py', 'pysad/core/base_postprocessor.py', 'pysad/utils/__init__.py'],
     [('BaseModel.fit/score', 'pysad/core/base_model.py'), ('BaseTransformer.fit/transform', 'pysad/core/base_transformer.py'), ('BasePostprocessor.fit/transform', 'pysad/core/base_postprocessor.py'), ('_iterate', 'pysad/utils/__init__.py')],
     cmp('ModelProbe', 'TransformerProbe', 'PostprocessorProbe', 'JointModelProbe', 'JointTransformerProbe', 'JointPostprocessorProbe') + rule('batch_overrides'))

prop('C02', 'Combined fit-and-score calls are fit first, then score, per instance',
     'A combined fit-and-score (or fit-and-transform) call is the fitting call for that instance followed by the scoring (transforming) call for the same instance: same returned value, same resulting state. '
     'The batch form does this row by row, so the score of row i reflects rows up to and including i and none after. Exempt in the first respect are the seasonal components (seasonal ESD, STL residual, seasonal-trend decomposition), whose combined call evaluates the value just fitted in place while their separate call treats its argument as the next, not yet fitted, value.',
     ['inputs', 'histories'], 'every component offering a combined call; every instance, label and history',
     TESTS + 'no test compares combined with separate calls on all components, histories and labels.',
     ['pysad/core/base_model.py', 'pysad/core/base_transformer.py', 'pysad/core/base_postprocessor.py', M + 'seasonal_esd.py'],
     [('fit_score_partial / fit_score', 'pysad/core/base_model.py'), ('fit_transform_partial / fit_transform', 'pysad/core/base_transformer.py, pysad/core/base_postprocessor.py')],
     cmp('ModelProbe', 'TransformerProbe', 'PostprocessorProbe', 'JointModelProbe', 'JointTransformerProbe', 'JointPostprocessorProbe') + rule('combined_overrides'))

prop('C03', 'Caller-supplied data is never modified',
     'No constructor or method writes into an array, list or label vector it was given: instances, batches, labels, initial windows, score matrices and feature ranges hold the same contents after the call as before. '
     'Later calls do not write into them either, even when the component keeps a reference to them.',
     ['inputs', 'histories'], 'every argument of every public method and constructor in every history',
     'Tests compare outputs, not the arguments afterwards; the aliasing must be excluded on every path.',
     ['pysad/core', 'pysad/models', 'pysad/transform', 'pysad/utils', 'pysad/evaluation', 'pysad/statistics'],
     [('every public method and constructor', 'pysad/**')],
     rule('inputs_unmodified'))

prop('C04', 'Scoring, transforming and reading results never change state',
     'Scoring or transforming an instance, and reading a statistic, window or metric, does not influence any later result: a history with such calls inserted anywhere yields the same results for the remaining calls. '
     'Exempt are the label-replaying baseline, random drawing itself, the nearest-neighbour conformal detector\'s alarm cool-down, and the one-off dimension set-up of a projector.',
     ['inputs', 'histories'], 'every component and every insertion of read-only calls into every history',
     'Tests run one interleaving (fit then score per instance); the claim is about all interleavings.',
     ['pysad/models', 'pysad/transform', 'pysad/statistics', 'pysad/evaluation', 'pysad/utils/window.py'],
     [('score_partial / transform_partial / get of every class', 'pysad/**')],
     rule('read_only'))

prop('C05', 'Fitting and updating return the component itself',
     'Every fitting call, single or batch, of a model, transformer or postprocessor, and every update or removal on a statistic or window statistic, returns the very object it was called on, on every path. '
     'Chained calls therefore continue on the same component.',
     ['inputs', 'histories'], 'every fitting/update call on every path of every component',
     'Tests chain calls only on the paths their streams take (e.g. not on warm-up or early-return paths).',
     ['pysad/core', 'pysad/models', 'pysad/transform', 'pysad/statistics'],
     [('fit / fit_partial / update / remove', 'pysad/**')],
     rule('returns_self'))

prop('C06', 'All randomness is governed by the seeds',
     'With the global seeds fixed and the same constructor arguments, every component yields the same results for the same stream: no result depends on time, object identity, hash randomisation, set ordering, process state or an operating-system random source. '
     'The library itself never reseeds a global generator except in the seed-fixing utility and the dataset iterator given an explicit seed, and every private generator is derived from the given seed or a fixed constant.',
     ['inputs', 'histories', 'configurations'], 'every component, stream and seed',
     'Tests run once per process; dependence on process state or reseeding shows only across runs or components.',
     ['pysad/utils/__init__.py', 'pysad/models', 'pysad/transform', 'pysad/utils'],
     [('fix_seed', 'pysad/utils/__init__.py'), ('random draws of models and projectors', 'pysad/models, pysad/transform/projection')],
     cmp('SeedProbe', 'DataProbe') + rule('randomness'))

prop('C07', 'Memory does not grow with the length of the stream',
     'After its window or warm-up has filled, a windowed or constant-memory component keeps a number of stored values bounded by its configuration and the data dimension, however many instances follow. '
     'Only whole-stream components (unlimited window, non-running median/max/min and what uses them, whole-stream metrics, non-windowed conformal calibrator, label queue of the perfect baseline, hash sketches of RS-Hash) may grow.',
     ['histories', 'configurations'], 'every component that is not documented as unbounded, every stream length',
     'Growth is visible only in long runs and in internal state; tests are short and look at outputs.',
     ['pysad/models', 'pysad/transform', 'pysad/statistics', 'pysad/evaluation', 'pysad/utils/window.py'],
     [('window and buffer maintenance of every class', 'pysad/**')],
     rule('bounded_memory'))

prop('C08', 'Instances are independent: no state is shared between them',
     'Using one component never changes the results of another one, of the same or a different class: no method writes to class attributes, module variables, mutable default arguments or caches shared between instances. '
     'Repeated inner parts (trees, chains, components) of one instance are likewise distinct objects.',
     ['histories'], 'every pair of instances and every interleaving of their calls',
     'Tests use one instance of a class at a time.',
     ['pysad/models', 'pysad/transform', 'pysad/statistics', 'pysad/core', 'pysad/utils', 'pysad/evaluation'],
     [('constructors and method bodies of every class', 'pysad/**')],
     rule('no_sharing'))

prop('C09', 'Optional dependencies are needed only by the components that use them',
     'Importing the library or any of its packages requires none of the optional third-party packages; each is imported only when the component that wraps it is constructed or used. '
     'Components that do not wrap an optional package never import it.',
     ['configurations'], 'every set of installed optional packages',
     'The tests run in one environment in which every optional package is installed.',
     ['pysad/__init__.py', 'pysad/models/__init__.py', 'pysad/models', 'pysad/transform', 'pysad/utils'],
     [('module-level imports reachable from the packages', 'pysad/**/__init__.py')],
     rule('lazy_imports'))

prop('C10', 'Constructor defaults are the documented ones and every option takes effect',
     'A component constructed without an option behaves exactly as one constructed with the documented default for it. '
     'Every constructor option influences either the results or the accepted configurations; options and extra keyword arguments for a wrapped estimator, metric or statistic reach it unchanged, and every instance built later gets them too.',
     ['configurations', 'inputs'], 'every option of every public class, every stream',
     'Tests construct mostly with explicit small values or defaults, and do not relate the two.',
     ['pysad/models', 'pysad/transform', 'pysad/statistics', 'pysad/evaluation', 'pysad/utils'],
     [('constructors of every public class', 'pysad/**')],
     rule('defaults', 'options_used') + cmp('WindowedMetric', 'RunningAny', 'ReferenceWindowModel', 'OneFitModel'))

prop('C11', 'Exactly the invalid configurations and inputs are rejected',
     'Unsupported values (unknown subtracted statistic, too short period or window, season length or trend window below one, anomaly budget or significance level out of range, label/row count mismatch in streamers, missing label for the perfect baseline, ROC area of a single class, wrong instance dimension for univariate detectors) raise an error on construction or at the offending call, and valid ones never do. '
     'Acceptance depends on nothing else.',
     ['inputs', 'configurations'], 'every configuration and every input of the validating components',
     'Tests try a few valid and at most one invalid value per option.',
     [M + 'standard_absolute_deviation.py', M + 'seasonal_esd.py', M + 'perfect_model.py', 'pysad/transform/preprocessing', 'pysad/utils/array_streamer.py', 'pysad/utils/pandas_streamer.py', 'pysad/core/base_statistic.py'],
     [('validation in constructors and partial calls', 'pysad/**')],
     cmp('StandardAbsoluteDeviation', 'StandardAbsoluteDeviation/mean', 'SeasonalESD', 'SeasonalHybridESD', 'PerfectModel', 'ModifiedSTLResidualTransformer', 'SeasonalTrendDecomposer', 'ArrayStreamerProbe', 'PandasStreamerProbe', 'MedianAbsoluteDeviation', 'AUROCMetric'))

# ------------------------------------------------------------------ building blocks
prop('C12', 'A window holds exactly the last N values, in order',
     'After any sequence of updates a window of size N returns the last min(N, count) values in arrival order, and reading it twice gives the same values. '
     'The unlimited window returns every value ever added, in order.',
     ['inputs', 'histories', 'configurations'], 'every window size and update sequence',
     TESTS + 'eviction must be right for every size, including one, and every length.',
     ['pysad/utils/window.py'], [('Window.update/get, UnlimitedWindow', 'pysad/utils/window.py')], cmp('Window', 'UnlimitedWindow'))

_S = ['CountMeter', 'SumMeter', 'SumSquaresMeter', 'AverageMeter', 'VarianceMeter', 'MaxMeter', 'MinMeter', 'MedianMeter']
prop('C13', 'A statistic equals its definition over the values currently held',
     'After any sequence of additions and removals (of values currently held), count, sum, sum of squares, mean, variance, maximum, minimum and median equal the defining function of exactly the multiset of values added and not removed, whatever the order and multiplicity. '
     'The variance is the population variance and never negative; reading has no effect.',
     ['inputs', 'histories'], 'every interleaving of additions, removals and reads over real values',
     TESTS + 'removal of duplicates, of the current extremum, down to one or zero elements, and re-use afterwards are not covered.',
     ['pysad/statistics'], [('update/remove/get of the meters', 'pysad/statistics/*.py')], cmp(*_S))

prop('C14', 'A running statistic equals the statistic of the window; an absolute statistic is its magnitude',
     'A running statistic over window size w always equals the wrapped statistic computed from scratch on the last min(w, count) values. '
     'An absolute statistic equals the absolute value of the wrapped statistic over the values held; extra options reach the wrapped statistic.',
     ['inputs', 'histories', 'configurations'], 'every wrapped statistic, window size and sequence of values',
     TESTS + 'eviction errors accumulate and show only after the window wraps, for particular values.',
     ['pysad/statistics/running_statistic.py', 'pysad/statistics/abs_statistic.py', 'pysad/statistics'],
     [('RunningStatistic.update/get', 'pysad/statistics/running_statistic.py'), ('AbsStatistic', 'pysad/statistics/abs_statistic.py')],
     cmp(*(['Running' + s for s in _S] + ['Abs' + s for s in _S] + ['RunningAny'])))

prop('C15', 'Score postprocessors equal their formula over the scores fitted',
     'The average, maximum, median and z-score postprocessors return the mean, maximum, median of, or the standardised score against (mean and population deviation), all scores fitted so far; the running versions use exactly the last w fitted scores. '
     'Transforming a score does not add it to the history.',
     ['inputs', 'histories', 'configurations'], 'every score sequence, window size and transformed score',
     TESTS + 'each only checks agreement on one short random sequence.',
     ['pysad/transform/postprocessing', 'pysad/statistics'], [('fit_partial / transform_partial', 'pysad/transform/postprocessing/*.py')],
     cmp(*[p + n for p in ('', 'Running') for n in ('AveragePostprocessor', 'MaxPostprocessor', 'MedianPostprocessor', 'ZScorePostprocessor')]))

prop('C16', 'Calibrators return the documented tail probability of the reference scores',
     'The conformal calibrator returns the fraction of reference scores strictly greater than the given score, over the last w fitted scores when windowed and over all of them otherwise. '
     'The Gaussian-tail calibrator returns one minus the upper Gaussian tail of the score under the mean and deviation of the reference scores (last w when running, all otherwise), using unit deviation when the reference deviation is zero; every result lies in [0, 1].',
     ['inputs', 'histories', 'configurations'], 'every sequence of fitted scores and every queried score',
     TESTS + 'windowed and unwindowed modes differ only after the window fills.',
     ['pysad/transform/probability_calibration'], [('fit_partial / transform_partial', 'pysad/transform/probability_calibration/*.py')],
     cmp('ConformalProbabilityCalibrator', 'GaussianTailProbabilityCalibrator', 'ConformalProbabilityCalibrator/True', 'ConformalProbabilityCalibrator/False', 'GaussianTailProbabilityCalibrator/True', 'GaussianTailProbabilityCalibrator/False'))

prop('C17', 'Score ensemblers combine exactly the given scores by their rule',
     'Each ensembler maps the row of member scores to the (weighted) mean, maximum, median, average-of-maxima or maximum-of-averages combination computed by the underlying combination library with the configured options, for that row only. '
     'Earlier rows have no influence and fitting changes nothing.',
     ['inputs', 'histories', 'configurations'], 'every score row, number of members and option value',
     TESTS + 'the dependence on options and independence from history is not exercised.',
     ['pysad/transform/ensemble'], [('transform_partial / _combine', 'pysad/transform/ensemble/*.py')],
     cmp('AverageScoreEnsembler', 'MaximumScoreEnsembler', 'MedianScoreEnsembler', 'AverageOfMaximumScoreEnsembler', 'MaximumOfAverageScoreEnsembler'))

prop('C18', 'Scalers apply their formula to the current instance alone',
     'The instance standard scaler returns the instance minus its own mean divided by its own population deviation; the unit-norm scaler divides the instance by its p-norm of the configured order; the identity scaler returns the instance unchanged. '
     'Results depend on no other instance of the stream.',
     ['inputs', 'histories', 'configurations'], 'every stream, instance and norm order',
     TESTS + 'unusual norms and dependence on history are not covered.',
     ['pysad/transform/preprocessing'], [('fit_partial / transform_partial', 'pysad/transform/preprocessing/*.py')],
     cmp('IdentityScaler', 'InstanceStandardScaler', 'InstanceUnitNormScaler'))

prop('C19', 'A projector applies one fixed linear projection for the whole stream',
     'From the first projected instance on, every instance is mapped by the same linear map of the configured output size, drawn once: later fitting calls never redraw or change it. '
     'The stream-hash projector derives each entry from a hash of the feature and component index with the configured density and the variance-preserving scale.',
     ['inputs', 'histories', 'configurations'], 'every instance sequence and projector configuration',
     TESTS + 'linearity and constancy over the stream are never compared across calls.',
     ['pysad/transform/projection'], [('fit_partial / transform_partial', 'pysad/transform/projection/*.py')],
     cmp('StreamhashProjector', 'GaussianRandomProjector', 'SparseRandomProjector'))

prop('C20', 'Streamers yield every row once, with its own label, in the promised order',
     'Without shuffling a streamer yields all rows in their given order, each with its own label (or the row alone when there are no labels). '
     'With shuffling it yields every row exactly once under one random permutation applied alike to rows and labels; a count mismatch between rows and labels is rejected.',
     ['inputs', 'configurations'], 'every array or data frame, with or without labels, any length, shuffled or not',
     TESTS + 'pairing under shuffling and the empty and mismatching cases are not settled by samples.',
     ['pysad/utils/array_streamer.py', 'pysad/utils/pandas_streamer.py', 'pysad/core/base_streamer.py'],
     [('iter', 'pysad/utils/array_streamer.py, pysad/utils/pandas_streamer.py')], cmp('ArrayStreamerProbe', 'PandasStreamerProbe'))

prop('C21', 'Dataset loading keeps rows and labels together and honours the seed',
     'Loading a dataset file returns the feature matrix and the label vector stored in it, read from the file of that name under the configured folder. '
     'The iterator yields every row once with its own label, in file order or in the permutation fixed by the given seed; the range helpers return the column-wise (or overall) minimum and maximum.',
     ['inputs', 'configurations'], 'every dataset, seed and file name',
     'No data files ship with the tests, so loading is practically untested.',
     ['pysad/utils/data.py', 'pysad/utils/__init__.py'], [('Data.get_data / get_iterator', 'pysad/utils/data.py'), ('get_minmax_*', 'pysad/utils/__init__.py')],
     cmp('DataProbe', 'MinMaxProbe'))

prop('C22', 'Metrics equal their definition over all pairs seen',
     'Precision, recall, area under the ROC curve and area under the precision-recall curve equal the standard definition evaluated on exactly the (label, prediction) pairs given so far, in the stated order of arguments, independent of when and how often the metric is read.',
     ['inputs', 'histories'], 'every sequence of labels and predictions, including ties and single-class prefixes',
     TESTS + 'the incremental value is compared with the batch one on one random sequence only.',
     ['pysad/evaluation/metrics.py', 'pysad/evaluation'], [('update / get', 'pysad/evaluation/*.py')],
     cmp('PrecisionMetric', 'RecallMetric', 'AUROCMetric', 'AUPRMetric'))

prop('C23', 'A windowed metric averages per-window metrics without losing pairs',
     'The windowed metric evaluates the wrapped metric separately on consecutive disjoint windows of the configured number of pairs, built with the given options each time, and reports the mean over completed windows (the unfinished last window counting as one more unless it is to be ignored; before the first window completes, the running one is reported). '
     'No pair is dropped or counted in two windows.',
     ['inputs', 'histories', 'configurations'], 'every window size, option and number of pairs',
     TESTS + 'off-by-one at window boundaries shows only for particular counts.',
     ['pysad/evaluation/windowed_metric.py'], [('update / get', 'pysad/evaluation/windowed_metric.py')], cmp('WindowedMetric'))

# ------------------------------------------------------------------ models
prop('C24', 'Reference-window detectors refit on exactly the current window on schedule',
     'A reference-window detector fits a fresh wrapped estimator with the configured options on the given initial window, or, without one, at every instance of the warm-up on all instances so far; after that it refits at every s-th instance on exactly the last w instances (with their labels only when all are known). '
     'Scores come from the most recently fitted estimator evaluated on the given instance alone; the isolation-forest variant is this with sliding size equal to window size.',
     ['inputs', 'histories', 'configurations'], 'every window and sliding size, initial window, labelled or not, every stream',
     TESTS + 'the refit schedule and window contents are internal and depend on counts modulo the sizes.',
     [M + 'integrations/reference_window_model.py', M + 'iforest_asd.py'], [('fit_partial / score_partial / _fit_model', M + 'integrations/reference_window_model.py')],
     cmp('ReferenceWindowModel', 'IForestASD'))

prop('C25', 'The one-fit detector trains once on the initial data and never again',
     'The one-fit wrapper trains the wrapped estimator on the initial data (and labels if given) at construction with the configured options; later fitting calls change nothing. '
     'Each score is the wrapped estimator\'s score of that single instance.',
     ['inputs', 'histories', 'configurations'], 'every wrapped estimator, initial data and stream',
     TESTS + 'tests use one estimator and never compare scores before and after fitting calls.',
     [M + 'integrations/one_fit_model.py'], [('OneFitModel', M + 'integrations/one_fit_model.py')], cmp('OneFitModel'))

prop('C26', 'Deviation detectors score by distance to the statistics of the stream so far',
     'The median-absolute-deviation detector scores an instance by its difference to the running median divided by b times the median of the absolute deviations recorded so far (its magnitude when absolute scoring is on). '
     'The standard-deviation detector divides the difference to the chosen statistic (mean or median) by the standard deviation of all values fitted so far; a tiny constant keeps both finite when the deviation is zero.',
     ['inputs', 'histories', 'configurations'], 'every univariate stream, option combination and query',
     TESTS + 'zero-deviation and signed paths are not covered.',
     [M + 'median_absolute_deviation.py', M + 'standard_absolute_deviation.py', 'pysad/statistics'], [('fit_partial / score_partial', M + '*_absolute_deviation.py')],
     cmp('MedianAbsoluteDeviation', 'StandardAbsoluteDeviation', 'StandardAbsoluteDeviation/mean', 'StandardAbsoluteDeviation/median'))

prop('C27', 'Seasonal ESD scores the newest residual of the bounded window',
     'The seasonal (hybrid) ESD detector keeps exactly the last window of values, decomposes it with the configured period and robustness, and scores the newest value by its test statistic if the generalised ESD test with the configured anomaly budget and significance level flags it, and by zero otherwise. '
     'The plain variant uses mean and sample standard deviation, the hybrid one median and scaled median absolute deviation; while the window is not full the score is zero.',
     ['inputs', 'histories', 'configurations'], 'every univariate stream and valid configuration',
     TESTS + 'the elimination loop and window eviction depend on data and counts.',
     [M + 'seasonal_esd.py'], [('fit_partial / score_partial / ESD elimination', M + 'seasonal_esd.py')], cmp('SeasonalESD', 'SeasonalHybridESD'))

prop('C28', 'Seasonal decomposition transformers return residuals of the bounded window',
     'The decomposition transformers keep exactly the configured number of recent values, index seasons by position in the stream modulo the season length, and return for the current value the residual (and components) given by their decomposition formula. '
     'Transforming alone treats its argument as the next value and does not add it to the history; the combined call fits the value and returns the result for it in place.',
     ['inputs', 'histories', 'configurations'], 'every univariate stream, period, window and trend option',
     TESTS + 'phase and eviction errors show only after several periods.',
     ['pysad/transform/preprocessing'], [('fit_partial / transform_partial', 'pysad/transform/preprocessing/*.py')],
     cmp('ModifiedSTLResidualTransformer', 'SeasonalTrendDecomposer'))

prop('C29', 'LODA scores by negative log density over its random cuts',
     'LODA keeps the configured number of sparse random cuts for the data dimension, and each fitted instance rebuilds every cut\'s smoothed, normalised histogram with the configured number of bins. '
     'The score is the equally weighted sum over all cuts of the negative log probability of the bin the instance\'s projection falls in.',
     ['inputs', 'histories', 'configurations'], 'every stream and configuration',
     TESTS + 'tests check only the score shape.',
     [M + 'loda.py'], [('fit_partial / score_partial', M + 'loda.py')], cmp('LODA'))

prop('C30', 'xStream counts the reference window and scores by the shallow-to-deep minimum',
     'xStream projects each instance, counts it in every chain at every depth for the current window, and exactly every window-size instances makes the current counts the reference, restarts the current ones and sets bin widths to half the ranges of that window (one where the range vanishes). '
     'A score is the mean over chains of the negated minimum over depths of the depth-adjusted log count of the instance\'s reference bin.',
     ['inputs', 'histories', 'configurations'], 'every stream, window size, depth and number of chains',
     TESTS + 'the window hand-over and the depth-dependent scaling are invisible to shape checks.',
     [M + 'xstream.py', 'pysad/transform/projection/streamhash_projector.py'], [('xStream, chains', M + 'xstream.py')], cmp('xStream'))

prop('C31', 'Half-space trees score by reference mass and swap masses every window',
     'Each half-space tree splits the configured feature ranges at midpoints of randomly chosen features down to the configured depth; fitting adds each instance to the mass of every node on its path, and every window-size instances the latest mass becomes the reference mass and restarts at zero (in the first window both count). '
     'The score is the negated sum over trees and path nodes of reference mass times two to the node depth.',
     ['inputs', 'histories', 'configurations'], 'every stream, window size, depth and number of trees',
     TESTS + 'mass hand-over at window boundaries is internal.',
     [M + 'half_space_trees.py'], [('HalfSpaceTrees, nodes', M + 'half_space_trees.py')], cmp('HalfSpaceTrees/1', 'HalfSpaceTrees/2', 'HalfSpaceTrees/3'))

prop('C32', 'RS-Hash scores by decayed counts of the hashed grid cell',
     'RS-Hash grids an instance with each component\'s own random feature subset, offset and cell width, and scores the fitted instance by the mean over components of the logarithm of one plus the smallest decayed sketch count its cell had before it. '
     'Counts decay by the configured rate with the instances elapsed since their last update, and each fit adds one to every sketch for exactly that instance\'s cells.',
     ['inputs', 'histories', 'configurations'], 'every stream, decay, number of components and hash functions',
     TESTS + 'decay and time-stamp handling is invisible to shape checks.',
     [M + 'rs_hash.py'], [('fit_partial / score_partial', M + 'rs_hash.py')], cmp('RSHash', 'RSHash/1'))

prop('C33', 'KitNet maps features, then trains, then only executes',
     'KitNet learns its feature grouping from the instances of the feature-mapping grace period, then trains the autoencoder ensemble and output layer for the configured detector grace period, and afterwards never trains again; groups never exceed the configured size and partition the features. '
     'Scores are the output autoencoder\'s reconstruction error of the ensemble\'s reconstruction errors on the instance, and zero before the grouping exists.',
     ['inputs', 'histories', 'configurations'], 'every stream, grace periods, group size and learning rate',
     TESTS + 'phase boundaries and normalisation ranges are internal.',
     [M + 'kitnet.py', M + 'kitnet_model'], [('KitNet, KitNET, corClust, dA', M + 'kitnet_model/*.py')], cmp('KitNet'))

prop('C34', 'The random-cut forest keeps the newest points and averages displacement',
     'The forest has the configured number of trees and every tree holds exactly the most recent points up to the configured tree size, forgetting the oldest when full. '
     'The score is the mean over all trees of the collusive displacement the instance has (or would have if inserted), and scoring leaves every tree\'s points unchanged.',
     ['inputs', 'histories', 'configurations'], 'every stream, number of trees, tree size and shingle size',
     TESTS + 'eviction starts only beyond the tree size.',
     [M + 'robust_random_cut_forest.py'], [('fit_partial / score_partial', M + 'robust_random_cut_forest.py')], cmp('RobustRandomCutForest'))

prop('C35', 'The conformal nearest-neighbour detector follows its published procedure',
     'The detector embeds the stream in sliding vectors, trains on those of the probationary period, and then scores by the fraction of stored conformity scores below the current sum of nearest-neighbour distances to the training vectors, with a cool-down (constant middle score) of a fifth of the probationary period after an alarm-level score. '
     'After the probationary period the reference sets keep a fixed size, the oldest training vector and stored score being replaced by the newest, and scores are zero before it.',
     ['inputs', 'histories', 'configurations'], 'every univariate stream and probationary period',
     TESTS + 'tests hardly leave the probationary period.',
     [M + 'knn_cad.py'], [('fit_partial / score_partial', M + 'knn_cad.py')], cmp('KNNCAD'))

prop('C36', 'Exact-STORM scores by the share of close neighbours in the window',
     'Exact-STORM keeps exactly the last window of instances and scores an instance by the fraction of the window members, the newest excluded, that lie strictly within the configured radius of it. '
     'With no such members the score is zero.',
     ['inputs', 'histories', 'configurations'], 'every stream, window size and radius',
     TESTS + 'boundary distances and eviction are not covered.',
     [M + 'exact_storm.py'], [('fit_partial / score_partial', M + 'exact_storm.py')], cmp('ExactStorm'))

prop('C37', 'The relative-entropy detector compares the window with known distributions',
     'The detector bins exactly the last window of values into the configured number of equal bins over the configured range and takes the first full window\'s histogram as the hypothesis. '
     'The score is the index of the stored hypothesis with the smallest scaled relative entropy below the chi-squared threshold, minus one when none agrees, and zero before the window is full.',
     ['inputs', 'histories', 'configurations'], 'every univariate stream, range, bin number and window',
     TESTS + 'hypothesis bookkeeping is internal and depends on long histories.',
     [M + 'relative_entropy.py'], [('fit_partial / score_partial', M + 'relative_entropy.py')], cmp('RelativeEntropy'))

prop('C38', 'Local outlier probability fits once and scores new points against that fit',
     'The detector fits the wrapped estimator once on the initial data with the configured extent and neighbour number, and scores each later instance with it. '
     'Fitting calls after construction leave the model as it is.',
     ['inputs', 'histories', 'configurations'], 'every initial sample, configuration and stream',
     TESTS + 'tests check only the score shape.',
     [M + 'loop.py'], [('LocalOutlierProbability', M + 'loop.py')], cmp('LocalOutlierProbability'))

prop('C39', 'Baseline detectors behave as specified',
     'The null model gives every instance the same constant score of one half; the random model scores uniformly at random in [0, 1) independently of the data; the perfect model returns the labels it was given, in order, one per score. '
     'Fitting the null and random models has no effect.',
     ['inputs', 'histories'], 'every stream',
     TESTS + 'the order of replayed labels over arbitrary interleavings is not covered.',
     [M + 'null_model.py', M + 'random_model.py', M + 'perfect_model.py'], [('NullModel, RandomModel, PerfectModel', M + '*.py')],
     cmp('NullModel', 'RandomModel', 'PerfectModel'))

prop('C40', 'Scores always reflect the current parameters, never compiled-in stale ones',
     'A compiled or cached function never captures component state that later fitting can change: after any fitting call the next score is computed from the updated parameters. '
     'This holds for the density-matrix detector after every update.',
     ['histories'], 'every component using compilation or caching; every interleaving of fitting and scoring',
     'Tests check shapes; stale values have the right shape.',
     [M + 'inqmad.py', 'pysad/models', 'pysad/utils'], [('jit-compiled and cached methods', M + 'inqmad.py')], rule('stale_cache'))

# ------------------------------------------------------------------ not applicable
prop('C90', 'Detectors separate anomalies from normal data',
     'On streams containing genuine anomalies each detector ranks anomalous instances above normal ones better than chance.',
     ['inputs'], 'streams drawn from realistic distributions', 'Needs statistical evaluation on data distributions.',
     ['pysad/models'], [('score_partial', 'pysad/models')], [], na='Detection quality is a statistical statement about data distributions; no static argument over the source bounds it.')
prop('C91', 'Incremental statistics stay numerically close to exact arithmetic',
     'For every stream of floating-point values the incremental sum, mean and variance stay within a small relative error of the exact value.',
     ['inputs', 'histories'], 'all floating-point streams', 'Cancellation depends on magnitudes not sampled by tests.',
     ['pysad/statistics'], [('VarianceMeter.get', 'pysad/statistics')], [], na='The sum-of-squares formula has no useful bound over all floating-point streams; the rounding error depends on runtime magnitudes. Only the real-arithmetic identity is decided (C13).')
prop('C92', 'Calibrated scores are valid p-values',
     'Under exchangeable scores the calibrated probabilities are (super-)uniform.',
     ['inputs'], 'exchangeable streams', 'A distributional claim.',
     ['pysad/transform/probability_calibration'], [('transform_partial', 'pysad/transform/probability_calibration')], [], na='A distributional statement about random streams; the formula itself is decided by C16.')
prop('C93', 'Processing time per instance is bounded',
     'The time to process one instance is bounded by a function of the configuration and dimension.',
     ['inputs', 'histories'], 'all streams', 'Wall time on long streams is not tested.',
     ['pysad/models'], [('fit_partial / score_partial', 'pysad/models')], [], na='Run time is dominated by third-party estimators and trees whose cost depends on runtime data; a static bound is out of reach. The memory side is decided by C07.')
