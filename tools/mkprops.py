#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'observe_at': list(observe), 'hook_needed': None}})

D = 'kamrecsys/data/'
p('C01', 'Loading events gives a faithful, bijective internal numbering',
  'After events are set in a data container, for every object type the internal ids 0..n-1 correspond one-to-one to exactly the distinct external ids that occur in the event columns of that type, and the reported numbers of objects, events and columns agree with this. '
  'Translating the stored events back to external ids gives exactly the supplied events, row by row and in order, with the supplied scores and event features attached to the same rows. '
  'This also holds when a container that already holds data is loaded again: nothing of the earlier data remains.',
  ['inputs', 'histories'],
  'Every array of events (any integer or string ids, negative, large, sparse or unsorted, repeated rows, zero rows), every number of object types and assignment of columns to types (permuted, shared by several columns, unused types), and any number of reloads of one container.',
  'The tests load one or two fixed small data sets with the identity assignment of columns to types, and most of them cannot run because the data files are not distributed.',
  [D+'base.py', D+'event.py', D+'event_with_score.py'],
  [('id generation', D+'base.py:ObjectUtilMixin._gen_id'), ('event encoding', D+'event.py:EventData.set_event'), ('scores', D+'event_with_score.py:EventWithScoreData.set_event')],
  ['eid', 'iid', 'n_objects', 'event', 'n_events', 's_event', 'event_otypes', 'score', 'event_feature'])
p('C02', 'Id and event conversions are mutually inverse and reject unknown ids',
  'On data containers and on fitted recommenders, converting an internal id to its external id and back is the identity for every object of every type, and whole events, single or in bulk, are converted element by element with the table of the type of their column. '
  'External ids that were never seen become the documented missing value in the conversion of events (by default the number of objects of that type; otherwise the value given for all columns or for that column), and ValueError in the conversion of a single id; internal ids out of range are ValueError as well, and events of a wrong size are TypeError. '
  'Conversions never change the container or the arrays passed to them.',
  ['inputs', 'histories'],
  'Every container or recommender reachable by loading, filtering and fitting, every id or event, known or not, one row or many, and every missing-value specification.',
  'The tests convert a handful of ids in one data set whose file is not distributed, with two columns of different types.',
  [D+'base.py', D+'event.py'],
  [('single ids', D+'base.py:ObjectUtilMixin.to_eid/to_iid'), ('events', D+'event.py:EventUtilMixin.to_eid_event/to_iid_event')],
  ['to_eid', 'to_iid', 'to_eid_event', 'to_iid_event'])
p('C03', 'Filtering keeps exactly the selected events and renumbers consistently',
  'Filtering events returns a new container holding exactly the selected events in the order given by the condition (boolean mask or index array, repeated indexes included), identified by the same external ids and with their own scores, score domain and event features. '
  'Its objects are exactly those occurring in the selected events, numbered 0..n-1 without gaps in every type, and the result is indistinguishable from loading the selected events into a fresh container, so that chains of filters compose. '
  'The source container is left unchanged, and filtering a container without events returns None.',
  ['inputs', 'histories'],
  'Every container (any sizes, types, column assignments, features), every condition from empty to all-true, and every chain of filters.',
  'The tests filter one small data set with two masks; composition, shared column types, empty selections and index arrays are never exercised.',
  [D+'event.py', D+'event_with_score.py', D+'base.py'],
  [('filter', D+'event.py:EventData.filter_event'), ('score part', D+'event_with_score.py:EventWithScoreData.filter_event'), ('substitution table', D+'base.py:ObjectUtilMixin._gen_id_substitution_table')],
  ['filter_event'])
p('C04', 'Object features always belong to the object they were given for',
  'After a table of object features is set, in any row order and with rows for unknown objects, the feature row at an internal id is the row given for the external id of that object, for every object of that type, and other types are unaffected. '
  'This stays true in every container derived by filtering, however often, while loading new events discards old features instead of attaching them to other objects. '
  'A table that lacks a row for some object is rejected with an error and the previous features are kept.',
  ['inputs', 'histories'],
  'Every container, object type, permutation and superset of the feature table, feature dtype (scalar, structured, multi-column), and history of set_feature, set_event and filter_event.',
  'The tests check a few rows of one undistributed data set after one filter.',
  [D+'base.py', D+'event.py'],
  [('alignment', D+'base.py:BaseData.set_feature'), ('re-alignment', D+'event.py:EventData.filter_event')],
  ['feature', 'set_feature'])
p('C05', 'Score levels, bins, digitization and binarization agree with the domain',
  'For a score domain (min, max, stride) whose range is a whole number of strides, also with decimal strides that are inexact in floating point, the number of levels is range/stride+1, the levels are the equally spaced grid from min to max, there is exactly one bin per level with inner boundaries midway between adjacent levels, and digitizing maps every score to the index of its nearest level, scores beyond the ends to the end levels. '
  'A domain that is not given is estimated as minimum, maximum and smallest gap of the scores, and digitized scores always lie within the number of levels. '
  'Binarization maps scores at or below the threshold (by default the centre of the domain) to 0 and the others to 1 and sets the domain to (0, 1, 1) with two levels.',
  ['inputs'],
  'Every domain, every array of scores and every threshold, on containers as loaded or filtered.',
  'The tests use the domain (1, 5, 1) only, where no rounding occurs.',
  [D+'event_with_score.py', 'kamrecsys/metrics/base.py'],
  [('bins', 'kamrecsys/metrics/base.py:generate_score_bins'), ('levels', D+'event_with_score.py:ScoreUtilMixin.get_score_levels'), ('digitization', D+'event_with_score.py:EventWithScoreData.digitize_score'), ('binarization', D+'event_with_score.py:EventWithScoreData.binarize_score')],
  ['n_score_levels', 'get_score_levels', 'generate_score_bins', 'digitize_score', 'binarize_score'])
p('C06', 'Containers and fitted recommenders are isolated from one another',
  'An operation on one container or recommender never changes what any other live one holds, reports or predicts: not the source of a filter, not earlier or later results of filters, not a recommender fitted on the container, nor the container a recommender was fitted on. '
  'Arrays, lists and dictionaries passed in are not modified, and modifying them afterwards changes nothing in the containers and recommenders that received them.',
  ['histories'],
  'Every interleaving of loading, reloading, feature setting, filtering, binarizing, fitting, refitting, predicting and caller-side mutation over several containers and recommenders that share ancestry.',
  'Tests never keep two related objects alive and mutate one; the number of interleavings is unbounded.',
  [D+'base.py', D+'event.py', D+'event_with_score.py', 'kamrecsys/base/base.py', 'kamrecsys/score_predictor/matrix_factorization.py'],
  [('copy on filter', D+'event.py:EventData.filter_event'), ('copies of tables on fit', D+'base.py:ObjectUtilMixin._set_object_info'), ('copies on load', D+'event.py:EventData.set_event')],
  ['every public attribute and predict()'])
p('C07', 'Predictions are made for the objects named by the external ids',
  'For every fitted recommender, the prediction for an event given by external ids is the model score of exactly the user and the item that stand in the event columns selected for fitting, whatever the numbering of objects, the number of event columns, the column selection and the assignment of columns to object types. '
  'A batch of events yields one value per event in the order given, each equal to the value predicted for that event alone, and the other columns of an event and the other events of a batch have no influence. '
  'Fitting on events whose columns are rearranged, with the column selection rearranged accordingly, yields the same predictions.',
  ['inputs', 'configurations'],
  'Every training set, column selection, column-to-type assignment, id type, batch of known and unknown ids, for PMF, MultinomialPLSA, LogisticPMF and ImplicitLogisticPMF.',
  'The tests predict a few events of one data set with two identity-mapped columns; the recommenders cannot be tested without its undistributed file.',
  ['kamrecsys/base/base.py', 'kamrecsys/score_predictor/matrix_factorization.py', 'kamrecsys/score_predictor/topic_model.py', 'kamrecsys/item_finder/matrix_factorization.py', 'kamrecsys/item_finder/base.py', D+'event.py'],
  [('column selection', 'kamrecsys/base/base.py:BaseEventRecommender.fit'), ('prediction', 'kamrecsys/base/base.py:BaseEventRecommender.predict'), ('implicit array', 'kamrecsys/item_finder/base.py:BaseImplicitItemFinder.get_event_array')],
  ['predict'])
p('C08', 'Unknown users and items are predicted neutrally and never fail',
  'Predicting for a user or an item that did not occur in the training data always succeeds with a finite value and leaves the predictions for other events of the batch unchanged. '
  'In the factorization models an unknown object contributes no bias and no cross term, so that only the global mean and the bias of the known counterpart remain; in the latent class model it contributes no evidence about the class. '
  'All unknown objects of a role are treated alike.',
  ['inputs'],
  'Every fitted recommender, every combination of known and unknown ids in every column, alone and in batches.',
  'The tests query one or two unknown ids of one data set that is not distributed.',
  ['kamrecsys/base/base.py', D+'event.py', 'kamrecsys/score_predictor/matrix_factorization.py', 'kamrecsys/score_predictor/topic_model.py', 'kamrecsys/item_finder/matrix_factorization.py'],
  [('missing ids', D+'event.py:EventUtilMixin.to_iid_event'), ('extra parameter rows', 'kamrecsys/score_predictor/matrix_factorization.py:PMF.fit'), ('extra class rows', 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.fit')],
  ['predict'])
p('C09', 'Fitting is reproducible, replaces the old model and drops training data',
  'With a fixed integer seed, fitting is a function of the training data, the column selection and the hyper-parameters: it does not depend on what the same recommender was fitted on before, on other recommenders, or on the global random state. '
  'After a fit the recommender describes its training data correctly (numbers of users, items, events, parameters), reports its losses as finite numbers together with the status and counts of its optimizer, and holds no reference to training events, event features or scores. '
  'A fit that is refused because the data is of an unsuitable kind leaves the previous model usable and unchanged.',
  ['histories'],
  'Every sequence of fits, refits and refused fits on any data and any seed, of every recommender class.',
  'The tests fit each recommender once on one undistributed data set; refits and refusals are never exercised.',
  ['kamrecsys/base/base.py', 'kamrecsys/score_predictor/base.py', 'kamrecsys/item_finder/base.py', 'kamrecsys/score_predictor/matrix_factorization.py', 'kamrecsys/score_predictor/topic_model.py', 'kamrecsys/item_finder/matrix_factorization.py'],
  [('random state', 'kamrecsys/base/base.py:BaseRecommender.fit'), ('clean up', 'kamrecsys/base/base.py:BaseEventRecommender.remove_data'), ('results', 'kamrecsys/score_predictor/matrix_factorization.py:PMF.fit')],
  ['fit', 'fit_results_', 'event', 'score', 'event_feature'])
p('C10', 'PMF optimizes and predicts with the documented factor model',
  'The prediction of PMF is the global bias plus user bias plus item bias plus the inner product of the factors, and the objective handed to the optimizer is, at every parameter vector, half the sum of squared residuals of that prediction over all training events plus C/2 times the squared norms of all biases and factors except the global bias. '
  'The gradient handed to the optimizer is the exact derivative of that objective with respect to every parameter. '
  'The fitted parameters are those returned by the optimizer, the reported losses are the objective at the starting and at the final parameters, and with the default optimizer the loss never increases. The optimizer receives the options the recommender was created with, a limit of zero iterations included.',
  ['inputs'],
  'Every training set (repeated events, single events, any number of factors, any C), every parameter vector, every event.',
  'The tests compare loss and gradient at one hand-computed point of one undistributed data set.',
  ['kamrecsys/score_predictor/matrix_factorization.py'],
  [('objective', 'kamrecsys/score_predictor/matrix_factorization.py:PMF.loss'), ('gradient', 'kamrecsys/score_predictor/matrix_factorization.py:PMF.grad_loss'), ('model', 'kamrecsys/score_predictor/matrix_factorization.py:PMF.raw_predict')],
  ['loss and gradient passed to scipy.optimize.minimize', 'mu_, bu_, bi_, p_, q_', 'predict', 'fit_results_'])
p('C11', 'LogisticPMF accepts only binary scores and predicts probabilities',
  'LogisticPMF accepts exactly data whose score domain is (0, 1, 1) with two levels and whose scores are 0 or 1 with both occurring, and refuses other data with ValueError, and data without scores with TypeError. '
  'Its prediction is the sigmoid of the sum of global bias, user bias, item bias and inner product of the factors, strictly between 0 and 1 even for extreme parameters, and the objective handed to the optimizer is the cross entropy of that prediction summed over all training events plus C/2 times the squared norms of all biases and factors except the global bias. '
  'The gradient handed to the optimizer is the exact derivative of that objective, and the fitted parameters and reported losses are those of the optimizer, which receives the options the recommender was created with.',
  ['inputs'],
  'Every data set, binary or not, every parameter vector and event, any number of factors and any C.',
  'The tests compare loss and gradient at one point of one undistributed data set and try two kinds of invalid data.',
  ['kamrecsys/item_finder/matrix_factorization.py', 'kamrecsys/item_finder/base.py', 'kamrecsys/utils/kammath.py', 'kamrecsys/utils/base.py'],
  [('validation', 'kamrecsys/item_finder/base.py:BaseExplicitItemFinder.fit'), ('objective and gradient', 'kamrecsys/item_finder/matrix_factorization.py:LogisticPMF.loss/grad_loss'), ('sigmoid', 'kamrecsys/utils/kammath.py:safe_sigmoid')],
  ['fit', 'predict', 'loss and gradient passed to scipy.optimize.minimize'])
p('C12', 'Implicit feedback is a 0/1 matrix over all user-item pairs',
  'ImplicitLogisticPMF regards a user-item pair as positive exactly if it occurs at least once among the training events, however often, and every other pair of known users and items as negative. '
  'The objective handed to the optimizer is the cross entropy of the sigmoid prediction summed over all pairs of known users and items plus C/2 times the squared norms of all biases and factors except the global bias, and the gradient is its exact derivative. '
  'The optimizer receives the options the recommender was created with, and the fitted parameters and reported losses are its own. '
  'Predictions are sigmoid values strictly between 0 and 1 for the objects named by the external ids.',
  ['inputs'],
  'Every set of events (repeated, single, any column selection), every parameter vector, any number of factors and any C.',
  'The tests use one undistributed data set without repeated events and with identity-mapped columns.',
  ['kamrecsys/item_finder/base.py', 'kamrecsys/item_finder/matrix_factorization.py'],
  [('0/1 array', 'kamrecsys/item_finder/base.py:BaseImplicitItemFinder.get_event_array'), ('objective and gradient', 'kamrecsys/item_finder/matrix_factorization.py:ImplicitLogisticPMF.loss/grad_loss')],
  ['predict', 'loss and gradient passed to scipy.optimize.minimize', 'fit_results_'])
p('C13', 'MultinomialPLSA keeps proper distributions and performs exact EM steps',
  'After every fit the latent class distribution sums to one and so do, for each class, the distributions of users, items and scores, with non-negative entries, and one more iteration changes the parameters exactly by the expectation and maximization steps of the three-way model with Laplace smoothing alpha, so that without smoothing the reported negative log-likelihood per event never increases. '
  'For a user and an item that have a positive probability, which smoothing guarantees, predictions are the expectation of the score levels under the distribution of scores given the user and the item, hence within the score domain, or its most probable level if the mode is requested. '
  'The reported status is success exactly if the tolerance was reached within the permitted iterations, and the reported loss and number of iterations are those of the final parameters.',
  ['inputs', 'histories'],
  'Every training set, number of classes, smoothing, seed, tolerance and permitted number of iterations, every event.',
  'The tests fit one undistributed data set and check one predicted value.',
  ['kamrecsys/score_predictor/topic_model.py'],
  [('EM', 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.fit/maximization_step'), ('likelihood', 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.loss'), ('prediction', 'kamrecsys/score_predictor/topic_model.py:MultinomialPLSA.raw_predict')],
  ['pZ_, pXgZ_, pYgZ_, pRgZ_', 'fit_results_', 'predict'])
M = 'kamrecsys/metrics/'
p('C14', 'Prediction error metrics and reports equal their definitions',
  'For all true and predicted scores, the mean absolute error, mean squared error, root mean squared error and the standard deviations of the absolute and squared errors equal their mathematical definitions, and the score predictor report and statistics contain exactly these values together with the number of samples and the mean and standard deviation of true and predicted scores. '
  'The values do not depend on the order of the samples or on the numeric type of the inputs, and the inputs are not modified. '
  'Inputs of different lengths or with non-finite values are rejected with ValueError.',
  ['inputs'],
  'Every pair of score arrays of any length, order, list or array, integer, boolean or floating type.',
  'The tests evaluate a few fixed vectors.',
  [M+'real.py', M+'score_predictor.py'],
  [('errors', M+'real.py:mean_absolute_error/mean_squared_error'), ('reports', M+'score_predictor.py:score_predictor_report/score_predictor_statistics')],
  ['return values'])
p('C15', 'Score histograms count every score once, in the bin of its nearest level',
  'A score histogram over a score domain has one bin per possible score level in ascending order, reports exactly those levels, and counts every score exactly once in the bin of its nearest level, scores beyond the ends in the end bins, so that the counts sum to the number of scores and agree with digitization of the same scores by a container of that domain. '
  'If a number of bins is given, the range of the scores is divided into that many equal bins. '
  'The histograms, densities and score levels in the statistics of score predictors are these.',
  ['inputs'],
  'Every score domain whose range is a whole number of strides (decimal strides included) and every array of scores.',
  'The tests use the domain (1, 5, 1) and a few scores.',
  [M+'real.py', M+'base.py', M+'score_predictor.py', D+'event_with_score.py'],
  [('bins', M+'base.py:generate_score_bins'), ('histogram', M+'real.py:score_histogram'), ('statistics', M+'score_predictor.py:score_predictor_statistics')],
  ['return values'])
p('C16', 'Item-finder statistics equal their definitions, AUC included',
  'The area under the curve in the item finder report and statistics is the probability that a random positive sample is scored above a random negative one, ties counting one half, and it is reported exactly if both classes occur; the number of samples and the means and standard deviations of true and predicted scores are exact. '
  'True scores other than 0 and 1, inputs of different lengths and non-finite values are rejected with ValueError. '
  'A score array counts as binary exactly if its values are 0 or 1, and, when a uniform array is not allowed, both occur.',
  ['inputs'],
  'Every pair of arrays of true and predicted scores, with ties, uniform arrays and every numeric type.',
  'The tests evaluate a few fixed vectors.',
  [M+'item_finder.py', 'kamrecsys/utils/base.py'],
  [('report', M+'item_finder.py:item_finder_report/item_finder_statistics'), ('binary check', 'kamrecsys/utils/base.py:is_binary_score')],
  ['return values'])
p('C17', 'Helper statistics: smoothed variance and means over folds are exact',
  'The variance with gamma prior equals (2b + sum of squares - square of sum / n) / (2a + n) over the finite values of its input and is always positive, reports the number of values used, refuses inputs without any finite value, and, when finite values are enforced, refuses any non-finite value. '
  'The mean of a statistic over paired folds equals the mean of the values of the statistic on the individual folds, with folds paired by key for dictionaries and by position for lists, for scalar and vector-valued statistics; a fold that one of the arguments lacks is refused.',
  ['inputs'],
  'Every array of any shape and numeric type, with and without non-finite values; every number of folds, keys and arguments.',
  'The tests evaluate two vectors and one dictionary of two folds.',
  [M+'real.py', M+'base.py'],
  [('variance', M+'real.py:variance_with_gamma_prior'), ('fold means', M+'base.py:statistics_mean')],
  ['return values'])
S = 'kamrecsys/model_selection/split.py'
p('C18', 'Group-wise and interlaced k-folds partition the data and balance groups',
  'The test sets of the k folds are pairwise disjoint and cover all samples, and each training set is the complement of its test set. '
  'Within every group the numbers of samples of the group in the k test sets differ by at most one, in contiguous runs of the group without shuffling; the interlaced variant puts sample i into fold i mod k. '
  'With a fixed seed the folds are reproducible, and fewer than two folds or more folds than samples (or than members of a group) are refused with ValueError.',
  ['inputs', 'configurations'],
  'Every number of samples, every labelling by groups, every number of folds, shuffled or not, every seed.',
  'The tests check one labelling of 13 samples, and the module cannot even be imported by them with the installed libraries.',
  [S], [('group-wise folds', S+':KFoldWithinGroups'), ('interlaced folds', S+':InterlacedKFold')], ['split', 'get_n_splits'])
p('C19', 'Shuffle splits within groups respect the requested sizes in every group',
  'Every split yields disjoint training and test sets such that every group contributes to each of them exactly the number of samples that the requested sizes demand for a group of its size: a fraction of the group rounded up for the test set and down for the training set, or an absolute number, and the complement if a size is not given. '
  'The requested number of splits is produced, with a fixed seed the sequence of splits is reproducible, different splits are drawn independently, and without shuffling the training samples precede the test samples in each group. '
  'Sizes that leave some group without training or test samples are refused with ValueError.',
  ['inputs', 'configurations'],
  'Every number of samples, labelling by groups, requested sizes (fraction, absolute, missing), number of splits and seed.',
  'The tests check two labellings with one seed, and the module cannot even be imported by them with the installed libraries.',
  [S], [('splits', S+':ShuffleSplitWithinGroups')], ['split', 'get_n_splits'])
L = 'kamrecsys/datasets/'
p('C20', 'Event files are loaded row by row without loss or misplacement',
  'Loading a tab separated event file yields a container whose events, scores and event features, expressed in external ids, are exactly the lines of the file in order, with comment and blank lines ignored, for every number of id columns, assignment of columns to object types, event feature type and number of lines including one. '
  'Scores are exactly the double precision numbers that the text denotes. A file in which some row has a missing or a surplus column is rejected with an error instead of being loaded in part. '
  'The score domain is the one requested, or estimated from the scores if none is requested. '
  'The loaders of the sample data sets additionally attach to every user and item the features that the accompanying files give for its id, ignoring unrated ones, and use the documented score domain.',
  ['inputs'],
  'Every well-formed event, user and item file.',
  'The tests need the original data files, which are not distributed; only one artificial file of one format is loaded.',
  [L+'base.py', L+'movielens.py', L+'flixster.py', L+'sushi3.py', L+'others.py'],
  [('event files', L+'base.py:load_event/load_event_with_score'), ('data sets', L+'movielens.py, sushi3.py, flixster.py, others.py')],
  ['load_* functions'])
p('C21', 'Converters preserve the original data sets',
  'Converting an original distribution (MovieLens 100k, its mini subset, MovieLens 1M, Flixster, SUSHI3) and loading the result gives exactly the original ratings, and user and item attributes with the documented encodings: gender 0 for male and 1 for female, occupation and age codes, the five character zip code, title, release date or year, genre flags in the documented order, address, and the numeric attributes of users and sushis. '
  'The mini data set consists of exactly those events of MovieLens 100k whose user and item ids are at most 10, in order. '
  'Unrated entries of the sushi score matrix produce no event and users are numbered by line.',
  ['inputs'],
  'Every well-formed original distribution, with any ids, attributes, missing dates, accented titles and unrated objects.',
  'The converters have no tests at all, and the original files are not distributed.',
  ['data/movielens100k.py', 'data/movielens_mini.py', 'data/movielens1m.py', 'data/flixster.py', 'data/sushi3.py', L+'movielens.py', L+'sushi3.py', L+'flixster.py'],
  [('converters', 'data/*.py'), ('loaders', L+'movielens.py:load_movielens100k/load_movielens_mini/load_movielens1m')],
  ['generated files', 'load_* functions'])
X = 'scripts/'
p('C22', 'Experiments never train on test data and record aligned, truthful results',
  'In every fold of a cross validation, the model is fitted only on the events outside the test set of the fold, the test set takes the requested fraction of the events of every user, and events, true scores, predicted scores, masks and event features of the fold in the output refer to the same events in the same order: the true scores are those of the input file and the predicted scores are those of a model fitted on the complement. '
  'A hold-out experiment is fitted on the training file only and its output aligns with the test file. '
  'The output also records truthfully the files, scheme, number of folds, sizes, hyper-parameters, score domain, fitting results and, in order, start and end times with the elapsed time between them.',
  ['inputs', 'configurations'],
  'Every input file, scheme, number of folds, method, seed and option of the experiment scripts.',
  'The scripts have no tests.',
  [X+'exp_recsys_util.py', X+'exp_recsys_sp.py', X+'exp_recsys_if.py'],
  [('cross validation', X+'exp_recsys_util.py:cv_test'), ('hold-out', X+'exp_recsys_util.py:holdout_test'), ('options', X+'exp_recsys_sp.py:init_info')],
  ['JSON output of the scripts'])
p('C23', 'Running folds separately and merging equals running all folds at once',
  'For a fixed seed, running the folds of a cross validation one at a time, in any order, and merging the results gives the same fold assignment, events, true and predicted scores, event features, and training and test records, fold by fold, as running all folds in one go. '
  'The merge keeps the results of all its inputs, each of a single fold, under their fold numbers and the computing environment of every fold, and loses or mixes up none of them. '
  'A fold number outside the number of folds is refused.',
  ['configurations', 'histories'],
  'Every number of folds, partition of folds into runs, order of runs and of merging, method, seed and input file.',
  'The scripts have no tests.',
  [X+'exp_recsys_fold_merge.py', X+'exp_recsys_util.py'],
  [('merge', X+'exp_recsys_fold_merge.py:first_fold/rest_fold'), ('single fold', X+'exp_recsys_util.py:cv_test')],
  ['JSON output of the scripts'])
p('C24', 'Statistics and JSON output preserve the recorded values',
  'The statistics script computes its statistics from exactly the true and predicted scores recorded in a result, all folds pooled with true and predicted scores of a fold paired, for the score domain recorded in it, keeps all other recorded information, and drops or keeps the predictions as requested. '
  'Converting nested results for JSON output replaces every numpy or sparse array, numpy number and numpy boolean at any depth by the plain value of the same structure and value, leaves plain numbers, truth values and strings unchanged, and makes the result serializable.',
  ['inputs'],
  'Every result of the experiment scripts, and every nesting of dictionaries and lists with arrays of any shape and of any real number, boolean, string or object type.',
  'The scripts and the conversion have no tests.',
  [X+'stats_recsys.py', 'kamrecsys/utils/kamexputils.py'],
  [('statistics', X+'stats_recsys.py:do_task'), ('conversion', 'kamrecsys/utils/kamexputils.py:json_decodable')],
  ['JSON output of the scripts'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
