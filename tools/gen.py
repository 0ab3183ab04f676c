#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from the texts below.
Only properties whose check exists under checks/ are written."""
import json
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/lop/'
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, state=None):
    a = dict(files=[S + f for f in files],
             mechanism=[dict(name=n, where=S + w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    a['hook_needed'] = None
    P.append(dict(prop=dict(id=id, title=title, statement=statement,
                            quantifier=dict(over=over, text=quant), why_tests_cant=why,
                            anchors=a), technique=technique, note=note))


PM = 'models/PreferenceModel.py'
PGP = 'models/PreferenceGP.py'
PB = 'probits/'

prop('C01', 'The model holds exactly the samples and labels that were given to it',
     'After any sequence of calls adding comparisons, ordinal ratings or absolute ratings, the model '
     'holds every sample once per call that brought it, in order, and every label still refers to the '
     'sample and value it was given for. A comparison stated in either notation or direction is stored as '
     'the same winner over the same loser. A call rejected because its labels are invalid raises an '
     'error and leaves samples and labels as they were.',
     ['histories', 'inputs'],
     'all sequences of additions of every label type, notation and index form, including rejected '
     'calls, on both preference models, with and without dominance pairs',
     'The tests add one or two fixed batches and look at a few entries; index offsets between batches and '
     'between label types only go wrong for particular sequences.',
     [PM, PGP, 'models/PreferenceLinear.py', 'probits/PreferenceProbit.py'],
     [('index offsetting and label append', PM + ':PreferenceModel.add'),
      ('append_data, check_y', PM), ('dominance pairs', 'utilities/preference_pairs.py')],
     'stateful model-based property testing (hypothesis) against a reference bookkeeping model',
     'random histories of up to 8 additions; compared after every step with an independent reference',
     state=[('X_train', 'samples', PM), ('y_train', 'labels per type', PM)])

prop('C02', 'Prior points are kept where used, dropped where not, and do not disturb labels',
     'Adding prior points to a model with dominance pairs keeps all rated and compared samples and their '
     'labels, removes exactly the samples no label refers to, and reports as prior points exactly the '
     'prior points that remain. Prior points drawn at random lie within the requested bounds, have the '
     'requested count and include the two extreme corners. A model without dominance pairs is unchanged.',
     ['histories', 'configurations'],
     'all histories of additions before and after prior points, given exactly or drawn in generated bounds',
     'The tests call it once on an almost empty model; re-indexing of labels only matters when several label '
     'types and unused samples interleave.',
     [PM], [('add_prior', PM), ('remove_without_reference', PM), ('get_prior_pts', PM)],
     'stateful model-based property testing (hypothesis) against a reference bookkeeping model',
     'up to 6+6 exact prior points or up to 25 random ones',
     state=[('prior_idx', 'range of prior points among the samples', PM)])

prop('C07', 'Label likelihoods are proper probabilities with the documented meaning',
     'For every latent value and parameter setting the probability of a comparison and its reverse sum to '
     'one, the probabilities of all ordinal categories sum to one, and the density of an absolute rating '
     'integrates to one over its range and has the documented mean. More preferred options are more '
     'likely to win, higher latent values more likely to be rated higher. The log-likelihood of a data set '
     'is the sum of its labels\' log-likelihoods for every label type and for the whole model.',
     ['inputs', 'configurations'],
     'all latent vectors, label sets and probit parameters in the stated ranges',
     'The tests pin a few numbers at default parameters; normalisation and additivity are statements about '
     'every value.',
     [PB + 'PreferenceProbit.py', PB + 'OrdinalProbit.py', PB + 'AbsBoundProbit.py'],
     [('log_likelihood / likelihood', PB + '*.py'), ('log_likelyhood_training', PM)],
     'property-based testing (hypothesis) against independent reference likelihoods and normalisation laws',
     'latent values within +-6, parameters over two orders of magnitude')

prop('C08', 'Likelihood derivatives equal the derivatives of the likelihood',
     'The gradient and Hessian that each label type reports with respect to the latent values, and its '
     'derivatives with respect to its own parameters, are the true derivatives of the log-likelihood it '
     'reports, for every label set including samples that carry several labels. The reported matrices are '
     'symmetric and the model-wide gradient and Hessian are the sums over label types.',
     ['inputs', 'configurations'],
     'all latent vectors, label sets (with repeated and shared samples) and probit parameters in range',
     'Tests compare a few entries with finite differences at one fixed data set; terms that vanish there are '
     'never exercised.',
     [PB + 'PreferenceProbit.py', PB + 'OrdinalProbit.py', PB + 'AbsBoundProbit.py'],
     [('derivatives', PB + '*.py'), ('calc_W_dF, calc_W_dHyper, grad_hyper', PB + '*.py'),
      ('derivatives over all label types', PM)],
     'property-based testing (hypothesis), differential against complex-analytic contour derivatives',
     'first, second and third derivatives at up to 6 samples and 8 labels')

prop('C09', 'Kernels give valid covariances that agree with their documented function',
     'For every point set and parameter value, the covariance matrix of a kernel, or of sums and products '
     'of kernels, has as entries the documented function of the two points, agrees with the pointwise '
     'value, is symmetric and positive semi-definite, and does not depend on the order or grouping in which '
     'points are given. Translation leaves stationary kernels unchanged.',
     ['inputs', 'configurations', 'programs'],
     'all kernel expressions of depth up to 3 over RBF, zeroed RBF, periodic (1-D for definiteness) and linear, '
     'all generated parameters and point sets',
     'Tests evaluate each kernel at one or two fixed points.',
     ['kernels/RBF_kern.py', 'kernels/RBF_kern_zeroed.py', 'kernels/PeriodicKern.py',
      'kernels/LinearKern.py', 'kernels/KernelFunc.py'],
     [('cov', 'kernels/*.py'), ('__call__', 'kernels/*.py')],
     'property-based testing (hypothesis) against reference kernels, eigenvalue and metamorphic checks',
     'random kernel expressions, up to 8 points in up to 3 dimensions')

prop('C10', 'Kernel parameters round-trip and kernel gradients match the covariance',
     'Setting kernel parameters and reading them back returns the same values, in the same order, for every '
     'kernel and combination, and setting them has the same effect as building the kernel with them. The '
     'reported parameter gradients are the derivatives of the covariance, and the reported log-prior and its '
     'gradient agree with each other and with the documented gamma prior. Random parameters are drawn for '
     'every part of a combined kernel and are valid.',
     ['inputs', 'configurations', 'programs'],
     'all kernel expressions, parameter vectors and point sets in range',
     'Tests check gradients of single kernels at one point pair; a wrong order of parameters in combinations or '
     'a factor in one entry is invisible there.',
     ['kernels/RBF_kern.py', 'kernels/RBF_kern_zeroed.py', 'kernels/PeriodicKern.py',
      'kernels/LinearKern.py', 'kernels/KernelFunc.py'],
     [('gradient, cov_gradient', 'kernels/*.py'), ('get_param, set_param', 'kernels/*.py'),
      ('param_likli, grad_param_likli', 'kernels/KernelFunc.py')],
     'property-based testing (hypothesis), round-trip and complex-step derivative oracle',
     'random kernel expressions, up to 6 points')

prop('C03', 'The fitted latent values are the maximum of the posterior',
     'After fitting, the latent values at the samples are the maximum of the posterior of the data under '
     'the kernel prior: the posterior gradient vanishes there, it curves downwards, and with comparisons and '
     'ordinal ratings no other latent values are more probable, whatever the starting point. Samples '
     'without labels do not disturb the fit. Normalised models stay within their scale.',
     ['inputs', 'configurations'],
     'all data sets of comparisons, ordinal and absolute ratings, kernels and label parameters in range, '
     'with default and tight stopping thresholds',
     'Tests look at the ordering of a few predictions on fixed data; a fit that stops early or optimises a '
     'slightly different objective still orders them.',
     [PGP, PM, PB + 'PreferenceProbit.py', PB + 'OrdinalProbit.py', PB + 'AbsBoundProbit.py'],
     [('find_mode, newton_update', PGP), ('derivatives over all label types', PM),
      ('normalize_positive, use_hyper flags', PGP)],
     'property-based testing (hypothesis) against an independent posterior (stationarity, curvature, global mode)',
     'up to 16 samples of up to 3 features, six kernel families')

prop('C04', 'Predictions are the documented posterior mean and covariance at any query',
     'Predicted means and variances are those of the Gaussian approximation around the fitted latent values, '
     'for every query set including training samples. They do not depend on the order, repetition or grouping '
     'of queries, and the block-wise prediction of large query sets equals the direct one. Variances are never '
     'negative, and for comparisons and ordinal ratings never above the prior variance.',
     ['inputs', 'configurations'],
     'all fitted models of C03 and all query sets, orders, groupings and block sizes',
     'Tests predict at one grid and check shapes or ordering; wrong covariances, order dependence or block '
     'boundaries are not visible.',
     [PGP], [('predict, predict_latent', PGP), ('predict_large', PGP)],
     'property-based testing (hypothesis), differential against a reference posterior plus metamorphic relations',
     'up to 8 queries against the reference, up to 20 for block-wise prediction')

prop('C05', 'Predictions depend on the meaning of the data, not on how it is presented',
     'Giving the same comparisons and ratings in another order, notation or grouping, or with unused samples '
     'in between, leaves predictions unchanged. Reversing every comparison mirrors the predicted means, '
     'translating the feature space leaves stationary models unchanged, and rescaling values with their '
     'parameters rescales predictions. Repeating a comparison or raising a rating never lowers the '
     'favoured sample.',
     ['inputs', 'histories'],
     'all data sets of comparisons and ordinal ratings and all listed transformations of them',
     'Needs pairs of related runs over arbitrary data, while tests check single runs on fixed data.',
     [PGP, PM, PB + 'PreferenceProbit.py', PB + 'OrdinalProbit.py'],
     [('add with index offsets', PM), ('find_mode, predict', PGP)],
     'property-based testing (hypothesis), metamorphic relations between whole-model runs',
     'up to 4 additions of up to 4 samples, up to 5 queries')

prop('C06', 'A model answers from its current data whatever was asked of it before',
     'After any history of additions, rejected additions, predictions, fits, prior points and resets, a '
     'preference model answers exactly as a fresh model given the data added since the last reset. Models '
     'do not influence each other, and asking never changes the data or later answers.',
     ['histories'],
     'all interleavings of operations on two models at once, with all query kinds',
     'A stale fit only shows after particular sequences (add after fit, reset after fit, rejected addition), '
     'which the tests do not enumerate.',
     [PGP, PM], [('optimized flag', PM), ('reset', PGP), ('predict fits on demand', PGP)],
     'stateful differential property testing (hypothesis) against freshly built models',
     'two models, up to 9 interleaved operations',
     state=[('optimized', 'is the fit current', PM), ('F', 'latent values', PGP)])

prop('C11', 'Hyper-parameter handling is consistent and tuning moves towards better models',
     'Reading and setting hyper-parameters round-trips for every combination of fixed and free kernel and label '
     'parameters, and random draws only change free ones. The prior and the model evidence have gradients that '
     'are the derivatives of their own values, and the evidence is the documented one. A step of '
     'tuning moves the free parameters towards higher evidence and prior, and tuning leaves valid parameters and a '
     'model fitted with them to all its data.',
     ['inputs', 'configurations'],
     'all combinations of kernels, fixed and free parameters and data sets in range',
     'Tests run one optimisation and check that it ends; offsets of parameters and wrong gradient entries are '
     'invisible.',
     [PGP, PM, PB + 'ProbitBase.py', PB + 'AbsBoundProbit.py', PB + 'PreferenceProbit.py',
      'kernels/KernelFunc.py'],
     [('get_hyper, set_hyper, randomize_hyper', PGP), ('hyper_liklihood, grad_hyper_liklihood, likli_f_hyper, grad_likli_f_hyper, hyperparameter_search', PGP),
      ('probit parameter priors', PB + '*.py')],
     'property-based testing (hypothesis), round-trip, derivative and evidence oracles',
     'evidence gradient by central differences of an independent formula; searches on up to 10 samples')

prop('C12', 'The regression process equals textbook Gaussian process regression',
     'For every history of additions, resets and predictions the regression model returns the textbook '
     'posterior mean and covariance for the data added since the last reset, with any prior mean function and '
     'noise given as one number or one per sample. With little noise it passes through the data.',
     ['histories', 'inputs', 'configurations'],
     'all histories of additions with scalar, list or array noise, resets and predictions, with any '
     'supported kernel and prior mean',
     'Tests fit one fixed data set once; noise layout and repeated addition go wrong only across batches.',
     ['models/GP.py'], [('add', 'models/GP.py'), ('predict, optimize', 'models/GP.py')],
     'stateful differential property testing (hypothesis) against a reference regression',
     'up to 6 operations of up to 5 samples',
     state=[('X_train, y_train', 'samples and values', 'models/GP.py')])

prop('C13', 'The linear preference model finds the maximum-likelihood weights',
     'Whenever the data determine them, the fitted weights of the linear model maximise the likelihood of all '
     'its labels, and predictions are the weighted sum of the features. The likelihood, gradient and curvature '
     'it reports for the weights are those of its labels. After any history of additions, predictions, fits '
     'and resets it answers from its current data.',
     ['histories', 'inputs'],
     'all data sets and histories with at least two features and determined weights',
     'Tests fit one or two fixed sets and check the sign of predictions.',
     ['models/PreferenceLinear.py', PM],
     [('optimize, loss_func, derivatives', 'models/PreferenceLinear.py'),
      ('predict, reset', 'models/PreferenceLinear.py')],
     'property-based and stateful testing (hypothesis) against an independent maximum-likelihood fit',
     'up to 5 additions; data that leave a direction of the weights free are a recorded known finding',
     state=[('w', 'weights', 'models/PreferenceLinear.py')])

# ---------------------------------------------------------------------------------------
AL = 'active_learning/'

prop('C14', 'Selecting points to ask about honours the query for every learner and model',
     'A selection returns exactly the requested number of different candidate indices, none of them '
     'selected before, preferred points first as long as any are left, with the best predicted point first '
     'when that is asked for. Points reported as passed over are unprefered candidates the learner liked '
     'better than the ones it took. Asking for more points than are free is an error, and the caller\'s '
     'arguments are not changed.',
     ['inputs', 'configurations', 'histories'],
     'all candidate sets, query sizes, earlier selections and forms of preference, for each learner with each '
     'model it supports, over repeated queries',
     'The tests ask for one typical query per learner; conflicts between preferred points, earlier selections '
     'and best-first only show for particular combinations.',
     [AL + 'ActiveLearner.py', AL + 'BestLearner.py', AL + 'RandomLearner.py', AL + 'UCBLearner.py',
      AL + 'AcquisitionBase.py', 'models/Model.py'],
     [('select and its helpers', AL + 'ActiveLearner.py'), ('select', 'models/Model.py')],
     'property-based testing (hypothesis): contract oracle over generated queries, plus a scripted learner',
     'up to 8 candidates in 3 dimensions, up to 3 queries per model')

prop('C15', 'Greedy learners pick the candidate with the best documented score',
     'Each successive choice of the best, worst, upper-confidence and generalised-variance learners has the '
     'highest documented score among the points it may choose from, given the points already chosen, and '
     'the reported metric is the score of the last choice. With linear models the limits without '
     'exploration and with exploration only behave as documented. The random learner is uniform.',
     ['inputs', 'configurations'],
     'all models, candidates, exploration weights and earlier selections in range',
     'The tests check that some index is returned, or the choice in one easy picture; ties, repeated '
     'candidates and later choices of a query are not reached.',
     [AL + 'UCBLearner.py', AL + 'GV_UCBLearner.py', AL + 'BestLearner.py', AL + 'RandomLearner.py'],
     [('select_greedy', AL + '*Learner.py')],
     'property-based testing (hypothesis) against a reference score computed from predicted mean and covariance',
     'up to 8 candidates, also repeated ones; frequencies at 6 standard deviations')

prop('C16', 'Query values and chosen queries follow the alignment-based acquisition',
     'The value of a query is the expected alignment of the sampled rewards after the answer, for choices and '
     'for ratings, under each documented alignment measure. The chosen query has the highest value among '
     'the queries allowed. Representative points are drawn from the given ones without repetition and the '
     'stored samples are those of the current candidates.',
     ['inputs', 'configurations'],
     'all reward samples, alignment measures, queries and representative points in range',
     'The tests only run the learners; the value of a query is a nested expectation that no hand-written '
     'number covers.',
     [AL + 'AcquisitionBase.py', AL + 'AcquisitionSelection.py', AL + 'AbsAcquisition.py'],
     [('alignment measures and acquisition function', AL + 'AcquisitionBase.py'),
      ('select_pair, select_greedy', AL + 'AcquisitionSelection.py'), ('rating value', AL + 'AbsAcquisition.py')],
     'property-based testing (hypothesis) against an independent evaluation of the expected alignment',
     '3 to 12 samples, up to 6 candidates')

prop('C17', 'Strategies that mix query kinds ask the kind their rule prescribes',
     'Learners that mix choice and rating queries ask the kind of query their documented rule prescribes from '
     'the values of the two kinds, and ask about the points that kind of learner '
     'selected. Random schedules follow their documented probability, and decisions use the model and '
     'samples of the current candidates, leaving the model as it was.',
     ['histories', 'configurations'],
     'all rules, thresholds, candidate values and histories of queries in range',
     'The tests construct the learners and take one step; the rule only shows over histories where the values '
     'of the two kinds cross.',
     [AL + 'MixedStrategy.py', AL + 'MixedTypeDecision.py', AL + 'RateChooseLearner.py'],
     [('strategies', AL + 'MixedStrategy.py'), ('decision', AL + 'MixedTypeDecision.py'),
      ('rate or choose', AL + 'RateChooseLearner.py')],
     'stateful property-based testing (hypothesis) with scripted sub-learners against a reference rule',
     'up to 6 queries per history; alignment decisions only a few cases (8 s each)')

UT = 'utilities/'

prop('C18', 'The Pareto front is exactly the points nothing else dominates',
     'The points returned as the front are those no other point beats in one dimension while being at least '
     'as good in all, with one representative of equal points. The front does not depend on the order of '
     'the points, on order-preserving changes of the scale of a dimension, or on the memory layout, and '
     'the points are not changed.',
     ['inputs'],
     'all finite sets of points in any number of dimensions, with ties, repetitions and infinities',
     'The tests look at one picture of a front; ties and repeated points in several dimensions decide '
     'whether dominance is strict in the right place.',
     [UT + 'pareto.py'], [('get_pareto', UT + 'pareto.py')],
     'property-based testing (hypothesis) against a brute-force reference and metamorphic relations',
     'up to 14 points in up to 5 dimensions')

prop('C19', 'Synthetic users answer with their documented choice and rating models',
     'Choice probabilities are proportional to the exponential of reward times peakiness, and sampled choices '
     'follow them. A perfect user picks and rates the best option by its exact reward, noisy users follow '
     'their documented noise, and comparisons are always the chosen option over each other one. Training '
     'a user for a wanted accuracy gives a user with that accuracy, where settings for it exist.',
     ['inputs', 'configurations'],
     'all rewards, peakiness, user kinds and wanted accuracies in range',
     'The tests call each user on one or two queries; distributions, extreme rewards and the accuracy reached '
     'by training are not visible in a few answers.',
     [UT + 'human_choice_model.py', UT + 'synthetic_user.py', UT + 'HumanChoiceUser2.py'],
     [('p_human_choice, sample_human_choice', UT + 'human_choice_model.py'),
      ('choose, choose_pairs, rate', UT + 'synthetic_user.py'), ('learn_beta', UT + 'HumanChoiceUser2.py')],
     'property-based testing (hypothesis) against exact probabilities and statistical bounds',
     'frequencies at 6 standard deviations; up to 8 options')

prop('C20', 'Comparisons made from values or choices state the better option as winner',
     'Helpers that make comparisons from a function, a ranking or a choice produce each intended couple '
     'exactly once, with the option of higher value (or the chosen one) as the winner in the notation the '
     'models read. A model given such comparisons finds the values they came from more likely than the '
     'reverse and, for unrelated points, learns the order of the ranking.',
     ['inputs'],
     'all options, values with ties, choices and index forms',
     'The tests check the helpers on a few values; the sign convention is shared by several places and only '
     'their agreement over all inputs is what users rely on.',
     [UT + 'preference_pairs.py', UT + 'training_utility.py', 'models/PreferenceGP.py'],
     [('pair generation', UT + 'preference_pairs.py')],
     'property-based testing (hypothesis) against a reference of the intended couples',
     'up to 9 options')

prop('C21', 'Splitting labelled data keeps labels with their samples and loses none silently',
     'Splitting into parts puts every sample in exactly one part of nearly equal size, keeps compared samples '
     'together where that fits, and refuses when there are fewer samples than parts. Restricting labels to '
     'a subset keeps exactly the labels whose samples are all in it, renumbered to the subset and with '
     'unchanged values. Rescaling keeps the order and the interior of zero to one.',
     ['inputs'],
     'all numbers of samples and parts, all label types and subsets',
     'The tests split one data set; renumbering and repeated labels only go wrong for particular subsets.',
     [UT + 'training_utility.py'],
     [('k_fold_x_y, get_y_with_idx', UT + 'training_utility.py')],
     'property-based testing (hypothesis) against a reference split and label filter',
     'up to 16 samples')

prop('C22', 'Synthetic reward functions compute their formula for every form of input',
     'Each synthetic function has the value of its documented formula, the same for a point alone, in a list '
     'or among others, and evaluating it changes neither the function nor the rewards. Drawn parameters lie '
     'in their documented ranges with normalised weights, and monotone functions never prefer worse '
     'rewards.',
     ['inputs', 'configurations'],
     'all functions, dimensions, drawn parameters and points in range',
     'The tests evaluate each function at a few points of one shape with one draw of the parameters.',
     [UT + 'FakeFunction.py'], [('calc, randomize, __call__', UT + 'FakeFunction.py')],
     'property-based testing (hypothesis) against reference formulas',
     'up to 4 dimensions; FakeIntegrate is unfinished and left out')

prop('C23', 'Sampling and probability utilities follow their distributions',
     'The Markov chain sampler accepts by the Metropolis rule, keeps every state after burn-in and reaches '
     'the target distribution. Sampled sets are different sets of distinct items and, where even sampling is '
     'documented, uniform. Gamma densities and the normal orthant probability agree with their definitions '
     'for every method where the method is exact.',
     ['inputs', 'configurations'],
     'all targets, proposals, burn-in lengths, item counts, gamma parameters, means and covariances in range',
     'The tests check shapes or one mean; acceptance, burn-in and the probability of correlated '
     'variables need many draws and a reference.',
     [UT + 'mcmc_sampling.py', UT + 'sample_utility.py', UT + 'gamma_dist.py', UT + 'probability_utility.py'],
     [('metropolis_hastings', UT + 'mcmc_sampling.py'), ('sample_unique_sets', UT + 'sample_utility.py'),
      ('log_pdf_gamma', UT + 'gamma_dist.py'), ('calc_cdf', UT + 'probability_utility.py')],
     'property-based testing (hypothesis) against exact distributions, statistical bounds',
     'frequencies at 6 to 7 standard deviations')

prop('C24', 'Information-gain learners choose the query expected to reveal the most',
     'The mutual-information learner values a query by the information its answer gives about sampled rewards, '
     'on one set of samples that follows the model, between zero and the logarithm of the number of options. '
     'The Bayesian learner values it by the expected drop in uncertainty about which candidate is best under '
     'its documented answer model, from proper probabilities of being the best. The '
     'chosen query has the highest value among those allowed and that value is the one reported.',
     ['inputs', 'configurations'],
     'all reward samples, models, earlier selections and allowed candidates in range',
     'The tests check the choice in one easy picture, and those of the Bayesian learner do nothing where '
     'an optional library is missing.',
     [AL + 'MutualInfoLearner.py', AL + 'BayesInfoGain.py', AL + 'ActiveLearner.py'],
     [('calc_info_gain', AL + 'MutualInfoLearner.py'), ('calc_H_B_Q, select_pair', AL + 'BayesInfoGain.py'),
      ('p_B_pref_gp, p_B_pref_linear', AL + 'ActiveLearner.py')],
     'property-based testing (hypothesis) against reference information gains and Monte-Carlo references',
     'up to 7 candidates, 8 samples; one known finding with the default answer model')

prop('C25', 'Damped Newton steps stay on the Newton line and pick the best searched step',
     'An update of the fit moves along the Newton direction (or the gradient where the curvature cannot be '
     'inverted) by the configured fixed step, by the best of the equally spaced trial steps, or, for an '
     'objective that is a parabola along the line, by a step within the resolution of the halving search. '
     'An unknown kind of search is an error, and no argument is changed.',
     ['inputs', 'configurations'],
     'all starting points, concave quadratic objectives, curvatures that are off by a factor, step ranges and '
     'numbers of trial steps',
     'The tests only reach the searches through whole fits of easy data, where the full step is nearly right.',
     [PM], [('newton_update, binary_line_search, iterative_line_search', PM)],
     'property-based testing (hypothesis) against the exact best step along the line',
     'up to 5 variables, up to 8 halvings or trial steps')

prop('C26', 'A query is answered from the current model, whatever was asked before',
     'Given the same model, candidates and random state, a learner that has answered queries before (about '
     'other candidates, other data or another model) makes the same choices with the same values as a new '
     'one, except among equally good points; a learner with a schedule starts it again with a model it is '
     'given. Asking leaves the data and the predictions of the model as they were.',
     ['histories', 'inputs', 'configurations'],
     'all learners, histories of queries and additions, models and queries in range',
     'The tests ask a new learner one query of one model.',
     [AL + 'ActiveLearner.py', AL + 'AcquisitionBase.py', AL + 'BayesInfoGain.py', AL + 'MixedStrategy.py',
      AL + 'RateChooseLearner.py'],
     [('select, set_model', AL + 'ActiveLearner.py'), ('set_samples, unset_samples', AL + 'AcquisitionBase.py'),
      ('get_p_B_probit', AL + 'BayesInfoGain.py')],
     'property-based testing (hypothesis), differential: a used learner against a new one',
     'up to 4 earlier queries, 6 candidates, 3-8 samples; deciding by alignment (8000 samples) left out')

prop('C27', 'Drawings of a preference model show its comparisons and ratings as stated',
     'Drawing a preference model shows one line per comparison it holds between its two options, with an '
     'arrow towards the preferred one, and one mark per absolute rating at its sample. With one feature the '
     'heights are the latent values of the current data and the ratings given; with more than two features '
     'drawing is refused. Drawing changes neither the data nor the predictions.',
     ['histories', 'inputs', 'configurations'],
     'all histories of additions, predictions, fits, resets and drawings with one or two features',
     'No test draws a model; what is drawn depends on the history of additions and fits before it.',
     [PM],
     [('plot_preference', PM), ('__call__', 'models/Model.py')],
     'property-based testing (hypothesis), the artists on the axes against the statements made',
     'up to 5 steps; samples of one feature as a flat array; artists, not pixels')

FIXED = {
    '2cba06e': 'C10', '765f4c2': 'C10', '3d3b434': 'C09', '43d2af9': 'C09', 'cba89f9': 'C10',
    'f9a0527': 'C10', 'b5f8125': 'C08', '6881fa9': 'C08', '8a3a656': 'C08', '0d53db4': 'C08',
    '676643d': 'C08', '6641b13': 'C11', '8395967': 'C01', '52ffd3e': 'C01', '831b43d': 'C04',
    '0edbe81': 'C12', 'afa2ef3': 'C11', '9878d4b': 'C01', '3b7f366': 'C02', 'bd6882b': 'C20',
    'e2564b8': 'C19', 'a32128e': 'C23', '931ae07': 'C23', 'a091ead': 'C22', 'c39d57b': 'C22',
    '75e654f': 'C22', '9e3189e': 'C14', '8ef460e': 'C16', '6180476': 'C16', '9b382fe': 'C24',
    'c81d80d': 'C17', 'ea2dc2a': 'C17', '631290e': 'C24', 'b8941cc': 'C17', '758d554': 'C08',
    '576c78f': 'C11', '08ad9eb': 'C11', 'a6dfb9c': 'C14', '80cb4f8': 'C15', '2996947': 'C17', '5a4d608': 'C19',
    'ea6e3e8': 'C27',
}


def main():
    out = [e for e in P if os.path.exists(os.path.join(V, 'checks', e['prop']['id'].lower() + '.py'))]
    out.sort(key=lambda e: e['prop']['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for e in out:
            f.write(json.dumps(e['prop']) + '\n')
    man = dict(
        version=1, setup_cmd='./setup.sh',
        checks=[dict(property=e['prop']['id'],
                     quick_cmd='./check.sh %s quick' % e['prop']['id'],
                     thorough_cmd='./check.sh %s thorough' % e['prop']['id'],
                     evidence_file='evidence/%s.json' % e['prop']['id'],
                     technique=e['technique'], level='exploration', level_note=e['note'])
                for e in out],
        not_applicable=[],
        notes='No hooks: the checks drive the public Python API of /repo/src. Python code, nothing to build; '
              'hypothesis is vendored in vendor/.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '1205164..HEAD'],
                         capture_output=True, text=True).stdout.strip().split('\n')[::-1]
    fixed = []
    for line in log:
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        if h not in FIXED:
            print('no property for', line)
            continue
        fixed.append('fixed: property=%s %s %s' % (FIXED[h], h, s[5:]))
    kp = os.path.join(V, 'known_findings.json')
    known = json.load(open(kp))['known'] if os.path.exists(kp) else []
    with open(kp, 'w') as f:
        json.dump(dict(known=known, fixed=fixed), f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        for name, obj in [('MANIFEST', [man]), ('PROPERTIES', [e['prop'] for e in out])]:
            sch = json.load(open('/root/.vp/%s.schema.json' % name))
            for o in obj:
                jsonschema.validate(o, sch)
    except ImportError:
        pass
    print(len(out), 'properties', len(fixed), 'fixes')


main()
