IN = ["inputs"]
E = "obp/ope/estimators.py"

prop("P01", "Importance-weighting estimators compute their defining formulas",
     "For every logged dataset and evaluation policy accepted by validation, each importance-weighting estimator (replay, IPW with and without clipping, self-normalised IPW, sub-Gaussian IPW) returns exactly the mean of its documented per-round weighted rewards, where the weight is the evaluation policy's probability of the logged action at the logged position divided by the logging propensity. Estimated propensities replace the logged ones exactly when the estimator was told to use them, and the caller's arrays are never modified.",
     ["inputs", "configurations"], "all numbers of rounds, actions and positions; all rewards, propensities, action distributions, positions (given or absent) and hyper-parameters",
     "Tests evaluate each estimator on one or two fixed datasets and compare with loose tolerances to the ground truth of a simulation; a wrong index, threshold direction or normaliser on rarely used shapes/positions/hyper-parameters passes.",
     [E], [("InverseProbabilityWeighting / SelfNormalizedInverseProbabilityWeighting / SubGaussianInverseProbabilityWeighting / ReplayMethod", E)],
     ["return value of estimate_policy_value", "per-round estimates"],
     "All estimators of the importance-weighting family, unbounded numbers of rounds/actions/positions.")

prop("P02", "DM and DR estimators compute their formulas and reduce to one another",
     "For every accepted input, the direct method and each doubly-robust estimator (DR, self-normalised, Switch, optimistic shrinkage, sub-Gaussian) returns exactly the mean over rounds of the model-based value plus its documented weight times the residual of the reward model at the logged action. As a consequence the documented limiting cases hold exactly: a zero reward model turns DR into IPW, a zero threshold turns it into DM, an infinite threshold leaves plain DR, and a perfect reward model gives DM.",
     ["inputs", "configurations"], "all rounds/actions/positions, rewards, propensities, reward models, action distributions and hyper-parameters",
     "Tests sample a handful of datasets and only check closeness to ground truth or that no exception is raised; algebraic identities over all inputs and boundary hyper-parameters are not reached.",
     [E], [("DirectMethod, DoublyRobust, SelfNormalizedDoublyRobust, SwitchDoublyRobust, DoublyRobustWithShrinkage, SubGaussianDoublyRobust", E)],
     ["return value of estimate_policy_value", "per-round estimates"],
     "All DM/DR estimators plus lemmas relating them.")

prop("P03", "Malformed logged data and hyper-parameters are rejected before any estimate",
     "The input checks accept exactly the inputs they document: arrays of the right dimension and matching lengths, integer non-negative actions and positions inside the action-distribution's range, positive propensities, and distributions that sum to one for every round and position; anything else raises an error and well-formed data never does. Estimator hyper-parameters outside their documented domain (negative or missing thresholds, sub-Gaussian weights outside the unit interval, wrong types) are rejected at construction.",
     ["inputs", "configurations"], "all shapes, dtypes and contents of every argument, well- or ill-formed",
     "Tests enumerate a fixed table of bad inputs; the boundary of acceptance (for all shapes and values, at any index) is not covered.",
     ["obp/utils.py", E], [("check_array, check_ope_inputs, check_bandit_feedback_inputs, check_multi_loggers_ope_inputs, check_continuous_*", "obp/utils.py"), ("__post_init__ hyper-parameter checks", E)],
     ["exceptions raised or not raised"],
     "Validation functions and constructors; error classes and acceptance conditions are both directions of an equivalence.")

prop("P04", "Bootstrap confidence intervals are the percentile bootstrap of the estimates",
     "For every estimator, data, confidence level, number of bootstrap samples and seed, the reported interval is the mean and the two symmetric percentiles of the means of with-replacement resamples, of full size, of that estimator's own per-round estimates, drawn from the given seed only. The confidence level, resample count and seed are validated, and the interval depends on nothing but the inputs and the seed.",
     ["inputs", "configurations"], "all samples, confidence levels in (0,1), resample counts and seeds; every single-logger estimator",
     "Tests check only that the bounds are ordered around the mean on one dataset; wrong percentile arithmetic, resample size or seed handling survives.",
     ["obp/ope/helper.py", "obp/utils.py", E], [("estimate_confidence_interval_by_bootstrap", "obp/ope/helper.py"), ("estimate_interval", E)],
     ["interval dictionaries"],
     "The bootstrap routine and every estimate_interval of the single-logger estimators.")

T = "obp/ope/estimators_tuning.py"
prop("P05", "Hyper-parameter tuning scores candidates as documented and picks the best",
     "Every tuned estimator (IPW, DR, Switch-DR, DRos, SG-IPW, SG-DR) uses the hyper-parameter chosen by the documented rule: with SLOPE, the largest-bias-first sweep that keeps going while the candidate's confidence interval still intersects all previous ones; with MSE, the candidate minimising the estimated squared bias bound plus the sample variance of its per-round estimates. Estimates and intervals are those of the corresponding untuned estimator at that hyper-parameter, every scored quantity is computed from the data given by the caller (including estimated propensities), and ill-formed candidate lists are rejected.",
     ["inputs", "configurations"], "all data sets, candidate lists (order, duplicates), tuning methods, confidence parameters and bias bounds",
     "Tests only check that tuning runs and returns a finite number or one of the candidates; a wrong interval width, a wrong candidate order or a dropped argument is invisible.",
     [T, "obp/ope/helper.py", E], [("BaseOffPolicyEstimatorTuning._tune_hyperparam_with_slope/_with_mse, *Tuning", T), ("estimate_bias_in_ope, estimate_high_probability_upper_bound_bias, estimate_student_t_lower_bound", "obp/ope/helper.py")],
     ["best_hyperparam", "return values of estimate_policy_value / estimate_interval", "exceptions"],
     "The tuning classes, their scoring functions and constructors.")

M = "obp/ope/meta.py"
prop("P06", "Evaluation front-ends route inputs unchanged and report estimates faithfully",
     "For every set of estimators and any inputs, the off-policy evaluation classes (standard, multi-logger, continuous, slate) call each estimator with the logged data and with exactly the model outputs, propensities and weights that belong to that estimator (shared array or per-estimator dictionary), and report each estimator's own value, interval, squared error, relative error and relative policy value under its own name. Model-dependent estimators never run without a reward model's predictions, malformed inputs are rejected, and the logged data are left untouched.",
     ["inputs", "configurations"], "all estimator sets and names, all bandit feedback, shared or per-estimator inputs, all ground-truth policy values",
     "Tests use mock estimators with constant outputs and a few dictionaries; a mixed-up key, sign or denominator for one optional input is not sampled.",
     [M, "obp/ope/meta_multi.py", "obp/ope/meta_continuous.py", "obp/ope/meta_slate.py"],
     [("OffPolicyEvaluation", M), ("MultiLoggersOffPolicyEvaluation", "obp/ope/meta_multi.py"), ("ContinuousOffPolicyEvaluation", "obp/ope/meta_continuous.py"), ("SlateOffPolicyEvaluation", "obp/ope/meta_slate.py")],
     ["returned dictionaries and data frames", "arguments received by the estimators"],
     "All four meta classes with arbitrary (uninterpreted) estimators.")

SL = "obp/ope/estimators_slate.py"
prop("P07", "Slate estimators average per-slate weighted rewards and validate slate logs",
     "For every slate log accepted by validation, the standard, independent, reward-interaction and self-normalised slate IPS estimators and the cascade doubly-robust estimator return exactly the documented sum of weighted rewards per record divided by the number of distinct slates, pairing every record with its own propensity, position and (for cascade DR) the preceding slot's weight, whatever the order and numbering of slates. Their bootstrap intervals resample whole slates. The slate input checks reject exactly the logs that duplicate a (slate, position) pair, leave positions out of range, have inconsistent propensities within a slate, or mismatched lengths.",
     ["inputs", "configurations"], "all slate logs (any number, order and numbering of slates, ragged slates where allowed), propensities, rewards and reward models",
     "Tests use one synthetic generator with consecutive slate ids and full slates; record order, slate numbering and boundary slots are not sampled.",
     [SL, "obp/utils.py"], [("SlateStandardIPS, SlateIndependentIPS, SlateRewardInteractionIPS, SelfNormalized*, SlateCascadeDoublyRobust", SL), ("check_sips_inputs, check_iips_inputs, check_rips_inputs, check_cascade_dr_inputs", "obp/utils.py")],
     ["return values of estimate_policy_value / estimate_interval", "exceptions"],
     "All slate estimators and the slate input checks.")

ML = "obp/ope/estimators_multi.py"
prop("P09", "Multi-logger estimators weight each logger's data as documented",
     "For every stratified log accepted by validation, the naive, balanced and weighted multi-logger IPW and DR estimators return exactly the mean of their documented per-round terms: naive uses the logging propensity of the round's own logger, balanced the average propensity, and weighted scales each stratum by n / (variance of the stratum's own terms times the sum over strata of size/variance). Clipping, estimated propensities and positions are honoured, intervals are the percentile bootstrap of the same per-round terms, malformed inputs and hyper-parameters are rejected, and the caller's arrays are untouched.",
     ["inputs", "configurations"], "all numbers of rounds, actions, positions and strata; all stratum assignments, rewards, propensities, reward models and clipping thresholds",
     "Tests only compare estimates with ground truth on one synthetic dataset; intervals of the balanced estimators, unbalanced strata and extreme thresholds are not exercised.",
     [ML, "obp/utils.py"], [("MultiLoggersNaive/Balanced/WeightedInverseProbabilityWeighting, MultiLoggersNaive/Balanced/WeightedDoublyRobust", ML), ("check_multi_loggers_ope_inputs", "obp/utils.py")],
     ["return values of estimate_policy_value / estimate_interval", "exceptions"],
     "All six estimators, proved for any number of strata.")

CE = "obp/ope/estimators_continuous.py"
prop("P10", "Continuous-action estimators are the kernel-smoothed IPW, SNIPW and DR",
     "For every continuous-action log, bandwidth and kernel, the kernelized estimators return exactly the mean of K((evaluation action - logged action)/h) times reward over propensity, divided by h (IPW), by its empirical normaliser (self-normalised) or with the reward model as a control variate (DR). Kernels are their closed forms, symmetric and zero outside the unit interval where compactly supported. Intervals resample the same per-round terms; unknown kernels, negative bandwidths, non-positive propensities and mismatched lengths are rejected and inputs are not modified.",
     ["inputs", "configurations"], "all numbers of rounds, actions, propensities, rewards, reward models, bandwidths and the four kernels",
     "Tests check one synthetic dataset with loose tolerances; sign, scaling by the bandwidth and support of each kernel at arbitrary points are not settled.",
     [CE, "obp/utils.py"], [("kernel_functions, KernelizedInverseProbabilityWeighting, KernelizedSelfNormalizedInverseProbabilityWeighting, KernelizedDoublyRobust", CE), ("check_continuous_ope_inputs", "obp/utils.py")],
     ["return values", "exceptions"],
     "All kernels and the three continuous estimators.")

EMB = "obp/ope/estimators_embed.py"
prop("P11", "Marginalized IPS uses the marginal embedding weights and selects as documented",
     "For every log with action embeddings, MIPS and self-normalised MIPS return exactly the mean of reward times marginal importance weight: with a known embedding distribution the weight is the product over embedding dimensions of the evaluation policy's marginal probability of the logged embedding over the behaviour policy's; otherwise it is the conditional expectation of the vanilla weight under the fitted classifier of action given context and embedding, with zero mass on actions never logged. Intervals resample the same terms. Exact and greedy embedding selection return the estimate of the last candidate accepted by the documented confidence-interval rule, candidates tried in decreasing width. Malformed inputs and hyper-parameters are rejected; inputs are untouched.",
     ["inputs", "configurations"], "all numbers of rounds, actions, positions, embedding dimensions and categories; all policies, rewards, embeddings and classifiers",
     "Tests check approximate agreement with ground truth on one generator; unlogged actions, boundary dimensions in the selection and arbitrary policies are not sampled.",
     [EMB], [("MarginalizedInverseProbabilityWeighting, SelfNormalizedMarginalizedInverseProbabilityWeighting", EMB)],
     ["return values of estimate_policy_value / estimate_interval", "exceptions"],
     "Embedding selection is proved for 2 dimensions (3 down to 2) and sampled for 3 down to 1; classifiers are uninterpreted.")

prop("P12", "Probability primitives: softmax, sigmoid, action sampling, action distributions",
     "For every real input, softmax returns rows that are positive, sum to one and equal exp(x)/sum exp(x) (whatever the scale of x), sigmoid returns 1/(1+exp(-x)) element-wise for arrays and scalars; sample_action_fast picks, for every row of action probabilities, the first action whose cumulative probability exceeds that row's uniform draw from the given seed (so the sampled action is always a valid index with the row's distribution); convert_to_action_dist places probability one on exactly the selected action of every round and position. None of them changes its inputs.",
     ["inputs"], "all shapes, real inputs (including very large magnitudes), probability tables and seeds",
     "Tests check a few small arrays; ties, zero-probability actions, large logits and several positions are not settled.",
     ["obp/utils.py"], [("softmax, sigmoid, sample_action_fast, convert_to_action_dist", "obp/utils.py")],
     ["return values"],
     "All four primitives for every shape.")

SY = "obp/dataset/synthetic.py"
prop("P16", "Synthetic bandit data agree with the model that generated them",
     "For every configuration and seed, SyntheticBanditDataset returns logged data whose fields agree with each other: contexts have the documented shape and are drawn from the seeded generator, expected_reward is the true mean of the reward distribution given context and action (including the truncation correction for continuous rewards), pi_b is the softmax of beta times the behaviour logits (expected rewards if no behaviour policy is given), actions are drawn from pi_b, pscore is pi_b at the logged action, rewards are drawn from the reward distribution at the logged action, and actions made deficient have zero probability while the others still sum to one. calc_ground_truth_policy_value is the mean over rounds of the policy-weighted expected reward. The provided reward functions and behaviour policies are their documented linear, polynomial or sparse forms of context and action context, standardised when z_score is set. Out-of-range settings and malformed requests are rejected.",
     ["inputs", "configurations"], "all numbers of rounds, actions, context dimensions, reward types, reward and behaviour functions, temperatures, standard deviations and seeds",
     "Tests check shapes, key sets and loose moments for a few settings; a mismatch between the reported expected reward, propensity or policy and the one used to draw the data is invisible.",
     [SY], [("SyntheticBanditDataset", SY), ("*_reward_function, *_behavior_policy, sample_random_uniform_coefficients", SY)],
     ["returned bandit feedback", "ground-truth policy value", "exceptions"],
     "Deficient actions are checked on sampled data sets (bounded); everything else is proved for all sizes, with the random generator, polynomial features and truncated normal as uninterpreted functions.")

CF = "obp/policy/contextfree.py"
prop("P13", "Context-free online policies: any-history accounting and documented selection",
     "For every sequence of select_action and update_params calls, the context-free policies (epsilon-greedy, random, Bernoulli Thompson sampling) count exactly the trials and rewards of each action given to update_params; the parameters that selection uses move to the accumulated values only at multiples of batch_size, never in between; epsilon-greedy selects the actions of highest average reward, unless the exploration draw falls below epsilon or some action was never tried, when it draws uniformly without replacement; the selected list holds the len_list highest scoring actions, best first, all distinct. Thompson sampling draws from Beta(reward + alpha, trials - reward + beta) and compute_batch_action_dist is the empirical selection distribution (each position sums to one). Invalid parameters raise ValueError.",
     ["inputs", "histories", "configurations"], "all histories of updates, batch sizes, action counts, list lengths, epsilons, priors and seeds",
     "Tests do one or two update steps with batch size one or two; aliasing between pending and published state, ties, and any longer history are not sampled.",
     [CF, "obp/policy/base.py"], [("BaseContextFreePolicy, EpsilonGreedy, Random, BernoulliTS", CF), ("BaseContextFreePolicy", "obp/policy/base.py")],
     ["selected actions", "public counters (n_trial, action_counts, reward_counts)", "action distributions"],
     "Accounting is an invariant over arbitrary histories: proved from any state for one step.")

prop("P14", "Contextual online policies: batched posterior updates, score-based selection",
     "For every state and observation, LinUCB, LinTS and linear epsilon-greedy update the chosen action's inverse design matrix by the rank-one (Sherman-Morrison) formula and its reward vector by reward times context, leave the other actions alone, and publish those to the parameters used in selection only at multiples of batch_size; logistic policies keep the pending observations of each action, at a batch boundary replace its mean and precision by the regularised logistic fit and Laplace update on exactly those observations (rewards 0 and 1 as classes) and empty the queue. Scores are theta'x (greedy), theta'x + epsilon * sqrt(x'A^-1x) (UCB), or theta sampled from the posterior (Thompson); the selected list holds the len_list best-scoring actions, best first, and initialize() returns to the initial parameters.",
     ["inputs", "histories", "configurations"], "all contexts, rewards, dimensions, states, batch sizes, epsilons, priors and seeds",
     "Tests run a handful of updates and check shapes; aliasing, wrong arm, class coding of rewards, and multi-batch histories are not sampled.",
     ["obp/policy/linear.py", "obp/policy/logistic.py", "obp/policy/base.py"], [("LinEpsilonGreedy, LinUCB, LinTS", "obp/policy/linear.py"), ("LogisticEpsilonGreedy, LogisticUCB, LogisticTS, MiniBatchLogisticRegression", "obp/policy/logistic.py"), ("BaseContextualPolicy", "obp/policy/base.py")],
     ["selected actions", "public parameters (A_inv, b, theta_hat, theta_tilde)", "predicted probabilities"],
     "Logistic pending-batch bookkeeping is proved for 2 arms with up to 2 pending observations, selection for 2 to 3 actions, dimensions are arbitrary; scipy's minimiser is uninterpreted; A_inv * A = I is only checked on sampled histories.")

SIM = "obp/simulator/simulator.py"
prop("P15", "Bandit simulators account for every round and deliver each reward once",
     "For every policy, environment and history, BanditPolicySimulator asks the policy once per round with that round's context, records the selected action, its reward, all rewards and the context, adds the reward to the total, and gives the policy each (context, action, reward) exactly once: immediately without delays, otherwise in the round in which the selected action's delay expires, with clear_delayed_queue delivering what is still pending. steps() is repeated step(); environments draw contexts, expected rewards, rewards and delays of a round consistently, alone or in batch. calc_ground_truth_policy_value averages the expected reward of the selected action over rounds and over simulations that each start from a fresh copy of the policy; run_bandit_replay updates the policy only on matching rounds and returns the policy's own choices as one-hot distributions. Coefficient drift depends only on the round number, not on how rounds are split into calls; exponential delays have the documented scale.",
     ["inputs", "histories", "configurations"], "all policies, contexts, rewards, delays, round counts, drift intervals and transition periods",
     "Tests run one environment with mock policies and a fixed delay; calls split across drift intervals, delays meeting in one round, and contextual policies are not sampled.",
     [SIM, "obp/simulator/replay.py", "obp/simulator/coefficient_drifter.py", "obp/simulator/delay_sampler.py"],
     [("BanditPolicySimulator, BanditEnvironmentSimulator, BanditRounds, calc_ground_truth_policy_value", SIM), ("run_bandit_replay", "obp/simulator/replay.py"), ("CoefficientDrifter", "obp/simulator/coefficient_drifter.py"), ("ExponentialDelaySampler", "obp/simulator/delay_sampler.py")],
     ["calls received by the policy", "simulator records and totals", "returned values and distributions", "drawn coefficients and delays"],
     "Delayed rewards are proved for every history of three rounds and for one round from an arbitrary state with three pending rewards; drift for two calls spanning two intervals; value and replay for any number of rounds with memoryless policies and two to three rounds with arbitrary ones.")

RG = "obp/ope/regression_model.py"
RS = "obp/ope/regression_model_slate.py"
prop("P20", "Reward models train on the right rows and never predict rows they were fitted on",
     "For every logged data set, RegressionModel fits one copy of the base model per position on exactly the rows logged at that position, with features [context, action context of the logged action], targets the logged rewards, and sample weights none (normal), pi_e/pscore (iw) or pi_e(1-pscore)/pscore^2 (mrdr); a missing position means position 0 and a missing pscore the uniform policy. predict returns, for every round, action and position, that position's model applied to [context, action context] (the probability of reward one for classifiers). fit_predict with K folds predicts every round with models trained on the other folds only, folds being those of the seeded shuffled KFold. SlateRegressionModel fits positions from last to first on [context, actions up to the position] with target reward plus the evaluation policy's expected next-position prediction, weighted by the cascade importance weight in 'iw' mode, and predicts from [context, preceding logged actions, action] in (round, position, action) order. The base model given by the caller is never fitted; malformed inputs are rejected before any training.",
     ["inputs", "configurations"], "all data sets, context and action dimensions, base models, fitting methods, pscores, evaluation policies, positions and fold assignments",
     "Tests run random forests and logistic regressions on one data set and check shapes; which rows, weights or folds reach the model is not observable there.",
     [RG, RS], [("RegressionModel", RG), ("SlateRegressionModel", RS)],
     ["data handed to the base model", "predictions", "exceptions"],
     "One and two positions and up to three folds (slates of one to three), every other size arbitrary; base models are uninterpreted functions of their training data, KFold is any assignment of rows to folds determined by the seed.")

CM = "obp/ope/classification_model.py"
prop("P21", "Propensity and importance-weight models: right rows, features, labels and folds",
     "For every logged data set, PropensityScoreEstimator fits one classifier per position on exactly the contexts and actions logged at that position and returns, for every round, the predicted probability of the logged action by the classifier of the round's position; ImportanceWeightEstimator fits one classifier per position to tell the logged rows [context, action context] (label 0) from the evaluation policy's rows (label 1: the same contexts with actions sampled from the evaluation policy with the given seed, or with its raw probabilities) and returns the odds p/(1-p) of the logged row. With K folds every round is predicted by models trained on the other folds only, and the recorded evaluation results are those held-out predictions with their labels. No position means position 0; rounds at positions absent from new data are skipped, a position without training data is refused; calibration_cv > 1 uses the calibrated version of the base model. Malformed inputs are rejected and inputs are left unchanged.",
     ["inputs", "configurations"], "all data sets, context and action dimensions, base classifiers, evaluation policies, positions, fold assignments and seeds",
     "Tests check shapes and finite values on one data set; training rows, label coding, sampled actions and fold separation are not observable there.",
     [CM], [("ImportanceWeightEstimator, PropensityScoreEstimator", CM)],
     ["data handed to the base model", "predictions", "eval_result", "exceptions"],
     "One and two positions, up to three folds, every other size arbitrary; classifiers (and their calibrated versions) are uninterpreted functions of their training data whose probability columns cover all actions; KFold is any assignment of rows to non-empty folds determined by the seed.")

OF = "obp/policy/offline.py"
prop("P22", "Offline learners train on the right data and return the right policies",
     "For every logged data set, IPWLearner.fit gives the base classifier of each position exactly the contexts and actions logged there with sample weights reward/propensity, and QLearner.fit trains its reward regression on the logged data of each position. predict puts, in every round, probability one on one action per position: the best-scored actions in order, all distinct; predict_score returns the (position-averaged) scores; predict_proba is the softmax of score/tau over actions; sample_action draws the top actions of score/tau plus Gumbel noise determined by random_state (Plackett-Luce sampling without replacement). Results have shape (rounds, actions, positions) and are probability distributions over actions at every position. A missing position means position 0, a missing propensity means uniform; malformed inputs, negative rewards and missing positions for longer lists are rejected.",
     ["inputs", "configurations"], "all data sets, context dimensions, action counts, list lengths, base models, temperatures and seeds",
     "Tests fit logistic regressions on a few rounds and check shapes; which rows and weights reach the model and the order of the returned list are not observable there.",
     [OF], [("IPWLearner, QLearner", OF)],
     ["data handed to the base model", "action distributions", "scores", "exceptions"],
     "List lengths one and two, every other size arbitrary; base models are uninterpreted functions of their training data, Gumbel noise an uninterpreted function of the seed and index.")

MC = "obp/dataset/multiclass.py"
prop("P17", "Classification data becomes consistent bandit data",
     "For every classification data set, MultiClassToBanditReduction numbers the classes 0..K-1 in increasing order of their labels, whatever the labels are; the split keeps every context with its own label; the behaviour policy puts alpha_b + (1-alpha_b)/K on the class predicted by the classifier trained on the training part only and (1-alpha_b)/K on every other class (with n_deficient_actions: none on the actions with the largest noise, renormalised); actions are drawn from it with the given seed, the propensity is the drawn action's probability, and the reward is one exactly when the drawn action is the round's true class. The evaluation policy has the same form with its own classifier and alpha_e, and the ground-truth value of a policy is its mean probability of the true class, which is its expected reward. Invalid settings are rejected and inputs left unchanged.",
     ["inputs", "configurations"], "all contexts, integer labels, class counts, split sizes, classifiers, alphas, deficient-action counts and seeds",
     "Tests use the digits data set, whose labels are already 0..K-1.",
     [MC], [("MultiClassToBanditReduction", MC)],
     ["bandit feedback", "action distribution", "policy value", "exceptions"],
     "Classifiers are uninterpreted functions of their training data; train_test_split is an uninterpreted division of the rows, the same for every array.")

SM, SE, SCN = "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py", "obp/dataset/synthetic_continuous.py"
prop("P18", "Multi-logger, embedding and continuous-action synthetic data are consistent",
     "For every configuration and seed: SyntheticMultiLoggersBanditDataset gives each logger its block of rounds (its rounded share, never more than remain, the last logger the rest), draws each round's action from the softmax policy of its own logger, and logs that logger's probabilities (pi_b, pscore) and the share-weighted mixture of all loggers (pi_b_avg, pscore_avg); SyntheticBanditDatasetWithActionEmbeds draws every embedding dimension from p_e_a of the chosen action, rewards from the context and the drawn embedding, and logs an expected reward that is exactly the average of those rewards over the embeddings given the action, hiding the unobserved dimensions from every logged field alike; SyntheticContinuousBanditDataset logs actions inside the action range with their exact density under the behaviour policy, rewards that are the expected reward plus noise, and a ground-truth value that is the mean expected reward of the given actions. Deficient actions have no probability. Invalid settings are rejected.",
     ["inputs", "configurations"], "all sizes, seeds, temperatures, shares, noise levels, action ranges, reward and policy functions",
     "Tests check shapes and ranges on default settings; agreement between logged fields and the generating model is not visible in one sample.",
     [SM, SE, SCN], [("SyntheticMultiLoggersBanditDataset", SM), ("SyntheticBanditDatasetWithActionEmbeds", SE), ("SyntheticContinuousBanditDataset", SCN)],
     ["bandit feedback", "policy value", "exceptions"],
     "One to three loggers and one or two embedding dimensions, every other size arbitrary; truncated-normal draws and densities, reward and policy functions are uninterpreted.")

RL = "obp/dataset/real.py"
prop("P19", "Open Bandit Dataset loading, splitting and bootstrapping keep rounds intact",
     "For every pair of files, OpenBanditDataset puts the logged rounds in order of time and keeps action, position, click, propensity and context of a round together; positions are numbered from zero in increasing order, contexts are the indicators of the user features without their first level, and item features are the codes of the text features followed by the numerical one. obtain_batch_bandit_feedback returns all rounds, or with the time-series split the first trunc(n(1-test_size)) rounds and the remaining ones, with matching n_rounds and the data's own n_actions; sample_bootstrap_bandit_feedback draws rounds with replacement from the full data or the first part, the same rounds for every field, determined by the seed, with at most the available size, and changes nothing in the data set; the on-policy value is the mean reward of the test part (all rounds without split). Invalid settings are rejected.",
     ["inputs", "configurations"], "all logged data sets, feature levels, split sizes, sample sizes and seeds",
     "Tests load one shipped sample and compare lengths.",
     [RL], [("OpenBanditDataset", RL)],
     ["bandit feedback", "policy value", "exceptions"],
     "Reading csv files, dummy and label encoding and sorting are assumed contracts of pandas and scikit-learn (exercised on real files in the concrete runs); two user features and two text item features, every other size arbitrary; timestamps are distinct in the sampled runs.")

SS = "obp/dataset/synthetic_slate.py"
prop("P08", "Synthetic slate data: policies, propensities, rewards and ground truth agree",
     "For every configuration, context, set of logits and seed, SyntheticSlateBanditDataset draws each slate slot by slot from the Plackett-Luce policy of the logits (independently per slot when factorizable) and logs, for every slot, the probability of the whole slate, of the prefix up to the slot and of the slot's action on its own; the same three propensities are returned for given slates under evaluation logits, under the random policy and under the epsilon-greedy (optimal or anti-optimal) policies. Expected rewards of a slot combine the base rewards of the round's own context as the reward structure says (independent, additive over other or previous slots, decaying over other or previous slots), rewards follow the click model (none, position-based, cascade) or the truncated normal distribution, slate_id and position number the rows, and calc_ground_truth_policy_value is the exact expectation of the slate reward so generated under the evaluation policy, averaged over rounds. Invalid sizes, names and shapes are rejected.",
     ["inputs", "configurations"], "all contexts, logits, base reward and policy functions, decay functions, click-model parameters, epsilons and seeds",
     "Tests compare shapes and a few numbers on fixed seeds; agreement of the logged propensities, expected rewards and ground truth with the generating process is not visible there.",
     [SS], [("SyntheticSlateBanditDataset, action_interaction_reward_function, linear_behavior_policy_logit", SS)],
     ["bandit feedback", "propensities", "expected rewards", "ground-truth value", "exceptions"],
     "Expected rewards, weight matrices, rewards and the random policy are proved for any number of rounds and actions (two to four slots); sampling, propensities of given slates, greedy policies and ground truth for one or two rounds, two or three actions and two or three slots, with every logit, reward and seed arbitrary; reward and policy functions are uninterpreted, base rewards of a round are distinct for the greedy policies, masked logits are -10000 as in the code.")
