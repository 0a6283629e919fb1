# Source of properties.jsonl (and of the per-check texts in MANIFEST.json). Run: python3 tools/gen.py
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "A parallel loop covers every index exactly once and joins before returning",
 "A parallel loop over n items hands every item index to exactly one worker invocation, each invocation receiving a contiguous, in-range block and a worker number not shared with another invocation, whatever the requested number of threads (negative, zero, one, more than n) and whatever the number of items (including zero). It returns only after every worker invocation has finished, under every scheduling of the workers, and never deadlocks or leaves a goroutine behind.",
 ["schedules","inputs"], "all thread counts and item counts up to a bound, all schedules of the workers up to a preemption bound",
 "the single test runs one thread count and one size under whatever schedule the Go runtime happens to pick",
 ["base/parallel.go"], [("block computation, WaitGroup join","base/parallel.go:Parallelize")])

prop("C02", "The locked random source is linearizable and its clones are independent",
 "Draws, re-seeds, locked sections and clones performed concurrently on the concurrency-safe random source have the effect of some serial order of those operations that respects each caller's program order, with no data race. A clone yields exactly the sequence its original would have yielded from that point, and afterwards neither one's operations influence the other; the same seed always yields the same sequence.",
 ["schedules","histories"], "all interleavings of up to three clients running short programs of draw/seed/lock/clone, all operation histories up to a depth",
 "tests draw from one goroutine only",
 ["base/source.go"], [("mutex-protected generator","base/source.go:LockedSource"),("state copy","base/source.go:SourceClone")])

prop("C03", "Parallel estimators give the same result under every schedule and CPU count",
 "Fitting, predicting, transforming and querying with every estimator that works in parallel (nearest neighbours, k-means, DBSCAN, naive Bayes, imputer, discretizer, linear models, elastic-net path, SVM, k-nearest-neighbour and nearest-centroid predictors, scalers) return the same values, up to floating-point rounding, for every number of CPUs or jobs and every scheduling of the workers. No two workers ever access the same memory without synchronisation when one of them writes, no call deadlocks, and no call returns before its workers finished.",
 ["schedules","configurations"], "all worker counts 1..4, all schedules up to a preemption bound, with happens-before race detection on each",
 "tests run one schedule on one machine's CPU count and cannot see a race that did not bite",
 ["base/parallel.go","neighbors/unsupervised.go","neighbors/kdtree.go","cluster/kmeans.go","naive_bayes/naivebayes.go","preprocessing/data.go","linear_model/Base.go","linear_model/coordinatedescent.go","svm/svm.go"],
 [("disjoint per-worker output ranges","all Parallelize callers"),("mutex around shared accumulators","cluster/kmeans.go")])

prop("C04", "Cross-validation and grid search are schedule- and job-count-independent",
 "Cross-validation and grid search return the same scores, the same fitted estimators, the same candidate list and the same best candidate for every number of jobs and every scheduling of their workers, each fold or candidate being evaluated exactly once on its own copy of the estimator. There is no data race, deadlock or leaked goroutine in any schedule, and the estimator passed in is not modified.",
 ["schedules","configurations"], "all job counts 1..4, all schedules up to a preemption bound, with happens-before race detection",
 "tests run one schedule per job count",
 ["model_selection/validation.go","model_selection/search.go","model_selection/split.go"],
 [("per-split result slots","model_selection/validation.go:CrossValidate"),("per-candidate clones","model_selection/search.go:Fit")])

prop("C05", "Every data split partitions the rows and keeps X and Y aligned",
 "Each split produced by k-fold cross-validation consists of a training and a test index set that are disjoint and together contain every row exactly once, the test set holding the requested share of the rows, and exactly as many splits are produced as announced. A train/test split distributes every row of X with its own row of Y to exactly one side, with the requested test size. The same seed always reproduces the same splits, and a clone of a splitter whose random source can be cloned produces the same splits as its original.",
 ["inputs","configurations","histories"], "all sample counts and split counts/test sizes up to a bound, shuffled or not, all seeds in a range",
 "tests print one split of one small data set",
 ["model_selection/split.go"], [("index assignment","model_selection/split.go:KFold.Split"),("TrainTestSplit","model_selection/split.go:TrainTestSplit")])

prop("C06", "Cross-validation reports the score of each fold's own fit",
 "For every split of the splitter, in order, cross-validation fits a fresh copy of the estimator on exactly that split's training rows and reports, in that split's position, the scorer's value for the predictions on exactly that split's test rows together with the copy fitted for it. The estimator passed in and the data are left unchanged.",
 ["inputs","configurations"], "all small row counts, split counts, scorers and job counts",
 "tests compare three aggregate scores on one data set",
 ["model_selection/validation.go"], [("per-split gather, fit, score","model_selection/validation.go:CrossValidate")])

prop("C07", "Grid search evaluates the whole grid and returns the true best candidate",
 "Grid search evaluates every combination of the listed parameter values exactly once, each with an estimator carrying exactly those values, and reports each combination's score in the row where its parameter values are listed. The best score, index and parameters are those of the candidate with the highest mean score (or lowest, when lower is declared better; the first listed, on ties), the best estimator is that candidate's copy fitted for its best-scoring fold (the first, on ties), and prediction and scoring of the search delegate to that best estimator.",
 ["inputs","configurations"], "all grids up to three parameters and three values, all assignments of scores to candidates from a small set, both score directions, all job counts",
 "tests run two fixed grids where the winner is obvious",
 ["model_selection/search.go"], [("cartesian product","model_selection/search.go:ParameterGrid"),("argbest","model_selection/search.go:Fit")])

prop("C08", "A pipeline equals the composition of its steps",
 "Fitting a pipeline fits each step, in order, on the output of the steps before it, and predicting, transforming or scoring passes the input through the fitted steps in the same order, so the result equals applying the same steps by hand. Outputs given in preallocated matrices are filled with the same values as returned ones, inverse-transformable target steps are undone on predictions, and the number of outputs and classifier nature are those of the final predictor.",
 ["programs","inputs"], "all pipelines up to three steps drawn from a step alphabet, small data sets, all call histories up to a depth",
 "tests run two fixed pipelines",
 ["pipeline/pipeline.go"], [("step chaining","pipeline/pipeline.go")])

prop("C09", "Cloned estimators are independent and behave as the original did",
 "A clone of an estimator, transformer or pipeline carries the same hyperparameters, so fitting it on any data gives what fitting a fresh equally-configured one gives. After cloning, fitting, refitting or using either one changes nothing observable about the other.",
 ["histories"], "all interleavings of fit/predict on an original and its clone up to a depth, for every clonable estimator",
 "tests clone only implicitly inside cross-validation",
 ["model_selection/validation.go","preprocessing/data.go","linear_model/Base.go","pipeline/pipeline.go","neighbors/classification.go","neural_network/multilayer_perceptron.go","svm/svm.go"],
 [("PredicterClone/TransformerClone","every estimator")])

prop("C10", "Estimators leave inputs unchanged and do not depend on matrix storage layout",
 "Fitting, predicting, transforming, scoring and inverse-transforming never change the matrices the caller passes in as inputs. The result depends only on the input's values and shape: a contiguous dense matrix, a view into a larger matrix and any other matrix type with the same contents give the same output, and a caller-supplied output matrix or view receives exactly the returned values and nothing outside it is written. A fitted model does not change when the caller overwrites those matrices afterwards.",
 ["inputs","programs"], "every estimator and metric, every combination of storage layouts of its inputs and outputs, small data sets",
 "tests pass contiguous dense matrices and do not look at their inputs afterwards",
 ["base/matrix.go","preprocessing/data.go","linear_model/Base.go","neighbors/unsupervised.go","metrics/classification.go"],
 [("ToDense/FromDense and stride-aware loops","base/matrix.go, all packages")])

prop("C11", "Refitting an estimator equals fitting a fresh one",
 "Fitting an already fitted estimator on new data, of the same or another shape, gives exactly the model that a freshly constructed, identically configured estimator gives on that data: nothing learned earlier survives, except where warm start or incremental fitting was asked for. FitTransform gives what Fit followed by Transform gives.",
 ["histories"], "all histories of up to three fits over data sets of different shapes and classes, for every estimator",
 "tests fit each estimator once",
 ["preprocessing/data.go","linear_model/Base.go","naive_bayes/naivebayes.go","neighbors/unsupervised.go","cluster/dbscan.go"],
 [("state reset in Fit","every estimator")])

prop("C12", "Neighbour search returns exactly the true nearest neighbours",
 "Querying for the k nearest fitted points returns k distinct point indices whose distances are the true distances, in ascending order, and no omitted point is closer than the farthest returned one; querying by radius returns exactly the points within the radius with their true distances; a distance bound given to a tree query leaves out exactly the neighbours beyond it, and an approximate query is within its stated factor. This holds for brute force and for the tree, every leaf size, every supported metric and Minkowski power, and with duplicate points, ties and k up to the number of points.",
 ["inputs","configurations"], "all small integer point sets and queries, all leaf sizes, metrics, k and radii",
 "tests query one fixed set per algorithm",
 ["neighbors/kdtree.go","neighbors/unsupervised.go","neighbors/distance.go"],
 [("tree build/query","neighbors/kdtree.go"),("brute force","neighbors/unsupervised.go")])

prop("C13", "Neighbour-based predictors predict from the true neighbourhood",
 "A k-nearest-neighbour classifier predicts a class of maximal total vote among the k nearest training rows and reports as class probabilities the normalised votes; the regressor predicts the (distance-weighted or uniform) mean of their targets, an exactly matching training row dominating under distance weights. The nearest-centroid classifier predicts the class whose centroid is nearest. Each output column is handled independently of the others.",
 ["inputs","configurations"], "all small integer training sets, labelings, queries, k, weightings and metrics",
 "tests predict a few points of one training set",
 ["neighbors/classification.go","neighbors/regression.go","neighbors/nearest_centroid.go"],
 [("vote / weighted mean","neighbors/classification.go, neighbors/regression.go"),("centroids","neighbors/nearest_centroid.go")])

prop("C14", "DBSCAN labels are the density-connected components",
 "DBSCAN marks as core exactly the rows whose radius-neighbourhood weight (the row itself included) reaches the threshold, gives two core rows the same label exactly when a chain of core rows links them by steps within the radius, labels every non-core row within the radius of a core row with such a core row's cluster, and labels all others as noise. Labels are consecutive from zero, and the core-sample list is exactly the core rows.",
 ["inputs","configurations"], "all small integer point sets, radii, thresholds and algorithms",
 "tests cluster two fixed sets",
 ["cluster/dbscan.go"], [("expansion","cluster/dbscan.go:dbscanInner")])

prop("C15", "K-means assigns every row to its nearest centroid and ends at a fixed point",
 "After fitting with the Euclidean distance, every row, fitted or new, is predicted into the cluster whose centroid is nearest, each non-empty cluster's centroid is the mean of the fitted rows predicted into it, centroids are finite, and labels lie in the range of the cluster count. Fitting always terminates, and fitting again on the same rows in the same order gives the same centroids.",
 ["inputs","configurations"], "all small integer data sets in every row order, cluster counts and job counts",
 "tests cluster one data set",
 ["cluster/kmeans.go"], [("Lloyd iteration","cluster/kmeans.go")])

prop("C16", "Classification metrics equal their counting definitions",
 "Accuracy, confusion matrix, precision, recall, F-beta and their averaged variants equal their textbook definitions computed by counting over samples and classes, with sample weights, for every labeling, including never-predicted, never-true and single classes. The classes are the labels that occur as true or as predicted label, support counts the true samples of each class, and the weighted average weights each class by its (weighted) support.",
 ["inputs","configurations"], "all label vectors up to a length over up to three classes, all weightings from a small set, all averages, betas",
 "tests check one or two vectors per metric",
 ["metrics/classification.go"], [("counting","metrics/classification.go")])

prop("C17", "Ranking metrics equal their definitions over all thresholds",
 "ROC and precision-recall curves list exactly the rates obtained by thresholding at each distinct score, with monotone axes and proper end points; the area under the ROC curve equals the probability that a random positive outranks a random negative (ties one half), and average precision equals the step-wise sum over the curve, for all scores with ties and all sample weights.",
 ["inputs"], "all label vectors and score vectors up to a length over small value sets",
 "tests check one vector per function",
 ["metrics/ranking.go"], [("threshold sweep","metrics/ranking.go")])

prop("C18", "Regression metrics equal their definitions",
 "The R2 score, the mean squared error and the mean absolute error equal their definitions for every prediction, single- and multi-output, with and without sample weights and with every aggregation over outputs they support (raw values, uniform average, variance weighted).",
 ["inputs","configurations"], "all small integer matrices, weightings and aggregations",
 "tests check one matrix per metric",
 ["metrics/regression.go"], [("weighted sums","metrics/regression.go")])

prop("C19", "Scalers compute their defining statistics and invert exactly",
 "Min-max, standard, robust and max-abs scaling map each column to the value given by the scaler's definition from the statistics of the data it was fitted on (constant columns included, never producing a non-finite value from finite data), whichever rows are transformed later. Inverse transformation returns the original rows up to rounding.",
 ["inputs","configurations"], "all small integer matrices, feature ranges, centering/scaling switches, fitted and new rows",
 "tests scale one matrix per scaler",
 ["preprocessing/data.go"], [("column statistics","preprocessing/data.go")])

prop("C20", "Incremental fitting in batches equals fitting on all rows at once",
 "For the estimators with incremental fitting (scalers and naive Bayes), feeding the rows in any sequence of non-empty batches gives the same statistics (priors, variances and class lists included), outputs and sample counts as a single fit on all the rows in that order, up to rounding.",
 ["histories"], "all compositions of small data sets into batches, for every estimator with incremental fitting",
 "tests use at most one two-batch sequence",
 ["preprocessing/data.go","naive_bayes/naivebayes.go"], [("moment merging","preprocessing/data.go:IncrementalMeanAndVar, naive_bayes/naivebayes.go")])

prop("C21", "Label encoders round-trip every labeling",
 "Encoding labels and decoding the result returns the original labels, for the label encoder, the label binarizer, the multi-label binarizer and the one-hot encoder, for every labeling with any number of columns and any negative/positive marker values; codes follow the ascending order of the classes, and each binarized row marks exactly the row's own classes; the label encoder gives labels not seen at fit the code -1 and decodes codes that stand for no class to NaN.",
 ["inputs","configurations"], "all small labelings with one or two columns, all class values from a small set, marker values",
 "tests encode one vector per encoder",
 ["preprocessing/label.go","preprocessing/data.go"], [("class tables","preprocessing/label.go")])

prop("C22", "Discretizing, binarizing, imputing and dummy features follow their definitions",
 "Binning puts every value in the bin whose edges enclose it, with edges computed by the chosen strategy and out-of-range values in the end bins, and decoding returns bin centres; thresholding maps to one exactly the values above the threshold; imputing replaces exactly the missing entries by the column's chosen statistic over its present entries; the dummy feature is a prepended constant column. Everything else is passed through unchanged.",
 ["inputs","configurations"], "all small integer matrices with missing entries, strategies, bin counts and thresholds",
 "tests run one matrix per transformer",
 ["preprocessing/discretization.go","preprocessing/imputation.go","preprocessing/data.go"], [("bin edges","preprocessing/discretization.go"),("statistics","preprocessing/imputation.go")])

prop("C23", "Polynomial features are all monomials, in combination order",
 "Polynomial feature expansion produces one column for each combination of input features up to the degree (products of distinct features only, when interactions only are requested, and a constant column exactly when the bias is requested), in the lexicographic order of combinations by degree, each holding that product for every row. The underlying combination generators enumerate every combination exactly once in that order and terminate, under every schedule of their producer.",
 ["inputs","configurations","schedules"], "all feature counts and degrees up to a bound, both switches, all schedules of the generator",
 "tests print degree two on one matrix",
 ["preprocessing/data.go","preprocessing/itertools.go"], [("combination generators","preprocessing/itertools.go")])

prop("C24", "Row/column normalizers and distribution transforms keep their invariants",
 "Normalization divides each row (or column) by its chosen norm, leaving zero vectors untouched; quantile transformation is non-decreasing in each column, interpolates linearly between the column's quantiles, stays within its target range, and maps the fitted minimum (and below) to the lower end and the fitted maximum (and above) to the upper end when the two highest quantiles differ; power transformation follows its formula, is strictly increasing in each column, and its inverse returns the original values; with standardization the output columns have zero mean and unit variance.",
 ["inputs","configurations"], "all small integer matrices, norms, axes, methods and switches",
 "tests run one matrix per transformer",
 ["preprocessing/data.go"], [("norms, quantile interpolation, power maps","preprocessing/data.go")])

prop("C25", "Shuffling, PCA and kernel centering keep their algebraic identities",
 "Shuffling permutes rows of X and Y by one common permutation and its inverse restores the original order; a full-rank PCA projection has orthogonal components ordered by decreasing explained variance and inverts to the input; kernel centering gives the Gram matrix of the centred features.",
 ["inputs","configurations"], "all small integer matrices, component counts and seeds",
 "tests run one matrix per transformer",
 ["preprocessing/data.go"], [("SVD projection","preprocessing/data.go:PCA"),("shuffler","preprocessing/data.go:Shuffler")])

prop("C26", "Least-squares models satisfy the normal equations",
 "For designs of full column rank a fitted linear regression predicts intercept plus features times coefficients, and its residuals are orthogonal to the (centred, when an intercept is fitted) feature columns, so no other coefficients give a smaller squared error; Ridge satisfies the normal equations with its penalty added, and BayesianRidge (single target) those of the precisions it reports, with the predictive standard deviation and the log evidence score that follow from them. This holds for single and multiple targets, with and without intercept and normalization, and each target is fitted as if alone. The gradients of the loss functions are the derivatives of their values.",
 ["inputs","configurations"], "all small integer designs of full rank, targets and switches",
 "tests fit two data sets with a loose tolerance",
 ["linear_model/Base.go"], [("PreprocessData, QR/SVD solve, intercept","linear_model/Base.go")])

prop("C27", "Elastic-net and lasso solutions are optimal for their objective",
 "A converged elastic-net, lasso or multi-task fit satisfies the optimality conditions of its stated objective (with the positivity constraint when requested, for a single target), for every mixing and penalty strength, with and without intercept; the regularisation path returns, for each penalty in the order given, the solution of that penalty.",
 ["inputs","configurations","schedules"], "all small integer designs and targets, penalties, mixings, selection orders",
 "tests fit one data set",
 ["linear_model/coordinatedescent.go"], [("coordinate descent","linear_model/coordinatedescent.go")])

prop("C28", "Logistic regression minimises its penalised log-loss and is a probability model",
 "For a target of one label column with at least two classes, or of one-hot indicator columns: logistic regression's predicted class probabilities are in [0,1], sum to one over classes, and its predicted class is the one of highest probability; at convergence the gradient of the penalised log-loss it claims to minimise vanishes, the losses it records are values of that loss, and a fit stopped early is never worse than its starting point. Classes are the distinct labels in ascending order, whatever their values and the order of rows.",
 ["inputs","configurations"], "all small labelings of small designs, penalties, class counts and label values",
 "tests fit one data set",
 ["linear_model/logistic.go"], [("loss/gradient, label binarizer","linear_model/logistic.go")])

prop("C29", "Gaussian naive Bayes is exact Bayes with per-class Gaussians",
 "After fitting, class priors, per-class means and (smoothed) variances are the weighted sample moments of the rows of each class, posterior probabilities are the normalised products of prior and Gaussian densities and sum to one, and the predicted class is the one of highest posterior.",
 ["inputs","configurations"], "all small integer data sets, labelings, weightings and priors",
 "tests fit one data set",
 ["naive_bayes/naivebayes.go"], [("moment updates, joint log-likelihood","naive_bayes/naivebayes.go")])

prop("C30", "SVM models predict by their stored support expansion and respect the box",
 "A fitted support vector machine keeps only rows with non-zero multipliers (above its tolerance), each within the box given by the penalty and together balanced, and its decision value is the kernel expansion over exactly the stored support vectors plus the bias; SVC, trained on labels -1 and 1, predicts class 1 where the decision value is positive and 0 where it is negative. For a positive definite kernel and distinct rows, whatever random partners the trainer draws, no pair of SVC multipliers can be moved to improve the dual objective by more than the tolerance allows, and rows separated without reaching the box are classified without error. Regression targets inside the tube have no support vectors. The kernel cache size never changes the model.",
 ["inputs","configurations","histories"], "all small integer data sets and labelings, kernels, penalties, cache sizes and seeds",
 "tests fit one data set per kernel",
 ["svm/svm.go","svm/svr.go","svm/cache.go"], [("SMO updates","svm/svm.go"),("kernel cache","svm")])

prop("C31", "Gaussian-process kernels are valid covariance functions",
 "Every Gaussian-process kernel evaluates to its formula, is symmetric with a diagonal equal to its own diagonal evaluation, is positive semidefinite, and sums, products and (integer) powers of kernels evaluate to the sum, product and power of the parts. Gradients on a point set have one entry per hyperparameter that is not fixed and equal the derivatives with respect to the log-hyperparameters; cloning with new hyperparameters changes only the clone; the log marginal likelihood and its gradient equal their closed form, and a fitted regressor with its noise alpha predicts the posterior mean.",
 ["inputs","programs"], "all kernel expressions up to a depth over the kernel alphabet, small point sets, hyperparameter grids",
 "tests evaluate one matrix per kernel",
 ["gaussian_process/kernels/kernels.go","gaussian_process/gpr.go"], [("kernel algebra","gaussian_process/kernels/kernels.go"),("LML","gaussian_process/gpr.go")])

prop("C32", "Neural networks descend their loss gradient and predict their forward pass",
 "A trained multilayer perceptron (float64 or float32) predicts exactly the forward pass of its stored weights, mapped back to the labels it was given. Training with sgd replays its stated algorithm: every mini-batch moves the weights along the negative gradient of the stated, regularized loss on the rows of that batch (with the configured momentum, learning-rate schedule and weight decay), every epoch runs over each training row exactly once, in some order, and the loss history, number of epochs and stopping decision follow from it; with early stopping the held-out rows never train the network and the weights kept are those of the best validation score; lbfgs reports the loss of the weights it leaves and never raises it. Training is reproducible for a seed, a refit equals a fresh fit (with warm start it goes on from the weights of the previous fit, with a fresh optimizer), and the training data is left as it was. Loading serialized weights reproduces the network's predictions.",
 ["inputs","configurations","histories"], "all small architectures, activations, solvers, batch sizes, losses and seeds",
 "tests train two fixed networks",
 ["neural_network/basemlp64.go","neural_network/basemlp32.go","neural_network/multilayer_perceptron.go"], [("backprop, minibatch loop","neural_network/basemlp64.go")])

prop("C33", "Optimizers follow their update rules for every gradient history",
 "Each stochastic optimizer (sgd, adagrad, rmsprop, adadelta, adam, with their momentum, step decay and gradient clipping settings) produces, for every gradient history, the sequence of parameter updates of its update rule, element by element, with the accumulators it carries from step to step; parameters move by exactly the returned update, and the step counter counts updates. Each activation's derivative, given the activation's output, is the derivative of the activation. Used as a gonum optimize method, an optimizer reaches the minimum of a convex quadratic and reports success.",
 ["histories","configurations"], "all gradient sequences up to a depth over a small alphabet, all optimizers and settings",
 "tests only check that a problem converges",
 ["base/optimizers.go"], [("update rules","base/optimizers.go:GetUpdate")])

prop("C34", "Interpolators pass through their knots and are exact on their class",
 "Linear, bilinear and cubic-spline interpolators return the knot values at the knots whatever the order in which the knots are given, are exact for affine (linear, cubic) and bilinear (two-dimensional) data inside the range, linear interpolation lies between its two neighbours, and the cubic spline is twice continuously differentiable with natural ends; outside the range the end pieces are prolonged. The caller's knot arrays are not modified, later changes to them do not change the interpolant, evaluating an interpolant leaves it unchanged, and unknown (NaN) values between known knots are bridged by the linear interpolators.",
 ["inputs"], "all permutations of small knot sets with small integer values, a grid of evaluation points",
 "tests evaluate one curve",
 ["interpolate/interpolate.go","interpolate/cubic.go"], [("bracketing search","interpolate/interpolate.go"),("tridiagonal system","interpolate/cubic.go")])

prop("C35", "Matrix views address exactly the cells they describe",
 "Transposed, row-sliced, column-sliced and sub-matrix views read and write exactly the cells of the underlying matrix they describe, reject out-of-range access, and converting any matrix to dense form and back preserves every cell, whatever the stride of either side.",
 ["inputs","programs"], "all small shapes, strides, slice bounds and view compositions",
 "tests view one matrix",
 ["base/matrix.go"], [("index arithmetic","base/matrix.go")])

prop("C36", "Data generators produce data of the requested shape and model",
 "Generated regression data satisfy targets = informative features times returned coefficients plus bias, with the requested shapes; generated blobs have the requested number of rows and labels within the centre count, with rows centred on their label's centre; the same seed reproduces the same data.",
 ["inputs","configurations"], "all small combinations of sizes, informative counts, target counts and bias kinds",
 "tests print one data set",
 ["datasets/samples_generator.go"], [("generators","datasets/samples_generator.go")])

prop("C37", "Octave data files are read exactly, however they are buffered, and truncation is detected",
 "Loading an Octave binary file, plain or gzip-compressed, returns every stored variable with its exact name, shape and values (the last one stored under a name; only a name ending in .gz is decompressed) wherever fields fall relative to read-buffer and compression-block boundaries, and a file cut short at any byte is reported as an error instead of yielding partial or invented data.",
 ["inputs","faults"], "all small sets of variables, all alignments of fields against the read buffer, every truncation point of each file",
 "tests load two fixed files",
 ["datasets/octave.go"], [("field reader","datasets/octave.go:LoadOctaveBin")])

prop("C38", "Stochastic and gonum linear fits follow the loss they are given",
 "A stochastic linear fit passes, in every epoch, each row of X with its own row of Y exactly once to the loss, in batches of the configured size (the last possibly shorter), moves the parameters after each batch by the solver's update for that batch's gradient, and returns the parameters with the lowest full-data loss over the epochs, together with that loss, stopping early exactly when the tolerance is met. A fit by a gonum optimisation method, jointly or one output at a time, returns a stationary point of the loss. Each loss (square, cross-entropy, log) is the documented sum over the rows it is given, divided by the sample count and with its penalty, and its gradient is its derivative, for any number of rows in the batch and also where predictions saturate. The data is left as it was.",
 ["inputs","configurations","histories"], "all small data sets, batch sizes, sample counts, epochs, solvers, losses and penalties",
 "tests fit a few data sets and check that the error is small",
 ["linear_model/Base.go","linear_model/loss.go","linear_model/ridge.go"], [("batch loop","linear_model/Base.go:LinFit"),("losses and gradients","linear_model/loss.go")])

prop("C39", "Bundled data sets are returned exactly as stored",
 "Every loader of a bundled data set returns every row, feature and target of its file, in order and with exact values, with the names and description stored there, in the slices as in the matrices X and Y; every load is independent of what was done with an earlier result, and X and Y built from a data set do not share its memory. A damaged file (cut short, a row with missing cells, a cell that is not a number, no file) is reported instead of yielding partial data.",
 ["inputs","histories","faults"], "all histories of loads up to a depth, all small tables, number formats and line endings, every prefix of a file",
 "tests print the first rows of two data sets",
 ["datasets/base.go"], [("loaders","datasets/base.go:loadJSON"),("matrices","datasets/base.go:GetXY")])
