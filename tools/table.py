def q(over, text):
    return {"over": over.split(), "text": text}

def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

I = "include/albatross/src/"
DST = "deterministic simulation: seeded search over thread schedules and injected faults; "

PROPERTIES = [
 dict(
  id="P01",
  title="Pooled apply equals serial apply",
  statement="Applying a function to a vector, map or grouped data through a thread pool calls it exactly once per item with that item's own key and value and returns the same results, in the same order or under the same keys, as the serial call, whatever the pool size and thread interleaving. When the call returns every callback has finished and its side effects are visible to the caller, the input is unchanged, and callers sharing one pool do not affect each other.",
  quantifier=q("schedules inputs configurations", "every interleaving of workers and clients, every input size from empty upwards, every pool size including none and one worker, every form of apply"),
  why_tests_cant="The async tests sample a few container shapes on whatever schedule the machine happens to produce, and are not even in the reliable baseline; a lost wait or a mixed-up future only shows under particular interleavings.",
  anchors=dict(files=[I+"utils/async_utils.hpp", I+"indexing/apply.hpp", I+"indexing/group_by.hpp"],
    mechanism=m(("one future per item, collected in order", I+"utils/async_utils.hpp apply/apply_map"), ("serial fallback", I+"utils/async_utils.hpp detail::should_serial_apply")),
    observe_at=["return value of apply", "writes made by callbacks"]),
  technique=DST+"oracle = independent serial loop + race detector",
  level_note="Seeded random and PCT schedules with stalls and spurious wake-ups over all forms of apply, exact comparison with an independent serial model plus happens-before race detection; no exhaustiveness is claimed. The ThreadPool is a stub."),
 dict(
  id="P02",
  title="A failing pooled apply is contained and reported",
  statement="If a callback throws, or a task cannot be queued or allocated, while a function is applied through a thread pool, the call exits with an exception, and when only callbacks fail it is the same exception the serial call would raise (the first failing item in iteration order, type and content preserved). No callback of that call is running or starts later once the call has exited, no item is processed more than once, and the pool and its other users keep working correctly.",
  quantifier=q("fault_sequences schedules inputs", "every set of failing items, every position of an enqueue, allocation or thread-spawn failure, every interleaving"),
  why_tests_cant="No test lets a pooled callback fail, and the damage (work on a dead stack frame) depends on the schedule after the failure.",
  anchors=dict(files=[I+"utils/async_utils.hpp"],
    mechanism=m(("exceptions travel through futures", I+"utils/async_utils.hpp f.get()"), ("pending tasks are waited for", I+"utils/async_utils.hpp detail::WaitForPending"))),
  technique=DST+"throwing callbacks, enqueue/allocation/spawn failures",
  level_note="Seeded schedules crossed with injected callback, enqueue, allocation and thread-spawn failures; checks the exception, containment, at-most-once and pool reuse. Allocation and enqueue failures only with a single client, where the outcome can be predicted."),
 dict(
  id="P03",
  title="Pool accelerated numerics give the serial answer",
  statement="Covariance and cross covariance matrices, block diagonal factorizations and solves, blocks of an inverse, leave-one-group-out predictions, Gaussian process fits, cross validation, numerical gradients and greedy tuning give the same result with a thread pool of any size as without one, and that result is the one defined by an independent dense computation, for every input size (empty, fewer items than workers, not a multiple of the number of workers) and every interleaving; no data race occurs.",
  quantifier=q("schedules inputs configurations", "every interleaving, every matrix and block size, every pool size, every operation that takes a pool"),
  why_tests_cant="The unit tests compare one or two sizes on the host's schedule; a wrong split of the work or a shared scratch object only shows for particular sizes, worker counts and interleavings.",
  anchors=dict(files=[I+"covariance_functions/callers.hpp", I+"linalg/block_diagonal.hpp", I+"linalg/block_utils.hpp", I+"evaluation/cross_validation_utils.hpp", I+"tune/finite_difference.hpp", I+"tune/greedy_tuner.hpp", I+"eigen/serializable_ldlt.hpp"],
    mechanism=m(("split of rows and columns over workers", I+"covariance_functions/callers.hpp compute_covariance_matrix"), ("per block tasks", I+"linalg/block_diagonal.hpp"), ("per dimension evaluations", I+"tune/finite_difference.hpp compute_gradient")),
    observe_at=["returned matrices, distributions, gradients and parameters"]),
  technique=DST+"oracle = serial run and independent dense algebra + race detector",
  level_note="Seeded random and PCT schedules with stalls and spurious wake-ups over all pooled numerical operations; comparison with the serial run and an independent dense computation, plus happens-before race detection. Matrices are well conditioned by construction."),
 dict(
  id="P04",
  title="Const use of models and data from many threads is safe",
  statement="Any number of threads may at the same time fit, predict with, update from, cross validate, score, save, copy, subset, group or print the same models, fit models, predictions, data sets and covariance functions through const access, while each modifies only objects of its own. There is no data race, no operation changes what it is given as const, and every operation returns exactly what it returns when it is made alone, whatever the interleaving and whether or not the objects share a thread pool.",
  quantifier=q("schedules inputs configurations", "every combination of const operations on shared objects, every interleaving, every model type"),
  why_tests_cant="The test suite uses every object from one thread; hidden caches, shared scratch space and writes behind const only show when two operations overlap.",
  anchors=dict(files=[I+"core/model.hpp", I+"core/fit_model.hpp", I+"core/prediction.hpp", I+"models/gp.hpp", I+"models/sparse_gp.hpp", I+"models/ransac.hpp", I+"covariance_functions/", I+"core/dataset.hpp", I+"cereal/"],
    mechanism=m(("const predict, fit and update", I+"core/model.hpp, "+I+"core/fit_model.hpp"), ("stateless covariance functions", I+"covariance_functions/callers.hpp"), ("save takes const objects", I+"cereal/gp.hpp")),
    observe_at=["return values of const operations", "memory accesses"]),
  technique=DST+"oracle = the same operation made alone, bit for bit + race detector",
  level_note="Two to four client threads draw lists of const operations over shared GP, sparse GP, linear, RANSAC, null and conditional models and covariance functions; bitwise comparison with a solo run plus happens-before race detection. Uninstrumented libraries (SuiteSparse) are outside race detection."),
 dict(
  id="P05",
  title="Online Gaussian process updates equal the batch posterior",
  statement="A Gaussian process fit that is updated with batches of measurements as they arrive gives, after any number of updates, the predictive mean, variance and joint covariance of one fit to all the measurements applied so far, for all feature types, mean functions and measurement noise. This holds whatever order batches arrive in and however often a batch is delivered, for replicas restarted from a serialized snapshot, for fits built from a prediction, and with concurrent readers of the old fit; an update never changes the fit it starts from, and an update that fails leaves the fit usable and unchanged. The log likelihood of a data set is its density under the same prior and noise.",
  quantifier=q("histories fault_sequences schedules crash_points inputs", "every order, loss with retransmission and duplication of batches, every restart point, every interleaving of replicas and readers, every data set up to the size bounds"),
  why_tests_cant="The repository's update test uses one batch of one feature type on one thread; errors that build up over several updates, depend on arrival order or involve a restart are outside it.",
  anchors=dict(files=[I+"models/gp.hpp", I+"core/fit_model.hpp", I+"models/conditional_gaussian.hpp", I+"cereal/gp.hpp", I+"linalg/block_symmetric.hpp"],
    mechanism=m(("block update of the factorization", I+"models/gp.hpp gp_update / BlockSymmetric"), ("update / update_in_place", I+"core/fit_model.hpp FitModel")),
    observe_at=["mean, marginal and joint predictions", "serialized fit"]),
  technique=DST+"lossy/reordering/duplicating delivery, crash and restart; oracle = dense batch posterior",
  level_note="A simulated source and up to three replicas; message loss, duplication and reordering, crash and restart from serialized snapshots, allocation failures, concurrent readers. Reference is an independent dense conditional Gaussian. Data sets of up to about thirty measurements."),
 dict(
  id="P06",
  title="Sparse Gaussian processes track their defined posterior online",
  statement="A sparse Gaussian process predicts the FITC/PITC posterior that its inducing points and groups define, and keeps doing so after every online update, in-place update, rebase onto other inducing points, construction from a prediction and restart from a serialized snapshot, whatever the order, loss, reordering and duplication of batches; its log likelihood is that of the same approximation. Dense and sparse QR factorizations, with and without a mean function and a thread pool, agree.",
  quantifier=q("histories fault_sequences schedules crash_points inputs configurations", "every delivery order with loss and duplication, every restart and rebase point, every grouping, inducing point strategy and QR implementation"),
  why_tests_cant="The tests check one data set per strategy and a single update; the recursive square-root update and rebase accumulate state across a history that tests do not sample.",
  anchors=dict(files=[I+"models/sparse_gp.hpp", I+"linalg/block_diagonal.hpp", I+"linalg/spqr_utils.hpp", I+"linalg/qr_utils.hpp", I+"cereal/gp.hpp"],
    mechanism=m(("QR of the stacked square roots", I+"models/sparse_gp.hpp _fit_impl/_update_impl"), ("rebase_inducing_points", I+"models/sparse_gp.hpp")),
    observe_at=["mean, marginal and joint predictions", "log_likelihood", "serialized fit"]),
  technique=DST+"lossy/reordering/duplicating delivery, crash and restart; oracle = dense FITC/PITC reference",
  level_note="Same simulated network and restarts as P05 over three model configurations; tolerance 2e-5 against an independent dense FITC/PITC formula. Allocation failures are not injected in the SuiteSparse configuration, which turns them into an abort."),
 dict(
  id="P07",
  title="What is saved is what is loaded and damaged files are never taken for data",
  statement="Every serializable object (matrices, permutations, factorizations, distributions, data sets, parameters and priors, variants, models, fit models, RANSAC results, thread pools) loaded from a complete binary, portable binary or JSON archive has the contents of the saved one and behaves identically: same predictions, solves and later updates, same bytes when saved again, also into an object used before and with several archives active at once. Saving changes nothing. A file that was cut short, a disk that filled up or an allocation that failed is always reported (exception, stream state or failed assertion), never silently loaded or saved as different data, and a retry succeeds.",
  quantifier=q("inputs fault_sequences crash_points schedules", "all object contents including empty, non-finite and extreme values; every archive type; every cut position, disk capacity, read chunking and failing allocation"),
  why_tests_cant="The tests round trip a few fixed objects through healthy streams and compare with operator==, which ignores part of the state; they never cut a file, fill a disk or fail an allocation.",
  anchors=dict(files=[I+"cereal/eigen.hpp", I+"cereal/serializable_ldlt.hpp", I+"cereal/gp.hpp", I+"cereal/distribution.hpp", I+"cereal/parameters.hpp", I+"cereal/priors.hpp", I+"cereal/variant.hpp", I+"cereal/serializable_spqr.hpp", I+"cereal/block_utils.hpp", I+"cereal/representations.hpp"],
    mechanism=m(("save/load pairs per type", "include/albatross/src/cereal"), ("compressed payloads checked against their size", I+"cereal/eigen.hpp"), ("class versions", I+"cereal/traits.hpp")),
    observe_at=["public accessors", "predictions, solves and updates of the loaded object", "archive bytes", "exceptions and stream state"]),
  technique=DST+"in-memory disk with short reads, truncation, capacity and failing allocations; oracle = canonical contents and behaviour of the saved object, bit for bit",
  level_note="Small objects of about forty types, three archive types, up to three concurrent clients. Allocation failures are excluded in JSON archives (rapidjson) and while an existing Eigen matrix is resized. In-place corruption is outside the property (no checksum in the format)."),
 dict(
  id="P13",
  title="RANSAC returns the best consensus its callbacks and configuration define",
  statement="For any callbacks and configuration RANSAC draws the requested number of different groups in each iteration, every group equally likely; splits all other groups into inliers (metric at most the threshold) and outliers with exactly the metrics the callback gives; scores a consensus only if it is large enough; and returns the iteration with the smallest score, the first of equals, never one whose score is not a number while another has one. The number of iterations, the limit on rejected candidate sets and the return code follow the configuration, and invalid arguments are refused without calling anything. The result is a function of the call alone, however often, from however many threads and after whatever failures it is made; a callback's exception or a failed allocation reaches the caller and leaves nothing behind. A RANSAC model's fit is its sub model fit to exactly the best consensus, the Gaussian process strategy scores groups as conditioning from scratch does, and results are equal only if all their parts are.",
  quantifier=q("inputs configurations fault_sequences schedules", "every group set, configuration, behaviour of the callbacks (including NaN, infinite and tied metrics, rejected candidates, exceptions), failing allocation and interleaving of concurrent calls"),
  why_tests_cant="The tests run RANSAC on one data set with two obvious outliers and reasonable settings; ties, NaN scores, rejected candidates, boundary sizes, failing callbacks and concurrent calls are not sampled, and no test recomputes the metrics independently.",
  anchors=dict(files=[I+"models/ransac.hpp", I+"models/ransac_gp.hpp", I+"models/conditional_gaussian.hpp", I+"utils/random_utils.hpp", I+"evaluation/differential_entropy.hpp"],
    mechanism=m(("iteration loop and best so far", I+"models/ransac.hpp ransac"), ("generic and GP strategies", I+"models/ransac.hpp get_generic_ransac_functions, "+I+"models/ransac_gp.hpp get_gp_ransac_functions"), ("sampling", I+"utils/random_utils.hpp randint_without_replacement")),
    observe_at=["RansacOutput", "calls of the callbacks", "predictions of a RANSAC fit"]),
  technique=DST+"simulated adversarial callbacks, throwing callbacks, failing allocations; oracle = independent check of every iteration and dense conditioning",
  level_note="Up to eight groups with hash-defined callbacks (ties, NaN, infinities), one to three concurrent clients, an exception at any callback or a failure of any allocation followed by a retry; models with leave-one-out and custom groups against independent refits and dense conditional Gaussians. Evenness of sampling is checked with a seven-sigma bound over 300-400 iterations."),
 dict(
  id="P12",
  title="Tuners return the best parameters they evaluated, within bounds",
  statement="Tuning a function of named parameters, of a vector or of a model starts at the initial values in their order, evaluates the objective only at parameters inside their priors' bounds with fixed parameters, names and priors untouched, and returns the best parameters it evaluated (never worse than the start), whatever the objective returns (plateaus, noise, NaN, infinity) and however evaluation or time limits, long stalls or a full log disk cut it short. A model tuner evaluates every data set with the model under exactly the proposed parameters and leaves the model alone. Numerical derivatives are those of the objective, one sided at a bound and zero where the way down leaves the bounds. Greedy tuning moves one parameter at a time and gives the same result with any thread pool. An exception in the objective ends the tuning with an exception and no further evaluation, and the tuner can be used again with the same result as if nothing had happened.",
  quantifier=q("inputs configurations fault_sequences schedules", "every parameter set and prior, initial values on and off the bounds, every objective, limit, failing evaluation, log capacity, pool size and interleaving of concurrent tunings"),
  why_tests_cant="The tests tune one smooth quadratic of three parameters from the interior; bounds, orderings of many parameters, non-finite objectives, failures and time limits are not sampled.",
  anchors=dict(files=[I+"tune/tune.hpp", I+"tune/greedy_tuner.hpp", I+"tune/finite_difference.hpp", I+"tune/tuning_metrics.hpp", I+"core/parameters.hpp", I+"core/priors.hpp"],
    mechanism=m(("parameters to optimizer coordinates and back", I+"core/parameters.hpp get_tunable_parameters/set_tunable_params_values"), ("objective wrappers", I+"tune/tune.hpp GenericTuner::tune"), ("greedy search", I+"tune/greedy_tuner.hpp greedy_tune"), ("finite differences", I+"tune/finite_difference.hpp compute_gradient")),
    observe_at=["arguments of the objective", "returned parameters", "gradients"]),
  technique=DST+"simulated objectives that throw, stall or return NaN, simulated clock for time limits, full log disk; oracle = record of every evaluation",
  level_note="One to four parameters of eight prior kinds (vectors of up to fourteen), up to 150 evaluations, up to three concurrent tunings; NLopt's own algorithms are trusted. For gradient based optimizers only 'no worse than the start' is required, for smooth objectives."),
 dict(
  id="P11",
  title="The ensemble sampler moves by its rule; checkpoints restore it",
  statement="Sampling yields one state per iteration plus the first, each also given to the callback in order. The first state keeps every finite initial walker and replaces the others by evaluated points between finite ones (fewer than three finite walkers are refused). Every later proposal stretches a walker along one walker of the other half of the ensemble as it is at that moment, by a factor between 1/2 and 2; it is accepted exactly when the log ratio (with the dimension's volume factor) beats a log uniform, never when not finite; a walker holds its proposal or stays put, and its log probability is that of its parameters. The chain is a function of the seed alone, whatever other samplings run, whether callbacks' streams run out of disk and whatever failed before; an exception ends it with no further call. For a model the log probability is the log likelihood with those parameters, the model is unchanged and the tracked maximum is the best walker seen. A checkpoint file holds every walker's values without loss, and reading one cut anywhere, or unreadable in part, gives back exactly the last iteration's rows in it or is refused.",
  quantifier=q("inputs schedules fault_sequences crash_points histories", "every target, dimension, number of walkers and seed, every interleaving of samplings, every failing call, allocation, disk limit and read error, every length of the checkpoint left by a crash"),
  why_tests_cant="The tests look at summary statistics of two one-dimensional chains, where the volume factor vanishes, and never fail a callback, cut a file or resume.",
  anchors=dict(files=[I+"samplers/ensemble.hpp", I+"samplers/initialization.hpp", I+"samplers/callbacks.hpp", I+"utils/random_utils.hpp", I+"utils/csv_utils.hpp"],
    mechanism=m(("stretch move", I+"samplers/ensemble.hpp stretch_move_step"), ("replacement of unusable walkers", I+"samplers/initialization.hpp ensure_finite_initial_state"), ("checkpoint writing", I+"samplers/callbacks.hpp CsvWritingCallback"), ("checkpoint reading", I+"samplers/initialization.hpp initial_params_from_csv")),
    observe_at=["calls of the log probability", "states and callbacks", "bytes of the checkpoint"]),
  technique=DST+"simulated targets that throw or return NaN, a disk that fills up, a crash at any byte of the checkpoint, read errors, allocation failures; oracle = every recorded call against the move's definition, 7 sigma calibration of acceptance, stretch and partner",
  level_note="Up to 15 walkers, 4 dimensions, 60 iterations and three concurrent samplings per run; acceptance is checked exactly where the log ratio decides and statistically within a run otherwise. One known finding: a last value cut in the middle of its digits cannot be told from a whole one."),
 dict(
  id="P10",
  title="CSV exports hold every value in its column and show lost data",
  statement="Exporting data sets and predictions as CSV writes one header with every column that any feature, metadata entry or prediction of any of the data sets has, and then one line per measurement with exactly one cell per column: the value itself under its own name (features without loss, targets and predictions with their variances as printed), and an empty cell where a measurement has no such value. The bytes are the same for a file, a pipe or any other stream, whichever threads export the same data at the same time, and the stream stays good; when the device refuses bytes at any point, what it holds is the beginning of the complete export and the stream says that it failed. Nothing exported changes the data.",
  quantifier=q("inputs configurations fault_sequences schedules", "every mixture of features with different optional fields, any number of data sets (empty ones too), every form of export, every capacity of the device, seekable or not, every failing allocation and interleaving of exporters"),
  why_tests_cant="The tests write into a string stream of unlimited size from data sets with equal columns and only check that it can be parsed; csv.h, which they need, is not even installed here.",
  anchors=dict(files=[I+"utils/csv_utils.hpp", I+"core/dataset.hpp", I+"samplers/callbacks.hpp"],
    mechanism=m(("columns", I+"utils/csv_utils.hpp get_column_names/write_header"), ("rows", I+"utils/csv_utils.hpp write_row"), ("features to cells", I+"utils/csv_utils.hpp to_map/flatten_xml_serialization")),
    observe_at=["bytes on the device", "state of the stream"]),
  technique=DST+"full disks, closed pipes, streams that throw, allocation failures; oracle = independent table of cells",
  level_note="Up to three data sets of four measurements, three kinds of features (XML, own to_map, double), up to three concurrent exporters. Values contain no separators: the format has no quoting. Allocation failures inside cereal's XML archive, whose streams swallow them, are not judged."),
 dict(
  id="P20",
  title="A failing operation is reported and leaves nothing behind",
  statement="When memory runs out or a user supplied covariance function, mean function or grouper throws at any point of a fit, prediction, update, likelihood, prior, cross validation, score, RANSAC, grouping, subset, copy, parameter change of a copy, serialization or covariance evaluation, with or without a thread pool, the operation ends with exactly that exception (it is never swallowed, replaced by another one or turned into a wrong result). Everything it allocated is released, no shared object has changed, and the same operation and all others afterwards return bit for bit what they return if nothing had failed.",
  quantifier=q("fault_sequences inputs configurations schedules", "every position of the failing allocation or call in every operation, every model type, any number of failures in a row, every interleaving of pool workers"),
  why_tests_cant="No test lets an allocation or a user function fail inside a model, and there are thousands of positions at which that can happen.",
  anchors=dict(files=[I+"core/model.hpp", I+"core/fit_model.hpp", I+"core/prediction.hpp", I+"models/gp.hpp", I+"models/sparse_gp.hpp", I+"models/least_squares.hpp", I+"models/ransac.hpp", I+"models/conditional_gaussian.hpp", I+"covariance_functions/", I+"evaluation/", I+"indexing/group_by.hpp"],
    mechanism=m(("results are built in local objects", I+"core/model.hpp, "+I+"models/gp.hpp"), ("copies for cross validation", I+"evaluation/cross_validation.hpp"), ("exceptions travel through futures", I+"utils/async_utils.hpp")),
    observe_at=["exceptions", "live heap blocks", "results of later operations"]),
  technique=DST+"one allocation or user function fails at a drawn position; oracle = the fault-free result, bit for bit, and the balance of heap blocks",
  level_note="About fifty const operations on five kinds of models and on covariance functions, up to four failures per run. Allocation failures are not injected where SuiteSparse or rapidjson (which do not check) would meet them."),
 dict(
  id="P08",
  title="Data sets, groups and folds keep values with what they belong to",
  statement="Through any history of subset, concatenate (also of different feature types), filter, deduplicate (which keeps the last of equal features), align, group_by (with any grouper, k folds and leave one out), apply, with, combine, folds, cross validation, linear transformation and changes of grouped objects, every feature keeps its own target mean and variance; nothing is lost, duplicated or reordered except as the operation says. Every group holds exactly the items with its key in their order, training and test sets of a fold are complementary, no model that predicts a group has seen it, predictions and scores return in the original order, and inputs and copies are unchanged, also when a user function throws or memory runs out, and with other threads using the same data.",
  quantifier=q("histories inputs fault_sequences schedules", "every sequence of operations on every data set (empty, equal features, empty selections, repeated and reordered indices), every grouping, every failing call or allocation"),
  why_tests_cant="Tests group and subset a few hand made data sets once; mixed up targets show only in histories of operations on data whose items can be told apart, and never as a crash.",
  anchors=dict(files=[I+"core/dataset.hpp", I+"core/distribution.hpp", I+"core/concatenate.hpp", I+"core/linear_combination.hpp", I+"core/transformed_distribution.hpp", I+"indexing/", I+"evaluation/folds.hpp", I+"evaluation/cross_validation.hpp", I+"evaluation/cross_validation_utils.hpp"],
    mechanism=m(("groups are sets of indices", I+"indexing/group_by.hpp build_indexer"), ("features and targets are subset with the same indices", I+"core/dataset.hpp subset"), ("held out predictions are put back by index", I+"evaluation/cross_validation_utils.hpp set_subset")),
    observe_at=["features, means and variances of every result", "what a model is fitted to and asked for", "the inputs afterwards", "printed output"]),
  technique=DST+"histories of operations on items with an identity, throwing user functions, failing allocations and concurrent clients; oracle = a reference model made of identities",
  level_note="Data sets of up to about 24 items, up to ten operations per client, up to three clients. Alignment of data sets with duplicates, and metadata, are not judged; in-place operations are not judged under failing allocations (Eigen's assignment is not safe then)."),
 dict(
  id="P09",
  title="Compressed data comes back exactly or the damage is reported",
  statement="Whatever strings or arrays are compressed, at any level, by any number of threads, every way of decompressing gives back the same bytes, from shared constant payloads too, and compressing the same data again gives the same payload. A payload cut at any point, with anything appended, stored twice, or asked for as a different number of elements is refused; with any other damage reading ends in a refusal or in as many bytes as the payload announces, all ways to read agree, and no byte outside the destination is written. Failing allocations and errors of the library are reported as an exception or a refusal, never as wrong data, and leak nothing.",
  quantifier=q("inputs crash_points fault_sequences schedules", "all contents, element types, levels; every truncation point and storage fault; every failing allocation; interleavings of clients"),
  why_tests_cant="Tests round-trip whole payloads on one thread and feed two invalid strings; which bytes a crash or a medium leaves behind, and failing libraries, are outside of them.",
  anchors=dict(files=[I+"utils/compress.hpp", I+"cereal/eigen.hpp"],
    mechanism=m(("the announced size is compared with the request before and after decompression", I+"utils/compress.hpp internal::maybe_decompress"), ("bounded destination", I+"utils/compress.hpp compress")),
    observe_at=["the bytes read back and the guards around them", "return values, assertions and exceptions", "live heap blocks"]),
  technique=DST+"storage faults on payloads (truncation, torn, stale, dropped, misdirected and doubled data, flipped bits), failing allocations and library calls, concurrent clients; oracle = the bytes stored",
  level_note="Payloads of up to about 160 kB, mostly below 4 kB; libzstd runs uninstrumented behind a seam that marks its buffers and contexts for the race detector. Frames carry no checksum, so altered bytes are not required to be noticed."),
 dict(
  id="P14",
  title="Parameters are what was last set, wherever they are, and nothing else changes",
  statement="For every object with parameters (covariance, mean and scaling functions, their sums and products, measurement_only, Gaussian process, sparse, RANSAC and null models, plain stores) and every history of setting parameters, values and priors, one or many, with or without requiring that they exist, through tunable vectors, copying, assigning and moving: every parameter has the value and prior last set, the function values follow them, a name shared by several components is one parameter, tunable vectors list the free parameters by name in their scale and within their bounds and setting them back changes nothing. A refused request (unknown name, wrong count) changes nothing; copies are independent, also in other threads; equality is equality of values and priors; a failed allocation leaves every parameter old or new.",
  quantifier=q("histories inputs fault_sequences schedules", "all sequences of operations on all composed objects, all priors and values, every failing allocation, concurrent use of copies"),
  why_tests_cant="Tests set a few parameters of a few objects once; a parameter that is set in the wrong component, or kept elsewhere than it is read, shows only for particular compositions and orders of operations.",
  anchors=dict(files=[I+"core/parameters.hpp", I+"core/parameter_handling_mixin.hpp", I+"core/parameter_macros.hpp", I+"core/priors.hpp", I+"covariance_functions/", I+"models/gp.hpp", I+"models/sparse_gp.hpp", I+"models/null_model.hpp", I+"models/ransac.hpp"],
    mechanism=m(("checked on a copy, then set", I+"core/parameter_handling_mixin.hpp set_params"), ("composition asks each side", I+"core/parameter_handling_mixin.hpp set_param_if_exists_in_any"), ("tunable vectors", I+"core/parameters.hpp get_tunable_parameters set_tunable_params_values")),
    observe_at=["get_params, get_param_value, tunable vectors, printed text", "values of the functions the parameters belong to", "assertions and return values"]),
  technique=DST+"histories of operations on composed objects by concurrent clients with failing allocations; oracle = a reference store and closed formulas of the values",
  level_note="16 kinds of objects, up to 14 operations per client, up to three clients with three objects each. The formulas of prior densities are taken from the code."),
 dict(
  id="P15",
  title="Random draws have the distribution asked for and only depend on their generator",
  statement="Every draw is what was asked for: samples without replacement are distinct, in bounds and equally likely; random fills, covariances and sparse matrices have the sizes, eigen values and densities requested; multivariate normal samples (plain, by decomposition, antithetic in mirrored pairs) have exactly the requested mean and covariance as a linear map of standard normals; a weighted energy score is the score of dimensions stretched by the square root of the weights and never negative beyond rounding. A draw is a function of its arguments and generator alone, whatever other threads draw at the same time and whatever was drawn before; generators advance, so successive draws differ; impossible requests and failing allocations are reported.",
  quantifier=q("histories inputs schedules fault_sequences", "all sizes, bounds, covariances, generators' states and interleavings of clients, every failing allocation"),
  why_tests_cant="Tests look at a handful of seeds and sizes on one thread; a biased or shared draw, or a permuted covariance, passes them and every result stays plausible.",
  anchors=dict(files=[I+"utils/random_utils.hpp", I+"evaluation/prediction_metrics.hpp", I+"stats/"],
    mechanism=m(("samples without replacement", I+"utils/random_utils.hpp randint_without_replacement"), ("normal draws through a decomposition", I+"evaluation/prediction_metrics.hpp draw_mvn"), ("pairs of samples for the energy score", I+"evaluation/prediction_metrics.hpp energy_score")),
    observe_at=["values drawn", "the factor recovered from draws with the same generator", "exceptions"]),
  technique=DST+"seeded generators behind the simulator, concurrent clients, failing allocations; oracle = exact constraints, recovered linear factors, frequencies with error probability below 1e-13, and the same draw made alone",
  level_note="Up to 60 of up to 60 items, covariances of up to 8 rows, three clients. Empty covariances are refused by Eigen and not judged."),
 dict(
  id="P16",
  title="Covariances and means of composed terms and features follow their definition",
  statement="For every covariance or mean function put together from terms (user defined and built in) by sums, products, constants, scaling terms, nugget, noise and measurement_only, and for every pair of features however wrapped (plain, measured, alternatives of a variant, linear combinations, of each other), the value is what the definition says: sums add, products multiply, a scaling term scales each side it applies to, a linear combination is the weighted sum over its parts, a variant is the alternative it holds, a measurement only term counts between measurements only, undefined pairs count zero. Values are symmetric, matrices, cross covariances, diagonals, mean vectors and products with sparse matrices agree entry by entry with single values, pooled or not, from any thread, and follow the parameters in force at the call; failing allocations and throwing terms are reported and change nothing.",
  quantifier=q("inputs histories schedules fault_sequences", "all nestings of features and terms, numbers of features and pool sizes, all histories of parameter changes, all failing allocations and interleavings of concurrent evaluations"),
  why_tests_cant="Tests try a few nestings each; which overload is chosen depends on the whole nesting of term and feature types, and a wrong choice gives a plausible number.",
  anchors=dict(files=[I+"covariance_functions/callers.hpp", I+"covariance_functions/covariance_function.hpp", I+"covariance_functions/mean_function.hpp", I+"covariance_functions/scaling_function.hpp", I+"covariance_functions/measurement.hpp", I+"covariance_functions/polynomials.hpp", I+"covariance_functions/noise.hpp", I+"covariance_functions/radial.hpp", I+"covariance_functions/distance_metrics.hpp", I+"covariance_functions/call_trace.hpp", I+"core/linear_combination.hpp", I+"core/concatenate.hpp", I+"linalg/", I+"models/gp.hpp"],
    mechanism=m(("which caller answers for which feature types", I+"covariance_functions/callers.hpp DefaultCaller"), ("sums and products ask the side that is defined", I+"covariance_functions/covariance_function.hpp SumOfCovarianceFunctions ProductOfCovarianceFunctions"), ("one call per pair of features, in blocks", I+"covariance_functions/callers.hpp compute_covariance_matrix")),
    observe_at=["values of single calls", "matrices, cross covariances, diagonals and mean vectors", "prior of a Gaussian process"]),
  technique=DST+"histories of parameter changes and evaluations of composed functions by concurrent clients and pools, failing allocations; oracle = an expression tree evaluated on flattened features",
  level_note="Up to 12 features a side (sometimes 47), basic features of a few types, pools of up to 4. Which terms see a measurement of a linear combination is only asked for functions which do not tell measurements from other features."),
 dict(
  id="P17",
  title="Fits and predictions are snapshots of what they were made from",
  statement="A fit model gives the predictions of the model and data set it was fit with, whatever is done afterwards to that model, data set, features, thread pool or to other fits: parameters set, models refit, copied, assigned, moved or destroyed, data changed in place. Predictions (mean, marginal, joint, with or without measurement noise, made from named or temporary fits, asked in any order, repeatedly, from any thread) depend on nothing but the fit and the features at the time, their mean agrees with that of marginal and joint, variances with the diagonal of the joint; fits compare equal exactly if what they were made from is. The model's most specific predict method is used. Exceptions of user models and failing allocations come out, change neither model nor fits, and leave later predictions right.",
  quantifier=q("histories schedules fault_sequences inputs", "all histories of fits, changes, copies, moves and predictions over all kinds of models, throwing user models, failing allocations, concurrent clients"),
  why_tests_cant="Tests predict right after a fit; a reference where there should be a copy, or a cached result, shows only after what it refers to has changed or gone.",
  anchors=dict(files=[I+"core/fit_model.hpp", I+"core/prediction.hpp", I+"core/model.hpp", I+"models/gp.hpp", I+"models/sparse_gp.hpp", I+"models/least_squares.hpp", I+"models/null_model.hpp", I+"models/conditional_gaussian.hpp", I+"models/ransac.hpp"],
    mechanism=m(("model and fit are stored by value", I+"core/fit_model.hpp FitModel"), ("a temporary fit is moved into the prediction, features are copied", I+"core/prediction.hpp Prediction"), ("mean, marginal and joint fall back on each other", I+"core/prediction.hpp MeanPredictor MarginalPredictor JointPredictor")),
    observe_at=["means, marginals and joints of every prediction", "equality of fits", "exceptions"]),
  technique=DST+"histories of fits, changes, moves and predictions by concurrent clients, throwing models and failing allocations; oracle = a new model fit to the data recorded at the time of the fit",
  level_note="Up to about 12 measurements and 6 features per prediction. A prediction made from a named fit refers to it by design and is not used after that fit was changed."),dict(
  id="P18",
  title="Structured matrices answer as the matrices they stand for",
  statement="Block diagonal matrices and their factorizations, factorizations grown block by block (also of each other, from copies that are gone, and bordering a block diagonal one), covariances explained by a prediction, stored inverses, grouped blocks and dense and sparse QR decompositions give for every operation (products, differences, solves, square root products and solves of vectors, matrices, expressions and slices, blocks and diagonals of inverses, log determinants, condition numbers, norms, diagonals, dense forms, sizes, truncated solves, stacked matrices, equality) what the dense matrix they stand for gives, at any scale, with any pivoting, with and without a thread pool, from any number of threads sharing them. Changing a copy does not change the original; a failed allocation is reported, leaks nothing and a retry succeeds; representations of different sizes, or never computed, compare as different.",
  quantifier=q("inputs schedules histories fault_sequences", "all block structures, scales, pivot orders and shapes of right hand sides, all interleavings of clients and pools, every failing allocation"),
  why_tests_cant="Tests try one or two structures with well scaled blocks on one thread; offsets, pivots and thresholds matter only for other shapes, scales and orders.",
  anchors=dict(files=[I+"linalg/block_diagonal.hpp", I+"linalg/block_symmetric.hpp", I+"linalg/block_utils.hpp", I+"linalg/qr_utils.hpp", I+"linalg/spqr_utils.hpp", I+"eigen/serializable_ldlt.hpp", I+"covariance_functions/representations.hpp", I+"utils/eigen_utils.hpp"],
    mechanism=m(("block by block at running offsets", I+"linalg/block_diagonal.hpp BlockDiagonalLDLT::solve"), ("rules for block inversion", I+"linalg/block_symmetric.hpp BlockSymmetric::solve"), ("pivots and thresholds of square roots", I+"eigen/serializable_ldlt.hpp sqrt_solve diagonal_sqrt_inverse")),
    observe_at=["matrices, vectors and numbers returned", "equality", "exceptions and heap blocks"]),
  technique=DST+"random structures shared by concurrent clients and pools, histories of growing, copying and changing, failing allocations; oracle = dense matrices, square roots judged by their squares",
  level_note="Up to 20 blocks of up to 4 rows, three levels of growth, up to three clients. Condition numbers are estimates and judged within a factor. Sparse right hand sides do not compile with this Eigen."),dict(
  id="P19",
  title="Evaluation scores the held out predictions it names",
  statement="Cross validation of every kind of model (with the shortcut of Gaussian processes, their thread pools and mean functions, or by fitting each fold) gives for every grouping (one out, k folds, by function, by given indices that overlap or leave measurements out, in any order) the prediction of each group from everything else, in the requested form (mean, marginal, joint; per group or put back together in the order of the data), and one score per group in the order of the groups, equal to the metric's definition (root mean square error, standard deviation, negative log likelihood of marginal and joint predictions with the truth's variance, chi squared probability, any user metric); leave one (group) out conditionals and likelihoods, the log densities of priors they include, differential entropy, Wasserstein distance and continuous ranked probability scores equal theirs. Any number of threads may evaluate the same model and data; a model that throws and a failed allocation are reported with their reason, leak nothing, and a retry succeeds.",
  quantifier=q("inputs schedules histories fault_sequences", "all data sets, measurement variances, groupings, models, metrics and priors, all interleavings of clients and pools, every failing call of the model and allocation"),
  why_tests_cant="Tests compare a shortcut with the generic path for a few data sets, of equal variances, on one thread; scores that mix up groups, orders, variances or folds agree on those.",
  anchors=dict(files=[I+"evaluation/cross_validation.hpp", I+"evaluation/cross_validation_utils.hpp", I+"evaluation/folds.hpp", I+"evaluation/prediction_metrics.hpp", I+"evaluation/model_metrics.hpp", I+"evaluation/likelihood.hpp", I+"evaluation/differential_entropy.hpp", I+"stats/chi_squared.hpp", I+"core/priors.hpp", I+"models/least_squares.hpp"],
    mechanism=m(("blocks of the inverse instead of refitting", I+"evaluation/cross_validation_utils.hpp held_out_predictions"), ("one fold per group, the rest to train", I+"evaluation/folds.hpp create_fold"), ("the truth's variance added to the prediction's", I+"evaluation/prediction_metrics.hpp negative_log_likelihood")),
    observe_at=["scores and held out predictions returned", "exceptions and heap blocks"]),
  technique=DST+"random data, groupings, models and metrics evaluated by concurrent clients and pools with throwing models and failing allocations; oracle = conditional distributions, refits and definitions written out in the harness",
  level_note="3 to 26 measurements, up to three clients. Chi squared by its closed forms, ranked probability scores by quadrature. The energy score is P15's; the variogram score does not run with this Eigen."),
]
NOTES = "Every check builds its own binary from /repo's working tree (headers) into /verif/build (git-ignored). VERIF_SEED selects the base seed. Replay a violation with ./check.sh --replay PROPERTY FILE."
