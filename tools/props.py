M = 'pystruct/models/'
L = 'pystruct/learners/'
ENGINE_NOTE = ("Sound-by-construction abstract interpretation of the source: array sizes, label values, weights and class weights stay symbolic, branches are joined and loops summarised, so an equality that normalises to zero holds for every input of every size. Trusted: the analyser's model of numpy, documented input shapes and index ranges. Equalities the normaliser cannot settle are listed as undecided in the evidence and never raise an alarm.")
PROPS = [
dict(id='C01', title='Joint features agree with the potentials that inference maximises',
 statement="For every model, input, labelling and weight vector, the inner product of the weights with the joint feature of (input, labelling) equals the score that the potentials handed to the inference back-end assign to that labelling; the same holds for relaxed (marginal) labellings. Predictions come back in the layout of the input, each node carrying the label, or the marginals, that the back-end decided for it. Models without a graph predict a label of highest score.",
 over=['inputs', 'configurations'], quant='all models, graph shapes, sizes, features, weights, discrete and relaxed labellings',
 why='Tests compare features and energies on a few small fixed graphs; the identity quantifies over all graphs, sizes, weights and marginals and over every model configuration.',
 files=[M+'graph_crf.py', M+'edge_feature_graph_crf.py', M+'grid_crf.py', M+'chain_crf.py', M+'multilabel_svm.py', M+'latent_graph_crf.py', M+'latent_node_crf.py', M+'latent_grid_crf.py', M+'node_type_edge_feature_graph_crf.py', M+'unstructured_svm.py', M+'crf.py'],
 mech=[('joint features and potential construction read the same weight layout', M+'*: joint_feature, _get_unary_potentials, _get_pairwise_potentials')],
 observe=['value returned by joint_feature', 'potentials passed to the inference dispatcher', 'labels returned by inference'],
 technique='abstract interpretation over symbolic arrays, algebraic normal forms', level='proof', note=ENGINE_NOTE),
dict(id='C02', title='Loss-augmented inference maximises score plus exactly the reported loss',
 statement="For every model, input, true labelling and weights, the problem solved by loss-augmented inference differs from that of plain inference by exactly the loss the model reports between the true labelling and the candidate, for discrete labellings and for relaxed ones whose marginals are distributions. Pairwise potentials and edges are those of plain inference.",
 over=['inputs', 'configurations'], quant='all models, inputs, true and candidate labellings, class weights, weights',
 why='Tests check single instances, mostly with uniform class weights; the identity is over all labellings, class weights and sizes.',
 files=[M+'crf.py', M+'base.py', M+'typed_crf.py', M+'latent_node_crf.py', M+'latent_graph_crf.py', M+'unstructured_svm.py', 'src/utils.pyx'],
 mech=[('loss augmentation of the unary potentials mirrors the loss', M+'crf.py: loss_augment_unaries; src/utils.pyx; '+M+'base.py: loss')],
 observe=['potentials of the two inference problems', 'loss value'],
 technique='abstract interpretation over symbolic arrays, algebraic normal forms', level='proof', note=ENGINE_NOTE),
dict(id='C03', title='Joint features have the declared dimension; wrong-size weights are rejected',
 statement="For every model and instance, discrete or relaxed, the joint feature vector has exactly the dimension the model declares for its weight vector. Inference and loss-augmented inference of structured models reject, before solving, any weight vector of another dimension.",
 over=['inputs', 'configurations'], quant='all models, sizes, instances; all wrong dimensions',
 why='Tests exercise one size per model and a single wrong size at best.',
 files=[M+'base.py', M+'graph_crf.py', M+'edge_feature_graph_crf.py', M+'latent_node_crf.py', M+'node_type_edge_feature_graph_crf.py', M+'multilabel_svm.py', M+'unstructured_svm.py'],
 mech=[('declared size and weight check', M+'*: _set_size_joint_feature; '+M+'base.py: _check_size_w')],
 observe=['length of the joint feature', 'ValueError on a wrong-size weight vector'],
 technique='symbolic shape analysis by abstract interpretation', level='proof', note=ENGINE_NOTE),
dict(id='C04', title='The loss is a bounded dissimilarity',
 statement="For every model and pair of labellings the loss is zero on equal labellings, never negative, and at most the maximum loss the model reports for the true labelling. The loss of a relaxed labelling that is in fact integral equals the loss of that labelling.",
 over=['inputs', 'configurations'], quant='all models, labellings, class weights',
 why='Tests evaluate the loss on a handful of labellings.',
 files=[M+'base.py', M+'latent_graph_crf.py', M+'latent_node_crf.py', M+'typed_crf.py', M+'grid_crf.py', M+'multilabel_svm.py'],
 mech=[('loss, maximum loss and relaxed loss', M+'base.py: loss, max_loss, continuous_loss')],
 observe=['loss', 'max_loss'],
 technique='abstract interpretation, algebraic normal forms, interval reasoning', level='proof', note=ENGINE_NOTE),
dict(id='C05', title='Operations never modify what the caller passed in',
 statement="Features, inference, loss-augmented inference, loss, latent completion and their batch forms leave every array, list and tuple passed to them (inputs, labels, weights, marginals, class weights) unchanged. The same holds for the inference back-ends and for training and prediction of every learner.",
 over=['inputs', 'configurations'], quant='all models, back-ends, learners, inputs and array layouts',
 why='A stray in-place update shows only through aliasing: tests rarely look at their inputs after the call, and views or no-copy conversions make it depend on dtype and memory layout.',
 files=[M+'base.py', M+'crf.py', M+'grid_crf.py', M+'typed_crf.py', M+'latent_node_crf.py', M+'node_type_edge_feature_graph_crf.py', M+'unstructured_svm.py', 'pystruct/inference/inference_methods.py', 'pystruct/inference/maxprod.py', L+'*.py'],
 mech=[('augmentation and accumulation work on fresh arrays', M+'crf.py: loss_augmented_inference; '+M+'typed_crf.py; '+M+'unstructured_svm.py')],
 observe=['arguments after a call'],
 technique='alias and effect analysis (views, in-place operators, escapes) by abstract interpretation', level='other',
 note='Every store is traced through views and aliases to the allocation it reaches; compiled third-party back-ends are assumed not to write their arguments.'),
dict(id='C06', title='Batch operations are the item-wise operations',
 statement="For every model the batch forms of joint feature, inference, loss-augmented inference and loss agree with applying the single-item operation to each item in order (joint features: summed over items), for batches of every length including empty ones where items are opaque. Options such as relaxed inference and per-item constraints reach each item.",
 over=['inputs', 'configurations'], quant='all models, batch lengths, items, weights, class weights, options',
 why='Vectorised classifier code and the default loops are compared by tests on one or two batches only.',
 files=[M+'base.py', M+'unstructured_svm.py', 'src/utils.pyx'],
 mech=[('batch loops and vectorised kernels', M+'base.py: batch_*; '+M+'unstructured_svm.py: batch_*; src/utils.pyx: crammer_singer_joint_feature')],
 observe=['results of batch_* against the item operations'],
 technique='abstract interpretation over symbolic batches, uninterpreted item operations, normal forms', level='proof', note=ENGINE_NOTE),
dict(id='C07', title='Learner hyper-parameters are kept as given',
 statement="Every constructor parameter of every learner is available, unchanged and not copied, as the attribute of the same name (so that get_params, clone and grid search work), whatever its value. Fitting, predicting and scoring never change any of them.",
 over=['inputs', 'configurations', 'histories'], quant='all parameters of all learners, arbitrary values; all branches of fit on symbolic data',
 why='Tests fit with default parameters and look at the accuracy; an attribute clipped, renamed or overwritten during training only shows when the learner is cloned, inspected or fitted again.',
 files=[L+'ssvm.py', L+'n_slack_ssvm.py', L+'one_slack_ssvm.py', L+'frankwolfe_ssvm.py', L+'subgradient_ssvm.py', L+'subgradient_latent_ssvm.py', L+'structured_perceptron.py', L+'latent_structured_svm.py'],
 mech=[('parameters stored verbatim, derived values kept elsewhere', L+'*: __init__, fit')],
 observe=['attributes named like constructor parameters, after construction and after fit, predict, score'],
 technique='abstract interpretation of constructors with token arguments; path-wise effect analysis of fit', level='other',
 note="Constructors are decided for arbitrary values; fit is followed along combinations of branch outcomes for one and two samples and up to two passes. " + ENGINE_NOTE),
dict(id='C08', title='A cold fit starts afresh',
 statement="Calling fit again without warm start on the n-slack, 1-slack, Frank-Wolfe, perceptron and latent learners learns from the new data alone: weights, constraints and recorded curves are those a newly built learner with the same parameters reaches on the same data. Fitting one learner never influences another one.",
 over=['histories', 'inputs', 'configurations'], quant='all pairs of datasets (one or two samples), all branch outcomes, data symbolic',
 why='Tests fit a new learner every time; state surviving a fit (cached inference results, slacks, multipliers, curves, shared mutable defaults) changes only the second fit.',
 files=[L+'n_slack_ssvm.py', L+'one_slack_ssvm.py', L+'frankwolfe_ssvm.py', L+'structured_perceptron.py', L+'latent_structured_svm.py', L+'ssvm.py'],
 mech=[('state reset at the start of fit', L+'*: fit')],
 observe=['w, constraints_, objective_curve_, primal_objective_curve_, loss_curve_, cached_constraint_ after the second fit'],
 technique='relational abstract interpretation: used learner against fresh learner under the same branch decisions', level='other',
 note="Subgradient learners are not included: they deliberately start from weights set beforehand. Differences are reported only with an input that takes the path. " + ENGINE_NOTE),
dict(id='C22', title='Parallel training and prediction give the sequential result',
 statement="With n_jobs other than 1, n-slack, 1-slack and perceptron training and predict and score of the learners give exactly the result they give with n_jobs=1, although tasks run in other processes and only hand back their return value; results are attributed to the sample they belong to. The same holds for objective_primal.",
 over=['schedules', 'inputs', 'configurations'], quant='all data (up to three samples), all branch outcomes; worker effects on shared objects are lost',
 why='Tests train with one job; the parallel branch duplicates the sequential one and can drift in arguments, order or reliance on side effects.',
 files=[L+'ssvm.py', L+'n_slack_ssvm.py', L+'one_slack_ssvm.py', L+'structured_perceptron.py', L+'subgradient_latent_ssvm.py', 'pystruct/utils/inference.py'],
 mech=[('parallel and sequential branches', L+'*: Parallel(...)(delayed(...)); pystruct/utils/inference.py')],
 observe=['learned state, predictions and scores with n_jobs=2 and n_jobs=1'],
 technique='relational abstract interpretation with process semantics for parallel tasks', level='other',
 note="Subgradient training is not included: it documents other batches for several jobs. joblib is trusted to return results in order. " + ENGINE_NOTE),
dict(id='C10', title='No path reads an unbound name or attribute or makes a call that cannot bind',
 statement="Whichever branches are taken, however often loops run and wherever training is interrupted, no function of the package reads a local variable before it is assigned, or a name or an attribute of itself or of its model that nothing defines. Calls of the package's own functions, and of the models by learners and helpers, pass arguments that the function (for models: of every model class) accepts, and what is raised is an exception.",
 over=['inputs', 'configurations', 'histories'], quant='all Python functions of the package, all paths to every read, all model classes',
 why='Tests cover the ordinary path; a variable left unassigned when no iteration runs, or a misspelt attribute in a rare branch, fails only there.',
 files=['pystruct/**/*.py'],
 mech=[('assignments, attributes and signatures across classes', 'pystruct/**/*.py')],
 observe=['NameError, UnboundLocalError, AttributeError, TypeError on a call'],
 technique='definite-assignment dataflow with path conditions, name, attribute and call-signature resolution over the class hierarchy', level='other',
 note='Paths that hinge on the contents of arrays, calls made only under a condition on which model is used, and attributes of foreign objects are listed as undecided or not analysed.'),
dict(id='C11', title='Margin constraints describe the labelling they were generated from',
 statement="For every model, sample and weights, the constraint found for a sample consists of the labelling that loss-augmented inference returns at those weights, the features of the truth minus the features of that labelling, its loss against the truth, and the positive part of loss minus margin. For latent models the truth is the completion of the label at those weights. This holds for discrete and relaxed labellings, with and without rescaling, and for labellings supplied by the caller.",
 over=['inputs', 'configurations'], quant='all models, samples, weights, discrete and relaxed labellings',
 why='Tests only see that learning reaches a low loss; a constraint paired with the wrong loss or features still trains on easy data.',
 files=['pystruct/utils/inference.py', L+'n_slack_ssvm.py', L+'one_slack_ssvm.py', L+'latent_structured_svm.py'],
 mech=[('constraint construction', 'pystruct/utils/inference.py: find_constraint, find_constraint_latent')],
 observe=['tuple returned by find_constraint'],
 technique='abstract interpretation over an uninterpreted model, algebraic normal forms', level='proof', note=ENGINE_NOTE),
dict(id='C12', title='The cutting-plane learners solve the dual program of their constraints',
 statement="Given its set of constraints, the n-slack learner passes the solver the dual of the margin-rescaled quadratic program: Gram matrix of the feature differences, minus the losses, non-negative multipliers, multipliers of one sample summing to at most C. The one-slack learner does the same with the multipliers summing to n_samples * C. Sign constraints on weights are rows over the same multipliers. The new weights are the multiplier-weighted sum of feature differences, the returned value is the dual objective, and a failed solve is retried with a tiny regulariser and otherwise raises instead of being used.",
 over=['inputs', 'configurations'], quant='all feature differences, losses, C, sign constraints; constraint sets of the listed sizes; solver outcomes',
 why='A wrong multiplier grouping or sign shows up as slightly worse weights, which tests on separable toy data accept.',
 files=[L+'n_slack_ssvm.py', L+'one_slack_ssvm.py'],
 mech=[('assembly of P, q, G, h, A, b and recovery of w', L+'n_slack_ssvm.py: _solve_n_slack_qp; '+L+'one_slack_ssvm.py: _solve_1_slack_qp')],
 observe=['arguments of the QP solver', 'weights after the solve'],
 technique='abstract interpretation with symbolic constraint contents, normal forms of the program entries', level='proof',
 note="Entries of the quadratic program are compared for symbolic feature differences, losses, C and dimension; the number of constraints per sample is enumerated (up to 3). The solver itself is trusted. " + ENGINE_NOTE),
dict(id='C13', title='Predictions and scores depend only on the inputs and the weights',
 statement="For every learner, prediction returns for each input, in order, the labelling inference finds at the learned weights. Number of jobs, batching and empty inputs do not change it, and per-sample constraints reach the sample they belong to. Latent learners map the latent prediction to a label. The score is one minus total loss over total maximal loss, between the given labels and those predictions.",
 over=['inputs', 'configurations'], quant='all learners, inputs, weights, numbers of jobs, batch sizes including zero',
 why='Tests run one or two settings of n_jobs and never compare per-sample pairing of constraints or empty batches.',
 files=[L+'ssvm.py', L+'latent_structured_svm.py', L+'subgradient_latent_ssvm.py'],
 mech=[('predict and score', L+'ssvm.py: predict, score; '+L+'latent_structured_svm.py; '+L+'subgradient_latent_ssvm.py')],
 observe=['values returned by predict, predict_latent, score'],
 technique='abstract interpretation over an uninterpreted model, sequences of symbolic length', level='proof', note=ENGINE_NOTE),
dict(id='C14', title='Online learners perform the documented updates',
 statement="Starting from any weights and for any data, model and parameter values, the subgradient learners (plain, momentum, decaying rates, weight averaging, minibatches, parallel batches, latent) end with the weights of the documented subgradient recursion. The block-coordinate and batch Frank-Wolfe learner ends with those of the Frank-Wolfe recursion (line search or fixed steps, averaging, sampling order), and the perceptron with those of the perceptron rule (batch or online, averaging, decaying rates). The objective recorded last is that of the final weights.",
 over=['inputs', 'histories', 'configurations'], quant='all data, features, losses, parameter values; the first one to three updates in every configuration',
 why='Convergence on toy data hides wrong averaging weights, stale momentum or misplaced scaling; the recursion has to hold for all data.',
 files=[L+'subgradient_ssvm.py', L+'subgradient_latent_ssvm.py', L+'frankwolfe_ssvm.py', L+'structured_perceptron.py'],
 mech=[('update rules', L+'subgradient_ssvm.py: _solve_subgradient; '+L+'frankwolfe_ssvm.py; '+L+'structured_perceptron.py: fit')],
 observe=['w after fit', 'objective_curve_', 'loss_curve_'],
 technique='abstract interpretation of fit over an uninterpreted model, normal form against the documented recursion', level='proof',
 note="Passes and samples are unrolled (at most three updates) while features, losses, rates, C, momentum and dimension stay symbolic, so wrong recursions differ for generic data. " + ENGINE_NOTE),
dict(id='C15', title='Cutting-plane training follows the documented loop',
 statement="N-slack, 1-slack and latent training run the documented cutting-plane loop. A pass adds exactly the constraints that are violated and new (and, if checked, not weaker than known ones), re-solves the dual over all of them after each batch, and stops exactly when nothing was added, the dual objective stalls or max_iter is reached (changing to switch_to first, if set). Weights, constraints, recorded curves and logger calls are those of this loop, also from warm starts, given or cached constraints.",
 over=['inputs', 'histories', 'configurations'], quant='all outcomes of every comparison in the loop for up to three samples and four passes; features, losses, C, tolerances and dimension symbolic',
 why='Tests fit a few toy datasets and check the accuracy; stopping too early, skipping a batch or solving over a stale working set still reaches it.',
 files=[L+'n_slack_ssvm.py', L+'one_slack_ssvm.py', L+'latent_structured_svm.py', L+'ssvm.py', 'pystruct/utils/inference.py', M+'base.py'],
 mech=[('working set, dual solve and stopping rule', L+'n_slack_ssvm.py: fit; '+L+'one_slack_ssvm.py: fit; '+L+'latent_structured_svm.py: fit')],
 observe=['w, constraints_, objective_curve_, primal_objective_curve_, loss_curve_, cached_constraint_ after fit', 'logger calls', 'ValueError on bad inference'],
 technique='path-wise abstract interpretation against a reference loop under the same branch decisions', level='other',
 note="Every decision the loop takes on symbolic data is settled both ways; along each path the method's state is compared in normal form with the state of the reference loop under the same decisions. Paths are sampled when there are more than the bound. Differences are reported only with an input under which all decisions hold. " + ENGINE_NOTE),
dict(id='C16', title='Latent states belong to the labels they complete',
 statement="For the latent-variable models every latent state belongs to exactly one label (hidden nodes: to none), and the loss of two latent labellings is the base loss of the labels they stand for. Completing labels with latent states, and initialising latent states, only ever yields states of the given labels (or a ValueError), whatever the solver answers, and a consistent answer of the solver is returned as it is. The completion problem ranks the latent labellings of the given labels as the model does and, for potentials of moderate size, makes states of other labels unattractive at every node.",
 over=['inputs', 'configurations'], quant='all latent models, labellings, weights, solver answers, numbers of states per label',
 why='Tests complete a few labellings on which the solver behaves; inconsistent answers, uneven blocks of states and negative potentials do not occur in them.',
 files=[M+'latent_graph_crf.py', M+'latent_node_crf.py', M+'latent_grid_crf.py'],
 mech=[('states map, penalised completion with fallback, k-means initialisation', M+'latent_*.py: label_from_latent, latent, init_latent, loss, base_loss')],
 observe=['result of latent and init_latent', 'potentials passed to the dispatcher by latent', 'loss and base_loss'],
 technique='abstract interpretation: normal forms of layout, loss and completion problem; enumerated solver answers', level='other',
 note="Layout, loss and the completion problem are decided for all sizes; completions and initial states for every labelling and every solver answer on small graphs; attractiveness for sampled exact potentials substituted in the extracted expressions."),
dict(id='C17', title='Inference back-ends solve the given problem and decode it faithfully',
 statement="For all graphs and potentials, each inference back-end hands its solver exactly the problem given (for the built-in linear program: the local relaxation, every labelling feasible and every edge consistent), with the requested options and constraints. The labels, marginals and energies reported are those its solver found, for one or several node types. An inference exception is raised exactly when it was requested and the discrete solution is not integral; potentials of mismatched sizes are rejected.",
 over=['inputs', 'configurations'], quant='all potentials, graph sizes, label counts and node types; all back-ends and options; solver outcomes',
 why='Tests compare a few small solutions between back-ends that happen to be installed; wrong rows, scalings or decodings only show for particular graphs, several node types or non-integral outcomes.',
 files=['pystruct/inference/inference_methods.py', 'pystruct/inference/linear_programming.py', 'pystruct/inference/common.py', M+'typed_crf.py', M+'crf.py'],
 mech=[('problem construction and decoding per back-end', 'pystruct/inference/inference_methods.py: inference_*; linear_programming.py: lp_general_graph')],
 observe=['arguments of the external solver', 'labels, marginals and energy returned', 'InferenceException, ValueError'],
 technique='abstract interpretation with recorded solver calls, normal forms; rank argument for the linear program', level='proof',
 note="The linear program is enumerated for small graphs (its equality constraints are compared with the affine hull of all labellings); every other back-end is compared for symbolic sizes. External solvers are trusted. " + ENGINE_NOTE),
dict(id='C18', title='Models adopt the sizes of their data and reject what contradicts them',
 statement="Initialising a model without sizes makes it the model that would have been built with the sizes of the data; declared sizes and class weights are kept, and data of any other number of features, labels or edge features, class weights of another length, and (for the multi-type model) edges, labels or arrays that do not fit the declared types raise an error. Once initialised, inference and features of the graph models reject instances with another number of features, and inference rejects weights of another length. Every learner initialises the model with the training data before anything else uses it, and not at all when told not to.",
 over=['inputs', 'configurations', 'histories'], quant='all numbers of features and edge features (symbolic), two and three labels, every model and learner; every single contradiction of the listed kinds',
 why='Tests initialise with matching data; a missing or lazily skipped check shows only as an obscure failure, or as silently wrong results, on inconsistent data.',
 files=[M+'crf.py', M+'base.py', M+'graph_crf.py', M+'chain_crf.py', M+'grid_crf.py', M+'edge_feature_graph_crf.py', M+'multilabel_svm.py', M+'unstructured_svm.py', M+'latent_graph_crf.py', M+'latent_node_crf.py', M+'latent_grid_crf.py', M+'typed_crf.py', M+'node_type_edge_feature_graph_crf.py', L+'*.py'],
 mech=[('sizes adopted and compared', M+'*: initialize, _set_size_joint_feature, _set_class_weight, _check_size_x, _check_size_xy'), ('learners initialise first', L+'*: fit')],
 observe=['attributes of the model after initialize', 'ValueError', 'order of calls to the model in fit'],
 technique='abstract interpretation of initialize and its users on enumerated, symbolically sized data', level='other',
 note='Feature counts stay symbolic (the contradicting count is larger by any positive number); label sets, graphs and contradictions are enumerated.'),
dict(id='C19', title='Saving stores the whole learner but its cache, and leaves it alone',
 statement="SaveLogger saves exactly when told 'final' or when the iteration is a multiple of save_every, to the file name given with %d replaced by the iteration (or by 'final'). What is stored is the learner with all attributes except the inference cache; afterwards, also when opening or storing fails, the learner has all its attributes back unchanged and an error is passed on, and load returns what the file holds. Every learner reports itself to its logger, the cutting-plane, subgradient, Frank-Wolfe and perceptron learners with 'final' as the last report.",
 over=['inputs', 'histories'], quant='all learners (attributes opaque), with and without a cache; iterations 0..21 and final for six periods; working and failing files',
 why='One test saves one learner once; failing saves, patterns in file names and uncommon periods do not occur.',
 files=['pystruct/utils/logging.py', L+'*.py'],
 mech=[('periodic saving without the cache', 'pystruct/utils/logging.py: SaveLogger.__call__, save, load'), ('reports of the learners', L+'*: fit')],
 observe=['files opened, objects dumped, attributes of the learner afterwards', 'calls of the logger'],
 technique='abstract interpretation with recorded and failing file operations', level='other',
 note='open, pickle.dump and pickle.load are trusted and replaced by recorders; the learner is an opaque object.'),
dict(id='C20', title='Pruning keeps constraints and their bookkeeping paired',
 statement="When inactive constraints are pruned, exactly the constraints active within the window are kept, in order. The inactivity counters (n-slack) or dual histories (one-slack) that remain belong to the constraints that remain, and a window of zero prunes nothing.",
 over=['histories', 'configurations'], quant='all combinations of active and inactive multipliers over the listed bookkeeping states',
 why='Pruning only triggers after many iterations without activity; mispaired records show as constraints silently vanishing later.',
 files=[L+'n_slack_ssvm.py', L+'one_slack_ssvm.py'],
 mech=[('pruning in lockstep', L+'*_slack_ssvm.py: prune_constraints')],
 observe=['constraint list and records after pruning'],
 technique='abstract interpretation over enumerated activity patterns with opaque constraints', level='other',
 note='Constraints are opaque; every combination of multiplier activity and record state up to three constraints is interpreted and compared by identity.'),
dict(id='C21', title='Graph and label helpers compute exactly what they are defined to',
 statement="Grid graphs link exactly the neighbouring cells, every edge once, each direction in its own group, and edge features mark that direction. Chains link consecutive nodes. The forest test accepts exactly the graphs without cycles. Compressing an expanded symmetric matrix gives back the vector, and symmetrising adds up both triangles. Labels of typed models keep their value when flattened and grouped by type again. Exhaustive inference, plain or loss-augmented, returns a labelling of highest score.",
 over=['inputs', 'configurations'], quant='entries, labels, features and weights symbolic; grids, graphs and matrices of every listed shape',
 why='Tests use square grids and one matrix size; single rows, single cells, rectangular grids, parallel edges and ties do not occur.',
 files=['pystruct/utils/graph.py', 'pystruct/utils/graph_functions.py', 'pystruct/utils/inference.py', M+'chain_crf.py', M+'typed_crf.py', M+'node_type_edge_feature_graph_crf.py'],
 mech=[('index arithmetic of the helpers', 'pystruct/utils/graph.py: make_grid_edges, edge_list_to_features; graph_functions.py: is_forest; utils/inference.py: expand_sym, compress_sym, exhaustive_inference')],
 observe=['arrays and labellings returned'],
 technique='abstract interpretation with concrete shapes and symbolic entries, compared with the definition', level='other',
 note='Shapes are enumerated (grids up to 4x4 quick, 7x7 thorough; all graphs on up to four vertices); entries stay symbolic. ' + ENGINE_NOTE),
dict(id='C23', title='Max-product inference is exact on chains and forests',
 statement="Whenever the edges form a chain, a tree or a forest - in any order and orientation, with isolated nodes, with shared or separate pairwise potentials - max-product inference returns a labelling whose score is the maximum over all labellings, also when several labellings tie. On graphs with cycles it still returns one label per node.",
 over=['inputs', 'configurations'], quant='all real potentials and label counts; forests up to the listed size, all orientations',
 why='Tests use a few random chains and trees, where ties, single nodes, unusual orientations and extreme potentials do not occur.',
 files=['pystruct/inference/maxprod.py', 'pystruct/inference/_viterbi.pyx', 'pystruct/utils/graph_functions.py', 'pystruct/inference/common.py'],
 mech=[('dynamic programming', 'pystruct/inference/maxprod.py: tree_max_product; _viterbi.pyx: viterbi')],
 observe=['labels returned by max-product inference'],
 technique='abstract interpretation over symbolic potentials, rewriting of nested maxima to the maximum over all labellings', level='proof',
 note="Forests are enumerated up to four nodes (five for selected shapes); potentials and the number of labels are symbolic. Real arithmetic is exact in the analysis. " + ENGINE_NOTE),
dict(id='X01', title='Training reaches the optimum within its tolerance',
 statement="Learners stop at a solution whose primal objective is within the requested tolerance of the optimum.",
 over=['inputs', 'histories'], quant='all data sets and hyper-parameters', why='Tests look at the accuracy of a few fitted models.',
 files=[L+'n_slack_ssvm.py', L+'one_slack_ssvm.py', L+'frankwolfe_ssvm.py', L+'subgradient_ssvm.py'],
 mech=[('stopping rules', L+'*: fit')], observe=['objective_curve_', 'primal_objective_curve_'],
 na='Convergence depends on the numerical values met during training and on the external QP solver; no static argument in reach bounds them. The steps, subproblems and stopping comparisons themselves are decided under C12, C14 and C15.'),
dict(id='X02', title='Approximate inference is close to exact inference',
 statement="AD3, QPBO, OpenGM and loopy max-product return labellings whose score is close to the best one.",
 over=['inputs'], quant='all graphs with cycles and all potentials', why='Tests compare back-ends on small random grids.',
 files=['pystruct/inference/inference_methods.py', 'pystruct/inference/maxprod.py'],
 mech=[('external solvers; loopy message passing', 'pystruct/inference/*')], observe=['score of the labelling returned'],
 na='The solvers are compiled third-party code outside the repository, and loopy message passing has no guarantee to decide. What is handed to them and how their answers are decoded is decided under C17; exactness on forests under C23.'),
dict(id='X03', title='Results are accurate in floating point',
 statement="Features, potentials, losses and objectives are accurate to rounding error for inputs of every magnitude.",
 over=['inputs'], quant='all floating-point inputs', why='Tests use small well-scaled numbers.',
 files=[M+'*.py', L+'*.py', 'src/utils.pyx', 'pystruct/inference/_viterbi.pyx'],
 mech=[('numpy and compiled arithmetic', M+'*')], observe=['returned numbers'],
 na='Needs a bound on runtime magnitudes that the interface does not give; the analysis works with exact real arithmetic.'),
]
