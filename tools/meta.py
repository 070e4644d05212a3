"""What each property says (source of properties.jsonl, MANIFEST.json and of
the per-property part of DESIGN.md; run tools/mk.py)."""
P = {}


def prop(id, title, statement, over, text, why, files, mech, design,
         level='model_checking', technique=None, note=None):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(title=title, statement=statement, over=over, text=text,
                 why=why, files=files, mech=mech, design=design, level=level,
                 technique=technique or
                 'symbolic execution of the Python/Cython source + SMT (z3)',
                 note=note)


M = 'pystruct/models/'
I = 'pystruct/inference/'
L = 'pystruct/learners/'

prop('C01', 'The score of a labeling equals the potentials that inference maximises',
     'For every model over a graph, chain, grid or multi-label structure, the '
     'score of a labeling - the dot product of the weights with the joint '
     'feature vector of input and labeling - equals the sum of the unary and '
     'pairwise potentials handed to the inference method for the same '
     'weights, for every labeling. This holds for directed and undirected '
     'edges, every orientation and order of the edges, isolated nodes, '
     'graphs without edges and edge features (with symmetric and '
     'antisymmetric ones declared), for features given as floating point, '
     'integers or booleans and labels of any integer type, and the joint '
     'feature vector always has the size the model announces.',
     ['inputs', 'configurations'],
     'all real weights and features, all labelings, all edge lists in bounds',
     'Tests compare a few random graphs with a few random weights; a wrong '
     'transpose, an index slip for one orientation or one state count shows '
     'only for particular edge lists and labelings.',
     [M + 'graph_crf.py', M + 'chain_crf.py', M + 'grid_crf.py',
      M + 'edge_feature_graph_crf.py', M + 'multilabel_svm.py'],
     [('joint_feature', M + 'graph_crf.py'),
      ('_get_unary_potentials / _get_pairwise_potentials', M + 'graph_crf.py')],
     'The public inference() is run symbolically with weights and features as '
     'real variables; the potentials that reach the third-party solver '
     '(ad3 boundary) are captured. For every labeling (and once more with one '
     'symbolic labeling) the assertion w.joint_feature(x, y) = sum of captured '
     'potentials is decided by the solver: a polynomial identity in w and x.')

prop('C02', 'Score equals inferred potentials for models with several node types',
     'For models with several node types, each with its own states and '
     'features and with edges between any pair of types, the dot product of '
     'the weights with the joint feature vector of a labeling equals the sum '
     'of the per-type unary and per-pair pairwise potentials handed to the '
     'inference method, for every labeling. This holds if nodes of some type '
     'or edges of some kind are absent, and the joint feature vector has the '
     'announced size.',
     ['inputs', 'configurations'],
     'all real weights and features, all labelings, type layouts in bounds',
     'Tests use a handful of hand-written two-type instances; offsets of the '
     'weights per type pair can be wrong for other layouts only.',
     [M + 'node_type_edge_feature_graph_crf.py', M + 'typed_crf.py'],
     [('joint_feature', M + 'node_type_edge_feature_graph_crf.py'),
      ('_get_pairwise_potentials', M + 'node_type_edge_feature_graph_crf.py')],
     'As C01, with lists of potentials per type captured at the ad3 boundary, '
     'over listed layouts (1-4 types, unequal states, features and edge '
     'features, missing types) and one symbolic edge between any two nodes.')

prop('C03', 'Score equals inferred potentials for models with hidden states or nodes',
     'For the models with hidden states per label and those with extra hidden '
     'nodes, the dot product of the weights with the joint feature vector of '
     'a complete labeling equals the sum of the potentials handed to '
     'inference, for every labeling in which visible nodes take visible '
     'states and hidden nodes take hidden states.',
     ['inputs', 'configurations'],
     'all real weights and features, all admissible labelings in bounds',
     'Tests check single random instances of equal state counts per label.',
     [M + 'latent_graph_crf.py', M + 'latent_grid_crf.py',
      M + 'latent_node_crf.py'],
     [('joint_feature', M + 'latent_node_crf.py'),
      ('_get_pairwise_potentials', M + 'latent_node_crf.py')],
     'As C01 over admissible labelings.')

prop('C04', 'Joint features of relaxed labelings extend the integral ones linearly',
     'The joint feature vector of a relaxed labeling (node marginals and edge '
     'marginals, as returned by relaxed inference) is linear in the marginals, '
     'its dot product with the weights equals the potentials weighted by the '
     'marginals, and for the 0/1 marginals of an integral labeling it equals '
     'the joint feature vector of that labeling.',
     ['inputs', 'configurations'],
     'all real weights, features and marginals; all labelings in bounds',
     'Tests compare one LP answer on grids; a wrong axis or reduction of the '
     'edge marginals is invisible for symmetric or integral answers.',
     [M + 'graph_crf.py', M + 'edge_feature_graph_crf.py',
      M + 'node_type_edge_feature_graph_crf.py', M + 'latent_node_crf.py',
      M + 'multilabel_svm.py'],
     [('joint_feature with a tuple y', M + 'graph_crf.py')],
     'Marginals are free real variables, so the equality with the potentials '
     'is an identity the solver decides for every relaxed labeling; integral '
     'one-hot marginals are compared with the integral joint feature.')

prop('C05', 'Loss-augmented inference maximises score plus loss',
     'The potentials that loss-augmented inference maximises give every '
     'candidate labeling its score plus its task loss against the true '
     'labeling, for every model, any class weights, and any true labeling; '
     'the task loss is the sum of the class weights of the wrongly labeled '
     'nodes.',
     ['inputs', 'configurations'],
     'all real weights, features and class weights, all pairs of labelings',
     'Tests use uniform class weights and random graphs; indexing the wrong '
     'class weight shows only for non-uniform weights and some label pairs.',
     [M + 'crf.py', M + 'base.py', 'src/utils.pyx', M + 'typed_crf.py',
      M + 'latent_graph_crf.py', M + 'latent_node_crf.py',
      M + 'multilabel_svm.py'],
     [('loss_augmented_inference', M + 'crf.py'),
      ('loss_augment_unaries', 'src/utils.pyx'), ('loss', M + 'base.py')],
     'loss_augmented_inference() runs symbolically with the true labeling '
     'symbolic (Cython kernel translated too); the potentials captured at the '
     'solver boundary are compared with w.joint_feature + loss for every '
     'candidate.')

prop('C06', 'The task loss is nonnegative, zero exactly on the truth, bounded, additive',
     'For every model the task loss is nonnegative, zero if and only if the '
     'labelings agree (for positive class weights), never above the maximal '
     'loss of the true labeling, and the batch version gives the per-sample '
     'values. For a relaxed labeling it is the expected loss under the node '
     'marginals, and it agrees with the integral loss on 0/1 marginals.',
     ['inputs', 'configurations'],
     'all pairs of labelings, class weights and relaxed labelings in bounds',
     'Tests check a few labelings with uniform weights.',
     [M + 'base.py', M + 'unstructured_svm.py', M + 'latent_node_crf.py',
      M + 'typed_crf.py', M + 'latent_graph_crf.py'],
     [('loss / max_loss / continuous_loss / batch_loss', M + 'base.py')],
     'Labelings are symbolic integers, class weights and marginals symbolic '
     'reals; each axiom is one query per configuration.')

prop('C08', 'Max-product on a chain is exact',
     'Max-product inference on a chain returns a labeling whose score no '
     'other labeling exceeds, for all potentials including ties, with one '
     'pairwise matrix for all edges or one per edge, and leaves its inputs '
     'unchanged.',
     ['inputs'],
     'all real potentials for chains in bounds',
     'Tests compare with other solvers on random potentials; ties, ignored '
     'last edges or a transposed matrix for some edge need particular values.',
     [I + 'maxprod.py', I + '_viterbi.pyx'],
     [('viterbi', I + '_viterbi.pyx'), ('inference_max_product', I + 'maxprod.py')],
     'The Cython Viterbi kernel is translated and executed with symbolic '
     'potentials; the answer is compared with every labeling of the chain.')

prop('C09', 'Max-product on any forest is exact, ties included',
     'On any graph without cycles - any numbering, order and orientation of '
     'the edges, isolated nodes, several components - max-product inference '
     'returns a labeling whose score no other labeling exceeds, also when '
     'several labelings tie for the best score.',
     ['inputs', 'configurations'],
     'all real potentials, all forests in bounds',
     'Tests run a few random trees with continuous random potentials, so no '
     'tie and only a few edge orders ever occur.',
     [I + 'maxprod.py', I + 'common.py'],
     [('tree_max_product', I + 'maxprod.py'), ('is_forest', I + 'maxprod.py')],
     'Forest, orientation and order of the edges are symbolic choices, the '
     'potentials symbolic reals; the answer is compared with every labeling.')

prop('C10', 'Max-product on cyclic graphs returns admissible, decomposition-exact labels',
     'On graphs with cycles max-product inference returns exactly one '
     'admissible state per node and leaves its inputs unchanged, whatever the '
     'potentials, damping and iteration limits. It is exact when the '
     'interactions vanish or decompose into terms per end point.',
     ['inputs', 'configurations'],
     'all real potentials, graphs in bounds',
     'Tests only look at one or two random grids.',
     [I + 'maxprod.py'], [('iterative_max_product', I + 'maxprod.py')],
     'Message passing is executed symbolically for a bounded number of '
     'rounds.')

prop('C11', 'The LP relaxation bounds every labeling and rounds to the largest marginal',
     'Linear-programming inference optimises over node and edge marginals '
     'that are locally consistent, with the given potentials as objective: '
     'every labeling is feasible with its own score, the optimum is an upper '
     'bound for the score of every labeling, and an integral optimum is a '
     'best labeling. Labels are rounded to the largest node marginal, relaxed '
     'answers are the marginals per node and edge, and the reported energy is '
     'minus the optimal score.',
     ['inputs', 'configurations'],
     'all real potentials, all feasible and optimal points, graphs in bounds',
     'Tests compare with other solvers on random instances; a missing or '
     'duplicated constraint matters only for particular potentials.',
     [I + 'linear_programming.py', I + 'inference_methods.py'],
     [('lp_general_graph', I + 'linear_programming.py'),
      ('inference_lp', I + 'inference_methods.py')],
     'The matrices handed to the LP solver are captured with symbolic '
     'potentials; feasibility, objective, local consistency and bounds are '
     'decided for an arbitrary feasible/optimal point (KKT conditions).')

prop('C12', 'Inference reports exactly what the solver answered, on every path',
     'Every inference call hands the given problem and options to the chosen '
     'method and decodes its answer in one way: labels of the largest '
     'marginal per node (in the numbering of the node types), the marginals '
     'when a relaxed answer was asked for and the solution is not integral, '
     'the energy when asked for, and an exception when requested and no exact '
     'answer was found. Potentials that do not fit the graph and unknown '
     'methods are rejected.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all solver answers and statuses, all real potentials, options, models',
     'The solver decides which status and marginals occur in a test; '
     'fractional and unsolved answers hardly ever do.',
     [I + 'inference_methods.py', M + 'crf.py', M + 'typed_crf.py',
      M + 'latent_grid_crf.py', M + 'grid_crf.py'],
     [('inference_dispatch', I + 'inference_methods.py'),
      ('inference / loss_augmented_inference', M + 'crf.py')],
     'The third-party solver is a stub with an arbitrary answer (symbolic '
     'marginals, value, status); the decoded result is compared with it.')

prop('C13', 'Binary and multi-class models predict and separate exactly',
     'Unstructured binary and multi-class models predict a class of largest '
     'score, their loss-augmented prediction is a class of largest score plus '
     'loss (with any class weights), and the batch versions of joint features, '
     'prediction, loss-augmented prediction and loss give the per-sample '
     'results, also for integer or boolean features and read-only arrays.',
     ['inputs'],
     'all real weights and samples, labels and class weights in bounds',
     'Tests use blobs; ties, class weights and rescaling are hardly sampled.',
     [M + 'unstructured_svm.py'],
     [('MultiClassClf / BinaryClf', M + 'unstructured_svm.py')],
     'All methods are executed symbolically and compared over all classes.')

prop('C22', 'Completing a labeling keeps the labels and takes the best completion',
     'Latent-variable models complete a labeling with hidden states or hidden '
     'nodes such that projecting the completion back (label_from_latent) gives '
     'the labeling, also for the initial completion from clustering, which '
     'groups the nodes of every label on their own features. With an exact '
     'solver the completion has the largest score of all completions, whatever '
     'the weights.',
     ['inputs', 'configurations'],
     'all real weights, all labelings, all clusterings, graphs in bounds',
     'Tests complete a few ground-truth labelings at learned weights; '
     'large or negative potentials and ties never occur.',
     [M + 'latent_graph_crf.py', M + 'latent_grid_crf.py',
      M + 'latent_node_crf.py', M + 'base.py'],
     [('latent / init_latent / label_from_latent', M + 'latent_graph_crf.py'),
      ('latent / init_latent / label_from_latent', M + 'latent_node_crf.py')],
     'latent() and init_latent() are executed symbolically with an exact '
     'solver stub (any ties), an arbitrary solver and an arbitrary '
     'clustering.')

prop('C30', 'Hidden-node models give every node a state of its own kind, the best ones',
     'Inference and loss-augmented inference of models with hidden nodes give '
     'visible nodes visible states and hidden nodes hidden states, whatever '
     'the weights and features; with an exact solver (or max-product on '
     'forests) the answer has the largest score (plus loss) of all such '
     'labelings.',
     ['inputs', 'configurations'],
     'all real potentials, graphs in bounds',
     'Tests use weights of moderate size, where a fixed penalty suffices.',
     [M + 'latent_node_crf.py', I + 'common.py'],
     [('_get_unary_potentials', M + 'latent_node_crf.py'),
      ('inference / loss_augmented_inference', M + 'crf.py')],
     'Inference is executed symbolically with an exact solver stub (any ties) '
     'and compared with every admissible labeling.')

prop('C07', 'The most violated constraint and the primal objective are computed exactly',
     'find_constraint returns the labeling of one loss-augmented inference at '
     'the given weights (or the labeling it is given), the difference of the '
     'joint features of truth and labeling, the loss of that labeling '
     '(relaxed ones by their expected loss) and the slack max(0, loss - '
     'w.difference); with exact inference no labeling has a larger slack. '
     'find_constraint_latent does so against the completed truth. '
     'objective_primal (and the objective the learners report) is C times the '
     'sum of the slacks of all samples plus half the squared norm of the '
     'weights, for any number of jobs and every variant.',
     ['inputs', 'configurations'],
     'all real weights, features, losses, C and inference answers in bounds',
     'Tests check that slacks are nonnegative on blobs; a wrong sign, a '
     'missing rescaling argument or a loss of the wrong labeling goes '
     'unnoticed.',
     ['pystruct/utils/inference.py', L + 'ssvm.py'],
     [('find_constraint / find_constraint_latent / objective_primal',
       'pystruct/utils/inference.py')],
     'The functions are executed symbolically on a model whose joint '
     'features, losses and answers are free variables (it stands for every '
     'model), and on the built-in models with an exact solver stub (any '
     'ties), where every labeling is compared.')

prop('C15', 'n-slack training solves the dual over the working set of violated constraints',
     'In every step of NSlackSSVM training the QP handed to the solver is '
     'exactly the dual of the regularised problem over the current '
     'constraints (inner products of the feature differences, losses, per '
     'sample multipliers summing to at most C, sign constraints), and the '
     'weights are the combination of the feature differences with the '
     'multipliers it returns. Each pass looks at every sample once at the '
     'current weights, adds the found labeling exactly if it has positive '
     'loss, is not in the set, and is violated by 1e-5 at least and not less '
     'than the constraints of the sample are, re-optimises after each batch '
     'that added one, and ends when a pass adds none, the dual objective '
     'grows by less than tol, or max_iter is reached. Constraints given to '
     'fit are optimised over first, and at the end the dual objectives and '
     'the primal objective of the final weights are recorded. An answer that '
     'the solver does not call optimal is not used: the problem is solved '
     'once more, and if that fails too a ValueError is raised.',
     ['inputs', 'configurations', 'histories'],
     'all real joint features, losses, C, solver and inference answers in '
     'bounds',
     'Tests check accuracies on toy data, which survive wrong multipliers, '
     'constraints of wrong samples and stopping too early.',
     [L + 'n_slack_ssvm.py', L + 'ssvm.py', 'pystruct/utils/inference.py'],
     [('fit / _solve_n_slack_qp / _update_batch', L + 'n_slack_ssvm.py')],
     'fit() is executed symbolically with a model whose joint features and '
     'losses are free variables and a QP solver that answers any feasible '
     'point; the run is compared step by step with a reference (nsl.py), and '
     'the QP with the dual for an arbitrary point (same objective, same '
     'feasible set).')

prop('C24', 'Grids join every pair of neighbouring pixels exactly once',
     'make_grid_edges joins every pair of neighbours (4 or 8 neighborhood) by '
     'exactly one edge, oriented and listed by direction, and no other '
     'pixels; edge_list_to_features marks each edge by its direction. Grid '
     'models and directional grid models score a labeling by exactly these '
     'edges, each direction with its own weights if directional.',
     ['inputs', 'configurations'],
     'all pairs of pixels, grids in bounds, all weights',
     'Tests check a few grids of one shape; a slip for one-row grids or one '
     'direction is not seen.',
     ['pystruct/utils/graph.py', M + 'grid_crf.py'],
     [('make_grid_edges / edge_list_to_features', 'pystruct/utils/graph.py'),
      ('DirectionalGridCRF', M + 'grid_crf.py')],
     'The functions are executed with two symbolic pixels; how often the pair '
     'is joined is compared with whether they are neighbours; model scores '
     'are compared with the sum over neighbours.')

prop('C25', 'Compressing and expanding symmetric matrices loses nothing',
     'expand_sym gives the symmetric matrix whose lower triangle (row by row) '
     'is the given vector; compress_sym without symmetrisation gives that '
     'vector back, and otherwise adds up both triangles of any square matrix, '
     'so that inner products with symmetric weights are preserved. The inputs '
     'are not changed.',
     ['inputs'],
     'all real matrices in bounds',
     'Tests use one or two random matrices.',
     ['pystruct/utils/inference.py'],
     [('compress_sym / expand_sym', 'pystruct/utils/inference.py')],
     'Both are executed on matrices of real variables.')

prop('C32', 'Exhaustive search is exact and energies are sums of potentials',
     'compute_energy is the sum of the unary potentials of the labels and the '
     'pairwise potentials of the edges (shared or per edge, in the direction '
     'of the edge), and rejects pairwise potentials of other shapes. '
     'exhaustive_inference and exhaustive_loss_augmented_inference return a '
     'labeling of the largest score (plus loss) of all labelings, in the '
     'shape of a labeling of the input.',
     ['inputs', 'configurations'],
     'all real potentials, weights and true labelings in bounds',
     'Tests use it as the oracle for others, on random data without ties.',
     ['pystruct/utils/inference.py', I + 'common.py'],
     [('exhaustive_inference', 'pystruct/utils/inference.py'),
      ('compute_energy', I + 'common.py')],
     'The functions are executed symbolically and compared with the sum of '
     'potentials, and with every labeling.')

prop('C34', 'Joint feature vectors have the documented layout, entry by entry',
     'The joint feature vector lists, state by state, the summed features of '
     'the nodes in that state; then the pairwise statistics: for directed '
     'models the number of edges from state a to state b (row by row), for '
     'undirected ones the number of edges between the two states (lower '
     'triangle, row by row); with edge features, for each of them, the sum '
     'over the edges from a to b (symmetric and antisymmetric features: half '
     'the sum or difference with b to a). Directional grids have one '
     'indicator per direction: right, down and, with 8 neighbours, up-right '
     'and down-right. Models with several types list the types one after '
     'the other, then all pairs of types; hidden nodes without features '
     'count in the pairwise part only; MultiLabelClf has plus or minus x per '
     'label and four indicators per edge; MultiClassClf has x in the block '
     'of the class; BinaryClf half of plus or minus x.',
     ['inputs', 'configurations'],
     'all real features and all labelings in bounds',
     'A user reads and sets weights by position; the score stays consistent '
     'when layout changes in joint_feature and potentials alike.',
     [M + 'graph_crf.py', M + 'edge_feature_graph_crf.py',
      M + 'grid_crf.py', M + 'chain_crf.py', M + 'multilabel_svm.py',
      M + 'latent_node_crf.py', M + 'node_type_edge_feature_graph_crf.py',
      M + 'unstructured_svm.py', 'pystruct/utils/graph.py'],
     [('joint_feature', M + 'graph_crf.py'),
      ('joint_feature', M + 'edge_feature_graph_crf.py'),
      ('joint_feature', M + 'node_type_edge_feature_graph_crf.py')],
     'joint_feature is executed with symbolic features and a symbolic '
     'labeling and compared, entry by entry, with sums written down from the '
     'statement.')

prop('C33', 'Warm starts go on where training stopped; switch_to adds a second phase',
     'With switch_to, NSlackSSVM and OneSlackSSVM go on training with the '
     'second inference method when training with the first has stopped '
     '(nothing more violated; n-slack: or the dual objective has converged), '
     'and stop when that happens with the second, or after max_iter steps. '
     'OneSlackSSVM.fit with warm_start=True on the same data goes on with '
     'weights, working set, multiplier histories, cache and recorded '
     'curves (only the slack to exceed is reset); with "soft", weights and '
     'working set start anew, cache and curves are kept; without '
     'warm_start, all of them start anew. NSlackSSVM.fit with the '
     'constraints of the last fit first optimises over them and keeps '
     'counting how long they are inactive; other known constraints count '
     'from zero, and without constraints training starts anew.',
     ['inputs', 'configurations', 'histories'],
     'all joint features, losses, C, solver and inference answers in bounds',
     'Tests call fit once, or check the accuracy after a warm start.',
     [L + 'one_slack_ssvm.py', L + 'n_slack_ssvm.py'],
     [('fit / prune_constraints', L + 'one_slack_ssvm.py'),
      ('fit / prune_constraints', L + 'n_slack_ssvm.py')],
     'As C15 and C16, over several calls of fit and with inference answers '
     'that make the first phase stop.')

prop('C31', 'Synthetic grid data is made of clean labels and noisy views of them',
     'The generators of synthetic grids give labels Y of the documented '
     'pattern and observations X that are the clean coding of the labels plus '
     'noise times standard normal draws (blocks: left half 0, right half 1; '
     'checkers and big checkers of fields; blocks in thirds and checkers of '
     'three classes; fields with centres), or, for the grids of boxes, bars, '
     'squares with a hole, crosses and xs at random places, one-hot vectors '
     '(the explicit and latent versions show only foreground and background) '
     'of labels in which at most noise pixels per sample were drawn anew. '
     'The shapes lie in the grid, and the second of two lies far enough from '
     'the first. make_simple_2x2 gives aligned 2x2 blocks and images of -1 '
     'and 1 with at most n_flips changed pixels. Generators with a seed (0 '
     'unless given) and the binary grids seed the random numbers first, so '
     'every call gives the same data; generate_blocks_multinomial does if a '
     'seed is given.',
     ['inputs', 'configurations'],
     'all noise levels, normal draws, positions and redrawn pixels in bounds',
     'Tests train on one draw of the default seed.',
     ['pystruct/datasets/synthetic_grids.py'],
     [('generate_*, make_simple_2x2',
       'pystruct/datasets/synthetic_grids.py')],
     'The generators are executed with symbolic random numbers; labels and '
     'observations are compared with the pattern and its coding, and the '
     'number of wrong pixels is bounded.')

prop('C16', 'One-slack training solves the dual over mean constraints, one per step',
     'Every step of OneSlackSSVM training looks at every sample once at the '
     'current weights, and stops exactly if the mean constraint found (mean '
     'difference of joint features, mean loss) is in the working set or its '
     'violation exceeds the largest slack (0 at least, -1 before the first '
     'step) of the working set by less than tol, or after max_iter steps '
     '(with break_on_bad an exception is raised if it is positive and '
     'smaller). Otherwise it is added and the QP solved is exactly the dual '
     'over the working set, which starts with the ground truth: multipliers '
     'nonnegative and summing to C times the number of samples, inner '
     'products, losses, sign constraints. The weights are the combination of '
     'the constraints with the multipliers returned, and the recorded primal '
     'and dual objectives are those of the step and, at the end, of the final '
     'weights. An answer the solver does not call optimal is not '
     'used: the problem is solved once more, and if that fails too a '
     'ValueError is raised.',
     ['inputs', 'configurations', 'histories'],
     'all real joint features, losses, C, solver and inference answers in '
     'bounds',
     'Tests check accuracies on toy data, which survive wrong scaling of C, '
     'stopping too early and wrong objectives.',
     [L + 'one_slack_ssvm.py', L + 'ssvm.py', 'pystruct/utils/inference.py'],
     [('fit / _solve_1_slack_qp / _find_new_constraint',
       L + 'one_slack_ssvm.py')],
     'As C15: fit() is executed symbolically with free joint features and '
     'losses and a QP solver answering any feasible point, and compared step '
     'by step with a reference (osl.py).')

prop('C17', 'Only constraints that stay without multiplier leave the working set',
     'NSlackSSVM drops a constraint exactly when its multiplier was below '
     'inactive_threshold times C in more than inactive_window optimisations. '
     'OneSlackSSVM drops one exactly when the largest of its last '
     'inactive_window multipliers is below inactive_threshold times the '
     'largest such value of all constraints but the first (the ground truth '
     'starts with the multiplier C). With inactive_window=0 none is dropped, '
     'and the weights always count all constraints of the optimisation.',
     ['inputs', 'histories'],
     'all histories of multipliers in bounds',
     'Tests never train long enough, or do not notice which constraint is '
     'gone; counters of the wrong constraint only matter in long runs.',
     [L + 'n_slack_ssvm.py', L + 'one_slack_ssvm.py'],
     [('prune_constraints', L + 'n_slack_ssvm.py'),
      ('prune_constraints', L + 'one_slack_ssvm.py')],
     'As C15 and C16, with small windows and thresholds and every feasible '
     'multiplier vector in each optimisation; working sets and later '
     'QPs are compared with the reference.')

prop('C18', 'Cached inference results only save inference, never change what is learned',
     'With inference_cache=n OneSlackSSVM keeps the n latest distinct results '
     'of loss-augmented inference per sample (relaxed results are the same '
     'if all marginals are). A constraint made of the most violating cached '
     'result of each sample is used instead of inference exactly if it is '
     'new, more violated than the working set by tol (cache_tol if given), '
     "and, with 'auto', the duality gap is at least a quarter of the one "
     'after the last inference; training stops only after full inference '
     'found nothing, and it is recorded which steps used the cache.',
     ['inputs', 'histories', 'configurations'],
     'all losses, C and solver answers, scripted inference in bounds',
     'Tests check that caching needs fewer inference calls on one data set.',
     [L + 'one_slack_ssvm.py'],
     [('_constraint_from_cache / _update_cache', L + 'one_slack_ssvm.py')],
     'As C16 with caches of 1 to 3 results; the cached results, the use of '
     'the cache and every QP are compared with the reference.')

prop('C19', 'Frank-Wolfe training takes the documented steps and records the true gap',
     'FrankWolfeSSVM starts from zero; every block-coordinate step looks at '
     'one sample (in order, a new permutation per pass, or drawn with '
     'replacement, as sample_method says) at the current weights and moves '
     'its block towards the found vertex by the exact line search clipped to '
     '[0, 1] (2n/(k+2n) without line_search), weights being the sum of '
     'blocks, averaged with 2/(k+2) if do_averaging; every check_dual_every '
     'passes all samples are evaluated, dual and primal values recorded and '
     'training stops if the duality gap is below tol. batch_mode moves all '
     'blocks at once (2/(k+2) without line_search), records every pass and '
     'stops if the gap divided by C times the number of samples is below '
     'tol. The last primal value is the objective of the final weights, and '
     'fitting again starts anew.',
     ['inputs', 'configurations', 'histories'],
     'all losses, joint features and C in short runs (constant features and '
     'C otherwise), all orders of samples in bounds',
     'Tests check accuracies on toy data: wrong step sizes, gaps and averages '
     'still converge somewhere.',
     [L + 'frankwolfe_ssvm.py'],
     [('_frank_wolfe_bc / _frank_wolfe_batch / fit',
       L + 'frankwolfe_ssvm.py')],
     'fit() is executed symbolically with free joint features and losses and '
     'compared step by step with a reference implementation of Algorithms 2 '
     'and 3 of Lacoste-Julien et al. that keeps all blocks.')

prop('C20', 'Subgradient training follows the documented steps and averages',
     'SubgradientSSVM starts from zero and every step adds learning_rate (C '
     'times the number of samples if auto) divided by (t + decay_t0) ** '
     'decay_exponent times the direction; the direction is the difference of '
     'joint features minus w / (C n), mixed with the previous direction by '
     'momentum, where the difference is that of one sample (online), the '
     'mean over a mini-batch, or the sum over the violated ones of a '
     'parallel batch. Averaging weighs the t-th weights by t (linear) or '
     't ** 2 (squared); each pass shuffles on request, stops if online or '
     'parallel inference found no violated constraint (with '
     'break_on_no_constraints), and records the primal objective of the '
     'weights learned so far; warm_start continues from the learned weights '
     'and step counter, and batch_size with several jobs is rejected.',
     ['inputs', 'configurations', 'histories'],
     'all joint features, losses, learning rates, momenta in bounds',
     'Tests check accuracies on toy data, which survive wrong decay, wrong '
     'averaging weights, and missing regularisation.',
     [L + 'subgradient_ssvm.py'],
     [('fit / _solve_subgradient / _sequential_learning / _parallel_learning',
       L + 'subgradient_ssvm.py')],
     'fit() is executed symbolically and compared step by step with a '
     'reference.')

prop('C21', 'Perceptron training makes exactly the updates of Collins',
     'StructuredPerceptron starts from zero, predicts every sample in order '
     'with the current weights (those at the start of the pass if batch) and '
     'adds (pass + decay_t0) ** decay_exponent times the difference of joint '
     'features exactly for samples with a nonzero loss; loss_curve_ is the '
     'loss of each pass relative to the largest possible loss, and training '
     'stops after a pass without loss or max_iter passes. With averaging '
     'the result is the mean of the weights after each prediction (after '
     'each pass if batch), beginning with pass `average` (True: the first, '
     '-1: only the last one made); other negative values are rejected.',
     ['inputs', 'configurations', 'histories'],
     'all joint features, losses and answers in bounds',
     'Tests compare one toy run with numbers from elsewhere.',
     [L + 'structured_perceptron.py'],
     [('fit', L + 'structured_perceptron.py')],
     'fit() is executed symbolically with free joint features and losses and '
     'compared step by step with a reference.')

prop('C23', 'Latent learners complete, refit and predict consistently',
     'LatentSSVM fits its learner to the given or initial completion, then '
     'completes every ground truth with the latest weights and fits again '
     '(warm start, model initialized once), until no completion changes or '
     'latent_iter rounds are done; NSlackSSVM is given its working set with '
     'joint features and losses measured against the new completion. '
     'SubgradientLatentSSVM completes at the current weights in every step, '
     'steps like SubgradientSSVM (a parallel batch averages all of its '
     'constraints), stops without violated constraint, and records the '
     'objective of the learned weights. predict and score of both speak of '
     'labels (base_loss relative to max_loss), predict_latent of hidden '
     'states, and setting C, w, n_jobs or verbose of a LatentSSVM sets that '
     'of its learner only.',
     ['inputs', 'configurations', 'histories'],
     'all joint features, losses, completions, initial weights in bounds',
     'Tests check accuracies on toy data, where the initial completion is '
     'almost right already.',
     [L + 'latent_structured_svm.py', L + 'subgradient_latent_ssvm.py',
      'pystruct/utils/inference.py'],
     [('LatentSSVM.fit', L + 'latent_structured_svm.py'),
      ('SubgradientLatentSSVM.fit', L + 'subgradient_latent_ssvm.py')],
     'fit() is executed symbolically with a latent model of free joint '
     'features and losses; the inner learner of LatentSSVM is a recorder '
     'that answers any weights.')

prop('C14', 'Typed models code labels by type and accept exactly well-formed samples',
     'flattenY adds to each label the number of states of the preceding '
     'types and joins the types; unflattenY undoes it for any numbers of '
     'nodes (none included, also given as None) and rejects flat labelings of '
     'another length. initialize (one sample or a list) and joint_feature '
     'accept a labeling exactly if every node has a code of its own type, '
     'and a sample exactly if it has an array per type and pair of types '
     'with the declared numbers of columns, a row of features per edge, and '
     'edges between nodes that exist. The constructor accepts exactly one '
     'number of states and features per type, a square symmetric array of '
     'edge features and class weights per label of each type; there is a '
     'weight per feature and label, and per edge feature and pair of labels.',
     ['inputs', 'configurations'],
     'all integer labels and edge ends, malformations in bounds',
     'Tests try a few malformed samples; labels one beyond the range of a '
     'middle type, or samples without nodes of a type, are not tried.',
     [M + 'typed_crf.py', M + 'node_type_edge_feature_graph_crf.py'],
     [('flattenY / unflattenY / initialize / _check_size_xy', M + 'typed_crf.py'),
      ('_check_size_x', M + 'node_type_edge_feature_graph_crf.py')],
     'Labels and edge ends are integer variables; on every path the '
     'condition of well-formedness has to follow from the path taken '
     '(accepted or rejected).')

prop('C26', 'Loggers see every iteration; backups hold the learner without its cache',
     'SaveLogger stores the learner exactly if the iteration is a multiple '
     "of save_every or 'final', under its file name with %d replaced by the "
     'iteration; the inference cache is not stored and the learner keeps it, '
     'also if storing fails; load returns the stored learner, weights and '
     'attributes unchanged. The cutting-plane, Frank-Wolfe and subgradient '
     'learners call their logger with 0, 1, 2, ... after every iteration '
     "they go on from, holding the weights of that iteration, and then with "
     "'final' and the final weights; LatentSSVM calls it after every round.",
     ['inputs', 'histories'],
     'all iteration numbers and weights in bounds',
     'The test stores one model once.',
     ['pystruct/utils/logging.py', L + 'one_slack_ssvm.py',
      L + 'n_slack_ssvm.py', L + 'frankwolfe_ssvm.py',
      L + 'subgradient_ssvm.py', L + 'latent_structured_svm.py'],
     [('SaveLogger', 'pystruct/utils/logging.py'),
      ('fit', L + 'one_slack_ssvm.py')],
     'The logger is executed with a symbolic iteration and a virtual file '
     'system (real files and pickle in the replay); learners are executed as '
     'in C15-C23 with a recording logger.')

prop('C27', 'Models take their sizes from the data and reject what does not fit',
     'initialize takes the numbers of features, edge features and labels '
     '(the distinct ones over all samples) from the data where the '
     'constructor did not name them, and otherwise raises ValueError unless '
     'they agree; afterwards the joint features have the documented size and '
     'class weights are one per state. The constructor or initialize rejects '
     'class weights of another length, numbers of hidden states that do not '
     'fit the labels, and (anti)symmetric edge features that do not exist or '
     'are both. Weights of another size, and samples with another number of '
     'node or edge features, or of edge features other than one row per '
     'edge, are rejected by inference, loss-augmented inference and '
     'joint_feature, never regrouped or truncated. fit of a learner '
     'initializes the model with the training data exactly once, before the '
     'model is used, unless initialize=False.',
     ['inputs', 'configurations'],
     'all labelings, declared and actual sizes in bounds',
     'Tests use matching data; silent reshaping of data that does not match '
     'yields plausible nonsense.',
     [M + 'crf.py', M + 'graph_crf.py', M + 'chain_crf.py',
      M + 'grid_crf.py', M + 'edge_feature_graph_crf.py',
      M + 'latent_graph_crf.py', M + 'latent_grid_crf.py',
      M + 'latent_node_crf.py', M + 'multilabel_svm.py',
      M + 'unstructured_svm.py', 'pystruct/learners/ssvm.py'],
     [('initialize / _set_size_joint_feature / _check_size_x', M + 'crf.py'),
      ('initialize', M + 'latent_graph_crf.py')],
     'Constructor arguments, sizes of the data and labels are integer '
     'variables; on every path the outcome (accepted or ValueError) has to '
     'be the one the documentation implies.')

prop('C28', 'Predicting, scoring and training do not depend on the number of jobs',
     'predict runs inference once per sample, in order, at the learned '
     'weights (with the constraints of that sample), and returns the answers '
     'in order, with one job, several or all; for the multi-class and binary '
     'model that is the label of the largest score. score is one minus the '
     'summed losses over the summed largest losses. The cutting-plane and '
     'batch perceptron learners learn the same weights, from the same '
     'quadratic programs, with any number of jobs. With show_loss_every = k '
     'the curve has one minus the score of the training data, at the weights '
     'of the iteration, for every k-th iteration, and none for 0.',
     ['inputs', 'configurations'],
     'all weights, features, losses, answers of inference in bounds',
     'Tests train with several jobs only on toy data and compare accuracies.',
     [L + 'ssvm.py', L + 'one_slack_ssvm.py', L + 'n_slack_ssvm.py',
      L + 'frankwolfe_ssvm.py', L + 'subgradient_ssvm.py',
      M + 'unstructured_svm.py', M + 'base.py',
      'pystruct/utils/inference.py'],
     [('predict / score / _compute_training_loss', L + 'ssvm.py'),
      ('_find_new_constraint', L + 'one_slack_ssvm.py')],
     'predict and score are executed with a model of free answers, losses '
     'and joint features; training is executed twice, with one and with '
     'several jobs (jobs work on copies), and the problems handed to the '
     'solver and the weights are compared term by term. Where an edit of the '
     'code leaves the terms the same, comparing them needs no solver call.')

prop('C29', 'Calls leave their arguments alone and answers do not depend on history',
     'No call of a model (joint features, losses, inference, loss-augmented, '
     'relaxed and latent inference, and their batch versions), of the '
     'inference methods or of compute_energy changes its arguments, and no '
     'call of fit, predict or score changes the data or the order of it. The '
     'same call again hands the same problem to the solver and gives the '
     'same answer, also if somebody wrote into the returned arrays, and a '
     'model that has worked on other samples (of other sizes) and weights '
     'answers as a new one does.',
     ['inputs', 'histories'],
     'all weights, features, potentials in bounds',
     'Tests call each method once on fresh data; aliasing and stale caches '
     'show in a second call.',
     [M + 'crf.py', M + 'base.py', M + 'graph_crf.py', M + 'grid_crf.py',
      M + 'chain_crf.py', M + 'edge_feature_graph_crf.py',
      M + 'latent_node_crf.py', M + 'node_type_edge_feature_graph_crf.py',
      M + 'typed_crf.py', M + 'unstructured_svm.py',
      M + 'multilabel_svm.py', I + 'inference_methods.py',
      I + 'linear_programming.py', I + 'maxprod.py'],
     [('inference / loss_augmented_inference / joint_feature', M + 'crf.py'),
      ('inference_dispatch', I + 'inference_methods.py')],
     'Arguments are arrays of solver variables; after each call they are '
     'compared entry by entry with copies, the problems recorded at the '
     'solver boundary are compared with those of the first call, and with '
     'those of a model that was just constructed.')

prop('C36', 'OpenGM and QPBO get the given problem; installed packages decide the methods',
     'With OpenGM the model handed over has one variable per node with the '
     'number of states of the problem, and its energy is, for every labeling, '
     'minus the score under the given potentials (shared or one matrix per '
     'edge); the documented algorithm for alg runs on it, from the starting '
     'point init if given; its labels come back as signed integers with, on '
     'request, their energy. With QPBO the edges are handed over as given '
     'and the costs are -1000 times the potentials, as 32-bit integers off '
     'by less than one, with a fixed seed; the labels come back in the shape '
     'of the nodes. Models hand over the potentials of their scores, plus '
     'loss where asked. Both reject pairwise potentials that do not fit. '
     'get_installed lists exactly the methods whose package can be imported, '
     'in the order asked for, a missing package is an ImportError, and a '
     'model takes its first available default.',
     ['inputs', 'configurations'],
     'all real potentials and answers in bounds, all sets of installed '
     'packages',
     'Neither package is installed, so no test runs this code.',
     [I + 'inference_methods.py', I + 'common.py', M + 'crf.py',
      M + 'typed_crf.py'],
     [('inference_ogm / inference_qpbo / get_installed',
       I + 'inference_methods.py'), ('_validate_params', I + 'common.py')],
     'The two packages are replaced by recorders of their documented '
     'interface; the recorded factors are summed for every labeling and '
     'compared with the score of the potentials. Which packages can be '
     'imported is a solver variable.')

prop('C35', 'The direct learners optimise their documented objectives',
     'The function that PrimalDSStructuredSVM hands to the simplex search '
     'is, at any weights, the mean over the samples of the slack of the most '
     'violated constraint plus the squared norm of the weights divided by '
     '2C, computed by one loss-augmented inference per sample at those '
     'weights; of the weights its searches return it keeps those of the '
     'smallest value. The plain SVM (learners.svm) solves the soft-margin '
     'dual with multipliers between 0 and C that sum to zero over the '
     'labels; its weights are the sum of multiplier, label and sample over '
     'the support vectors, its offset the mean of label minus score over '
     'them; predict gives the sign of score plus offset. The data stay as '
     'they were.',
     ['inputs', 'histories'],
     'all features, losses, weights tried, multipliers and C in bounds',
     'No test runs either learner.',
     [L + 'downhill_simplex_ssvm.py', L + 'svm.py',
      'pystruct/utils/inference.py'],
     [('fit', L + 'downhill_simplex_ssvm.py'),
      ('fit / decision_function / predict', L + 'svm.py')],
     'The search and the QP solver are hooks: the search evaluates the '
     'function at weights that are solver variables, the QP solver answers '
     'any feasible multipliers.')
