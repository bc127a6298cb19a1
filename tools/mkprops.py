"""Single source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
D='kd/model/discover/'; S='kd/model/sga/'; G='kd/model/sga/sgapde/'; E='kd/model/eqgpt/'

p('C01','Any token sequence becomes exactly one complete expression',
 'Turning any sequence of library tokens into an expression yields a well-formed prefix expression: the longest incomplete prefix is kept unchanged, everything after the first point where the expression is complete is dropped, and an unfinished sequence is closed with input-variable leaves only, exactly as many as there are open argument slots. The tokens that were kept are never altered or reordered.',
 ['inputs','programs'],'every token sequence of every length over every library with arities 0..2',
 'Tests build a few hand-written expressions; the space of generated sequences (overlong, truncated, immediately complete) is unbounded.',
 [D+'program.py'],[('truncate at first completion / pad dangling slots',D+'program.py:_finish_tokens'),('program construction',D+'program.py:from_tokens')],
 ['traversal/tokens of the returned program'])

p('C02','Expression cache returns the program of the requested tokens, and only that one',
 'Building a program from a token sequence returns a program whose expression is exactly that (completed) sequence whatever was built before; equal sequences share one cached program whose sampling counter grows by one per request, and requests that bypass the cache never read, create or modify cache entries. Serialising a program and restoring it preserves its expression, constants, reward and validity.',
 ['histories','inputs'],'all histories of build requests (on/off policy, cached/uncached, overlong/unfinished) over all token sequences',
 'Tests build each program once from a fresh cache; aliasing and stale-cache faults need histories of several requests.',
 [D+'program.py',D+'library.py'],[('memoised construction',D+'program.py:from_tokens'),('set_constants / get_constants',D+'program.py:Program'),('pickling',D+'program.py:__getstate__/__setstate__')],
 ['identity, tokens and counters of returned programs'])

p('C03','Parent, sibling and ancestor bookkeeping equals the expression tree',
 'While an expression is generated token by token, the parent and sibling reported for the next token, the number of open argument slots and the "has an ancestor in this token set" flag always equal those of the partially built expression tree. The step-by-step computation and the whole-sequence computation agree at every position of an incomplete sequence.',
 ['programs','inputs'],'every batch of incomplete prefix sequences of every length over every library with arities 0..2 and every set of operator tokens as ancestors',
 'Tests never enumerate partial trees; off-by-one scans only show on particular shapes (right children after deep left subtrees).',
 [D+'dso/subroutines.py',D+'task/task.py'],[('backward dangling scan',D+'dso/subroutines.py:parents_siblings'),('whole-sequence variant',D+'dso/subroutines.py:jit_parents_siblings_at_once'),('forward threshold scan',D+'dso/subroutines.py:ancestors'),('next observation',D+'task/task.py:get_next_obs')],
 ['parent/sibling/dangling components of the next observation; masks returned by the ancestor scan'])

p('C04','Sampling constraints forbid exactly the violating tokens',
 'When sampling the next token, each structural constraint (length bounds, at most/at least counts of a token, forbidden parent-child, sibling and ancestor-descendant combinations, inverse unary pairs) puts probability zero on exactly the tokens that would violate it given the partial expression, and leaves all other tokens untouched. The combined constraint forbids a token iff one of its members does.',
 ['programs','configurations'],'all partial expressions reachable while sampling, all libraries, all token sets for each constraint',
 'Tests run a short search and inspect nothing about the masks; one missing mask entry needs a specific partial expression.',
 [D+'dso/prior.py'],[('constraint masks',D+'dso/prior.py'),('joint mask',D+'dso/prior.py:JointPrior.__call__')],
 ['mask returned for the next token of each sequence in a batch'])

p('C05','Whole-expression constraint checks agree with what sampling would forbid',
 'A finished expression is reported as violating a structural constraint if and only if generating it token by token would have required a token the same constraint forbids. This covers ancestor-descendant, parent-child, sibling, inverse-unary and repeat constraints.',
 ['programs','configurations'],'all complete expressions over all libraries and all (target, effector) token sets',
 'No test evaluates whole-expression violation checks on anything but trivial expressions.',
 [D+'dso/prior.py',D+'dso/subroutines.py'],[('violation scans',D+'dso/subroutines.py:jit_check_constraint_violation*'),('is_violated',D+'dso/prior.py')],
 ['boolean returned by the violation checks'])

p('C06','Evaluating a prefix expression equals recursive tree evaluation',
 'Executing an expression given as prefix tokens returns the value obtained by evaluating its tree bottom-up: each operator is applied to the values of its own arguments in left-to-right order, state fields, coordinates and constants being the leaves, on both the token-list evaluator and the term-tree evaluator. Derivative operators differentiate their first argument with respect to exactly the coordinate given as second argument.',
 ['programs','inputs'],'every well-formed expression over the operator library and every field',
 'Tests execute a handful of fixed expressions; operand order and coordinate selection depend on tree shape.',
 [D+'execute.py',D+'stridge.py',D+'functions.py'],[('stack evaluator',D+'execute.py:python_execute'),('tree evaluator',D+'stridge.py:Node/unsafe_execute'),('operator table',D+'functions.py')],
 ['arrays returned by the evaluators'])

p('C07','Splitting a candidate into additive terms preserves its value',
 'Splitting an expression at its top-level additions and subtractions yields terms whose signed sum is the original expression: no term is lost, duplicated or merged, each term is itself a complete expression, and every coefficient reported for the candidate belongs to the term at the same position.',
 ['programs'],'every well-formed expression with any nesting of additions, subtractions and other operators',
 'Tests use expressions with one or two terms; loss of a term needs particular nestings.',
 [D+'stridge.py'],[('split at +/-',D+'stridge.py:STRidge.split_forest'),('tree building',D+'stridge.py:build_tree'),('coefficients',D+'stridge.py:wf_calculate/calculate_RHS')],
 ['list of terms and coefficients of a candidate'])

p('C08','Rewards are well-scaled, ordered and fail closed',
 'Every reward computed for a candidate lies between its documented bounds, a perfect fit gets the maximum, a worse fit never gets a larger reward than a better one of the same complexity, and a candidate flagged as numerically invalid gets the declared invalid reward rather than a fitted one.',
 ['inputs','programs'],'all targets, predictions, complexities and metric choices offered by the configuration',
 'Tests compare a reward to a constant on one dataset.',
 [D+'task/regression.py',D+'task/pde/pde.py'],[('regression metrics',D+'task/regression.py:make_regression_metric'),('PDE metrics',D+'task/pde/pde.py:make_pde_metric'),('task reward',D+'task/pde/pde.py:PDETask.reward_function')],
 ['reward value, invalid flag'])

p('C09','The best-candidates memory keeps exactly the best distinct candidates',
 'After any history of insertions the bounded candidate memory holds no more than its capacity, contains no duplicate keys, keeps every stored item attached to its own score, and retains the highest-scoring candidates ever offered (a better candidate is never dropped in favour of a worse one). Sampling and iteration return only stored items.',
 ['histories'],'all insertion histories, scores (including ties), capacities',
 'Tests push at most a few items; heap corruption needs long histories with replacements.',
 [D+'dso/memory.py',D+'searcher.py'],[('bounded heap',D+'dso/memory.py:UniquePriorityQueue'),('program queue',D+'dso/memory.py:ProgramQueueMixin')],
 ['contents of the queue after each push'])

p('C10','Finite-difference derivatives are consistent with calculus',
 'Each finite-difference derivative of a sampled field is linear in the field, scales with the grid spacing to the minus order, differentiates along the requested axis only, leaves the shape unchanged, and is exact on every polynomial up to its stencil degree (at interior points, and at boundary points where a one-sided stencil is documented).',
 ['inputs','configurations'],'all grid sizes large enough for the stencil, all spacings, all fields, all axes and orders',
 'Tests compare to a sine or polynomial on one grid; a wrong coefficient at one boundary or order is invisible at test tolerance.',
 [D+'task/pde/utils_fd.py',D+'task/pde/utils_v1.py','kd/utils/utils_fd.py','kd/utils/solver.py',G+'PDE_find.py',G+'context.py'],
 [('FiniteDiff',G+'PDE_find.py:FiniteDiff'),('Diff/Diff2/Diff3/Diff4',D+'task/pde/utils_fd.py'),('axis derivative',G+'context.py:_finite_diff_along_axis')],
 ['derivative arrays'])

p('C11','Sparse regression honours its threshold and returns aligned coefficients',
 'Sparse regression of a target on candidate columns returns one coefficient per column in column order, re-expressed in the units of the original columns; coefficients removed by thresholding are exactly zero, the surviving ones are the least-squares fit on the surviving columns, and the training loop never returns a coefficient vector with a worse penalised error than one it has already evaluated.',
 ['inputs'],'all full-rank candidate matrices, targets, thresholds and normalisations',
 'Tests check recovery on a single clean dataset.',
 [G+'PDE_find.py',D+'stridge.py',D+'task/pde/pde_find.py'],[('STRidge',G+'PDE_find.py:STRidge'),('Train',G+'PDE_find.py:Train')],
 ['coefficient vectors'])

p('C12','Expression trees stay well-formed under generation, mutation and crossover',
 'Every tree of the genetic search, after random generation and after any number of mutations, has every operator with exactly its number of children, every leaf a registered variable, derivative operators whose second argument is a coordinate, and no node deeper than the declared maximum depth. Mutating or crossing candidates never changes the trees of candidates that are kept.',
 ['histories','programs'],'all random choices and all mutation/crossover histories, all operator tables',
 'Tests fix a seed; malformed trees need specific random draws.',
 [G+'tree.py',G+'pde.py'],[('Tree construction',G+'tree.py:Tree'),('mutation',G+'tree.py:mutate'),('PDE mutate/replace',G+'pde.py')],
 ['node lists of every tree'])

p('C13','Genetic-search candidates are scored on their own terms',
 'When a candidate equation is scored, each candidate term contributes one column with the value of its own tree, default terms come first and in order, columns and reported coefficients stay aligned with the reported terms, and a term that evaluates to zero or to an invalid value cannot take another term\'s coefficient. The equation reported for a candidate, evaluated on the data, reproduces the fit that was scored.',
 ['programs','inputs'],'all candidate term sets over all operator tables and fields',
 'Tests score a few seeded candidates only.',
 [G+'pde.py',G+'context.py',G+'equation.py'],[('evaluate_mse',G+'pde.py:PDE.evaluate_mse'),('default terms',G+'context.py:ProblemContext')],
 ['score, coefficients and term matrix of a candidate'])

p('C14','The genetic search keeps its best candidate and a ranked population',
 'At every generation boundary the population is sorted by score, scores stay paired with their candidates, the population has the configured size, and the best score never gets worse from one generation to the next. The reported result is the best candidate of the final population.',
 ['histories'],'all random seeds, population sizes, generation counts, crossover/mutation probabilities',
 'Tests run one or two generations with a fixed seed.',
 [G+'solver.py','kd/model/kd_sga.py'],[('SGA loop',G+'solver.py:SGA.run/cross_over/change')],
 ['population and score lists at generation boundaries'])

p('C15','Left-hand-side quantities never leak into genetic-search candidates',
 'The operator and variable tables built for a problem contain every usable field, coordinate and supplied parameter exactly once, under unique non-reserved names, with arrays of the shape of the problem grid, and exclude the evolution coordinate as a differentiation variable together with the target derivative itself. Name clashes, non-monotone coordinates and mismatching shapes are rejected before any search starts.',
 ['configurations','inputs'],'all datasets of 1..3 spatial dimensions, field names, parameter fields, and left-hand-side axes',
 'Tests use the bundled datasets with standard names.',
 [G+'context.py',G+'config.py',G+'naming.py'],[('registry validation',G+'context.py:_validate_registry_names'),('grid validation',G+'context.py:_validate_structured_grid'),('names',G+'naming.py')],
 ['context registries; raised errors'])

p('C16','Trimmed and differentiated genetic-search grids stay aligned',
 'After edge deletion every array used by the genetic search (target, fields, derivative fields, coordinates and parameter fields) has the same shape and the entry at an index belongs to the same grid point in all of them.',
 ['configurations','inputs'],'all grids, all deletion settings, all parameter fields',
 'Tests only check that a run finishes.',
 [G+'context.py'],[('edge deletion',G+'context.py:_apply_edge_deletion'),('coordinate grids',G+'context.py:_build_coord_grids'),('spacing',G+'context.py:_compute_delta')],
 ['arrays held by the problem context'])

p('C17','Equations reported by the genetic search denote the fitted model',
 'The equation text and LaTeX produced for a fitted candidate contain every term with non-zero coefficient once, with its own coefficient and sign, and the rendered expression of each term denotes the same expression as its tree (grouping preserved, derivative order and variables preserved).',
 ['programs','inputs'],'all trees over the operator table, all coefficient vectors',
 'Tests render a few fixed equations.',
 [G+'equation.py',G+'pde.py'],[('tree to expression',G+'equation.py:_render_tree/_combine_node'),('equation to LaTeX',G+'equation.py:sga_equation_to_latex')],
 ['text/LaTeX of the equation'])

p('C18','Deep-learning genetic search evaluates exactly the terms its genes name',
 'A genome denotes a set of product terms of the operator list; its library column is the product of the corresponding derivative columns, generation, crossover and mutation only ever produce genes that name existing operators, without duplicate terms in a candidate, and selection keeps the fittest candidates without changing them. Fitness plus sparsity penalty is computed with one coefficient per term in genome order.',
 ['histories','programs','configurations'],'all genomes, operator lists, population sizes and random draws',
 'Tests run a tiny population once.',
 ['kd/model/dlga.py','kd/model/kd_dlga.py'],[('genome to columns','kd/model/dlga.py:translate_DNA'),('crossover/mutation/select','kd/model/dlga.py')],
 ['genomes, library matrix, coefficients'])

p('C19','The rendered equation of the deep-learning genetic search matches its genome',
 'The equation text and LaTeX produced for a fitted genome list every term once with its own coefficient and sign, name each factor by the operator it indexes in the operator list actually used, show repeated factors as powers, and put the chosen left-hand side on the left.',
 ['inputs','configurations'],'all genomes, coefficient vectors and operator lists',
 'Tests use the default operator list only.',
 ['kd/viz/dlga_eq2latex.py','kd/model/dlga.py','kd/model/kd_dlga.py'],[('LaTeX','kd/viz/dlga_eq2latex.py'),('text','kd/model/dlga.py:convert_chrom_to_eq')],
 ['LaTeX/text of the equation'])

p('C20','The LaTeX of a reinforcement-learning result denotes the discovered expression',
 'The LaTeX produced for a discovered program is an equation whose right-hand side equals, as a mathematical expression, the sum of coefficient times term over the discovered terms: no term, sign, coefficient, factor, power or derivative is lost or altered, whichever notation is selected.',
 ['programs','inputs'],'all term trees over the operator library, all coefficient vectors, all notation options',
 'Tests compare a few strings.',
 ['kd/viz/discover_eq2latex.py'],[('program to LaTeX','kd/viz/discover_eq2latex.py:discover_program_to_latex')],
 ['LaTeX of the equation'])

p('C21','A dataset either is consistent or is rejected, and its accessors agree',
 'Constructing a dataset succeeds only if field shapes match the coordinate lengths in axis order, and then the reported sizes, ranges, bounds, boundary slices, mesh and derivative accessors are all consistent with each other and with the stored field: an entry of the mesh and the entry of the field with the same position refer to the same point.',
 ['inputs','configurations'],'all legacy and N-dimensional datasets',
 'Tests load the bundled datasets.',
 ['kd/dataset/_base.py','kd/dataset/_registry.py','kd/dataset/__init__.py'],[('validation and accessors','kd/dataset/_base.py:PDEDataset')],
 ['accessor values, raised errors'])

p('C22','Sampled points carry the field values of their own coordinates',
 'Sampling a dataset returns points inside the domain paired with the field value at that same point (the grid value for grid samples), with the requested number of points, reproducibly for a fixed seed, and without repeating a grid point when sampling without replacement.',
 ['inputs','configurations'],'all datasets, sample sizes, strategies and seeds',
 'Tests check shapes only.',
 ['kd/dataset/_base.py','kd/data.py'],[('sample','kd/dataset/_base.py:PDEDataset.sample')],
 ['returned (points, values) pairs'])

p('C23','Gridded adapters keep values, axes and coordinates in correspondence',
 'Preparing a gridded dataset for the reinforcement-learning search puts the evolution axis first and the other axes in the documented order for every array it produces (field, target derivative, coordinates, parameter fields), computes the target derivative along the evolution axis only, and rejects data that is non-finite, too small or non-uniform in the evolution coordinate.',
 ['inputs','configurations'],'all gridded datasets in 1..3 spatial dimensions, all choices of the evolution axis, all parameter fields',
 'Tests use symmetric or single layouts where a transposition is invisible.',
 [D+'adapter.py','kd/data.py'],[('regular adapter',D+'adapter.py:DiscoverRegularAdapter')],
 ['arrays handed to the search'])

p('C24','Scattered-data adapters keep coordinates paired with values and splits disjoint',
 'Preparing scattered training data yields training and validation sets that are disjoint, together contain every selected sample, pair each coordinate row with the field value observed at it, include the training points among the collocation points, and keep all collocation points inside the domain bounds.',
 ['inputs','configurations'],'all datasets, ratios, seeds, trimming settings and evolution axes',
 'Tests check array shapes only.',
 [D+'adapter.py','kd/data.py'],[('sparse adapter',D+'adapter.py:DiscoverSparseAdapter'),('split and collocation','kd/data.py:SparseData')],
 ['training, validation and collocation arrays'])

p('C25','Every vocabulary word of the generative model is computed as the term it names',
 'For every word of the equation vocabulary, the term column computed from a smooth field equals the differential expression that the word denotes, for every field; the same holds for the variant used for physics-informed networks, and columns are returned in the order of the words of the equation.',
 ['programs','inputs'],'all vocabulary words and sentences, all smooth fields',
 'Tests evaluate two or three words.',
 [E+'calculate_terms.py',E+'continue_train_GPT_all.py'],[('word to column',E+'calculate_terms.py:calculate_terms'),('PINN variant',E+'calculate_terms.py:calculate_terms_PINN')],
 ['term matrix'])

p('C26','Generated sentences are sanitised and the leader board is the true top ten',
 'Post-processing of generated equations removes repeated terms while keeping the first occurrence and the order of the others, and the running leader board always holds the ten best distinct equations seen so far, in descending order of reward, each with its own reward (equations of equal reward count once).',
 ['histories','inputs'],'all sentences and all histories of (equation, reward) batches',
 'Tests feed a single batch.',
 ['kd/model/kd_eqgpt.py',E+'continue_train_GPT_all.py'],[('dedupe',E+'continue_train_GPT_all.py:delete_duplicate'),('leader board','kd/model/kd_eqgpt.py:_update_top10')],
 ['token lists; leader board'])

p('C27','Model parameters round-trip and reject unknown names',
 'For every model object, the parameters reported after construction are those passed in, setting any subset changes exactly that subset (including nested ones), setting and reading back returns the same value, and an unknown name is rejected without changing anything else.',
 ['histories','configurations'],'all parameter subsets and nested estimators',
 'Tests cover one estimator with two parameters.',
 ['kd/base.py'],[('get/set','kd/base.py:BaseEstimator')],
 ['reported parameters'])

p('C28','Operator sets match the data dimension, however often configured',
 'Configuring the reinforcement-learning search for a dataset uses the operators the user passed as they are (regression adds const). Without any, one-dimensional data get the configured operators as they are, and two- and three-dimensional data get exactly the differentiation operators of that dimension (grid or neural, as configured) followed by the other configured operators, without duplicates. Configuring the same model again, for the same or another dataset, gives the same operators, settings, constraints, state observations, dimensions and output file as configuring a fresh model. Explicit user settings override defaults; defaults and the user\'s settings are never mutated.',
 ['histories','configurations'],'all base operator sets and all sequences of datasets of different dimension',
 'Tests configure each model once.',
 ['kd/model/kd_discover.py'],[('auto selection','kd/model/kd_discover.py:_auto_select_function_set')],
 ['function set and configuration after each call'])

p('C29','Symbolic-regression input checking and reporting are faithful',
 'Fitting accepts exactly finite two-dimensional features with a matching one-dimensional target (a single column counts as one-dimensional) and as many names as features, and rejects everything else with a ValueError. Predictions are the discovered expression evaluated on the given rows, whatever other models are used in between. The reported expression lists the tokens of the discovered expression in order with its own constants (printed to six decimals, small ones to six significant digits), and the named expression is that expression with each feature replaced by its own name, for any number of features and any names.',
 ['inputs','programs'],'all feature matrices, feature-name lists and expressions',
 'Tests use two features with simple names.',
 ['kd/model/kd_discover_regression.py'],[('validation','kd/model/kd_discover_regression.py:_validate_inputs'),('rendering','kd/model/kd_discover_regression.py:_render_named_expression')],
 ['raised errors, predictions, expression strings'])

p('C30','Plot payloads are validated and dispatched to the right adapter',
 'A plotting payload is accepted exactly when its arrays have mutually consistent shapes (and slice times lie in the time range), and then holds the arrays given, with actual minus predicted as residual unless one is given; slicing a field of more than two space dimensions cuts all its arrays along the same axis at the same index. A plotting request on a model is served, with exactly the options given, by the adapter registered for its class or else for the nearest base class that has one (registered eagerly or lazily, in any order) when that adapter supports the intent, and otherwise produces a warning result for that intent rather than another plot or an exception.',
 ['inputs','configurations'],'all payload arrays, adapter registries and class hierarchies',
 'Tests cover a few payloads and one adapter.',
 ['kd/viz/_contracts.py','kd/viz/core.py','kd/viz/registry.py','kd/viz/api.py'],[('payload contracts','kd/viz/_contracts.py'),('dispatch','kd/viz/core.py, kd/viz/registry.py')],
 ['raised errors, result objects'])

p('C31','Genetic-search inputs follow the documented precedence',
 'When a dataset is given, each setting of the genetic search comes from the user if the user set it, else from the dataset, else from the default, and fitting twice with different datasets never carries settings of the first over to the second.',
 ['histories','configurations'],'all subsets of user settings and sequences of datasets',
 'Tests fit once with defaults.',
 ['kd/model/kd_sga.py',S+'adapter.py'],[('inference priority','kd/model/kd_sga.py:fit_dataset'),('adapter',S+'adapter.py:to_solver_kwargs')],
 ['solver configuration'])

p('C32','The reinforcement search reports the best valid candidate it has seen',
 'After any sequence of batches, the candidate the reinforcement-learning search keeps is a valid one whose reward is the largest finite reward of all valid candidates evaluated so far (over all batches of this search, sampled or aggregated), whatever the batches contain; while there is no valid candidate, it is the one with the largest finite reward. A new search starts afresh unless the history is kept. That candidate is reported (with stability selection: one of the kept candidates), and the reported expression, reward, tokens and program belong to that one candidate.',
 ['histories','programs'],'all sequences of batches of candidates with any rewards and validity',
 'Tests run one or two batches and look at the type of the result.',
 [D+'searcher.py'],[('best so far',D+'searcher.py:Searcher.search_one_step')],
 ['reported best program and reward'])

p('C33','Fitting never changes the data it is given',
 'Fitting a model (DLGA, SGA, Discover, SPR, regression, PySR) on arrays or on a dataset leaves every array, list and dictionary the caller passed in, and every array of the dataset, exactly as they were: same values, same order, same shapes.',
 ['inputs','configurations'],'all models, all data and option sets',
 'Tests look at results and reuse no inputs afterwards.',
 ['kd/model/kd_dlga.py','kd/model/dlga.py','kd/model/kd_sga.py','kd/model/kd_discover.py','kd/model/kd_discover_regression.py','kd/model/kd_pysr.py','kd/model/discover/adapter.py'],[('training data of the surrogate network','kd/model/dlga.py'),('trimming','kd/model/sga/sgapde/context.py')],
 ['caller arrays before and after'])

p('C34','Merging duplicates keeps the shortest candidate of every distinct value',
 'When the reinforcement search merges candidates or terms that have the same value (sums closer than 1e-5), every distinct value among the inputs keeps exactly one representative, the shortest input having that value; everything returned is one of the inputs together with its own value. No candidate of another value is ever lost, whatever the order and the lengths.',
 ['inputs'],'every list of candidates or terms with any values and lengths in any order (values either the same or clearly different)',
 'Tests merge at most a few candidates by running a short search; a lost candidate shows only when another one of the same length stands before its duplicate.',
 [D+'ga_utils.py'],[('merging',D+'ga_utils.py:drop_duplicates')],
 ['returned candidates and values'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    with open(os.path.join(here,'properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
    print(len(P))
