"""known_findings.json: fixed defects (suppress nothing) and known findings (status 'known', matched by key)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C03', '5b928d7', 'ancestors(): flag dropped for the second and later arguments of a multi-argument ancestor'),
 ('C03', '63adc5d', 'get_next_obs(): overwrote the open-slot count of the observation passed in'),
 ('C05', 'fc780e1', 'descendant post-hoc checks: missed violations outside the first branch and reset by a nested effector'),
 ('C05', '6aca46a', 'RelationalConstraint.is_violated: left-child/right-child relations were never checked'),
 ('C05', 'a24ad4f', 'Constraint.is_violated: replay used wrong positions and left mask_val changed'),
 ('C02', '23a170a', 'Program pickling lost reward, constants, validity and counters'),
 ('C04', '024f442', 'JointPrior with count_constraints: IndexError when a soft prior precedes a constraint'),
 ('C07', 'ed3a947', 'STRidge.split_forest: a subtracted sum kept + on its terms and -(a-b) was recorded as -a-b'),

 ('C08', '0b1441d', "make_pde_metric: 'inv_nrmse' (wrong signature) and 'R2' (missing entries) raised TypeError as soon as they were selected"),
 ('C08', '64231c0', 'pde_reward: negative and order-reversing when penalty*terms exceeds one (documented range [0,1])'),
 ('C08', 'a6566b8', 'unsafe_execute_torch: left the invalid flag set, so the next valid numpy candidate was flagged invalid'),
 ('C10', '42f80b6', 'Laplace (utils_fd): jit-compiled in nopython mode around plain Python functions, so every call raised a TypingError'),
 ('C10', '07ccba6', 'utils_v1 3-D differences: third axis used the extent/boundary index of another axis, stray pdb call, unsupported axis not raised'),
 ('C10', '56af673', 'FiniteDifferenceOperator: derivative of an integer-valued field truncated to integers'),
 ('C10', '3a443a0', 'kd.utils FiniteDiff order 3: wrong sign'),
 ('C11', 'cff60b6', 'STRidge: coefficients in normalised units when every one is below the threshold; ties and single columns not refitted'),
 ('C11', '5032bad', 'Lasso in PDE_find: array shapes / single column; Train(sparse=Lasso) returned least-squares coefficients with the Lasso error'),
 ('C12', '74ec5b5', 'Tree.mutate: endless resampling when the only differentiation variable has no alternative (axes [y,t], or one spatial axis with simple_mode off)'),
 ('C12', '90a12ac', 'Tree.mutate (simple_mode): derivative with respect to a field named x when x is not a coordinate'),
 ('C15', '1e668c0', 'SolverConfig.divide: guarded division changed its divisor in place and raised on integer divisors'),
    ('C15', '4a152c9', 'parameter fields could shadow other variables or leak the target derivative; their shape was not checked'),
    ('C16', '5de6f04', 'delete_edges left the parameter fields untrimmed'),
    ('C15', '5d8417e', 'names ending in a newline passed name validation'),
    ('C31', '37d09cb', 'KD_SGA.fit_dataset raised TypeError when the user overrode target_field or lhs_axis of an N-D dataset'),
    ('C31', '93f50b7', 'the SGA adapter dropped the parameter fields of x/t/usol datasets'),
    ('C17', '2d51dd0', 'LaTeX lost the grouping of differentiated products, quotients and powers: d(u*v, x) was u \\cdot v_{x}; d of u*u_x became u \\cdot u_{xx}'),
    ('C17', '84e8c90', 'derivative leaves of fields other than u were printed raw: d(v_x, x) became v_x_{x}'),
    ('C17', '894207e', 'the left-hand side and the default term were named u whatever the target field and axis'),
    ('C09', 'dd940c0', 'replacing a same-reward candidate broke the heap order, so later pushes dropped better candidates'),
    ('C18', '15f98c5', 'crossover paired individuals by n_generations instead of the population size (IndexError when larger)'),
    ('C18', 'fd2900f', 'selection kept one of several equally fit candidates more than once, as the same list, and shrank odd populations'),
    ('C18', 'e38ad7a', 'unknown operator names were skipped, so genes were reported under the names of other columns'),
    ('C33', 'fabb1e3', 'DLGA training shuffled the arrays of the caller, including the field of the dataset'),
    ('C19', '4e45c12', 'DLGA LaTeX ignored the operator list of the model'),
    ('C20', 'd40ef31', 'terms that print as sums or signed products were not bracketed after their coefficient'),
    ('C20', '368012f', 'expanding the derivative of a product with a coordinate or a parameter field lost terms'),
    ('C20', 'a17e6b9', 'Leibniz notation printed the derivative of a product as the derivative of its first factor'),
    ('C20', '42cf6a6', 'derivatives of parameter fields were printed with a double subscript'),
    ('C20', '572664d', 'Laplace operators and unknown names were printed as products of their letters'),
    ('C20', '63b43fd', 'equations fitted along another axis were rendered with u_t and wrong coordinate names'),
    ('C21', '761671a', 'mesh rows did not belong to the entries of the field when the time axis was not last'),
    ('C21', 'a2b4a46', 'get_derivative ignored the grid spacing and the axis order'),
    ('C21', '0592fb2', 'get_range / get_datapoint ignored the axis order; ranges lost their upper end'),
    ('C21', 'cdd88f9', 'loaders transposed square fields that were already (x, t)'),
    ('C22', '7fa32af', 'uniform and spline sampling returned another number of points; spline points carried the values of other points'),
    ('C23', 'e0cc1d0', 'grid checks of the regular adapter depended on the unit of the coordinates; non-finite coordinates passed'),
    ('C25', '89c395e', 'the EqGPT words uyyt and sint were computed with the columns of other variables'),
    ('C25', '2657ec7', 'the EqGPT words (u(u^2)xx)xx and (u^2)xx were computed as other expressions'),
    ('C25', '89d18a7', 'the EqGPT word BiLaplace(u) left out the z derivatives of three-dimensional problems'),
    ('C25', 'af5cf48', 'the coefficients of an EqGPT sentence could not be computed: calculate_terms was called without grid sizes'),
    ('C26', '4042b99', 'quotients were removed as repetitions of products of the same words'),
    ('C26', 'f9dd3b3', 'removing repeated terms cut the end mark off the sentence it was given'),
    ('C26', 'b072ce6', 'sentences that cannot be evaluated got a reward of nan and headed the leader board'),
    ('C26', 'c81dd5b', 'the leader board never grew beyond the first epoch when that had fewer than ten distinct equations'),
    ('C27', '1048086', 'set_params changed parameters before it rejected an unknown name'),
    ('C27', '014d0b2', 'the discover models could not report their parameters (get_params raised)'),
    ('C27', 'ef69991', 'DLGA and KD_DLGA could not report their parameters (get_params raised)'),
    ('C27', '789cc3a', 'KD_PySR reported another extra_model_kwargs than the one passed in'),
    ('C28', '273238d', 'user configurations of the discover models failed (collections.Mapping)'),
    ('C28', '0f79d0a', 'importing a second dataset nested its output path below the file of the first'),
    ('C28', '710bafe', 'setting a discover model up a second time disabled all of its constraints'),
    ('C28', '7fd3c37', 'data imported without a PDEDataset kept the name and dimensions of the dataset imported before'),
    ('C28', '54aebb7', 'a configured mapping could not replace a default that is no mapping'),
    ('C28', 'c2c3dc9', 'the configured observations embedding and observe_dangling failed'),
    ('C29', 'c857eb5', 'symbolic regression accepted targets that are not one-dimensional and values that are not finite'),
    ('C29', 'eec558b', 'the named expression renamed features inside the names of other features'),
    ('C29', 'e2f08ec', 'the reported expression turned small constants into zero'),
    ('C29', '0c33211', 'predictions were zero once a model evaluated with torch was set up'),
    ('C32', '95cf52d', 'the search reported invalid or worse candidates after batches without accepted candidates, and failed when no reward was positive'),
    ('C32', '066d6b1', 'training the network failed for a candidate with a term that cannot be evaluated or with a huge residual'),
    ('C30', '871cd8f', 'a plot of a model whose class has several registered base classes used the adapter registered first instead of the one of the nearest base class; lazily registered adapters of base classes were not found'),
    ('C32', '83838c3', 'training the network on a candidate whose residual overflows left a network of NaN and ended the whole search with an error (it depended on the random start)'),
    ('C33', '7917671', 'derivatives computed with trained networks were stored in the dictionaries of models and paths given by the caller'),
    ('C34', 'd45e36a', 'merging duplicates overwrote the first candidate of the same length instead of the duplicate, losing a candidate of another value'),
]
KNOWN = []
out = [dict(property=p, key=f'fixed:{c}', status='fixed', commit=c, what=f'fixed: property={p} {c} {w}') for p, c, w in FIXED]
out += [dict(property=p, key=k, status='known', what=w) for p, k, w in KNOWN]
json.dump(dict(findings=out), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
