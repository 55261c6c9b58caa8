"""The single source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, HMM = 'pydtmc/markov_chain.py', 'pydtmc/hidden_markov_model.py'
P = []


def prop(pid, title, statement, over, quant, why, files, mech, technique, note):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, '_technique': technique, '_note': note})


FIX = 'The existing tests compare stored results on a few dozen fixed chains; '
GEN = 'Generated search with Hypothesis over structured chains (class layouts, periods, sparsity, six weight schemes, labels), seeded by VERIF_SEED and sharded over 8 processes; failures are shrunk to a replay file. Exploration, not proof; float comparisons use stated tolerances.'

prop('C01', 'Construction stores exactly the given model and rejects everything else',
     'A chain (or hidden model) built from any accepted stochastic matrix form - nested list, array of any numeric type, memory layout, sparse matrix, data frame - holds exactly those numbers and those names in that order, with default names 1..n (P1..Pn and E1..Ek for hidden models), and the given objects are neither changed nor retained. A matrix which is not square of size at least two, has entries outside [0,1] or not finite, rows which do not sum to one, or a wrong number of, duplicated, empty or non-string names is rejected with the validation error. The size, the string summary and the matrix views agree with the stored matrix.',
     ['inputs'], 'all matrices and names in every accepted container, and all single corruptions of them', FIX + 'constructor inputs are a handful of lists.',
     [MC, HMM, 'pydtmc/validation.py', 'pydtmc/utilities.py'], [('constructor', MC + ' __init__'), ('matrix validation', 'pydtmc/validation.py validate_transition_matrix'), ('numeric extraction', 'pydtmc/utilities.py extract_numeric')],
     'property-based testing: generated valid inputs in every container, and generated corruptions', GEN)
prop('C02', 'Invalid arguments are rejected with the validation error and change nothing',
     'For every public method, an argument of the wrong type, out of range, of the wrong length, duplicated, unknown or not finite is rejected with the validation error before anything is computed, whatever the other (valid) arguments are. Boundary values documented as valid are accepted. A rejected call leaves the chain equal to what it was.',
     ['inputs'], 'every public operation, each of its arguments, each class of invalid value for the type of that argument, on generated models', 'The validation fixtures exercise each validator once or twice in isolation, not the wiring of the validators and limits to the public operations.',
     [MC, HMM, 'pydtmc/validation.py', 'pydtmc/assessments.py'], [('argument validation', 'pydtmc/validation.py'), ('error conversion', 'pydtmc/utilities.py create_validation_error')],
     'property-based testing: grammar of calls with one corrupted argument', GEN)
prop('C03', 'Equality and hashing are coherent',
     'Two chains (or two hidden models) are equal exactly when their matrices and their names are equal, equality is an equivalence, comparison with any other object is false, and equal models have equal hashes so that they behave as one key in sets and dictionaries. Rebuilding a model from its own matrix and names gives an equal model.',
     ['inputs'], 'all pairs of models, one entry or one name perturbed, signed zeros included', FIX + 'equality is tested on identical rebuilt objects only.',
     [MC, HMM], [('equality', MC + ' __eq__'), ('hash', MC + ' __hash__')], 'property-based testing: pairs at zero or one perturbation', GEN)
prop('C04', 'Models are immutable values: results do not depend on the history of calls',
     'Any operation on a chain or hidden model gives the same result whatever operations were called before on it, in any order and any number of times, and no operation changes the model, its arguments, or a result already handed out. Modifying in place an object returned by the model, or an object given to it, changes neither the model nor any later result. Models derived from a model never share mutable state with it.',
     ['histories'], 'all sequences of public operations on one model interleaved with in-place modifications of arguments and results', 'Tests call one operation per fresh model; caching and aliasing only show over sequences of calls.',
     [MC, HMM, 'pydtmc/decorators.py'], [('cached properties', 'pydtmc/decorators.py cached_property'), ('copies on output', MC)],
     'stateful model-based testing: random histories against a fresh model', GEN)
prop('C05', 'State classification follows the reachability of the support graph',
     'Accessibility, communication, communicating classes, recurrent, transient and absorbing classes and states, and the per-state predicates are exactly those of the directed graph of the strictly positive transition probabilities, however small or close to one these are, with every state in exactly one class. They are reported by name, in a deterministic order, and the absorbing flag holds exactly when every state reaches an absorbing state.',
     ['inputs'], 'all chains: any layout of classes, any weights, any names', FIX + 'classes are tested on friendly probabilities and names.',
     [MC, 'pydtmc/measures.py', 'pydtmc/computations.py'], [('classes', MC + ' __communicating_classes_indices'), ('accessibility', MC + ' accessibility_matrix')],
     'property-based testing against an exact graph reference model', GEN)
prop('C06', 'Period, cyclic classes, regularity and ergodicity are right',
     'The period of every communicating class is the greatest common divisor of the lengths of its cycles (1 where it is not closed), the cyclic classes of an irreducible chain partition its states such that each class leads only to the next one, and a chain is regular exactly when some power of its matrix is strictly positive, aperiodic when the periods of its recurrent classes have no common divisor but one (as the fixtures have it), ergodic when irreducible and aperiodic.',
     ['inputs'], 'all chains with classes of any period and any size', FIX + 'few periodic chains are covered, all with small periods.',
     [MC, 'pydtmc/computations.py'], [('periods', 'pydtmc/computations.py calculate_periods'), ('cyclic classes', 'pydtmc/computations.py find_cyclic_classes'), ('regularity', MC + ' is_regular')],
     'property-based testing against an exact graph reference model', GEN)
prop('C07', 'Stationary distributions solve the balance equations, one per recurrent class',
     'There is exactly one reported stationary distribution per recurrent class; each is a probability vector, unchanged by one step of the chain, strictly positive on its class and null elsewhere. They agree with the exact solution of the balance equations, for slow, nearly decoupled and badly scaled chains too.',
     ['inputs'], 'all chains, reducible, periodic, slow and badly scaled', FIX + 'the number and support of the distributions of generic reducible chains is not covered.',
     [MC, 'pydtmc/computations.py'], [('stationary distributions', MC + ' pi'), ('GTH', 'pydtmc/computations.py gth_solve')], 'property-based testing against exact rational solutions', GEN)
prop('C08', 'Structural flags and scalar descriptors match their definitions',
     'Reversibility (detailed balance), symmetry, double stochasticity, stochastic monotonicity, canonical form, the adjacency and incidence matrices, the density, the rank and the determinant are those of the transition matrix by definition.',
     ['inputs'], 'all chains, biased to those which satisfy or nearly satisfy each definition', FIX + 'near misses of each definition are not covered.',
     [MC], [('flags', MC + ' is_reversible, is_symmetric, is_doubly_stochastic, is_stochastically_monotone, is_canonical')], 'property-based testing against definitions in exact arithmetic', GEN)
prop('C09', 'Spectral and entropy measures agree with their definitions and with each other',
     'Mixing rate, spectral gap, relaxation rate, implied timescales, Kemeny constant, fundamental matrix, topological entropy and entropy rates equal their definitions on the exact stationary distribution and spectrum, satisfy their mutual identities, and are undefined (none) exactly when the chain is not of the kind they need.',
     ['inputs'], 'all chains', FIX + 'the identities between measures are not tested.',
     [MC, 'pydtmc/computations.py'], [('spectral measures', MC + ' mixing_rate, spectral_gap, relaxation_rate, implied_timescales'), ('entropy', MC + ' entropy_rate, topological_entropy'), ('Kemeny', MC + ' kemeny_constant')],
     'property-based testing: definitions, identities and metamorphic relations', GEN)
prop('C10', 'Absorption probabilities and times solve the absorption equations',
     'Absorption probabilities from every transient state into every recurrent class form a distribution and satisfy the one-step equations; mean absorption times satisfy t = 1 + Q t; both are undefined exactly when the chain has nothing to be absorbed or the documented conditions fail. They equal the exact solutions, listed in the order of the states.',
     ['inputs'], 'all chains with transient states', FIX + 'few absorbing chains, with one class order.',
     ['pydtmc/measures.py', MC], [('absorption', 'pydtmc/measures.py mc_absorption_probabilities, mc_mean_absorption_times')], 'property-based testing against exact linear solutions', GEN)
prop('C11', 'Hitting probabilities and times solve the hitting equations',
     'For every nonempty set of targets, the hitting probability of a state is 1 on the targets, 0 when they are not reachable and otherwise the average over one step (minimal solution); the mean hitting time is 0 on the targets, infinite where the targets may be missed, and otherwise one plus the average over one step.',
     ['inputs'], 'all chains, all sets of targets, given as indices or names in any order', FIX + 'targets are few and chains are well conditioned.',
     ['pydtmc/measures.py', MC], [('hitting', 'pydtmc/measures.py mc_hitting_probabilities, mc_hitting_times')], 'property-based testing against exact minimal solutions', GEN)
prop('C12', 'Mean first passage and recurrence times agree with the exact equations',
     'Mean first passage times to a state or set, and between sets, equal the solutions of their one-step equations (weighted by the stationary distribution on the origins), are zero on the diagonal, and are undefined exactly when the chain is not ergodic or irreducible as documented. Mean recurrence times are the reciprocals of the stationary probabilities.',
     ['inputs'], 'all chains, all sets of targets and origins', FIX + 'sets of targets are few.',
     ['pydtmc/measures.py', MC], [('passage times', 'pydtmc/measures.py mc_mean_first_passage_times_to, mc_mean_first_passage_times_between'), ('recurrence', 'pydtmc/measures.py mc_mean_recurrence_times')], 'property-based testing against exact linear solutions', GEN)
prop('C13', 'Mean numbers of visits are right, zeros and infinities included',
     'The mean number of visits of a state from another is zero exactly where it cannot be reached, infinite exactly where a recurrent state can be reached, and otherwise the entry of the fundamental series; the same table holds for every chain.',
     ['inputs'], 'all chains', FIX + 'slow or mixed chains are not covered.',
     ['pydtmc/measures.py'], [('visits', 'pydtmc/measures.py mc_mean_number_visits')], 'property-based testing against exact solutions', GEN)
prop('C14', 'Committor probabilities solve the committor equations',
     'The forward committor is 0 on the origin set, 1 on the target set and harmonic elsewhere; the backward committor is the same for the time-reversed chain with the roles exchanged; both lie in [0,1], and they are undefined when the chain is not ergodic as documented. Disjoint nonempty sets are required.',
     ['inputs'], 'all irreducible chains and pairs of disjoint sets, of any order and form', FIX + 'one or two pairs of sets per chain.',
     ['pydtmc/measures.py', MC], [('committors', 'pydtmc/measures.py mc_committor_probabilities')], 'property-based testing against exact solutions', GEN)
prop('C15', 'First passage probabilities and rewards follow the first passage recursion',
     'First passage probabilities at step k to each target are the probabilities that the first visit after time zero happens at step k, for every origin, horizon and target; the first passage reward is the expected reward collected up to the first passage within the given steps, following the documented recursion.',
     ['inputs'], 'all chains, horizons, origins and target sets', FIX + 'few horizons and targets.',
     ['pydtmc/measures.py', MC], [('first passage', 'pydtmc/measures.py mc_first_passage_probabilities, mc_first_passage_reward')], 'property-based testing against path sums in exact arithmetic', GEN)
prop('C16', 'Forward evolution equals the powers of the transition matrix',
     'Redistributing an initial status over k steps gives its product with the k-th power of the matrix at every step, expected rewards are the partial sums of the powers applied to the rewards, and expected transitions count every transition of the first k steps, whatever k, the start (default, name, index, vector) and the structure of the chain. Transition and conditional probabilities are the entries and rows of the matrix.',
     ['inputs'], 'all chains, starts and horizons from 1 to 10^4', FIX + 'horizons and starts are few; the result switches algorithm with the horizon.',
     ['pydtmc/measures.py', 'pydtmc/simulations.py', MC], [('redistribution', 'pydtmc/simulations.py mc_redistribute'), ('transitions', 'pydtmc/measures.py mc_expected_transitions'), ('rewards', 'pydtmc/measures.py mc_expected_rewards')],
     'property-based testing against exact powers', GEN)
prop('C17', 'Time correlations and relaxations equal their definitions',
     'For every sequence or pair of sequences of states and every set of time points, the autocorrelation and crosscorrelation at time t is the sum over the states of the first observable weighted by the stationary distribution times the t-step propagation of the second, and the relaxation at time t is the propagated initial status applied to the observable. They are undefined when the chain has several stationary distributions as documented.',
     ['inputs'], 'all chains with one stationary distribution, all observables, starts and times', FIX + 'the algorithm changes with the time points and the structure of the matrix; few of them are covered.',
     ['pydtmc/measures.py', MC], [('correlations', 'pydtmc/measures.py mc_time_correlations'), ('relaxations', 'pydtmc/measures.py mc_time_relaxations')], 'property-based testing against exact powers', GEN)
prop('C18', 'Sensitivity is the derivative of the stationary distribution',
     'The sensitivity matrix of a state of an irreducible chain gives the derivatives of its stationary probability under perturbations of the transition matrix which keep its rows summing to one, and agrees with finite perturbations; it is undefined for reducible chains.',
     ['inputs'], 'all irreducible chains, states and perturbations', FIX + 'values are compared with stored ones for a few chains.',
     ['pydtmc/measures.py'], [('sensitivity', 'pydtmc/measures.py mc_sensitivity')], 'property-based testing: exact perturbation differences', GEN)
prop('C19', 'Mixing time is the first time within the cutoff from equilibrium',
     'For every initial distribution, jump and cutoff, the mixing time is the jump times the least number of jumps after which the distance between the propagated and the stationary distribution does not exceed the cutoff; it is undefined when the chain is not ergodic or does not mix within the documented bound.',
     ['inputs'], 'all ergodic chains, starts, jumps and cutoff types', FIX + 'few starts, jumps and cutoffs.',
     ['pydtmc/measures.py', MC], [('mixing', 'pydtmc/measures.py mc_mixing_time')], 'property-based testing against exact propagation', GEN)
prop('C20', 'Walks respect the chain, and are reproducible',
     'Every simulated walk or step uses only transitions of positive probability, starts at the given state, has the requested number of steps unless it stops at the first visit of the final state after the start, and has the transition frequencies of the chain; equal seeds give equal walks, and names and indices describe the same walk. Prediction follows the unique most probable transitions and is undefined at a tie; the probability of a sequence is the product of its transition probabilities.',
     ['inputs', 'histories'], 'all chains, starts, final states, steps, seeds and sequences', FIX + 'walks are compared with stored sequences for a few seeds.',
     ['pydtmc/simulations.py', MC], [('simulation', 'pydtmc/simulations.py mc_simulate'), ('prediction', 'pydtmc/simulations.py mc_predict'), ('sequence probability', 'pydtmc/simulations.py mc_sequence_probability')],
     'property-based testing: invariants of walks, reference predictor, statistical bound with negligible false alarm rate', GEN)
prop('C21', 'Lumping is exact and complete',
     'A partition is accepted exactly when every state of a block has the same total probability towards each block; the lumped chain then has those totals as transitions, is named after the joined state names, and commutes with forward evolution. The reported lumping partitions are lumpable, distinct and complete over the ordered partitions that lumping accepts.',
     ['inputs'], 'all chains built lumpable by construction or perturbed away from it, all partitions', FIX + 'lumpable chains with generic probabilities are not covered.',
     ['pydtmc/generators.py', 'pydtmc/computations.py', MC], [('lump', 'pydtmc/generators.py mc_lump'), ('partitions', 'pydtmc/computations.py find_lumping_partitions')], 'property-based testing: chains lumpable by construction, exact lumpability reference', GEN)
prop('C22', 'Derived chains have the stated transition law',
     'The lazy chain mixes the identity with the given weights, the nth-order chain is the nth power, the merged chain is the weighted average, the bounded chain replaces only the first and last rows by the boundary condition, the canonical form is a reordering putting transient before recurrent states, and the subchain is the original restricted to the closure of the given states; each keeps the documented names and is a valid chain.',
     ['inputs'], 'all chains, weights, orders, conditions and sets of states', FIX + 'each derivation is compared with stored results for a few chains.',
     [MC, 'pydtmc/generators.py'], [('derivations', 'pydtmc/generators.py mc_lazy, mc_bounded, mc_canonical, mc_sub'), ('merge and order', MC + ' merge_with, to_nth_order')], 'property-based testing against reference derivations', GEN)
prop('C23', 'Closest reversible chain is in detailed balance and at least as close as any',
     'A chain which is already reversible is returned as it is; otherwise the result is a valid chain with the same names, in detailed balance with the given distribution, and no other chain in detailed balance with that distribution is closer in the chosen norm (up to the accuracy of the solver). An error is raised only when the closest chain has several stationary distributions. The weighted norm rejects null probabilities.',
     ['inputs'], 'all chains and distributions, weighted or not', FIX + 'optimality is not tested.',
     ['pydtmc/generators.py', MC], [('quadratic program', 'pydtmc/generators.py mc_closest_reversible')], 'property-based testing: detailed balance, fixed points, and optimality against an independent certified optimum', GEN)
prop('C24', 'Spectral aggregation gives a stationary aggregation of the states',
     'Aggregating an ergodic chain of size n into s groups (2 <= s < n) with either method gives a chain with exactly s states which is the aggregation of the original along some partition of its states, weighted by the stationary distribution, the top-down method choosing, among the splits proposed by the signs of the second eigenvectors, one of lowest divergence; the adaptive method is the top-down one for chains of less than 30 states and otherwise the one chosen by the ratio of s to n. Chains which are not ergodic are rejected.',
     ['inputs'], 'all ergodic chains, every admissible s and method', FIX + 'few sizes; the top-down method fails for others.',
     ['pydtmc/generators.py', MC], [('aggregation', 'pydtmc/generators.py mc_aggregate_spectral_bottom_up, mc_aggregate_spectral_top_down')], 'property-based testing: enumeration of all partitions as reference', GEN)
prop('C25', 'The chains of named models have the transition law of their model',
     'Birth-death, gambler ruin, urn, population genetics and identity chains have exactly the transition probabilities of their model for every admissible parameter, with increasing default names or the given names, and inadmissible parameters are rejected.',
     ['inputs'], 'all admissible parameters of every model', FIX + 'a few parameters per model.',
     ['pydtmc/generators.py', MC], [('models', 'pydtmc/generators.py mc_birth_death, mc_gamblers_ruin, mc_urn_model, mc_population_genetics_model')], 'property-based testing against independent formulas', GEN)
prop('C26', 'Random generation respects size, zeros, mask, shape and seed',
     'Random chains have the requested size and names, exactly the requested number of null probabilities outside of the mask, the masked values where given, rows summing to one, and depend only on the arguments and the seed; the Dirichlet process and the random distributions give valid chains of the requested size. Impossible requests are rejected.',
     ['inputs'], 'all sizes, zeros, partial masks, distributions and seeds', FIX + 'a few masks and seeds.',
     ['pydtmc/generators.py', MC], [('random', 'pydtmc/generators.py mc_random'), ('Dirichlet process', 'pydtmc/generators.py mc_dirichlet_process'), ('distributions', MC + ' random_distribution')], 'property-based testing: invariants of generated chains', GEN)
prop('C27', 'Approximations of autoregressive processes discretise the process',
     'For every admissible size and parameters, each approximation method gives a valid chain of that size equal to an independent evaluation of the method, with the symmetry and persistence of the process it approximates.',
     ['inputs'], 'all sizes, locations, scales, autocorrelations up to one and widths, for the four methods', FIX + 'a few parameters per method.',
     ['pydtmc/generators.py', MC], [('approximation', 'pydtmc/generators.py mc_approximation')], 'property-based differential testing against independent implementations', GEN)
prop('C28', 'Fitting a sequence gives the estimate of its transition counts',
     'Fitting a chain from a sequence gives the normalised transition counts (with the uniform row for states never left, the optional smoothing, or the prior counts of the maximum a posteriori estimate), whatever the possible states and the form of the sequence.',
     ['inputs'], 'all sequences, states, hyperparameters', FIX + 'a few sequences.',
     ['pydtmc/fitting.py', MC], [('fit', 'pydtmc/fitting.py mc_fit_sequence')], 'property-based testing against reference estimates', GEN)
prop('C29', 'Fitting a function discretises it on the quadrature of the interval',
     'Fitting a chain from a transition function evaluates it on the nodes of the chosen quadrature over the given interval and normalises the values times the weights, the nodes and weights being those of the quadrature on any interval, with uniform rows where the function vanishes.',
     ['inputs'], 'all quadratures, sizes, intervals and functions', FIX + 'few intervals.',
     ['pydtmc/fitting.py', MC], [('quadratures', 'pydtmc/fitting.py mc_fit_function')], 'property-based differential testing against independent quadratures', GEN)
prop('C30', 'Results do not depend on the names or on the order of the states',
     'Renaming the states renames the results and changes nothing else; reordering the states reorders the results accordingly; asking by name or by index gives the same answer.',
     ['inputs'], 'all chains, permutations, namings and public queries', 'Each fixture has one order and one naming of its states.',
     [MC, 'pydtmc/measures.py', 'pydtmc/validation.py'], [('names to indices', 'pydtmc/validation.py validate_label, validate_labels_current, validate_status')], 'metamorphic property-based testing', GEN)
prop('C31', 'Dictionary, graph and matrix conversions round-trip',
     'Converting a chain to a dictionary and back gives an equal chain bit for bit; converting it to a graph or a matrix and back gives the same chain up to the rounding of the normalisation, with the same names and null entries; the graph has exactly one weighted edge per positive probability; building from a matrix or a graph of nonnegative weights normalises each row, null rows becoming uniform. Dictionaries in any key order define the same transition law, and incomplete ones are rejected.',
     ['inputs'], 'all chains, weights, key orders and graphs', FIX + 'round trips are tested on a few chains with plain names.',
     [MC, 'pydtmc/utilities.py'], [('conversions', MC + ' to_dictionary, from_dictionary, to_graph, from_graph, to_matrix, from_matrix')], 'property-based round-trip testing', GEN)
prop('C32', 'File round trips preserve the model in every format',
     'Writing a chain or a hidden model to a csv, json, txt or xml file and reading it back gives an equal model, for every name representable in the format and every probability bit for bit, whatever was in the file before. Damaged or foreign files are rejected with an error and never read as another model.',
     ['inputs'], 'all models, formats, names with special characters and damaged files', 'The files used by the tests have plain names.',
     ['pydtmc/files_io.py', MC, HMM], [('formats', 'pydtmc/files_io.py read_csv, read_json, read_txt, read_xml, write_csv, write_json, write_txt, write_xml')], 'property-based round-trip testing and structured file corruption', GEN)
prop('C33', 'Hidden models: queries, restriction and conversions are faithful',
     'A hidden model answers with the entries of its matrices; it is ergodic when its chain is ergodic and every emission is positive, and regular when its emission matrix has full column rank; conversion to a dictionary, graph or matrices and back gives an equal model; a restriction keeps the given states and symbols in order and renormalises their rows, null rows becoming uniform.',
     ['inputs'], 'all hidden models, subsets of states and symbols', FIX + 'few hidden models are covered.',
     [HMM, 'pydtmc/generators.py'], [('restriction', 'pydtmc/generators.py hmm_restrict'), ('conversions', HMM)], 'property-based testing against reference restriction and round trips', GEN)
prop('C34', 'Decoding gives the exact posterior of the hidden states',
     'For every model, initial status and observed sequence, the log probability is that of the sequence summed over all hidden paths, the posterior at every time is the conditional distribution of the hidden state, the forward and backward tables satisfy their definitions scaled or not, and decoding is undefined exactly when the sequence is impossible.',
     ['inputs'], 'all hidden models with structural zeros, starts and sequences', FIX + 'few models and sequences.',
     ['pydtmc/measures.py', HMM], [('decode', 'pydtmc/measures.py hmm_decode')], 'property-based testing against brute force enumeration of hidden paths in exact arithmetic', GEN)
prop('C35', 'Hidden predictions and simulations respect the model',
     'The maximum likelihood prediction is a most probable hidden path with its log probability (the initial status being weighed by the emission of the first symbol, as the stored results of the tests have it), the maximum a posteriori prediction maximises every posterior marginal, and both are undefined when the sequence is impossible; simulated sequences use only transitions and emissions of positive probability, stop as asked, have the frequencies of the model and are reproducible by seed.',
     ['inputs', 'histories'], 'all hidden models, sequences, starts, stops and seeds', FIX + 'few models and seeds.',
     ['pydtmc/simulations.py', HMM], [('prediction', 'pydtmc/simulations.py hmm_predict'), ('simulation', 'pydtmc/simulations.py hmm_simulate')], 'property-based testing: brute force over hidden paths, walk invariants', GEN)
prop('C36', 'Hidden estimation, fitting and random generation are right',
     'Estimation gives the normalised counts of transitions and emissions (uniform for states never seen); a fitted model is valid and a fixed point of the chosen re-estimation, whose likelihood is never below the initial guess for the expectation-maximisation method; random hidden models respect sizes, zeros, masks and seed.',
     ['inputs'], 'all sequences, guesses, masks and seeds', FIX + 'few sequences and masks.',
     ['pydtmc/fitting.py', 'pydtmc/generators.py', HMM], [('fit', 'pydtmc/fitting.py hmm_fit'), ('estimate', 'pydtmc/generators.py hmm_estimate'), ('random', 'pydtmc/generators.py hmm_random')], 'property-based testing against reference estimators and likelihood monotonicity', GEN)
prop('C37', 'Assessments compute their test statistics on the observed counts',
     'The assessments of first order, Markov property, homogeneity, stationarity and theoretical compatibility return the statistic and degrees of freedom of their test on the observed counts, its chi-square p-value, and reject exactly when the p-value is below the significance; an undefined statistic gives an undefined result, an impossible transition rejects the theoretical chain. They do not depend on the names or the order of the states, nor on whether sequences are given by names or indices. (Theoretical compatibility counts the transitions into a state where those out of it are due: the stored results of the tests have it.)',
     ['inputs'], 'all sequences, states, block counts and significance levels', FIX + 'few sequences.',
     ['pydtmc/assessments.py', 'pydtmc/computations.py'], [('assessments', 'pydtmc/assessments.py')], 'property-based differential testing against independent test statistics', GEN)
prop('C38', 'Plots show the data of the model',
     'Every plotting function draws the numbers and names of the model it is given - eigenvalues, flow values, graph nodes and edges, redistributions, sequences, probability bars - in the right places (the layout of Graphviz itself excepted), for every name that matplotlib and Graphviz display literally; it leaves the model, the settings of matplotlib and, unless it draws a random walk without seed or a random layout, the global random generator unchanged, and rejects invalid arguments.',
     ['inputs'], 'all models, sequences and plotting options', 'Plot tests only check that no exception is raised.',
     ['pydtmc/plotting.py'], [('plots', 'pydtmc/plotting.py')], 'property-based testing: data extracted from the figure artists against the model', GEN)
prop('C39', 'Aliases and redundant forms agree',
     'Every documented alias of a property or method, and every redundant way of giving an argument (name or index, one state or a list of one, list or array, default or explicit default), gives the same answer as the canonical one.',
     ['inputs'], 'all models, aliases and argument forms', 'The alias tests compare a few calls on fixed chains.',
     [MC, HMM, 'pydtmc/decorators.py'], [('aliases', 'pydtmc/decorators.py aliased')], 'metamorphic property-based testing', GEN)


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        if os.path.exists(os.path.join(ROOT, 'props', pid.lower() + '.py')):
            checks.append({'property': pid, 'quick_cmd': f'./run.sh {pid} quick', 'thorough_cmd': f'./run.sh {pid} thorough', 'technique': p['_technique'], 'level': 'exploration', 'level_note': p['_note']})
        else:
            na.append({'property': pid, 'reason': 'no check built yet: the technique applies, the work is in progress'})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
                   'notes': 'No hooks in /repo are needed: the checks import /repo/pydtmc from the working tree. Replay a failure with ./run.sh ID --replay FILE.'}, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not claimed')


if __name__ == '__main__':
    main()
