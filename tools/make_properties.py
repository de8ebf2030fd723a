import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=['pydtmc/'+f for f in files],mechanism=[dict(name=a,where='pydtmc/'+b) for a,b in mech],observe_at=observe,hook_needed=None)))
W="The tests compare a few dozen fixed chains against stored outputs; "
p('C01','Constructed models are always valid and keep exactly the given data',
 "Whenever MarkovChain(p, states) or HiddenMarkovModel(p, e, states, symbols) returns - whatever code calls it - p is square (size at least 2), e has one row per state and at least two columns, every entry lies in [0, 1], every row sums to 1 up to the usual floating-point closeness, and the labels are unique non-empty strings, one per state and symbol, with no label shared between states and symbols. The model then reports exactly the matrices and labels it was given (default labels 1..n for a chain, P1..Pn and E1..Ek for a hidden model). Any input violating this raises ValidationError.",
 ['inputs','programs'],'every matrix (list, array, sparse, DataFrame), every label list and every calling context',
 W+'they cannot cover every malformed entry, every matrix size and every caller.',
 ['markov_chain.py','hidden_markov_model.py','validation.py','utilities.py'],
 [('constructor validation','markov_chain.py:MarkovChain.__init__'),('constructor validation','hidden_markov_model.py:HiddenMarkovModel.__init__'),('validate_transition_matrix','validation.py'),('validate_emission_matrix','validation.py'),('validate_labels_input','validation.py')],['MarkovChain.p','MarkovChain.states','HiddenMarkovModel.e','HiddenMarkovModel.symbols'])
p('C02','Closed-form factories build exactly the documented chain',
 "For every admissible parameter, identity(n) is the identity; gamblers_ruin(n, w) has absorbing ends and moves one state up with probability w and one down with 1-w elsewhere; urn_model('ehrenfest', n) and urn_model('bernoulli-laplace', n) have 2n+1 states and the Ehrenfest and Bernoulli-Laplace moves with reflecting ends; birth_death(p, q) moves up from state i with probability p[i], down with q[i] and stays with the rest. population_genetics_model is a stochastic matrix with two absorbing ends whose interior rows are the binomial law after mutation and selection (wright-fisher) or move by at most one state (moran), the Moran up and down probabilities being those of the selection/mutation birth-death model when both mutation rates are equal.",
 ['inputs','configurations'],'every size and every admissible real parameter of each factory',
 W+'factory sizes and parameters are unbounded and only a handful are stored.',
 ['generators.py','markov_chain.py'],[('mc_gamblers_ruin','generators.py'),('mc_urn_model','generators.py'),('mc_birth_death','generators.py'),('mc_population_genetics_model','generators.py'),('identity','markov_chain.py')],['MarkovChain.p'])
p('C03','Randomised and fitted-function chains are stochastic and honour masks',
 "MarkovChain.random and HiddenMarkovModel.random always return stochastic matrices in which every masked entry has exactly the masked value (unmasked entries of a row whose mask already sums to 1 are 0) and exactly the requested number of the remaining free entries is zero; an infeasible number of zeros raises ValidationError. random_distribution, dirichlet_process, approximation and fit_function return stochastic matrices, and fit_function rows are proportional to f(i, x_i, j, x_j) times the weights of the chosen quadrature on the given interval (uniform where all products vanish).",
 ['inputs','configurations'],'every size, mask, number of zeros, seed, quadrature, interval and non-negative transition function',
 W+'random outputs are only compared for fixed seeds and sizes.',
 ['generators.py','fitting.py','markov_chain.py','hidden_markov_model.py'],[('mc_random','generators.py'),('hmm_random','generators.py'),('mc_fit_function','fitting.py'),('random_distribution','markov_chain.py')],['MarkovChain.p','HiddenMarkovModel.e'])
p('C04','Derived chains have the documented transition matrix and labels',
 "For every chain P: to_lazy_chain(w) is w*I + (1-w)*P row by row, merge_with(Q, g) is (1-g)*P + g*Q, to_nth_order(k) is P^k, to_bounded_chain replaces only the first and last rows by the boundary condition, to_canonical_form permutes states so that all transient ones precede the recurrent ones, to_subchain keeps exactly the given states and everything they can reach with their rows, and lump(partition) gives class-to-class probabilities and refuses non-lumpable partitions. The resulting labels follow the same permutation, selection or grouping of the original labels, and the original chain is unchanged.",
 ['inputs'],'every chain, weight, order, boundary condition, state subset and contiguous partition',
 W+'each transformation is a matrix identity over all sizes and probabilities.',
 ['generators.py','markov_chain.py'],[('mc_lazy','generators.py'),('mc_bounded','generators.py'),('mc_canonical','generators.py'),('mc_sub','generators.py'),('mc_lump','generators.py'),('to_nth_order','markov_chain.py'),('merge_with','markov_chain.py')],['MarkovChain.p','MarkovChain.states'])
p('C05','Dictionary, graph and matrix conversions preserve the model',
 "For every chain and hidden model, from_dictionary(to_dictionary()), from_graph(to_graph()) and from_matrix/from_matrices(to_matrix/to_matrices, labels) reproduce the same labels in the same order and the same probabilities (exactly for dictionaries, up to one rounding for graphs and matrices). from_matrix and from_graph divide each row by its sum (a null row becomes uniform), and transition_probability / emission_probability / to_dictionary report exactly the stored entries.",
 ['inputs'],'every model, label set and non-negative matrix',
 W+'label orders, zero entries and sizes vary freely.',
 ['markov_chain.py','hidden_markov_model.py','utilities.py'],[('to_dictionary/from_dictionary','markov_chain.py'),('to_graph/from_graph','markov_chain.py'),('from_matrix','markov_chain.py'),('build_mc_graph','utilities.py'),('build_hmm_graph','utilities.py')],['MarkovChain.__eq__'])
p('C06','File round trips preserve the model and malformed files are rejected',
 "Writing any chain or hidden model to a csv, json, txt or xml file and reading it back gives a model with the same labels in the same order and bit-identical probabilities (labels without whitespace in txt files, and without leading or trailing whitespace in xml and hidden-model csv files). A file that does not describe valid probability rows (bad structure, non-numeric, out of range, rows not summing to 1) raises an error instead of yielding a model.",
 ['inputs'],'every model, file format, label text and malformed file',
 W+'tests round-trip a few chains with plain labels.',
 ['files_io.py','markov_chain.py','hidden_markov_model.py'],[('read_*/write_*','files_io.py'),('from_file/to_file','markov_chain.py')],['MarkovChain.__eq__'])
p('C07','State classification agrees with reachability in the transition graph',
 "accessibility_matrix, is_accessible, are_communicating, communication_matrix and communicating_classes are exactly reachability and mutual reachability along positive-probability transitions; a class is recurrent exactly when it cannot be left, the other classes are transient, and the state-level lists, predicates and the absorbing states (probability 1 of staying) agree with the class-level ones. is_irreducible holds exactly for a single class, is_absorbing exactly when every state reaches an absorbing state, is_canonical exactly when transient states precede recurrent ones, and is_regular exactly when some power of P is strictly positive.",
 ['inputs'],'every transition matrix, size and label set',
 W+'reachability, overflow and label ordering depend on size and pattern.',
 ['markov_chain.py'],[('accessibility_matrix','markov_chain.py'),('__classes_indices','markov_chain.py'),('__transient_classes_indices','markov_chain.py'),('is_absorbing','markov_chain.py'),('is_regular','markov_chain.py')],['MarkovChain.communicating_classes','MarkovChain.accessibility_matrix'])
p('C08','Periods and cyclic classes are those of the transition graph',
 "For an irreducible chain, period is the greatest common divisor of its cycle lengths, is_aperiodic holds exactly when it is 1, is_ergodic exactly when the chain is irreducible and aperiodic, and cyclic_classes partitions the states so that every positive-probability transition leads from each class to one and the same next class, with as many classes as the period. For every chain, periods lists for each recurrent communicating class, in the order of communicating_classes, the gcd of the cycle lengths inside that class.",
 ['inputs'],'every transition matrix pattern and label set',
 W+'periods depend on the whole cycle structure of arbitrary graphs.',
 ['computations.py','markov_chain.py'],[('calculate_periods','computations.py'),('_calculate_period','computations.py'),('find_cyclic_classes','computations.py'),('period/is_aperiodic','markov_chain.py')],['MarkovChain.period','MarkovChain.periods','MarkovChain.cyclic_classes'])
p('C09','Stationary distributions are exactly the extremal solutions of pi P = pi',
 "pi (with its aliases stationary_distributions and steady_states) contains one distribution per recurrent class; each is non-negative, sums to 1, satisfies pi P = pi, is supported exactly on its class and appears in the order of recurrent_classes.",
 ['inputs'],'every transition matrix, reducible or periodic ones included',
 W+'the elimination runs over every size and every zero pattern.',
 ['computations.py','markov_chain.py'],[('gth_solve','computations.py'),('pi','markov_chain.py')],['MarkovChain.pi'])
p('C10','Simulated paths are feasible and stop exactly as requested',
 "Every path returned by simulate and next starts from the given initial state, makes only transitions (and emits only symbols) of positive probability, has steps+1 entries unless it stops early, and stops at the first later step whose state is the final state (or whose symbol is the final symbol) and at no other step. Indices and labels of the same seed denote the same path, and every positive-probability continuation can be drawn with its exact probability.",
 ['inputs','schedules'],'every chain or hidden model, seed, step count and stopping rule',
 W+'only a few seeded runs are compared.',
 ['simulations.py','markov_chain.py','hidden_markov_model.py'],[('mc_simulate','simulations.py'),('hmm_simulate','simulations.py'),('simulate/next','markov_chain.py')],['MarkovChain.simulate','HiddenMarkovModel.simulate'])
p('C11','Distribution, sequence, reward and transition-count evolution',
 "redistribute(T, d) returns d, dP, ..., dP^T (or the last one); sequence_probability(s) is the product of the transition probabilities along s (0 if one is null); expected_rewards(T, r) is the sum of P^k r for k = 0..T; expected_transitions(T, d) is diag(d + dP + ... + dP^(T-1)) P; predict(T, s) follows from s the unique most probable transition at each step and returns None exactly when some step has a tie.",
 ['inputs'],'every chain, distribution, reward vector, state sequence and number of steps',
 W+'the number of steps is unbounded and tests stop at a few.',
 ['simulations.py','measures.py','markov_chain.py'],[('mc_redistribute','simulations.py'),('mc_sequence_probability','simulations.py'),('mc_predict','simulations.py'),('mc_expected_rewards','measures.py'),('mc_expected_transitions','measures.py')],['MarkovChain.redistribute','MarkovChain.expected_rewards'])
p('C12','First passage probabilities and rewards satisfy their recursions',
 "first_passage_probabilities(T, i) gives at row t-1 and column j the probability that a chain started in i first enters j (at or after step 1) exactly at step t; with a set of first passage states it gives the sum of those per-state values over the set. first_passage_reward(T, i, A, r) is the sum over t = 1..T of the expected reward collected at step t on paths that stay outside A through step t.",
 ['inputs'],'every chain, start, target set, reward vector and horizon',
 W+'horizons and target sets are sampled, not covered.',
 ['measures.py','markov_chain.py'],[('mc_first_passage_probabilities','measures.py'),('mc_first_passage_reward','measures.py')],['MarkovChain.first_passage_probabilities','MarkovChain.first_passage_reward'])
p('C13','Hitting probabilities and hitting times are the minimal solutions',
 "For every chain and non-empty target set A, hitting_probabilities(A) is 1 on A and elsewhere the minimal non-negative solution h = P h (0 exactly when A is unreachable), and hitting_times(A) is 0 on A, infinite where A is missed with positive probability, and elsewhere the finite solution of t = 1 + P t.",
 ['inputs'],'every chain (several recurrent classes, unreachable targets) and every target set',
 W+'minimality and infinite values depend on the class structure.',
 ['measures.py','markov_chain.py'],[('mc_hitting_probabilities','measures.py'),('mc_hitting_times','measures.py')],['MarkovChain.hitting_probabilities','MarkovChain.hitting_times'])
p('C14','Absorption, committor, mean passage and visit measures solve their equations',
 "For absorbing chains fundamental_matrix is the inverse of I-Q over the transient states (kemeny_constant its trace), absorption_probabilities and mean_absorption_times follow from it by first-step analysis; for ergodic chains committor_probabilities (forward and backward) solve their boundary problems, mean_first_passage_times_to/between solve m = 1 + P m off the targets, mean_recurrence_times are 1/pi, and sensitivity gives the derivative of the stationary distribution. mean_number_visits gives the expected number of visits after time 0 for every chain, infinite exactly for reachable recurrent states, and each measure is None exactly when the chain is not of the required kind.",
 ['inputs'],'every chain, target/origin set and committor type',
 W+'each is a linear system over arbitrary size and class structure.',
 ['measures.py','markov_chain.py'],[('mc_absorption_probabilities','measures.py'),('mc_mean_absorption_times','measures.py'),('mc_committor_probabilities','measures.py'),('mc_mean_first_passage_times_to','measures.py'),('mc_mean_number_visits','measures.py'),('fundamental_matrix','markov_chain.py')],['MarkovChain.absorption_probabilities','MarkovChain.mean_number_visits'])
p('C15','HMM decoding is exact forward-backward smoothing',
 "decode(symbols, d) equals brute-force inference in which a hidden state drawn from d makes one transition before each observed symbol: the first output is the log-likelihood of the symbols, each posterior column is the conditional distribution of the hidden state at that position given all symbols, and the forward and backward tables are the corresponding (scaled or unscaled) joint and conditional likelihoods. None is returned exactly when the symbols have zero likelihood, and use_scaling changes only the scaling of the tables.",
 ['inputs'],'every hidden model, initial status and symbol sequence',
 W+'brute force over all hidden paths is never compared.',
 ['measures.py','hidden_markov_model.py'],[('hmm_decode','measures.py')],['HiddenMarkovModel.decode'])
p('C16','HMM prediction returns the best hidden path',
 "predict('viterbi', symbols, d) (alias mle) returns a hidden path of the same length as symbols and the maximal joint log-probability over all hidden paths, an initial hidden state drawn from d and weighted by its emission of the first symbol preceding the path; the returned path attains that maximum. predict('map', ...) returns at each position a state maximising the decoded posterior, with the log-likelihood; both return None exactly when the symbols are impossible.",
 ['inputs'],'every hidden model, initial status and symbol sequence',
 W+'optimality over exponentially many paths is not tested.',
 ['simulations.py','hidden_markov_model.py'],[('hmm_predict','simulations.py')],['HiddenMarkovModel.predict'])
p('C17','Estimation and restriction normalise exactly the observed counts',
 "fit_sequence('mle') gives relative transition frequencies of the sequence (with k added to every count when smoothing is on; uniform rows for states never left), fit_sequence('map') gives the Dirichlet posterior mode, HiddenMarkovModel.estimate gives relative transition and emission frequencies (uniform rows for unseen states), and HiddenMarkovModel.fit returns stochastic matrices whose likelihood of the training symbols is not below that of the guess for baum-welch. restrict keeps exactly the requested states and symbols and renormalises the corresponding rows (uniform if null).",
 ['inputs'],'every state/symbol sequence, hyperparameter and sub-selection',
 W+'sequences are arbitrary; tests store a few.',
 ['fitting.py','generators.py','markov_chain.py','hidden_markov_model.py'],[('mc_fit_sequence','fitting.py'),('hmm_fit','fitting.py'),('hmm_estimate','generators.py'),('hmm_restrict','generators.py')],['MarkovChain.fit_sequence','HiddenMarkovModel.estimate','HiddenMarkovModel.restrict'])
p('C18','Queries modify neither the model nor the caller\'s arguments',
 "No property, method or constructor changes any list, array, dictionary or graph passed to it, nor the probabilities and labels of the model it is called on; what p, e, states, symbols, to_matrix, to_dictionary, to_graph and conditional_probabilities return is detached, so changing it later does not change the model, and changing the objects given to a constructor afterwards does not change it either. Repeating a query therefore gives the same answer whatever was asked in between.",
 ['inputs','histories'],'every sequence of calls on a model and every argument object',
 W+'tests build a fresh model per assertion and never re-check arguments.',
 ['markov_chain.py','hidden_markov_model.py','validation.py','measures.py','generators.py'],[('copies in accessors','markov_chain.py'),('extract_numeric','utilities.py'),('validate_*','validation.py')],['all public methods'])
p('C19','Equality, hashing, caching and aliases are coherent',
 "Two models are equal exactly when they are of the same kind with equal matrices and equal labels in the same order, equal models hash equally, and comparison with any other object is False. A cached property is computed once per instance, never shared between instances, cannot be set or deleted, and every alias gives the same result as the member it names.",
 ['inputs','histories'],'every pair of models, every alias and every access order or thread interleaving',
 W+'only a few pairs and aliases are compared.',
 ['markov_chain.py','hidden_markov_model.py','decorators.py'],[('__eq__/__hash__','markov_chain.py'),('cached_property','decorators.py'),('aliased','decorators.py')],['hash()','=='])
p('C20','A seed determines every random outcome',
 "Every member that takes a seed (random, random_distribution, dirichlet_process, simulate, next of chains and hidden models) returns the same result for the same arguments and seed, whatever happened before and whatever the global random state is, and neither reads nor alters numpy's or Python's global random state; invalid seeds raise ValidationError.",
 ['inputs','histories'],'every member with a seed, every seed and every preceding history',
 W+'tests only use a few seeds in a fresh process order.',
 ['utilities.py','markov_chain.py','hidden_markov_model.py','generators.py','simulations.py'],[('create_rng','utilities.py')],['simulate','random'])
p('C21','Correlations, relaxations and mixing times follow the powers of P',
 "time_correlations(s1, s2, t) is the sum of n1[i] pi[i] (P^t n2)[i], and time_relaxations(s, d, t) is d P^t n, n counting the occurrences of each state in the sequence, for one time point or a list (in increasing order), and None when there are several stationary distributions. mixing_time(d, jump 1) is the smallest t in 1..100 at which the summed absolute difference between d P^t and pi is not above the cutoff, None when there is none or when the chain is not ergodic.",
 ['inputs'],'every chain, sequence, initial distribution and list of time points',
 W+'time points and sequences are unbounded.',
 ['measures.py','markov_chain.py'],[('mc_time_correlations','measures.py'),('mc_time_relaxations','measures.py'),('mc_mixing_time','measures.py')],['MarkovChain.time_correlations','MarkovChain.time_relaxations','MarkovChain.mixing_time'])
p('C22','Arguments are interpreted uniformly and invalid ones rejected',
 "A state or symbol given by label or by index, a set of them given as a single one or as a list, and a status given as a state or as the corresponding distribution mean the same in every method; anything out of range, unknown, repeated, of the wrong type or length, negative or not summing to 1 where a distribution is required raises ValidationError and never an answer.",
 ['inputs'],'every accepted and every rejected argument of the public methods',
 W+'tests cover each validator with a few values.',
 ['validation.py','markov_chain.py','hidden_markov_model.py'],[('validate_label','validation.py'),('validate_labels_current','validation.py'),('validate_status','validation.py'),('validate_vector','validation.py'),('validate_sequence','validation.py'),('validate_integer','validation.py')],['all public methods'])
p('C23','Structural flags and scalar descriptors match their definitions',
 "is_symmetric, is_doubly_stochastic, is_reversible (detailed balance for the unique stationary distribution), is_stochastically_monotone, adjacency_matrix, density, incidence_matrix, determinant, rank, entropy_rate (and its normalisation by the topological entropy) and topological_entropy equal their definitions on P, and lumping_partitions lists exactly the contiguous partitions with at least two and fewer than n blocks that satisfy ordinary lumpability.",
 ['inputs'],'every transition matrix',
 W+'definitions quantify over all pairs of states and all sizes.',
 ['markov_chain.py','computations.py'],[('is_symmetric','markov_chain.py'),('is_stochastically_monotone','markov_chain.py'),('is_reversible','markov_chain.py'),('density','markov_chain.py'),('entropy_rate','markov_chain.py'),('find_lumping_partitions','computations.py')],['MarkovChain.is_reversible','MarkovChain.lumping_partitions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
