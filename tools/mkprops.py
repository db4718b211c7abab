"""Writes properties.jsonl (kept as a script only to keep the long JSON lines readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': observe, 'hook_needed': hook}})
U, S, M = 'coniii/utils.py', 'coniii/samplers.py', 'coniii/solvers.py'
prop('C01', 'Flattened parameter indices and packings are exact bijections',
 'Every way of laying out fields, couplings and higher-order interactions (pair position, tuple position, vector form, matrix form, split by order) enumerates the index combinations in lexicographic order without gap or repetition, and converting back returns exactly what went in. Inputs that are no valid layout (equal or unsorted indices, vectors of impossible length) are refused, and combinatorial counts are exact integers.',
 ['inputs'], 'all system sizes n, all orders k, all index tuples, all parameter vectors',
 'The tests check pair positions for n<5 and one 3-spin vector; every other size, all orders above two, and the refusal of invalid layouts are never exercised, and an off-by-one shows only for particular index triples.',
 [U], [('pair and tuple index maps', U+': sub_to_ind, ind_to_sub, unravel_index'), ('packing', U+': vec2mat, mat2vec, split_concat_params, replace_diag, multinomial')], ['return values of the index and packing functions'])
prop('C02', 'Changing spin convention {0,1} <-> {-1,1} preserves the model',
 'Parameters converted between the {0,1} and {-1,1} conventions, up to any interaction order, assign the same energy differences (hence the same probabilities) to corresponding states, and the conversion back returns the original parameters. Means and pair correlations converted between conventions are those of the same data in the other convention.',
 ['inputs'], 'all system sizes, interaction orders, parameter values and data sets, both directions, vector and matrix forms of couplings',
 'The tests convert one random 9-spin pairwise model and one 3-spin correlation vector; orders above two and the distribution they define are untested, and a wrong coefficient for one suborder survives a pairwise round trip.',
 [U], [('parameter conversion', U+': convert_params, ising_convert_params'), ('correlation conversion', U+': convert_corr')], ['energies of all states before and after conversion'])
prop('C03', 'Shipped exact-enumeration modules are the Boltzmann distribution',
 'For every system size and convention shipped with the package, including the triplet models, the tabulated equations return the probability of every state, in the documented state order, and the expectation value of every observable, of the Boltzmann distribution with the given parameters. The values are finite and normalised also for very large, zero and degenerate parameters.',
 ['inputs'], 'all shipped modules, all parameter vectors including extreme magnitudes',
 'The tests import sizes 3 and 4 with small random parameters and never look at state order or at magnitudes where exponentials overflow; one wrong sign among thousands of generated terms in the larger modules would pass.',
 ['coniii/ising_eqn', 'coniii/enumerate.py'], [('generated equations', 'coniii/ising_eqn/ising_eqn_*.py'), ('stable exponentials', 'coniii/enumerate.py: fast_logsumexp')], ['calc_observables(params), p(params) of each module'])
prop('C04', 'Generated equation files are right for any size, order and precision',
 'Writing the equations of an Ising, triplet, arbitrary-interaction or Potts model of any admissible size, convention and precision produces an importable file whose observables and state probabilities are those of the Boltzmann distribution, to working precision and, for high-precision files, to the precision the user has set.',
 ['inputs', 'configurations'], 'all sizes, interaction sets, conventions, precisions and numbers of Potts states; function and command-line interfaces',
 'The tests generate one 4-spin high-precision file and Potts files of at most 4 spins and 3 states; subsets of interactions, larger alphabets and the precision actually reached are not looked at.',
 ['coniii/enumerate.py', 'coniii/enumerate_potts.py'], [('equation writers', 'coniii/enumerate.py: write_eqns, pairwise, triplet'), ('Potts writer', 'coniii/enumerate_potts.py: SpecificFieldGenericCouplings')], ['the generated module'])
prop('C05', 'Energies, observables and derivatives agree with the model definition',
 'For every model offered (Ising with and without fields, triplet, Potts, Heisenberg) the energy of a state is minus the dot product of parameters and observables, conditional quantities of one spin reproduce the energy change of altering that spin, and gradients are the derivatives of the energy. The importance-reweighting step predicts exactly the reweighted averages of the given sample, and all of these depend only on the data passed in.',
 ['inputs'], 'all states, system sizes, alphabets, array layouts and parameter vectors',
 'The tests compare the Ising helpers with enumeration for n=3 and the derivative on one 5-spin sample; Potts, triplet, field-free, Heisenberg and conditional helpers are untested for their values.',
 [U, S], [('model helper factories', U+': define_*_helper_functions, calc_de'), ('Heisenberg energies', S+': calc_e, grad_e, grad_e_theta')], ['return values on whole state sets'])
prop('C06', 'Summary statistics of data equal their definitions',
 'Means, pair and higher-order correlations (plain, weighted, mean-subtracted, with missing entries or pseudo-counts), replica overlaps, distinct rows and state frequencies returned for a data set equal the averages they are defined as, for every admissible data type and size. The data passed in are left untouched and states missing from a supplied list are reported.',
 ['inputs'], 'all data sets over {-1,0,1}, integer and floating types, weights, row counts',
 'The tests check one unweighted and one weighted random sample in 64-bit integers; missing entries, pseudo-counts, tuple weights, 8-bit data and higher orders are not tested.',
 [U], [('statistics', U+': pair_corr, k_corr, calc_overlap, unique_rows, state_probs')], ['return values'])
prop('C07', 'State-space and neighbour enumeration is complete and without repetition',
 'The state generators list every configuration of n binary or k-state spins exactly once in lexicographic order, with the digits of the number base in order, and the neighbour generators return every single-spin neighbour exactly once plus the requested number of admissible random states different from the given one, leaving the given state as it was.',
 ['inputs'], 'all n, all alphabets of 2 to 36 states, all integers to be represented, all states',
 'The tests cover n=5 binary states, bases 2, 3, 5, 18 and a few powers; rounding in the digit computation and letter digits only show for particular numbers and bases.',
 [U], [('state generators', U+': bin_states, xbin_states, xpotts_states, base_repr'), ('neighbours', U+': adj, adj_sym')], ['generated sequences'])
prop('C08', 'Each sampler update obeys detailed balance and keeps its energy book',
 'One Monte Carlo update changes at most the single chosen spin to another admissible state, accepts with the Metropolis probability of the true energy change, and returns exactly the energy change it made; energies reported along a chain equal the energies of the recorded states. The one-step transition frequencies of compiled and interpreted samplers match the exact Metropolis transition matrix, for random and for systematic choice of spins.',
 ['histories', 'inputs'], 'all states, parameters, spins, random numbers and update schedules, along whole chains',
 'The tests run the samplers and look at shapes; acceptance decisions, the energy book-keeping and single-step transition probabilities are never observed, and errors in them only show statistically.',
 [S, 'cpp/samplers.cpp'], [('interpreted update', S+': Metropolis.sample_metropolis, Potts3.sample_metropolis, _jit_sample_metropolis'), ('compiled update', 'cpp/samplers.cpp: Ising::sample_metropolis, Potts3::sample_metropolis')], ['every call of the update along a chain', 'single-step samples of the compiled chain'],
 state=[('E', 'energy of the current state', S)])
prop('C09', 'Samples drawn follow the Boltzmann distribution of the parameters',
 'For every sampler and front end (Ising, triplet, Potts; interpreted and compiled; sequential and parallel; random and systematic updates; cluster moves) the empirical distribution of sufficiently separated samples converges to the Boltzmann distribution of the parameters given, in the model\'s own alphabet, after updating parameters too.',
 ['inputs', 'histories', 'configurations'], 'all parameter values, models, sampler variants and random streams',
 'The tests only check the shape of samples and that repeated seeds give equal samples; a sampler with wrong couplings, wrong alphabet or an ignored parameter update passes them.',
 [S, 'cpp/samplers.cpp', 'coniii/models.py'], [('samplers', S+': Metropolis, Potts3, WolffIsing, sample_ising'), ('models', 'coniii/models.py: generate_sample'), ('native chain', 'cpp/samplers.cpp: Sampler::generate_sample')], ['histogram of samples against exact probabilities'])
prop('C10', 'Conditional sampling fixes the given spins and samples the rest correctly',
 'Samples drawn conditional on a set of fixed spins carry exactly the given values at exactly the given positions in every row, for any set from a single spin to all of them, and the remaining spins follow the conditional Boltzmann distribution; ill-formed sets of fixed spins are refused.',
 ['inputs', 'configurations'], 'all sets of fixed positions and values, system sizes, parameters, sampler variants',
 'The tests draw conditional samples for one or two fixed patterns and check the fixed values; the distribution of the free spins, and edge patterns (first, last, all but one, all), are not checked.',
 [S, 'cpp/samplers.cpp'], [('conditional sampling', S+': generate_cond_sample_py, generate_cond_sample_boost'), ('native', 'cpp/samplers.cpp: Sampler::generate_cond_sample')], ['rows of the conditional sample'])
prop('C11', 'Sampling is reproducible, well formed and leaves its inputs alone',
 'With the same seed a sampler returns the same sample, a different seed a different one, for every variant; every sample has exactly the requested number of rows and only symbols of the model\'s alphabet, for any admissible sample size, number of iterations and burn-in. Parameters and initial states handed in are never modified.',
 ['inputs', 'configurations', 'histories'], 'all seeds, sample sizes (also smaller than the number of processors), burn-ins including zero, repeated calls',
 'The tests compare two seeded runs for one size and two samplers; odd sizes, repeated calls, parallel tempering, models and preservation of inputs are not covered.',
 [S, 'coniii/models.py'], [('random streams', S+': rng handling in every generate_sample*')], ['sample arrays over repeated runs'])
prop('C12', 'The compiled samplers are memory safe and read exactly what they are given',
 'For every call admitted by the public interface, whatever the numeric type and memory layout of the parameter array, the compiled samplers use exactly its values, and they never read or write outside their buffers or perform undefined arithmetic; objects that can be pickled behave the same afterwards.',
 ['inputs', 'histories'], 'all parameter arrays (integer, single precision, strided, read-only), sizes from one spin up, empty and large requests, repeated reconfiguration',
 'The tests use contiguous double arrays of one size and run without sanitizers, so an out-of-bounds read or a misinterpreted array goes unnoticed.',
 ['cpp/samplers.cpp', 'cpp/samplers.hpp', 'cpp/py.cpp', S], [('array reading', 'cpp/samplers.cpp: readin_multipliers, readin_fixed_set, fetch_sample')], ['sanitizer reports', 'samples for the same values in different layouts'])
prop('C13', 'The exact solver returns parameters that reproduce the constraints',
 'Whenever the exact solver reports success, the expectation values of the model at the returned parameters equal the given constraints within tolerance, and for attainable constraints it does find them; the same holds when only a subset of the parameters is to be solved, the others staying exactly zero.',
 ['inputs', 'configurations'], 'all data sets, attainable constraints, models, subsets of parameters, solving methods',
 'The tests solve one 3-spin model with all parameters; truly sparse subsets, other models, constraints passed directly and the honesty of the returned status are untested.',
 [M], [('exact solution', M+': Enumerate.solve, SparseEnumerate.solve')], ['residual of the constraints at the returned parameters'])
prop('C14', 'Minimum probability flow: objective, gradient and optimum are right',
 'The objective and its gradient equal the definition of probability flow from the data states to their neighbours at every parameter vector, whatever options are used to supply neighbours or derivatives, and the returned parameters minimise it; with data distributed exactly as the model they are the true parameters.',
 ['inputs', 'configurations'], 'all data sets, parameter vectors, neighbour rules and options',
 'The tests compare the plain and logarithmic objective at one point; gradients, options and the optimum itself are not compared with anything independent.',
 [M], [('probability flow', M+': MPF.K, MPF.logK, MPF.solve')], ['objective and gradient values against a direct evaluation'])
prop('C15', 'Pseudolikelihood solutions maximise the pseudolikelihood',
 'The parameters returned by pseudolikelihood inference are a stationary point of the data\'s log pseudolikelihood for the Ising, general and Potts formulations, objective values and gradients agree with the conditional probabilities of single spins, and for data distributed exactly as the model they are the true parameters.',
 ['inputs', 'configurations'], 'all data sets, sizes, models, starting points',
 'The tests compare two formulations on one 3-spin data set; the gradient, the Potts formulation and optimality in general are unchecked.',
 [M, U], [('pseudolikelihood', M+': Pseudo._solve_ising, _solve_general, _solve_potts'), ('conditional observables', U+': define_pseudo_*_helper_functions')], ['gradient of the log pseudolikelihood at the returned parameters'])
prop('C16', 'Monte Carlo histogram reports its convergence honestly',
 'Monte Carlo histogram inference reports convergence only if the model correlations of the last sample meet the requested tolerances, keeps an error history consistent with its samples, takes no more iterations than allowed, ends a step as soon as the change of the parameters exceeds the step options, and leaves solver parameters, sampler parameters and sample mutually consistent; with subsets of parameters the rest stays zero.',
 ['histories', 'inputs', 'configurations'], 'all data sets, starting points, tolerances, iteration limits and step options',
 'No test runs this solver: it is stochastic, and only a monitor of the whole run can relate status, history, sample and parameters.',
 [M], [('learning loop', M+': MCH.solve, MCH.learn_settings, SparseMCH')], ['every sampling and step call of the loop'])
prop('C17', 'The cluster expansion telescopes to the exact entropy and parameters',
 'Cluster contributions summed over all subsets of a cluster give the exact entropy of that cluster, so that with no threshold the expansion returns the exact entropy and parameters of the pairwise maximum entropy model of the given correlations, and with an infinite threshold those of independent spins, for any size and labelling of the spins.',
 ['inputs', 'configurations'], 'all attainable correlations, system sizes, thresholds and options',
 'No test runs the cluster expansion beyond construction; the recursion over subclusters and its caches are exercised only for real inputs.',
 [M, 'coniii/mean_field_ising.py'], [('recursive expansion', M+': ClusterExpansion.S, deltaS, clusterID, solve')], ['entropy and parameters against direct enumeration'])
prop('C18', 'Mean-field formulas equal their definitions and expansions',
 'The mean-field and naive estimates (independent-spin fields, entropies and coupling matrices) satisfy their defining relations, are exact where they are stated to be exact, agree with numerical differentiation, and the regularised mean-field solver returns the mean-field parameters for that strength of the prior, among those it tried, whose sampled model matches the data best.',
 ['inputs', 'configurations'], 'all attainable correlation matrices, pseudo-count and regularisation strengths',
 'No test runs this code.',
 ['coniii/mean_field_ising.py', M], [('mean-field formulas', 'coniii/mean_field_ising.py'), ('regularised solver', M+': RegularizedMeanField')], ['return values'])
prop('C19', 'Model objects answer consistently however they are configured',
 'A model built from a parameter vector, from fields and couplings, or from a coupling matrix is the same model; after its parameters are replaced its expectation values, probabilities, energies and samples all refer to the new parameters. Exact properties of the Ising front end (energies of neighbours, local minima reached by descent) agree with direct evaluation.',
 ['inputs', 'histories', 'configurations'], 'all sizes, input formats, sequences of reconfiguration and queries',
 'The tests build models in one format and check one descent on one 5-spin system.',
 ['coniii/models.py', 'coniii/ising/utils.py'], [('models', 'coniii/models.py: Ising, Triplet, Potts3'), ('front end', 'coniii/ising/utils.py: Ising')], ['public results after every reconfiguration'])
prop('C20', 'Solvers set up their targets and likelihoods consistently',
 'A solver takes its targets from the data as the averages of the model\'s observables or uses exactly the targets it is given, completes missing entries without changing the parameters it was given, and reports log probabilities of states that are the logarithm of their frequency in the sample of its model, also for one state given alone and for states with missing spins.',
 ['inputs', 'configurations'], 'all data sets, models, solvers, parameter subsets, state lists',
 'The tests construct the solvers once; target computation, completion with zeros and log probabilities are not compared with anything.',
 [M], [('common set-up', M+': Solver.basic_setup, set_constraints, fill_in, logp')], ['constraints, completed vectors and log probabilities'])
prop('C21', 'Parallel tempering keeps its replicas consistent',
 'After every exchange and every optimisation of the temperatures the inverse temperatures are positive and strictly increasing with the coldest fixed, each replica is simulated with the parameters of its own temperature, energies belong to the states held, replicas are permuted but never lost or duplicated, exchanges are accepted with the exact exchange probability, and samples of each level follow its Boltzmann distribution.',
 ['histories', 'configurations', 'schedules'], 'all parameter values, numbers of replicas, temperature ranges and exchange histories',
 'The test constructs one instance and checks the temperatures; exchanges and distributions are not observed.',
 [S], [('exchange and optimisation', S+': ParallelTempering')], ['replica states before and after every exchange'])
prop('C22', 'Coarse-graining partitions the system; the lattice model is consistent',
 'Iterative coarse-graining groups the original columns into disjoint clusters that together contain each column exactly once and whose coarse variables are the combination of exactly those columns, for any similarity values; the two-dimensional lattice model flips spins with the Metropolis probability of its own energy, and block averages of a lattice are averages over the blocks.',
 ['inputs', 'histories'], 'all data sets, similarity functions (also all negative), lattice sizes and fields',
 'Neither part is run by a test.',
 [U, 'coniii/ising/automaton.py'], [('coarse-graining', U+': coarse_grain_with_func'), ('lattice', 'coniii/ising/automaton.py: Ising2D, coarse_grain')], ['cluster lists and coarse data', 'lattice after every update'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
