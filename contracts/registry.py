"""Which contracts, and which bounded complements, decide which property."""

TRUSTED = [
    'clang-18 front end and its always-inline / mem2reg / sroa / simplifycfg passes (source to IR)',
    'irvc: IR semantics and verification conditions (irvc/engine.py), memory model of typed regions (irvc/model.py)',
    'z3, cvc5',
]
ASSUMPTIONS = [
    'containers satisfy their representation invariant on entry (std::vector of the stated length, 64-byte aligned storage, no aliasing between distinct containers)',
    'sequential semantics: OpenMP worksharing pragmas are not compiled into the verified IR',
    'allocation succeeds; sizes fit the 31-bit int arithmetic of the API (clauses * features bounded by memory)',
]

NA = {}

PROPS = {
    'C01': dict(
        jobs=[('clauses', 'classic_jobs(True)'), ('bclauses', 'jobs("pruning")')],
        search=[('algo', 'C01'), ('api', 'C01')],
        note='All obligations of the clause evaluators (byte and bit-packed, every tile size, every counting type) are discharged for all sizes and inputs; '
             'assumes the container contracts (C18) and, for the bit-packed form, that inclusion bits agree with the states (C07).'),
    'C02': dict(
        jobs=[('clauses', 'classic_jobs(False)'), ('bclauses', 'jobs("train")'), ('bclauses', 'jobs("bits")')],
        search=[('algo', 'C02'), ('api', 'C02')],
        note='As C01, for the evaluators used in training.'),
    'C03': dict(jobs=[('votes', 'jobs_classifier()')], search=[('algo', 'C03'), ('api', 'C03')],
        note='All obligations of the label vote functions are discharged for all inputs, including absence of overflow under the stated weight bound.'),
    'C04': dict(jobs=[('votes', 'jobs_regressor()')], search=[('algo', 'C04'), ('api', 'C04')],
        note='All obligations of the regressor vote function are discharged for all inputs, including absence of overflow under the stated weight bound.'),

    'C05': dict(jobs=[('train', 'jobs("C05")'), ('train', 'jobs_regressor("C05")'), ('btrain', 'jobs("C05")')], search=[('algo', 'C05'), ('api', 'C05')],
        note='Every automaton of every clause, both representations, all counting types, classifier and regressor training: all obligations discharged for all inputs; assumes the contracts of the containers (C18), '
             'the coin tosser (C15), the generators (C17), the loss function (C16) and the binomial draw (C23).'),
    'C06': dict(jobs=[('train', 'jobs("C06")'), ('train', 'jobs_regressor("C06")'), ('btrain', 'jobs("C06")')], search=[('algo', 'C06'), ('api', 'C06')],
        note='As C05. For the regressor the transition is proved for each feedback event; for the bit-packed Type Ib the drawn automata are not identified, only that nothing grows.'),
    'C07': dict(jobs=[('btrain', 'jobs("C07")')], search=[('algo', 'C07'), ('api', 'C07')],
        note='The coupling of inclusion bits and states is proved to be preserved by classifier and regressor training for all inputs; initialisation is covered under C13.'),
    'C08': dict(jobs=[('train', 'jobs("C08")'), ('train', 'jobs_regressor("C08")'), ('btrain', 'jobs("C08")')], search=[('algo', 'C08'), ('api', 'C08')],
        note='As C05, for the clause weights; for the regressor per feedback event.'),
    'C09': dict(jobs=[('feedback', 'jobs09()')], search=[('algo', 'C09'), ('api', 'C09')],
        note='The feedback function is proved for every label pair, vote, threshold, number of outputs and sequence of draws (float operations as uninterpreted functions, so the compared value is '
             'the documented expression in the documented association); that a training step feeds it the votes of the two labels is C24.'),
    'C10': dict(jobs=[('train', 'jobs_regressor("C10")'), ('btrain', 'jobs("C10")')], search=[('algo', 'C10'), ('api', 'C10')],
        note='Every feedback event, and their number, proved for all errors, thresholds, loss values within the contract of C16, and random sequences.'),

    'C11': dict(jobs=[('labels', 'jobs11()')], search=[('api', 'C11')],
        note='Proved for every label vector, number of labels up to INT_MAX and generator output.'),
    'C12': dict(
        jobs=[('checks', 'jobs_01()'), ('checks', 'jobs_xy()'), ('checks', 'jobs_x()'), ('checks', 'jobs_resp()'), ('checks', 'jobs_pad()'), ('checks', 'jobs_pred()'),
              ('flows', 'jobs_labels()'), ('flows', 'jobs12()')],
        search=[('api', 'C12')],
        note='Every validator (training and prediction; vector and bit-packed samples; labels and responses) proved in both directions for every shape and content, and the fit / partial_fit entry points proved to reject '
             'without changing state or parameters and to let only valid data reach initialisation and training; std::unordered_set and the parameter map by contract.'),
    'C13': dict(
        jobs=[('init', 'jobs13()'), ('params', 'jobs13b()')], search=[('api', 'C13')],
        note='Initialisation of the automata, inclusion bits and weights proved for every shape and counting type over every previous state (never fitted, or any alternative of the variant with any shape and content); '
             'assumes the matrix constructor contract (C18) and the generator contract (C17).'),
    'C14': dict(
        jobs=[('make', 'jobs14args()'), ('make', 'jobs14defaults()'), ('make', 'jobs14json()')], search=[('api', 'C14')],
        note='Both factories of both estimators proved: accepted exactly if every value is valid, every stored value is the one given (n_jobs and random_state normalised), for every argument value; and for every JSON text, '
             'as an arbitrary finite sequence of items with distinct keys and arbitrary values (the JSON parser, its conversions and the parameter map by contract).'),
    'C15': dict(jobs=[('parts', 'jobs15()')], search=[('parts', 'C15')],
        note='Constructor, hit count and both toss vectors: all obligations discharged for every length up to 2^24 (constructor) or 2^31 and every random sequence. '
             'The number of hits is a ghost counter maintained on every store; termination of the rejection loop is not claimed.'),
    'C16': dict(jobs=[('loss', 'jobs16()')], search=[('api', 'C16')],
        note='Every named loss function proved for every C1 in [0, 1] and all x up to 2^60 in magnitude, in the standard model of IEEE arithmetic (rounding monotone, odd, relative error at most 2^-24), '
             'which is an assumption on the machine; no overflow is an obligation. Monotonicity up to 2^-20.'),
    'C17': dict(jobs=[('parts', 'jobs17()')], search=[('parts', 'C17')],
        note='Seeding, generation, draws and copying of both generators: all obligations discharged for every seed, position and state.'),
    'C18': dict(jobs=[('containers', 'jobs()')], search=[('parts', 'C18')],
        note='Construction, addressing and every bit operation of the numeric matrices (3 types), bit matrices and bit vectors (4 block types): all obligations discharged for all shapes within the 32-bit size arithmetic.'),
    'C19': dict(
        jobs=[('predict', 'jobs19()')], search=[('api', 'C19')],
        note='Every public predict, decision_function and evaluate method (sample and batch, classifier and regressor, byte and bit-packed) proved over the contracts of validation (C12), clause evaluation (C01) and voting (C03, C04): '
             'lowest label with the highest vote, batch row = sample, decision function = votes, evaluation = fraction within 2^-20 (standard model of float arithmetic), and no write to the model. '
             'evaluate does not check its data (assumed valid). The vector of vectors of the batch decision function is by contract.'),
    'C20': dict(jobs=[('params', 'jobs20()')], search=[('api', 'C20')],
        note='The choice of counting type is proved for every number of states and every requested type, and for each of the four estimators initialisation is proved to hand that type to the construction of the automata '
             '(std::string and the parameter map by contract; the parameters themselves are valid by C14).'),
    'C21': dict(
        jobs=lambda quick: [('omp', 'jobs21((2,))' if quick else 'jobs21()')], search=[('api', 'C21')],
        note='Every parallel loop of the clause evaluators (the only parallel regions reachable from the estimators) verified as compiled with OpenMP: one thread executing an arbitrary chunk writes only the outputs of its own '
             'iterations and no variable shared with other threads, and computes the value the sequential contract (C01, C02) states. The OpenMP runtime is by contract.'),
    'C22': dict(jobs=[('store', 'jobs22()'), ('store2', 'jobs22b()'), ('store3', 'jobs22c()')], search=[('api', 'C22')],
        note='Conversion to and from JSON proved for both estimators and both forms: every member is stored under its name and read back into the same member (parameters one by one with their types, generators with their position and '
             'contents, weights, every automaton state, inclusion bits, caches reset), for every state with fewer than 2^31 rows and columns; the JSON library (text included), the parameter map and the containers by contract; reals finite.'),
    'C23': dict(jobs=[('parts', 'jobs23()')], search=[('parts', 'C23')],
        note='Both samplers: all obligations discharged for every n, p and draw; the normal deviate is arbitrary (any float, NaN included), so no property of libm is assumed.'),
    'C24': dict(jobs=[('steps', 'jobs24()')], search=[('api', 'C09'), ('api', 'C10'), ('api', 'C11')],
        note='The online training functions of the four estimators with everything between them and the contracted functions inlined: all obligations discharged for every data set, number of epochs, parameters and order of examples, at an arbitrary '
             'clause and an arbitrary example. The epoch loop, the order of examples and the feedback are ghost state; std::shuffle and the parameter map by contract.'),
}
