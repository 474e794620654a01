#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand with contracts/registry.py)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


ALG = 'lib/src/tsetlini_algo_classic.hpp'
BIT = 'lib/src/tsetlini_algo_bitwise.hpp'
COM = 'lib/src/tsetlini_algo_common.hpp'
TS = 'lib/src/tsetlini.cpp'
TAS = 'lib/src/ta_state.cpp'

p('C01', 'Inference clause output is the conjunction of the included literals',
  'For every input sample and every trained state, a clause evaluated for prediction is 1 exactly when it includes at least one literal and no literal it includes is false on the sample. '
  'The result does not depend on the tile size, on the width chosen for the automata states or on whether the byte or the bit-packed representation is used, and no clause outside the requested set is written.',
  ['inputs', 'configurations'], 'every sample, state matrix, number of features and clauses, tile size, counting type, representation',
  'Tests evaluate a few hand-made matrices at a few sizes; loop remainders, padding and tiles are only reached at particular feature counts.',
  [ALG, BIT, COM], [('pruned clause evaluation (blocked and plain loops)', ALG), ('same, on bit blocks', BIT), ('tile dispatch', COM)],
  [('automaton state', 'literal included iff state >= 0; even rows plain literals, odd rows negated ones', TAS)], ['calculate_clause_output_with_pruning', 'predict'])
p('C02', 'Training clause output is the conjunction, and an empty clause outputs 1',
  'For every input sample and every state, a clause evaluated for training is 1 exactly when no literal it includes is false on the sample, so a clause that includes nothing outputs 1. '
  'Exactly the outputs of the requested range of clauses are written, and the result does not depend on tile size, counting type or representation.',
  ['inputs', 'configurations'], 'every sample, state matrix, size, range, tile size, counting type, representation',
  'Same as C01: tests sample a few sizes, none of them covering each block remainder with each tile.',
  [ALG, BIT, COM], [('clause evaluation (blocked and plain loops)', ALG), ('same, on bit blocks', BIT), ('tile dispatch', COM)], (), ['calculate_clause_output', 'fit'])
p('C03', 'Class votes are the clamped signed sum of the weighted clause outputs',
  'The vote of a label is the sum over the clauses of that label of plus (even position) or minus (odd position) the clause output times its weight (one when weights are not used), clamped to the range [-threshold, threshold]. '
  'Only the votes of the labels asked for are written, each from its own clauses only, for any number of labels and clauses.',
  ['inputs', 'configurations'], 'every clause output vector, weight vector, threshold, number of labels and clauses per label',
  'Tests use a handful of vectors of fixed small length; clamping combined with large weights and long sums is not reached.',
  [ALG], [('label vote accumulation and clamp', ALG)], [('weights', 'stored weight w stands for the factor w + 1', TAS)], ['decision function'])
p('C04', 'Regressor response is the clamped weighted sum of the clause outputs',
  'The response of a regressor is the sum over all its clauses of the clause output times its weight (one when weights are not used), clamped to the range [0, threshold].',
  ['inputs', 'configurations'], 'every clause output vector, weight vector and threshold',
  'Tests use a handful of vectors; the lower clamp and overflow at large weights are not sampled.',
  [ALG], [('regressor vote accumulation and clamp', ALG)], (), ['predict'])
p('C05', 'Automata states never leave [-N, N-1]',
  'Whatever the training data, the random numbers and the number of training steps, every automaton state stays within [-N, N-1], where N is the configured number of states, for every counting type. '
  'A training step changes only automata of the clauses being trained.',
  ['inputs', 'histories', 'configurations'], 'every state matrix within range, feedback, sample, random sequence, counting type and N',
  'Saturation at either end needs particular long histories, and only a few steps are tested.',
  [ALG, BIT], [('saturating increments and decrements of each feedback block', ALG), ('same, with polarity upkeep', BIT)], (), ['state after fit / partial_fit'])
p('C06', 'Type I and Type II feedback move the automata as the Tsetlin machine prescribes',
  'Type II feedback to a clause whose output is 1 increments exactly the excluded automata of literals that are false, and does nothing to a clause whose output is 0. '
  'Type I feedback to a clause whose output is 1 increments the automata of true literals (always when boosting, otherwise unless the draw says to forget) and decrements those of false literals when drawn, and on output 0 decrements the drawn automata only; nothing else moves.',
  ['inputs', 'histories', 'configurations'], 'every state, sample, clause output, draw and position of the literal, both representations',
  'Tests fix a few small samples and draws; a wrong literal index at block boundaries, or a wrong sign in one branch, can survive them.',
  [ALG, BIT], [('feedback blocks 1, 2 and 3', ALG), ('feedback blocks on bit-packed samples', BIT)], (), ['state after fit / partial_fit'])
p('C07', 'The inclusion bits always agree with the sign of the automata states',
  'In the bit-packed estimators, after initialisation and after every training step, the inclusion bit of every literal is set exactly when its automaton state is non-negative. All padding bits of the inclusion matrix stay zero.',
  ['inputs', 'histories', 'configurations'], 'every training history, state, sample and draw',
  'The bits and the states are redundant: disagreement shows only after states cross zero in particular ways.',
  [BIT, TAS], [('polarity flips of the feedback blocks', BIT), ('polarity initialisation', TAS)], [('polarity matrix', 'bit set iff state >= 0', 'lib/src/ta_state.hpp')], ['predict', 'state after fit'])
p('C08', 'Clause weights stay in bounds and move in the right direction',
  'With weighting enabled, a clause weight never leaves the range from one to the configured maximum weight; it grows by at most one on a step where feedback strengthens a clause that outputs 1, and shrinks by at most one where feedback weakens it. '
  'Clauses that output 0 or get no feedback keep their weight, and with weighting disabled no weight exists or is touched.',
  ['inputs', 'histories', 'configurations'], 'every weight vector, feedback, clause output and maximum weight',
  'The upper bound is reached only by long histories, and the tests check a few steps.',
  [ALG, BIT], [('weight update in automata training', ALG), ('same, bit-packed', BIT)], (), ['state after fit'])
p('C09', 'Classifier feedback goes to the right clauses with the right sign',
  'In a training step only clauses of the target label and of the opposite label may receive feedback; feedback of a target clause is positive at even and negative at odd positions, and the reverse for the opposite label. '
  'A clause receives feedback exactly when its uniform draw is within (T - v) / (2T) for the target label and (T + v) / (2T) for the opposite one, where v is that label\'s vote and T the threshold; all other feedback is zero.',
  ['inputs', 'configurations', 'histories'], 'every label pair, number of clauses, votes, threshold and random sequence',
  'Tests run single configurations with one seed.',
  [ALG], [('feedback computation', ALG)], (), ['fit'])
p('C10', 'Regressor training corrects towards the target response',
  'A regressor step feeds back only when its response differs from the target: it weakens firing clauses when the response is too high and strengthens when it is too low. Clauses chosen are valid clause positions and no more feedback events than clauses take place in a step, for each loss function and both sampling modes.',
  ['inputs', 'configurations', 'histories'], 'every response error, threshold, loss function value, random sequence',
  'The number of feedback events comes from a random approximation the tests only sample.',
  [ALG, BIT, 'lib/src/loss_fn.cpp'], [('regressor automata training', ALG), ('same, bit-packed', BIT)], (), ['fit'])
p('C11', 'The opposite label is a valid label different from the target',
  'For every label vector with labels below the number of labels (at least two), each training example gets an opposite label that is within range and different from its own label, for every random sequence.',
  ['inputs', 'histories'], 'every label vector, number of labels and random sequence',
  'Tests cannot enumerate random sequences and label vectors.',
  [TS], [('opposite label generation', TS)], (), ['fit'])
p('C12', 'Invalid data is rejected, valid data accepted, rejection changes nothing',
  'Fitting reports a value error exactly for empty input, mismatched lengths, rows of different width, values other than 0 and 1, dirty padding bits, negative or (when continuing) too large labels, or target responses outside [0, threshold]; prediction reports not-fitted or value errors likewise, also for a wrong number of features. '
  'A rejected call leaves the estimator as it was.',
  ['inputs', 'histories'], 'every X, y and prior state',
  'Each rule is tested with one example; bad values at arbitrary positions and several defects at once are not.',
  [TS], [('input checks', TS)], (), ['fit', 'partial_fit', 'predict'])
p('C13', 'Initialisation gives a fresh state for any previous history',
  'Fitting starts every automaton at -1 or 0 and every weight at one, with the matrices sized to two rows per clause and one column per feature and no left-over of an earlier fit. Bit-packed estimators start with inclusion bits agreeing with the states.',
  ['histories', 'configurations'], 'every previous state, size, counting type and random sequence',
  'Tests do not refit a used estimator with another shape or check every cell.',
  [TAS, 'lib/src/estimator_state.cpp', 'lib/src/estimator_state_cache.cpp'], [('state initialisation', TAS)], (), ['fit'])
p('C14', 'Parameters are accepted exactly when valid',
  'An estimator can be made from parameters exactly when every given value converts to the type of its parameter (numbers from JSON numbers or booleans, flags from booleans, names from strings) and is within its documented range (positive sizes, s at least one, known counting type and loss function, clause count a multiple of what the estimator needs) and every key is a known parameter; otherwise a bad-JSON or value error is reported and nothing is created. Absent parameters take their defaults.',
  ['inputs', 'configurations'], 'every JSON parameter object',
  'Tests give single bad values for some parameters.',
  ['lib/src/tsetlini_params.cpp'], [('parameter assertions', 'lib/src/tsetlini_params.cpp')], (), ['make_params_from_json', 'make_*'])
p('C15', 'A coin toss sequence has exactly the prescribed number of hits',
  'After the coin tosser has been populated, each toss vector handed out holds only zeros and ones and exactly the number of ones prescribed by the hit probability for its length, wherever in the cyclic sequence it starts and however often it is used.',
  ['inputs', 'histories', 'configurations'], 'every length, hit count, random sequence and number of uses',
  'Tests check a few lengths and a few uses.',
  ['lib/src/coin_tosser_exact.hpp'], [('populate and rotate', 'lib/src/coin_tosser_exact.hpp')], (), ['fit'])
p('C16', 'Loss functions are symmetric, non-negative and scaled as documented',
  'For every parameter C1 in [0, 1], every loss function is zero at zero, never negative, gives the same value for x and -x and, up to floating-point rounding, never decreases as the absolute error grows.',
  ['inputs', 'configurations'], 'every error in [-1, 1], parameter C1 in [0, 1] and loss function name',
  'Tests sample some points of some loss functions.',
  ['lib/src/loss_fn.cpp'], [('loss functions', 'lib/src/loss_fn.cpp')], (), ['fit'])
p('C17', 'Random number generators stay in range and repeat for equal seeds',
  'The integer generator yields values between its advertised minimum and maximum and a float draw lies in the advertised interval, for any number of draws. Two generators with the same seed give the same sequence and re-seeding restarts it.',
  ['inputs', 'histories'], 'every seed and number of draws',
  'Tests draw short sequences for a few seeds, while refill boundaries and particular values are not met.',
  ['lib/include/mt.hpp'], [('generators', 'lib/include/mt.hpp')], (), ['fit'])
p('C18', 'Matrix and bit containers address every element exactly once',
  'For every shape, each element of a numeric or bit matrix and each bit of a bit vector has its own storage inside the allocation, rows start aligned, and setting, clearing, assigning or flipping one element changes that element only.',
  ['inputs'], 'every shape, position and content',
  'Tests use a few shapes, not each remainder of row width and alignment.',
  ['lib/include/basic_numeric_matrix.hpp', 'lib/include/basic_bit_vector.hpp', 'lib/include/basic_bit_matrix.hpp'], [('row stride and bit addressing', 'lib/include')], (), ['bit_vector', 'bit_matrix', 'numeric_matrix'])
p('C19', 'Prediction, decision function, batch and evaluation agree',
  'The predicted label is the lowest label among those with the highest vote, predicting a batch gives for each row what predicting the row alone gives, and evaluation is the fraction of rows predicted as labelled. Prediction and evaluation do not change the trained model.',
  ['inputs', 'histories'], 'every trained state, sample and batch',
  'Tests compare a few predictions on fixed data.',
  [TS], [('prediction and evaluation', TS)], (), ['predict', 'predict_raw', 'evaluate'])
p('C20', 'The counting type always holds the configured number of states',
  'For every number of states and requested counting type, the automata are stored in a type that represents every value of [-N, N-1], or making the estimator fails with an error.',
  ['configurations'], 'every number of states and counting type',
  'Tests try a few boundary values.',
  ['lib/src/tsetlini_params.cpp', TAS], [('counting type selection', 'lib/src/tsetlini_params.cpp')], (), ['make_*', 'fit'])
p('C21', 'The number of jobs never changes a result',
  'For every number of jobs each clause output is computed from the sample and that clause\'s own automata and written to its own position only, so predictions and training results are the same for any number of jobs and any schedule of them.',
  ['schedules', 'inputs'], 'every schedule of the parallel clause loop',
  'Tests do not control the schedule.',
  [ALG, BIT], [('parallel clause loops', ALG), ('parallel clause loops', BIT)], (), ['fit', 'predict'])
p('C22', 'Saving and loading an estimator preserves it',
  'An estimator stored as JSON and loaded back has the same parameters, states, weights and inclusion bits, predicts the same on every sample and continues training identically.',
  ['histories', 'configurations'], 'every reachable estimator state',
  'Tests store and load a few small estimators.',
  ['lib/src/tsetlini_state_json.cpp'], [('JSON conversion', 'lib/src/tsetlini_state_json.cpp')], (), ['to_json_string', 'from_json_string'])
p('C23', 'Approximate binomial draws stay within [0, n]',
  'For every number of trials n, probability p in [0, 1] and random draw, the sampled number of successes is an integer within [0, n].',
  ['inputs'], 'every n, p and draw',
  'Tests compare statistics of samples.',
  ['lib/src/box_muller_approx.cpp', 'lib/src/box_muller.hpp'], [('binomial approximation', 'lib/src/box_muller_approx.cpp')], (), ['fit'])
p('C24', 'A training run trains on every example once per epoch, with its own label and current outputs',
  'Every epoch of a fit uses each example exactly once. A step of a classifier evaluates the clauses of the label of the example and of the opposite label drawn for it on that example by the current automata, derives the votes and the feedback from these, and trains each clause of both labels once and no other; a step of a regressor trains all clauses with the difference of the current response and the response given for that example. Configured limits, loss function and sampling mode are those used.',
  ['histories', 'inputs', 'configurations'], 'every data set, order of examples, number of epochs, configuration and state reached',
  'Tests compare accuracies after training, which survive a wrong pairing of labels, stale outputs or a skipped example.',
  [TS], [('training steps and epochs', TS)], (), ['fit', 'partial_fit'])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
