// Verification unit: online training.  Every body is one call of the real function.
#include "tsetlini.cpp"
#include "common.hpp"
#include <new>
using namespace Tsetlini;

extern "C" {
extern const size_t vpc_ta_weights = offsetof(TAState::value_type, weights), vpc_tap_weights = offsetof(TAStateWithPolarity::value_type, weights);
extern const size_t vpc_var_index = sizeof (std::string);
extern const size_t vpc_row_c = sizeof (aligned_vector_char), vpc_row_b = sizeof (bit_vector_uint64), vpc_bv_nbits = offsetof(bit_vector_uint64, m_bit_length), vpc_bv_v = offsetof(bit_vector_uint64, m_vector);
extern const size_t vpc_c_out = offsetof(ClassifierStateCache::value_type, clause_output), vpc_c_sum = offsetof(ClassifierStateCache::value_type, label_sum), vpc_c_fb = offsetof(ClassifierStateCache::value_type, feedback_to_clauses),
    vpc_c_ct = offsetof(ClassifierStateCache::value_type, ct), vpc_r_out = offsetof(RegressorStateCache::value_type, clause_output), vpc_r_ct = offsetof(RegressorStateCache::value_type, ct);
#define CS(n, T, S, Y) extern const size_t vpc_##n##_params = offsetof(T, m_params), vpc_##n##_ta = offsetof(T, ta_state), vpc_##n##_cache = offsetof(T, cache), vpc_##n##_igen = offsetof(T, igen), vpc_##n##_fgen = offsetof(T, fgen);
CS(cc, ClassifierStateClassic, aligned_vector_char, label_vector_type)
CS(cb, ClassifierStateBitwise, bit_vector_uint64, label_vector_type)
CS(rc, RegressorStateClassic, aligned_vector_char, response_vector_type)
CS(rb, RegressorStateBitwise, bit_vector_uint64, response_vector_type)
#define ONLINE(n, k, T, S, Y) void vp_online_##n(status_message_t * out, T & s, std::vector<S> const & X, Y const & y, unsigned epochs) { new (out) status_message_t(fit_##k##_online_impl(s, s.ta_state, X, y, number_of_epochs_t{epochs})); }
ONLINE(cc, classifier, ClassifierStateClassic, aligned_vector_char, label_vector_type)
ONLINE(cb, classifier, ClassifierStateBitwise, bit_vector_uint64, label_vector_type)
ONLINE(rc, regressor, RegressorStateClassic, aligned_vector_char, response_vector_type)
ONLINE(rb, regressor, RegressorStateBitwise, bit_vector_uint64, response_vector_type)
}
