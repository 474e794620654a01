// Verification unit: initialisation of the automata and of the caches.  Every body is
// one call of the real function.
#include "ta_state.cpp"
#include "estimator_state_cache.cpp"
#include "tsetlini_state.cpp"
#include "common.hpp"
using namespace Tsetlini;

extern "C" {
extern const size_t vpc_ta_weights = offsetof(TAState::value_type, weights), vpc_tap_weights = offsetof(TAStateWithPolarity::value_type, weights),
    vpc_tap_polarity = offsetof(TAStateWithPolarity::value_type, polarity), vpc_ta_variant_index = sizeof (numeric_matrix_int32);
extern const size_t vpc_nm_rows = offsetof(numeric_matrix_int32, m_nrows), vpc_nm_cols = offsetof(numeric_matrix_int32, m_ncols), vpc_nm_v = offsetof(numeric_matrix_int32, m_v);
extern const size_t vpc_bm_v = offsetof(bit_matrix_uint64, m_v), vpc_bm_cols = offsetof(bit_matrix_uint64, m_ncols), vpc_bm_rows = offsetof(bit_matrix_uint64, m_nrows),
    vpc_bm_blocks = offsetof(bit_matrix_uint64, m_row_blocks);

void vp_init(TAState::value_type & s, counting_type_t const & ct, int clauses, int outputs, int features, bool weighted, IRNG & g)
{
    TAState::initialize(s, ct, number_of_physical_estimator_clauses_t{clauses}, number_of_estimator_clause_outputs_t{outputs}, number_of_features_t{features}, weighted_flag_t{weighted}, g);
}

void vp_initp(TAStateWithPolarity::value_type & s, counting_type_t const & ct, int clauses, int outputs, int features, bool weighted, IRNG & g)
{
    TAStateWithPolarity::initialize(s, ct, number_of_physical_estimator_clauses_t{clauses}, number_of_estimator_clause_outputs_t{outputs}, number_of_features_t{features}, weighted_flag_t{weighted}, g);
}
}

extern "C" {
#define CS(n, T) extern const size_t vpc_##n##_params = offsetof(T, m_params), vpc_##n##_ta = offsetof(T, ta_state), vpc_##n##_cache = offsetof(T, cache), vpc_##n##_igen = offsetof(T, igen), \
    vpc_##n##_fgen = offsetof(T, fgen); void vp_init_##n(T & s) { initialize_state(s); } void vp_reset_##n(T & s) { reset_state_cache(s); }
CS(cc, ClassifierStateClassic)
CS(cb, ClassifierStateBitwise)
CS(rc, RegressorStateClassic)
CS(rb, RegressorStateBitwise)
extern const size_t vpc_cc_fb = offsetof(ClassifierStateCache::value_type, feedback_to_clauses), vpc_cc_out = offsetof(ClassifierStateCache::value_type, clause_output),
    vpc_cc_sum = offsetof(ClassifierStateCache::value_type, label_sum), vpc_cc_ct = offsetof(ClassifierStateCache::value_type, ct),
    vpc_rc_out = offsetof(RegressorStateCache::value_type, clause_output), vpc_rc_ct = offsetof(RegressorStateCache::value_type, ct);
extern const size_t vpc_var_index = sizeof (std::string);
void vp_norm_ct(counting_type_t * out, counting_type_t const & ct, int n, bool verbose) { new (out) counting_type_t(normalize_counting_type(ct, number_of_states_t{n}, verbosity_t{verbose})); }
}
