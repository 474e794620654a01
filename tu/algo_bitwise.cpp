// Verification unit: entry points for the functions of tsetlini_algo_bitwise.hpp.
// Every body is one call of the real function.
#include "tsetlini_algo_common.hpp"
#include "common.hpp"
using namespace Tsetlini;

extern "C" {
extern const size_t vpc_tap_weights = offsetof(TAStateWithPolarity::value_type, weights);
extern const size_t vpc_tap_polarity = offsetof(TAStateWithPolarity::value_type, polarity);
extern const size_t vpc_ta_variant_index = sizeof (numeric_matrix_int32);
extern const size_t vpc_ct_cache1 = offsetof(CoinTosserExact, m_cache1);
extern const size_t vpc_ct_cache2 = offsetof(CoinTosserExact, m_cache2);
extern const size_t vpc_bv_vec = offsetof(bit_vector_uint64, m_vector);
extern const size_t vpc_bm_v = offsetof(bit_matrix_uint64, m_v);
extern const size_t vpc_bm_cols = offsetof(bit_matrix_uint64, m_ncols);
extern const size_t vpc_bm_rows = offsetof(bit_matrix_uint64, m_nrows);
extern const size_t vpc_bm_blocks = offsetof(bit_matrix_uint64, m_row_blocks);

void vp_beval(bit_vector_uint64 const & X, aligned_vector_char & out, int begin, int end, TAStateWithPolarity::value_type const & ta, int jobs, int tile)
{
    calculate_clause_output(X, out, begin, end, ta, number_of_jobs_t{jobs}, clause_output_tile_size_t{tile});
}

void vp_beval_pruning(bit_vector_uint64 const & X, aligned_vector_char & out, int n, TAStateWithPolarity::value_type const & ta, int jobs, int tile)
{
    calculate_clause_output_with_pruning(X, out, number_of_estimator_clause_outputs_t{n}, ta, number_of_jobs_t{jobs}, clause_output_tile_size_t{tile});
}

void vp_beval_bits(bit_vector_uint64 const & X, bit_vector_uint64 & out, int begin, int end, TAStateWithPolarity::value_type const & ta, int jobs, int tile)
{
    switch (tile)
    {
        case 128: calculate_clause_output_T<128>(X, out, begin, end, ta, number_of_jobs_t{jobs}); break;
        case 64: calculate_clause_output_T<64>(X, out, begin, end, ta, number_of_jobs_t{jobs}); break;
        case 32: calculate_clause_output_T<32>(X, out, begin, end, ta, number_of_jobs_t{jobs}); break;
        default: calculate_clause_output_T<16>(X, out, begin, end, ta, number_of_jobs_t{jobs}); break;
    }
}

void vp_btrain_classifier(TAStateWithPolarity::value_type & ta, int begin, int end, feedback_vector_type::value_type const * fb, char const * out, int N,
    bit_vector_uint64 const & X, int maxw, bool boost, IRNG & prng, EstimatorStateCacheBase::coin_tosser_type & ct)
{
    train_classifier_automata(ta, begin, end, fb, out, number_of_states_t{N}, X, max_weight_t{maxw}, boost_tpf_t{boost}, prng, ct);
}

void vp_btrain_regressor(TAStateWithPolarity::value_type & ta, int begin, int end, char const * out, int N, int err,
    bit_vector_uint64 const & X, int maxw, loss_fn_type const & loss, bool bm, bool boost, IRNG & prng, int T, EstimatorStateCacheBase::coin_tosser_type & ct)
{
    train_regressor_automata(ta, begin, end, out, number_of_states_t{N}, response_error_t{err}, X, max_weight_t{maxw}, loss, box_muller_flag_t{bm},
        boost_tpf_t{boost}, prng, threshold_t{T}, ct);
}
}
