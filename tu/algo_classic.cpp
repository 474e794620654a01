// Verification unit: entry points for the functions of tsetlini_algo_classic.hpp
// and tsetlini_algo_common.hpp.  Every body is one call of the real function.
#include "tsetlini_algo_common.hpp"
#include "frand_cache.hpp"
#include "box_muller.hpp"
#include "common.hpp"
using namespace Tsetlini;

extern "C" {
extern const size_t vpc_ta_weights = offsetof(TAState::value_type, weights);
extern const size_t vpc_ta_variant_index = sizeof (numeric_matrix_int32);
extern const size_t vpc_ct_cache1 = offsetof(CoinTosserExact, m_cache1);
extern const size_t vpc_ct_cache2 = offsetof(CoinTosserExact, m_cache2);

void vp_eval(aligned_vector_char const & X, aligned_vector_char & out, int begin, int end, TAState::value_type const & ta, int jobs, int tile)
{
    calculate_clause_output(X, out, begin, end, ta, number_of_jobs_t{jobs}, clause_output_tile_size_t{tile});
}

void vp_eval_pruning(aligned_vector_char const & X, aligned_vector_char & out, int n, TAState::value_type const & ta, int jobs, int tile)
{
    calculate_clause_output_with_pruning(X, out, number_of_estimator_clause_outputs_t{n}, ta, number_of_jobs_t{jobs}, clause_output_tile_size_t{tile});
}

void vp_label_votes(aligned_vector_char const & out, w_vector_type const & w, aligned_vector_int & sums, int label, int per_label, int T)
{
    sum_up_label_votes(out, w, sums, label, number_of_classifier_clause_outputs_per_label_t{per_label}, threshold_t{T});
}

void vp_all_label_votes(aligned_vector_char const & out, w_vector_type const & w, aligned_vector_int & sums, int labels, int per_label, int T)
{
    sum_up_all_label_votes(out, w, sums, number_of_labels_t{labels}, number_of_classifier_clause_outputs_per_label_t{per_label}, threshold_t{T});
}

int vp_regressor_votes(aligned_vector_char const & out, int T, w_vector_type const & w)
{
    return sum_up_regressor_votes(out, threshold_t{T}, w);
}

void vp_train_classifier(TAState::value_type & ta, int begin, int end, feedback_vector_type::value_type const * fb, char const * out, int N,
    aligned_vector_char const & X, int maxw, bool boost, IRNG & prng, EstimatorStateCacheBase::coin_tosser_type & ct)
{
    train_classifier_automata(ta, begin, end, fb, out, number_of_states_t{N}, X, max_weight_t{maxw}, boost_tpf_t{boost}, prng, ct);
}

void vp_train_regressor(TAState::value_type & ta, int begin, int end, char const * out, int N, int err,
    aligned_vector_char const & X, int maxw, loss_fn_type const & loss, bool bm, bool boost, IRNG & prng, int T, EstimatorStateCacheBase::coin_tosser_type & ct)
{
    train_regressor_automata(ta, begin, end, out, number_of_states_t{N}, response_error_t{err}, X, max_weight_t{maxw}, loss, box_muller_flag_t{bm},
        boost_tpf_t{boost}, prng, threshold_t{T}, ct);
}

void vp_feedback(feedback_vector_type & fb, int target, int opposite, int tv, int ov, int per_label, int T, FRNG & fg)
{
    calculate_classifier_feedback_to_clauses(fb, target, opposite, tv, ov, number_of_classifier_clause_outputs_per_label_t{per_label}, threshold_t{T}, fg);
}
}
