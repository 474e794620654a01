// Verification unit: the estimator functions of tsetlini.cpp.  Every body is one
// call of the real function (most of them are local to that file).
#include "tsetlini.cpp"
#include "common.hpp"
#include <new>
using namespace Tsetlini;

extern "C" {
extern const size_t vpc_ta_weights = offsetof(TAState::value_type, weights), vpc_tap_weights = offsetof(TAStateWithPolarity::value_type, weights);
extern const size_t vpc_ta_variant_index = sizeof (numeric_matrix_int32);

void vp_opposite(label_vector_type const & y, label_vector_type & o, int labels, IRNG & g) { generate_opposite_y(y, o, number_of_labels_t{labels}, g); }

bool vp_01(aligned_vector_char const & v) { return check_all_0s_or_1s(v); }
bool vp_pad(bit_vector_uint64 const & v) { return check_clear_padding(v); }
int vp_response(response_vector_type const & y, int T) { return check_response_y(y, threshold_t{T}).first; }
}

// ---- input checks.  The out parameter receives the real function's result.
extern "C" {
#define CHECKS(n, S, C, R) \
    void vp_xy_##n(status_message_t * out, std::vector<S> const & X, label_vector_type const & y) { new (out) status_message_t(check_X_y(X, y)); } \
    void vp_x_##n(status_message_t * out, std::vector<S> const & X, int nf) { new (out) status_message_t(check_X(X, number_of_features_t{nf})); } \
    void vp_pred_c##n(status_message_t * out, C const & s, std::vector<S> const & X) { new (out) status_message_t(check_for_predict(s, X)); } \
    void vp_pred1_c##n(status_message_t * out, C const & s, S const & X) { new (out) status_message_t(check_for_predict(s, X)); } \
    void vp_pred_r##n(status_message_t * out, R const & s, std::vector<S> const & X) { new (out) status_message_t(check_for_predict(s, X)); } \
    void vp_pred1_r##n(status_message_t * out, R const & s, S const & X) { new (out) status_message_t(check_for_predict(s, X)); }
CHECKS(c, aligned_vector_char, ClassifierStateClassic, RegressorStateClassic)
CHECKS(b, bit_vector_uint64, ClassifierStateBitwise, RegressorStateBitwise)
#define CS(n, T) extern const size_t vpc_##n##_params = offsetof(T, m_params), vpc_##n##_ta = offsetof(T, ta_state), vpc_##n##_cache = offsetof(T, cache), vpc_##n##_igen = offsetof(T, igen), vpc_##n##_fgen = offsetof(T, fgen);
CS(cc, ClassifierStateClassic)
CS(cb, ClassifierStateBitwise)
CS(rc, RegressorStateClassic)
CS(rb, RegressorStateBitwise)
extern const size_t vpc_var_index = sizeof (std::string);
extern const size_t vpc_row_c = sizeof (aligned_vector_char), vpc_row_b = sizeof (bit_vector_uint64), vpc_bv_nbits = offsetof(bit_vector_uint64, m_bit_length), vpc_bv_v = offsetof(bit_vector_uint64, m_vector);
void vp_resp(status_message_t * out, response_vector_type const & y, int T) { new (out) status_message_t(check_response_y(y, threshold_t{T})); }
void vp_labels(status_message_t * out, std::unordered_set<label_type> const & l) { new (out) status_message_t(check_labels(l)); }
void vp_labels_max(status_message_t * out, std::unordered_set<label_type> const & l, int max) { new (out) status_message_t(check_labels(l, max)); }
}

// ---- entry points: each body is one call of the public method
extern "C" {
#define FLOW(n, S, C, R) \
    void vp_fit_c##n(status_message_t * out, C & e, std::vector<S> const & X, label_vector_type const & y, int labels, unsigned epochs) { new (out) status_message_t(e.fit(X, y, max_number_of_labels_t{labels}, number_of_epochs_t{epochs})); } \
    void vp_pfit_c##n(status_message_t * out, C & e, std::vector<S> const & X, label_vector_type const & y, int labels, unsigned epochs) { new (out) status_message_t(e.partial_fit(X, y, max_number_of_labels_t{labels}, number_of_epochs_t{epochs})); } \
    void vp_fit_r##n(status_message_t * out, R & e, std::vector<S> const & X, response_vector_type const & y, unsigned epochs) { new (out) status_message_t(e.fit(X, y, number_of_epochs_t{epochs})); } \
    void vp_pfit_r##n(status_message_t * out, R & e, std::vector<S> const & X, response_vector_type const & y, unsigned epochs) { new (out) status_message_t(e.partial_fit(X, y, number_of_epochs_t{epochs})); }
FLOW(c, aligned_vector_char, ClassifierClassic, RegressorClassic)
FLOW(b, bit_vector_uint64, ClassifierBitwise, RegressorBitwise)
}

template<typename T> struct either_of { using type = Either<status_message_t, T>; };
#define STATIC_EITHER(T) either_of<T>::type
// ---- prediction: each body is one call of the public method
extern "C" {
#define PRED(n, S, C, R, CE, RE) \
    void vp_predict1_c##n(Either<status_message_t, label_type> * out, CE const & e, S const & X) { new (out) auto(e.predict(X)); } \
    void vp_predict_c##n(Either<status_message_t, label_vector_type> * out, CE const & e, std::vector<S> const & X) { new (out) auto(e.predict(X)); } \
    void vp_raw1_c##n(Either<status_message_t, aligned_vector_int> * out, CE const & e, S const & X) { new (out) auto(e.decision_function(X)); } \
    void vp_raw_c##n(Either<status_message_t, std::vector<aligned_vector_int>> * out, CE const & e, std::vector<S> const & X) { new (out) auto(e.decision_function(X)); } \
    void vp_evaluate_c##n(Either<status_message_t, real_type> * out, CE const & e, std::vector<S> const & X, label_vector_type const & y) { new (out) auto(e.evaluate(X, y)); } \
    void vp_predict1_r##n(Either<status_message_t, response_type> * out, RE const & e, S const & X) { new (out) auto(e.predict(X)); } \
    void vp_predict_r##n(Either<status_message_t, response_vector_type> * out, RE const & e, std::vector<S> const & X) { new (out) auto(e.predict(X)); } \
    extern const size_t vpc_##n##_cache_out = offsetof(C::cache_type::value_type, clause_output), vpc_##n##_cache_sum = offsetof(C::cache_type::value_type, label_sum), vpc_##n##_rcache_out = offsetof(R::cache_type::value_type, clause_output);
extern const size_t vpc_either_label = offsetof(STATIC_EITHER(label_type), isLeft), vpc_either_labels = offsetof(STATIC_EITHER(label_vector_type), isLeft), vpc_either_ints = offsetof(STATIC_EITHER(aligned_vector_int), isLeft),
    vpc_either_rows = offsetof(STATIC_EITHER(std::vector<aligned_vector_int>), isLeft), vpc_either_real = offsetof(STATIC_EITHER(real_type), isLeft);
PRED(c, aligned_vector_char, ClassifierStateClassic, RegressorStateClassic, ClassifierClassic, RegressorClassic)
PRED(b, bit_vector_uint64, ClassifierStateBitwise, RegressorStateBitwise, ClassifierBitwise, RegressorBitwise)
}
