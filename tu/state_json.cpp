// Verification unit: serialisation.  Every body is one call of the real function.
#include "tsetlini_state_json.cpp"
#include "common.hpp"
using namespace Tsetlini;

using PV = params_t::value_type;

extern "C" {
extern const size_t vpc_pair_second = offsetof(PV, second);
extern const size_t vpc_var_index = sizeof (std::string);

void vp_value_to(json & j, param_value_t const & p) { nlohmann::adl_serializer<param_value_t>::to_json(j, p); }
void vp_value_from(json const & j, param_value_t & p) { nlohmann::adl_serializer<param_value_t>::from_json(j, p); }

void vp_load_cc(ClassifierStateClassic & state, std::string const & text) { from_json_string(state, text); }
void vp_load_cb(ClassifierStateBitwise & state, std::string const & text) { from_json_string(state, text); }
void vp_load_rc(RegressorStateClassic & state, std::string const & text) { from_json_string(state, text); }
void vp_load_rb(RegressorStateBitwise & state, std::string const & text) { from_json_string(state, text); }

void vp_save_cc(std::string * out, ClassifierStateClassic const & state) { new (out) std::string(to_json_string(state)); }
void vp_save_cb(std::string * out, ClassifierStateBitwise const & state) { new (out) std::string(to_json_string(state)); }
void vp_save_rc(std::string * out, RegressorStateClassic const & state) { new (out) std::string(to_json_string(state)); }
void vp_save_rb(std::string * out, RegressorStateBitwise const & state) { new (out) std::string(to_json_string(state)); }

void vp_ta_to_c(json & j, TAState::value_type const & p) { Tsetlini::to_json(j, p); }
void vp_ta_to_b(json & j, TAStateWithPolarity::value_type const & p) { Tsetlini::to_json(j, p); }
void vp_ta_from_c(json const & j, TAState::value_type & p) { Tsetlini::from_json(j, p); }
void vp_ta_from_b(json const & j, TAStateWithPolarity::value_type & p) { Tsetlini::from_json(j, p); }
extern const size_t vpc_ta_weights = offsetof(TAState::value_type, weights), vpc_tap_weights = offsetof(TAStateWithPolarity::value_type, weights),
    vpc_tap_polarity = offsetof(TAStateWithPolarity::value_type, polarity);
#define CS(n, T) extern const size_t vpc_##n##_params = offsetof(T, m_params), vpc_##n##_ta = offsetof(T, ta_state), vpc_##n##_igen = offsetof(T, igen), vpc_##n##_fgen = offsetof(T, fgen);
CS(cc, ClassifierStateClassic)
CS(cb, ClassifierStateBitwise)
CS(rc, RegressorStateClassic)
CS(rb, RegressorStateBitwise)

#define GEN(n, T) extern const size_t vpc_##n##_index = offsetof(T, index), vpc_##n##_res = offsetof(T, aRES), vpc_##n##_mt = offsetof(T, aMT), vpc_##n##_size = sizeof (T), \
    vpc_##n##_n = T::MTSZ * T::NS, vpc_##n##_ns = T::NS, vpc_##n##_nres = sizeof (T().aRES) / 4, vpc_##n##_nmt = sizeof (T().aMT) / 4;
GEN(irng, IRNG)
GEN(frng, FRNG)
extern const size_t vpc_bm_rows = offsetof(bit_matrix_uint64, m_nrows), vpc_bm_cols = offsetof(bit_matrix_uint64, m_ncols), vpc_bm_blocks = offsetof(bit_matrix_uint64, m_row_blocks), vpc_bm_v = offsetof(bit_matrix_uint64, m_v),
    vpc_ta_variant_index = sizeof (numeric_matrix_int32);
extern const size_t vpc_nm_rows = offsetof(numeric_matrix_int32, m_nrows), vpc_nm_cols = offsetof(numeric_matrix_int32, m_ncols), vpc_nm_v = offsetof(numeric_matrix_int32, m_v);

using TM = TAStateBase::matrix_variant_type;
void vp_mat_to(json & j, TM const & p) { to_json(j, p); }
void vp_mat_from(json const & j, TM & p) { from_json(j, p); }
void vp_bm_to(json & j, bit_matrix_uint64 const & p) { to_json(j, p); }
void vp_bm_from(json const & j, bit_matrix_uint64 & p) { from_json(j, p); }
void vp_ig_to(json & j, IRNG const & p) { to_json(j, p); }
void vp_ig_from(json const & j, IRNG & p) { from_json(j, p); }
void vp_fg_to(json & j, FRNG const & p) { to_json(j, p); }
void vp_fg_from(json const & j, FRNG & p) { from_json(j, p); }
}
