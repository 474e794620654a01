// Verification unit: parameters.  Every body is one call of the real function.
#include "tsetlini_params.cpp"
#include "common.hpp"
#include <new>
using namespace Tsetlini;

extern "C" {
extern const size_t vpc_var_index = sizeof (std::string);
using PE = Either<status_message_t, params_t>;
using PV = std::pair<const std::string, param_value_t>;
extern const size_t vpc_pair_size = sizeof (PV), vpc_pair_second = offsetof(PV, second);
extern const long vpc_bad_json = S_BAD_JSON, vpc_value_error = S_VALUE_ERROR;
extern const size_t vpc_either_params = offsetof(PE, isLeft);

void vp_args_c(PE * out, int clauses, int states, float s, int threshold, bool weighted, int max_weight, bool boost, int n_jobs, bool verbose, counting_type_t const & ct, int tile, bool seeded, unsigned seed)
{
    new (out) PE(make_classifier_params_from_args(number_of_physical_classifier_clauses_per_label_t{clauses}, number_of_states_t{states}, specificity_t{s}, threshold_t{threshold}, weighted_flag_t{weighted},
        max_weight_t{max_weight}, boost_tpf_t{boost}, number_of_jobs_t{n_jobs}, verbosity_t{verbose}, ct, clause_output_tile_size_t{tile}, seeded ? std::optional<random_seed_t>(random_seed_t{seed}) : std::nullopt));
}

void vp_args_r(PE * out, int clauses, int states, float s, int threshold, bool weighted, int max_weight, bool boost, int n_jobs, bool verbose, counting_type_t const & ct, int tile, loss_fn_name_t const & loss, float C1, bool bm, bool seeded, unsigned seed)
{
    new (out) PE(make_regressor_params_from_args(number_of_physical_regressor_clauses_t{clauses}, number_of_states_t{states}, specificity_t{s}, threshold_t{threshold}, weighted_flag_t{weighted},
        max_weight_t{max_weight}, boost_tpf_t{boost}, number_of_jobs_t{n_jobs}, verbosity_t{verbose}, ct, clause_output_tile_size_t{tile}, loss, loss_fn_C1_t{C1}, box_muller_flag_t{bm},
        seeded ? std::optional<random_seed_t>(random_seed_t{seed}) : std::nullopt));
}
}

extern "C" {
void vp_json_c(PE * out, std::string const & text) { new (out) PE(make_classifier_params_from_json(text)); }
void vp_json_r(PE * out, std::string const & text) { new (out) PE(make_regressor_params_from_json(text)); }
}
