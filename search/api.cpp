// LIB: estimator_state estimator_state_cache loss_fn ta_state tsetlini tsetlini_params tsetlini_state tsetlini_state_json box_muller_approx
// Bounded search through the public interface of the four estimators, against
// oracles computed from the automata states alone.
#include "tsetlini.hpp"
#include "tsetlini_state_json.hpp"
#include "estimator_state.hpp"
#include "loss_fn.hpp"
#include "model.hpp"
#include <sstream>
#include <memory>
#include <set>

namespace {

template<int K> struct E;
#define EST(K, EST_, STATE_, SAMPLE_, TA_, CLF_, MAKE_) \
template<> struct E<K> { using Est = EST_; using State = STATE_; using Sample = SAMPLE_; using TA = TA_; static constexpr bool clf = CLF_; static constexpr bool bw = std::is_same_v<TA_, TAStateWithPolarity>; \
    static auto json(std::string const & js) { return MAKE_##_from_json(js); } \
    template<typename... A> static auto args(A &&... a) { return MAKE_(std::forward<A>(a)...); } static constexpr char const * name = #EST_; };
EST(0, ClassifierClassic, ClassifierStateClassic, aligned_vector_char, TAState, true, make_classifier_classic)
EST(1, ClassifierBitwise, ClassifierStateBitwise, bit_vector_uint64, TAStateWithPolarity, true, make_classifier_bitwise)
EST(2, RegressorClassic, RegressorStateClassic, aligned_vector_char, TAState, false, make_regressor_classic)
EST(3, RegressorBitwise, RegressorStateBitwise, bit_vector_uint64, TAStateWithPolarity, false, make_regressor_bitwise)

struct Cfg
{
    int L = 2, per = 2, nout = 4, N = 100, T = 15, maxw = INT_MAX, boost = 0, jobs = 1, tile = 16;
    float s = 2, C1 = 0; bool weighted = false, bm = false; std::string ct = "auto", loss = "MSE"; unsigned seed = 1;
};
std::vector<int> const NS{1, 2, 3, 10, 100, 126, 127, 128, 129, 32766, 32767, 32768, 40000, 0x3fffffff};
std::vector<std::string> const CTS{"auto", "int8", "int16", "int32"};
std::vector<std::string> const LOSSES{"MSE", "L2", "MAE", "L1", "berHu", "L1+2"};

template<int K> Cfg cfg(Rng & r)
{
    Cfg c;
    c.L = r.p(1, 2) ? 2 : r.in(2, 6); c.per = 2 * r.in(1, 3);
    c.nout = E<K>::clf ? c.L * c.per : r.in(1, 9);
    c.N = r.pick(NS); c.T = r.p(1, 3) ? r.in(1, 4) : r.p(1, 8) ? 0x3fffffff : r.in(1, 60);
    c.maxw = r.p(1, 3) ? INT_MAX : r.in(1, 9); c.boost = r.in(0, 1); c.jobs = r.in(1, 4); c.tile = 16 << r.in(0, 3);
    c.s = r.p(1, 5) ? 1.0f : 1.0f + (float)(r.unit() * r.in(1, 20)); c.weighted = r.p(1, 2); c.bm = r.p(1, 3);
    c.ct = r.pick(CTS); c.loss = r.pick(LOSSES); c.C1 = r.p(1, 3) ? 0.0f : (float)r.unit(); c.seed = (unsigned)r.u64();
    return c;
}
std::string num(float x) { char b[64]; snprintf(b, sizeof b, "%.9g", x); return b; }
template<int K> std::string js(Cfg const & c)
{
    std::ostringstream o;
    if (E<K>::clf) o << "{\"number_of_clauses_per_label\": " << 2 * c.per;
    else o << "{\"number_of_regressor_clauses\": " << 2 * c.nout << ", \"loss_fn\": \"" << c.loss << "\", \"loss_fn_C1\": " << num(c.C1) << ", \"box_muller\": " << (c.bm ? "true" : "false");
    o << ", \"number_of_states\": " << c.N << ", \"s\": " << num(c.s) << ", \"threshold\": " << c.T << ", \"weighted\": " << (c.weighted ? "true" : "false") << ", \"max_weight\": " << c.maxw
      << ", \"boost_true_positive_feedback\": " << c.boost << ", \"n_jobs\": " << c.jobs << ", \"counting_type\": \"" << c.ct << "\", \"clause_output_tile_size\": " << c.tile << ", \"random_state\": " << c.seed << "}";
    return o.str();
}
template<int K> auto from_args(Cfg const & c)
{
    if constexpr (E<K>::clf)
        return E<K>::args(number_of_physical_classifier_clauses_per_label_t{2 * c.per}, number_of_states_t{c.N}, specificity_t{c.s}, threshold_t{c.T}, weighted_flag_t{c.weighted}, max_weight_t{c.maxw},
            boost_tpf_t{(bool)c.boost}, number_of_jobs_t{c.jobs}, counting_type_t{c.ct}, clause_output_tile_size_t{c.tile}, random_seed_t{c.seed});
    else
        return E<K>::args(number_of_physical_regressor_clauses_t{2 * c.nout}, number_of_states_t{c.N}, specificity_t{c.s}, threshold_t{c.T}, weighted_flag_t{c.weighted}, max_weight_t{c.maxw},
            boost_tpf_t{(bool)c.boost}, number_of_jobs_t{c.jobs}, counting_type_t{c.ct}, clause_output_tile_size_t{c.tile}, random_seed_t{c.seed}, loss_fn_name_t{c.loss}, loss_fn_C1_t{c.C1}, box_muller_flag_t{c.bm});
}
template<int K> std::unique_ptr<typename E<K>::Est> make(Cfg const & c, bool args = false)
{
    if (args)
    {
        auto e = from_args<K>(c);
        if (e.isLeft) fail("%s: valid arguments rejected: %s (%s)", E<K>::name, e.leftValue.second.c_str(), js<K>(c).c_str());
        return std::make_unique<typename E<K>::Est>(std::move(e.rightValue));
    }
    auto e = E<K>::json(js<K>(c));
    if (e.isLeft) fail("%s: valid parameters rejected: %s (%s)", E<K>::name, e.leftValue.second.c_str(), js<K>(c).c_str());
    return std::make_unique<typename E<K>::Est>(std::move(e.rightValue));
}
template<int K> typename E<K>::Sample smp(std::vector<int> const & x)
{
    if constexpr (E<K>::bw)
    {
        bit_vector_uint64 v(x.size());
        for (std::size_t i = 0; i < x.size(); ++i) if (x[i]) v.set(i);
        return v;
    }
    else return aligned_vector_char(x.begin(), x.end());
}
using Rows = std::vector<std::vector<int>>;
template<int K> std::vector<typename E<K>::Sample> smps(Rows const & X)
{
    std::vector<typename E<K>::Sample> o;
    for (auto const & x : X) o.push_back(smp<K>(x));
    return o;
}
template<int K, typename XS> status_message_t dofit(typename E<K>::Est & e, XS const & X, std::vector<int> const & y, int L, unsigned epochs, bool partial)
{
    if constexpr (E<K>::clf) return partial ? e.partial_fit(X, y, max_number_of_labels_t{L}, number_of_epochs_t{epochs}) : e.fit(X, y, max_number_of_labels_t{L}, number_of_epochs_t{epochs});
    else return partial ? e.partial_fit(X, y, number_of_epochs_t{epochs}) : e.fit(X, y, number_of_epochs_t{epochs});
}
template<int K> void okfit(typename E<K>::Est & e, Rows const & X, std::vector<int> const & y, Cfg const & c, unsigned epochs, bool partial)
{
    auto s = dofit<K>(e, smps<K>(X), y, c.L, epochs, partial);
    if (s.first != S_OK) fail("%s: %s of valid data rejected: %s", E<K>::name, partial ? "partial_fit" : "fit", s.second.c_str());
}
template<int K> std::vector<int> gen_y(Rng & r, Cfg const & c, int n)
{
    std::vector<int> y(n);
    for (auto & v : y) v = E<K>::clf ? r.in(0, c.L - 1) : r.p(1, 3) ? (r.p(1, 2) ? 0 : c.T) : r.in(0, c.T);
    return y;
}
Rows gen_rows(Rng & r, int n, int nf) { Rows X(n); for (auto & x : X) x = gen_X(r, nf); return X; }
int nf_small(Rng & r) { return r.p(1, 3) ? r.pick(std::vector<int>{1, 63, 64, 65, 127, 128, 129, 16, 17, 192}) : r.in(1, 90); }

// reads a fitted state
template<int K> Model read(typename E<K>::State const & st, Cfg const & c, char const * what)
{
    Model m; m.N = c.N; m.nout = c.nout; m.typ = (int)st.ta_state.matrix.index();
    std::visit([&](auto const & x)
    {
        m.nf = x.cols();
        if ((int)x.rows() != 2 * c.nout) fail("%s: %s: %u rows of automata for %d clauses", E<K>::name, what, x.rows(), c.nout);
        m.st.assign(2 * c.nout, std::vector<long>(m.nf));
        for (int i = 0; i < 2 * c.nout; ++i) for (int k = 0; k < m.nf; ++k) m.st[i][k] = x.row_data(i)[k];
    }, st.ta_state.matrix);
    m.w.assign(st.ta_state.weights.begin(), st.ta_state.weights.end());
    if (m.w.size() != (c.weighted ? c.nout : 0u)) fail("%s: %s: %zu weights for %d clauses (weighted=%d)", E<K>::name, what, m.w.size(), c.nout, c.weighted);
    return m;
}
template<int K> Model read(typename E<K>::Est const & e, Cfg const & c, char const * what) { auto p = e.clone_state(); return read<K>(*p, c, what); }
template<int K> std::unique_ptr<typename E<K>::Est> inject(typename E<K>::Est const & e, Model const & m, Rng & r)
{
    auto p = e.clone_state();
    mk(p->ta_state, m, r);
    return std::make_unique<typename E<K>::Est>(*p);
}
bool narrow(int typ, int N) { return typ == 2 ? N > 128 : typ == 1 ? N > 32768 : false; }
template<int K> void invariants(typename E<K>::State const & st, Cfg const & c, int want, char const * what)
{
    Model m = read<K>(st, c, what);
    if (want & W_BOUND) for (auto const & row : m.st) for (long s : row) if (s < -(long)c.N || s > (long)c.N - 1) fail("%s: %s: state %ld outside [-%d, %d]", E<K>::name, what, s, c.N, c.N - 1);
    if (want & W_POL) check_pol(st.ta_state, m, what);
    if (want & W_WEIGHT) for (unsigned w : m.w) if (w > (unsigned)c.maxw - 1) fail("%s: %s: weight %u above max_weight %d", E<K>::name, what, w, c.maxw);
}
long clampl(long v, long lo, long hi) { return v < lo ? lo : v > hi ? hi : v; }
std::vector<int> ref_outs(Model const & m, std::vector<int> const & x, bool pruning) { std::vector<int> o(m.nout); for (int j = 0; j < m.nout; ++j) o[j] = ref_out(m, x, j, pruning); return o; }
long ref_votes(Model const & m, std::vector<int> const & o, Cfg const & c, int l)
{
    long v = 0;
    for (int j = l * c.per; j < (l + 1) * c.per; ++j) v += (j % 2 ? -1L : 1L) * o[j] * (m.w.empty() ? 1L : 1L + m.w[j]);
    return clampl(v, -c.T, c.T);
}
long ref_resp(Model const & m, std::vector<int> const & o, Cfg const & c)
{
    long v = 0;
    for (int j = 0; j < m.nout; ++j) v += o[j] * (m.w.empty() ? 1L : 1L + m.w[j]);
    return clampl(v, 0, c.T);
}
// an estimator fitted on nothing much whose automata are then set to a random machine built around X0
template<int K> std::unique_ptr<typename E<K>::Est> machine(Rng & r, Cfg & c, std::vector<int> const & X0, Model & m, int wmode)
{
    auto e = make<K>(c, r.p(1, 3));
    std::vector<int> y(1, E<K>::clf ? c.L - 1 : 0);
    okfit<K>(*e, {X0}, y, c, 0, false);
    Model f = read<K>(*e, c, "after fit");
    if (narrow(f.typ, c.N)) fail("%s: %d states kept in %s (counting_type %s)", E<K>::name, c.N, TN[f.typ], c.ct.c_str());
    m = gen_model(r, X0, c.nout, f.typ, c.N);
    if (c.weighted)
    {
        m.w.resize(c.nout);
        int top = c.maxw - 1 > 1000000 ? 1000000 : c.maxw - 1;
        for (int j = 0; j < c.nout; ++j) m.w[j] = wmode == 1 ? std::min(top, (1 << (j % 20)) - 1) : r.p(1, 3) ? 0 : r.p(1, 3) ? (wmode == 2 ? c.maxw - 1 : top) : r.in(0, top);
    }
    return inject<K>(*e, m, r);
}

// ------------------------------------------------------------ C01 C03 C04 C19: prediction
template<int K> void predict_case(Rng & r)
{
    Cfg c = cfg<K>(r);
    if (r.p(1, 2)) c.maxw = INT_MAX;
    if (r.p(1, 3)) c.T = 0x3fffffff;
    int nf = r.p(1, 6) ? pick_nf(r) : nf_small(r);
    if (nf > 600) nf = 600 + nf % 64;
    auto X0 = gen_X(r, nf);
    Model m; auto e = machine<K>(r, c, X0, m, r.in(0, 1));
    Rows X; X.push_back(X0);
    for (int i = r.in(0, 4); i; --i) X.push_back(gen_X(r, nf));
    for (int i = r.in(0, 4); i; --i) { auto x = X0; x[r.in(0, nf - 1)] ^= 1; X.push_back(x); }
    if (r.p(1, 2)) std::swap(X[0], X.back());
    auto S = smps<K>(X);
    auto before = e->clone_state();
    std::vector<int> pred; std::vector<std::vector<long>> votes;
    for (auto const & x : X)
    {
        auto o = ref_outs(m, x, true);
        if constexpr (E<K>::clf)
        {
            std::vector<long> v; int best = 0;
            for (int l = 0; l < c.L; ++l) { v.push_back(ref_votes(m, o, c, l)); if (v[l] > v[best]) best = l; }
            pred.push_back(best); votes.push_back(v);
        }
        else pred.push_back((int)ref_resp(m, o, c));
    }
    for (int pass = 0; pass < 2; ++pass)
    {
        if (r.p(2, 3))
        {
            auto p = e->predict(S);
            if (p.isLeft) fail("%s: predict rejected: %s", E<K>::name, p.leftValue.second.c_str());
            if (p.rightValue.size() != X.size()) fail("%s: predict of %zu rows gives %zu", E<K>::name, X.size(), p.rightValue.size());
            for (std::size_t i = 0; i < X.size(); ++i) if (p.rightValue[i] != pred[i]) fail("%s: predict, row %zu of %zu: %d, expected %d (nf=%d T=%d tile=%d jobs=%d)", E<K>::name, i, X.size(), p.rightValue[i], pred[i], nf, c.T, c.tile, c.jobs);
        }
        for (std::size_t i = 0; i < X.size(); ++i)
        {
            auto p = e->predict(S[i]);
            if (p.isLeft) fail("%s: predict rejected: %s", E<K>::name, p.leftValue.second.c_str());
            if (p.rightValue != pred[i]) fail("%s: predict of row %zu alone: %d, expected %d (nf=%d T=%d tile=%d jobs=%d)", E<K>::name, i, p.rightValue, pred[i], nf, c.T, c.tile, c.jobs);
            if constexpr (E<K>::clf)
            {
                auto d = e->decision_function(S[i]);
                if (d.isLeft) fail("%s: decision_function rejected: %s", E<K>::name, d.leftValue.second.c_str());
                if ((int)d.rightValue.size() != c.L) fail("%s: decision_function: %zu labels, expected %d", E<K>::name, d.rightValue.size(), c.L);
                for (int l = 0; l < c.L; ++l) if (d.rightValue[l] != votes[i][l]) fail("%s: decision_function of row %zu, label %d: %d, expected %ld (nf=%d T=%d weighted=%d)", E<K>::name, i, l, d.rightValue[l], votes[i][l], nf, c.T, c.weighted);
            }
        }
        if constexpr (E<K>::clf)
        {
            auto d = e->decision_function(S);
            if (d.isLeft) fail("%s: decision_function rejected: %s", E<K>::name, d.leftValue.second.c_str());
            if (d.rightValue.size() != X.size()) fail("%s: decision_function of %zu rows gives %zu", E<K>::name, X.size(), d.rightValue.size());
            for (std::size_t i = 0; i < X.size(); ++i) for (int l = 0; l < c.L; ++l)
                if ((int)d.rightValue[i].size() != c.L || d.rightValue[i][l] != votes[i][l]) fail("%s: decision_function of all rows, row %zu label %d: expected %ld", E<K>::name, i, l, votes[i][l]);
            std::vector<int> y; int good = 0;
            for (std::size_t i = 0; i < X.size(); ++i) { y.push_back(r.p(1, 2) ? pred[i] : r.in(0, c.L - 1)); good += y[i] == pred[i]; }
            auto ev = e->evaluate(S, y);
            if (ev.isLeft) fail("%s: evaluate rejected", E<K>::name);
            if (std::fabs(ev.rightValue - (double)good / X.size()) > 1e-5) fail("%s: evaluate gives %g, %d of %zu rows are predicted as labelled", E<K>::name, ev.rightValue, good, X.size());
        }
    }
    auto after = e->clone_state();
    if (!::equal(*before, *after)) fail("%s: prediction changed the model", E<K>::name);
}

// ------------------------------------------------------------ C02 C06 C08 C09 C10 C11: one training example
bool clause_ok(Model const & a, Model const & b, int j, std::vector<int> const & X, int type, int out, bool boost, int maxw, unsigned hits, bool sparse, int want)
{
    try { check_clause(a, b, j, X, type, out, boost, maxw, nullptr, nullptr, hits, sparse, want, ""); return true; } catch (vs::Fail const &) { return false; }
}
template<int K> void step_case(Rng & r)
{
    Cfg c = cfg<K>(r);
    if (c.T > 100000) c.T = 20;
    if (r.p(1, 2)) c.T = r.in(1, 3);
    int nf = nf_small(r);
    auto X0 = gen_X(r, nf);
    Model m; auto e = machine<K>(r, c, X0, m, 2);
    auto outs = ref_outs(m, X0, false);
    int y = E<K>::clf ? r.in(0, c.L - 1) : r.p(1, 3) ? (int)ref_resp(m, outs, c) : r.in(0, c.T);
    if (r.p(1, 2)) { auto p = e->predict(smp<K>(X0)); (void)p; }         // leaves pruned outputs behind
    okfit<K>(*e, {X0}, {y}, c, 1, true);
    Model a = read<K>(*e, c, "after partial_fit");
    unsigned hits = (unsigned)(nf / c.s) + 2;
    int const want = W_STATE | W_WEIGHT | W_BOUND;
    if constexpr (E<K>::clf)
    {
        std::vector<int> touched;
        for (int l = 0; l < c.L; ++l)
        {
            long v = ref_votes(m, outs, c, l);
            bool target = l == y, never = target ? v == c.T : v == -c.T, always = (target || c.L == 2) && (target ? v == -c.T : v == c.T), any = false;
            for (int j = l * c.per; j < (l + 1) * c.per; ++j)
            {
                int kind = target == (j % 2 == 0) ? 1 : -1;
                bool zero = clause_ok(m, a, j, X0, 0, outs[j], c.boost, c.maxw, hits, E<K>::bw, want), full = clause_ok(m, a, j, X0, kind, outs[j], c.boost, c.maxw, hits, E<K>::bw, want);
                if (!zero && !full)
                {
                    try { check_clause(m, a, j, X0, kind, outs[j], c.boost, c.maxw, nullptr, nullptr, hits, E<K>::bw, want, E<K>::name); }
                    catch (vs::Fail const & f) { fail("label %d (target %d), vote %ld of T=%d: neither untouched nor given feedback %d: %s", l, y, v, c.T, kind, f.msg.c_str()); }
                }
                if (!zero && never) fail("%s: clause %d of label %d got feedback although the vote is %ld (T=%d, target %d)", E<K>::name, j, l, v, c.T, y);
                if (!full && always) fail("%s: clause %d of label %d got no feedback although the vote is %ld (T=%d, target %d)", E<K>::name, j, l, v, c.T, y);
                any |= !zero;
            }
            if (any && !target) touched.push_back(l);
        }
        if (touched.size() > 1) fail("%s: clauses of labels %d and %d both changed in one step with target %d", E<K>::name, touched[0], touched[1], y);
    }
    else
    {
        long err = ref_resp(m, outs, c) - y;
        int type = err < 0 ? 1 : err > 0 ? -1 : 0;
        check_regr(m, a, X0, outs, 0, c.nout, type, c.nout, E<K>::bw, c.maxw, want, E<K>::name);
    }
    if (E<K>::bw) { auto p = e->clone_state(); invariants<K>(*p, c, W_POL, "partial_fit"); }
}
// every label's vote is at the threshold: the target gets nothing, exactly one other label gets all
template<int K> void opposite_case(Rng & r)
{
    if constexpr (E<K>::clf)
    {
        Cfg c = cfg<K>(r); c.T = 1; c.weighted = false; c.N = 10; c.L = r.in(2, 7); c.nout = c.L * c.per;
        int nf = r.in(1, 20);
        auto X0 = gen_X(r, nf);
        Model m; auto e = machine<K>(r, c, X0, m, 0);
        for (int j = 0; j < c.nout; ++j) for (int k = 0; k < nf; ++k)
        {
            bool sat = j % 2 == 0;       // odd clauses are violated
            m.st[2 * j][k] = sat ? (X0[k] ? 3 : -3) : (k == 0 && !X0[k] ? 3 : -3);
            m.st[2 * j + 1][k] = sat ? (X0[k] ? -3 : 3) : (k == 0 && X0[k] ? 3 : -3);
        }
        int rounds = r.in(1, 6);
        for (int it = 0; it < rounds; ++it)
        {
            auto f = inject<K>(*e, m, r);
            int y = r.in(0, c.L - 1);
            okfit<K>(*f, {X0}, {y}, c, 1, true);
            Model a = read<K>(*f, c, "after partial_fit");
            int n = 0;
            for (int l = 0; l < c.L; ++l)
            {
                bool changed = false;
                for (int j = l * c.per; j < (l + 1) * c.per; ++j) for (int s = 0; s < 2; ++s) changed |= a.st[2 * j + s] != m.st[2 * j + s];
                if (changed && l == y) fail("%s: label %d of %d is trained as its own opposite", E<K>::name, y, c.L);
                n += changed;
            }
            if (n != 1) fail("%s: %d labels received opposite feedback for target %d of %d", E<K>::name, n, y, c.L);
            auto p = f->clone_state(); e = std::make_unique<typename E<K>::Est>(*p);   // keeps the generator state
        }
    }
}

// ------------------------------------------------------------ C05 C07 C08 C20: invariants over training histories
template<int K> void train_case(Rng & r, int want)
{
    Cfg c = cfg<K>(r);
    if (r.p(1, 2)) c.N = r.in(1, 4);
    auto e = make<K>(c, r.p(1, 3));
    int nf = nf_small(r);
    int steps = r.in(1, 4);
    for (int i = 0; i < steps; ++i)
    {
        bool partial = i > 0 && r.p(3, 4);
        if (!partial) nf = nf_small(r);
        int n = r.in(1, 8);
        auto y = gen_y<K>(r, c, n); if (E<K>::clf && !partial) y[0] = c.L - 1;
        okfit<K>(*e, gen_rows(r, n, nf), y, c, r.in(0, 4), partial);
        auto p = e->clone_state();
        invariants<K>(*p, c, want, partial ? "partial_fit" : "fit");
        if (r.p(1, 3))
        {
            Model m = read<K>(*p, c, "fit");
            auto X0 = gen_X(r, nf);
            Model q = gen_model(r, X0, c.nout, m.typ, c.N);       // extreme states
            q.w = m.w; for (auto & w : q.w) w = r.p(1, 2) ? c.maxw - 1 : 0;
            e = inject<K>(*e, q, r);
        }
    }
}

// ------------------------------------------------------------ C12: validation
enum Mut { M_NONE, M_EMPTYX, M_EMPTYY, M_EMPTY, M_LEN, M_RAGGED, M_VALUE, M_PAD, M_NEG, M_LARGE, M_WIDTH, M_ONELABEL, M_COUNT };
template<int K> void valid_case(Rng & r)
{
    Cfg c = cfg<K>(r); if (c.N > 1000) c.N = 100;
    auto e = make<K>(c, r.p(1, 3));
    bool fitted = r.p(2, 3);
    int nf = nf_small(r);
    if (fitted) okfit<K>(*e, gen_rows(r, 2, nf), E<K>::clf ? std::vector<int>{c.L - 1, 0} : std::vector<int>{0, c.T}, c, r.in(0, 1), false);
    int call = r.in(0, 4);            // fit, partial_fit, predict batch, predict one, decision function
    if (!E<K>::clf && call == 4) call = 3;
    int mut = r.p(1, 3) ? M_NONE : r.in(1, M_COUNT - 1);
    int n = r.in(1, 5), w = call >= 2 || (call == 1 && fitted) ? nf : nf_small(r);
    auto rows = gen_rows(r, n, w);
    auto y = gen_y<K>(r, c, n);
    bool bad = false, train = call < 2, cont = call == 1 && fitted, single = call >= 3 && r.p(1, 2);
    int L = c.L;
    int at = r.p(1, 2) ? n - 1 : r.in(0, n - 1), col = r.p(1, 2) ? w - 1 : r.in(0, w - 1);
    if (mut == M_EMPTYX || mut == M_EMPTY) { if (!single && (train || call == 2 || call == 4)) { rows.clear(); bad = true; } }
    if (mut == M_EMPTYY || mut == M_EMPTY) { if (train) { y.clear(); bad = true; } }
    if (mut == M_LEN && train) { if (r.p(1, 2)) y.push_back(y.back()); else y.pop_back(); bad = true; }
    if (mut == M_RAGGED && n > 1 && !single) { int d = r.p(1, 2) && w > 1 ? -1 : 1; rows[at].resize(w + d); bad = true; }
    if (mut == M_NEG && train) { y[at] = r.p(1, 2) ? -1 : -r.in(1, 1 << 20); bad = true; }
    if (mut == M_LARGE && train)
    {
        if (E<K>::clf) { if (cont) { y[at] = c.L + (r.p(1, 2) ? 0 : r.in(0, 1 << 20)); bad = true; } else y[at] = c.L + r.in(0, 3); }
        else if (c.T < INT_MAX) { y[at] = r.p(1, 2) ? c.T + 1 : INT_MAX; bad = true; }
    }
    if (mut == M_WIDTH && (cont || !train)) { int d = r.p(1, 2) && w > 1 ? -1 : 1; for (auto & x : rows) x.resize(w + d); bad = true; }
    if (mut == M_ONELABEL && E<K>::clf && train && !cont) { for (auto & v : y) v = 0; L = r.in(-1, 1); bad = true; }
    auto X = smps<K>(rows);
    if (mut == M_VALUE && !X.empty())
    {
        if constexpr (!E<K>::bw) { X[single ? 0 : at][col] = r.pick(std::vector<int>{2, 3, 4, -1, 127, -128, '0', '1'}); bad = true; }
    }
    if (mut == M_PAD)
    {
        if constexpr (E<K>::bw)
        {
            auto & v = X[single ? 0 : at];
            std::size_t bits = v.size();
            if (r.p(1, 3)) v.m_vector.push_back(0);                                // a spare block is no padding
            if (bits % 64)
            {
                std::size_t b = bits + r.in(0, 63 - bits % 64);
                if (r.p(3, 4)) { v.m_vector[b / 64] |= 1ULL << (b % 64); bad = true; }
            }
        }
    }
    if (single) { X.resize(1); }
    auto before = e->clone_state();
    status_message_t s{S_OK, ""};
    if (train) s = dofit<K>(*e, X, y, L, r.in(0, 2), call == 1);
    else if (call == 2) { auto p = e->predict(X); if (p.isLeft) s = p.leftValue; else if (p.rightValue.size() != X.size()) fail("%s: wrong number of predictions", E<K>::name); }
    else if (call == 3) { auto p = e->predict(X[single ? 0 : at]); if (mut == M_RAGGED || mut == M_EMPTYX || mut == M_EMPTY) bad = X[single ? 0 : at].size() != (std::size_t)nf; if (p.isLeft) s = p.leftValue; }
    else if constexpr (E<K>::clf)
    {
        if (single) { auto p = e->decision_function(X[0]); if (p.isLeft) s = p.leftValue; }
        else { auto p = e->decision_function(X); if (p.isLeft) s = p.leftValue; }
    }
    static char const * const calls[] = {"fit", "partial_fit", "predict(batch)", "predict(sample)", "decision_function"};
    static char const * const muts[] = {"none", "empty X", "empty y", "empty X and y", "lengths differ", "rows of different width", "value not 0 or 1", "padding bits", "negative", "too large", "wrong number of features", "one label"};
    StatusCode exp = bad ? S_VALUE_ERROR : S_OK;
    bool either = false;
    if (!train && !fitted) { exp = S_NOT_FITTED_ERROR; either = bad; }
    if (s.first != exp && !(either && s.first == S_VALUE_ERROR))
        fail("%s: %s on a%s estimator, %s%s: status %d (%s), expected %d (rows %zu, width %d, %s)", E<K>::name, calls[call], fitted ? " fitted" : "n unfitted", muts[mut], bad ? "" : " (still valid)", (int)s.first, s.second.c_str(), (int)exp, X.size(), w, js<K>(c).c_str());
    if (exp != S_OK || !train)
    {
        auto after = e->clone_state();
        if (!::equal(*before, *after)) fail("%s: %s, %s: the estimator changed", E<K>::name, calls[call], muts[mut]);
    }
}

// ------------------------------------------------------------ C13: initialisation
template<int K> void init_case(Rng & r)
{
    Cfg c = cfg<K>(r);
    auto a = make<K>(c, r.p(1, 2)), b = make<K>(c, r.p(1, 2));
    Cfg h = c;
    for (int i = r.in(1, 2); i; --i)
    {
        int nf = nf_small(r), n = r.in(1, 5);
        if (E<K>::clf) { h.L = r.in(2, 6); h.nout = h.L * h.per; }
        auto y = gen_y<K>(r, h, n); if (E<K>::clf) y[0] = h.L - 1;
        okfit<K>(*a, gen_rows(r, n, nf), y, h, r.in(0, 3), false);
        if (r.p(1, 2)) okfit<K>(*a, gen_rows(r, n, nf), gen_y<K>(r, h, n), h, r.in(0, 2), true);
        if (r.p(1, 2)) { auto p = a->predict(smps<K>(gen_rows(r, n, nf))); (void)p; }
    }
    int nf = nf_small(r), n = r.in(1, 5);
    auto X = gen_rows(r, n, nf); auto y = gen_y<K>(r, c, n); if (E<K>::clf) y[r.in(0, n - 1)] = c.L - 1;
    okfit<K>(*a, X, y, c, 0, false);
    auto p = a->clone_state();
    Model m = read<K>(*p, c, "fit of 0 epochs");
    if (m.nf != nf) fail("%s: %d columns for %d features", E<K>::name, m.nf, nf);
    for (auto const & row : m.st) for (long s : row) if (s != 0 && s != -1) fail("%s: initial state %ld", E<K>::name, s);
    for (unsigned w : m.w) if (w) fail("%s: initial weight %u + 1", E<K>::name, w);
    check_pol(p->ta_state, m, E<K>::name);
    if (nf * c.nout >= 64) { bool z = false, o = false; for (auto const & row : m.st) for (long s : row) { z |= s == 0; o |= s == -1; } if (!z || !o) fail("%s: all automata start alike", E<K>::name); }
    unsigned ep = r.in(0, 3);
    okfit<K>(*a, X, y, c, ep, false); okfit<K>(*b, X, y, c, ep, false);
    auto pa = a->clone_state(), pb = b->clone_state();
    if (!::equal(*pa, *pb)) fail("%s: fitting with a history differs from fitting afresh (%u epochs, %s)", E<K>::name, ep, js<K>(c).c_str());
    auto T = smps<K>(gen_rows(r, 4, nf));
    auto u = a->predict(T), v = b->predict(T);
    if (u.isLeft || v.isLeft || u.rightValue != v.rightValue) fail("%s: predictions depend on the history", E<K>::name);
}

// ------------------------------------------------------------ C14: parameters
template<int K> void params_case(Rng & r)
{
    using P = std::pair<std::string, std::string>;
    std::vector<std::string> keys{"number_of_states", "s", "threshold", "weighted", "max_weight", "boost_true_positive_feedback", "n_jobs", "counting_type", "clause_output_tile_size", "random_state", "verbose"};
    if (E<K>::clf) keys.push_back("number_of_clauses_per_label");
    else for (auto k : {"number_of_regressor_clauses", "loss_fn", "loss_fn_C1", "box_muller"}) keys.push_back(k);
    std::vector<P> given; bool bad = false; std::string why;
    auto setbad = [&](std::string const & k, std::string const & v) { bad = true; why += k + "=" + v + " "; };
    auto natural = [&](std::string const & k, std::vector<int> const & good, std::vector<int> const & wrong)
    {
        if (r.p(1, 6) && !wrong.empty()) { auto v = std::to_string(r.pick(wrong)); given.push_back({k, v}); setbad(k, v); }
        else given.push_back({k, std::to_string(r.pick(good))});
    };
    std::vector<std::string> const words{"\"x\"", "[1]", "{}", "null", "\"7\""};
    for (auto const & k : keys)
    {
        if (r.p(1, 2)) continue;
        if (r.p(1, 12) && k != "random_state") { auto v = k == "counting_type" || k == "loss_fn" ? r.pick(std::vector<std::string>{"3", "[1]", "{}", "null", "true"}) : r.pick(words); given.push_back({k, v}); setbad(k, v); continue; }
        if (k == "number_of_states" || k == "threshold" || k == "max_weight") natural(k, {1, 2, 7, 100, 127, 128, 32768, INT_MAX, r.in(1, INT_MAX)}, {0, -1, -100, INT_MIN, -r.in(1, INT_MAX)});
        else if (k == "number_of_clauses_per_label") natural(k, {4, 8, 12, 400, 4 * r.in(1, 1000)}, {0, -4, 1, 2, 3, 5, 6, 10, 4 * r.in(1, 1000) + r.in(1, 3), -4 * r.in(1, 100)});
        else if (k == "number_of_regressor_clauses") natural(k, {2, 4, 6, 20, 2 * r.in(1, 1000)}, {0, -2, 1, 3, 2 * r.in(1, 1000) + 1, -2 * r.in(1, 100)});
        else if (k == "boost_true_positive_feedback") natural(k, {0, 1}, {-1, 2, 3, 100});
        else if (k == "n_jobs") natural(k, {-1, 1, 2, 16, 1000}, {0, -2, -3, INT_MIN});
        else if (k == "clause_output_tile_size") natural(k, {16, 32, 64, 128}, {0, 1, 8, 15, 17, 48, 96, 100, 127, 129, 256, -16});
        else if (k == "random_state") given.push_back({k, r.p(1, 6) ? "null" : std::to_string((unsigned)r.u64())});
        else if (k == "s") { if (r.p(1, 6)) { auto v = r.pick(std::vector<std::string>{"0.999", "0", "0.5", "-1", "-2.5", "1e300"}); given.push_back({k, v}); setbad(k, v); } else given.push_back({k, r.pick(std::vector<std::string>{"1", "1.0", "1.5", "3.9", "100", "1e6"})}); }
        else if (k == "loss_fn_C1") given.push_back({k, r.pick(std::vector<std::string>{"0", "0.0", "0.25", "1", "0.999"})});
        else if (k == "weighted" || k == "box_muller") given.push_back({k, r.p(1, 2) ? "true" : "false"});
        else if (k == "verbose") given.push_back({k, "false"});
        else if (k == "counting_type") { if (r.p(1, 6)) { auto v = r.pick(std::vector<std::string>{"\"int64\"", "\"\"", "\"Auto\"", "\"int8 \"", "\"uint8\"", "\"int\""}); given.push_back({k, v}); setbad(k, v); } else given.push_back({k, "\"" + r.pick(CTS) + "\""}); }
        else if (k == "loss_fn") { if (r.p(1, 6)) { auto v = r.pick(std::vector<std::string>{"\"L3\"", "\"\"", "\"mse\"", "\"L1+\"", "\"berhu\""}); given.push_back({k, v}); setbad(k, v); } else given.push_back({k, "\"" + r.pick(LOSSES) + "\""}); }
    }
    if (r.p(1, 15)) { std::string k = r.pick(std::vector<std::string>{"", "foo", "number_of_labels", "number_of_features", "S", "thresholds", "random_seed"}); given.push_back({k, "2"}); setbad(k, "2"); }
    if (r.p(1, 25)) { std::string k = r.pick(std::vector<std::string>{"number_of_states", "threshold", "max_weight"}); bool dup = false; for (auto const & g : given) dup |= g.first == k; if (!dup) { std::string v = r.pick(std::vector<std::string>{"4294967311", "1e300", "2147483648"}); given.push_back({k, v}); setbad(k, v); } }
    for (std::size_t i = given.size(); i > 1; --i) std::swap(given[i - 1], given[r.in(0, (int)i - 1)]);
    std::string text = "{";
    for (auto const & g : given) text += (text.size() > 1 ? ", \"" : "\"") + g.first + "\": " + g.second;
    text += "}";
    if (r.p(1, 30)) { text = r.pick(std::vector<std::string>{"", "{", "[]", "3", "null", "\"x\"", "{\"threshold\": }", "{\"threshold\": 3", "nonsense"}); bad = true; why = text; given.clear(); }
    auto e = E<K>::json(text);
    if (bad && !e.isLeft) fail("%s: invalid parameters accepted: %s (%s)", E<K>::name, text.c_str(), why.c_str());
    if (!bad && e.isLeft) fail("%s: valid parameters rejected: %s: %s", E<K>::name, text.c_str(), e.leftValue.second.c_str());
    if (bad) { if (e.leftValue.first != S_BAD_JSON && e.leftValue.first != S_VALUE_ERROR) fail("%s: status %d for %s", E<K>::name, (int)e.leftValue.first, text.c_str()); return; }
    auto p = e.rightValue.read_params();
    std::map<std::string, param_value_t> exp{{"number_of_states", 100}, {"s", 2.0f}, {"threshold", 15}, {"weighted", !E<K>::clf}, {"max_weight", INT_MAX}, {"boost_true_positive_feedback", 0}, {"verbose", false}, {"counting_type", std::string("auto")}, {"clause_output_tile_size", 16}};
    if (E<K>::clf) exp.insert({"number_of_clauses_per_label", 12});
    else { exp.insert({"number_of_regressor_clauses", 20}); exp.insert({"loss_fn", std::string("MSE")}); exp.insert({"loss_fn_C1", 0.0f}); exp.insert({"box_muller", false}); }
    for (auto const & [k, v] : given)
    {
        param_value_t x{0};
        if (v[0] == '"') x = v.substr(1, v.size() - 2);
        else if (v == "true" || v == "false") x = v == "true";
        else if (k == "s" || k == "loss_fn_C1") x = (float)atof(v.c_str());
        else if (k == "random_state") { if (v == "null") continue; x = (seed_type)strtoul(v.c_str(), nullptr, 10); }
        else if (k == "n_jobs" && v == "-1") continue;
        else x = atoi(v.c_str());
        exp.insert_or_assign(k, x);
    }
    for (auto const & [k, v] : exp)
    {
        auto it = p.find(k);
        if (it == p.end()) fail("%s: parameter %s missing for %s", E<K>::name, k.c_str(), text.c_str());
        if (!(it->second == v)) fail("%s: parameter %s has the wrong value or kind (kind %zu) for %s", E<K>::name, k.c_str(), it->second.index(), text.c_str());
    }
    if (!p.count("n_jobs") || !std::holds_alternative<int>(p["n_jobs"]) || std::get<int>(p["n_jobs"]) < 1) fail("%s: n_jobs not normalised for %s", E<K>::name, text.c_str());
    if (!p.count("random_state") || !std::holds_alternative<seed_type>(p["random_state"])) fail("%s: no random_state for %s", E<K>::name, text.c_str());
}
template<int K> void args_case(Rng & r)
{
    Cfg c = cfg<K>(r);
    bool bad = false; std::string why;
    auto b = [&](char const * n, int & f, std::vector<int> const & v) { if (r.p(1, 12)) { f = r.pick(v); bad = true; why += std::string(n) + "=" + std::to_string(f) + " "; } };
    b("N", c.N, {0, -1, INT_MIN}); b("T", c.T, {0, -1, -15}); b("maxw", c.maxw, {0, -1, INT_MIN}); b("jobs", c.jobs, {0, -2, -100}); b("tile", c.tile, {0, 1, 17, 48, 256, -16});
    if (r.p(1, 12)) { c.s = r.pick(std::vector<float>{0.5f, 0.0f, -1.0f, 0.999f, INFINITY, NAN}); bad = true; why += "s "; }
    if (r.p(1, 12)) { c.ct = r.pick(std::vector<std::string>{"", "int64", "AUTO"}); bad = true; why += "ct "; }
    if (!E<K>::clf && r.p(1, 12)) { c.loss = r.pick(std::vector<std::string>{"", "L3", "mse"}); bad = true; why += "loss "; }
    if (E<K>::clf) { if (r.p(1, 12)) { c.per = r.pick(std::vector<int>{0, -2, 1, 3, 5}); bad = true; why += "clauses "; } }
    else if (r.p(1, 12)) { c.nout = r.pick(std::vector<int>{0, -1, -10}); bad = true; why += "clauses "; }
    auto e = from_args<K>(c);
    if (bad && !e.isLeft) fail("%s: invalid arguments accepted (%s)", E<K>::name, why.c_str());
    if (!bad && e.isLeft) fail("%s: valid arguments rejected: %s", E<K>::name, e.leftValue.second.c_str());
    if (bad) return;
    auto j = E<K>::json(js<K>(c));
    if (j.isLeft) fail("%s: json of valid arguments rejected", E<K>::name);
    auto p = e.rightValue.read_params(), q = j.rightValue.read_params();
    for (auto const & [k, v] : p)
    {
        if (!q.count(k)) fail("%s: parameter %s only when made from arguments", E<K>::name, k.c_str());
        if (!(q[k] == v)) fail("%s: parameter %s differs between arguments and json", E<K>::name, k.c_str());
    }
}

// ------------------------------------------------------------ C20: counting type
template<int K> void count_case(Rng & r)
{
    Cfg c = cfg<K>(r);
    if (r.p(1, 2)) c.N = r.pick(std::vector<int>{125, 126, 127, 128, 129, 130, 255, 256, 257, 32765, 32766, 32767, 32768, 32769, 65535, 65536, 65537, INT_MAX});
    else if (r.p(1, 2)) c.N = r.in(1, 70000);
    auto e = make<K>(c, r.p(1, 2));
    int nf = r.in(1, 20);
    okfit<K>(*e, gen_rows(r, 1, nf), {E<K>::clf ? c.L - 1 : 0}, c, r.in(0, 1), false);
    auto p = e->clone_state();
    int typ = (int)p->ta_state.matrix.index();
    if (narrow(typ, c.N)) fail("%s: counting_type %s with %d states is kept in %s", E<K>::name, c.ct.c_str(), c.N, TN[typ]);
    invariants<K>(*p, c, W_BOUND, "fit");
}

// ------------------------------------------------------------ C21: number of jobs
template<int K> void jobs_case(Rng & r)
{
    Cfg c = cfg<K>(r);
    int nf = nf_small(r), n = r.in(1, 6);
    if (E<K>::clf) { c.per = 2 * r.in(1, 12); c.nout = c.per * c.L; } else c.nout = r.in(1, 60);
    auto X = gen_rows(r, n, nf); auto y = gen_y<K>(r, c, n); if (E<K>::clf) y[0] = c.L - 1;
    unsigned ep = r.in(0, 3);
    Cfg d = c; c.jobs = 1; d.jobs = r.p(1, 8) ? -1 : r.in(2, 17);
    auto a = make<K>(c), b = make<K>(d);
    okfit<K>(*a, X, y, c, ep, false); okfit<K>(*b, X, y, d, ep, false);
    if (r.p(1, 2))
    {
        auto X0 = X[0];
        Model f = read<K>(*a, c, "fit"), m = gen_model(r, X0, c.nout, f.typ, c.N);
        m.w = f.w;
        Rng r1 = r, r2 = r;
        a = inject<K>(*a, m, r1); b = inject<K>(*b, m, r2);
        okfit<K>(*a, X, y, c, 1, true); okfit<K>(*b, X, y, d, 1, true);
    }
    auto T = smps<K>(gen_rows(r, 5, nf));
    auto u = a->predict(T), v = b->predict(T);
    if (u.isLeft || v.isLeft || u.rightValue != v.rightValue) fail("%s: predictions of %d clauses differ between 1 and %d jobs", E<K>::name, c.nout, d.jobs);
    auto pa = a->clone_state(), pb = b->clone_state();
    if (!(pa->ta_state == pb->ta_state) || !(pa->igen == pb->igen) || !(pa->fgen == pb->fgen)) fail("%s: training of %d clauses differs between 1 and %d jobs", E<K>::name, c.nout, d.jobs);
}

// ------------------------------------------------------------ C22: saving and loading
template<int K> void json_case(Rng & r)
{
    Cfg c = cfg<K>(r);
    auto e = make<K>(c, r.p(1, 2));
    int nf = nf_small(r), n = r.in(1, 5);
    auto y = gen_y<K>(r, c, n); if (E<K>::clf) y[0] = c.L - 1;
    okfit<K>(*e, gen_rows(r, n, nf), y, c, r.in(0, 3), false);
    if (r.p(1, 2))
    {
        auto X0 = gen_X(r, nf);
        Model f = read<K>(*e, c, "fit"), m = gen_model(r, X0, c.nout, f.typ, c.N);
        m.w = f.w; for (auto & w : m.w) w = r.p(1, 3) ? c.maxw - 1 : r.in(0, c.maxw - 1);
        zero_padding = true; e = inject<K>(*e, m, r); zero_padding = false;
    }
    if (r.p(1, 2)) { auto p = e->predict(smps<K>(gen_rows(r, 2, nf))); (void)p; }
    auto a = e->clone_state();
    auto s = to_json_string(*a);
    typename E<K>::State b{params_t{}};
    if (r.p(1, 3))       // loading over another estimator
    {
        Cfg d = cfg<K>(r); auto o = make<K>(d); auto yo = gen_y<K>(r, d, 2); if (E<K>::clf) yo[0] = d.L - 1;
        okfit<K>(*o, gen_rows(r, 2, nf_small(r)), yo, d, 1, false);
        b = *o->clone_state();
    }
    from_json_string(b, s);
    if (a->m_params.size() != b.m_params.size()) fail("%s: %zu parameters stored, %zu loaded", E<K>::name, a->m_params.size(), b.m_params.size());
    for (auto const & [k, v] : a->m_params) { auto it = b.m_params.find(k); if (it == b.m_params.end() || !(it->second == v)) fail("%s: parameter %s not preserved", E<K>::name, k.c_str()); }
    if (a->ta_state.matrix.index() != b.ta_state.matrix.index()) fail("%s: counting type not preserved", E<K>::name);
    Model m = read<K>(*a, c, "saved"), q = read<K>(b, c, "loaded");
    if (m.nf != q.nf || m.st != q.st) fail("%s: states not preserved", E<K>::name);
    if (m.w != q.w) fail("%s: weights not preserved", E<K>::name);
    check_pol(b.ta_state, q, "loaded estimator");
    if (!::equal(*a, b)) fail("%s: loaded estimator differs from the saved one (%s)", E<K>::name, js<K>(c).c_str());
    typename E<K>::Est f(b);
    auto X = gen_rows(r, 5, nf); auto S = smps<K>(X);
    auto u = e->predict(S), v = f.predict(S);
    if (u.isLeft || v.isLeft || u.rightValue != v.rightValue) fail("%s: the loaded estimator predicts differently", E<K>::name);
    auto yy = gen_y<K>(r, c, 5);
    unsigned ep = r.in(1, 2);
    okfit<K>(*e, X, yy, c, ep, true); okfit<K>(f, X, yy, c, ep, true);
    auto pa = e->clone_state(), pb = f.clone_state();
    if (!::equal(*pa, *pb)) fail("%s: the loaded estimator continues training differently (%s)", E<K>::name, js<K>(c).c_str());
    if (to_json_string(*pa) != to_json_string(*pb)) fail("%s: stored forms differ after continued training", E<K>::name);
}

// ------------------------------------------------------------ C16: loss functions
void loss_case(Rng & r)
{
    auto name = r.pick(LOSSES); float C1 = r.p(1, 4) ? 0.0f : r.p(1, 4) ? 1.0f : (float)r.unit();
    auto f = make_loss_fn(loss_fn_name_t{name}, loss_fn_C1_t{C1});
    if (f(0.0f) != 0.0f) fail("%s(C1=%g): loss of 0 is %g", name.c_str(), C1, f(0.0f));
    for (int i = 0; i < 40; ++i)
    {
        float x = r.p(1, 5) ? C1 * (1 + (float)(r.unit() - 0.5) * 0.01f) : (float)r.unit() * (r.p(1, 4) ? 10.0f : 1.0f), y = x * (1 + (float)r.unit() * 0.5f);
        double v = f(x), w = f(y);
        if (v != f(-x)) fail("%s(C1=%g): loss of %g is %g, of %g is %g", name.c_str(), C1, x, v, -x, f(-x));
        if (v < 0 || v != v) fail("%s(C1=%g): loss of %g is %g", name.c_str(), C1, x, v);
        if (w < v - 1e-5 * (1 + v)) fail("%s(C1=%g): loss decreases from %g at %g to %g at %g", name.c_str(), C1, v, x, w, y);
        double X = x, exp = name == "MAE" || name == "L1" ? X : name == "MSE" || name == "L2" ? X * X : name == "L1+2" ? C1 * X + (1 - (double)C1) * X * X : X <= C1 ? X : X * X - ((double)C1 * C1 - C1);
        if (std::fabs(v - exp) > 1e-4 * (1 + exp)) fail("%s(C1=%g): loss of %g is %g, expected %g", name.c_str(), C1, x, v, exp);
        if (x <= 1 && v > 2.0) fail("%s(C1=%g): loss of %g is %g, above 2", name.c_str(), C1, x, v);
    }
}

template<template<int> class F> std::vector<std::pair<std::string, vs::Case>> all(bool clf = true, bool reg = true)
{
    std::vector<std::pair<std::string, vs::Case>> o;
    if (clf) { o.push_back({"api-classifier", [](Rng & r){ F<0>()(r); }}); o.push_back({"api-classifier-bitwise", [](Rng & r){ F<1>()(r); }}); }
    if (reg) { o.push_back({"api-regressor", [](Rng & r){ F<2>()(r); }}); o.push_back({"api-regressor-bitwise", [](Rng & r){ F<3>()(r); }}); }
    return o;
}
#define FN(name, ...) template<int K> struct name { void operator()(Rng & r) const { __VA_ARGS__; } };
FN(FPredict, predict_case<K>(r))
FN(FStep, step_case<K>(r))
FN(FOpp, opposite_case<K>(r))
FN(FBound, train_case<K>(r, W_BOUND))
FN(FPol, train_case<K>(r, W_POL))
FN(FWeight, train_case<K>(r, W_WEIGHT))
FN(FValid, valid_case<K>(r))
FN(FInit, init_case<K>(r))
FN(FParams, params_case<K>(r))
FN(FArgs, args_case<K>(r))
FN(FCount, count_case<K>(r))
FN(FJobs, jobs_case<K>(r))
FN(FJson, json_case<K>(r))

template<typename V> V operator+(V a, V const & b) { a.insert(a.end(), b.begin(), b.end()); return a; }

}  // namespace

int main(int argc, char ** argv)
{
    vs::Table t;
    t["C01"] = all<FPredict>();
    t["C02"] = all<FStep>();
    t["C03"] = all<FPredict>(true, false) + all<FStep>(true, false);
    t["C04"] = all<FPredict>(false, true) + all<FStep>(false, true);
    t["C05"] = all<FBound>();
    t["C06"] = all<FStep>();
    t["C07"] = {{"api-classifier-bitwise", [](Rng & r){ train_case<1>(r, W_POL); }}, {"api-regressor-bitwise", [](Rng & r){ train_case<3>(r, W_POL); }}};
    t["C08"] = all<FWeight>() + all<FStep>();
    t["C09"] = all<FStep>(true, false);
    t["C10"] = all<FStep>(false, true);
    t["C11"] = all<FOpp>(true, false);
    t["C12"] = all<FValid>();
    t["C13"] = all<FInit>();
    t["C14"] = all<FParams>() + all<FArgs>();
    t["C16"] = {{"loss", loss_case}};
    t["C19"] = all<FPredict>();
    t["C20"] = all<FCount>() + all<FBound>();
    t["C21"] = all<FJobs>();
    t["C22"] = all<FJson>();
    return vs::main_(argc, argv, t);
}
