// LIB: ta_state box_muller_approx
// Bounded search over the algorithm headers: independent oracles for single
// calls of the real functions, on random inputs.  Used to turn a failed proof
// obligation into a concrete failing input.
#include "tsetlini_algo_common.hpp"
#include "frand_cache.hpp"
#include "box_muller.hpp"
#include "coin_tosser.hpp"
#include "model.hpp"

namespace {

template<typename TA> void eval_case(Rng & r, bool pruning, bool bitwise)
{
    int nf = pick_nf(r), nout = r.in(1, 9), typ = r.in(0, 2), N = pick_N(r, typ), tile = pick_tile(r), jobs = r.in(1, 3);
    auto X = gen_X(r, nf);
    Model m = gen_model(r, X, nout, typ, N);
    typename TA::value_type ta; mk(ta, m, r);
    aligned_vector_char out(nout);
    for (auto & c : out) c = 77;
    int b = 0, e = nout;
    if (!pruning) { b = r.in(0, nout); e = r.in(b, nout); }
    else e = r.p(1, 3) ? r.in(0, nout) : nout;
    auto run = [&](auto const & x)
    {
        if (pruning) calculate_clause_output_with_pruning(x, out, number_of_estimator_clause_outputs_t{e}, ta, number_of_jobs_t{jobs}, clause_output_tile_size_t{tile});
        else calculate_clause_output(x, out, b, e, ta, number_of_jobs_t{jobs}, clause_output_tile_size_t{tile});
    };
    if constexpr (std::is_same_v<TA, TAState>) run(xs(X, {})); else run(xb(X, r));
    for (int j = 0; j < nout; ++j)
    {
        int want = (j >= b && j < e) ? ref_out(m, X, j, pruning) : 77;
        if (out[j] != want)
            fail("%s %s clause %d of [%d,%d): output %d, expected %d (features=%d, tile=%d, jobs=%d, %s states)", bitwise ? "bitwise" : "classic",
                pruning ? "inference" : "training", j, b, e, out[j], want, nf, tile, jobs, TN[typ]);
    }
}
// overloads writing the outputs as bits
void eval_bits(Rng & r)
{
    int nf = pick_nf(r), nout = r.in(1, 70), typ = r.in(0, 2), N = pick_N(r, typ), jobs = 1;
    auto X = gen_X(r, nf);
    Model m = gen_model(r, X, nout, typ, N);
    TAStateWithPolarity::value_type ta; mk(ta, m, r);
    bit_vector_uint64 out(nout);
    std::vector<int> before(nout);
    for (int j = 0; j < nout; ++j) { before[j] = r.p(1, 2); out.assign(j, before[j]); }
    int b = r.in(0, nout), e = r.in(b, nout);
    auto x = xb(X, r);
    int tile = r.in(0, 3);
    switch (tile)
    {
        case 0: calculate_clause_output_T<16>(x, out, b, e, ta, number_of_jobs_t{jobs}); break;
        case 1: calculate_clause_output_T<32>(x, out, b, e, ta, number_of_jobs_t{jobs}); break;
        case 2: calculate_clause_output_T<64>(x, out, b, e, ta, number_of_jobs_t{jobs}); break;
        default: calculate_clause_output_T<128>(x, out, b, e, ta, number_of_jobs_t{jobs});
    }
    for (int j = 0; j < nout; ++j)
    {
        int want = (j >= b && j < e) ? ref_out(m, X, j, false) : before[j];
        if ((int)out[j] != want) fail("bitwise training, bit outputs: clause %d of [%d,%d): output %d, expected %d (features=%d)", j, b, e, (int)out[j], want, nf);
    }
}

unsigned gen_w(Rng & r) { switch (r.in(0, 5)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 0x7fffffffu - r.in(0, 2); case 3: return (unsigned)r.u64(); default: return r.in(0, 20); } }
int gen_T(Rng & r) { switch (r.in(0, 3)) { case 0: return 1; case 1: return 0x7fffffff; case 2: return r.in(1, 30); default: return r.in(1, 0x7fffffff); } }

void votes_case(Rng & r)
{
    int labels = r.in(1, 6), per = 2 * r.in(1, 8), T = gen_T(r);
    bool wt = r.p(1, 2);
    aligned_vector_char out(labels * per); w_vector_type w(wt ? labels * per : 0);
    for (auto & o : out) o = r.p(1, 2);
    bool small = r.p(1, 2);
    for (auto & x : w) x = small ? r.in(0, 5) : gen_w(r);
    aligned_vector_int sums(labels);
    for (auto & s : sums) s = -12345;
    bool all = r.p(1, 2); int lab = r.in(0, labels - 1);
    if (all) sum_up_all_label_votes(out, w, sums, number_of_labels_t{labels}, number_of_classifier_clause_outputs_per_label_t{per}, threshold_t{T});
    else sum_up_label_votes(out, w, sums, lab, number_of_classifier_clause_outputs_per_label_t{per}, threshold_t{T});
    for (int l = 0; l < labels; ++l)
    {
        __int128 s = 0;
        for (int i = 0; i < per; ++i) { __int128 t = out[l * per + i] ? (wt ? (__int128)w[l * per + i] + 1 : 1) : 0; s += i % 2 ? -t : t; }
        __int128 want = s > T ? T : s < -T ? -T : s;
        if (!all && l != lab) want = -12345;
        if (sums[l] != (long)want) fail("votes of class %d are %d, expected %ld (labels=%d per=%d T=%d weighted=%d)", l, sums[l], (long)want, labels, per, T, wt);
    }
}
void regr_votes_case(Rng & r)
{
    int n = r.in(1, 40), T = gen_T(r); bool wt = r.p(1, 2);
    aligned_vector_char out(n); w_vector_type w(wt ? n : 0);
    for (auto & o : out) o = r.p(1, 2);
    bool small = r.p(1, 2);
    for (auto & x : w) x = small ? r.in(0, 5) : gen_w(r);
    __int128 s = 0;
    for (int i = 0; i < n; ++i) s += out[i] ? (wt ? (__int128)w[i] + 1 : 1) : 0;
    long want = s > T ? T : (long)s;
    int got = sum_up_regressor_votes(out, threshold_t{T}, w);
    if (got != want) fail("regressor response %d, expected %ld (clauses=%d T=%d weighted=%d)", got, want, n, T, wt);
}

template<typename TA> void train_case(Rng & r, int want, bool regressor)
{
    constexpr bool bw = std::is_same_v<TA, TAStateWithPolarity>;
    int nf = r.p(1, 30) ? pick_nf(r) : r.in(1, 200), nout = r.in(1, 6), typ = r.in(0, 2), N = pick_N(r, typ);
    auto X = gen_X(r, nf);
    Model m = gen_model(r, X, nout, typ, N);
    int maxw = r.p(1, 3) ? 0x7fffffff : r.in(1, 8);
    if (r.p(1, 2)) { m.w.resize(nout); for (auto & w : m.w) w = r.p(1, 2) ? maxw - 1 : r.in(0, maxw - 1); }
    typename TA::value_type ta; mk(ta, m, r);
    float s = r.p(1, 4) ? 1.0f : r.p(1, 3) ? 1.0f + 0.01f * r.in(0, 100) : (float)r.in(1, 20);
    EstimatorStateCacheBase::coin_tosser_type ct(1.0f / s, nf);
    IRNG prng((int)r.u64());
    vs::spice(prng, r); for (int i = r.in(0, 50); i; --i) prng();
    bool boost = r.p(1, 2);
    std::vector<int> outs(nout), fb(nout);
    aligned_vector_char co(nout); feedback_vector_type fv(nout);
    for (int j = 0; j < nout; ++j) { outs[j] = co[j] = r.p(1, 2); fb[j] = fv[j] = r.in(-1, 1); }
    int b = r.in(0, nout - 1), e = r.p(1, 2) ? b + 1 : r.in(b, nout);
    auto run = [&](auto const & x, int err, int T, float P, bool bm)
    {
        if (!regressor) train_classifier_automata(ta, b, e, fv.data(), co.data(), number_of_states_t{N}, x, max_weight_t{maxw}, boost_tpf_t{boost}, prng, ct);
        else
        {
            loss_fn_type lf = [P](float){ return P; };
            train_regressor_automata(ta, b, e, co.data(), number_of_states_t{N}, response_error_t{err}, x, max_weight_t{maxw}, lf, box_muller_flag_t{bm}, boost_tpf_t{boost}, prng, threshold_t{T}, ct);
        }
    };
    int T = r.in(1, 100), err = 0; float P = 0; bool bm = false;
    if (regressor)
    {
        if (b == e) e = b + 1;
        err = r.in(-T, T); P = r.p(1, 4) ? 1.0f : r.p(1, 4) ? 0.0f : (float)r.unit(); bm = false;
    }
    if constexpr (bw) run(xb(X, r), err, T, P, bm); else run(xs(X, {}), err, T, P, bm);
    Model a = get(ta, m);
    char const * what = regressor ? (bw ? "bitwise regressor update" : "regressor update") : (bw ? "bitwise classifier update" : "classifier update");
    bool single = e - b == 1;
    unsigned hits = ct.m_hits_floor + 1;
    if (!regressor)
    {
        bool tossed = single && fb[b] > 0 && (outs[b] || !bw);
        for (int j = 0; j < nout; ++j)
            check_clause(m, a, j, X, j >= b && j < e ? fb[j] : 0, outs[j], boost, maxw, tossed && j == b ? ct.m_cache1.data() : nullptr, tossed && j == b ? ct.m_cache2.data() : nullptr, hits, bw, want, what);
    }
    else
    {
        int type = err < 0 ? 1 : err > 0 ? -1 : 0;
        if (single)
        {
            bool certain = P >= 0.5f;          // exactly one pick
            bool tossed = certain && type > 0 && (outs[b] || !bw);
            if (certain || type == 0 || P == 0.0f)
            {
                for (int j = 0; j < nout; ++j)
                    check_clause(m, a, j, X, j == b && certain ? type : 0, outs[j], boost, maxw, tossed && j == b ? ct.m_cache1.data() : nullptr, tossed && j == b ? ct.m_cache2.data() : nullptr, hits, bw, want, what);
            }
        }
        long n = e - b; double lim = std::ceil(n * (double)P + 0.5); if (lim > n) lim = n;
        check_regr(m, a, X, outs, b, e, type, lim, bw, maxw, want, what);
    }
    if (want & W_POL) check_pol(ta, a, what);
    if ((want & W_WEIGHT) && !a.w.empty()) for (auto w : a.w) if (w > (unsigned)maxw - 1) fail("%s: weight %u above %d - 1", what, w, maxw);
}

// ------------------------------------------------------------ feedback allocation
void feedback_case(Rng & r)
{
    int labels = r.in(2, 5), per = 2 * r.in(1, 6), T = r.p(1, 4) ? 0x3fffffff : r.in(1, 50);
    int t = r.in(0, labels - 1), o = (t + r.in(1, labels - 1)) % labels;
    int tv = r.in(-T, T), ov = r.in(-T, T);
    if (r.p(1, 4)) tv = r.p(1, 2) ? T : -T;
    if (r.p(1, 4)) ov = r.p(1, 2) ? T : -T;
    bool exact = r.p(1, 4);   // a power of two: the probabilities are exact, so draws can equal them
    if (exact) { T = 1 << r.in(0, 20); tv = r.in(-T, T); ov = r.p(1, 3) ? -T + 1 : r.in(-T, T); }
    feedback_vector_type fb(labels * per);
    for (auto & f : fb) f = 55;
    frand_cache<> fc(2 * per);
    float c = r.p(1, 4) ? 1.0f : r.p(1, 5) ? 1e-9f : (float)r.unit();
    bool constant = exact || r.p(2, 3);
    if (exact)
    {
        float q = r.p(1, 2) ? ((float)T - tv) / (2.0f * T) : ((float)T + ov) / (2.0f * T);
        if (q > 0) c = q;
    }
    for (auto & f : fc.m_fcache) f = constant ? c : (float)r.unit();
    fc.m_pos = 0;
    calculate_classifier_feedback_to_clauses(fb, t, o, tv, ov, number_of_classifier_clause_outputs_per_label_t{per}, threshold_t{T}, fc);
    if (fc.m_pos > (unsigned)(2 * per)) fail("feedback: %u random numbers consumed, %d available", fc.m_pos, 2 * per);
    double pt = ((double)T - tv) / (2.0 * T), po = ((double)T + ov) / (2.0 * T);
    for (int i = 0; i < labels * per; ++i)
    {
        int l = i / per, even = i % 2 == 0, f = fb[i];
        if (l != t && l != o) { if (f) fail("feedback %d to clause %d of an uninvolved class %d", f, i, l); continue; }
        int kind = (l == t) == (bool)even ? 1 : -1;
        if (f != 0 && f != kind) fail("feedback %d to clause %d of class %d (target %d, opposite %d), only %d or 0 allowed", f, i, l, t, o, kind);
        if (constant)
        {
            double p = l == t ? pt : po;
            if (std::fabs(c - p) > 1e-5 || (exact && c == p)) { int want = c <= p ? kind : 0; if (f != want) fail("feedback %d to clause %d of class %d, expected %d: random %g, probability %g (T=%d votes=%d)", f, i, l, want, c, p, T, l == t ? tv : ov); }
        }
    }
}

// ------------------------------------------------------------ coin tosser, PRNG, containers
void tosser_case(Rng & r)
{
    int n = pick_nf(r); float s = r.p(1, 5) ? 1.0f : 1.0f + (float)(r.unit() * r.in(1, 40));
    CoinTosserExact ct(1.0f / s, n);
    IRNG prng((int)r.u64()); vs::spice(prng, r);
    double x = (double)n * (double)(1.0f / s);
    for (int it = 0; it < 3; ++it)
    {
        bool first = r.p(1, 2);
        char const * p = first ? ct.tosses1(prng) : ct.tosses2(prng);
        long ones = 0;
        for (int i = 0; i < n; ++i) { if (p[i] != 0 && p[i] != 1) fail("coin %d is %d", i, p[i]); ones += p[i]; }
        if (ones < std::floor(x - 1e-4 * (1 + x * 1e-2)) || ones > std::ceil(x + 1e-4 * (1 + x * 1e-2))) fail("%ld of %d coins set, expected %g", ones, n, x);
        unsigned h = ct.estimate_hits(prng);
        if (h < std::floor(x - 1e-4 * (1 + x * 1e-2)) || h > std::ceil(x + 1e-4 * (1 + x * 1e-2)) || h > (unsigned)n) fail("estimate_hits %u, expected about %g of %d", h, x, n);
    }
    if (r.p(1, 8))
    {
        // unbiased: the mean number of hits is n / s
        prng = IRNG((int)r.u64());
        int K = 4000; double sum = 0;
        for (int i = 0; i < K; ++i) sum += ct.estimate_hits(prng);
        double sd = 0.5 / std::sqrt((double)K);
        if (std::fabs(sum / K - x) > 8 * sd + 1e-3 * x) fail("mean number of hits %g, expected %g", sum / K, x);
    }
}
void prng_case(Rng & r)
{
    int seed = (int)r.u64();
    IRNG a(seed), b(seed); FRNG f(seed), g(seed);
    int n = r.p(1, 3) ? r.in(4980, 5200) : r.in(1, 100);
    for (int i = 0; i < n; ++i)
    {
        unsigned x = a(), y = b();
        if (x != y) fail("two generators seeded %d differ at draw %d", seed, i);
        float u = f(), v = g();
        if (u != v) fail("two float generators seeded %d differ at draw %d", seed, i);
        if (!(u >= 0.0f && u <= 1.0f)) fail("float draw %d is %g", i, u);
        if (a.index >= 624 * 8 || f.index >= 624 * 8) fail("index %u out of the buffer after draw %d", a.index, i);
    }
    IRNG c(seed + 1); c = a; IRNG d(a);
    if (!(c == a) || !(d == a)) fail("copy of the generator differs");
    for (int i = 0; i < 20; ++i) { unsigned x = a(); if (x != c() || x != d()) fail("copy of the generator diverges at draw %d", i); }
    for (int i = 0; i < 20; ++i)
    {
        unsigned m = r.p(1, 3) ? 1 : (unsigned)r.u64() | 1; unsigned v = a.next(m);
        if (v >= m) fail("next(%u) = %u", m, v);
        int lo = r.in(-1000, 1000), hi = r.in(lo, lo + 1000); int w = (int)a.next(lo, hi);
        if (w < lo || w > hi) fail("next(%d, %d) = %d", lo, hi, w);
    }
    a.init(seed); b.init(seed);
    IRNG fresh(seed);
    for (int i = 0; i < 10; ++i) { unsigned x = a(); if (x != b() || x != fresh()) fail("re-initialised generator differs from a fresh one, seed %d draw %d", seed, i); }
    // not stuck
    IRNG q(seed); unsigned first = q(); bool var = false; for (int i = 0; i < 64; ++i) var |= q() != first;
    if (!var) fail("generator seeded %d returns a constant", seed);
}
template<typename B> void bits_case(Rng & r)
{
    constexpr int BB = sizeof (B) * 8;
    int n = r.p(1, 2) ? r.in(1, 200) : BB * r.in(1, 6) + r.in(-1, 1);
    if (n < 1) n = 1;
    basic_bit_vector<B> v(n); std::vector<int> o(n, 0);
    if ((int)v.size() != n || (int)v.content_blocks() != (n + BB - 1) / BB || (int)v.tail_bits() != n % BB) fail("bit_vector(%d): size/blocks/tail wrong", n);
    for (int it = 0; it < 60; ++it)
    {
        int k = r.p(1, 4) ? n - 1 : r.in(0, n - 1); bool b = r.p(1, 2);
        switch (r.in(0, 4)) { case 0: v.set(k); o[k] = 1; break; case 1: v.clear(k); o[k] = 0; break; case 2: v.flip(k); o[k] ^= 1; break; case 3: v.assign(k, b); o[k] = b; break; default: v.XOR(k, b); o[k] ^= b; }
        if (it % 10 == 9 || it < 3) for (int i = 0; i < n; ++i) if ((int)v[i] != o[i]) fail("bit_vector<%d>(%d): bit %d is %d, expected %d", BB, n, i, (int)v[i], o[i]);
    }
    int R = r.in(1, 6);
    basic_bit_matrix<B> m(R, n); std::vector<std::vector<int>> q(R, std::vector<int>(n, 0));
    if ((int)m.rows() != R || (int)m.cols() != n || (int)(m.row_blocks() * BB) < n) fail("bit_matrix(%d,%d): shape wrong", R, n);
    for (int it = 0; it < 60; ++it)
    {
        int i = r.in(0, R - 1), k = r.p(1, 4) ? n - 1 : r.in(0, n - 1);
        switch (r.in(0, 5))
        {
            case 0: m.set(i, k); q[i][k] = 1; break; case 1: m.clear(i, k); q[i][k] = 0; break; case 2: m.flip(i, k); q[i][k] ^= 1; break;
            case 3: m.row(i).set(k); q[i][k] = 1; break; case 4: m.row(i).clear(k); q[i][k] = 0; break; default: m[i].flip(k); q[i][k] ^= 1;
        }
    }
    for (int i = 0; i < R; ++i)
    {
        if ((std::size_t)m.row_data(i) % 64) fail("bit_matrix row %d not aligned", i);
        if ((int)m.row(i).content_blocks() != (n + BB - 1) / BB || (int)m.row(i).tail_bits() != n % BB) fail("bit_view geometry");
        for (int k = 0; k < n; ++k) if ((int)m.test(i, k) != q[i][k] || (int)m.row(i)[k] != q[i][k] || (int)m[{i, k}] != q[i][k]) fail("bit_matrix<%d> (%d,%d): wrong bit", BB, i, k);
    }
    basic_bit_matrix<B> c(m), d; d = m;
    if (!(c == m) || !(d == m)) fail("copies of a bit_matrix differ");
    basic_bit_matrix<B> e(std::move(c)); if (!(e == m)) fail("moved bit_matrix differs");
    d = std::move(e); if (!(d == m)) fail("move-assigned bit_matrix differs");
    m.flip(R - 1, n - 1); if (d == m) fail("bit_matrix equality ignores a bit");
}
template<typename T> void num_case(Rng & r)
{
    int R = r.in(1, 8), n = r.p(1, 2) ? r.in(1, 70) : 64 * r.in(1, 3) + r.in(-1, 1);
    basic_numeric_matrix<T> m(R, n);
    std::vector<std::vector<T>> q(R, std::vector<T>(n, 0));
    if ((int)m.rows() != R || (int)m.cols() != n || (int)m.row_items() < n) fail("numeric_matrix(%d,%d): shape wrong", R, n);
    for (int it = 0; it < 40; ++it) { int i = r.in(0, R - 1), k = r.p(1, 3) ? n - 1 : r.in(0, n - 1); T v = (T)r.u64(); m.row_data(i)[k] = v; q[i][k] = v; }
    for (int i = 0; i < R; ++i)
    {
        if ((std::size_t)m.row_data(i) % 64) fail("numeric_matrix row %d not aligned", i);
        for (int k = 0; k < n; ++k) if (m[{i, k}] != q[i][k]) fail("numeric_matrix (%d,%d): %ld, expected %ld", i, k, (long)m[{i, k}], (long)q[i][k]);
    }
    basic_numeric_matrix<T> c(m), d; d = m;
    if (!(c == m) || !(d == m)) fail("copies of a numeric_matrix differ");
    basic_numeric_matrix<T> e(std::move(c)); if (!(e == m)) fail("moved numeric_matrix differs");
    d = std::move(e); if (!(d == m)) fail("move-assigned numeric_matrix differs");
    m.row_data(R - 1)[n - 1] ^= 1; if (d == m) fail("numeric_matrix equality ignores an element");
}
// init of the automata
template<typename TA> void init_case(Rng & r)
{
    int nout = r.in(1, 6), nf = r.in(1, 150); bool w = r.p(1, 2);
    typename TA::value_type v; IRNG g((int)r.u64()); vs::spice(g, r);
    static char const * const names[] = {"int8", "int16", "int32"};
    int ty = r.in(0, 2);
    if (r.p(1, 2)) { TA::initialize(v, counting_type_t{names[r.in(0, 2)]}, number_of_physical_estimator_clauses_t{2 * r.in(1, 6)}, number_of_estimator_clause_outputs_t{r.in(1, 6)}, number_of_features_t{r.in(1, 150)}, weighted_flag_t{w}, g); for (auto & x : v.weights) x = r.in(1, 9); }
    TA::initialize(v, counting_type_t{names[ty]}, number_of_physical_estimator_clauses_t{2 * nout}, number_of_estimator_clause_outputs_t{nout}, number_of_features_t{nf}, weighted_flag_t{w}, g);
    int idx = (int)v.matrix.index();
    if (idx != 2 - ty) fail("initialize(%s): variant alternative %d", names[ty], idx);
    Model m; m.nf = nf; m.nout = nout; m.st.assign(2 * nout, std::vector<long>(nf));
    std::visit([&](auto & mx){ if ((int)mx.rows() != 2 * nout || (int)mx.cols() != nf) fail("initialize: shape %ux%u, expected %dx%d", mx.rows(), mx.cols(), 2 * nout, nf);
        for (int i = 0; i < 2 * nout; ++i) for (int k = 0; k < nf; ++k) { long s = mx.row_data(i)[k]; m.st[i][k] = s; if (s != 0 && s != -1) fail("initialize: state (%d,%d) is %ld", i, k, s); } }, v.matrix);
    check_pol(v, m, "initialize");
    if (w) { if ((int)v.weights.size() != nout) fail("initialize: %zu weights, expected %d", v.weights.size(), nout); for (auto x : v.weights) if (x) fail("initialize: stale weight %u", x); }
}
void binomial_case(Rng & r)
{
    FRNG g((int)r.u64()); vs::spice(g, r);
    unsigned n = r.p(1, 4) ? 1 : r.in(0, 2000); float p = r.p(1, 4) ? 1.0f : r.p(1, 4) ? 0.0f : (float)r.unit();
    for (int i = 0; i < 20; ++i) { unsigned v = binomial(n, p, g); if (v > n) fail("binomial(%u, %g) = %u", n, p, v); if (p == 0 && v) fail("binomial(%u, 0) = %u", n, v); if (p == 1 && v != n) fail("binomial(%u, 1) = %u", n, v); }
}

}  // namespace

int main(int argc, char ** argv)
{
    vs::Table t;
    t["C01"] = {{"classic", [](Rng & r){ eval_case<TAState>(r, true, false); }}, {"bitwise", [](Rng & r){ eval_case<TAStateWithPolarity>(r, true, true); }}};
    t["C02"] = {{"classic", [](Rng & r){ eval_case<TAState>(r, false, false); }}, {"bitwise", [](Rng & r){ eval_case<TAStateWithPolarity>(r, false, true); }}, {"bits", eval_bits}};
    t["C03"] = {{"votes", votes_case}};
    t["C04"] = {{"response", regr_votes_case}};
    auto tr = [&](char const * p, int want, bool reg) { return std::vector<std::pair<std::string, vs::Case>>{
        {"classic", [=](Rng & r){ train_case<TAState>(r, want, false); }}, {"bitwise", [=](Rng & r){ train_case<TAStateWithPolarity>(r, want, false); }},
        {"classic-regressor", [=](Rng & r){ train_case<TAState>(r, want, true); }}, {"bitwise-regressor", [=](Rng & r){ train_case<TAStateWithPolarity>(r, want, true); }}}; };
    t["C05"] = tr("C05", W_BOUND, false);
    t["C06"] = tr("C06", W_STATE, false);
    t["C07"] = tr("C07", W_POL, false);
    t["C07"].push_back({"initialize", init_case<TAStateWithPolarity>});
    t["C08"] = tr("C08", W_WEIGHT, false);
    t["C09"] = {{"feedback", feedback_case}};
    t["C10"] = {{"classic-regressor", [](Rng & r){ train_case<TAState>(r, W_STATE | W_WEIGHT, true); }}, {"bitwise-regressor", [](Rng & r){ train_case<TAStateWithPolarity>(r, W_STATE | W_WEIGHT | W_POL, true); }}};
    t["C13"] = {{"classic", init_case<TAState>}, {"bitwise", init_case<TAStateWithPolarity>}};
    t["C15"] = {{"tosser", tosser_case}};
    t["C17"] = {{"prng", prng_case}};
    t["C18"] = {{"bits64", bits_case<std::uint64_t>}, {"bits8", bits_case<std::uint8_t>}, {"bits16", bits_case<std::uint16_t>}, {"bits32", bits_case<std::uint32_t>},
        {"num32", num_case<std::int32_t>}, {"num16", num_case<std::int16_t>}, {"num8", num_case<std::int8_t>}};
    t["C23"] = {{"binomial", binomial_case}};
    return vs::main_(argc, argv, t);
}
