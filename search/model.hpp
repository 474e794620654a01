// Random machines and the textbook semantics they are checked against.
#pragma once
#include "ta_state.hpp"
#include "tsetlini_types.hpp"
#include "common.hpp"
#include <cmath>
#include <numeric>
#include <climits>
using namespace Tsetlini;
using vs::Rng; using vs::fail;

namespace {

int pick_nf(Rng & r)
{
    if (r.p(1, 2)) return r.in(1, 40);
    static std::vector<int> const b{16, 32, 64, 128, 192, 256, 48, 96, 512, 1024};
    int x = r.pick(b) + r.in(-2, 2);
    if (r.p(1, 40)) x = r.pick(std::vector<int>{16, 32, 64, 128}) * 64 + r.in(-70, 70) ;
    return x < 1 ? 1 : x;
}
int pick_tile(Rng & r) { return r.pick(std::vector<int>{16, 32, 64, 128, 16, 32, 64, 128, 0, 1, 17, 100, 129, -5}); }
int pick_N(Rng & r, int typ)
{
    int mx = typ == 2 ? 128 : typ == 1 ? 32768 : 0x40000000;
    switch (r.in(0, 4)) { case 0: return 1; case 1: return 2; case 2: return mx; case 3: return mx - 1 > 0 ? r.in(1, mx) : 1; default: return r.in(1, 10); }
}
char const * const TN[] = {"int32", "int16", "int8"};

TAState::matrix_variant_type dummy_;

// a clause description: states of the two rows
struct Model
{
    int nf, nout, typ, N;
    std::vector<std::vector<long>> st;      // 2*nout rows
    std::vector<unsigned> w;
};

bool zero_padding = false;   // an estimator saved and loaded again has zeros there
template<typename M> void put(M & m, Model const & md, Rng & r)
{
    for (unsigned i = 0; i < m.rows(); ++i)
    {
        for (unsigned k = 0; k < m.row_items(); ++k)
            m.row_data(i)[k] = k < (unsigned)md.nf ? md.st[i][k] : (zero_padding || r.p(1, 2) ? 0 : -1);   // padding holds arbitrary values
    }
}
template<typename V> void put_states(V & v, Model const & md, Rng & r)
{
    if (md.typ == 0) v.matrix = numeric_matrix_int32(2 * md.nout, md.nf);
    else if (md.typ == 1) v.matrix = numeric_matrix_int16(2 * md.nout, md.nf);
    else v.matrix = numeric_matrix_int8(2 * md.nout, md.nf);
    std::visit([&](auto & m){ put(m, md, r); }, v.matrix);
    v.weights.assign(md.w.begin(), md.w.end());
}
void mk(TAState::value_type & v, Model const & md, Rng & r) { put_states(v, md, r); }
void mk(TAStateWithPolarity::value_type & v, Model const & md, Rng & r)
{
    put_states(v, md, r);
    v.polarity = bit_matrix_uint64(2 * md.nout, md.nf);
    for (int i = 0; i < 2 * md.nout; ++i)
        for (int k = 0; k < md.nf; ++k)
            if (md.st[i][k] >= 0) v.polarity.set(i, k);
}
template<typename V> Model get(V const & v, Model const & like)
{
    Model o = like;
    std::visit([&](auto const & m){ for (int i = 0; i < 2 * like.nout; ++i) for (int k = 0; k < like.nf; ++k) o.st[i][k] = m.row_data(i)[k]; }, v.matrix);
    o.w.assign(v.weights.begin(), v.weights.end());
    return o;
}
aligned_vector_char xs(std::vector<int> const & X, aligned_vector_char const &) { return aligned_vector_char(X.begin(), X.end()); }
bit_vector_uint64 xb(std::vector<int> const & X, Rng & r)
{
    bit_vector_uint64 v(X.size());
    for (std::size_t i = 0; i < X.size(); ++i) if (X[i]) v.set(i);
    (void)r;
    return v;
}

long stval(Rng & r, int N, bool inc) { long v = inc ? (r.p(1, 3) ? 0 : r.p(1, 2) ? N - 1 : r.in(0, N - 1)) : (r.p(1, 3) ? -1 : r.p(1, 2) ? -(long)N : r.in(-N, -1)); return v; }

Model gen_model(Rng & r, std::vector<int> const & X, int nout, int typ, int N)
{
    Model m; m.nf = X.size(); m.nout = nout; m.typ = typ; m.N = N;
    m.st.resize(2 * nout);
    for (int j = 0; j < nout; ++j)
    {
        auto & p = m.st[2 * j]; auto & n = m.st[2 * j + 1];
        p.resize(m.nf); n.resize(m.nf);
        int mode = r.in(0, 5);
        for (int k = 0; k < m.nf; ++k)
        {
            bool ip = false, in = false;
            switch (mode)
            {
                case 0: break;                                              // empty
                case 1: case 2: case 4: if (r.p(1, 4)) { ip = X[k]; in = !X[k]; } break;   // satisfied
                case 3: ip = X[k]; in = !X[k]; break;                       // fully satisfied
                case 5: ip = r.p(1, 3); in = r.p(1, 3); break;
            }
            p[k] = stval(r, N, ip); n[k] = stval(r, N, in);
        }
        if (mode == 2)     // one violated literal
        {
            int k = r.in(0, m.nf - 1);
            if (r.p(1, 2)) k = m.nf - 1 - (k % (m.nf < 20 ? m.nf : 20));
            (X[k] ? n : p)[k] = stval(r, N, true);
        }
        if (mode == 4)     // only one literal, satisfied
        {
            for (int k = 0; k < m.nf; ++k) { p[k] = stval(r, N, false); n[k] = stval(r, N, false); }
            int k = r.p(1, 2) ? m.nf - 1 : r.in(0, m.nf - 1);
            (X[k] ? p : n)[k] = stval(r, N, true);
        }
    }
    return m;
}
std::vector<int> gen_X(Rng & r, int nf)
{
    std::vector<int> X(nf); int d = r.in(0, 4);
    for (auto & x : X) x = r.p(d, 4);
    return X;
}
// textbook semantics
int ref_out(Model const & m, std::vector<int> const & X, int j, bool pruning)
{
    bool any = false;
    for (int k = 0; k < m.nf; ++k)
    {
        if (m.st[2 * j][k] >= 0) { any = true; if (!X[k]) return 0; }
        if (m.st[2 * j + 1][k] >= 0) { any = true; if (X[k]) return 0; }
    }
    return any || !pruning;
}

// ------------------------------------------------------------ training
struct Step { int fb; int out; };      // feedback type and clause output of one clause

enum Want { W_STATE = 1, W_POL = 2, W_WEIGHT = 4, W_BOUND = 8 };

// checks one clause's transition; toss1/toss2 null when unknown
void check_clause(Model const & a, Model const & b, int j, std::vector<int> const & X, int type, int out, bool boost, int maxw,
    char const * t1, char const * t2, unsigned hits, bool sparse, int want, char const * what)
{
    long N = a.N;
    for (int neg = 0; neg < 2 && (want & (W_STATE | W_BOUND)); ++neg)
    {
        long decs = 0;
        for (int k = 0; k < a.nf; ++k)
        {
            long s = a.st[2 * j + neg][k], t = b.st[2 * j + neg][k];
            if ((want & W_BOUND) && (t < -N || t > N - 1)) fail("%s: clause %d %s literal %d: state %ld -> %ld leaves [%ld,%ld]", what, j, neg ? "negated" : "plain", k, s, t, -N, N - 1);
            if (!(want & W_STATE)) continue;
            int lit = neg ? !X[k] : X[k];
            char const * c = neg ? t2 : t1;
            long inc = s < N - 1 ? s + 1 : s, dec = s > -N ? s - 1 : s;
            bool ok;
            if (type == 0 || (type < 0 && !out)) ok = t == s;
            else if (type > 0 && !out)
            {
                if (sparse) { ok = t <= s && t >= -N && s - t <= (long)hits; decs += s - t; }
                else ok = c ? t == (c[k] ? dec : s) : (t == s || t == dec);
            }
            else if (type > 0)
            {
                if (lit) ok = boost ? t == inc : c ? t == (c[k] ? s : inc) : (t == s || t == inc);
                else ok = c ? t == (c[k] ? dec : s) : (t == s || t == dec);
            }
            else ok = t == (!lit && s < 0 ? s + 1 : s);
            if (!ok) fail("%s: clause %d %s literal %d: state %ld -> %ld not allowed (feature=%d feedback=%d output=%d boost=%d N=%ld)", what, j,
                neg ? "negated" : "plain", k, s, t, X[k], type, out, boost, N);
        }
        if (sparse && (want & W_STATE) && decs > (long)hits) fail("%s: clause %d: %ld decrements for %u hits", what, j, decs, hits);
    }
    if (want & W_WEIGHT)
    {
        if (a.w.size() != b.w.size()) fail("%s: weight vector resized", what);
        if (!a.w.empty())
        {
            unsigned w = a.w[j], v = b.w[j], e = w;
            if (type > 0 && out) e = w + 1ul < (unsigned long)maxw ? w + 1 : w;
            if (type < 0 && out) e = w ? w - 1 : 0;
            if (v != e) fail("%s: weight of clause %d: %u -> %u, expected %u (feedback=%d output=%d max=%d)", what, j, w, v, e, type, out, maxw);
        }
    }
}
void check_pol(TAStateWithPolarity::value_type const & ta, Model const & m, char const * what)
{
    for (int i = 0; i < 2 * m.nout; ++i)
    {
        for (int k = 0; k < m.nf; ++k)
            if ((int)ta.polarity.test(i, k) != (m.st[i][k] >= 0)) fail("%s: polarity bit (%d,%d) is %d while the state is %ld", what, i, k, (int)ta.polarity.test(i, k), m.st[i][k]);
        unsigned bits = ta.polarity.row_blocks() * 64;
        for (unsigned k = m.nf; k < bits; ++k) if (ta.polarity.test(i, k)) fail("%s: padding bit (%d,%u) of the polarity matrix set", what, i, k);
    }
}
void check_pol(TAState::value_type const &, Model const &, char const *) {}


// the effect of one regressor update on clauses [b, e): direction and total of the events
void check_regr(Model const & m, Model const & a, std::vector<int> const & X, std::vector<int> const & outs, int b, int e, int type, double lim, bool bw, int maxw, int want, char const * what)
{
    int nf = m.nf, nout = m.nout; long N = m.N;
    // picked any number of times up to the number of clauses: direction and total
    long wsum = 0;
    for (int j = 0; j < nout; ++j)
    {
        bool in = j >= b && j < e; long mx = 0;
        for (int neg = 0; neg < 2; ++neg) for (int k = 0; k < nf; ++k)
        {
            long s0 = m.st[2 * j + neg][k], t = a.st[2 * j + neg][k], d = t - s0;
            if ((want & W_BOUND) && (t < -N || t > N - 1)) fail("%s: clause %d literal %d: state %ld -> %ld out of range, N=%ld", what, j, k, s0, t, N);
            if (!(want & W_STATE)) continue;
            int lit = neg ? !X[k] : X[k];
            if (!in || type == 0) { if (d) fail("%s: clause %d outside the update changed (%ld -> %ld)", what, j, s0, t); continue; }
            if (type > 0 && !outs[j] && d > 0) fail("%s: silent clause %d: literal %d strengthened %ld -> %ld by Type I", what, j, k, s0, t);
            if (type > 0 && outs[j] && (lit ? d < 0 : d > 0)) fail("%s: clause %d literal %d (value %d): %ld -> %ld by Type I", what, j, k, lit, s0, t);
            if (type < 0 && (!outs[j] || lit) && d) fail("%s: clause %d literal %d (value %d, output %d): %ld -> %ld by Type II", what, j, k, lit, outs[j], s0, t);
            if (type < 0 && outs[j] && !lit && (d < 0 || (s0 >= 0 && d) || t > (s0 > 0 ? s0 : 0))) fail("%s: clause %d literal %d: %ld -> %ld by Type II", what, j, k, s0, t);
            if (!(bw && type > 0 && !outs[j]) && (d < 0 ? -d : d) > mx) mx = d < 0 ? -d : d;
        }
        if ((want & W_STATE) && mx > lim) fail("%s: clause %d received %ld updates, at most %g allowed", what, j, mx, lim);
        if (!m.w.empty() && (want & W_WEIGHT))
        {
            long d = (long)a.w[j] - (long)m.w[j];
            if ((!in || type == 0 || !outs[j]) && d) fail("%s: weight of clause %d changed by %ld (in=%d type=%d out=%d)", what, j, d, in, type, outs[j]);
            if (type > 0 ? d < 0 : d > 0) fail("%s: weight of clause %d moved the wrong way", what, j);
            if (a.w[j] > (unsigned)maxw - 1) fail("%s: weight %u of clause %d above the maximum %d - 1", what, a.w[j], j, maxw);
            wsum += d < 0 ? -d : d;
        }
    }
    if (wsum > lim) fail("%s: %ld weight updates, at most %g picks", what, wsum, lim);
}

}
