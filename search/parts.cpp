// LIB: box_muller_approx
// Bounded search on the building blocks: containers (C18), coin tosser (C15),
// random generators (C17), binomial draws (C23), against plain models.
#include "tsetlini_types.hpp"
#include "basic_bit_vector_companion.hpp"
#include "coin_tosser_exact.hpp"
#include "box_muller_approx.hpp"
#include "frand_cache.hpp"
#include "mt.hpp"
#include "common.hpp"
#include <cmath>
#include <climits>
#include <set>
using namespace Tsetlini;
using namespace vs;
namespace bm_exact {
#include "box_muller.hpp"
}

namespace {
std::vector<int> const SZ{1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600};
int sz(Rng & r) { return r.p(1, 2) ? r.pick(SZ) : r.in(1, 300); }

template<typename M> void numeric_case(Rng & r)
{
    int R = r.in(1, 9), C = sz(r);
    M m(R, C);
    if ((int)m.rows() != R || (int)m.cols() != C || m.shape() != std::make_pair((unsigned)R, (unsigned)C)) fail("numeric matrix %dx%d reports %ux%u", R, C, m.rows(), m.cols());
    std::vector<std::vector<long>> ref(R, std::vector<long>(C, 0));
    std::set<void const *> seen;
    for (int i = 0; i < R; ++i)
    {
        if ((std::uintptr_t)m.row_data(i) % 64) fail("row %d of a %dx%d matrix is not aligned", i, R, C);
        for (int k = 0; k < C; ++k)
        {
            if (m.row_data(i)[k] != 0) fail("new %dx%d matrix holds %ld", R, C, (long)m.row_data(i)[k]);
            if (!seen.insert(&m.row_data(i)[k]).second) fail("element %d,%d of a %dx%d matrix shares its storage", i, k, R, C);
        }
    }
    auto chk = [&](M const & q, char const * what)
    {
        for (int i = 0; i < R; ++i) for (int k = 0; k < C; ++k)
            if (q.row_data(i)[k] != ref[i][k] || q[{(std::size_t)i, (std::size_t)k}] != ref[i][k]) fail("%s: element %d,%d of a %dx%d matrix is %ld, not %ld", what, i, k, R, C, (long)q.row_data(i)[k], ref[i][k]);
    };
    for (int n = r.in(1, 60); n--; )
    {
        int i = r.in(0, R - 1), k = r.p(1, 4) ? C - 1 : r.in(0, C - 1); auto v = (typename M::value_type)r.u64();
        m.row_data(i)[k] = v; ref[i][k] = v;
    }
    chk(m, "writing");
    M c(m); chk(c, "copy"); if (!(c == m)) fail("a copy differs from the original");
    M d(r.in(1, 5), sz(r)); d = m; chk(d, "assignment"); if (!(d == m)) fail("an assigned matrix differs from the original");
    int i = r.in(0, R - 1), k = r.in(0, C - 1);
    d.row_data(i)[k] ^= 1; chk(m, "writing to a copy");
    if (d == m) fail("matrices that differ at %d,%d compare equal", i, k);
    M e(std::move(c)); chk(e, "move"); M f; f = std::move(e); chk(f, "move assignment");
}
template<typename M> void bitmatrix_case(Rng & r)
{
    int R = r.in(1, 9), C = sz(r);
    M m(R, C);
    constexpr int B = 8 * sizeof (*m.row_data(0));
    if ((int)m.rows() != R || (int)m.cols() != C) fail("bit matrix %dx%d reports %ux%u", R, C, m.rows(), m.cols());
    std::vector<std::vector<int>> ref(R, std::vector<int>(C, 0));
    for (int i = 0; i < R; ++i) if ((std::uintptr_t)m.row_data(i) % 64) fail("row %d of a %dx%d bit matrix is not aligned", i, R, C);
    auto chk = [&](M & q, char const * what)
    {
        for (int i = 0; i < R; ++i)
        {
            for (int k = 0; k < C; ++k)
            {
                int b = (q.row_data(i)[k / B] >> (k % B)) & 1;
                if (b != ref[i][k] || (int)q.test(i, k) != b || (int)q.row(i).test(k) != b || (int)q.row(i)[k] != b || (int)q[{(std::size_t)i, (std::size_t)k}] != b)
                    fail("%s: bit %d,%d of a %dx%d bit matrix is %d, not %d", what, i, k, R, C, b, ref[i][k]);
            }
            for (int k = C; k < (C + B - 1) / B * B; ++k) if ((q.row_data(i)[k / B] >> (k % B)) & 1) fail("%s: padding bit %d of row %d of a %dx%d bit matrix is set", what, k, i, R, C);
        }
    };
    chk(m, "new");
    for (int n = r.in(1, 80); n--; )
    {
        int i = r.in(0, R - 1), k = r.p(1, 4) ? C - 1 : r.in(0, C - 1);
        switch (r.in(0, 5))
        {
        case 0: m.set(i, k); ref[i][k] = 1; break;
        case 1: m.clear(i, k); ref[i][k] = 0; break;
        case 2: m.flip(i, k); ref[i][k] ^= 1; break;
        case 3: m.row(i).set(k); ref[i][k] = 1; break;
        case 4: m.row(i).clear(k); ref[i][k] = 0; break;
        default: m[i].flip(k); ref[i][k] ^= 1; break;
        }
    }
    chk(m, "writing");
    M c(m); chk(c, "copy"); if (!(c == m)) fail("a copy differs from the original");
    M d(r.in(1, 5), sz(r)); d = m; chk(d, "assignment"); if (!(d == m)) fail("an assigned bit matrix differs from the original");
    int i = r.in(0, R - 1), k = r.in(0, C - 1);
    d.flip(i, k); chk(m, "writing to a copy"); if (d == m) fail("bit matrices that differ at %d,%d compare equal", i, k);
    M e(std::move(c)); chk(e, "move"); M f; f = std::move(e); chk(f, "move assignment");
}
template<typename V> void bitvector_case(Rng & r)
{
    int n = sz(r);
    V v(n);
    constexpr int B = 8 * sizeof (*v.data());
    if ((int)v.size() != n || (int)v.content_blocks() != (n + B - 1) / B || (int)v.tail_bits() != n % B) fail("bit vector of %d bits reports %zu bits, %zu blocks, %zu tail bits", n, (size_t)v.size(), (size_t)v.content_blocks(), (size_t)v.tail_bits());
    std::vector<int> ref(n, 0);
    auto chk = [&](V const & q, char const * what)
    {
        for (int k = 0; k < n; ++k) { int b = (q.data()[k / B] >> (k % B)) & 1; if (b != ref[k] || (int)q[k] != b) fail("%s: bit %d of %d is %d, not %d", what, k, n, (int)q[k], ref[k]); }
        for (int k = n; k < (n + B - 1) / B * B; ++k) if ((q.data()[k / B] >> (k % B)) & 1) fail("%s: padding bit %d of a vector of %d bits is set", what, k, n);
    };
    chk(v, "new");
    for (int c = r.in(1, 80); c--; )
    {
        int k = r.p(1, 4) ? n - 1 : r.in(0, n - 1); bool b = r.p(1, 2);
        switch (r.in(0, 4))
        {
        case 0: v.set(k); ref[k] = 1; break;
        case 1: v.clear(k); ref[k] = 0; break;
        case 2: v.flip(k); ref[k] ^= 1; break;
        case 3: v.assign(k, b); ref[k] = b; break;
        default: v.XOR(k, b); ref[k] ^= b; break;
        }
    }
    chk(v, "writing");
    V c(v); chk(c, "copy");
    std::vector<char> cs(ref.begin(), ref.end());
    for (auto & x : cs) if (x) x = r.p(1, 2) ? 1 : r.p(1, 2) ? 2 : -1;
    auto g = basic_bit_vectors::from_range<typename V::block_type>(cs.begin(), cs.end());
    if ((int)g.size() != n) fail("from_range of %d elements holds %zu", n, (size_t)g.size());
    chk(g, "from_range");
}

void toss_case(Rng & r)
{
    int n = sz(r); double s = r.p(1, 5) ? 1.0 : 1 + r.unit() * r.in(1, 30); float p = (float)(1.0 / s);
    CoinTosserExact ct(p, n); IRNG g((int)r.u64()); vs::spice(g, r);
    double x = (double)n * p; unsigned lo = (unsigned)std::floor((float)n * p), hi = (unsigned)std::ceil(x);
    if (hi < lo) hi = lo;
    if (r.p(1, 3)) ct.fill(1);
    for (int k = r.in(1, 8); k--; )
    {
        char const * t = r.p(1, 2) ? ct.tosses1(g) : ct.tosses2(g);
        unsigned c = 0;
        for (int i = 0; i < n; ++i) { if (t[i] != 0 && t[i] != 1) fail("toss %d of %d is %d", i, n, t[i]); c += t[i]; }
        if (c != lo && c != hi) fail("%u hits in %d tosses with probability %.9g (expected %u or %u)", c, n, p, lo, hi);
        unsigned h = ct.estimate_hits(g);
        if (h != lo && h != hi) fail("estimated %u hits in %d tosses with probability %.9g (expected %u or %u)", h, n, p, lo, hi);
    }
}
template<typename G> void same_seq(G & a, G & b, int n, char const * what)
{
    for (int i = 0; i < n; ++i) { auto x = a(), y = b(); if (x != y) fail("%s: draw %d differs", what, i); }
}
template<typename G> void rng_case(Rng & r)
{
    int seed = r.p(1, 4) ? r.in(0, 2) : (int)r.u64();
    constexpr int P = G::MTSZ * G::NS;
    G a(seed), b(seed), c((int)r.u64());
    int n = r.p(1, 3) ? r.pick(std::vector<int>{P - 1, P, P + 1, 2 * P}) : r.in(1, 3000);
    same_seq(a, b, n, "same seed");
    if (!(a == b)) fail("generators with the same seed and history differ");
    for (int i = r.in(0, 3); i--; ) c();
    if (r.p(1, 2)) for (int i = r.in(0, 2 * P); i--; ) c();
    c = a; if (!(c == a)) fail("an assigned generator differs");
    same_seq(c, a, r.in(1, 100), "assigned generator");
    a.init(seed);
    G d(seed);
    if (!(a == d)) fail("a generator seeded again differs from a new one");
    same_seq(a, d, r.p(1, 4) ? P + 5 : r.in(1, 200), "seeded again");
}
void irng_case(Rng & r)
{
    rng_case<IRNG>(r);
    IRNG g((int)r.u64());
    if (IRNG::min() != 0 || IRNG::max() < 0x7fffffff) fail("advertised range");
    for (int i = 0; i < 200; ++i)
    {
        unsigned x = r.p(1, 3) ? r.in(1, 4) : (unsigned)r.u64() | 1; int a = r.in(-1000, 1000), b = a + r.in(0, 1000);
        if (r.p(1, 8)) { a = 0; b = INT_MAX - 1; }
        unsigned d = g.next(x); if (d >= x) fail("next(%u) is %u", x, d);
        int e = (int)g.next(a, b); if (e < a || e > b) fail("next(%d, %d) is %d", a, b, e);
    }
}
void frng_case(Rng & r)
{
    rng_case<FRNG>(r);
    FRNG g((int)r.u64());
    for (int i = 0; i < 6000; ++i) { float x = i % 2 ? g() : g.next(); if (!(x > 0 && x <= 1)) fail("float draw %.9g", x); }
    for (int i = 0; i < 64; ++i) { unsigned y = r.p(1, 2) ? (unsigned)r.u64() : i < 32 ? (1u << i) : ~0u << (i - 32); if (r.p(1, 8)) y = 0; float x = g.post_process(y); if (!(x > 0 && x <= 1)) fail("float draw from %u is %.9g", y, x); }
    // the cache hands out what the generator yields
    int n = r.in(1, 50); frand_cache<> fc(n); FRNG a(7), b(7);
    for (int k = 0; k < 4; ++k)
    {
        int used = k == 0 ? n : -1;
        fc.refill(a);
        (void)used;
        for (int i = 0; i < n; ++i) { float x = fc.next(), y = b(); if (x != y) fail("cached draw %d of refill %d is %.9g, not %.9g", i, k, x, y); }
    }
}
struct Fixed { using result_type = unsigned; unsigned v; unsigned operator()() { return v; } };
void binom_case(Rng & r)
{
    unsigned n = r.p(1, 4) ? r.in(0, 3) : r.p(1, 4) ? (unsigned)r.u64() : r.in(0, 100000); float p = r.p(1, 4) ? 0.0f : r.p(1, 4) ? 1.0f : (float)r.unit();
    IRNG g((int)r.u64()); FRNG f((int)r.u64()); vs::spice(g, r); vs::spice(f, r);
    for (int i = 0; i < 300; ++i)
    {
        unsigned k = binomial(n, p, g); if (k > n) fail("binomial(%u, %.9g) drew %u", n, p, k);
        unsigned j = bm_exact::binomial(n, p, f); if (j > n) fail("binomial(%u, %.9g) with exact functions drew %u", n, p, j);
    }
}
}

int main(int argc, char ** argv)
{
    vs::Table t;
    t["C15"] = {{"tosses", toss_case}};
    t["C17"] = {{"integers", irng_case}, {"floats", frng_case}};
    t["C18"] = {{"numeric8", numeric_case<numeric_matrix_int8>}, {"numeric16", numeric_case<numeric_matrix_int16>}, {"numeric32", numeric_case<numeric_matrix_int32>},
                {"bits8", bitmatrix_case<basic_bit_matrix<std::uint8_t>>}, {"bits16", bitmatrix_case<basic_bit_matrix<std::uint16_t>>}, {"bits32", bitmatrix_case<basic_bit_matrix<std::uint32_t>>}, {"bits64", bitmatrix_case<basic_bit_matrix<std::uint64_t>>},
                {"vector8", bitvector_case<bit_vector_uint8>}, {"vector16", bitvector_case<bit_vector_uint16>}, {"vector32", bitvector_case<bit_vector_uint32>}, {"vector64", bitvector_case<bit_vector_uint64>}};
    t["C23"] = {{"binomial", binom_case}};
    return vs::main_(argc, argv, t);
}
