// Verification unit: coin tosser, random generators, binomial draws.  Every body is
// one call of the real function.
#include "box_muller_approx.cpp"
#include "coin_tosser_exact.hpp"
#include "frand_cache.hpp"
#include "mt.hpp"
#include "tsetlini_types.hpp"
#include "common.hpp"
#include <new>
using namespace Tsetlini;
namespace exact_bm {
#include "box_muller.hpp"
}

extern "C" {
extern const size_t vpc_ct_sinv = offsetof(CoinTosserExact, m_s_inv), vpc_ct_floor = offsetof(CoinTosserExact, m_hits_floor), vpc_ct_thr = offsetof(CoinTosserExact, m_hits_ceil_threshold),
    vpc_ct_c1 = offsetof(CoinTosserExact, m_cache1), vpc_ct_c2 = offsetof(CoinTosserExact, m_cache2), vpc_ct_size = sizeof (CoinTosserExact);

char const * vp_tosses1(CoinTosserExact & ct, IRNG & g) { return ct.tosses1(g); }
char const * vp_tosses2(CoinTosserExact & ct, IRNG & g) { return ct.tosses2(g); }
unsigned vp_hits(CoinTosserExact const & ct, IRNG & g) { return ct.estimate_hits(g); }
void vp_ct_make(CoinTosserExact * ct, float s_inv, unsigned size) { new (ct) CoinTosserExact(s_inv, size); }

extern const size_t vpc_irng_index = offsetof(IRNG, index), vpc_irng_res = offsetof(IRNG, aRES), vpc_irng_mt = offsetof(IRNG, aMT), vpc_irng_size = sizeof (IRNG),
    vpc_irng_n = IRNG::MTSZ * IRNG::NS, vpc_irng_ns = IRNG::NS, vpc_irng_nres = sizeof (IRNG().aRES) / 4, vpc_irng_nmt = sizeof (IRNG().aMT) / 4;
extern const size_t vpc_frng_index = offsetof(FRNG, index), vpc_frng_res = offsetof(FRNG, aRES), vpc_frng_mt = offsetof(FRNG, aMT), vpc_frng_size = sizeof (FRNG),
    vpc_frng_n = FRNG::MTSZ * FRNG::NS, vpc_frng_ns = FRNG::NS, vpc_frng_nres = sizeof (FRNG().aRES) / 4, vpc_frng_nmt = sizeof (FRNG().aMT) / 4;
extern const unsigned vpc_irng_min = IRNG::min(), vpc_irng_max = IRNG::max();

void vp_irng_init(IRNG & g, int seed) { g.init(seed); }
void vp_frng_init(FRNG & g, int seed) { g.init(seed); }
void vp_irng_make(IRNG * g, int seed) { new (g) IRNG(seed); }
void vp_frng_make(FRNG * g, int seed) { new (g) FRNG(seed); }
void vp_irng_generate(IRNG & g) { g.generate(); }
void vp_frng_generate(FRNG & g) { g.generate(); }
unsigned vp_irng_rand(IRNG & g) { return g(); }
unsigned vp_irng_next(IRNG & g) { return g.next(); }
unsigned vp_irng_next1(IRNG & g, unsigned x) { return g.next(x); }
unsigned vp_irng_next2(IRNG & g, int a, int b) { return g.next(a, b); }
float vp_frng_rand(FRNG & g) { return g(); }
float vp_frng_next(FRNG & g) { return g.next(); }
void vp_irng_copy(IRNG & a, IRNG const & b) { a = b; }
void vp_frng_copy(FRNG & a, FRNG const & b) { a = b; }

unsigned vp_binomial(unsigned n, float p, IRNG & g) { return binomial(n, p, g); }
unsigned vp_binomial_exact(unsigned n, float p, FRNG & g) { return exact_bm::binomial(n, p, g); }
}
