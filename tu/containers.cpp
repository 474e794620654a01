// Verification unit: the containers (basic_numeric_matrix, basic_bit_matrix,
// basic_bit_vector and its companion).  Every body is one call of the real function.
#include "tsetlini_types.hpp"
#include "basic_bit_vector_companion.hpp"
#include "common.hpp"
#include <new>
#include <utility>
using namespace Tsetlini;
using bits8 = basic_bit_vector<std::uint8_t>; using bits16 = basic_bit_vector<std::uint16_t>; using bits32 = basic_bit_vector<std::uint32_t>; using bits64 = basic_bit_vector<std::uint64_t>;
using bm8 = basic_bit_matrix<std::uint8_t>; using bm16 = basic_bit_matrix<std::uint16_t>; using bm32 = basic_bit_matrix<std::uint32_t>; using bm64 = basic_bit_matrix<std::uint64_t>;
using nm8 = numeric_matrix_int8; using nm16 = numeric_matrix_int16; using nm32 = numeric_matrix_int32;

extern "C" {
#define LAYOUT_NM(M) \
extern const size_t vpc_##M##_rows = offsetof(M, m_nrows); extern const size_t vpc_##M##_cols = offsetof(M, m_ncols); extern const size_t vpc_##M##_v = offsetof(M, m_v); extern const size_t vpc_##M##_size = sizeof (M); extern const size_t vpc_##M##_es = sizeof (*M().m_v.data());
#define LAYOUT_BM(M) LAYOUT_NM(M) extern const size_t vpc_##M##_blocks = offsetof(M, m_row_blocks);
#define LAYOUT_BV(M) extern const size_t vpc_##M##_len = offsetof(M, m_bit_length); extern const size_t vpc_##M##_v = offsetof(M, m_vector); extern const size_t vpc_##M##_size = sizeof (M); extern const size_t vpc_##M##_es = sizeof (M::block_type);

#define NM(M) LAYOUT_NM(M) \
void vp_##M##_make(M * m, unsigned r, unsigned c) { new (m) M(r, c); } \
void const * vp_##M##_row(M & m, size_t nr) { return m.row_data(nr); } \
void const * vp_##M##_crow(M const & m, size_t nr) { return m.row_data(nr); } \
int vp_##M##_get(M const & m, size_t nr, size_t nc) { return m[std::pair<size_t, size_t>(nr, nc)]; } \
unsigned vp_##M##_items(M const & m) { return m.row_items(); } \
unsigned vp_##M##_rows_(M const & m) { return m.rows(); } \
unsigned vp_##M##_cols_(M const & m) { return m.cols(); }
NM(nm8) NM(nm16) NM(nm32)

#define BM(M) LAYOUT_BM(M) \
void vp_##M##_make(M * m, unsigned r, unsigned c) { new (m) M(r, c); } \
void const * vp_##M##_row(M const & m, size_t nr) { return m.row_data(nr); } \
void const * vp_##M##_view(M & m, size_t nr, unsigned * n) { auto v = m.row(nr); *n = v.m_nbits; return v.data(); } \
unsigned vp_##M##_test(M const & m, size_t nr, size_t nc) { return m.test(nr, nc); } \
void vp_##M##_set(M & m, size_t nr, size_t nc) { m.set(nr, nc); } \
void vp_##M##_clear(M & m, size_t nr, size_t nc) { m.clear(nr, nc); } \
void vp_##M##_flip(M & m, size_t nr, size_t nc) { m.flip(nr, nc); } \
unsigned vp_##M##_vtest(M & m, size_t nr, size_t nc) { return m.row(nr).test(nc); } \
void vp_##M##_vset(M & m, size_t nr, size_t nc) { m.row(nr).set(nc); } \
void vp_##M##_vclear(M & m, size_t nr, size_t nc) { m.row(nr).clear(nc); } \
void vp_##M##_vflip(M & m, size_t nr, size_t nc) { m.row(nr).flip(nc); } \
unsigned vp_##M##_rows_(M const & m) { return m.rows(); } \
unsigned vp_##M##_cols_(M const & m) { return m.cols(); }
BM(bm8) BM(bm16) BM(bm32) BM(bm64)

#define BV(M) LAYOUT_BV(M) \
void vp_##M##_make(M * m, size_t n) { new (m) M(n); } \
unsigned vp_##M##_test(M const & m, size_t i) { return m[i]; } \
void vp_##M##_set(M & m, size_t i) { m.set(i); } \
void vp_##M##_clear(M & m, size_t i) { m.clear(i); } \
void vp_##M##_flip(M & m, size_t i) { m.flip(i); } \
void vp_##M##_assign(M & m, size_t i, bool b) { m.assign(i, b); } \
void vp_##M##_xor(M & m, size_t i, bool b) { m.XOR(i, b); } \
size_t vp_##M##_size_(M const & m) { return m.size(); } \
size_t vp_##M##_content(M const & m) { return m.content_blocks(); } \
size_t vp_##M##_tail(M const & m) { return m.tail_bits(); }
BV(bits8) BV(bits16) BV(bits32) BV(bits64)

void vp_from_range(bit_vector_uint64 * out, char const * b, char const * e) { new (out) bit_vector_uint64(basic_bit_vectors::from_range<std::uint64_t>(b, e)); }
}
