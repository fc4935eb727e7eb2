// Controls of the array analysis: good_* must be accepted, bad_* reported.
#include <cstdint>
#include <algorithm>
#include <cstddef>
extern double elem(double);
extern double elem2(double, double);
extern double other(double);
static inline double helper(double x) { return elem(x); }
template <class F> static inline void each(uint32_t n, const double *i, double *o, F f) { for (uint32_t k = 0; k < n; ++k) o[k] = f(i[k]); }
static double counter;
#define A uint32_t size, const double *__restrict__ in, double *__restrict__ out
void good_plain(A) { for (uint32_t i = 0; i < size; ++i) out[i] = elem(in[i]); }
void good_helper(A) { for (uint32_t i = 0; i < size; ++i) { const double x = in[i]; out[i] = helper(x); } }
void good_sizet(A) { for (size_t i = 0; i != size; i++) out[i] = elem(in[i]); }
void good_pointers(A) { const double *e = in + size; while (in != e) *out++ = elem(*in++); }
void good_countdown(A) { uint32_t n = size; while (n--) { *out = elem(*in); ++in; ++out; } }
void good_reverse(A) { for (uint32_t i = size; i > 0; --i) out[i - 1] = elem(in[i - 1]); }
void good_while(A) { uint32_t i = 0; while (true) { if (i >= size) break; out[i] = elem(in[i]); ++i; } }
void good_dowhile(A) { if (size == 0) return; uint32_t i = 0; do { out[i] = elem(in[i]); } while (++i < size); }
void good_unrolled(A) { uint32_t i = 0; for (; i + 4 <= size && i + 4 > i; i += 4) { out[i] = elem(in[i]); out[i + 1] = elem(in[i + 1]); out[i + 2] = elem(in[i + 2]); out[i + 3] = elem(in[i + 3]); } for (; i < size; ++i) out[i] = elem(in[i]); }
void good_unrolled2(A) { const uint32_t m = size & ~3u; for (uint32_t i = 0; i < m; i += 4) { out[i] = elem(in[i]); out[i + 1] = elem(in[i + 1]); out[i + 2] = elem(in[i + 2]); out[i + 3] = elem(in[i + 3]); } for (uint32_t i = m; i < size; ++i) out[i] = elem(in[i]); }
void good_split(A) { const uint32_t m = size / 2; for (uint32_t i = 0; i < m; ++i) out[i] = elem(in[i]); for (uint32_t i = m; i < size; ++i) out[i] = elem(in[i]); }
void good_blocks(A) { const uint32_t m = size - size % 8; for (uint32_t i = 0; i < m; i += 8) for (uint32_t j = 0; j < 8; ++j) out[i + j] = elem(in[i + j]); for (uint32_t i = m; i < size; ++i) out[i] = elem(in[i]); }
void good_functor(A) { each(size, in, out, [](double x) { return elem(x); }); }
void good_fnptr(A) { each(size, in, out, elem); }
void good_transform(A) { std::transform(in, in + size, out, elem); }
void good_transform2(A) { std::transform(in, in + size, out, [](double v) { return elem(v); }); }
void good_two(uint32_t size, const double *__restrict__ in, const double *__restrict__ in2, double *__restrict__ out) { for (uint32_t i = 0; i < size; ++i) out[i] = elem2(in[i], in2[i]); }
void bad_offbyone(A) { for (uint32_t i = 0; i + 1 < size; ++i) out[i] = elem(in[i]); }
void bad_past(A) { for (uint32_t i = 0; i <= size; ++i) out[i] = elem(in[i]); }
void bad_first(A) { for (uint32_t i = 1; i < size; ++i) out[i] = elem(in[i]); }
void bad_dowhile(A) { uint32_t i = 0; do { out[i] = elem(in[i]); } while (++i < size); }
void bad_tail(A) { const uint32_t m = size & ~3u; for (uint32_t i = 0; i < m; i += 4) { out[i] = elem(in[i]); out[i + 1] = elem(in[i + 1]); out[i + 2] = elem(in[i + 2]); out[i + 3] = elem(in[i + 3]); } }
void bad_lane(A) { const uint32_t m = size & ~3u; for (uint32_t i = 0; i < m; i += 4) { out[i] = elem(in[i]); out[i + 1] = elem(in[i + 1]); out[i + 2] = elem(in[i + 1]); out[i + 3] = elem(in[i + 3]); } for (uint32_t i = m; i < size; ++i) out[i] = elem(in[i]); }
void bad_dup(A) { const uint32_t m = size & ~3u; for (uint32_t i = 0; i < m; i += 4) { out[i] = elem(in[i]); out[i + 1] = elem(in[i + 1]); out[i + 1] = elem(in[i + 1]); out[i + 3] = elem(in[i + 3]); } for (uint32_t i = m; i < size; ++i) out[i] = elem(in[i]); }
void bad_signed(A) { for (int i = 0; i < (int)size; ++i) out[i] = elem(in[i]); }
void bad_short(A) { for (uint16_t i = 0; i < size; ++i) out[i] = elem(in[i]); }
void bad_trunc(A) { const uint16_t n = size; for (uint32_t i = 0; i < n; ++i) out[i] = elem(in[i]); }
void bad_other(A) { for (uint32_t i = 0; i < size; ++i) out[i] = other(in[i]); }
void bad_float(A) { for (uint32_t i = 0; i < size; ++i) out[i] = elem((float)in[i]); }
void bad_shift(A) { for (uint32_t i = 0; i < size; ++i) out[i] = elem(in[i + 1]); }
void bad_const(A) { for (uint32_t i = 0; i < size; ++i) out[i] = elem(in[0]); }
void bad_state(A) { for (uint32_t i = 0; i < size; ++i) { out[i] = elem(in[i]); counter = out[i]; } }
void bad_input(A) { for (uint32_t i = 0; i < size; ++i) { out[i] = elem(in[i]); const_cast<double *>(in)[i] = 0; } }
void bad_cap(A) { if (size > 4096) size = 4096; for (uint32_t i = 0; i < size; ++i) out[i] = elem(in[i]); }
void bad_skip(A) { for (uint32_t i = 0; i < size; ++i) if (in[i] != 0) out[i] = elem(in[i]); }
void bad_small(A) { if (size == 1) return; for (uint32_t i = 0; i < size; ++i) out[i] = elem(in[i]); }
void bad_odd(A) { for (uint32_t i = 0; i < size; i += 2) { out[i] = elem(in[i]); out[i + 1] = elem(in[i + 1]); } }
void bad_two(uint32_t size, const double *__restrict__ in, const double *__restrict__ in2, double *__restrict__ out) { for (uint32_t i = 0; i < size; ++i) out[i] = elem2(in2[i], in[i]); }
