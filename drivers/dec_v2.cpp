#include "drv.h"
#include "mfast/coder/decoder_v2/fast_decoder_core.h"
using namespace vf;
typedef mfast::coder::fast_decoder_base base_t;

template <typename T, typename OP, int P>
static inline void dec_int(int hasinit, T iv, int prev, T pv,
                           value_storage *field, base_t *d, observed *o) {
  int_field_instruction<T> inst =
      make_int<T>(OP::value, (P & 1) ? 1 : 0, hasinit, iv);
  seed_prev(inst, prev, int_value_storage<T>(pv).storage_);
  int_mref<T> m(nullptr, field, &inst);
  ext_mref<int_mref<T>, OP, properties_type<P>> x(m);
  try {
    d->visit(x);
  } catch (...) {
    observe_int<T>(o, field, &inst);
    throw;
  }
  observe_int<T>(o, field, &inst);
}
template <typename K, typename OP, int P>
static inline void dec_str(int hasinit, const char *ip, uint64_t in, int prev,
                           const char *pp, uint64_t pn, value_storage *field,
                           base_t *d, observed *o, allocator *alloc) {
  typename K::inst inst =
      K::make(static_cast<operator_enum_t>(OP::value),
              static_cast<presence_enum_t>((P & 1) ? 1 : 0),
              str_init(hasinit, ip, in));
  seed_prev(inst, prev, string_value_storage(pp, pn).storage_);
  typename K::mref m(alloc, field, &inst);
  ext_mref<typename K::mref, OP, properties_type<P>> x(m);
  try {
    d->visit(x);
  } catch (...) {
    observe_str<typename K::cref>(o, field, &inst);
    throw;
  }
  observe_str<typename K::cref>(o, field, &inst);
}
template <typename OP, int P>
static inline void dec_dec(int hasinit, int64_t im, int16_t ie, int prev,
                           int64_t pm_, int16_t pe, value_storage *field,
                           base_t *d, observed *o) {
  decimal_field_instruction inst(
      static_cast<operator_enum_t>(OP::value),
      static_cast<presence_enum_t>((P & 1) ? 1 : 0), 1, "f", "", nullptr,
      hasinit ? decimal_value_storage(im, ie) : decimal_value_storage());
  seed_prev(inst, prev, decimal_value_storage(pm_, pe).storage_);
  decimal_mref m(nullptr, field, &inst);
  ext_mref<decimal_mref, OP, properties_type<P>> x(m);
  try {
    d->visit(x);
  } catch (...) {
    observe_dec(o, field, &inst);
    throw;
  }
  observe_dec(o, field, &inst);
}
#define DI(N, T, ON, OP, P)                                                    \
  extern "C" void vf_dec2_##N##_##ON##_##P(int hi, T iv, int prev, T pv,       \
                                           value_storage *f, base_t *d,        \
                                           observed *o) {                      \
    dec_int<T, OP, P>(hi, iv, prev, pv, f, d, o);                              \
  }
#define DS(N, K, ON, OP, P)                                                    \
  extern "C" void vf_dec2_##N##_##ON##_##P(                                    \
      int hi, const char *ip, uint64_t in, int prev, const char *pp,           \
      uint64_t pn, value_storage *f, base_t *d, observed *o, allocator *a) {   \
    dec_str<K, OP, P>(hi, ip, in, prev, pp, pn, f, d, o, a);                   \
  }
#define DD(ON, OP, P)                                                          \
  extern "C" void vf_dec2_dec_##ON##_##P(                                      \
      int hi, int64_t im, int16_t ie, int prev, int64_t pm, int16_t pe,        \
      value_storage *f, base_t *d, observed *o) {                              \
    dec_dec<OP, P>(hi, im, ie, prev, pm, pe, f, d, o);                         \
  }
#define ALLP(M, ...)                                                           \
  M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2) M(__VA_ARGS__, 3)      \
  M(__VA_ARGS__, 4) M(__VA_ARGS__, 5) M(__VA_ARGS__, 6) M(__VA_ARGS__, 7)
#define IOPS(N, T)                                                             \
  ALLP(DI, N, T, none, none_operator_tag)                                      \
  ALLP(DI, N, T, constant, constant_operator_tag)                              \
  ALLP(DI, N, T, delta, delta_operator_tag)                                    \
  ALLP(DI, N, T, default, default_operator_tag)                                \
  ALLP(DI, N, T, copy, copy_operator_tag)                                      \
  ALLP(DI, N, T, increment, increment_operator_tag)
#define SOPS(N, K)                                                             \
  ALLP(DS, N, K, none, none_operator_tag)                                      \
  ALLP(DS, N, K, constant, constant_operator_tag)                              \
  ALLP(DS, N, K, delta, delta_operator_tag)                                    \
  ALLP(DS, N, K, default, default_operator_tag)                                \
  ALLP(DS, N, K, copy, copy_operator_tag)                                      \
  ALLP(DS, N, K, tail, tail_operator_tag)
IOPS(i32, int32_t)
IOPS(u32, uint32_t)
IOPS(i64, int64_t)
IOPS(u64, uint64_t)
SOPS(ascii, ascii_kind)
SOPS(unicode, unicode_kind)
SOPS(bytes, bytes_kind)
ALLP(DD, none, none_operator_tag)
ALLP(DD, constant, constant_operator_tag)
ALLP(DD, delta, delta_operator_tag)
ALLP(DD, default, default_operator_tag)
ALLP(DD, copy, copy_operator_tag)
