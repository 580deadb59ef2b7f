#include "drv.h"
#include "mfast/coder/encoder_v2/fast_encoder_core.h"
#include <new>
using namespace vf;
typedef mfast::coder::fast_encoder_core base_t;

#define ENC(X)                                                                 \
  try {                                                                        \
    new (&d->strm_) fast_ostream(alloc);                                       \
    d->visit(X);                                                               \
  } catch (...)

template <typename T, typename OP, int P>
static inline void enc_int(int hasinit, T iv, int prev, T pv, int absent, T fv,
                           base_t *d, observed *o, allocator *alloc) {
  int_field_instruction<T> inst =
      make_int<T>(OP::value, (P & 1) ? 1 : 0, hasinit, iv);
  seed_prev(inst, prev, int_value_storage<T>(pv).storage_);
  value_storage f;
  if (!absent)
    f = int_value_storage<T>(fv).storage_;
  int_cref<T> c(&f, &inst);
  ext_cref<int_cref<T>, OP, properties_type<P>> x(c);
  ENC(x) {
    observe_int<T>(o, &f, &inst);
    throw;
  }
  observe_int<T>(o, &f, &inst);
}
template <typename K, typename OP, int P>
static inline void enc_str(int hasinit, const char *ip, uint64_t in, int prev,
                           const char *pp, uint64_t pn, int absent,
                           const char *fp, uint64_t fn, base_t *d, observed *o,
                           allocator *alloc) {
  typename K::inst inst =
      K::make(static_cast<operator_enum_t>(OP::value),
              static_cast<presence_enum_t>((P & 1) ? 1 : 0),
              str_init(hasinit, ip, in));
  seed_prev_owned(inst, prev, pp, pn);
  value_storage f;
  if (!absent)
    f = string_value_storage(fp, fn).storage_;
  typename K::cref c(&f, &inst);
  ext_cref<typename K::cref, OP, properties_type<P>> x(c);
  ENC(x) {
    observe_str<typename K::cref>(o, &f, &inst);
    throw;
  }
  observe_str<typename K::cref>(o, &f, &inst);
}
template <typename OP, int P>
static inline void enc_dec(int hasinit, int64_t im, int16_t ie, int prev,
                           int64_t pm_, int16_t pe, int absent, int64_t fm,
                           int16_t fe, base_t *d, observed *o,
                           allocator *alloc) {
  decimal_field_instruction inst(
      static_cast<operator_enum_t>(OP::value),
      static_cast<presence_enum_t>((P & 1) ? 1 : 0), 1, "f", "", nullptr,
      hasinit ? decimal_value_storage(im, ie) : decimal_value_storage());
  seed_prev(inst, prev, decimal_value_storage(pm_, pe).storage_);
  value_storage f;
  if (!absent)
    f = decimal_value_storage(fm, fe).storage_;
  decimal_cref c(&f, &inst);
  ext_cref<decimal_cref, OP, properties_type<P>> x(c);
  ENC(x) {
    observe_dec(o, &f, &inst);
    throw;
  }
  observe_dec(o, &f, &inst);
}
#define DI(N, T, ON, OP, P)                                                    \
  extern "C" void vf_enc2_##N##_##ON##_##P(int hi, T iv, int prev, T pv,       \
                                           int ab, T fv, base_t *d,            \
                                           observed *o, allocator *a) {        \
    enc_int<T, OP, P>(hi, iv, prev, pv, ab, fv, d, o, a);                      \
  }
#define DS(N, K, ON, OP, P)                                                    \
  extern "C" void vf_enc2_##N##_##ON##_##P(                                    \
      int hi, const char *ip, uint64_t in, int prev, const char *pp,           \
      uint64_t pn, int ab, const char *fp, uint64_t fn, base_t *d,             \
      observed *o, allocator *a) {                                             \
    enc_str<K, OP, P>(hi, ip, in, prev, pp, pn, ab, fp, fn, d, o, a);          \
  }
#define DD(ON, OP, P)                                                          \
  extern "C" void vf_enc2_dec_##ON##_##P(                                      \
      int hi, int64_t im, int16_t ie, int prev, int64_t pm, int16_t pe,        \
      int ab, int64_t fm, int16_t fe, base_t *d, observed *o, allocator *a) {  \
    enc_dec<OP, P>(hi, im, ie, prev, pm, pe, ab, fm, fe, d, o, a);             \
  }
#define ALLP(M, ...)                                                           \
  M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2) M(__VA_ARGS__, 3)      \
  M(__VA_ARGS__, 4) M(__VA_ARGS__, 5) M(__VA_ARGS__, 6) M(__VA_ARGS__, 7)
#define IOPS(N, T)                                                             \
  ALLP(DI, N, T, none, none_operator_tag)                                      \
  ALLP(DI, N, T, constant, constant_operator_tag)                              \
  ALLP(DI, N, T, delta, delta_operator_tag)                                    \
  ALLP(DI, N, T, default, default_operator_tag)                                \
  ALLP(DI, N, T, copy, copy_operator_tag)                                      \
  ALLP(DI, N, T, increment, increment_operator_tag)
#define SOPS(N, K)                                                             \
  ALLP(DS, N, K, none, none_operator_tag)                                      \
  ALLP(DS, N, K, constant, constant_operator_tag)                              \
  ALLP(DS, N, K, delta, delta_operator_tag)                                    \
  ALLP(DS, N, K, default, default_operator_tag)                                \
  ALLP(DS, N, K, copy, copy_operator_tag)                                      \
  ALLP(DS, N, K, tail, tail_operator_tag)
IOPS(i32, int32_t)
IOPS(u32, uint32_t)
IOPS(i64, int64_t)
IOPS(u64, uint64_t)
SOPS(ascii, ascii_kind)
SOPS(unicode, unicode_kind)
SOPS(bytes, bytes_kind)
ALLP(DD, none, none_operator_tag)
ALLP(DD, constant, constant_operator_tag)
ALLP(DD, delta, delta_operator_tag)
ALLP(DD, default, default_operator_tag)
ALLP(DD, copy, copy_operator_tag)
