#include "drv.h"
#include "mfast/coder/encoder/fast_ostream.h"
#include "mfast/coder/encoder/encoder_presence_map.h"
#include "mfast/coder/encoder/encoder_field_operator.h"
using namespace vf;

#define ENC(CREF)                                                              \
  try {                                                                        \
    fast_ostream s(alloc);                                                     \
    encoder_operators[inst.field_operator()]->encode(CREF, s, *pm);            \
  } catch (...)

template <typename T>
static inline void enc_int(int op, int opt, int hasinit, T iv, int prev, T pv,
                           int absent, T fv, encoder_presence_map *pm,
                           observed *o, allocator *alloc) {
  int_field_instruction<T> inst = make_int<T>(op, opt, hasinit, iv);
  seed_prev(inst, prev, int_value_storage<T>(pv).storage_);
  value_storage f;
  if (!absent)
    f = int_value_storage<T>(fv).storage_;
  int_cref<T> c(&f, &inst);
  ENC(c) {
    observe_int<T>(o, &f, &inst);
    throw;
  }
  observe_int<T>(o, &f, &inst);
}
#define D(N, T)                                                                \
  extern "C" void vf_enc1_##N(int op, int opt, int hasinit, T iv, int prev,    \
                              T pv, int absent, T fv,                          \
                              encoder_presence_map *pm, observed *o,           \
                              allocator *a) {                                  \
    enc_int<T>(op, opt, hasinit, iv, prev, pv, absent, fv, pm, o, a);          \
  }
D(i32, int32_t)
D(u32, uint32_t)
D(i64, int64_t)
D(u64, uint64_t)

template <typename K>
static inline void enc_str(int op, int opt, int hasinit, const char *ip,
                           uint64_t in, int prev, const char *pp, uint64_t pn,
                           int absent, const char *fp, uint64_t fn,
                           encoder_presence_map *pm, observed *o,
                           allocator *alloc) {
  typename K::inst inst =
      K::make(static_cast<operator_enum_t>(op),
              static_cast<presence_enum_t>(opt), str_init(hasinit, ip, in));
  seed_prev_owned(inst, prev, pp, pn);
  value_storage f;
  if (!absent)
    f = string_value_storage(fp, fn).storage_;
  typename K::cref c(&f, &inst);
  ENC(c) {
    observe_str<typename K::cref>(o, &f, &inst);
    throw;
  }
  observe_str<typename K::cref>(o, &f, &inst);
}
#define S(N, K)                                                                \
  extern "C" void vf_enc1_##N(int op, int opt, int hasinit, const char *ip,    \
                              uint64_t in, int prev, const char *pp,           \
                              uint64_t pn, int absent, const char *fp,         \
                              uint64_t fn, encoder_presence_map *pm,           \
                              observed *o, allocator *a) {                     \
    enc_str<K>(op, opt, hasinit, ip, in, prev, pp, pn, absent, fp, fn, pm, o,  \
               a);                                                             \
  }
S(ascii, ascii_kind)
S(unicode, unicode_kind)
S(bytes, bytes_kind)

extern "C" void vf_enc1_dec(int op, int opt, int hasinit, int64_t im,
                            int16_t ie, int prev, int64_t pm_, int16_t pe,
                            int absent, int64_t fm, int16_t fe,
                            encoder_presence_map *pm, observed *o,
                            allocator *alloc) {
  decimal_field_instruction inst(
      static_cast<operator_enum_t>(op), static_cast<presence_enum_t>(opt), 1,
      "f", "", nullptr,
      hasinit ? decimal_value_storage(im, ie) : decimal_value_storage());
  seed_prev(inst, prev, decimal_value_storage(pm_, pe).storage_);
  value_storage f;
  if (!absent)
    f = decimal_value_storage(fm, fe).storage_;
  decimal_cref c(&f, &inst);
  ENC(c) {
    observe_dec(o, &f, &inst);
    throw;
  }
  observe_dec(o, &f, &inst);
}
