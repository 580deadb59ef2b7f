#include "drv.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/coder/decoder/decoder_presence_map.h"
#include "mfast/coder/decoder/decoder_field_operator.h"
using namespace vf;

template <typename T>
static inline void dec_int(int op, int opt, int hasinit, T iv, int prev, T pv,
                           value_storage *field, fast_istream *s,
                           decoder_presence_map *pm, observed *o) {
  int_field_instruction<T> inst = make_int<T>(op, opt, hasinit, iv);
  seed_prev(inst, prev, int_value_storage<T>(pv).storage_);
  int_mref<T> m(nullptr, field, &inst);
  try {
    decoder_operators[inst.field_operator()]->decode(m, *s, *pm);
  } catch (...) {
    observe_int<T>(o, field, &inst);
    throw;
  }
  observe_int<T>(o, field, &inst);
}
#define D(N, T)                                                                \
  extern "C" void vf_dec1_##N(int op, int opt, int hasinit, T iv, int prev,    \
                              T pv, value_storage *field, fast_istream *s,     \
                              decoder_presence_map *pm, observed *o) {         \
    dec_int<T>(op, opt, hasinit, iv, prev, pv, field, s, pm, o);               \
  }
D(i32, int32_t)
D(u32, uint32_t)
D(i64, int64_t)
D(u64, uint64_t)

template <typename K>
static inline void dec_str(int op, int opt, int hasinit, const char *ip,
                           uint64_t in, int prev, const char *pp, uint64_t pn,
                           value_storage *field, fast_istream *s,
                           decoder_presence_map *pm, observed *o,
                           allocator *alloc) {
  typename K::inst inst =
      K::make(static_cast<operator_enum_t>(op),
              static_cast<presence_enum_t>(opt), str_init(hasinit, ip, in));
  seed_prev(inst, prev, string_value_storage(pp, pn).storage_);
  typename K::mref m(alloc, field, &inst);
  try {
    decoder_operators[inst.field_operator()]->decode(m, *s, *pm);
  } catch (...) {
    observe_str<typename K::cref>(o, field, &inst);
    throw;
  }
  observe_str<typename K::cref>(o, field, &inst);
}
#define DS(N, K)                                                               \
  extern "C" void vf_dec1_##N(int op, int opt, int hasinit, const char *ip,    \
                              uint64_t in, int prev, const char *pp,           \
                              uint64_t pn, value_storage *field,               \
                              fast_istream *s, decoder_presence_map *pm,       \
                              observed *o, allocator *a) {                     \
    dec_str<K>(op, opt, hasinit, ip, in, prev, pp, pn, field, s, pm, o, a);    \
  }
DS(ascii, ascii_kind)
DS(unicode, unicode_kind)
DS(bytes, bytes_kind)

extern "C" void vf_dec1_dec(int op, int opt, int hasinit, int64_t im,
                            int16_t ie, int prev, int64_t pm_, int16_t pe,
                            value_storage *field, fast_istream *s,
                            decoder_presence_map *pm, observed *o) {
  decimal_field_instruction inst(
      static_cast<operator_enum_t>(op), static_cast<presence_enum_t>(opt), 1,
      "f", "", nullptr,
      hasinit ? decimal_value_storage(im, ie) : decimal_value_storage());
  seed_prev(inst, prev, decimal_value_storage(pm_, pe).storage_);
  decimal_mref m(nullptr, field, &inst);
  try {
    decoder_operators[inst.field_operator()]->decode(m, *s, *pm);
  } catch (...) {
    observe_dec(o, field, &inst);
    throw;
  }
  observe_dec(o, field, &inst);
}
