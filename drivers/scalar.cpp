// Numeric fields: one function per operation of their interface.
#include "drv.h"
#include "mfast.h"
#include "mfast/field_comparator.h"
#include <new>
using namespace mfast;

extern "C" void vf_emit(uint64_t v);

namespace {
const char *names[] = {"a", "b", "c"};
const char *flags[] = {"false", "true"};

template <typename T> int_value_storage<T> initial(uint64_t has, uint64_t v) {
  return has ? int_value_storage<T>(static_cast<T>(v)) : int_value_storage<T>();
}
decimal_value_storage initial_decimal(uint64_t has, uint64_t v, uint64_t x) {
  return has ? decimal_value_storage(static_cast<int64_t>(v), static_cast<int16_t>(x)) : decimal_value_storage();
}
presence_enum_t presence(uint64_t opt) { return opt ? presence_optional : presence_mandatory; }
value_storage *S(void *p) { return static_cast<value_storage *>(p); }

template <typename T> struct integer {
  typedef int_field_instruction<T> inst;
  typedef int_cref<T> cref;
  typedef int_mref<T> mref;
  static void make(void *p, uint64_t opt, uint64_t has, uint64_t v, uint64_t) {
    new (p) inst(operator_none, presence(opt), 7, "f", "", nullptr, initial<T>(has, v));
  }
  static void put(const mref &m, uint64_t v, uint64_t) { m.as(static_cast<T>(v)); }
  static void show(const cref &c) { vf_emit(static_cast<uint64_t>(c.value())); }
  static cref c(const void *i, const void *s) { return cref(static_cast<const value_storage *>(s), static_cast<const inst *>(i)); }
  static mref m(const void *i, void *s) { return mref(nullptr, S(s), static_cast<const inst *>(i)); }
};
struct enumeration {
  typedef enum_field_instruction inst;
  typedef enum_cref cref;
  typedef enum_mref mref;
  static void make(void *p, uint64_t opt, uint64_t has, uint64_t v, uint64_t) {
    new (p) inst(operator_none, presence(opt), 7, "f", "", nullptr, initial<uint64_t>(has, v), names, nullptr, 3, nullptr, "");
  }
  static void put(const mref &m, uint64_t v, uint64_t) { m.as(v); }
  static void show(const cref &c) { vf_emit(c.value()); }
  static cref c(const void *i, const void *s) { return cref(static_cast<const value_storage *>(s), static_cast<const inst *>(i)); }
  static mref m(const void *i, void *s) { return mref(nullptr, S(s), static_cast<const inst *>(i)); }
};
struct decimals {
  typedef decimal_field_instruction inst;
  typedef decimal_cref cref;
  typedef decimal_mref mref;
  static void make(void *p, uint64_t opt, uint64_t has, uint64_t v, uint64_t x) {
    new (p) inst(operator_none, presence(opt), 7, "f", "", nullptr, initial_decimal(has, v, x));
  }
  static void put(const mref &m, uint64_t v, uint64_t x) { m.as(static_cast<int64_t>(v), static_cast<int16_t>(x)); }
  static void show(const cref &c) {
    vf_emit(static_cast<uint64_t>(c.mantissa()));
    vf_emit(static_cast<uint64_t>(c.exponent()) & 0xffff);
  }
  static cref c(const void *i, const void *s) { return cref(static_cast<const value_storage *>(s), static_cast<const inst *>(i)); }
  static mref m(const void *i, void *s) { return mref(nullptr, S(s), static_cast<const inst *>(i)); }
};
// a decimal whose exponent and mantissa have operators of their own; op: the operator of the exponent
struct parted : decimals {
  static void make(void *p, uint64_t opt, uint64_t has, uint64_t v, uint64_t x) {
    mantissa_field_instruction *mi = new (static_cast<char *>(p) + 512)
        mantissa_field_instruction(operator_delta, nullptr, initial<int64_t>(has & 1, v));
    new (p) inst(has & 2 ? operator_constant : operator_copy, presence(opt), 7, "f", "", nullptr, mi, initial_decimal(has & 5, v, x));
  }
};
struct exponents : parted {
  typedef exponent_cref cref;
  typedef exponent_mref mref;
  static void put(const mref &m, uint64_t, uint64_t x) { m.as(static_cast<int16_t>(x)); }
  static void show(const cref &c) { vf_emit(static_cast<uint64_t>(c.value()) & 0xffff); }
  static cref c(const void *i, const void *s) { return decimals::c(i, s).get_exponent(); }
  static mref m(const void *i, void *s) { return decimals::m(i, s).set_exponent(); }
};
struct mantissas : parted {
  typedef int64_cref cref;
  typedef int64_mref mref;
  static void put(const mref &m, uint64_t v, uint64_t) { m.as(static_cast<int64_t>(v)); }
  static void show(const cref &c) { vf_emit(static_cast<uint64_t>(c.value())); }
  static cref c(const void *i, const void *s) { return decimals::c(i, s).get_mantissa(); }
  static mref m(const void *i, void *s) { return decimals::m(i, s).set_mantissa(); }
};
template <typename R> uint64_t state_of(const R &r) {
  return (r.absent() ? 1 : 0) | (r.present() ? 2 : 0) | (r.optional() ? 4 : 0) | (r.is_initial_value() ? 8 : 0);
}
field_mref any(const void *i, void *s) { return field_mref(nullptr, S(s), static_cast<const field_instruction *>(i)); }
template <typename T> uint64_t any_as(const void *i, void *s, T v) {
  any(i, s).as(v);
  return 0;
}
}

extern "C" {
#define KIND(N, K)                                                                                                             \
  void vf_##N##_make(void *p, uint64_t o, uint64_t h, uint64_t v, uint64_t x) { K::make(p, o, h, v, x); }                      \
  void vf_##N##_construct(const void *i, void *s) {                                                                            \
    static_cast<const field_instruction *>(i)->construct_value(*S(s), malloc_allocator::instance());                           \
  }                                                                                                                            \
  void vf_##N##_copy(const void *i, void *s, void *t) {                                                                        \
    static_cast<const field_instruction *>(i)->copy_construct_value(*S(t), *S(s), malloc_allocator::instance());               \
  }                                                                                                                            \
  void vf_##N##_put(const void *i, void *s, uint64_t v, uint64_t x) { K::put(K::m(i, s), v, x); }                              \
  void vf_##N##_asref(const void *i, void *s, const void *j, const void *t) {                                                  \
    K::mref m = K::m(i, s);                                                                                                    \
    m.as(K::c(j, t));                                                                                                          \
  }                                                                                                                            \
  void vf_##N##_tinit(const void *i, void *s) { K::m(i, s).to_initial_value(); }                                               \
  void vf_##N##_show(const void *i, void *s) {                                                                                 \
    K::cref c(K::c(i, s));                                                                                                     \
    vf_emit(state_of(c));                                                                                                      \
    K::show(c);                                                                                                                \
  }                                                                                                                            \
  void vf_##N##_mshow(const void *i, void *s) {                                                                                \
    K::mref m(K::m(i, s));                                                                                                     \
    vf_emit(state_of(m));                                                                                                      \
    K::show(m);                                                                                                                \
  }                                                                                                                            \
  void vf_##N##_omit(const void *i, void *s) { K::m(i, s).omit(); }                                                            \
  uint64_t vf_##N##_any_int(const void *i, void *s, uint64_t v) { return any_as<int32_t>(i, s, static_cast<int32_t>(v)); }     \
  uint64_t vf_##N##_any_unsigned(const void *i, void *s, uint64_t v) { return any_as<uint32_t>(i, s, static_cast<uint32_t>(v)); } \
  uint64_t vf_##N##_any_long(const void *i, void *s, uint64_t v) { return any_as<int64_t>(i, s, static_cast<int64_t>(v)); }    \
  uint64_t vf_##N##_any_ulong(const void *i, void *s, uint64_t v) { return any_as<uint64_t>(i, s, v); }                        \
  uint64_t vf_##N##_any_text(const void *i, void *s, uint64_t) { return any_as<const char *>(i, s, "x"); }                     \
  uint64_t vf_##N##_any_bytes(const void *i, void *s, uint64_t) {                                                              \
    std::vector<unsigned char> v;                                                                                              \
    return any_as<const std::vector<unsigned char> &>(i, s, v);                                                                \
  }                                                                                                                            \
  uint64_t vf_##N##_casts(const void *i, void *s) {                                                                            \
    K::cref a(any(i, s));                                                                                                      \
    K::mref b(any(i, s));                                                                                                      \
    return (field_cref_core_access::storage_of(a) == s && a.instruction() == K::c(i, s).instruction() ? 1 : 0) |               \
           (field_cref_core_access::storage_of(b) == s && b.instruction() == K::c(i, s).instruction() ? 2 : 0);                \
  }
#define EQ(N, K)                                                                                                               \
  uint64_t vf_##N##_eq(const void *i, void *s, const void *j, void *t) {                                                       \
    return (K::c(i, s) == K::c(j, t) ? 1 : 0) | (K::c(i, s) != K::c(j, t) ? 2 : 0);                                            \
  }
#define CLEAR(N, K)                                                                                                            \
  void vf_##N##_clear(const void *i, void *s) { K::m(i, s).clear(); }
KIND(i32, integer<int32_t>)
EQ(i32, integer<int32_t>)
CLEAR(i32, integer<int32_t>)
KIND(u32, integer<uint32_t>)
EQ(u32, integer<uint32_t>)
CLEAR(u32, integer<uint32_t>)
KIND(i64, integer<int64_t>)
EQ(i64, integer<int64_t>)
CLEAR(i64, integer<int64_t>)
KIND(u64, integer<uint64_t>)
EQ(u64, integer<uint64_t>)
CLEAR(u64, integer<uint64_t>)
KIND(enm, enumeration)
EQ(enm, enumeration)
CLEAR(enm, enumeration)
KIND(dec, decimals)
EQ(dec, decimals)
CLEAR(dec, decimals)
KIND(par, parted)
EQ(par, parted)
CLEAR(par, parted)
KIND(xpo, exponents)
KIND(man, mantissas)
CLEAR(man, mantissas)

// integers become decimals, and decimals lose trailing zeros
void vf_dec_int(const void *i, void *s, uint64_t v) { decimals::m(i, s).as(static_cast<int64_t>(v)); }
void vf_par_int(const void *i, void *s, uint64_t v) { decimals::m(i, s).as(static_cast<int64_t>(v)); }
void vf_dec_norm(const void *i, void *s) { decimals::m(i, s).normalize(); }
void vf_par_norm(const void *i, void *s) { decimals::m(i, s).normalize(); }
void vf_dec_setm(const void *i, void *s, uint64_t v) { decimals::m(i, s).set_mantissa(static_cast<int64_t>(v)); }
void vf_dec_setx(const void *i, void *s, uint64_t v) { decimals::m(i, s).set_exponent(static_cast<int32_t>(v)); }

void vf_boolean_make(void *p, uint64_t opt, uint64_t has, uint64_t v) {
  new (p) enum_field_instruction(operator_none, presence(opt), 7, "f", "", nullptr, initial<uint64_t>(has, v),
                                 boolean::instruction()->elements(), nullptr, 2, boolean::instruction(), "mfast");
}
void vf_boolean_put(const void *i, void *s, uint64_t v, uint64_t how) {
  boolean_mref m(nullptr, S(s), static_cast<const boolean::instruction_type *>(i));
  if (how == 0)
    m.as(v != 0);
  else if (v)
    m.as_true();
  else
    m.as_false();
}
void vf_boolean_omit(const void *i, void *s) { boolean_mref(nullptr, S(s), static_cast<const boolean::instruction_type *>(i)).omit(); }
void vf_boolean_show(const void *i, void *s) {
  boolean_cref c(S(s), static_cast<const boolean::instruction_type *>(i));
  enum_cref e(S(s), static_cast<const boolean::instruction_type *>(i));
  vf_emit((c.absent() ? 1 : 0) | (c.present() ? 2 : 0));
  vf_emit(c.value());
  vf_emit(c.is_true());
  vf_emit(c.is_false());
  vf_emit(e.is_boolean());
  vf_emit(static_cast<unsigned char>(e.value_name()[0]));
}
uint64_t vf_scalar_isbool(const void *i, void *s) { return enumeration::c(i, s).is_boolean(); }
uint64_t vf_scalar_name(const void *i, void *s) {
  const char *p = enumeration::c(i, s).value_name();
  return p ? static_cast<unsigned char>(p[0]) : 0;
}
void vf_scalar_sparse(void *p, const uint64_t *values) {
  new (p) enum_field_instruction(operator_none, presence_mandatory, 7, "f", "", nullptr, initial<uint64_t>(0, 0), names, values, 3, nullptr, "");
}
}
