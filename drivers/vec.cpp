// Fields that hold a string, a byte vector or an integer vector: one function per operation of the container interface
// and element type.
#include "drv.h"
#include <vector>
#include <new>
using namespace mfast;

namespace {
// a single pass iterator
template <typename T> struct once {
  typedef std::input_iterator_tag iterator_category;
  typedef T value_type;
  typedef std::ptrdiff_t difference_type;
  typedef const T *pointer;
  typedef const T &reference;
  const T *p;
  const T &operator*() const { return *p; }
  once &operator++() {
    ++p;
    return *this;
  }
  bool operator!=(const once &o) const { return p != o.p; }
  bool operator==(const once &o) const { return p == o.p; }
};
}

extern "C" {
void vf_vec_set(value_storage *s, void *content, uint32_t absent, uint32_t n, uint32_t cap) {
  new (s) value_storage();
  s->of_array.content_ = content;
  if (!absent)
    s->array_length(n);
  s->of_array.capacity_in_bytes_ = cap;
}
uint64_t vf_vec_cap(value_storage *s) { return s->of_array.capacity_in_bytes_; }
void *vf_vec_data(value_storage *s) { return s->of_array.content_; }
uint64_t vf_storage_size() { return sizeof(value_storage); }
}

#define COMMON(N, E, MREF, CREF, INST, MAKE)                                                                           \
  extern "C" {                                                                                                         \
  INST *vf_##N##_inst(int opt, int init, const char *iv, uint64_t ivn) { return MAKE; }                                \
  uint64_t vf_##N##_size(value_storage *s, INST *i) { return CREF(s, i).size(); }                                      \
  uint64_t vf_##N##_absent(value_storage *s, INST *i) { return CREF(s, i).absent(); }                                  \
  uint64_t vf_##N##_width() { return sizeof(E); }                                                                      \
  E vf_##N##_get(value_storage *s, INST *i, uint64_t k) { return CREF(s, i)[k]; }                                      \
  uint64_t vf_##N##_span(value_storage *s, INST *i) { return CREF(s, i).end() - CREF(s, i).begin(); }                  \
  void vf_##N##_resize(allocator *a, value_storage *s, INST *i, uint64_t n) { MREF(a, s, i).resize(n); }               \
  void vf_##N##_resize_c(allocator *a, value_storage *s, INST *i, uint64_t n, char c) { MREF(a, s, i).resize(n, c); }  \
  void vf_##N##_reserve(allocator *a, value_storage *s, INST *i, uint64_t n) { MREF(a, s, i).reserve(n); }             \
  void vf_##N##_push(allocator *a, value_storage *s, INST *i, E v) { MREF(a, s, i).push_back(v); }                     \
  void vf_##N##_pop(allocator *a, value_storage *s, INST *i) { MREF(a, s, i).pop_back(); }                             \
  uint64_t vf_##N##_insert1(allocator *a, value_storage *s, INST *i, uint64_t pos, E v) {                              \
    MREF m(a, s, i);                                                                                                   \
    E *r = m.insert(m.begin() + pos, v);                                                                               \
    return r - m.begin();                                                                                              \
  }                                                                                                                    \
  void vf_##N##_insertn(allocator *a, value_storage *s, INST *i, uint64_t pos, uint64_t n, E v) {                      \
    MREF m(a, s, i);                                                                                                   \
    m.insert(m.begin() + pos, static_cast<std::size_t>(n), v);                                                         \
  }                                                                                                                    \
  void vf_##N##_insert(allocator *a, value_storage *s, INST *i, uint64_t pos, const E *p, uint64_t n) {                \
    MREF m(a, s, i);                                                                                                   \
    m.insert(m.begin() + pos, p, p + n);                                                                               \
  }                                                                                                                    \
  void vf_##N##_inserti(allocator *a, value_storage *s, INST *i, uint64_t pos, const E *p, uint64_t n) {               \
    MREF m(a, s, i);                                                                                                   \
    once<E> f, l;                                                                                                      \
    f.p = p;                                                                                                           \
    l.p = p + n;                                                                                                       \
    m.insert(m.begin() + pos, f, l);                                                                                   \
  }                                                                                                                    \
  void vf_##N##_assign(allocator *a, value_storage *s, INST *i, const E *p, uint64_t n) {                              \
    MREF(a, s, i).assign(p, p + n);                                                                                    \
  }                                                                                                                    \
  void vf_##N##_assigni(allocator *a, value_storage *s, INST *i, const E *p, uint64_t n) {                             \
    once<E> f, l;                                                                                                      \
    f.p = p;                                                                                                           \
    l.p = p + n;                                                                                                       \
    MREF(a, s, i).assign(f, l);                                                                                        \
  }                                                                                                                    \
  void vf_##N##_assignn(allocator *a, value_storage *s, INST *i, uint64_t n, E v) {                                    \
    MREF(a, s, i).assign(static_cast<std::size_t>(n), v);                                                              \
  }                                                                                                                    \
  void vf_##N##_refers(allocator *a, value_storage *s, INST *i, const E *p, uint64_t n) {                              \
    static_cast<const vector_mref_base<EL_##N> &>(MREF(a, s, i)).refers_to(p, n);                                      \
  }                                                                                                                    \
  void vf_##N##_replace(allocator *a, value_storage *s, INST *i, uint64_t pos, uint64_t count, const E *p,             \
                        uint64_t n) {                                                                                  \
    MREF(a, s, i).replace(pos, count, p, n);                                                                           \
  }                                                                                                                    \
  void vf_##N##_as(allocator *a, value_storage *s, INST *i, value_storage *o) { MREF(a, s, i).as(CREF(o, i)); }        \
  void vf_##N##_swap(allocator *a, value_storage *s, INST *i, value_storage *o) { MREF(a, s, i).swap(MREF(a, o, i)); } \
  void vf_##N##_omit(allocator *a, value_storage *s, INST *i) { MREF(a, s, i).omit(); }                                \
  void vf_##N##_clear(allocator *a, value_storage *s, INST *i) { MREF(a, s, i).clear(); }                              \
  uint64_t vf_##N##_at(allocator *a, value_storage *s, INST *i, uint64_t k, E v) {                                     \
    MREF m(a, s, i);                                                                                                   \
    m[k] = v;                                                                                                          \
    return m.end() - m.begin();                                                                                        \
  }                                                                                                                    \
  uint64_t vf_##N##_cmp(value_storage *s, INST *i, value_storage *o, int op) {                                         \
    return op ? CREF(s, i) != CREF(o, i) : CREF(s, i) == CREF(o, i);                                                   \
  }                                                                                                                    \
  void vf_##N##_release(allocator *a, value_storage *s, INST *i) { i->destruct_value(*s, a); }                         \
  void vf_##N##_copy(allocator *a, value_storage *s, INST *i, value_storage *o) {                                      \
    i->copy_construct_value(*o, *s, a, nullptr);                                                                       \
  }                                                                                                                    \
  }

#define STRING(N, MREF, CREF)                                                                                          \
  extern "C" {                                                                                                         \
  void vf_##N##_append(allocator *a, value_storage *s, CREF::instruction_cptr i, const char *p, uint64_t n) {          \
    MREF(a, s, i).append(boost::string_ref(p, n));                                                                     \
  }                                                                                                                    \
  void vf_##N##_append_sub(allocator *a, value_storage *s, CREF::instruction_cptr i, const char *p, uint64_t n,        \
                           uint64_t pos, uint64_t k) {                                                                 \
    MREF(a, s, i).append(boost::string_ref(p, n), pos, k);                                                             \
  }                                                                                                                    \
  void vf_##N##_append_pn(allocator *a, value_storage *s, CREF::instruction_cptr i, const char *p, uint64_t n) {       \
    MREF(a, s, i).append(p, static_cast<std::size_t>(n));                                                              \
  }                                                                                                                    \
  void vf_##N##_append_nc(allocator *a, value_storage *s, CREF::instruction_cptr i, uint64_t n, char c) {              \
    MREF(a, s, i).append(static_cast<std::size_t>(n), c);                                                              \
  }                                                                                                                    \
  void vf_##N##_plus(allocator *a, value_storage *s, CREF::instruction_cptr i, const char *p, uint64_t n) {            \
    MREF(a, s, i) += boost::string_ref(p, n);                                                                          \
  }                                                                                                                    \
  void vf_##N##_plus_c(allocator *a, value_storage *s, CREF::instruction_cptr i, char c) { MREF(a, s, i) += c; }       \
  void vf_##N##_set(allocator *a, value_storage *s, CREF::instruction_cptr i, const char *p, uint64_t n) {             \
    MREF m(a, s, i);                                                                                                   \
    m = boost::string_ref(p, n);                                                                                       \
  }                                                                                                                    \
  void vf_##N##_as_ref(allocator *a, value_storage *s, CREF::instruction_cptr i, const char *p, uint64_t n) {          \
    MREF(a, s, i).as(boost::string_ref(p, n));                                                                         \
  }                                                                                                                    \
  const char *vf_##N##_c_str(value_storage *s, CREF::instruction_cptr i) { return CREF(s, i).c_str(); }                \
  uint64_t vf_##N##_order(value_storage *s, CREF::instruction_cptr i, value_storage *o, int op) {                      \
    CREF x(s, i), y(o, i);                                                                                             \
    boost::string_ref z(y.data(), y.size());                                                                           \
    switch (op) {                                                                                                      \
    case 0:                                                                                                            \
      return x == y;                                                                                                   \
    case 1:                                                                                                            \
      return x != y;                                                                                                   \
    case 2:                                                                                                            \
      return x < y;                                                                                                    \
    case 3:                                                                                                            \
      return x <= y;                                                                                                   \
    case 4:                                                                                                            \
      return x > y;                                                                                                    \
    case 5:                                                                                                            \
      return x >= y;                                                                                                   \
    case 6:                                                                                                            \
      return x == z;                                                                                                   \
    case 7:                                                                                                            \
      return x != z;                                                                                                   \
    case 8:                                                                                                            \
      return x < z;                                                                                                    \
    case 9:                                                                                                            \
      return x <= z;                                                                                                   \
    case 10:                                                                                                           \
      return x > z;                                                                                                    \
    case 11:                                                                                                           \
      return x >= z;                                                                                                   \
    case 12:                                                                                                           \
      return x.compare(y) < 0 ? 2 : x.compare(y) > 0;                                                                  \
    default:                                                                                                           \
      return x.compare(z) < 0 ? 2 : x.compare(z) > 0;                                                                  \
    }                                                                                                                  \
  }                                                                                                                    \
  }

#define INITIAL(N, MREF, CREF)                                                                                         \
  extern "C" {                                                                                                         \
  void vf_##N##_initial(allocator *a, value_storage *s, CREF::instruction_cptr i) {                                    \
    MREF(a, s, i).to_initial_value();                                                                                  \
  }                                                                                                                    \
  uint64_t vf_##N##_is_initial(value_storage *s, CREF::instruction_cptr i) { return CREF(s, i).is_initial_value(); }   \
  }

#define SIV (init ? string_value_storage(iv, ivn) : string_value_storage())
#define OPT static_cast<presence_enum_t>(opt)
typedef char EL_ascii;
typedef utf8_char EL_unicode;
typedef unsigned char EL_bytes;
typedef int32_t EL_i32;
typedef uint32_t EL_u32;
typedef int64_t EL_i64;
typedef uint64_t EL_u64;
COMMON(ascii, char, ascii_string_mref, ascii_string_cref, ascii_field_instruction,
       new ascii_field_instruction(operator_default, OPT, 1, "f", "", nullptr, SIV))
COMMON(unicode, char, unicode_string_mref, unicode_string_cref, unicode_field_instruction,
       new unicode_field_instruction(operator_default, OPT, 1, "f", "", nullptr, SIV, 0, "", ""))
COMMON(bytes, unsigned char, byte_vector_mref, byte_vector_cref, byte_vector_field_instruction,
       new byte_vector_field_instruction(operator_default, OPT, 1, "f", "", nullptr, SIV, 0, "", ""))
COMMON(i32, int32_t, int32_vector_mref, int32_vector_cref, int32_vector_field_instruction,
       new int32_vector_field_instruction(OPT, 1, "f", ""))
COMMON(u32, uint32_t, uint32_vector_mref, uint32_vector_cref, uint32_vector_field_instruction,
       new uint32_vector_field_instruction(OPT, 1, "f", ""))
COMMON(i64, int64_t, int64_vector_mref, int64_vector_cref, int64_vector_field_instruction,
       new int64_vector_field_instruction(OPT, 1, "f", ""))
COMMON(u64, uint64_t, uint64_vector_mref, uint64_vector_cref, uint64_vector_field_instruction,
       new uint64_vector_field_instruction(OPT, 1, "f", ""))
INITIAL(ascii, ascii_string_mref, ascii_string_cref)
INITIAL(unicode, unicode_string_mref, unicode_string_cref)
INITIAL(bytes, byte_vector_mref, byte_vector_cref)
STRING(ascii, ascii_string_mref, ascii_string_cref)
STRING(unicode, unicode_string_mref, unicode_string_cref)

// standalone values
#define VALUE(N, TYPE, E)                                                                                              \
  extern "C" {                                                                                                         \
  uint64_t vf_##N##_value(allocator *a, const E *p, uint64_t n) {                                                      \
    TYPE v(a);                                                                                                         \
    v.mref().assign(p, p + n);                                                                                         \
    return v.cref().size();                                                                                            \
  }                                                                                                                    \
  }
VALUE(bytes, byte_vector_type, unsigned char)
VALUE(ascii, ascii_string_type, char)
VALUE(unicode, unicode_string_type, char)
VALUE(i32, int32_vector_type, int32_t)
VALUE(u32, uint32_vector_type, uint32_t)
VALUE(i64, int64_vector_type, int64_t)
VALUE(u64, uint64_vector_type, uint64_t)
