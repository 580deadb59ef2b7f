// JSON rendering and reading of messages through the public interface.
#include "drv.h"
#include "mfast.h"
#include "mfast/json/json.h"
#include "gen/json.h"
#include "gen/json.cpp"
#include <new>
using namespace mfast;

// supplied by the interpreter: choices made by the scenario, and what is seen
extern "C" int vf_ask(int what, int range);
extern "C" int64_t vf_val(int what);
extern "C" const char *vf_chars(int what, uint64_t *n);
extern "C" void vf_emit(int what, int64_t a, int64_t b);
extern "C" void vf_emit_str(const void *p, uint64_t n);

enum { E_ABSENT, E_INT, E_GROUP, E_END, E_SEQ, E_ELEM, E_MSG, E_VEC, E_DEC, E_BAD };
static malloc_allocator the_alloc;

static const template_instruction *template_at(int i) {
  switch (i) {
#define T(N, NAME)                                                             \
  case N:                                                                      \
    return ::json::NAME::instruction();
    T(1, Ints)
    T(2, Dec)
    T(3, Str)
    T(4, Uni)
    T(5, Bytes)
    T(6, Raw)
    T(7, Vec1)
    T(8, Vec2)
    T(9, Grp)
    T(10, Seq)
    T(11, SeqSeq)
    T(12, Plain)
    T(13, PlainStr)
    T(14, Enums)
    T(15, Leaf)
    T(16, Dyn)
    T(18, Nest)
  default:
    return ::json::Tags::instruction();
  }
}

template <typename T> static void put_vec(const field_mref &f) {
  int_vector_mref<T> v(f);
  int n = vf_ask(E_VEC, 3);
  v.resize(n);
  for (int i = 0; i < n; ++i)
    v[i] = static_cast<T>(vf_val(f.instruction()->field_type()));
}
static void fill(const aggregate_mref &a);
static void fill_field(const field_mref &f) {
  field_type_enum_t t = f.instruction()->field_type();
  if (t == field_type_templateref) {
    nested_message_mref n(f);
    if (vf_ask(E_ABSENT, 2))
      return;
    message_mref m = n.rebind(template_at(15));
    fill(aggregate_mref(m));
    return;
  }
  if (f.optional() && vf_ask(E_ABSENT, 2)) {
    f.omit();
    return;
  }
  switch (t) {
  case field_type_int32:
    int32_mref(f).as(static_cast<int32_t>(vf_val(t)));
    break;
  case field_type_uint32:
    uint32_mref(f).as(static_cast<uint32_t>(vf_val(t)));
    break;
  case field_type_int64:
    int64_mref(f).as(vf_val(t));
    break;
  case field_type_uint64:
    uint64_mref(f).as(static_cast<uint64_t>(vf_val(t)));
    break;
  case field_type_enum:
    enum_mref(f).as(static_cast<uint64_t>(vf_val(t)));
    break;
  case field_type_exponent:
  case field_type_decimal: {
    int64_t m = vf_val(t);
    decimal_mref(f).as(m, static_cast<int16_t>(vf_val(E_DEC)));
    break;
  }
  case field_type_ascii_string: {
    uint64_t n;
    const char *p = vf_chars(t, &n);
    ascii_string_mref(f).refers_to(boost::string_ref(p, n));
    break;
  }
  case field_type_unicode_string: {
    uint64_t n;
    const char *p = vf_chars(t, &n);
    unicode_string_mref(f).refers_to(boost::string_ref(p, n));
    break;
  }
  case field_type_byte_vector: {
    uint64_t n;
    const unsigned char *p = reinterpret_cast<const unsigned char *>(
        vf_chars(f.instruction()->tag().to_uint64() ? -t : t, &n));
    byte_vector_mref(f).refers_to(p, n);
    break;
  }
  case field_type_int32_vector:
    put_vec<int32_t>(f);
    break;
  case field_type_uint32_vector:
    put_vec<uint32_t>(f);
    break;
  case field_type_int64_vector:
    put_vec<int64_t>(f);
    break;
  case field_type_uint64_vector:
    put_vec<uint64_t>(f);
    break;
  case field_type_group:
    fill(aggregate_mref(group_mref(f)));
    break;
  case field_type_sequence: {
    sequence_mref s(f);
    int n = vf_ask(E_SEQ, 3);
    s.resize(n);
    for (int i = 0; i < n; ++i)
      fill(s[i]);
    break;
  }
  default:
    vf_emit(E_BAD, t, 0);
  }
}
static void fill(const aggregate_mref &a) {
  for (std::size_t i = 0; i < a.num_fields(); ++i)
    fill_field(a[i]);
}

template <typename T> static void dump_int(const field_cref &f) {
  vf_emit(E_INT, static_cast<int64_t>(int_cref<T>(f).value()), f.instruction()->field_type());
}
template <typename T> static void dump_vec(const field_cref &f) {
  int_vector_cref<T> c(f);
  vf_emit(E_VEC, static_cast<int64_t>(c.size()), 0);
  for (std::size_t i = 0; i < c.size(); ++i)
    vf_emit(E_INT, static_cast<int64_t>(c[i]), f.instruction()->field_type());
}
static void dump(const aggregate_cref &a);
static void dump_field(const field_cref &f) {
  field_type_enum_t t = f.instruction()->field_type();
  if (t == field_type_templateref) {
    nested_message_cref n(f);
    if (n.target_instruction() == nullptr) {
      vf_emit(E_ABSENT, 0, 0);
      return;
    }
    vf_emit(E_MSG, n.target().id(), 0);
    dump(n.target());
    vf_emit(E_END, 0, 0);
    return;
  }
  if (f.absent()) {
    vf_emit(E_ABSENT, 0, 0);
    return;
  }
  switch (t) {
  case field_type_int32:
    dump_int<int32_t>(f);
    break;
  case field_type_uint32:
    dump_int<uint32_t>(f);
    break;
  case field_type_int64:
    dump_int<int64_t>(f);
    break;
  case field_type_uint64:
    dump_int<uint64_t>(f);
    break;
  case field_type_enum:
    vf_emit(E_INT, static_cast<int64_t>(enum_cref(f).value()), t);
    break;
  case field_type_exponent:
  case field_type_decimal: {
    decimal_cref d(f);
    vf_emit(E_DEC, d.mantissa(), d.exponent());
    break;
  }
  case field_type_ascii_string: {
    ascii_string_cref s(f);
    vf_emit_str(s.data(), s.size());
    break;
  }
  case field_type_unicode_string: {
    unicode_string_cref s(f);
    vf_emit_str(s.data(), s.size());
    break;
  }
  case field_type_byte_vector: {
    byte_vector_cref s(f);
    vf_emit_str(s.data(), s.size());
    break;
  }
  case field_type_int32_vector:
    dump_vec<int32_t>(f);
    break;
  case field_type_uint32_vector:
    dump_vec<uint32_t>(f);
    break;
  case field_type_int64_vector:
    dump_vec<int64_t>(f);
    break;
  case field_type_uint64_vector:
    dump_vec<uint64_t>(f);
    break;
  case field_type_group: {
    vf_emit(E_GROUP, 0, 0);
    aggregate_cref g{group_cref(f)};
    dump(g);
    vf_emit(E_END, 0, 0);
    break;
  }
  case field_type_sequence: {
    sequence_cref s(f);
    vf_emit(E_SEQ, static_cast<int64_t>(s.size()), 0);
    for (std::size_t i = 0; i < s.size(); ++i) {
      vf_emit(E_ELEM, 0, 0);
      dump(s[i]);
      vf_emit(E_END, 0, 0);
    }
    break;
  }
  default:
    vf_emit(E_BAD, t, 0);
  }
}
static void dump(const aggregate_cref &a) {
  for (std::size_t i = 0; i < a.num_fields(); ++i)
    dump_field(a[i]);
}

extern "C" void vf_message(message_type *m, int t) {
  new (m) message_type(&the_alloc, template_at(t), nullptr);
}
extern "C" uint64_t vf_message_size() { return sizeof(message_type); }
extern "C" void vf_fill(message_type *m) { fill(aggregate_mref(m->mref())); }
extern "C" void vf_dump(const message_type *m) {
  dump(aggregate_cref(m->cref()));
}
extern "C" bool vf_encode(std::ostream *os, const message_type *m,
                          unsigned raw) {
  return mfast::json::encode(*os, aggregate_cref(m->cref()), raw);
}
extern "C" bool vf_encode_ignore(std::ostream *os, const message_type *m,
                                 unsigned raw, unsigned ignore) {
  return mfast::json::encode(*os, aggregate_cref(m->cref()), raw, ignore);
}
extern "C" bool vf_encode_seq(std::ostream *os, const message_type *m,
                              unsigned raw) {
  return mfast::json::encode(*os, sequence_cref(m->cref()[0]), raw);
}
extern "C" void vf_decode(std::istream *is, message_type *m,
                          unsigned raw) {
  mfast::json::decode(*is, aggregate_mref(m->mref()), raw);
}
extern "C" void vf_decode_seq(std::istream *is, message_type *m,
                              unsigned raw) {
  mfast::json::decode(*is, sequence_mref(aggregate_mref(m->mref())[0]), raw);
}
