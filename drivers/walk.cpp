// Whole messages through the public codec interfaces: the analysed entry
// points for the structure of segments, groups, sequences and nested messages.
#include "drv.h"
#include "mfast.h"
#include "mfast/coder/fast_decoder.h"
#include "mfast/coder/fast_encoder.h"
#include "mfast/coder/fast_decoder_v2.h"
#include "mfast/coder/fast_encoder_v2.h"
#include "mfast/field_visitor.h"
#include "gen/shapes.h"
#include "gen/shapes.cpp"
#include <new>
using namespace mfast;

// supplied by the interpreter: choices made by the scenario, and the tree seen
extern "C" int vf_ask(int what, int range);
extern "C" int64_t vf_val(int what);
extern "C" void vf_emit(int what, int64_t a, int64_t b);
extern "C" void vf_emit_str(const void *p, uint64_t n);
extern "C" void vf_alloc_fix(allocator *);

enum { E_ABSENT, E_INT, E_GROUP, E_END, E_SEQ, E_ELEM, E_MSG, E_VEC, E_DEC, E_MESSAGE };

static malloc_allocator the_alloc;

template <typename T> static void dump_int(const field_cref &f) {
  int_cref<T> c(f);
  vf_emit(E_INT, static_cast<int64_t>(c.value()), 0);
}
template <typename T> static void dump_vec(const field_cref &f) {
  int_vector_cref<T> c(f);
  vf_emit(E_VEC, static_cast<int64_t>(c.size()), 0);
  for (std::size_t i = 0; i < c.size(); ++i)
    vf_emit(E_INT, static_cast<int64_t>(c[i]), 0);
}
static void dump(const aggregate_cref &a);
static void dump_field(const field_cref &f) {
  field_type_enum_t t = f.instruction()->field_type();
  if (t == field_type_templateref) {
    nested_message_cref n(f);
    if (n.target_instruction() == nullptr) {
      vf_emit(E_ABSENT, 0, 0);
      return;
    }
    vf_emit(E_MSG, n.target().id(), 0);
    dump(n.target());
    vf_emit(E_END, 0, 0);
    return;
  }
  if (f.absent()) {
    vf_emit(E_ABSENT, 0, 0);
    return;
  }
  switch (t) {
  case field_type_int32:
    dump_int<int32_t>(f);
    break;
  case field_type_uint32:
    dump_int<uint32_t>(f);
    break;
  case field_type_int64:
    dump_int<int64_t>(f);
    break;
  case field_type_uint64:
    dump_int<uint64_t>(f);
    break;
  case field_type_enum:
    vf_emit(E_INT, static_cast<int64_t>(enum_cref(f).value()), 0);
    break;
  case field_type_exponent:
  case field_type_decimal: {
    decimal_cref d(f);
    vf_emit(E_DEC, d.mantissa(), d.exponent());
    break;
  }
  case field_type_ascii_string: {
    ascii_string_cref s(f);
    vf_emit_str(s.data(), s.size());
    break;
  }
  case field_type_unicode_string: {
    unicode_string_cref s(f);
    vf_emit_str(s.data(), s.size());
    break;
  }
  case field_type_byte_vector: {
    byte_vector_cref s(f);
    vf_emit_str(s.data(), s.size());
    break;
  }
  case field_type_int64_vector:
    dump_vec<int64_t>(f);
    break;
  case field_type_uint32_vector:
    dump_vec<uint32_t>(f);
    break;
  case field_type_group: {
    vf_emit(E_GROUP, 0, 0);
    aggregate_cref g{group_cref(f)};
    dump(g);
    vf_emit(E_END, 0, 0);
    break;
  }
  case field_type_sequence: {
    sequence_cref s(f);
    vf_emit(E_SEQ, static_cast<int64_t>(s.size()), 0);
    for (std::size_t i = 0; i < s.size(); ++i) {
      vf_emit(E_ELEM, 0, 0);
      dump(s[i]);
      vf_emit(E_END, 0, 0);
    }
    break;
  }
  default:
    vf_emit(-1, t, 0);
  }
}
static void dump(const aggregate_cref &a) {
  for (std::size_t i = 0; i < a.num_fields(); ++i)
    dump_field(a[i]);
}
static void dump_message(const message_cref &m) {
  vf_emit(E_MESSAGE, m.id(), 0);
  dump(m);
  vf_emit(E_END, 0, 0);
}

// ---------------------------------------------------- filling a message
static const template_instruction *template_at(int i) {
  switch (i) {
  case 0:
    return shapes::Leaf::instruction();
  case 1:
    return shapes::Bare::instruction();
  case 2:
    return shapes::Boxed::instruction();
  case 3:
    return shapes::Groups::instruction();
  case 4:
    return shapes::Seqs::instruction();
  case 5:
    return shapes::LenOps::instruction();
  case 6:
    return shapes::Dyn::instruction();
  case 7:
    return shapes::Stat::instruction();
  case 8:
    return shapes::Vecs::instruction();
  case 9:
    return shapes::Split::instruction();
  case 10:
    return shapes::Reset::instruction();
  case 11:
    return shapes::Types::instruction();
  case 12:
    return shapes::Deep::instruction();
  default:
    return shapes::DynSeq::instruction();
  }
}
static void fill(const aggregate_mref &a);
static const unsigned char bytes_to_put[] = {'a', 'b'};
static void fill_field(const field_mref &f) {
  field_type_enum_t t = f.instruction()->field_type();
  if (t == field_type_templateref) {
    nested_message_mref n(f);
    message_mref m = n.rebind(template_at(vf_ask(E_MSG, 0)));
    fill(aggregate_mref(m));
    return;
  }
  if (f.optional() && vf_ask(E_ABSENT, 2)) {
    f.omit();
    return;
  }
  bool constant = f.instruction()->field_operator() == operator_constant;
  switch (t) {
  case field_type_int64:
    if (constant)
      int64_mref(f).to_initial_value();
    else
      int64_mref(f).as(vf_val(E_INT));
    break;
  case field_type_uint64:
    if (constant)
      uint64_mref(f).to_initial_value();
    else
      uint64_mref(f).as(static_cast<uint64_t>(vf_val(E_INT)));
    break;
  case field_type_enum:
    enum_mref(f).as(static_cast<uint64_t>(vf_val(E_ABSENT)));
    break;
  case field_type_exponent:
  case field_type_decimal:
    decimal_mref(f).as(vf_val(E_INT), static_cast<int16_t>(vf_val(E_DEC)));
    break;
  case field_type_ascii_string:
    ascii_string_mref(f).as("xyz");
    break;
  case field_type_unicode_string:
    unicode_string_mref(f).as("uvw");
    break;
  case field_type_byte_vector:
    byte_vector_mref(f).assign(bytes_to_put, bytes_to_put + 2);
    break;
  case field_type_int64_vector: {
    int64_vector_mref v(f);
    int n = vf_ask(E_VEC, 3);
    v.resize(n);
    for (int i = 0; i < n; ++i)
      v[i] = vf_val(E_INT);
    break;
  }
  case field_type_group: {
    group_mref g(f);
    fill(aggregate_mref(g));
    break;
  }
  case field_type_sequence: {
    sequence_mref s(f);
    const uint32_field_instruction *length =
        s.instruction()->length_instruction();
    int n = length->field_operator() == operator_constant
                ? length->initial_value().get<uint32_t>()
                : vf_ask(E_SEQ, 3);
    s.resize(n);
    for (int i = 0; i < n; ++i)
      fill(s[i]);
    break;
  }
  default:
    vf_emit(-1, t, 0);
  }
}
static void fill(const aggregate_mref &a) {
  for (std::size_t i = 0; i < a.num_fields(); ++i)
    fill_field(a[i]);
}

// the dictionary entries the instructions of a template use
extern "C" void vf_prev(const value_storage *);
static void prevs(const group_field_instruction *g);
static void prev_of(const field_instruction *i) {
  switch (i->field_type()) {
  case field_type_group:
    prevs(static_cast<const group_field_instruction *>(i));
    break;
  case field_type_sequence: {
    const sequence_field_instruction *s =
        static_cast<const sequence_field_instruction *>(i);
    prev_of(s->length_instruction());
    prevs(s);
    break;
  }
  case field_type_ascii_string:
    vf_prev(&static_cast<const ascii_field_instruction *>(i)->prev_value());
    break;
  case field_type_unicode_string:
    vf_prev(&static_cast<const unicode_field_instruction *>(i)->prev_value());
    break;
  case field_type_byte_vector:
    vf_prev(&static_cast<const byte_vector_field_instruction *>(i)->prev_value());
    break;
  case field_type_exponent:
  case field_type_decimal: {
    const decimal_field_instruction *d =
        static_cast<const decimal_field_instruction *>(i);
    if (d->mantissa_instruction())
      vf_prev(&d->mantissa_instruction()->prev_value());
    vf_prev(&d->prev_value());
    break;
  }
  case field_type_templateref:
  case field_type_int64_vector:
    break;
  default:
    vf_prev(&static_cast<const integer_field_instruction_base *>(i)->prev_value());
  }
}
static void prevs(const group_field_instruction *g) {
  for (uint32_t i = 0; i < g->subinstructions().size(); ++i)
    prev_of(g->subinstructions()[i]);
}
extern "C" void vf_prevs(int t) { prevs(template_at(t)); }

extern "C" uint64_t vf_sizes(int i) {
  switch (i) {
  case 0:
    return sizeof(fast_decoder);
  case 1:
    return sizeof(coder::fast_decoder_core<0>);
  case 2:
    return sizeof(fast_encoder);
  case 3:
    return sizeof(coder::fast_encoder_core);
  case 4:
    return sizeof(message_type);
  case 5:
    return sizeof(coder::fast_decoder_core<0>::info_entry);
  case 6:
    return sizeof(coder::fast_encoder_core::info_entry);
  default:
    return 0;
  }
}
extern "C" uint64_t vf_template_id(int t) { return template_at(t)->id(); }
extern "C" void vf_message(void *m, int t) {
  new (m) message_type(&the_alloc, template_at(t), nullptr);
}
extern "C" void vf_message_destroy(message_type *m) { m->~message_type(); }
extern "C" void vf_message_copy(void *to, const message_type *from) {
  new (to) message_type(*from);
}
extern "C" void vf_message_fill(message_type *m) {
  fill(aggregate_mref(m->mref()));
}
extern "C" void vf_message_dump(const message_type *m) {
  dump_message(m->cref());
}

// ------------------------------------------------------------- decoders
extern "C" void vf_open_dec1(void *mem) {
  fast_decoder *d = new (mem) fast_decoder(&the_alloc);
  d->include(nullptr, 0);
}
extern "C" void vf_decode_dec1(fast_decoder *d, const char *b, uint64_t n,
                               int force) {
  const char *f = b;
  message_cref m = d->decode(f, b + n, force != 0);
  dump_message(m);
}
typedef coder::fast_decoder_core<0> dec2_t;
extern "C" void vf_open_dec2(void *mem) {
  dec2_t *d = new (mem) dec2_t(&the_alloc);
  d->init(shapes::templates_description::instance());
}
extern "C" void vf_entry_dec2(void *mem, message_type *m, int t) {
  dec2_t::info_entry *e = new (mem) dec2_t::info_entry;
  e->messages_[0].refers_to(m->mref());
  typedef coder::fast_decoder_base base;
  switch (t) {
#define C(N, T)                                                                \
  case N:                                                                      \
    e->decode_fun_ = &base::decode_message<shapes::T>;                         \
    break;
    C(0, Leaf)
    C(1, Bare)
    C(2, Boxed)
    C(3, Groups)
    C(4, Seqs)
    C(5, LenOps)
    C(6, Dyn)
    C(7, Stat)
    C(8, Vecs)
    C(9, Split)
    C(10, Reset)
    C(11, Types)
    C(12, Deep)
    C(13, DynSeq)
#undef C
  }
}
extern "C" void vf_decode_dec2(dec2_t *d, const char *b, uint64_t n,
                               int force) {
  const char *f = b;
  const message_mref &m = d->decode_stream(0, f, b + n, force != 0);
  dump_message(m);
}

// ------------------------------------------------------------- encoders
extern "C" void vf_open_enc1(void *mem) {
  fast_encoder *d = new (mem) fast_encoder(&the_alloc);
  d->include(nullptr, 0);
}
extern "C" void vf_entry_enc1(const template_instruction **e, int t) {
  *e = template_at(t);
}
extern "C" uint64_t vf_encode_enc1(fast_encoder *d, const message_type *m,
                                   char *b, uint64_t n, int force) {
  return d->encode(m->cref(), b, n, force != 0);
}
typedef coder::fast_encoder_core enc2_t;
extern "C" void vf_open_enc2(void *mem) {
  enc2_t *d = new (mem) enc2_t(&the_alloc);
  d->init(shapes::templates_description::instance());
}
extern "C" void vf_entry_enc2(void *mem, int t) {
  template_instruction *i = const_cast<template_instruction *>(template_at(t));
  enc2_t::message_encode_function_t f = nullptr;
  switch (t) {
#define C(N, T)                                                                \
  case N:                                                                      \
    f = &enc2_t::encode_message<shapes::T>;                                    \
    break;
    C(0, Leaf)
    C(1, Bare)
    C(2, Boxed)
    C(3, Groups)
    C(4, Seqs)
    C(5, LenOps)
    C(6, Dyn)
    C(7, Stat)
    C(8, Vecs)
    C(9, Split)
    C(10, Reset)
    C(11, Types)
    C(12, Deep)
    C(13, DynSeq)
#undef C
  }
  new (mem) enc2_t::info_entry(i, f);
}
extern "C" uint64_t vf_encode_enc2(enc2_t *d, const message_type *m, char *b,
                                   uint64_t n, int force) {
  return d->encode_i(m->cref(), b, n, force != 0);
}
