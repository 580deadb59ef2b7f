// Instantiation witnesses: these functions give the analysed templates a
// concrete instance and a name in the IR.  They are compiled to IR and
// analysed; nothing in this directory is ever executed.
#pragma once
#include "mfast/field_instructions.h"
#include "mfast/int_ref.h"
#include "mfast/string_ref.h"
#include "mfast/vector_ref.h"
#include "mfast/decimal_ref.h"
#include "mfast/ext_ref.h"
#include "mfast/malloc_allocator.h"
#include "mfast/message_ref.h"
#include "mfast/group_ref.h"
#include "mfast/sequence_ref.h"
#include "mfast/nested_message_ref.h"
#include "mfast/enum_ref.h"
#include "mfast/set_ref.h"
#include "mfast/composite_type.h"

namespace vf {
using namespace mfast;

// dictionary entry typestate: 0 undefined, 1 empty, 2 assigned
template <typename T>
inline void seed_prev(T &inst, int state, const value_storage &assigned) {
  if (state == 0)
    inst.prev_value() = value_storage();
  else if (state == 1) {
    value_storage s;
    s.defined(true);
    inst.prev_value() = s;
  } else
    inst.prev_value() = assigned;
}

// an encoder's dictionary entry owns the buffer it has copied a string into
template <typename T>
inline void seed_prev_owned(T &inst, int state, const char *p, uint64_t n) {
  if (state == 0) {
    inst.prev_value() = value_storage();
    return;
  }
  value_storage s = string_value_storage(p, n).storage_;
  s.of_array.capacity_in_bytes_ = static_cast<uint32_t>(n) + 1;
  s.defined(true);
  if (state == 1)
    s.of_array.len_ = 0;
  inst.prev_value() = s;
}

struct observed {
  uint64_t absent;   // field
  uint64_t value;    // integers: value, strings: length
  const void *data;  // strings
  uint64_t exponent; // decimals
  uint64_t pdefined; // dictionary entry
  uint64_t pempty;
  uint64_t pvalue;
  const void *pdata;
  uint64_t pexponent;
  uint64_t owned; // strings: does the field own its buffer
  uint64_t pexists;
};

template <typename T>
inline void observe_int(observed *o, value_storage *field,
                        const int_field_instruction<T> *inst) {
  int_cref<T> c(field, inst);
  o->absent = c.absent();
  o->value = static_cast<uint64_t>(c.value());
  const value_storage &p = inst->prev_value();
  o->pdefined = p.is_defined();
  o->pempty = p.is_empty();
  o->pvalue = static_cast<uint64_t>(p.get<T>());
}

template <typename CREF>
inline void observe_str(observed *o, value_storage *field,
                        typename CREF::instruction_cptr inst) {
  CREF c(field, inst);
  o->absent = c.absent();
  o->value = c.size();
  o->data = c.data();
  const value_storage &p = inst->prev_value();
  o->pdefined = p.is_defined();
  o->pempty = p.is_empty();
  o->pvalue = p.array_length();
  o->pdata = p.of_array.content_;
  o->owned = field->of_array.capacity_in_bytes_;
}

inline void observe_dec(observed *o, value_storage *field,
                        const decimal_field_instruction *inst) {
  decimal_cref c(field, inst);
  o->absent = c.absent();
  o->value = static_cast<uint64_t>(c.mantissa());
  o->exponent = static_cast<uint64_t>(static_cast<int64_t>(c.exponent()));
  const value_storage &p = inst->prev_value();
  o->pdefined = p.is_defined();
  o->pempty = p.is_empty();
  o->pvalue = static_cast<uint64_t>(p.of_decimal.mantissa_);
  o->pexponent =
      static_cast<uint64_t>(static_cast<int64_t>(p.of_decimal.exponent_));
}

// -------- string kinds
struct ascii_kind {
  typedef ascii_string_mref mref;
  typedef ascii_string_cref cref;
  typedef ascii_field_instruction inst;
  typedef char elem;
  static inst make(operator_enum_t op, presence_enum_t p,
                   string_value_storage iv) {
    return inst(op, p, 1, "f", "", nullptr, iv);
  }
};
struct unicode_kind {
  typedef unicode_string_mref mref;
  typedef unicode_string_cref cref;
  typedef unicode_field_instruction inst;
  typedef char elem;
  static inst make(operator_enum_t op, presence_enum_t p,
                   string_value_storage iv) {
    return inst(op, p, 1, "f", "", nullptr, iv, 0, "", "");
  }
};
struct bytes_kind {
  typedef byte_vector_mref mref;
  typedef byte_vector_cref cref;
  typedef byte_vector_field_instruction inst;
  typedef unsigned char elem;
  static inst make(operator_enum_t op, presence_enum_t p,
                   string_value_storage iv) {
    return inst(op, p, 1, "f", "", nullptr, iv, 0, "", "");
  }
};
template <typename T>
inline int_field_instruction<T> make_int(int op, int opt, int hasinit, T iv) {
  return int_field_instruction<T>(
      static_cast<operator_enum_t>(op), static_cast<presence_enum_t>(opt), 1,
      "f", "", nullptr,
      hasinit ? int_value_storage<T>(iv) : int_value_storage<T>());
}
inline string_value_storage str_init(int hasinit, const char *p, uint64_t n) {
  return hasinit ? string_value_storage(p, n) : string_value_storage();
}
}

extern "C" __attribute__((weak)) mfast::allocator *vf_keep_allocator() {
  static mfast::malloc_allocator a;
  return &a;
}
