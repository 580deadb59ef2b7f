// Presence bits: one instruction of each kind, built in each way the library builds them.
#include "drv.h"
#include "mfast/coder/common/template_repo.h"
#include <new>
using namespace mfast;

enum { K_SEQUENCE = 10, K_GROUP, K_SET, K_TEMPLATEREF, K_INT32V, K_UINT32V, K_INT64V, K_UINT64V };

static field_instruction *make(int kind, operator_enum_t op, presence_enum_t opt, operator_enum_t mop) {
  switch (kind) {
  case 0:
    return new int32_field_instruction(op, opt, 1, "f", "", nullptr, int_value_storage<int32_t>());
  case 1:
    return new uint32_field_instruction(op, opt, 1, "f", "", nullptr, int_value_storage<uint32_t>());
  case 2:
    return new int64_field_instruction(op, opt, 1, "f", "", nullptr, int_value_storage<int64_t>());
  case 3:
    return new uint64_field_instruction(op, opt, 1, "f", "", nullptr, int_value_storage<uint64_t>());
  case 4:
    return new decimal_field_instruction(op, opt, 1, "f", "", nullptr, decimal_value_storage());
  case 5:
    return new decimal_field_instruction(op, opt, 1, "f", "", nullptr,
                                         new mantissa_field_instruction(mop, nullptr, int_value_storage<int64_t>()),
                                         decimal_value_storage());
  case 6:
    return new ascii_field_instruction(op, opt, 1, "f", "", nullptr, string_value_storage());
  case 7:
    return new unicode_field_instruction(op, opt, 1, "f", "", nullptr, string_value_storage(), 0, "", "");
  case 8:
    return new byte_vector_field_instruction(op, opt, 1, "f", "", nullptr, string_value_storage(), 0, "", "");
  case 9:
    return new enum_field_instruction(op, opt, 1, "f", "", nullptr, int_value_storage<uint64_t>(), nullptr, nullptr, 0,
                                      nullptr, "");
  case K_SEQUENCE: {
    uint32_field_instruction *len =
        new uint32_field_instruction(op, opt, 1, "", "", nullptr, int_value_storage<uint32_t>());
    const field_instruction **arr = new const field_instruction *[1];
    arr[0] = new int32_field_instruction(mop, presence_mandatory, 1, "f", "", nullptr, int_value_storage<int32_t>());
    return new sequence_field_instruction(opt, 1, "s", "", "", instructions_view_t(arr, 1), nullptr, nullptr, len, "",
                                          "", "");
  }
  case K_GROUP: {
    const field_instruction **arr = new const field_instruction *[1];
    arr[0] = new int32_field_instruction(mop, presence_mandatory, 1, "f", "", nullptr, int_value_storage<int32_t>());
    return new group_field_instruction(opt, 1, "g", "", "", instructions_view_t(arr, 1), "", "", "");
  }
  case K_SET:
    return new set_field_instruction(op, opt, 1, "f", "", nullptr, int_value_storage<uint64_t>(), nullptr, 0, nullptr,
                                     "");
  case K_TEMPLATEREF:
    return new templateref_instruction();
  case K_INT32V:
    return new int32_vector_field_instruction(opt, 1, "f", "");
  case K_UINT32V:
    return new uint32_vector_field_instruction(opt, 1, "f", "");
  case K_INT64V:
    return new int64_vector_field_instruction(opt, 1, "f", "");
  default:
    return new uint64_vector_field_instruction(opt, 1, "f", "");
  }
}

struct one_template : templates_description {
  const template_instruction *arr_[1];
  one_template(const template_instruction *t) {
    ns_ = template_ns_ = dictionary_ = "";
    arr_[0] = t;
    instructions_ = arr_;
    instructions_count_ = 1;
  }
};

struct seen {
  uint64_t bits, nullable, optional, op, inner, segment;
};

static void look(seen *o, const field_instruction *f) {
  o->bits = f->pmap_size();
  o->nullable = f->is_nullable();
  o->optional = f->optional();
  o->op = f->field_operator();
  if (f->field_type() == field_type_group || f->field_type() == field_type_sequence)
    o->inner = static_cast<const group_field_instruction *>(f)->segment_pmap_size();
}

extern "C" {
// as built
void vf_built(seen *o, int kind, int op, int opt, int mop) {
  look(o, make(kind, operator_enum_t(op), presence_enum_t(opt), operator_enum_t(mop)));
}
// changed afterwards
void vf_changed(seen *o, int kind, int op, int opt, int mop, int op0, int opt0, int first) {
  field_instruction *f = make(kind, operator_enum_t(op0), presence_enum_t(opt0), operator_enum_t(mop));
  if (first) {
    f->field_operator(operator_enum_t(op));
    f->optional(opt != 0);
  } else {
    f->optional(opt != 0);
    f->field_operator(operator_enum_t(op));
  }
  look(o, f);
}
// as a codec's own copy; and what its segment reserves
void vf_copied(seen *o, simple_template_repo_t *r, int kind, int op, int opt, int mop, int kind2, int op2, int opt2) {
  const field_instruction **arr = new const field_instruction *[2];
  arr[0] = make(kind, operator_enum_t(op), presence_enum_t(opt), operator_enum_t(mop));
  field_instruction *second = make(kind2, operator_enum_t(op2), presence_enum_t(opt2), operator_none);
  second->name("h");
  arr[1] = second;
  instructions_view_t v(arr, 2);
  const field_instruction **top = new const field_instruction *[1];
  top[0] = new group_field_instruction(presence_mandatory, 1, "g", "", "dict", v, "", "", "");
  template_instruction *t = new template_instruction(1, "t", "", "", "", instructions_view_t(top, 1), false, "", "", "");
  one_template d(t);
  const templates_description *ds[] = {&d};
  r->build(static_cast<const templates_description *const *>(ds), std::size_t(1));
  const group_field_instruction *g =
      static_cast<const group_field_instruction *>(r->get_template(1)->subinstruction(0));
  look(o, g->subinstruction(0));
  o->segment = g->segment_pmap_size();
}
void vf_repo(simple_template_repo_t *r) { new (r) simple_template_repo_t(nullptr); }
uint64_t vf_repo_size() { return sizeof(simple_template_repo_t); }
}
