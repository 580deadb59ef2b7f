// Loading XML templates: the instructions built, through the public interface.
#include "drv.h"
#include "mfast.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include "mfast/instructions/field_instruction.h"
#include "tinyxml2.h"
#include <new>
using namespace mfast;

extern "C" void vf_emit(int what, int64_t a, int64_t b);
extern "C" void vf_emit_str(const char *p, int64_t n); // n < 0: up to the terminator

// the document object model belongs to the parser library; its elements are supplied by the interpreter
static void walk(tinyxml2::XMLVisitor *v, const tinyxml2::XMLElement *e) {
  if (v->VisitEnter(*e, e->FirstAttribute()))
    for (const tinyxml2::XMLElement *c = e->FirstChildElement(); c; c = c->NextSiblingElement())
      walk(v, c);
  v->VisitExit(*e);
}
extern "C" const tinyxml2::XMLElement *vf_root();
bool tinyxml2::XMLDocument::Accept(tinyxml2::XMLVisitor *v) const {
  walk(v, vf_root());
  return true;
}

enum { D_DESC, D_TEMPLATE, D_FIELD, D_END, D_CTX, D_NOCTX, D_INIT, D_INITSTR, D_MANTISSA, D_LENGTH, D_LENGTHINST, D_NOLENGTH,
       D_GROUP, D_ENUM, D_ELEMENT, D_TARGET, D_SET };

static void initial(const value_storage &s, bool str) {
  if (str && !s.is_empty()) {
    vf_emit(D_INITSTR, s.is_defined(), s.array_length());
    vf_emit_str(s.get<const char *>(), s.array_length());
  } else
    vf_emit(D_INIT, s.is_empty() ? 0 : 1, s.is_empty() ? 0 : s.get<int64_t>());
}

static void context(const op_context_t *c) {
  if (!c) {
    vf_emit(D_NOCTX, 0, 0);
    return;
  }
  vf_emit(D_CTX, 0, 0);
  vf_emit_str(c->key_ ? c->key_ : "", -1);
  vf_emit_str(c->ns_ ? c->ns_ : "", -1);
  vf_emit_str(c->dictionary_ ? c->dictionary_ : "", -1);
}

static void subs(const group_field_instruction *g);

static void field(const field_instruction *f) {
  vf_emit(D_FIELD, f->field_type(), f->field_operator());
  vf_emit(f->optional(), f->id(), f->tag().to_uint64());
  vf_emit_str(f->name(), -1);
  vf_emit_str(f->ns() ? f->ns() : "", -1);
  switch (f->field_type()) {
  case field_type_int32:
  case field_type_uint32:
  case field_type_int64:
  case field_type_uint64: {
    auto p = static_cast<const integer_field_instruction_base *>(f);
    context(p->op_context());
    initial(p->initial_value(), false);
    break;
  }
  case field_type_decimal:
  case field_type_exponent: {
    auto p = static_cast<const decimal_field_instruction *>(f);
    context(p->op_context());
    initial(p->initial_value(), false);
    vf_emit(D_INIT, p->initial_value().of_decimal.exponent_, 0);
    if (p->mantissa_instruction()) {
      vf_emit(D_MANTISSA, p->mantissa_instruction()->field_operator(), 0);
      context(p->mantissa_instruction()->op_context());
      initial(p->mantissa_instruction()->initial_value(), false);
    }
    break;
  }
  case field_type_ascii_string: {
    auto p = static_cast<const ascii_field_instruction *>(f);
    context(p->op_context());
    initial(p->initial_value(), true);
    break;
  }
  case field_type_unicode_string: {
    auto p = static_cast<const unicode_field_instruction *>(f);
    context(p->op_context());
    initial(p->initial_value(), true);
    vf_emit(D_LENGTH, p->length_id(), 0);
    vf_emit_str(p->length_name() ? p->length_name() : "", -1);
    vf_emit_str(p->length_ns() ? p->length_ns() : "", -1);
    break;
  }
  case field_type_byte_vector: {
    auto p = static_cast<const byte_vector_field_instruction *>(f);
    context(p->op_context());
    initial(p->initial_value(), true);
    vf_emit(D_LENGTH, p->length_id(), 0);
    vf_emit_str(p->length_name() ? p->length_name() : "", -1);
    vf_emit_str(p->length_ns() ? p->length_ns() : "", -1);
    break;
  }
  case field_type_enum: {
    auto p = static_cast<const enum_field_instruction *>(f);
    context(p->op_context());
    initial(p->initial_value(), false);
    vf_emit(D_ENUM, p->num_elements(), p->element_values() != nullptr);
    for (uint64_t i = 0; i < p->num_elements(); ++i) {
      vf_emit(D_ELEMENT, p->element_values() ? p->element_values()[i] : i, 0);
      vf_emit_str(p->elements()[i], -1);
    }
    break;
  }
  case field_type_sequence: {
    auto p = static_cast<const sequence_field_instruction *>(f);
    if (p->length_instruction()) {
      vf_emit(D_LENGTHINST, 0, 0);
      field(p->length_instruction());
    } else
      vf_emit(D_NOLENGTH, 0, 0);
    subs(p);
    break;
  }
  case field_type_group:
    subs(static_cast<const group_field_instruction *>(f));
    break;
  default:
    break;
  }
  vf_emit(D_END, 0, 0);
}

static void subs(const group_field_instruction *g) {
  vf_emit(D_GROUP, 0, 0);
  vf_emit_str(g->dictionary() ? g->dictionary() : "", -1);
  vf_emit_str(g->typeref_name() ? g->typeref_name() : "", -1);
  vf_emit_str(g->typeref_ns() ? g->typeref_ns() : "", -1);
  for (std::size_t i = 0; i < g->subinstructions().size(); ++i)
    field(g->subinstruction(i));
}

// the description in the last of n documents, each loaded into the same registry
extern "C" void vf_load(const char *xml, int n) {
  template_registry *r = new template_registry;
  dynamic_templates_description *d = nullptr;
  for (int i = 0; i < n; ++i)
    d = new dynamic_templates_description(xml, "app", r);
  vf_emit(D_DESC, d->size(), 0);
  vf_emit_str(d->ns(), -1);
  vf_emit_str(d->template_ns(), -1);
  vf_emit_str(d->dictionary(), -1);
  for (std::size_t i = 0; i < d->size(); ++i) {
    const template_instruction *t = (*d)[i];
    vf_emit(D_TEMPLATE, t->id(), t->has_reset_attribute());
    vf_emit_str(t->name(), -1);
    vf_emit_str(t->ns() ? t->ns() : "", -1);
    vf_emit_str(t->template_ns() ? t->template_ns() : "", -1);
    subs(t);
    vf_emit(D_END, 0, 0);
  }
}
