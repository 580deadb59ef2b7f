// Dictionaries: two fields somewhere in the templates of one or two
// descriptions, all names, namespaces and dictionaries symbolic.
#include "drv.h"
#include "mfast/coder/common/template_repo.h"
#include "mfast/coder/common/exceptions.h"
#include <new>
using namespace mfast;

extern "C" int vf_ask(int what, int which);
extern "C" const char *vf_str(int what, int which);
extern "C" void vf_emit(int what, int which, const void *p);

enum { Q_KIND, Q_OP, Q_CTX, Q_WRAP, Q_WRAP2, Q_SAMEDESC, Q_SAMETEMPLATE, Q_ORDER, Q_LENGTH };
enum {
  S_DNS, S_DTNS, S_DDICT,                     // templates
  S_TNAME, S_TNS, S_TTNS, S_TDICT, S_TREF, S_TREFNS, // template
  S_GNS, S_GDICT, S_GREF, S_GREFNS,           // wrapper
  S_HNS, S_HDICT, S_HREF, S_HREFNS,           // inner wrapper
  S_FNS, S_FNAME, S_OKEY, S_ONS, S_ODICT,     // field
  S_MKEY, S_MNS, S_MDICT,                     // mantissa
  S_LNAME, S_LNS                              // the length of the inner wrapper
};
enum { W_NONE, W_GROUP, W_SEQUENCE };

static op_context_t *make_ctx(int which, int k, int n, int d) {
  if (!vf_ask(Q_CTX, which))
    return nullptr;
  op_context_t *c = new op_context_t;
  c->key_ = vf_str(k, which);
  c->ns_ = vf_str(n, which);
  c->dictionary_ = vf_str(d, which);
  return c;
}

static const field_instruction *make_field(int which) {
  operator_enum_t op = static_cast<operator_enum_t>(vf_ask(Q_OP, which));
  const char *name = vf_str(S_FNAME, which), *ns = vf_str(S_FNS, which);
  op_context_t *c = make_ctx(which, S_OKEY, S_ONS, S_ODICT);
  switch (vf_ask(Q_KIND, which)) {
  case 0:
    return new int32_field_instruction(op, presence_mandatory, 1, name, ns, c, int_value_storage<int32_t>());
  case 1:
    return new uint32_field_instruction(op, presence_mandatory, 1, name, ns, c, int_value_storage<uint32_t>());
  case 2:
    return new int64_field_instruction(op, presence_mandatory, 1, name, ns, c, int_value_storage<int64_t>());
  case 3:
    return new uint64_field_instruction(op, presence_mandatory, 1, name, ns, c, int_value_storage<uint64_t>());
  case 4:
    return new decimal_field_instruction(op, presence_mandatory, 1, name, ns, c, decimal_value_storage());
  case 5: {
    op_context_t *m = make_ctx(which, S_MKEY, S_MNS, S_MDICT);
    return new decimal_field_instruction(op, presence_mandatory, 1, name, ns, c,
                                         new mantissa_field_instruction(op, m, int_value_storage<int64_t>()),
                                         decimal_value_storage());
  }
  case 6:
    return new ascii_field_instruction(op, presence_mandatory, 1, name, ns, c, string_value_storage());
  case 7:
    return new unicode_field_instruction(op, presence_mandatory, 1, name, ns, c, string_value_storage(), 0, "", "");
  case 8:
    return new byte_vector_field_instruction(op, presence_mandatory, 1, name, ns, c, string_value_storage(), 0, "", "");
  default:
    return new enum_field_instruction(op, presence_mandatory, 1, name, ns, c, int_value_storage<uint64_t>(), nullptr,
                                      nullptr, 0, nullptr, "");
  }
}

static const field_instruction *wrap(int which, int how, const field_instruction *f, const char *ns, const char *dict,
                                     const char *ref, const char *refns, bool inner) {
  const field_instruction **arr = new const field_instruction *[1];
  arr[0] = f;
  instructions_view_t v(arr, 1);
  if (how == W_GROUP)
    return new group_field_instruction(presence_mandatory, 1, "g", ns, dict, v, ref, refns, "");
  uint32_field_instruction *len = nullptr;
  if (inner && vf_ask(Q_LENGTH, which)) {
    operator_enum_t op = static_cast<operator_enum_t>(vf_ask(Q_OP, which));
    const char *name = vf_str(S_LNAME, which), *lns = vf_str(S_LNS, which);
    len = new uint32_field_instruction(op, presence_mandatory, 1, name, lns,
                                       make_ctx(which, S_OKEY, S_ONS, S_ODICT), int_value_storage<uint32_t>());
  }
  return new sequence_field_instruction(presence_mandatory, 1, inner ? vf_str(S_FNAME, which) : "s", ns, dict, v,
                                        nullptr, nullptr, len, ref, refns, "");
}

static const field_instruction *make_content(int which) {
  const field_instruction *f = make_field(which);
  int h = vf_ask(Q_WRAP2, which);
  if (h != W_NONE)
    f = wrap(which, h, f, vf_str(S_HNS, which), vf_str(S_HDICT, which), vf_str(S_HREF, which),
             vf_str(S_HREFNS, which), true);
  int g = vf_ask(Q_WRAP, which);
  if (g != W_NONE)
    f = wrap(which, g, f, vf_str(S_GNS, which), vf_str(S_GDICT, which), vf_str(S_GREF, which),
             vf_str(S_GREFNS, which), false);
  return f;
}

static const template_instruction *make_template(int which, uint32_t id, const field_instruction **arr, unsigned n) {
  instructions_view_t v(arr, n);
  return new template_instruction(id, vf_str(S_TNAME, which), vf_str(S_TNS, which), vf_str(S_TTNS, which),
                                  vf_str(S_TDICT, which), v, false, vf_str(S_TREF, which), vf_str(S_TREFNS, which),
                                  "");
}

// where the field's previous value lives
static const value_storage &prev_of(const field_instruction *f) {
  switch (f->field_type()) {
  case field_type_int32:
    return static_cast<const int32_field_instruction *>(f)->prev_value();
  case field_type_uint32:
    return static_cast<const uint32_field_instruction *>(f)->prev_value();
  case field_type_int64:
    return static_cast<const int64_field_instruction *>(f)->prev_value();
  case field_type_uint64:
    return static_cast<const uint64_field_instruction *>(f)->prev_value();
  case field_type_decimal:
  case field_type_exponent:
    return static_cast<const decimal_field_instruction *>(f)->prev_value();
  case field_type_enum:
    return static_cast<const enum_field_instruction *>(f)->prev_value();
  default:
    return static_cast<const ascii_field_instruction *>(f)->prev_value();
  }
}

static void report(int which, const field_instruction *f) {
  if (f->field_type() == field_type_group || f->field_type() == field_type_sequence) {
    const group_field_instruction *g = static_cast<const group_field_instruction *>(f);
    if (f->field_type() == field_type_sequence) {
      const sequence_field_instruction *s = static_cast<const sequence_field_instruction *>(f);
      vf_emit(2, which, s->length_instruction() ? &s->length_instruction()->prev_value() : nullptr);
    }
    for (std::size_t i = 0; i < g->subinstructions().size(); ++i)
      report(which, g->subinstruction(i));
    return;
  }
  vf_emit(0, which, &prev_of(f));
  if (f->field_type() == field_type_exponent)
    vf_emit(1, which, &static_cast<const decimal_field_instruction *>(f)->mantissa_instruction()->prev_value());
}

struct templates_view : templates_description {
  templates_view(const char *ns, const char *tns, const char *d, const template_instruction **t, unsigned n) {
    ns_ = ns;
    template_ns_ = tns;
    dictionary_ = d;
    instructions_ = t;
    instructions_count_ = n;
  }
};

static const templates_description *the_desc[2];
static malloc_allocator the_alloc;

extern "C" {
uint64_t vf_repo_size() { return sizeof(simple_template_repo_t); }

// the templates: one description or two, one template or two
void vf_make(const field_instruction **src) {
  const field_instruction *a = make_content(0), *b = make_content(1);
  src[0] = a;
  src[1] = b;
  bool order = vf_ask(Q_ORDER, 0) != 0;
  if (vf_ask(Q_SAMETEMPLATE, 0)) {
    const field_instruction **arr = new const field_instruction *[2];
    arr[order] = a;
    arr[!order] = b;
    const template_instruction **t = new const template_instruction *[1];
    t[0] = make_template(0, 1, arr, 2);
    the_desc[0] = new templates_view(vf_str(S_DNS, 0), vf_str(S_DTNS, 0), vf_str(S_DDICT, 0), t, 1);
    the_desc[1] = nullptr;
    return;
  }
  const field_instruction **x = new const field_instruction *[1], **y = new const field_instruction *[1];
  x[0] = a;
  y[0] = b;
  const template_instruction *ta = make_template(0, 1, x, 1), *tb = make_template(1, 2, y, 1);
  if (vf_ask(Q_SAMEDESC, 0)) {
    const template_instruction **t = new const template_instruction *[2];
    t[order] = ta;
    t[!order] = tb;
    the_desc[0] = new templates_view(vf_str(S_DNS, 0), vf_str(S_DTNS, 0), vf_str(S_DDICT, 0), t, 2);
    the_desc[1] = nullptr;
    return;
  }
  const template_instruction **t = new const template_instruction *[1], **u = new const template_instruction *[1];
  t[0] = ta;
  u[0] = tb;
  the_desc[order] = new templates_view(vf_str(S_DNS, 0), vf_str(S_DTNS, 0), vf_str(S_DDICT, 0), t, 1);
  the_desc[!order] = new templates_view(vf_str(S_DNS, 1), vf_str(S_DTNS, 1), vf_str(S_DDICT, 1), u, 1);
}

void vf_repo(simple_template_repo_t *r) { new (r) simple_template_repo_t(&the_alloc); }
void vf_build(simple_template_repo_t *r) { r->build(static_cast<const templates_description *const *>(the_desc), static_cast<std::size_t>(the_desc[1] ? 2 : 1)); }

// the previous values of the fields of the codec's own templates
void vf_report(simple_template_repo_t *r) {
  template_instruction *t = r->get_template(1), *u = r->get_template(2);
  if (t == nullptr) {
    vf_emit(9, 0, nullptr);
    return;
  }
  if (vf_ask(Q_SAMETEMPLATE, 0)) {
    bool order = vf_ask(Q_ORDER, 0) != 0;
    report(0, t->subinstruction(order));
    report(1, t->subinstruction(!order));
    return;
  }
  if (u == nullptr) {
    vf_emit(9, 1, nullptr);
    return;
  }
  report(0, t->subinstruction(0));
  report(1, u->subinstruction(0));
}
void vf_report_source(const field_instruction **src) {
  report(0, src[0]);
  report(1, src[1]);
}

// a later message has assigned them
void vf_assign(value_storage *v) {
  v->defined(true);
}
int vf_defined(value_storage *v) { return v->is_defined(); }
void vf_reset(simple_template_repo_t *r) { r->reset_dictionary(); }
// a codec has stored a string in it
void vf_own(value_storage *v) {
  void *p = v->of_array.content_;
  std::size_t n = the_alloc.reallocate(p, 0, 10);
  v->of_array.content_ = p;
  v->of_array.capacity_in_bytes_ = static_cast<uint32_t>(n);
}
void vf_destroy(simple_template_repo_t *r) { r->~simple_template_repo_t(); }
}
