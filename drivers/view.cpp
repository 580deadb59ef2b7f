// Views over messages: from the <view> element of a document to the fields its iterator yields.
#include "drv.h"
#include "mfast.h"
#include "mfast/xml_parser/dynamic_templates_description.h"
#include "tinyxml2.h"
#include <new>
using namespace mfast;

extern "C" void vf_emit(int what, int64_t a, int64_t b);
extern "C" const tinyxml2::XMLElement *vf_root();

static void walk(tinyxml2::XMLVisitor *v, const tinyxml2::XMLElement *e) {
  if (v->VisitEnter(*e, e->FirstAttribute()))
    for (const tinyxml2::XMLElement *c = e->FirstChildElement(); c; c = c->NextSiblingElement())
      walk(v, c);
  v->VisitExit(*e);
}
bool tinyxml2::XMLDocument::Accept(tinyxml2::XMLVisitor *v) const {
  walk(v, vf_root());
  return true;
}

static malloc_allocator the_alloc;

static void put(const aggregate_mref &m, const int64_t *path, uint32_t v) {
  field_mref f = m[*path];
  switch (f.field_type()) {
  case field_type_uint32:
    uint32_mref(f).as(v);
    break;
  case field_type_group: {
    group_mref g(f);
    if (path[1] >= 0)
      put(g, path + 1, v);
    break;
  }
  case field_type_sequence: {
    sequence_mref s(f);
    if (path[1] < 0)
      s.resize(v);
    else
      put(s[path[1]], path + 2, v);
    break;
  }
  default:
    break;
  }
}

extern "C" {
const dynamic_templates_description *vf_load(const char *xml) {
  return new dynamic_templates_description(xml, "app", new template_registry);
}
void vf_message(void *m, const dynamic_templates_description *d, int i) { new (m) message_type(&the_alloc, (*d)[i]); }
uint64_t vf_message_size() { return sizeof(message_type); }
void vf_put(message_type *m, const int64_t *path, uint32_t v) { put(aggregate_mref(m->mref()), path, v); }

void vf_view(const message_type *m, const dynamic_templates_description *d, uint64_t k) {
  const aggregate_view_info &info = d->view_infos()[k];
  view_iterator i(aggregate_cref(m->cref()), info.data_.begin(), info.max_depth_), e(info.data_.end() - 1);
  int n = 0;
  for (; i != e && n < 8; ++i, ++n) {
    field_cref f = *i;
    if (f.absent())
      vf_emit(0, 0, 0);
    else if (f.field_type() == field_type_uint32)
      vf_emit(1, uint32_cref(f).value(), 0);
    else
      vf_emit(2, f.id(), 0);
  }
}
}
