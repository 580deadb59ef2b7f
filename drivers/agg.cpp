// Sequences, groups, nested messages and whole messages: one function per operation of their interface, for every way
// the elements of a sequence can be defined.
#include "drv.h"
#include "mfast.h"
#include "mfast/field_comparator.h"
#include "gen/agg.h"
#include "gen/agg.cpp"
#include <new>
using namespace mfast;

extern "C" void vf_emit(uint64_t v);

namespace {
typedef agg::All_mref M;
typedef agg::All_cref C;

M mref(void *m) { return static_cast<agg::All *>(m)->mref(); }
C cref(void *m) { return static_cast<const agg::All *>(m)->cref(); }

// the payload of an element: a number and a string
void put(const aggregate_mref &e, uint32_t v, const char *p, uint64_t n) {
  uint32_mref(e[0]).as(v);
  ascii_string_mref(e[1]).as(boost::string_ref(p, n));
}
void put(const uint32_mref &e, uint32_t v, const char *, uint64_t) { e.as(v); }
void put(const agg::All_mref::opt_element_mref &e, uint32_t v, const char *p, uint64_t n) {
  e.set_pa().as(v);
  agg::All_mref::opt_element_mref::pb_mref s = e.set_pb();
  s.resize(1);
  s[0].set_pc().as(boost::string_ref(p, n));
}
void show_string(const ascii_string_cref &s) {
  vf_emit(s.size());
  for (std::size_t i = 0; i < s.size(); ++i)
    vf_emit(static_cast<unsigned char>(s[i]));
}
void show(const aggregate_cref &e) {
  vf_emit(uint32_cref(e[0]).value());
  if (e.num_fields() == 1)
    return;
  if (e.subinstruction(1)->field_type() == field_type_sequence) {
    sequence_cref s(e[1]);
    if (s.size() == 0)
      vf_emit(0);
    for (std::size_t i = 0; i < s.size(); ++i)
      show_string(ascii_string_cref(s[i][0]));
  } else
    show_string(ascii_string_cref(e[1]));
}
void show(const uint32_cref &e) { vf_emit(e.value()); }
uint32_t first(const aggregate_cref &e) { return uint32_cref(e[0]).value(); }
uint32_t first(const uint32_cref &e) { return e.value(); }
template <typename I> void walk(I b, I e) {
  for (; b != e; ++b)
    vf_emit(first(*b));
}
template <typename I> uint64_t relation(I b, uint64_t i, uint64_t j) {
  I x = b + i, y = b + j, z(x);
  z += static_cast<std::ptrdiff_t>(j) - static_cast<std::ptrdiff_t>(i);
  return ((x - y) + 16) | (uint64_t)(x < y) << 8 | (uint64_t)(x <= y) << 9 | (uint64_t)(x > y) << 10 |
         (uint64_t)(x >= y) << 11 | (uint64_t)(x == y) << 12 | (uint64_t)(x != y) << 13 | (uint64_t)(z == y) << 14;
}

template <typename MS, typename CS> struct S {
  MS m;
  CS c;
};
}

extern "C" {
uint64_t vf_agg_sizeof() { return sizeof(agg::All); }
void vf_agg_new(void *m, allocator *a) { new (m) agg::All(a); }
void vf_agg_delete(void *m) { static_cast<agg::All *>(m)->~All(); }
}

#define SEQ(N, MS, CS, GM, GC)                                                                                         \
  extern "C" {                                                                                                         \
  static MS N##_m(void *m) { return GM; }                                                                              \
  static CS N##_c(void *m) { return GC; }                                                                              \
  uint64_t vf_##N##_absent(void *m) { return N##_c(m).absent(); }                                                      \
  uint64_t vf_##N##_size(void *m) { return N##_c(m).size(); }                                                          \
  uint64_t vf_##N##_length(void *m) { return N##_c(m).length(); }                                                      \
  void vf_##N##_omit(void *m) { N##_m(m).omit(); }                                                                     \
  void vf_##N##_clear(void *m) { N##_m(m).clear(); }                                                                   \
  void vf_##N##_resize(void *m, uint64_t n) { N##_m(m).resize(n); }                                                    \
  void vf_##N##_reserve(void *m, uint64_t n) { N##_m(m).reserve(n); }                                                  \
  uint64_t vf_##N##_grow(void *m, uint64_t n) {                                                                        \
    MS s = N##_m(m);                                                                                                   \
    return s.grow_by(n) - s.begin();                                                                                   \
  }                                                                                                                    \
  void vf_##N##_put(void *m, uint64_t i, uint32_t v, const char *p, uint64_t n) { put(N##_m(m)[i], v, p, n); }         \
  void vf_##N##_putit(void *m, uint64_t i, uint32_t v, const char *p, uint64_t n) { put(*(N##_m(m).begin() + i), v, p, n); } \
  void vf_##N##_putback(void *m, uint32_t v, const char *p, uint64_t n) { put(N##_m(m).back(), v, p, n); }             \
  void vf_##N##_putfront(void *m, uint32_t v, const char *p, uint64_t n) { put(N##_m(m).front(), v, p, n); }           \
  void vf_##N##_show(void *m) {                                                                                        \
    CS s = N##_c(m);                                                                                                   \
    for (uint64_t i = 0; i < s.size(); ++i)                                                                            \
      show(s[i]);                                                                                                      \
  }                                                                                                                    \
  void vf_##N##_ends(void *m) {                                                                                        \
    vf_emit(first(N##_c(m).front()));                                                                                  \
    vf_emit(first(N##_c(m).back()));                                                                                   \
    vf_emit(first(N##_m(m).front()));                                                                                  \
    vf_emit(first(N##_m(m).back()));                                                                                   \
  }                                                                                                                    \
  void vf_##N##_as(void *m, void *o) { N##_m(m).as(N##_c(o)); }                                                        \
  void vf_##N##_asrange(void *m, void *o) { N##_m(m).as(N##_m(o)); }                                                   \
  void vf_##N##_assign(void *m, void *o, uint64_t i, uint64_t j) {                                                     \
    CS s = N##_c(o);                                                                                                   \
    N##_m(m).assign(s.begin() + i, s.begin() + j);                                                                     \
  }                                                                                                                    \
  void vf_##N##_swap(void *m, void *o) { N##_m(m).swap(N##_m(o)); }                                                    \
  void vf_##N##_elem(void *m, uint64_t i, void *o, uint64_t j) { N##_m(m)[i].as(N##_c(o)[j]); }                        \
  void vf_##N##_walk(void *m, int how) {                                                                               \
    CS c = N##_c(m);                                                                                                   \
    MS r = N##_m(m);                                                                                                   \
    switch (how) {                                                                                                     \
    case 0: walk(c.begin(), c.end()); break;                                                                           \
    case 1: walk(c.rbegin(), c.rend()); break;                                                                         \
    case 2: walk(c.cbegin(), c.cend()); break;                                                                         \
    case 3: walk(c.crbegin(), c.crend()); break;                                                                       \
    case 4: walk(r.begin(), r.end()); break;                                                                           \
    case 5: walk(r.rbegin(), r.rend()); break;                                                                         \
    }                                                                                                                  \
  }                                                                                                                    \
  uint64_t vf_##N##_relation(void *m, uint64_t i, uint64_t j) { return relation(N##_c(m).begin(), i, j); }             \
  uint64_t vf_##N##_relationm(void *m, uint64_t i, uint64_t j) { return relation(N##_m(m).begin(), i, j); }            \
  uint64_t vf_##N##_nfields(void *m) { return N##_c(m).num_fields() | (uint64_t)N##_c(m).element_unnamed() << 8; }     \
  void vf_##N##_generic(void *m) {                                                                                     \
    sequence_cref s(N##_c(m));                                                                                         \
    for (uint64_t i = 0; i < s.size(); ++i)                                                                            \
      vf_emit(first(s[i]));                                                                                            \
    sequence_mref t(N##_m(m));                                                                                         \
    for (uint64_t i = 0; i < t.size(); ++i)                                                                            \
      vf_emit(first(t[i]));                                                                                            \
  }                                                                                                                    \
  void vf_##N##_copy(void *to, void *m, allocator *a) { new (to) sequence_type(sequence_cref(N##_c(m)), a); }          \
  }

SEQ(inl, agg::All_mref::inl_mref, agg::All_cref::inl_cref, mref(m).set_inl(), cref(m).get_inl())
SEQ(ref, agg::All_mref::ref_mref, agg::All_cref::ref_cref, mref(m).set_ref(), cref(m).get_ref())
SEQ(def, agg::All_mref::def_mref, agg::All_cref::def_cref, mref(m).set_def(), cref(m).get_def())
SEQ(sol, agg::All_mref::sol_mref, agg::All_cref::sol_cref, mref(m).set_sol(), cref(m).get_sol())
SEQ(opt, agg::All_mref::opt_mref, agg::All_cref::opt_cref, mref(m).set_opt(), cref(m).get_opt())
SEQ(typ, agg::All_mref::typ_mref, agg::All_cref::typ_cref, mref(m).set_typ(), cref(m).get_typ())
SEQ(gen, sequence_mref, sequence_cref, sequence_mref(mref(m)[0]), sequence_cref(cref(m)[0]))
SEQ(ger, sequence_mref, sequence_cref, sequence_mref(mref(m)[1]), sequence_cref(cref(m)[1]))
SEQ(ged, sequence_mref, sequence_cref, sequence_mref(mref(m)[2]), sequence_cref(cref(m)[2]))

// groups, nested messages and whole messages
namespace {
const template_instruction *target(int kind) {
  switch (kind) {
  case 1: return agg::Leaf::instruction();
  case 2: return agg::Other::instruction();
  case 3: return agg::All::instruction();
  }
  return nullptr;
}
void show_nested(const field_cref &f) {
  nested_message_cref n(f);
  const template_instruction *t = n.target_instruction();
  vf_emit(t == target(1) ? 1 : t == target(2) ? 2 : t == target(3) ? 3 : t == nullptr ? 0 : 9);
  if (t == nullptr)
    return;
  aggregate_cref a = n;
  vf_emit(n.target().id());
  if (t == target(1)) {
    vf_emit(uint32_cref(a[0]).value());
    show_string(ascii_string_cref(a[1]));
  } else if (t == target(2)) {
    vf_emit(a[0].absent());
    if (a[0].present())
      show_string(ascii_string_cref(a[0]));
    vf_emit(uint32_cref(a[1]).value());
  }
}
template <typename S> void dump_sequence(const S &s) {
  vf_emit(s.absent());
  if (s.absent())
    return;
  vf_emit(s.size());
  for (std::size_t i = 0; i < s.size(); ++i)
    show(s[i]);
}
void dump_group(const field_cref &f) {
  vf_emit(f.absent());
  if (f.present()) {
    group_cref g(f);
    vf_emit(uint32_cref(g[0]).value());
    show_string(ascii_string_cref(g[1]));
  }
}
void dump(const C &c) {
  dump_sequence(c.get_inl());
  dump_sequence(c.get_ref());
  dump_sequence(c.get_def());
  dump_sequence(c.get_sol());
  dump_sequence(c.get_opt());
  dump_group(c[5]);
  dump_group(c[6]);
  dump_sequence(c.get_typ());
  show_nested(c[8]);
}
}

extern "C" {
void vf_agg_dump(void *m) { dump(cref(m)); }

void vf_man_put(void *m, uint32_t v, const char *p, uint64_t n) {
  agg::All_mref::man_mref g = mref(m).set_man();
  g.set_ma().as(v);
  g.set_mb().as(boost::string_ref(p, n));
}
void vf_may_put(void *m, uint32_t v, const char *p, uint64_t n) {
  agg::All_mref::may_mref g = mref(m).set_may();
  g.set_na().as(v);
  g.set_nb().as(boost::string_ref(p, n));
}
void vf_may_touch(void *m) { mref(m).set_may(); }
void vf_may_omit(void *m) { mref(m).omit_may(); }
void vf_may_omit2(void *m) { group_mref(mref(m)[6]).omit(); }
void vf_may_clear(void *m) { group_mref(mref(m)[6]).clear(); }
void vf_man_omit(void *m) { group_mref(mref(m)[5]).omit(); }
void vf_man_clear(void *m) { group_mref(mref(m)[5]).clear(); }
void vf_grp_put(void *m, uint64_t f, uint32_t v, const char *p, uint64_t n) {
  group_mref g(mref(m)[f]);
  put(aggregate_mref(g), v, p, n);
}
void vf_grp_putf(void *m, uint64_t f, uint32_t v, const char *p, uint64_t n) {
  group_mref g(mref(m)[f]);
  uint32_mref(g[0]).as(v);
  ascii_string_mref(g[1]).as(boost::string_ref(p, n));
}
uint64_t vf_may_present(void *m) { return cref(m).get_may().present(); }
uint32_t vf_may_try(void *m) { return cref(m).try_get_may().get_na().value(); }
void vf_man_show(void *m) { dump_group(cref(m)[5]); }
void vf_may_show(void *m) { dump_group(cref(m)[6]); }

void vf_nest_bind(void *m, int kind) {
  nested_message_mref n(mref(m)[8]);
  switch (kind) {
  case 1: n.as<agg::Leaf>(); break;
  case 2: n.as<agg::Other>(); break;
  case 3: n.as<agg::All>(); break;
  }
}
void vf_nest_rebind(void *m, int kind) { nested_message_mref(mref(m)[8]).rebind(target(kind)); }
void vf_nest_put(void *m, uint32_t v, const char *p, uint64_t n, int how) {
  nested_message_mref r(mref(m)[8]);
  aggregate_mref a = r;
  message_mref t = r.target();
  const aggregate_mref &x = how ? static_cast<const aggregate_mref &>(t) : a;
  int i = r.target_instruction() == target(1) ? 0 : 1;
  uint32_mref(x[i]).as(v);
  ascii_string_mref(x[1 - i]).as(boost::string_ref(p, n));
}
void vf_nest_show(void *m) { show_nested(cref(m)[8]); }
void vf_nest_deep(void *m, uint32_t v) {
  agg::All_mref x = nested_message_mref(mref(m)[8]).as<agg::All>();
  x.set_sol().resize(1);
  x.set_sol()[0].as(v);
}
uint64_t vf_nest_deepval(void *m) {
  agg::All_cref x(nested_message_cref(cref(m)[8]).target());
  return x.get_sol().size() == 1 ? x.get_sol()[0].value() : 0xffffffffffull;
}

void vf_msg_as(void *m, void *o) { mref(m).as(cref(o)); }
void vf_msg_gas(void *m, void *o) {
  aggregate_mref a(mref(m));
  a.as(aggregate_cref(cref(o)));
}
uint64_t vf_msg_eq(void *m, void *o) {
  aggregate_cref a = cref(m), b = cref(o);
  return (a == b) | (uint64_t)(a != b) << 1;
}
uint64_t vf_field_eq(void *m, uint64_t i, void *o, uint64_t j) {
  field_cref a = cref(m)[i], b = cref(o)[j];
  return (a == b) | (uint64_t)(a != b) << 1;
}
void vf_msg_names(void *m, const char *s, uint64_t id) {
  C c = cref(m);
  vf_emit(c.num_fields());
  vf_emit(static_cast<int64_t>(c.field_index_with_id(id)));
  vf_emit(static_cast<int64_t>(c.field_index_with_name(s)));
  group_cref g(c[5]);
  vf_emit(g.num_fields());
  vf_emit(static_cast<int64_t>(g.field_index_with_id(id)));
  vf_emit(static_cast<int64_t>(g.field_index_with_name(s)));
}
void vf_msg_iterate(void *m) {
  C c = cref(m);
  uint64_t i = 0;
  for (aggregate_cref::iterator b = c.begin(), e = c.end(); b != e; ++b, ++i) {
    field_cref f = *b;
    vf_emit(field_cref_core_access::storage_of(f) == c.field_storage(i) && f.instruction() == c.subinstruction(i));
  }
  vf_emit(i);
  M r = mref(m);
  i = 0;
  for (aggregate_mref::iterator b = aggregate_mref(r).begin(), e = aggregate_mref(r).end(); b != e; ++b, ++i) {
    field_mref f = *b;
    vf_emit(field_cref_core_access::storage_of(f) == c.field_storage(i) && f.instruction() == c.subinstruction(i) &&
            f.allocator() == r.allocator());
  }
  vf_emit(i);
  vf_emit(c.end() - c.begin());
  vf_emit(aggregate_mref(r).end() - aggregate_mref(r).begin());
}

// values that are messages, groups or sequences of their own
uint64_t vf_val_sizes() {
  return sizeof(message_type) | sizeof(agg::Rec) << 16 | sizeof(sequence_type) << 32 | sizeof(group_type) << 48;
}
void vf_all_copy(void *to, void *m, allocator *a) { new (to) agg::All(C(cref(m)), a); }
void vf_mt_none(void *to) { new (to) message_type(); }
void vf_mt_new(void *to, allocator *a) { new (to) message_type(a, agg::All::instruction()); }
void vf_mt_pair(void *to, allocator *a) {
  new (to) message_type(std::pair<allocator *, const template_instruction *>(a, agg::All::instruction()));
}
void vf_mt_of(void *to, void *m, allocator *a) { new (to) message_type(message_cref(agg::All::cref_type(cref(m).field_storage(0), agg::All::instruction())), a); }
void vf_mt_copy(void *to, void *t) { new (to) message_type(*static_cast<const message_type *>(t)); }
void vf_mt_move(void *to, void *t) { new (to) message_type(std::move(*static_cast<message_type *>(t))); }
void vf_mt_assign(void *to, void *t) { *static_cast<message_type *>(to) = *static_cast<const message_type *>(t); }
void vf_mt_massign(void *to, void *t) { *static_cast<message_type *>(to) = std::move(*static_cast<message_type *>(t)); }
void vf_mt_delete(void *t) { static_cast<message_type *>(t)->~message_type(); }
void vf_mt_dump(void *t) {
  const message_type *x = static_cast<const message_type *>(t);
  vf_emit(x->instruction() != nullptr);
  if (x->instruction() != nullptr)
    dump(C(x->cref().field_storage(0), agg::All::instruction()));
}
void vf_mt_put(void *t, uint32_t v, const char *p, uint64_t n) {
  message_mref r = static_cast<message_type *>(t)->mref();
  sequence_mref s(r[0]);
  s.resize(1);
  put(s[0], v, p, n);
}
void vf_st_none(void *to) { new (to) sequence_type(); }
void vf_st_new(void *to, allocator *a) {
  new (to) sequence_type(a, static_cast<const sequence_field_instruction *>(agg::All::instruction()->subinstruction(0)));
}
void vf_st_move(void *to, void *t) { new (to) sequence_type(std::move(*static_cast<sequence_type *>(t))); }
void vf_st_massign(void *to, void *t) { *static_cast<sequence_type *>(to) = std::move(*static_cast<sequence_type *>(t)); }
void vf_st_delete(void *t) { static_cast<sequence_type *>(t)->~sequence_type(); }
void vf_st_dump(void *t) {
  const sequence_type *x = static_cast<const sequence_type *>(t);
  vf_emit(x->instruction() != nullptr);
  if (x->instruction() != nullptr)
    dump_sequence(x->cref());
}
void vf_st_put(void *t, uint32_t v, const char *p, uint64_t n) {
  sequence_mref s = static_cast<sequence_type *>(t)->mref();
  s.resize(s.size() + 1);
  put(s.back(), v, p, n);
}
void vf_rec_new(void *to, allocator *a) { new (to) agg::Rec(a); }
void vf_rec_of(void *to, void *t, allocator *a) { new (to) agg::Rec(static_cast<const agg::Rec *>(t)->cref(), a); }
void vf_rec_copy(void *to, void *t) { new (to) agg::Rec(*static_cast<const agg::Rec *>(t)); }
void vf_rec_move(void *to, void *t) { new (to) agg::Rec(std::move(*static_cast<agg::Rec *>(t))); }
void vf_rec_assign(void *to, void *t) { *static_cast<agg::Rec *>(to) = *static_cast<const agg::Rec *>(t); }
void vf_rec_massign(void *to, void *t) { *static_cast<agg::Rec *>(to) = std::move(*static_cast<agg::Rec *>(t)); }
void vf_rec_delete(void *t) { static_cast<agg::Rec *>(t)->~Rec(); }
void vf_rec_put(void *t, uint32_t v, const char *p, uint64_t n) {
  agg::Rec_mref r = static_cast<agg::Rec *>(t)->mref();
  r.set_ra().as(v);
  r.set_rb().as(boost::string_ref(p, n));
}
void vf_rec_dump(void *t) {
  agg::Rec_cref c = static_cast<const agg::Rec *>(t)->cref();
  vf_emit(c.get_ra().value());
  show_string(c.get_rb());
}
void vf_gt_new(void *to, allocator *a) {
  new (to) group_type(a, static_cast<const group_field_instruction *>(agg::All::instruction()->subinstruction(6)));
}
void vf_gt_of(void *to, void *m, allocator *a) { new (to) group_type(group_cref(cref(m)[6]), a); }
void vf_gt_copy(void *to, void *t) { new (to) group_type(*static_cast<const group_type *>(t)); }
void vf_gt_move(void *to, void *t) { new (to) group_type(std::move(*static_cast<group_type *>(t))); }
void vf_gt_assign(void *to, void *t) { *static_cast<group_type *>(to) = *static_cast<const group_type *>(t); }
void vf_gt_massign(void *to, void *t) { *static_cast<group_type *>(to) = std::move(*static_cast<group_type *>(t)); }
void vf_gt_delete(void *t) { static_cast<group_type *>(t)->~group_type(); }
void vf_gt_put(void *t, uint32_t v, const char *p, uint64_t n) {
  group_mref g = static_cast<group_type *>(t)->mref();
  put(aggregate_mref(g), v, p, n);
}
void vf_gt_dump(void *t) { dump_group(static_cast<const group_type *>(t)->cref()); }
}

// a message with a field of every kind
namespace {
template <typename R> void vecs(const field_mref &f, uint64_t n, uint64_t v, uint64_t w) {
  R r(f);
  r.resize(n);
  if (n > 0)
    r[0] = static_cast<typename R::value_type>(v);
  if (n > 1)
    r[1] = static_cast<typename R::value_type>(w);
}
}
extern "C" {
uint64_t vf_k_sizeof() { return sizeof(agg::Kinds); }
void vf_k_new(void *m, allocator *a) { new (m) agg::Kinds(a); }
void vf_k_delete(void *m) { static_cast<agg::Kinds *>(m)->~Kinds(); }
// numbers take v, decimals v and w, sequences of elements the first n of v and w
void vf_k_set(void *m, uint64_t i, uint64_t n, uint64_t v, uint64_t w) {
  field_mref f = static_cast<agg::Kinds *>(m)->mref()[i];
  switch (f.instruction()->field_type()) {
  case field_type_int32: int32_mref(f).as(static_cast<int32_t>(v)); break;
  case field_type_uint32: uint32_mref(f).as(static_cast<uint32_t>(v)); break;
  case field_type_int64: int64_mref(f).as(static_cast<int64_t>(v)); break;
  case field_type_uint64: uint64_mref(f).as(v); break;
  case field_type_decimal: decimal_mref(f).as(static_cast<int64_t>(v), static_cast<int16_t>(w)); break;
  case field_type_enum: enum_mref(f).as(v); break;
  case field_type_ascii_string: vecs<ascii_string_mref>(f, n, v, w); break;
  case field_type_unicode_string: vecs<unicode_string_mref>(f, n, v, w); break;
  case field_type_byte_vector: vecs<byte_vector_mref>(f, n, v, w); break;
  case field_type_int32_vector: vecs<int32_vector_mref>(f, n, v, w); break;
  case field_type_uint32_vector: vecs<uint32_vector_mref>(f, n, v, w); break;
  case field_type_int64_vector: vecs<int64_vector_mref>(f, n, v, w); break;
  case field_type_uint64_vector: vecs<uint64_vector_mref>(f, n, v, w); break;
  default: break;
  }
}
void vf_k_omit(void *m, uint64_t i) {
  field_mref f = static_cast<agg::Kinds *>(m)->mref()[i];
  switch (f.instruction()->field_type()) {
  case field_type_ascii_string: ascii_string_mref(f).omit(); break;
  default: f.omit();
  }
}
uint64_t vf_k_type(void *m, uint64_t i) { return static_cast<agg::Kinds *>(m)->cref()[i].instruction()->field_type(); }
uint64_t vf_k_eq(void *m, void *o) {
  const agg::Kinds *x = static_cast<const agg::Kinds *>(m), *y = static_cast<const agg::Kinds *>(o);
  aggregate_cref a = x->cref(), b = y->cref();
  return (a == b) | (uint64_t)(a != b) << 1;
}
uint64_t vf_k_feq(void *m, uint64_t i, void *o, uint64_t j) {
  field_cref a = static_cast<const agg::Kinds *>(m)->cref()[i], b = static_cast<const agg::Kinds *>(o)->cref()[j];
  return (a == b) | (uint64_t)(a != b) << 1;
}
// the comparison of references of one numeric type
uint64_t vf_k_teq(void *m, uint64_t i, void *o) {
  field_cref a = static_cast<const agg::Kinds *>(m)->cref()[i], b = static_cast<const agg::Kinds *>(o)->cref()[i];
#define TEQ(T) { T x(a), y(b); return (x == y) | (uint64_t)(x != y) << 1; }
  switch (a.instruction()->field_type()) {
  case field_type_int32: TEQ(int32_cref)
  case field_type_uint32: TEQ(uint32_cref)
  case field_type_int64: TEQ(int64_cref)
  case field_type_uint64: TEQ(uint64_cref)
  case field_type_decimal: TEQ(decimal_cref)
  case field_type_enum: TEQ(enum_cref)
  default: return 4;
  }
#undef TEQ
}
void vf_k_as(void *m, void *o) { static_cast<agg::Kinds *>(m)->mref().as(static_cast<const agg::Kinds *>(o)->cref()); }
uint64_t vf_mk_eq(void *m, void *o) { return aggregate_cref(cref(m)) == aggregate_cref(static_cast<const agg::Kinds *>(o)->cref()); }
}

// groups that refer to the content of others
extern "C" {
uint64_t vf_l_sizeof() { return sizeof(agg::Linked); }
void vf_l_new(void *m, allocator *a) { new (m) agg::Linked(a); }
void vf_l_delete(void *m) { static_cast<agg::Linked *>(m)->~Linked(); }
void vf_l_copy(void *to, void *m, allocator *a) { new (to) agg::Linked(static_cast<const agg::Linked *>(m)->cref(), a); }
void vf_l_as(void *m, void *o) { static_cast<agg::Linked *>(m)->mref().as(static_cast<const agg::Linked *>(o)->cref()); }
void vf_l_put(void *m, uint64_t i, uint32_t v, const char *p, uint64_t n) {
  agg::Linked_mref r = static_cast<agg::Linked *>(m)->mref();
  agg::Rec_mref g = i ? r.set_two() : r.set_one();
  g.set_ra().as(v);
  g.set_rb().as(boost::string_ref(p, n));
}
void vf_l_link(void *m, uint64_t i, void *o, uint64_t j) {
  agg::Linked_mref r = static_cast<agg::Linked *>(m)->mref(), s = static_cast<agg::Linked *>(o)->mref();
  agg::Rec_mref g = j ? s.set_two() : s.set_one();
  if (i)
    r.link_two(g);
  else
    r.link_one(g);
}
void vf_l_linkrec(void *m, uint64_t i, void *t) {
  agg::Linked_mref r = static_cast<agg::Linked *>(m)->mref();
  agg::Rec_mref g = static_cast<agg::Rec *>(t)->mref();
  if (i)
    r.link_two(g);
  else
    r.link_one(g);
}
void vf_l_unlink(void *m, uint64_t i) {
  agg::Linked_mref r = static_cast<agg::Linked *>(m)->mref();
  if (i)
    r.unlink_two();
  else
    r.unlink_one();
}
void vf_l_omit(void *m, uint64_t) { static_cast<agg::Linked *>(m)->mref().omit_two(); }
void vf_l_dump(void *m) {
  agg::Linked_cref c = static_cast<const agg::Linked *>(m)->cref();
  dump_group(c[0]);
  dump_group(c[1]);
}
}
