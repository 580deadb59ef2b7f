// shapes.cpp generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

#include "shapes.h"

using namespace mfast;

namespace shapes
{
const Leaf::instruction_type*
Leaf::instruction()
{
  const static Leaf::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_field_instruction
Leaf__lelplain_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "lelplain", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Leaf__lelcopy_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "lelcopy", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(5LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Leaf__subinstructions[] = {
  &Leaf__lelplain_instruction,
  &Leaf__lelcopy_instruction,
};

  const static Leaf::instruction_type the_instruction(
    21, // id
    "Leaf", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Leaf__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Bare::instruction_type*
Bare::instruction()
{
  const static Bare::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static uint64_field_instruction
Bare__babplain_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "babplain", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Bare__subinstructions[] = {
  &Bare__babplain_instruction,
};

  const static Bare::instruction_type the_instruction(
    22, // id
    "Bare", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Bare__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Boxed::instruction_type*
Boxed::instruction()
{
  const static Boxed::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_field_instruction
Boxed__xgroup__xg_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "xg", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(8LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Boxed__xgroup__subinstructions[] = {
  &Boxed__xgroup__xg_instruction,
};

const static Boxed_cref::xgroup_cref::instruction_type
Boxed__xgroup_instruction(
  presence_mandatory,
  0, // id
  "xgroup", // name
  "", // ns
  "", // dictionary
  Boxed__xgroup__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Boxed__xopt__xo_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "xo", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Boxed__xopt__subinstructions[] = {
  &Boxed__xopt__xo_instruction,
};

const static Boxed_cref::xopt_cref::instruction_type
Boxed__xopt_instruction(
  presence_optional,
  0, // id
  "xopt", // name
  "", // ns
  "", // dictionary
  Boxed__xopt__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

static uint32_field_instruction
Boxed__xseq_element__xseq_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static int64_field_instruction
Boxed__xseq_element__xe_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "xe", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Boxed__xseq_element__subinstructions[] = {
  &Boxed__xseq_element__xe_instruction,
};

const static Boxed_cref::xseq_cref::instruction_type
Boxed__xseq_instruction(
  presence_mandatory,
  0, // id
  "xseq", // name
  "", // ns
  "", // dictionary
  Boxed__xseq_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Boxed__xseq_element__xseq_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static ascii_field_instruction
Boxed__xstr_instruction(
  operator_none,
  presence_optional,
  0, // id
  "xstr", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Boxed__subinstructions[] = {
  &Boxed__xgroup_instruction,
  &Boxed__xopt_instruction,
  &Boxed__xseq_instruction,
  &Boxed__xstr_instruction,
};

  const static Boxed::instruction_type the_instruction(
    23, // id
    "Boxed", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Boxed__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Groups::instruction_type*
Groups::instruction()
{
  const static Groups::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_field_instruction
Groups__grfirst_instruction(
  operator_none,
  presence_optional,
  0, // id
  "grfirst", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Groups__grmnone__gra_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "gra", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Groups__grmnone__subinstructions[] = {
  &Groups__grmnone__gra_instruction,
};

const static Groups_cref::grmnone_cref::instruction_type
Groups__grmnone_instruction(
  presence_mandatory,
  0, // id
  "grmnone", // name
  "", // ns
  "", // dictionary
  Groups__grmnone__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Groups__grmmap__grb_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "grb", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(3LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Groups__grmmap__subinstructions[] = {
  &Groups__grmmap__grb_instruction,
};

const static Groups_cref::grmmap_cref::instruction_type
Groups__grmmap_instruction(
  presence_mandatory,
  0, // id
  "grmmap", // name
  "", // ns
  "", // dictionary
  Groups__grmmap__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Groups__gronone__grc_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "grc", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Groups__gronone__subinstructions[] = {
  &Groups__gronone__grc_instruction,
};

const static Groups_cref::gronone_cref::instruction_type
Groups__gronone_instruction(
  presence_optional,
  0, // id
  "gronone", // name
  "", // ns
  "", // dictionary
  Groups__gronone__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Groups__gromap__grd_instruction(
  operator_copy,
  presence_optional,
  0, // id
  "grd", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Groups__gromap__grinner__gre_instruction(
  operator_increment,
  presence_mandatory,
  0, // id
  "gre", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(1LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Groups__gromap__grinner__subinstructions[] = {
  &Groups__gromap__grinner__gre_instruction,
};

const static Groups_cref::gromap_cref::grinner_cref::instruction_type
Groups__gromap__grinner_instruction(
  presence_optional,
  0, // id
  "grinner", // name
  "", // ns
  "", // dictionary
  Groups__gromap__grinner__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static uint64_field_instruction
Groups__gromap__grf_instruction(
  operator_constant,
  presence_optional,
  0, // id
  "grf", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(9ULL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Groups__gromap__subinstructions[] = {
  &Groups__gromap__grd_instruction,
  &Groups__gromap__grinner_instruction,
  &Groups__gromap__grf_instruction,
};

const static Groups_cref::gromap_cref::instruction_type
Groups__gromap_instruction(
  presence_optional,
  0, // id
  "gromap", // name
  "", // ns
  "", // dictionary
  Groups__gromap__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static uint64_field_instruction
Groups__grlast_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "grlast", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(7ULL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Groups__subinstructions[] = {
  &Groups__grfirst_instruction,
  &Groups__grmnone_instruction,
  &Groups__grmmap_instruction,
  &Groups__gronone_instruction,
  &Groups__gromap_instruction,
  &Groups__grlast_instruction,
};

  const static Groups::instruction_type the_instruction(
    1, // id
    "Groups", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Groups__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Seqs::instruction_type*
Seqs::instruction()
{
  const static Seqs::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
Seqs__ses_element__ses_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static int64_field_instruction
Seqs__ses_element__sea_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "sea", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Seqs__ses_element__subinstructions[] = {
  &Seqs__ses_element__sea_instruction,
};

const static Seqs_cref::ses_cref::instruction_type
Seqs__ses_instruction(
  presence_mandatory,
  0, // id
  "ses", // name
  "", // ns
  "", // dictionary
  Seqs__ses_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Seqs__ses_element__ses_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
Seqs__sem_element__sem_length_instruction(
  operator_none,
  presence_optional,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static int64_field_instruction
Seqs__sem_element__seb_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "seb", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(2LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint64_field_instruction
Seqs__sem_element__sek_instruction(
  operator_constant,
  presence_mandatory,
  0, // id
  "sek", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(4ULL), // initial_value
  mfast::instruction_tag(0)); // tag

static uint32_field_instruction
Seqs__sem_element__sein_element__sein_length_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "seln", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(1U)); // initial_value

const static int64_field_instruction
Seqs__sem_element__sein_element__sec_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "sec", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Seqs__sem_element__sein_element__subinstructions[] = {
  &Seqs__sem_element__sein_element__sec_instruction,
};

const static Seqs_cref::sem_element_cref::sein_cref::instruction_type
Seqs__sem_element__sein_instruction(
  presence_mandatory,
  0, // id
  "sein", // name
  "", // ns
  "", // dictionary
  Seqs__sem_element__sein_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Seqs__sem_element__sein_element__sein_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Seqs__sem_element__subinstructions[] = {
  &Seqs__sem_element__seb_instruction,
  &Seqs__sem_element__sek_instruction,
  &Seqs__sem_element__sein_instruction,
};

const static Seqs_cref::sem_cref::instruction_type
Seqs__sem_instruction(
  presence_optional,
  0, // id
  "sem", // name
  "", // ns
  "", // dictionary
  Seqs__sem_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Seqs__sem_element__sem_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static int64_field_instruction
Seqs__selast_instruction(
  operator_default,
  presence_mandatory,
  0, // id
  "selast", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(6LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Seqs__subinstructions[] = {
  &Seqs__ses_instruction,
  &Seqs__sem_instruction,
  &Seqs__selast_instruction,
};

  const static Seqs::instruction_type the_instruction(
    2, // id
    "Seqs", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Seqs__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const LenOps::instruction_type*
LenOps::instruction()
{
  const static LenOps::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
LenOps__lex_element__lex_length_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "lexl", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static int64_field_instruction
LenOps__lex_element__lea_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "lea", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* LenOps__lex_element__subinstructions[] = {
  &LenOps__lex_element__lea_instruction,
};

const static LenOps_cref::lex_cref::instruction_type
LenOps__lex_instruction(
  presence_mandatory,
  0, // id
  "lex", // name
  "", // ns
  "", // dictionary
  LenOps__lex_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &LenOps__lex_element__lex_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
LenOps__ley_element__ley_length_instruction(
  operator_copy,
  presence_optional,
  0, // id
  "leyl", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static int64_field_instruction
LenOps__ley_element__leb_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "leb", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(1LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* LenOps__ley_element__subinstructions[] = {
  &LenOps__ley_element__leb_instruction,
};

const static LenOps_cref::ley_cref::instruction_type
LenOps__ley_instruction(
  presence_optional,
  0, // id
  "ley", // name
  "", // ns
  "", // dictionary
  LenOps__ley_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &LenOps__ley_element__ley_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
LenOps__lez_element__lez_length_instruction(
  operator_constant,
  presence_optional,
  0, // id
  "lezl", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(1U)); // initial_value

const static int64_field_instruction
LenOps__lez_element__lec_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "lec", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* LenOps__lez_element__subinstructions[] = {
  &LenOps__lez_element__lec_instruction,
};

const static LenOps_cref::lez_cref::instruction_type
LenOps__lez_instruction(
  presence_optional,
  0, // id
  "lez", // name
  "", // ns
  "", // dictionary
  LenOps__lez_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &LenOps__lez_element__lez_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
LenOps__lew_element__lew_length_instruction(
  operator_default,
  presence_mandatory,
  0, // id
  "lewl", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(2U)); // initial_value

const static int64_field_instruction
LenOps__lew_element__led_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "led", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* LenOps__lew_element__subinstructions[] = {
  &LenOps__lew_element__led_instruction,
};

const static LenOps_cref::lew_cref::instruction_type
LenOps__lew_instruction(
  presence_mandatory,
  0, // id
  "lew", // name
  "", // ns
  "", // dictionary
  LenOps__lew_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &LenOps__lew_element__lew_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* LenOps__subinstructions[] = {
  &LenOps__lex_instruction,
  &LenOps__ley_instruction,
  &LenOps__lez_instruction,
  &LenOps__lew_instruction,
};

  const static LenOps::instruction_type the_instruction(
    3, // id
    "LenOps", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    LenOps__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Dyn::instruction_type*
Dyn::instruction()
{
  const static Dyn::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_field_instruction
Dyn__dyhead_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "dyhead", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(1LL), // initial_value
  mfast::instruction_tag(0)); // tag

static const templateref_instruction
Dyn__templateref1_instruction(
  mfast::instruction_tag(1)); // tag

const static int64_field_instruction
Dyn__dytail_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "dytail", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(2LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Dyn__subinstructions[] = {
  &Dyn__dyhead_instruction,
  &Dyn__templateref1_instruction,
  &Dyn__dytail_instruction,
};

  const static Dyn::instruction_type the_instruction(
    4, // id
    "Dyn", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Dyn__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Stat::instruction_type*
Stat::instruction()
{
  const static Stat::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_field_instruction
Stat__sthead_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "sthead", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(1LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Stat__lelplain_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "lelplain", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Stat__lelcopy_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "lelcopy", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(5LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Stat__sttail_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "sttail", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Stat__subinstructions[] = {
  &Stat__sthead_instruction,
  &Stat__lelplain_instruction,
  &Stat__lelcopy_instruction,
  &Stat__sttail_instruction,
};

  const static Stat::instruction_type the_instruction(
    5, // id
    "Stat", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Stat__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Vecs::instruction_type*
Vecs::instruction()
{
  const static Vecs::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_vector_field_instruction
Vecs__vev_instruction(
  presence_mandatory,
  0, // id
  "vev", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static int64_vector_field_instruction
Vecs__veo_instruction(
  presence_optional,
  0, // id
  "veo", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Vecs__velast_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "velast", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(2LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Vecs__subinstructions[] = {
  &Vecs__vev_instruction,
  &Vecs__veo_instruction,
  &Vecs__velast_instruction,
};

  const static Vecs::instruction_type the_instruction(
    6, // id
    "Vecs", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Vecs__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Split::instruction_type*
Split::instruction()
{
  const static Split::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static mantissa_field_instruction
Split__spp_mantissa_instruction(
  operator_none,
  nullptr,  // mantissa opContext
  int_value_storage<int64_t>(0LL));// mantissa inital value

const static decimal_field_instruction
Split__spp_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "spp", // name
  "", // ns
  nullptr,  // opContext
  &Split__spp_mantissa_instruction,
  decimal_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

static mantissa_field_instruction
Split__spq_mantissa_instruction(
  operator_copy,
  nullptr,  // mantissa opContext
  int_value_storage<int64_t>(3LL));// mantissa inital value

const static decimal_field_instruction
Split__spq_instruction(
  operator_none,
  presence_optional,
  0, // id
  "spq", // name
  "", // ns
  nullptr,  // opContext
  &Split__spq_mantissa_instruction,
  decimal_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Split__splast_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "splast", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(2LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Split__subinstructions[] = {
  &Split__spp_instruction,
  &Split__spq_instruction,
  &Split__splast_instruction,
};

  const static Split::instruction_type the_instruction(
    7, // id
    "Split", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Split__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Reset::instruction_type*
Reset::instruction()
{
  const static Reset::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_field_instruction
Reset__rea_instruction(
  operator_copy,
  presence_optional,
  0, // id
  "rea", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Reset__reb_instruction(
  operator_increment,
  presence_mandatory,
  0, // id
  "reb", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(4LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Reset__subinstructions[] = {
  &Reset__rea_instruction,
  &Reset__reb_instruction,
};

  const static Reset::instruction_type the_instruction(
    8, // id
    "Reset", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Reset__subinstructions,
    1, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Types::instruction_type*
Types::instruction()
{
  const static Types::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static const char* Types__tyen_elements[] = {
  "x",
  "y"};
const static Types_cref::tyen_cref::instruction_type
Types__tyen_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "tyen", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  Types__tyen_elements, // element names
  nullptr, // element values
  2,// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

static const char* Types__tyoe_elements[] = {
  "x",
  "y"};
const static Types_cref::tyoe_cref::instruction_type
Types__tyoe_instruction(
  operator_none,
  presence_optional,
  0, // id
  "tyoe", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  Types__tyoe_elements, // element names
  nullptr, // element values
  2,// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static mfast::boolean::instruction_type
Types__tybo_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "tybo", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(0), // initial_value
  mfast::boolean::instruction()->elements(), // element names
  mfast::boolean::instruction()->element_values(), // element values
  mfast::boolean::instruction()->num_elements(),// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static ascii_field_instruction
Types__tyst_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "tyst", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage("q",1), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Types__subinstructions[] = {
  &Types__tyen_instruction,
  &Types__tyoe_instruction,
  &Types__tybo_instruction,
  &Types__tyst_instruction,
};

  const static Types::instruction_type the_instruction(
    9, // id
    "Types", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Types__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Deep::instruction_type*
Deep::instruction()
{
  const static Deep::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
Deep__dps_element__dps_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static ascii_field_instruction
Deep__dps_element__dpa_instruction(
  operator_none,
  presence_optional,
  0, // id
  "dpa", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

static uint32_field_instruction
Deep__dps_element__dpi_element__dpi_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static ascii_field_instruction
Deep__dps_element__dpi_element__dpt_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "dpt", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Deep__dps_element__dpi_element__subinstructions[] = {
  &Deep__dps_element__dpi_element__dpt_instruction,
};

const static Deep_cref::dps_element_cref::dpi_cref::instruction_type
Deep__dps_element__dpi_instruction(
  presence_mandatory,
  0, // id
  "dpi", // name
  "", // ns
  "", // dictionary
  Deep__dps_element__dpi_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Deep__dps_element__dpi_element__dpi_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Deep__dps_element__subinstructions[] = {
  &Deep__dps_element__dpa_instruction,
  &Deep__dps_element__dpi_instruction,
};

const static Deep_cref::dps_cref::instruction_type
Deep__dps_instruction(
  presence_mandatory,
  0, // id
  "dps", // name
  "", // ns
  "", // dictionary
  Deep__dps_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Deep__dps_element__dps_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
Deep__dpg_element__dpg_length_instruction(
  operator_none,
  presence_optional,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static unicode_field_instruction
Deep__dpg_element__dpq__dpu_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "dpu", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial value
  0, // length id
  "", // length name
  ""); // length ns

const static byte_vector_field_instruction
Deep__dpg_element__dpq__dpv_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "dpv", // name
  "", // ns
  nullptr,  // opContext
  byte_vector_value_storage(), // initial value
  0, // length id
  "", // length name
  "", // length ns
  mfast::instruction_tag(0)); // tag

const static field_instruction* Deep__dpg_element__dpq__subinstructions[] = {
  &Deep__dpg_element__dpq__dpu_instruction,
  &Deep__dpg_element__dpq__dpv_instruction,
};

const static Deep_cref::dpg_element_cref::dpq_cref::instruction_type
Deep__dpg_element__dpq_instruction(
  presence_optional,
  0, // id
  "dpq", // name
  "", // ns
  "", // dictionary
  Deep__dpg_element__dpq__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static field_instruction* Deep__dpg_element__subinstructions[] = {
  &Deep__dpg_element__dpq_instruction,
};

const static Deep_cref::dpg_cref::instruction_type
Deep__dpg_instruction(
  presence_optional,
  0, // id
  "dpg", // name
  "", // ns
  "", // dictionary
  Deep__dpg_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Deep__dpg_element__dpg_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Deep__subinstructions[] = {
  &Deep__dps_instruction,
  &Deep__dpg_instruction,
};

  const static Deep::instruction_type the_instruction(
    10, // id
    "Deep", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Deep__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const DynSeq::instruction_type*
DynSeq::instruction()
{
  const static DynSeq::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
DynSeq__dss_element__dss_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static int64_field_instruction
DynSeq__dss_element__dse_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "dse", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(3LL), // initial_value
  mfast::instruction_tag(0)); // tag

static const templateref_instruction
DynSeq__dss_element__templateref1_instruction(
  mfast::instruction_tag(1)); // tag

const static field_instruction* DynSeq__dss_element__subinstructions[] = {
  &DynSeq__dss_element__dse_instruction,
  &DynSeq__dss_element__templateref1_instruction,
};

const static DynSeq_cref::dss_cref::instruction_type
DynSeq__dss_instruction(
  presence_mandatory,
  0, // id
  "dss", // name
  "", // ns
  "", // dictionary
  DynSeq__dss_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &DynSeq__dss_element__dss_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static mfast::group_instruction_ex<DynSeq_cref::dsg_cref>
DynSeq__dsg_instruction(
  presence_optional,
  0, // id
  "dsg", // name
  "", // ns
  "", // dictionary
  mfast::templateref_instruction::default_instruction(),
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
DynSeq__dslast_instruction(
  operator_copy,
  presence_mandatory,
  0, // id
  "dslast", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(2LL), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* DynSeq__subinstructions[] = {
  &DynSeq__dss_instruction,
  &DynSeq__dsg_instruction,
  &DynSeq__dslast_instruction,
};

  const static DynSeq::instruction_type the_instruction(
    11, // id
    "DynSeq", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    DynSeq__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const template_instruction* shapes_templates_instructions[] ={
  Leaf::instruction(),
  Bare::instruction(),
  Boxed::instruction(),
  Groups::instruction(),
  Seqs::instruction(),
  LenOps::instruction(),
  Dyn::instruction(),
  Stat::instruction(),
  Vecs::instruction(),
  Split::instruction(),
  Reset::instruction(),
  Types::instruction(),
  Deep::instruction(),
  DynSeq::instruction()};

templates_description::templates_description()
  : mfast::templates_description(
    "shapes", // ns
    "shapes", // templateNs
    "", // dictionary
    shapes_templates_instructions)
{
}

const templates_description* templates_description::instance()
{
  static const templates_description inst;
  return &inst;
}

}
