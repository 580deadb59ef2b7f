// agg.cpp generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

#include "agg.h"

using namespace mfast;

namespace agg
{
const Rec::instruction_type*
Rec::instruction()
{
const static uint32_field_instruction
Rec__ra_instruction(
  operator_none,
  presence_mandatory,
  41, // id
  "ra", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
Rec__rb_instruction(
  operator_none,
  presence_mandatory,
  42, // id
  "rb", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Rec__subinstructions[] = {
  &Rec__ra_instruction,
  &Rec__rb_instruction,
};

const static Rec::instruction_type
  the_instruction(
  presence_mandatory,
  0, // id
  "Rec", // name
  "", // ns
  "", // dictionary
  Rec__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

  return &the_instruction;
}

const Recs::instruction_type*
Recs::instruction()
{
static uint32_field_instruction
Recs_element__Recs_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
Recs_element__sa_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "sa", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
Recs_element__sb_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "sb", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Recs_element__subinstructions[] = {
  &Recs_element__sa_instruction,
  &Recs_element__sb_instruction,
};

const static Recs::instruction_type
  the_instruction(
  presence_mandatory,
  0, // id
  "Recs", // name
  "", // ns
  "", // dictionary
  Recs_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Recs_element__Recs_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

  return &the_instruction;
}

const Leaf::instruction_type*
Leaf::instruction()
{
  const static Leaf::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static uint32_field_instruction
Leaf__la_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "la", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
Leaf__lb_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "lb", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Leaf__subinstructions[] = {
  &Leaf__la_instruction,
  &Leaf__lb_instruction,
};

  const static Leaf::instruction_type the_instruction(
    1, // id
    "Leaf", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Leaf__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Other::instruction_type*
Other::instruction()
{
  const static Other::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static ascii_field_instruction
Other__oa_instruction(
  operator_none,
  presence_optional,
  0, // id
  "oa", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Other__ob_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "ob", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Other__subinstructions[] = {
  &Other__oa_instruction,
  &Other__ob_instruction,
};

  const static Other::instruction_type the_instruction(
    3, // id
    "Other", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Other__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const All::instruction_type*
All::instruction()
{
  const static All::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
All__inl_element__inl_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
All__inl_element__ia_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "ia", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
All__inl_element__ib_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "ib", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* All__inl_element__subinstructions[] = {
  &All__inl_element__ia_instruction,
  &All__inl_element__ib_instruction,
};

const static All_cref::inl_cref::instruction_type
All__inl_instruction(
  presence_mandatory,
  31, // id
  "inl", // name
  "", // ns
  "", // dictionary
  All__inl_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &All__inl_element__inl_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
All__ref_element__ref_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static All_cref::ref_cref::instruction_type
All__ref_instruction(
  presence_mandatory,
  32, // id
  "ref", // name
  "", // ns
  "", // dictionary
  instructions_view_t(nullptr,0),
  Leaf::instruction(), // element_instruction
  nullptr, // ref_instruction
  &All__ref_element__ref_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
All__def_element__def_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static All_cref::def_cref::instruction_type
All__def_instruction(
  presence_mandatory,
  33, // id
  "def", // name
  "", // ns
  "", // dictionary
  instructions_view_t(nullptr,0),
  Rec::instruction(), // element_instruction
  nullptr, // ref_instruction
  &All__def_element__def_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
All__sol_element__sol_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
All__sol_element____instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* All__sol_element__subinstructions[] = {
  &All__sol_element____instruction,
};

const static All_cref::sol_cref::instruction_type
All__sol_instruction(
  presence_mandatory,
  34, // id
  "sol", // name
  "", // ns
  "", // dictionary
  All__sol_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &All__sol_element__sol_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
All__opt_element__opt_length_instruction(
  operator_none,
  presence_optional,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
All__opt_element__pa_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "pa", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

static uint32_field_instruction
All__opt_element__pb_element__pb_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static ascii_field_instruction
All__opt_element__pb_element__pc_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "pc", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* All__opt_element__pb_element__subinstructions[] = {
  &All__opt_element__pb_element__pc_instruction,
};

const static All_cref::opt_element_cref::pb_cref::instruction_type
All__opt_element__pb_instruction(
  presence_mandatory,
  0, // id
  "pb", // name
  "", // ns
  "", // dictionary
  All__opt_element__pb_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &All__opt_element__pb_element__pb_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* All__opt_element__subinstructions[] = {
  &All__opt_element__pa_instruction,
  &All__opt_element__pb_instruction,
};

const static All_cref::opt_cref::instruction_type
All__opt_instruction(
  presence_optional,
  35, // id
  "opt", // name
  "", // ns
  "", // dictionary
  All__opt_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &All__opt_element__opt_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static uint32_field_instruction
All__man__ma_instruction(
  operator_none,
  presence_mandatory,
  51, // id
  "ma", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
All__man__mb_instruction(
  operator_none,
  presence_mandatory,
  52, // id
  "mb", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* All__man__subinstructions[] = {
  &All__man__ma_instruction,
  &All__man__mb_instruction,
};

const static All_cref::man_cref::instruction_type
All__man_instruction(
  presence_mandatory,
  36, // id
  "man", // name
  "", // ns
  "", // dictionary
  All__man__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
All__may__na_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "na", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
All__may__nb_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "nb", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* All__may__subinstructions[] = {
  &All__may__na_instruction,
  &All__may__nb_instruction,
};

const static All_cref::may_cref::instruction_type
All__may_instruction(
  presence_optional,
  37, // id
  "may", // name
  "", // ns
  "", // dictionary
  All__may__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

static uint32_field_instruction
All__typ_element__typ_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static All_cref::typ_cref::instruction_type
All__typ_instruction(
  presence_mandatory,
  38, // id
  "typ", // name
  "", // ns
  "", // dictionary
  instructions_view_t(nullptr,0),
  nullptr, // element_instruction
  Recs::instruction(), // ref_instruction
   &All__typ_element__typ_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static const templateref_instruction
All__templateref8_instruction(
  mfast::instruction_tag(8)); // tag

const static field_instruction* All__subinstructions[] = {
  &All__inl_instruction,
  &All__ref_instruction,
  &All__def_instruction,
  &All__sol_instruction,
  &All__opt_instruction,
  &All__man_instruction,
  &All__may_instruction,
  &All__typ_instruction,
  &All__templateref8_instruction,
};

  const static All::instruction_type the_instruction(
    2, // id
    "All", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    All__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Kinds::instruction_type*
Kinds::instruction()
{
  const static Kinds::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int32_field_instruction
Kinds__mint32_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "mint32", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int32_field_instruction
Kinds__oint32_instruction(
  operator_none,
  presence_optional,
  0, // id
  "oint32", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Kinds__muInt32_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "muInt32", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Kinds__ouInt32_instruction(
  operator_none,
  presence_optional,
  0, // id
  "ouInt32", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Kinds__mint64_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "mint64", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Kinds__oint64_instruction(
  operator_none,
  presence_optional,
  0, // id
  "oint64", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint64_field_instruction
Kinds__muInt64_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "muInt64", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint64_field_instruction
Kinds__ouInt64_instruction(
  operator_none,
  presence_optional,
  0, // id
  "ouInt64", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static decimal_field_instruction
Kinds__mdecimal_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "mdecimal", // name
  "", // ns
  nullptr,  // opContext
  decimal_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static decimal_field_instruction
Kinds__odecimal_instruction(
  operator_none,
  presence_optional,
  0, // id
  "odecimal", // name
  "", // ns
  nullptr,  // opContext
  decimal_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
Kinds__mstring_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "mstring", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static ascii_field_instruction
Kinds__ostring_instruction(
  operator_none,
  presence_optional,
  0, // id
  "ostring", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static unicode_field_instruction
Kinds__municode_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "municode", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial value
  0, // length id
  "", // length name
  ""); // length ns

const static unicode_field_instruction
Kinds__ounicode_instruction(
  operator_none,
  presence_optional,
  0, // id
  "ounicode", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial value
  0, // length id
  "", // length name
  ""); // length ns

const static byte_vector_field_instruction
Kinds__mbyteVector_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "mbyteVector", // name
  "", // ns
  nullptr,  // opContext
  byte_vector_value_storage(), // initial value
  0, // length id
  "", // length name
  "", // length ns
  mfast::instruction_tag(0)); // tag

const static byte_vector_field_instruction
Kinds__obyteVector_instruction(
  operator_none,
  presence_optional,
  0, // id
  "obyteVector", // name
  "", // ns
  nullptr,  // opContext
  byte_vector_value_storage(), // initial value
  0, // length id
  "", // length name
  "", // length ns
  mfast::instruction_tag(0)); // tag

const static int32_vector_field_instruction
Kinds__mint32Vector_instruction(
  presence_mandatory,
  0, // id
  "mint32Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static int32_vector_field_instruction
Kinds__oint32Vector_instruction(
  presence_optional,
  0, // id
  "oint32Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static uint32_vector_field_instruction
Kinds__muInt32Vector_instruction(
  presence_mandatory,
  0, // id
  "muInt32Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static uint32_vector_field_instruction
Kinds__ouInt32Vector_instruction(
  presence_optional,
  0, // id
  "ouInt32Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static int64_vector_field_instruction
Kinds__mint64Vector_instruction(
  presence_mandatory,
  0, // id
  "mint64Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static int64_vector_field_instruction
Kinds__oint64Vector_instruction(
  presence_optional,
  0, // id
  "oint64Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static uint64_vector_field_instruction
Kinds__muInt64Vector_instruction(
  presence_mandatory,
  0, // id
  "muInt64Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static uint64_vector_field_instruction
Kinds__ouInt64Vector_instruction(
  presence_optional,
  0, // id
  "ouInt64Vector", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

static const char* Kinds__menum_elements[] = {
  "One",
  "Two",
  "Three"};
const static Kinds_cref::menum_cref::instruction_type
Kinds__menum_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "menum", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  Kinds__menum_elements, // element names
  nullptr, // element values
  3,// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

static const char* Kinds__oenum_elements[] = {
  "One",
  "Two",
  "Three"};
const static Kinds_cref::oenum_cref::instruction_type
Kinds__oenum_instruction(
  operator_none,
  presence_optional,
  0, // id
  "oenum", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  Kinds__oenum_elements, // element names
  nullptr, // element values
  3,// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Kinds__subinstructions[] = {
  &Kinds__mint32_instruction,
  &Kinds__oint32_instruction,
  &Kinds__muInt32_instruction,
  &Kinds__ouInt32_instruction,
  &Kinds__mint64_instruction,
  &Kinds__oint64_instruction,
  &Kinds__muInt64_instruction,
  &Kinds__ouInt64_instruction,
  &Kinds__mdecimal_instruction,
  &Kinds__odecimal_instruction,
  &Kinds__mstring_instruction,
  &Kinds__ostring_instruction,
  &Kinds__municode_instruction,
  &Kinds__ounicode_instruction,
  &Kinds__mbyteVector_instruction,
  &Kinds__obyteVector_instruction,
  &Kinds__mint32Vector_instruction,
  &Kinds__oint32Vector_instruction,
  &Kinds__muInt32Vector_instruction,
  &Kinds__ouInt32Vector_instruction,
  &Kinds__mint64Vector_instruction,
  &Kinds__oint64Vector_instruction,
  &Kinds__muInt64Vector_instruction,
  &Kinds__ouInt64Vector_instruction,
  &Kinds__menum_instruction,
  &Kinds__oenum_instruction,
};

  const static Kinds::instruction_type the_instruction(
    4, // id
    "Kinds", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Kinds__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Linked::instruction_type*
Linked::instruction()
{
  const static Linked::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static mfast::group_instruction_ex<Linked_cref::one_cref>
Linked__one_instruction(
  presence_mandatory,
  0, // id
  "one", // name
  "", // ns
  "", // dictionary
  Rec::instruction(),
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static mfast::group_instruction_ex<Linked_cref::two_cref>
Linked__two_instruction(
  presence_optional,
  0, // id
  "two", // name
  "", // ns
  "", // dictionary
  Rec::instruction(),
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Linked__three_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "three", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Linked__subinstructions[] = {
  &Linked__one_instruction,
  &Linked__two_instruction,
  &Linked__three_instruction,
};

  const static Linked::instruction_type the_instruction(
    5, // id
    "Linked", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Linked__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const template_instruction* agg_templates_instructions[] ={
  Leaf::instruction(),
  Other::instruction(),
  All::instruction(),
  Kinds::instruction(),
  Linked::instruction()};

templates_description::templates_description()
  : mfast::templates_description(
    "agg", // ns
    "agg", // templateNs
    "", // dictionary
    agg_templates_instructions)
{
}

const templates_description* templates_description::instance()
{
  static const templates_description inst;
  return &inst;
}

}
