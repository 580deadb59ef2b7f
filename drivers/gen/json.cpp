// json.cpp generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

#include "json.h"

using namespace mfast;

namespace json
{
const mfast_tag::instruction_type*
mfast_tag::instruction()
{
static const char* elements[] = {
  "RAW",
  "IGNORE"};
static const uint64_t values[] = {
  1,
  2};
const static mfast_tag::instruction_type
  the_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "mfast:tag", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  elements, // element names
  values, // element values
  2,// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

  return &the_instruction;
}

const Ints::instruction_type*
Ints::instruction()
{
  const static Ints::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int32_field_instruction
Ints__a1_instruction(
  operator_none,
  presence_optional,
  0, // id
  "a1", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Ints__a2_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "a2", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Ints__a3_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "a3", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint64_field_instruction
Ints__a4_instruction(
  operator_none,
  presence_optional,
  0, // id
  "a4", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Ints__subinstructions[] = {
  &Ints__a1_instruction,
  &Ints__a2_instruction,
  &Ints__a3_instruction,
  &Ints__a4_instruction,
};

  const static Ints::instruction_type the_instruction(
    1, // id
    "Ints", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Ints__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Dec::instruction_type*
Dec::instruction()
{
  const static Dec::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static decimal_field_instruction
Dec__d1_instruction(
  operator_none,
  presence_optional,
  0, // id
  "d1", // name
  "", // ns
  nullptr,  // opContext
  decimal_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Dec__subinstructions[] = {
  &Dec__d1_instruction,
};

  const static Dec::instruction_type the_instruction(
    2, // id
    "Dec", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Dec__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Str::instruction_type*
Str::instruction()
{
  const static Str::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static ascii_field_instruction
Str__s1_instruction(
  operator_none,
  presence_optional,
  0, // id
  "s1", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Str__subinstructions[] = {
  &Str__s1_instruction,
};

  const static Str::instruction_type the_instruction(
    3, // id
    "Str", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Str__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Uni::instruction_type*
Uni::instruction()
{
  const static Uni::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static unicode_field_instruction
Uni__s2_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "s2", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial value
  0, // length id
  "", // length name
  ""); // length ns

const static uint32_field_instruction
Uni__s3_instruction(
  operator_none,
  presence_optional,
  0, // id
  "s3", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Uni__subinstructions[] = {
  &Uni__s2_instruction,
  &Uni__s3_instruction,
};

  const static Uni::instruction_type the_instruction(
    4, // id
    "Uni", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Uni__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Bytes::instruction_type*
Bytes::instruction()
{
  const static Bytes::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static byte_vector_field_instruction
Bytes__b1_instruction(
  operator_none,
  presence_optional,
  0, // id
  "b1", // name
  "", // ns
  nullptr,  // opContext
  byte_vector_value_storage(), // initial value
  0, // length id
  "", // length name
  "", // length ns
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Bytes__b2_instruction(
  operator_none,
  presence_optional,
  0, // id
  "b2", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Bytes__subinstructions[] = {
  &Bytes__b1_instruction,
  &Bytes__b2_instruction,
};

  const static Bytes::instruction_type the_instruction(
    5, // id
    "Bytes", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Bytes__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Raw::instruction_type*
Raw::instruction()
{
  const static Raw::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static uint32_field_instruction
Raw__r0_instruction(
  operator_none,
  presence_optional,
  0, // id
  "r0", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static byte_vector_field_instruction
Raw__r1_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "r1", // name
  "", // ns
  nullptr,  // opContext
  byte_vector_value_storage(), // initial value
  0, // length id
  "", // length name
  "", // length ns
  mfast::instruction_tag(1)); // tag

const static byte_vector_field_instruction
Raw__r2_instruction(
  operator_none,
  presence_optional,
  0, // id
  "r2", // name
  "", // ns
  nullptr,  // opContext
  byte_vector_value_storage(), // initial value
  0, // length id
  "", // length name
  "", // length ns
  mfast::instruction_tag(1)); // tag

const static field_instruction* Raw__subinstructions[] = {
  &Raw__r0_instruction,
  &Raw__r1_instruction,
  &Raw__r2_instruction,
};

  const static Raw::instruction_type the_instruction(
    6, // id
    "Raw", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Raw__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Vec1::instruction_type*
Vec1::instruction()
{
  const static Vec1::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int32_vector_field_instruction
Vec1__v1_instruction(
  presence_optional,
  0, // id
  "v1", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static uint32_vector_field_instruction
Vec1__v2_instruction(
  presence_mandatory,
  0, // id
  "v2", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static field_instruction* Vec1__subinstructions[] = {
  &Vec1__v1_instruction,
  &Vec1__v2_instruction,
};

  const static Vec1::instruction_type the_instruction(
    7, // id
    "Vec1", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Vec1__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Vec2::instruction_type*
Vec2::instruction()
{
  const static Vec2::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static int64_vector_field_instruction
Vec2__v3_instruction(
  presence_mandatory,
  0, // id
  "v3", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static uint64_vector_field_instruction
Vec2__v4_instruction(
  presence_optional,
  0, // id
  "v4", // name
  "", // ns
  mfast::instruction_tag(0)); // tag

const static field_instruction* Vec2__subinstructions[] = {
  &Vec2__v3_instruction,
  &Vec2__v4_instruction,
};

  const static Vec2::instruction_type the_instruction(
    8, // id
    "Vec2", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Vec2__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Grp::instruction_type*
Grp::instruction()
{
  const static Grp::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static uint32_field_instruction
Grp__g1__g2_instruction(
  operator_none,
  presence_optional,
  0, // id
  "g2", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Grp__g1__subinstructions[] = {
  &Grp__g1__g2_instruction,
};

const static Grp_cref::g1_cref::instruction_type
Grp__g1_instruction(
  presence_mandatory,
  0, // id
  "g1", // name
  "", // ns
  "", // dictionary
  Grp__g1__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static int64_field_instruction
Grp__g3__g4_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "g4", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<int64_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Grp__g3__g5__g6_instruction(
  operator_none,
  presence_optional,
  0, // id
  "g6", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Grp__g3__g5__subinstructions[] = {
  &Grp__g3__g5__g6_instruction,
};

const static Grp_cref::g3_cref::g5_cref::instruction_type
Grp__g3__g5_instruction(
  presence_optional,
  0, // id
  "g5", // name
  "", // ns
  "", // dictionary
  Grp__g3__g5__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static field_instruction* Grp__g3__subinstructions[] = {
  &Grp__g3__g4_instruction,
  &Grp__g3__g5_instruction,
};

const static Grp_cref::g3_cref::instruction_type
Grp__g3_instruction(
  presence_optional,
  0, // id
  "g3", // name
  "", // ns
  "", // dictionary
  Grp__g3__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Grp__g7_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "g7", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Grp__subinstructions[] = {
  &Grp__g1_instruction,
  &Grp__g3_instruction,
  &Grp__g7_instruction,
};

  const static Grp::instruction_type the_instruction(
    9, // id
    "Grp", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Grp__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Seq::instruction_type*
Seq::instruction()
{
  const static Seq::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
Seq__q1_element__q1_length_instruction(
  operator_none,
  presence_optional,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
Seq__q1_element__q2_instruction(
  operator_none,
  presence_optional,
  0, // id
  "q2", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Seq__q1_element__q3_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "q3", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Seq__q1_element__subinstructions[] = {
  &Seq__q1_element__q2_instruction,
  &Seq__q1_element__q3_instruction,
};

const static Seq_cref::q1_cref::instruction_type
Seq__q1_instruction(
  presence_optional,
  0, // id
  "q1", // name
  "", // ns
  "", // dictionary
  Seq__q1_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Seq__q1_element__q1_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static uint32_field_instruction
Seq__q4_instruction(
  operator_none,
  presence_optional,
  0, // id
  "q4", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Seq__subinstructions[] = {
  &Seq__q1_instruction,
  &Seq__q4_instruction,
};

  const static Seq::instruction_type the_instruction(
    10, // id
    "Seq", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Seq__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const SeqSeq::instruction_type*
SeqSeq::instruction()
{
  const static SeqSeq::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
SeqSeq__n1_element__n1_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

static uint32_field_instruction
SeqSeq__n1_element__n2_element__n2_length_instruction(
  operator_none,
  presence_optional,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
SeqSeq__n1_element__n2_element__n3_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "n3", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* SeqSeq__n1_element__n2_element__subinstructions[] = {
  &SeqSeq__n1_element__n2_element__n3_instruction,
};

const static SeqSeq_cref::n1_element_cref::n2_cref::instruction_type
SeqSeq__n1_element__n2_instruction(
  presence_optional,
  0, // id
  "n2", // name
  "", // ns
  "", // dictionary
  SeqSeq__n1_element__n2_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &SeqSeq__n1_element__n2_element__n2_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* SeqSeq__n1_element__subinstructions[] = {
  &SeqSeq__n1_element__n2_instruction,
};

const static SeqSeq_cref::n1_cref::instruction_type
SeqSeq__n1_instruction(
  presence_mandatory,
  0, // id
  "n1", // name
  "", // ns
  "", // dictionary
  SeqSeq__n1_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &SeqSeq__n1_element__n1_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* SeqSeq__subinstructions[] = {
  &SeqSeq__n1_instruction,
};

  const static SeqSeq::instruction_type the_instruction(
    11, // id
    "SeqSeq", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    SeqSeq__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Plain::instruction_type*
Plain::instruction()
{
  const static Plain::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
Plain__p1_element__p1_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
Plain__p1_element____instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Plain__p1_element__subinstructions[] = {
  &Plain__p1_element____instruction,
};

const static Plain_cref::p1_cref::instruction_type
Plain__p1_instruction(
  presence_mandatory,
  0, // id
  "p1", // name
  "", // ns
  "", // dictionary
  Plain__p1_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Plain__p1_element__p1_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

static uint32_field_instruction
Plain__p2_element__p2_length_instruction(
  operator_none,
  presence_optional,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static byte_vector_field_instruction
Plain__p2_element____instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "", // name
  "", // ns
  nullptr,  // opContext
  byte_vector_value_storage(), // initial value
  0, // length id
  "", // length name
  "", // length ns
  mfast::instruction_tag(1)); // tag

const static field_instruction* Plain__p2_element__subinstructions[] = {
  &Plain__p2_element____instruction,
};

const static Plain_cref::p2_cref::instruction_type
Plain__p2_instruction(
  presence_optional,
  0, // id
  "p2", // name
  "", // ns
  "", // dictionary
  Plain__p2_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Plain__p2_element__p2_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Plain__subinstructions[] = {
  &Plain__p1_instruction,
  &Plain__p2_instruction,
};

  const static Plain::instruction_type the_instruction(
    12, // id
    "Plain", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Plain__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const PlainStr::instruction_type*
PlainStr::instruction()
{
  const static PlainStr::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
PlainStr__p3_element__p3_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static ascii_field_instruction
PlainStr__p3_element____instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "", // name
  "", // ns
  nullptr,  // opContext
  string_value_storage(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* PlainStr__p3_element__subinstructions[] = {
  &PlainStr__p3_element____instruction,
};

const static PlainStr_cref::p3_cref::instruction_type
PlainStr__p3_instruction(
  presence_mandatory,
  0, // id
  "p3", // name
  "", // ns
  "", // dictionary
  PlainStr__p3_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &PlainStr__p3_element__p3_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* PlainStr__subinstructions[] = {
  &PlainStr__p3_instruction,
};

  const static PlainStr::instruction_type the_instruction(
    13, // id
    "PlainStr", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    PlainStr__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Enums::instruction_type*
Enums::instruction()
{
  const static Enums::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static const char* Enums__e1_elements[] = {
  "x",
  "y"};
static const uint64_t Enums__e1_values[] = {
  2,
  5};
const static Enums_cref::e1_cref::instruction_type
Enums__e1_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "e1", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  Enums__e1_elements, // element names
  Enums__e1_values, // element values
  2,// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

static const char* Enums__e2_elements[] = {
  "u",
  "w"};
const static Enums_cref::e2_cref::instruction_type
Enums__e2_instruction(
  operator_none,
  presence_optional,
  0, // id
  "e2", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(), // initial_value
  Enums__e2_elements, // element names
  nullptr, // element values
  2,// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static mfast::boolean::instruction_type
Enums__e3_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "e3", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(0), // initial_value
  mfast::boolean::instruction()->elements(), // element names
  mfast::boolean::instruction()->element_values(), // element values
  mfast::boolean::instruction()->num_elements(),// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static mfast::boolean::instruction_type
Enums__e4_instruction(
  operator_none,
  presence_optional,
  0, // id
  "e4", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint64_t>(0), // initial_value
  mfast::boolean::instruction()->elements(), // element names
  mfast::boolean::instruction()->element_values(), // element values
  mfast::boolean::instruction()->num_elements(),// num elements
  nullptr, // ref_instruction
  nullptr, // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Enums__subinstructions[] = {
  &Enums__e1_instruction,
  &Enums__e2_instruction,
  &Enums__e3_instruction,
  &Enums__e4_instruction,
};

  const static Enums::instruction_type the_instruction(
    14, // id
    "Enums", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Enums__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Leaf::instruction_type*
Leaf::instruction()
{
  const static Leaf::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static uint32_field_instruction
Leaf__l1_instruction(
  operator_none,
  presence_optional,
  0, // id
  "l1", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Leaf__subinstructions[] = {
  &Leaf__l1_instruction,
};

  const static Leaf::instruction_type the_instruction(
    15, // id
    "Leaf", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Leaf__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Dyn::instruction_type*
Dyn::instruction()
{
  const static Dyn::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static mfast::group_instruction_ex<Dyn_cref::t1_cref>
Dyn__t1_instruction(
  presence_mandatory,
  0, // id
  "t1", // name
  "", // ns
  "", // dictionary
  mfast::templateref_instruction::default_instruction(),
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

static uint32_field_instruction
Dyn__t2_element__t2_length_instruction(
  operator_none,
  presence_optional,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

static const templateref_instruction
Dyn__t2_element__templateref0_instruction(
  mfast::instruction_tag(0)); // tag

const static field_instruction* Dyn__t2_element__subinstructions[] = {
  &Dyn__t2_element__templateref0_instruction,
};

const static Dyn_cref::t2_cref::instruction_type
Dyn__t2_instruction(
  presence_optional,
  0, // id
  "t2", // name
  "", // ns
  "", // dictionary
  Dyn__t2_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Dyn__t2_element__t2_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static uint32_field_instruction
Dyn__t3_instruction(
  operator_none,
  presence_optional,
  0, // id
  "t3", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Dyn__subinstructions[] = {
  &Dyn__t1_instruction,
  &Dyn__t2_instruction,
  &Dyn__t3_instruction,
};

  const static Dyn::instruction_type the_instruction(
    16, // id
    "Dyn", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Dyn__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Tags::instruction_type*
Tags::instruction()
{
  const static Tags::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
const static uint32_field_instruction
Tags__i1_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "i1", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(2)); // tag

const static uint32_field_instruction
Tags__i2_instruction(
  operator_none,
  presence_optional,
  0, // id
  "i2", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static uint32_field_instruction
Tags__i3__i4_instruction(
  operator_none,
  presence_optional,
  0, // id
  "i4", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(2)); // tag

const static uint32_field_instruction
Tags__i3__i5_instruction(
  operator_none,
  presence_optional,
  0, // id
  "i5", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Tags__i3__subinstructions[] = {
  &Tags__i3__i4_instruction,
  &Tags__i3__i5_instruction,
};

const static Tags_cref::i3_cref::instruction_type
Tags__i3_instruction(
  presence_mandatory,
  0, // id
  "i3", // name
  "", // ns
  "", // dictionary
  Tags__i3__subinstructions,
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag

static uint32_field_instruction
Tags__i6_element__i6_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
Tags__i6_element__i7_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "i7", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(2)); // tag

const static field_instruction* Tags__i6_element__subinstructions[] = {
  &Tags__i6_element__i7_instruction,
};

const static Tags_cref::i6_cref::instruction_type
Tags__i6_instruction(
  presence_mandatory,
  0, // id
  "i6", // name
  "", // ns
  "", // dictionary
  Tags__i6_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Tags__i6_element__i6_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Tags__subinstructions[] = {
  &Tags__i1_instruction,
  &Tags__i2_instruction,
  &Tags__i3_instruction,
  &Tags__i6_instruction,
};

  const static Tags::instruction_type the_instruction(
    17, // id
    "Tags", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Tags__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const Nest::instruction_type*
Nest::instruction()
{
  const static Nest::instruction_type* ptr_instruction;
  if (ptr_instruction) return ptr_instruction;
static uint32_field_instruction
Nest__z1_element__z1_length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

static uint32_field_instruction
Nest__z1_element____element____length_instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "__length__", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>()); // initial_value

const static uint32_field_instruction
Nest__z1_element____element____instruction(
  operator_none,
  presence_mandatory,
  0, // id
  "", // name
  "", // ns
  nullptr,  // opContext
  int_value_storage<uint32_t>(), // initial_value
  mfast::instruction_tag(0)); // tag

const static field_instruction* Nest__z1_element____element__subinstructions[] = {
  &Nest__z1_element____element____instruction,
};

const static Nest_cref::z1_element_cref::instruction_type
Nest__z1_element____instruction(
  presence_mandatory,
  0, // id
  "", // name
  "", // ns
  "", // dictionary
  Nest__z1_element____element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Nest__z1_element____element____length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Nest__z1_element__subinstructions[] = {
  &Nest__z1_element____instruction,
};

const static Nest_cref::z1_cref::instruction_type
Nest__z1_instruction(
  presence_mandatory,
  0, // id
  "z1", // name
  "", // ns
  "", // dictionary
  Nest__z1_element__subinstructions,
  nullptr, // element_instruction
  nullptr, // ref_instruction
  &Nest__z1_element__z1_length_instruction, // length
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); //tag 

const static field_instruction* Nest__subinstructions[] = {
  &Nest__z1_instruction,
};

  const static Nest::instruction_type the_instruction(
    18, // id
    "Nest", // name
    "", // ns
    "", // templateNs
    "", // dictionary
    Nest__subinstructions,
    0, // reset
  "", // typeRef name 
  "", // typeRef ns 
  "", // cpp_ns
  mfast::instruction_tag(0)); // tag 

  ptr_instruction = &the_instruction;
  return ptr_instruction;
}

const template_instruction* json_templates_instructions[] ={
  Ints::instruction(),
  Dec::instruction(),
  Str::instruction(),
  Uni::instruction(),
  Bytes::instruction(),
  Raw::instruction(),
  Vec1::instruction(),
  Vec2::instruction(),
  Grp::instruction(),
  Seq::instruction(),
  SeqSeq::instruction(),
  Plain::instruction(),
  PlainStr::instruction(),
  Enums::instruction(),
  Leaf::instruction(),
  Dyn::instruction(),
  Tags::instruction(),
  Nest::instruction()};

templates_description::templates_description()
  : mfast::templates_description(
    "json", // ns
    "json", // templateNs
    "", // dictionary
    json_templates_instructions)
{
}

const templates_description* templates_description::instance()
{
  static const templates_description inst;
  return &inst;
}

}
