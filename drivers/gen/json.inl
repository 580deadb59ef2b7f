// json.inl generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

inline
mfast_tag_cref::mfast_tag_cref(
  const mfast::value_storage*   storage,
  mfast_tag_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
mfast_tag_cref::mfast_tag_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

inline
mfast_tag_mref::mfast_tag_mref(
  mfast::allocator*      alloc,
  mfast::value_storage*  storage,
  mfast_tag_mref::instruction_cptr instruction)
  : base_type(alloc, storage, instruction)
{
}

inline
mfast_tag_mref::mfast_tag_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

inline
mfast_tag_cref::element_type
mfast_tag_cref::value() const
{
  return static_cast<mfast_tag::element>(base_type::value());
}

inline
bool mfast_tag_cref::is_RAW() const
{
  return this->value() == mfast_tag::RAW;
}

inline
void mfast_tag_mref::as_RAW() const
{
  return this->as(mfast_tag::RAW);
}

inline
bool mfast_tag_cref::is_IGNORE() const
{
  return this->value() == mfast_tag::IGNORE;
}

inline
void mfast_tag_mref::as_IGNORE() const
{
  return this->as(mfast_tag::IGNORE);
}

inline
Ints_cref::Ints_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Ints_cref::Ints_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Ints_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Ints_cref::Ints_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Ints_cref::Ints_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Ints_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Ints_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int32_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
  visitor.visit(ext_cref<uint64_cref, none_operator_tag, properties_type< 1> > ((*this)[3]) );
}

inline
Ints_mref::Ints_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Ints_mref::Ints_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Ints_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Ints_mref::Ints_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Ints_mref::Ints_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Ints_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Ints_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int32_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
  visitor.visit(ext_mref<uint64_mref, none_operator_tag, properties_type< 1> > ((*this)[3]) );
}

inline
Ints::Ints(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Ints::Ints(
  const Ints_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Ints::Ints(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Ints::cref_type
Ints::ref() const
{
  return Ints::cref_type(my_storage_.of_group.content_, instruction());
}

inline Ints::cref_type
Ints::cref() const
{
  return Ints::cref_type(my_storage_.of_group.content_, instruction());
}

inline Ints::mref_type
Ints::ref()
{
  return Ints::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Ints::mref_type
Ints::mref()
{
  return Ints::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int32_cref
Ints_cref::get_a1() const
{
  return static_cast<mfast::int32_cref>((*this)[0]);
}

inline mfast::int32_cref
Ints_cref::try_get_a1() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int32_cref>((*this)[0]);
}

inline mfast::int32_mref
Ints_mref::set_a1() const
{
  return static_cast<mfast::int32_mref>((*this)[0]);
}

inline
void
Ints_mref::omit_a1() const
{
  (*this)[0].omit();
}

inline mfast::uint32_cref
Ints_cref::get_a2() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Ints_cref::try_get_a2() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Ints_mref::set_a2() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline mfast::int64_cref
Ints_cref::get_a3() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_cref
Ints_cref::try_get_a3() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_mref
Ints_mref::set_a3() const
{
  return static_cast<mfast::int64_mref>((*this)[2]);
}

inline mfast::uint64_cref
Ints_cref::get_a4() const
{
  return static_cast<mfast::uint64_cref>((*this)[3]);
}

inline mfast::uint64_cref
Ints_cref::try_get_a4() const
{
  if ((*this)[3].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint64_cref>((*this)[3]);
}

inline mfast::uint64_mref
Ints_mref::set_a4() const
{
  return static_cast<mfast::uint64_mref>((*this)[3]);
}

inline
void
Ints_mref::omit_a4() const
{
  (*this)[3].omit();
}

inline
Dec_cref::Dec_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Dec_cref::Dec_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Dec_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Dec_cref::Dec_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Dec_cref::Dec_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Dec_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Dec_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<decimal_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Dec_mref::Dec_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Dec_mref::Dec_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Dec_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Dec_mref::Dec_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Dec_mref::Dec_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Dec_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Dec_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<decimal_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Dec::Dec(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Dec::Dec(
  const Dec_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Dec::Dec(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Dec::cref_type
Dec::ref() const
{
  return Dec::cref_type(my_storage_.of_group.content_, instruction());
}

inline Dec::cref_type
Dec::cref() const
{
  return Dec::cref_type(my_storage_.of_group.content_, instruction());
}

inline Dec::mref_type
Dec::ref()
{
  return Dec::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Dec::mref_type
Dec::mref()
{
  return Dec::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::decimal_cref
Dec_cref::get_d1() const
{
  return static_cast<mfast::decimal_cref>((*this)[0]);
}

inline mfast::decimal_cref
Dec_cref::try_get_d1() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::decimal_cref>((*this)[0]);
}

inline mfast::decimal_mref
Dec_mref::set_d1() const
{
  return static_cast<mfast::decimal_mref>((*this)[0]);
}

inline
void
Dec_mref::omit_d1() const
{
  (*this)[0].omit();
}

inline
Str_cref::Str_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Str_cref::Str_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Str_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Str_cref::Str_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Str_cref::Str_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Str_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Str_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Str_mref::Str_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Str_mref::Str_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Str_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Str_mref::Str_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Str_mref::Str_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Str_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Str_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Str::Str(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Str::Str(
  const Str_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Str::Str(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Str::cref_type
Str::ref() const
{
  return Str::cref_type(my_storage_.of_group.content_, instruction());
}

inline Str::cref_type
Str::cref() const
{
  return Str::cref_type(my_storage_.of_group.content_, instruction());
}

inline Str::mref_type
Str::ref()
{
  return Str::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Str::mref_type
Str::mref()
{
  return Str::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::ascii_string_cref
Str_cref::get_s1() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_cref
Str_cref::try_get_s1() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_mref
Str_mref::set_s1() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[0]);
}

inline
void
Str_mref::omit_s1() const
{
  (*this)[0].omit();
}

inline
Uni_cref::Uni_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Uni_cref::Uni_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Uni_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Uni_cref::Uni_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Uni_cref::Uni_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Uni_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Uni_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<unicode_string_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Uni_mref::Uni_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Uni_mref::Uni_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Uni_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Uni_mref::Uni_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Uni_mref::Uni_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Uni_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Uni_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<unicode_string_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Uni::Uni(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Uni::Uni(
  const Uni_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Uni::Uni(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Uni::cref_type
Uni::ref() const
{
  return Uni::cref_type(my_storage_.of_group.content_, instruction());
}

inline Uni::cref_type
Uni::cref() const
{
  return Uni::cref_type(my_storage_.of_group.content_, instruction());
}

inline Uni::mref_type
Uni::ref()
{
  return Uni::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Uni::mref_type
Uni::mref()
{
  return Uni::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::unicode_string_cref
Uni_cref::get_s2() const
{
  return static_cast<mfast::unicode_string_cref>((*this)[0]);
}

inline mfast::unicode_string_cref
Uni_cref::try_get_s2() const
{
  return static_cast<mfast::unicode_string_cref>((*this)[0]);
}

inline mfast::unicode_string_mref
Uni_mref::set_s2() const
{
  return static_cast<mfast::unicode_string_mref>((*this)[0]);
}

inline mfast::uint32_cref
Uni_cref::get_s3() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Uni_cref::try_get_s3() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Uni_mref::set_s3() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline
void
Uni_mref::omit_s3() const
{
  (*this)[1].omit();
}

inline
Bytes_cref::Bytes_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Bytes_cref::Bytes_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Bytes_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Bytes_cref::Bytes_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Bytes_cref::Bytes_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Bytes_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Bytes_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<byte_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Bytes_mref::Bytes_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Bytes_mref::Bytes_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Bytes_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Bytes_mref::Bytes_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Bytes_mref::Bytes_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Bytes_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Bytes_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<byte_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Bytes::Bytes(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Bytes::Bytes(
  const Bytes_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Bytes::Bytes(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Bytes::cref_type
Bytes::ref() const
{
  return Bytes::cref_type(my_storage_.of_group.content_, instruction());
}

inline Bytes::cref_type
Bytes::cref() const
{
  return Bytes::cref_type(my_storage_.of_group.content_, instruction());
}

inline Bytes::mref_type
Bytes::ref()
{
  return Bytes::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Bytes::mref_type
Bytes::mref()
{
  return Bytes::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::byte_vector_cref
Bytes_cref::get_b1() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[0]);
}

inline mfast::byte_vector_cref
Bytes_cref::try_get_b1() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::byte_vector_cref>((*this)[0]);
}

inline mfast::byte_vector_mref
Bytes_mref::set_b1() const
{
  return static_cast<mfast::byte_vector_mref>((*this)[0]);
}

inline
void
Bytes_mref::omit_b1() const
{
  (*this)[0].omit();
}

inline mfast::uint32_cref
Bytes_cref::get_b2() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Bytes_cref::try_get_b2() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Bytes_mref::set_b2() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline
void
Bytes_mref::omit_b2() const
{
  (*this)[1].omit();
}

inline
Raw_cref::Raw_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Raw_cref::Raw_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Raw_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Raw_cref::Raw_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Raw_cref::Raw_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Raw_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Raw_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref<byte_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_cref<byte_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[2]) );
}

inline
Raw_mref::Raw_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Raw_mref::Raw_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Raw_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Raw_mref::Raw_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Raw_mref::Raw_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Raw_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Raw_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<byte_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_mref<byte_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[2]) );
}

inline
Raw::Raw(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Raw::Raw(
  const Raw_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Raw::Raw(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Raw::cref_type
Raw::ref() const
{
  return Raw::cref_type(my_storage_.of_group.content_, instruction());
}

inline Raw::cref_type
Raw::cref() const
{
  return Raw::cref_type(my_storage_.of_group.content_, instruction());
}

inline Raw::mref_type
Raw::ref()
{
  return Raw::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Raw::mref_type
Raw::mref()
{
  return Raw::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::uint32_cref
Raw_cref::get_r0() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Raw_cref::try_get_r0() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Raw_mref::set_r0() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
void
Raw_mref::omit_r0() const
{
  (*this)[0].omit();
}

inline mfast::byte_vector_cref
Raw_cref::get_r1() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[1]);
}

inline mfast::byte_vector_cref
Raw_cref::try_get_r1() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[1]);
}

inline mfast::byte_vector_mref
Raw_mref::set_r1() const
{
  return static_cast<mfast::byte_vector_mref>((*this)[1]);
}

inline mfast::byte_vector_cref
Raw_cref::get_r2() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[2]);
}

inline mfast::byte_vector_cref
Raw_cref::try_get_r2() const
{
  if ((*this)[2].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::byte_vector_cref>((*this)[2]);
}

inline mfast::byte_vector_mref
Raw_mref::set_r2() const
{
  return static_cast<mfast::byte_vector_mref>((*this)[2]);
}

inline
void
Raw_mref::omit_r2() const
{
  (*this)[2].omit();
}

inline
Vec1_cref::Vec1_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Vec1_cref::Vec1_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Vec1_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Vec1_cref::Vec1_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Vec1_cref::Vec1_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Vec1_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Vec1_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< int32_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref< uint32_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Vec1_mref::Vec1_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Vec1_mref::Vec1_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Vec1_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Vec1_mref::Vec1_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Vec1_mref::Vec1_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Vec1_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Vec1_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int32_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Vec1::Vec1(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Vec1::Vec1(
  const Vec1_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Vec1::Vec1(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Vec1::cref_type
Vec1::ref() const
{
  return Vec1::cref_type(my_storage_.of_group.content_, instruction());
}

inline Vec1::cref_type
Vec1::cref() const
{
  return Vec1::cref_type(my_storage_.of_group.content_, instruction());
}

inline Vec1::mref_type
Vec1::ref()
{
  return Vec1::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Vec1::mref_type
Vec1::mref()
{
  return Vec1::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int32_vector_cref
Vec1_cref::get_v1() const
{
  return static_cast<mfast::int32_vector_cref>((*this)[0]);
}

inline mfast::int32_vector_cref
Vec1_cref::try_get_v1() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int32_vector_cref>((*this)[0]);
}

inline mfast::int32_vector_mref
Vec1_mref::set_v1() const
{
  return static_cast<mfast::int32_vector_mref>((*this)[0]);
}

inline
void
Vec1_mref::omit_v1() const
{
  (*this)[0].omit();
}

inline mfast::uint32_vector_cref
Vec1_cref::get_v2() const
{
  return static_cast<mfast::uint32_vector_cref>((*this)[1]);
}

inline mfast::uint32_vector_cref
Vec1_cref::try_get_v2() const
{
  return static_cast<mfast::uint32_vector_cref>((*this)[1]);
}

inline mfast::uint32_vector_mref
Vec1_mref::set_v2() const
{
  return static_cast<mfast::uint32_vector_mref>((*this)[1]);
}

inline
Vec2_cref::Vec2_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Vec2_cref::Vec2_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Vec2_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Vec2_cref::Vec2_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Vec2_cref::Vec2_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Vec2_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Vec2_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< int64_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref< uint64_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Vec2_mref::Vec2_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Vec2_mref::Vec2_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Vec2_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Vec2_mref::Vec2_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Vec2_mref::Vec2_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Vec2_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Vec2_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<uint64_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Vec2::Vec2(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Vec2::Vec2(
  const Vec2_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Vec2::Vec2(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Vec2::cref_type
Vec2::ref() const
{
  return Vec2::cref_type(my_storage_.of_group.content_, instruction());
}

inline Vec2::cref_type
Vec2::cref() const
{
  return Vec2::cref_type(my_storage_.of_group.content_, instruction());
}

inline Vec2::mref_type
Vec2::ref()
{
  return Vec2::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Vec2::mref_type
Vec2::mref()
{
  return Vec2::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int64_vector_cref
Vec2_cref::get_v3() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[0]);
}

inline mfast::int64_vector_cref
Vec2_cref::try_get_v3() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[0]);
}

inline mfast::int64_vector_mref
Vec2_mref::set_v3() const
{
  return static_cast<mfast::int64_vector_mref>((*this)[0]);
}

inline mfast::uint64_vector_cref
Vec2_cref::get_v4() const
{
  return static_cast<mfast::uint64_vector_cref>((*this)[1]);
}

inline mfast::uint64_vector_cref
Vec2_cref::try_get_v4() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint64_vector_cref>((*this)[1]);
}

inline mfast::uint64_vector_mref
Vec2_mref::set_v4() const
{
  return static_cast<mfast::uint64_vector_mref>((*this)[1]);
}

inline
void
Vec2_mref::omit_v4() const
{
  (*this)[1].omit();
}

inline
Grp_cref::Grp_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Grp_cref::Grp_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Grp_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Grp_cref::Grp_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Grp_cref::Grp_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Grp_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Grp_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< g1_cref,  group_type_tag, properties_type< 0> > ((*this)[0]) );
  {
    ext_cref< g3_cref,  group_type_tag, properties_type< 3> > ext_cref_group((*this)[1]);
    ext_cref_group.set_group_present(this->field_storage(1)->is_present());
    visitor.visit(ext_cref_group);
  }
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
}

inline
Grp_mref::Grp_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Grp_mref::Grp_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Grp_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Grp_mref::Grp_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Grp_mref::Grp_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Grp_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Grp_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< g1_mref, group_type_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref< g3_mref, group_type_tag, properties_type< 3> > ((*this)[1]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
}

inline
Grp::Grp(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Grp::Grp(
  const Grp_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Grp::Grp(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Grp::cref_type
Grp::ref() const
{
  return Grp::cref_type(my_storage_.of_group.content_, instruction());
}

inline Grp::cref_type
Grp::cref() const
{
  return Grp::cref_type(my_storage_.of_group.content_, instruction());
}

inline Grp::mref_type
Grp::ref()
{
  return Grp::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Grp::mref_type
Grp::mref()
{
  return Grp::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}


inline Grp_cref::g1_cref
Grp_cref::get_g1() const
{
  return static_cast<Grp_cref::g1_cref>((*this)[0]);
}


inline Grp_cref::g1_cref
Grp_cref::try_get_g1() const
{
  return static_cast<Grp_cref::g1_cref>((*this)[0]);
}

inline Grp_mref::g1_mref
Grp_mref::set_g1() const
{
  return Grp_mref::g1_mref((*this)[0]);
}

inline
Grp_cref::g1_cref::g1_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Grp_cref::g1_cref::g1_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, g1_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Grp_cref::g1_cref::g1_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Grp_cref::g1_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Grp_mref::g1_mref::g1_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Grp_mref::g1_mref::g1_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, g1_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Grp_mref::g1_mref::g1_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Grp_mref::g1_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline mfast::uint32_cref
Grp_cref::g1_cref::get_g2() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Grp_cref::g1_cref::try_get_g2() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Grp_mref::g1_mref::set_g2() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
void
Grp_mref::g1_mref::omit_g2() const
{
  (*this)[0].omit();
}


inline Grp_cref::g3_cref
Grp_cref::get_g3() const
{
  if ((*this)[1].absent())
    return Grp_cref::g3_cref(nullptr, Grp_cref::g3_cref::instruction_cptr(nullptr));
  return static_cast<Grp_cref::g3_cref>((*this)[1]);
}


inline Grp_cref::g3_cref
Grp_cref::try_get_g3() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Grp_cref::g3_cref>((*this)[1]);
}

inline Grp_mref::g3_mref
Grp_mref::set_g3() const
{
  this->field_storage(1)->present(true);
  return Grp_mref::g3_mref((*this)[1]);
}

inline
void
Grp_mref::omit_g3() const
{
  (*this)[1].omit();
}

inline
Grp_cref::g3_cref::g3_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Grp_cref::g3_cref::g3_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, g3_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Grp_cref::g3_cref::g3_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Grp_cref::g3_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  {
    ext_cref< g5_cref,  group_type_tag, properties_type< 1> > ext_cref_group((*this)[1]);
    ext_cref_group.set_group_present(this->field_storage(1)->is_present());
    visitor.visit(ext_cref_group);
  }
}

inline
Grp_mref::g3_mref::g3_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Grp_mref::g3_mref::g3_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, g3_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Grp_mref::g3_mref::g3_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Grp_mref::g3_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref< g5_mref, group_type_tag, properties_type< 1> > ((*this)[1]) );
}

inline mfast::int64_cref
Grp_cref::g3_cref::get_g4() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Grp_cref::g3_cref::try_get_g4() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Grp_mref::g3_mref::set_g4() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}


inline Grp_cref::g3_cref::g5_cref
Grp_cref::g3_cref::get_g5() const
{
  if ((*this)[1].absent())
    return Grp_cref::g3_cref::g5_cref(nullptr, Grp_cref::g3_cref::g5_cref::instruction_cptr(nullptr));
  return static_cast<Grp_cref::g3_cref::g5_cref>((*this)[1]);
}


inline Grp_cref::g3_cref::g5_cref
Grp_cref::g3_cref::try_get_g5() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Grp_cref::g3_cref::g5_cref>((*this)[1]);
}

inline Grp_mref::g3_mref::g5_mref
Grp_mref::g3_mref::set_g5() const
{
  this->field_storage(1)->present(true);
  return Grp_mref::g3_mref::g5_mref((*this)[1]);
}

inline
void
Grp_mref::g3_mref::omit_g5() const
{
  (*this)[1].omit();
}

inline
Grp_cref::g3_cref::g5_cref::g5_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Grp_cref::g3_cref::g5_cref::g5_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, g5_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Grp_cref::g3_cref::g5_cref::g5_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Grp_cref::g3_cref::g5_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Grp_mref::g3_mref::g5_mref::g5_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Grp_mref::g3_mref::g5_mref::g5_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, g5_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Grp_mref::g3_mref::g5_mref::g5_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Grp_mref::g3_mref::g5_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline mfast::uint32_cref
Grp_cref::g3_cref::g5_cref::get_g6() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Grp_cref::g3_cref::g5_cref::try_get_g6() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Grp_mref::g3_mref::g5_mref::set_g6() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
void
Grp_mref::g3_mref::g5_mref::omit_g6() const
{
  (*this)[0].omit();
}

inline mfast::uint32_cref
Grp_cref::get_g7() const
{
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_cref
Grp_cref::try_get_g7() const
{
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_mref
Grp_mref::set_g7() const
{
  return static_cast<mfast::uint32_mref>((*this)[2]);
}

inline
Seq_cref::Seq_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Seq_cref::Seq_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Seq_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Seq_cref::Seq_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Seq_cref::Seq_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Seq_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Seq_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 1> >, ext_cref< typename q1_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Seq_mref::Seq_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Seq_mref::Seq_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Seq_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Seq_mref::Seq_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Seq_mref::Seq_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Seq_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Seq_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 1> >, ext_mref< typename q1_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Seq::Seq(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Seq::Seq(
  const Seq_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Seq::Seq(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Seq::cref_type
Seq::ref() const
{
  return Seq::cref_type(my_storage_.of_group.content_, instruction());
}

inline Seq::cref_type
Seq::cref() const
{
  return Seq::cref_type(my_storage_.of_group.content_, instruction());
}

inline Seq::mref_type
Seq::ref()
{
  return Seq::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Seq::mref_type
Seq::mref()
{
  return Seq::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Seq_cref::q1_cref
Seq_cref::get_q1() const
{
  return static_cast<Seq_cref::q1_cref>((*this)[0]);
}

inline Seq_cref::q1_cref
Seq_cref::try_get_q1() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<Seq_cref::q1_cref>((*this)[0]);
}

inline Seq_mref::q1_mref
Seq_mref::set_q1() const
{
  return static_cast<Seq_mref::q1_mref>((*this)[0]);
}

inline
void
Seq_mref::omit_q1() const
{
  (*this)[0].omit();
}

inline
Seq_cref::q1_element_cref::q1_element_cref(
  const mfast::value_storage*   storage,
  Seq_cref::q1_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Seq_mref::q1_element_mref::q1_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Seq_mref::q1_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Seq_cref::q1_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

template <typename Visitor>
inline void Seq_mref::q1_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline mfast::uint32_cref
Seq_cref::q1_element_cref::get_q2() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Seq_cref::q1_element_cref::try_get_q2() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Seq_mref::q1_element_mref::set_q2() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
void
Seq_mref::q1_element_mref::omit_q2() const
{
  (*this)[0].omit();
}

inline mfast::uint32_cref
Seq_cref::q1_element_cref::get_q3() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Seq_cref::q1_element_cref::try_get_q3() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Seq_mref::q1_element_mref::set_q3() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline mfast::uint32_cref
Seq_cref::get_q4() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Seq_cref::try_get_q4() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Seq_mref::set_q4() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline
void
Seq_mref::omit_q4() const
{
  (*this)[1].omit();
}

inline
SeqSeq_cref::SeqSeq_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
SeqSeq_cref::SeqSeq_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, SeqSeq_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
SeqSeq_cref::SeqSeq_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
SeqSeq_cref::SeqSeq_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
SeqSeq_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void SeqSeq_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename n1_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
}

inline
SeqSeq_mref::SeqSeq_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
SeqSeq_mref::SeqSeq_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, SeqSeq_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
SeqSeq_mref::SeqSeq_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
SeqSeq_mref::SeqSeq_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
SeqSeq_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void SeqSeq_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename n1_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
}

inline
SeqSeq::SeqSeq(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
SeqSeq::SeqSeq(
  const SeqSeq_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
SeqSeq::SeqSeq(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline SeqSeq::cref_type
SeqSeq::ref() const
{
  return SeqSeq::cref_type(my_storage_.of_group.content_, instruction());
}

inline SeqSeq::cref_type
SeqSeq::cref() const
{
  return SeqSeq::cref_type(my_storage_.of_group.content_, instruction());
}

inline SeqSeq::mref_type
SeqSeq::ref()
{
  return SeqSeq::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline SeqSeq::mref_type
SeqSeq::mref()
{
  return SeqSeq::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline SeqSeq_cref::n1_cref
SeqSeq_cref::get_n1() const
{
  return static_cast<SeqSeq_cref::n1_cref>((*this)[0]);
}

inline SeqSeq_cref::n1_cref
SeqSeq_cref::try_get_n1() const
{
  return static_cast<SeqSeq_cref::n1_cref>((*this)[0]);
}

inline SeqSeq_mref::n1_mref
SeqSeq_mref::set_n1() const
{
  return static_cast<SeqSeq_mref::n1_mref>((*this)[0]);
}

inline
SeqSeq_cref::n1_element_cref::n1_element_cref(
  const mfast::value_storage*   storage,
  SeqSeq_cref::n1_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
SeqSeq_mref::n1_element_mref::n1_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  SeqSeq_mref::n1_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void SeqSeq_cref::n1_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 1> >, ext_cref< typename n2_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
}

template <typename Visitor>
inline void SeqSeq_mref::n1_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 1> >, ext_mref< typename n2_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
}

inline SeqSeq_cref::n1_element_cref::n2_cref
SeqSeq_cref::n1_element_cref::get_n2() const
{
  return static_cast<SeqSeq_cref::n1_element_cref::n2_cref>((*this)[0]);
}

inline SeqSeq_cref::n1_element_cref::n2_cref
SeqSeq_cref::n1_element_cref::try_get_n2() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<SeqSeq_cref::n1_element_cref::n2_cref>((*this)[0]);
}

inline SeqSeq_mref::n1_element_mref::n2_mref
SeqSeq_mref::n1_element_mref::set_n2() const
{
  return static_cast<SeqSeq_mref::n1_element_mref::n2_mref>((*this)[0]);
}

inline
void
SeqSeq_mref::n1_element_mref::omit_n2() const
{
  (*this)[0].omit();
}

inline
SeqSeq_cref::n1_element_cref::n2_element_cref::n2_element_cref(
  const mfast::value_storage*   storage,
  SeqSeq_cref::n1_element_cref::n2_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
SeqSeq_mref::n1_element_mref::n2_element_mref::n2_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  SeqSeq_mref::n1_element_mref::n2_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void SeqSeq_cref::n1_element_cref::n2_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void SeqSeq_mref::n1_element_mref::n2_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::uint32_cref
SeqSeq_cref::n1_element_cref::n2_element_cref::get_n3() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
SeqSeq_cref::n1_element_cref::n2_element_cref::try_get_n3() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
SeqSeq_mref::n1_element_mref::n2_element_mref::set_n3() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
Plain_cref::Plain_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Plain_cref::Plain_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Plain_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Plain_cref::Plain_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Plain_cref::Plain_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Plain_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Plain_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename p1_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 1> >, ext_cref< typename p2_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[1]) );
}

inline
Plain_mref::Plain_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Plain_mref::Plain_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Plain_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Plain_mref::Plain_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Plain_mref::Plain_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Plain_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Plain_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename p1_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 1> >, ext_mref< typename p2_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[1]) );
}

inline
Plain::Plain(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Plain::Plain(
  const Plain_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Plain::Plain(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Plain::cref_type
Plain::ref() const
{
  return Plain::cref_type(my_storage_.of_group.content_, instruction());
}

inline Plain::cref_type
Plain::cref() const
{
  return Plain::cref_type(my_storage_.of_group.content_, instruction());
}

inline Plain::mref_type
Plain::ref()
{
  return Plain::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Plain::mref_type
Plain::mref()
{
  return Plain::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Plain_cref::p1_cref
Plain_cref::get_p1() const
{
  return static_cast<Plain_cref::p1_cref>((*this)[0]);
}

inline Plain_cref::p1_cref
Plain_cref::try_get_p1() const
{
  return static_cast<Plain_cref::p1_cref>((*this)[0]);
}

inline Plain_mref::p1_mref
Plain_mref::set_p1() const
{
  return static_cast<Plain_mref::p1_mref>((*this)[0]);
}

inline Plain_cref::p2_cref
Plain_cref::get_p2() const
{
  return static_cast<Plain_cref::p2_cref>((*this)[1]);
}

inline Plain_cref::p2_cref
Plain_cref::try_get_p2() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Plain_cref::p2_cref>((*this)[1]);
}

inline Plain_mref::p2_mref
Plain_mref::set_p2() const
{
  return static_cast<Plain_mref::p2_mref>((*this)[1]);
}

inline
void
Plain_mref::omit_p2() const
{
  (*this)[1].omit();
}

inline
PlainStr_cref::PlainStr_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
PlainStr_cref::PlainStr_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, PlainStr_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
PlainStr_cref::PlainStr_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
PlainStr_cref::PlainStr_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
PlainStr_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void PlainStr_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename p3_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[0]) );
}

inline
PlainStr_mref::PlainStr_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
PlainStr_mref::PlainStr_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, PlainStr_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
PlainStr_mref::PlainStr_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
PlainStr_mref::PlainStr_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
PlainStr_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void PlainStr_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename p3_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[0]) );
}

inline
PlainStr::PlainStr(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
PlainStr::PlainStr(
  const PlainStr_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
PlainStr::PlainStr(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline PlainStr::cref_type
PlainStr::ref() const
{
  return PlainStr::cref_type(my_storage_.of_group.content_, instruction());
}

inline PlainStr::cref_type
PlainStr::cref() const
{
  return PlainStr::cref_type(my_storage_.of_group.content_, instruction());
}

inline PlainStr::mref_type
PlainStr::ref()
{
  return PlainStr::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline PlainStr::mref_type
PlainStr::mref()
{
  return PlainStr::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline PlainStr_cref::p3_cref
PlainStr_cref::get_p3() const
{
  return static_cast<PlainStr_cref::p3_cref>((*this)[0]);
}

inline PlainStr_cref::p3_cref
PlainStr_cref::try_get_p3() const
{
  return static_cast<PlainStr_cref::p3_cref>((*this)[0]);
}

inline PlainStr_mref::p3_mref
PlainStr_mref::set_p3() const
{
  return static_cast<PlainStr_mref::p3_mref>((*this)[0]);
}

inline
Enums_cref::Enums_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Enums_cref::Enums_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Enums_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Enums_cref::Enums_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Enums_cref::Enums_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Enums_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Enums_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 2> > ((*this)[2]) );
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 3> > ((*this)[3]) );
}

inline
Enums_mref::Enums_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Enums_mref::Enums_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Enums_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Enums_mref::Enums_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Enums_mref::Enums_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Enums_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Enums_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 2> > ((*this)[2]) );
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 3> > ((*this)[3]) );
}

inline
Enums::Enums(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Enums::Enums(
  const Enums_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Enums::Enums(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Enums::cref_type
Enums::ref() const
{
  return Enums::cref_type(my_storage_.of_group.content_, instruction());
}

inline Enums::cref_type
Enums::cref() const
{
  return Enums::cref_type(my_storage_.of_group.content_, instruction());
}

inline Enums::mref_type
Enums::ref()
{
  return Enums::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Enums::mref_type
Enums::mref()
{
  return Enums::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline
Enums_cref::e1_cref::e1_cref(
  const mfast::value_storage*   storage,
  Enums_cref::e1_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Enums_cref::e1_cref::e1_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

inline
Enums_mref::e1_mref::e1_mref(
  mfast::allocator*      alloc,
  mfast::value_storage*  storage,
  Enums_mref::e1_mref::instruction_cptr instruction)
  : base_type(alloc, storage, instruction)
{
}

inline
Enums_mref::e1_mref::e1_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

inline
Enums_cref::e1_cref::element_type
Enums_cref::e1_cref::value() const
{
  return static_cast<e1::element>(base_type::value());
}

inline
bool Enums_cref::e1_cref::is_x() const
{
  return this->value() == e1::x;
}

inline
void Enums_mref::e1_mref::as_x() const
{
  return this->as(e1::x);
}

inline
bool Enums_cref::e1_cref::is_y() const
{
  return this->value() == e1::y;
}

inline
void Enums_mref::e1_mref::as_y() const
{
  return this->as(e1::y);
}

inline Enums_cref::e1_cref
Enums_cref::get_e1() const
{
  return static_cast<Enums_cref::e1_cref>((*this)[0]);
}

inline Enums_cref::e1_cref
Enums_cref::try_get_e1() const
{
  return static_cast<Enums_cref::e1_cref>((*this)[0]);
}

inline Enums_mref::e1_mref
Enums_mref::set_e1() const
{
  return static_cast<Enums_mref::e1_mref>((*this)[0]);
}

inline
Enums_cref::e2_cref::e2_cref(
  const mfast::value_storage*   storage,
  Enums_cref::e2_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Enums_cref::e2_cref::e2_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

inline
Enums_mref::e2_mref::e2_mref(
  mfast::allocator*      alloc,
  mfast::value_storage*  storage,
  Enums_mref::e2_mref::instruction_cptr instruction)
  : base_type(alloc, storage, instruction)
{
}

inline
Enums_mref::e2_mref::e2_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

inline
Enums_cref::e2_cref::element_type
Enums_cref::e2_cref::value() const
{
  return static_cast<e2::element>(base_type::value());
}

inline
bool Enums_cref::e2_cref::is_u() const
{
  return this->value() == e2::u;
}

inline
void Enums_mref::e2_mref::as_u() const
{
  return this->as(e2::u);
}

inline
bool Enums_cref::e2_cref::is_w() const
{
  return this->value() == e2::w;
}

inline
void Enums_mref::e2_mref::as_w() const
{
  return this->as(e2::w);
}

inline Enums_cref::e2_cref
Enums_cref::get_e2() const
{
  return static_cast<Enums_cref::e2_cref>((*this)[1]);
}

inline Enums_cref::e2_cref
Enums_cref::try_get_e2() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Enums_cref::e2_cref>((*this)[1]);
}

inline Enums_mref::e2_mref
Enums_mref::set_e2() const
{
  return static_cast<Enums_mref::e2_mref>((*this)[1]);
}

inline
void
Enums_mref::omit_e2() const
{
  (*this)[1].omit();
}

inline Enums_cref::e3_cref
Enums_cref::get_e3() const
{
  return static_cast<Enums_cref::e3_cref>((*this)[2]);
}

inline Enums_cref::e3_cref
Enums_cref::try_get_e3() const
{
  return static_cast<Enums_cref::e3_cref>((*this)[2]);
}

inline Enums_mref::e3_mref
Enums_mref::set_e3() const
{
  return static_cast<Enums_mref::e3_mref>((*this)[2]);
}

inline Enums_cref::e4_cref
Enums_cref::get_e4() const
{
  return static_cast<Enums_cref::e4_cref>((*this)[3]);
}

inline Enums_cref::e4_cref
Enums_cref::try_get_e4() const
{
  if ((*this)[3].absent())
    throw mfast::bad_optional_access();
  return static_cast<Enums_cref::e4_cref>((*this)[3]);
}

inline Enums_mref::e4_mref
Enums_mref::set_e4() const
{
  return static_cast<Enums_mref::e4_mref>((*this)[3]);
}

inline
void
Enums_mref::omit_e4() const
{
  (*this)[3].omit();
}

inline
Leaf_cref::Leaf_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Leaf_cref::Leaf_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Leaf_cref::Leaf_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Leaf_cref::Leaf_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Leaf_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Leaf_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Leaf_mref::Leaf_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Leaf_mref::Leaf_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Leaf_mref::Leaf_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Leaf_mref::Leaf_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Leaf_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Leaf_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
}

inline
Leaf::Leaf(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Leaf::Leaf(
  const Leaf_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Leaf::Leaf(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Leaf::cref_type
Leaf::ref() const
{
  return Leaf::cref_type(my_storage_.of_group.content_, instruction());
}

inline Leaf::cref_type
Leaf::cref() const
{
  return Leaf::cref_type(my_storage_.of_group.content_, instruction());
}

inline Leaf::mref_type
Leaf::ref()
{
  return Leaf::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Leaf::mref_type
Leaf::mref()
{
  return Leaf::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::uint32_cref
Leaf_cref::get_l1() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Leaf_cref::try_get_l1() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Leaf_mref::set_l1() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
void
Leaf_mref::omit_l1() const
{
  (*this)[0].omit();
}

inline
Dyn_cref::Dyn_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Dyn_cref::Dyn_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Dyn_cref::Dyn_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Dyn_cref::Dyn_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Dyn_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Dyn_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< t1_cref,  group_type_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 1> >, ext_cref< typename t2_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[1]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[2]) );
}

inline
Dyn_mref::Dyn_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Dyn_mref::Dyn_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Dyn_mref::Dyn_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Dyn_mref::Dyn_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Dyn_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Dyn_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< t1_mref, group_type_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 1> >, ext_mref< typename t2_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[1]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[2]) );
}

inline
Dyn::Dyn(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Dyn::Dyn(
  const Dyn_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Dyn::Dyn(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Dyn::cref_type
Dyn::ref() const
{
  return Dyn::cref_type(my_storage_.of_group.content_, instruction());
}

inline Dyn::cref_type
Dyn::cref() const
{
  return Dyn::cref_type(my_storage_.of_group.content_, instruction());
}

inline Dyn::mref_type
Dyn::ref()
{
  return Dyn::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Dyn::mref_type
Dyn::mref()
{
  return Dyn::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}


inline Dyn_cref::t1_cref
Dyn_cref::get_t1() const
{
  return static_cast<Dyn_cref::t1_cref>(mfast::aggregate_cref((*this)[0])[0]);
}


inline Dyn_cref::t1_cref
Dyn_cref::try_get_t1() const
{
  return static_cast<Dyn_cref::t1_cref>(mfast::aggregate_cref((*this)[0])[0]);
}

inline Dyn_mref::t1_mref
Dyn_mref::set_t1() const
{
  return Dyn_mref::t1_mref(mfast::aggregate_mref((*this)[0])[0]);
}

inline Dyn_cref::t2_cref
Dyn_cref::get_t2() const
{
  return static_cast<Dyn_cref::t2_cref>((*this)[1]);
}

inline Dyn_cref::t2_cref
Dyn_cref::try_get_t2() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Dyn_cref::t2_cref>((*this)[1]);
}

inline Dyn_mref::t2_mref
Dyn_mref::set_t2() const
{
  return static_cast<Dyn_mref::t2_mref>((*this)[1]);
}

inline
void
Dyn_mref::omit_t2() const
{
  (*this)[1].omit();
}

inline mfast::uint32_cref
Dyn_cref::get_t3() const
{
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_cref
Dyn_cref::try_get_t3() const
{
  if ((*this)[2].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_mref
Dyn_mref::set_t3() const
{
  return static_cast<mfast::uint32_mref>((*this)[2]);
}

inline
void
Dyn_mref::omit_t3() const
{
  (*this)[2].omit();
}

inline
Tags_cref::Tags_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Tags_cref::Tags_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Tags_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Tags_cref::Tags_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Tags_cref::Tags_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Tags_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Tags_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_cref< i3_cref,  group_type_tag, properties_type< 0> > ((*this)[2]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename i6_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[3]) );
}

inline
Tags_mref::Tags_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Tags_mref::Tags_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Tags_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Tags_mref::Tags_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Tags_mref::Tags_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Tags_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Tags_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref< i3_mref, group_type_tag, properties_type< 0> > ((*this)[2]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename i6_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[3]) );
}

inline
Tags::Tags(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Tags::Tags(
  const Tags_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Tags::Tags(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Tags::cref_type
Tags::ref() const
{
  return Tags::cref_type(my_storage_.of_group.content_, instruction());
}

inline Tags::cref_type
Tags::cref() const
{
  return Tags::cref_type(my_storage_.of_group.content_, instruction());
}

inline Tags::mref_type
Tags::ref()
{
  return Tags::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Tags::mref_type
Tags::mref()
{
  return Tags::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::uint32_cref
Tags_cref::get_i1() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Tags_cref::try_get_i1() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Tags_mref::set_i1() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline mfast::uint32_cref
Tags_cref::get_i2() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Tags_cref::try_get_i2() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Tags_mref::set_i2() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline
void
Tags_mref::omit_i2() const
{
  (*this)[1].omit();
}


inline Tags_cref::i3_cref
Tags_cref::get_i3() const
{
  return static_cast<Tags_cref::i3_cref>((*this)[2]);
}


inline Tags_cref::i3_cref
Tags_cref::try_get_i3() const
{
  return static_cast<Tags_cref::i3_cref>((*this)[2]);
}

inline Tags_mref::i3_mref
Tags_mref::set_i3() const
{
  return Tags_mref::i3_mref((*this)[2]);
}

inline
Tags_cref::i3_cref::i3_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Tags_cref::i3_cref::i3_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, i3_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Tags_cref::i3_cref::i3_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Tags_cref::i3_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline
Tags_mref::i3_mref::i3_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Tags_mref::i3_mref::i3_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, i3_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Tags_mref::i3_mref::i3_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Tags_mref::i3_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
}

inline mfast::uint32_cref
Tags_cref::i3_cref::get_i4() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Tags_cref::i3_cref::try_get_i4() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Tags_mref::i3_mref::set_i4() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
void
Tags_mref::i3_mref::omit_i4() const
{
  (*this)[0].omit();
}

inline mfast::uint32_cref
Tags_cref::i3_cref::get_i5() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Tags_cref::i3_cref::try_get_i5() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Tags_mref::i3_mref::set_i5() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline
void
Tags_mref::i3_mref::omit_i5() const
{
  (*this)[1].omit();
}

inline Tags_cref::i6_cref
Tags_cref::get_i6() const
{
  return static_cast<Tags_cref::i6_cref>((*this)[3]);
}

inline Tags_cref::i6_cref
Tags_cref::try_get_i6() const
{
  return static_cast<Tags_cref::i6_cref>((*this)[3]);
}

inline Tags_mref::i6_mref
Tags_mref::set_i6() const
{
  return static_cast<Tags_mref::i6_mref>((*this)[3]);
}

inline
Tags_cref::i6_element_cref::i6_element_cref(
  const mfast::value_storage*   storage,
  Tags_cref::i6_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Tags_mref::i6_element_mref::i6_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Tags_mref::i6_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Tags_cref::i6_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void Tags_mref::i6_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::uint32_cref
Tags_cref::i6_element_cref::get_i7() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Tags_cref::i6_element_cref::try_get_i7() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Tags_mref::i6_element_mref::set_i7() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline
Nest_cref::Nest_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Nest_cref::Nest_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Nest_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Nest_cref::Nest_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Nest_cref::Nest_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Nest_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Nest_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename z1_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[0]) );
}

inline
Nest_mref::Nest_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Nest_mref::Nest_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Nest_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Nest_mref::Nest_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Nest_mref::Nest_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Nest_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Nest_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename z1_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[0]) );
}

inline
Nest::Nest(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Nest::Nest(
  const Nest_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Nest::Nest(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Nest::cref_type
Nest::ref() const
{
  return Nest::cref_type(my_storage_.of_group.content_, instruction());
}

inline Nest::cref_type
Nest::cref() const
{
  return Nest::cref_type(my_storage_.of_group.content_, instruction());
}

inline Nest::mref_type
Nest::ref()
{
  return Nest::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Nest::mref_type
Nest::mref()
{
  return Nest::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Nest_cref::z1_cref
Nest_cref::get_z1() const
{
  return static_cast<Nest_cref::z1_cref>((*this)[0]);
}

inline Nest_cref::z1_cref
Nest_cref::try_get_z1() const
{
  return static_cast<Nest_cref::z1_cref>((*this)[0]);
}

inline Nest_mref::z1_mref
Nest_mref::set_z1() const
{
  return static_cast<Nest_mref::z1_mref>((*this)[0]);
}

