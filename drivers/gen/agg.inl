// agg.inl generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

inline
Rec_cref::Rec_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Rec_cref::Rec_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Rec_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Rec_cref::Rec_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Rec_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Rec_mref::Rec_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Rec_mref::Rec_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Rec_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Rec_mref::Rec_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Rec_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Rec::Rec(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Rec::Rec(
  const Rec_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

inline Rec::cref_type
Rec::ref() const
{
  return Rec::cref_type(my_storage_.of_group.content_, instruction());
}

inline Rec::cref_type
Rec::cref() const
{
  return Rec::cref_type(my_storage_.of_group.content_, instruction());
}

inline Rec::mref_type
Rec::ref()
{
  return Rec::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Rec::mref_type
Rec::mref()
{
  return Rec::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline
Rec::Rec(Rec&& other) BOOST_NOEXCEPT
  : base_array(static_cast<const base_array&>(other))
  , base_type(std::move(other), this->data())
{
}

inline
Rec::Rec(const Rec& other) 
  : base_type(other.allocator(), other.instruction(), this->data(), other.data())
{
}

inline Rec&
Rec::operator =(Rec&& other) BOOST_NOEXCEPT
{
  base_type::assign(std::move(other), this->data());
  base_array::operator=(static_cast<const base_array&>(other));
  return *this;
}

inline Rec&
Rec::operator =(const Rec& other)
{
  Rec tmp(other);
  return this->operator=(std::move(tmp));
}

inline mfast::uint32_cref
Rec_cref::get_ra() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Rec_cref::try_get_ra() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Rec_mref::set_ra() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline mfast::ascii_string_cref
Rec_cref::get_rb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_cref
Rec_cref::try_get_rb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_mref
Rec_mref::set_rb() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[1]);
}

inline
Recs_element_cref::Recs_element_cref(
  const mfast::value_storage*   storage,
  Recs_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Recs_element_mref::Recs_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Recs_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Recs_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

template <typename Visitor>
inline void Recs_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline mfast::uint32_cref
Recs_element_cref::get_sa() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Recs_element_cref::try_get_sa() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Recs_element_mref::set_sa() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline mfast::ascii_string_cref
Recs_element_cref::get_sb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_cref
Recs_element_cref::try_get_sb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_mref
Recs_element_mref::set_sb() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[1]);
}

inline
Recs::Recs(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), nullptr)
{
}

inline
Recs::Recs(
  const Recs_cref& other,
  mfast::allocator* alloc)
  : base_type(reinterpret_cast<const mfast::sequence_cref&>(other), alloc)
{
}

inline Recs::cref_type
Recs::ref() const
{
  return Recs::cref_type(&my_storage_, instruction());
}

inline Recs::cref_type
Recs::cref() const
{
  return Recs::cref_type(&my_storage_, instruction());
}

inline Recs::mref_type
Recs::ref()
{
  return Recs::mref_type(alloc_, &my_storage_, instruction());
}

inline Recs::mref_type
Recs::mref()
{
  return Recs::mref_type(alloc_, &my_storage_, instruction());
}

inline
Leaf_cref::Leaf_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Leaf_cref::Leaf_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Leaf_cref::Leaf_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Leaf_cref::Leaf_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Leaf_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Leaf_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Leaf_mref::Leaf_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Leaf_mref::Leaf_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Leaf_mref::Leaf_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Leaf_mref::Leaf_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Leaf_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Leaf_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Leaf::Leaf(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Leaf::Leaf(
  const Leaf_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Leaf::Leaf(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Leaf::cref_type
Leaf::ref() const
{
  return Leaf::cref_type(my_storage_.of_group.content_, instruction());
}

inline Leaf::cref_type
Leaf::cref() const
{
  return Leaf::cref_type(my_storage_.of_group.content_, instruction());
}

inline Leaf::mref_type
Leaf::ref()
{
  return Leaf::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Leaf::mref_type
Leaf::mref()
{
  return Leaf::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::uint32_cref
Leaf_cref::get_la() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
Leaf_cref::try_get_la() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
Leaf_mref::set_la() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline mfast::ascii_string_cref
Leaf_cref::get_lb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_cref
Leaf_cref::try_get_lb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_mref
Leaf_mref::set_lb() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[1]);
}

inline
Other_cref::Other_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Other_cref::Other_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Other_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Other_cref::Other_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Other_cref::Other_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Other_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Other_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Other_mref::Other_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Other_mref::Other_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Other_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Other_mref::Other_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Other_mref::Other_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Other_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Other_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Other::Other(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Other::Other(
  const Other_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Other::Other(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Other::cref_type
Other::ref() const
{
  return Other::cref_type(my_storage_.of_group.content_, instruction());
}

inline Other::cref_type
Other::cref() const
{
  return Other::cref_type(my_storage_.of_group.content_, instruction());
}

inline Other::mref_type
Other::ref()
{
  return Other::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Other::mref_type
Other::mref()
{
  return Other::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::ascii_string_cref
Other_cref::get_oa() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_cref
Other_cref::try_get_oa() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_mref
Other_mref::set_oa() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[0]);
}

inline
void
Other_mref::omit_oa() const
{
  (*this)[0].omit();
}

inline mfast::uint32_cref
Other_cref::get_ob() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_cref
Other_cref::try_get_ob() const
{
  return static_cast<mfast::uint32_cref>((*this)[1]);
}

inline mfast::uint32_mref
Other_mref::set_ob() const
{
  return static_cast<mfast::uint32_mref>((*this)[1]);
}

inline
All_cref::All_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
All_cref::All_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, All_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
All_cref::All_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
All_cref::All_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
All_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void All_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename inl_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename ref_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[1]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename def_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[2]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename sol_cref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[3]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 1> >, ext_cref< typename opt_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[4]) );
  visitor.visit(ext_cref< man_cref,  group_type_tag, properties_type< 0> > ((*this)[5]) );
  {
    ext_cref< may_cref,  group_type_tag, properties_type< 1> > ext_cref_group((*this)[6]);
    ext_cref_group.set_group_present(this->field_storage(6)->is_present());
    visitor.visit(ext_cref_group);
  }
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename typ_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[7]) );
  visitor.visit(nested_message_cref ((*this)[8]) );
}

inline
All_mref::All_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
All_mref::All_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, All_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
All_mref::All_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
All_mref::All_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
All_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void All_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename inl_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename ref_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[1]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename def_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[2]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename sol_mref::reference, none_operator_tag, properties_type< 0>  > > ((*this)[3]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 1> >, ext_mref< typename opt_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[4]) );
  visitor.visit(ext_mref< man_mref, group_type_tag, properties_type< 0> > ((*this)[5]) );
  visitor.visit(ext_mref< may_mref, group_type_tag, properties_type< 1> > ((*this)[6]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename typ_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[7]) );
  visitor.visit(nested_message_mref ((*this)[8]) );
}

inline
All::All(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
All::All(
  const All_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
All::All(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline All::cref_type
All::ref() const
{
  return All::cref_type(my_storage_.of_group.content_, instruction());
}

inline All::cref_type
All::cref() const
{
  return All::cref_type(my_storage_.of_group.content_, instruction());
}

inline All::mref_type
All::ref()
{
  return All::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline All::mref_type
All::mref()
{
  return All::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline All_cref::inl_cref
All_cref::get_inl() const
{
  return static_cast<All_cref::inl_cref>((*this)[0]);
}

inline All_cref::inl_cref
All_cref::try_get_inl() const
{
  return static_cast<All_cref::inl_cref>((*this)[0]);
}

inline All_mref::inl_mref
All_mref::set_inl() const
{
  return static_cast<All_mref::inl_mref>((*this)[0]);
}

inline
All_cref::inl_element_cref::inl_element_cref(
  const mfast::value_storage*   storage,
  All_cref::inl_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
All_mref::inl_element_mref::inl_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  All_mref::inl_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void All_cref::inl_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

template <typename Visitor>
inline void All_mref::inl_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline mfast::uint32_cref
All_cref::inl_element_cref::get_ia() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
All_cref::inl_element_cref::try_get_ia() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
All_mref::inl_element_mref::set_ia() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline mfast::ascii_string_cref
All_cref::inl_element_cref::get_ib() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_cref
All_cref::inl_element_cref::try_get_ib() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_mref
All_mref::inl_element_mref::set_ib() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[1]);
}

inline All_cref::ref_cref
All_cref::get_ref() const
{
  return static_cast<All_cref::ref_cref>((*this)[1]);
}

inline All_cref::ref_cref
All_cref::try_get_ref() const
{
  return static_cast<All_cref::ref_cref>((*this)[1]);
}

inline All_mref::ref_mref
All_mref::set_ref() const
{
  return static_cast<All_mref::ref_mref>((*this)[1]);
}

inline All_cref::def_cref
All_cref::get_def() const
{
  return static_cast<All_cref::def_cref>((*this)[2]);
}

inline All_cref::def_cref
All_cref::try_get_def() const
{
  return static_cast<All_cref::def_cref>((*this)[2]);
}

inline All_mref::def_mref
All_mref::set_def() const
{
  return static_cast<All_mref::def_mref>((*this)[2]);
}

inline All_cref::sol_cref
All_cref::get_sol() const
{
  return static_cast<All_cref::sol_cref>((*this)[3]);
}

inline All_cref::sol_cref
All_cref::try_get_sol() const
{
  return static_cast<All_cref::sol_cref>((*this)[3]);
}

inline All_mref::sol_mref
All_mref::set_sol() const
{
  return static_cast<All_mref::sol_mref>((*this)[3]);
}

inline All_cref::opt_cref
All_cref::get_opt() const
{
  return static_cast<All_cref::opt_cref>((*this)[4]);
}

inline All_cref::opt_cref
All_cref::try_get_opt() const
{
  if ((*this)[4].absent())
    throw mfast::bad_optional_access();
  return static_cast<All_cref::opt_cref>((*this)[4]);
}

inline All_mref::opt_mref
All_mref::set_opt() const
{
  return static_cast<All_mref::opt_mref>((*this)[4]);
}

inline
void
All_mref::omit_opt() const
{
  (*this)[4].omit();
}

inline
All_cref::opt_element_cref::opt_element_cref(
  const mfast::value_storage*   storage,
  All_cref::opt_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
All_mref::opt_element_mref::opt_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  All_mref::opt_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void All_cref::opt_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename pb_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[1]) );
}

template <typename Visitor>
inline void All_mref::opt_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename pb_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[1]) );
}

inline mfast::uint32_cref
All_cref::opt_element_cref::get_pa() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
All_cref::opt_element_cref::try_get_pa() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
All_mref::opt_element_mref::set_pa() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline All_cref::opt_element_cref::pb_cref
All_cref::opt_element_cref::get_pb() const
{
  return static_cast<All_cref::opt_element_cref::pb_cref>((*this)[1]);
}

inline All_cref::opt_element_cref::pb_cref
All_cref::opt_element_cref::try_get_pb() const
{
  return static_cast<All_cref::opt_element_cref::pb_cref>((*this)[1]);
}

inline All_mref::opt_element_mref::pb_mref
All_mref::opt_element_mref::set_pb() const
{
  return static_cast<All_mref::opt_element_mref::pb_mref>((*this)[1]);
}

inline
All_cref::opt_element_cref::pb_element_cref::pb_element_cref(
  const mfast::value_storage*   storage,
  All_cref::opt_element_cref::pb_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
All_mref::opt_element_mref::pb_element_mref::pb_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  All_mref::opt_element_mref::pb_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void All_cref::opt_element_cref::pb_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void All_mref::opt_element_mref::pb_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::ascii_string_cref
All_cref::opt_element_cref::pb_element_cref::get_pc() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_cref
All_cref::opt_element_cref::pb_element_cref::try_get_pc() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_mref
All_mref::opt_element_mref::pb_element_mref::set_pc() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[0]);
}


inline All_cref::man_cref
All_cref::get_man() const
{
  return static_cast<All_cref::man_cref>((*this)[5]);
}


inline All_cref::man_cref
All_cref::try_get_man() const
{
  return static_cast<All_cref::man_cref>((*this)[5]);
}

inline All_mref::man_mref
All_mref::set_man() const
{
  return All_mref::man_mref((*this)[5]);
}

inline
All_cref::man_cref::man_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
All_cref::man_cref::man_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, man_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
All_cref::man_cref::man_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void All_cref::man_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
All_mref::man_mref::man_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
All_mref::man_mref::man_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, man_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
All_mref::man_mref::man_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void All_mref::man_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline mfast::uint32_cref
All_cref::man_cref::get_ma() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
All_cref::man_cref::try_get_ma() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
All_mref::man_mref::set_ma() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline mfast::ascii_string_cref
All_cref::man_cref::get_mb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_cref
All_cref::man_cref::try_get_mb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_mref
All_mref::man_mref::set_mb() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[1]);
}


inline All_cref::may_cref
All_cref::get_may() const
{
  if ((*this)[6].absent())
    return All_cref::may_cref(nullptr, All_cref::may_cref::instruction_cptr(nullptr));
  return static_cast<All_cref::may_cref>((*this)[6]);
}


inline All_cref::may_cref
All_cref::try_get_may() const
{
  if ((*this)[6].absent())
    throw mfast::bad_optional_access();
  return static_cast<All_cref::may_cref>((*this)[6]);
}

inline All_mref::may_mref
All_mref::set_may() const
{
  this->field_storage(6)->present(true);
  return All_mref::may_mref((*this)[6]);
}

inline
void
All_mref::omit_may() const
{
  (*this)[6].omit();
}

inline
All_cref::may_cref::may_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
All_cref::may_cref::may_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, may_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
All_cref::may_cref::may_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void All_cref::may_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
All_mref::may_mref::may_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
All_mref::may_mref::may_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, may_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
All_mref::may_mref::may_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void All_mref::may_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline mfast::uint32_cref
All_cref::may_cref::get_na() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_cref
All_cref::may_cref::try_get_na() const
{
  return static_cast<mfast::uint32_cref>((*this)[0]);
}

inline mfast::uint32_mref
All_mref::may_mref::set_na() const
{
  return static_cast<mfast::uint32_mref>((*this)[0]);
}

inline mfast::ascii_string_cref
All_cref::may_cref::get_nb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_cref
All_cref::may_cref::try_get_nb() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[1]);
}

inline mfast::ascii_string_mref
All_mref::may_mref::set_nb() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[1]);
}

inline All_cref::typ_cref
All_cref::get_typ() const
{
  return static_cast<All_cref::typ_cref>((*this)[7]);
}

inline All_cref::typ_cref
All_cref::try_get_typ() const
{
  return static_cast<All_cref::typ_cref>((*this)[7]);
}

inline All_mref::typ_mref
All_mref::set_typ() const
{
  return static_cast<All_mref::typ_mref>((*this)[7]);
}


inline
mfast::nested_message_cref
All_cref::get_nested_message8() const
{
  return mfast::nested_message_cref((*this)[8]);
}

inline
mfast::nested_message_cref
All_cref::try_get_nested_message8() const
{
  return mfast::nested_message_cref((*this)[8]);
}

inline
mfast::nested_message_mref
All_mref::set_nested_message8() const
{
  return mfast::nested_message_mref((*this)[8]);
}

inline
Kinds_cref::Kinds_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Kinds_cref::Kinds_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Kinds_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Kinds_cref::Kinds_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Kinds_cref::Kinds_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Kinds_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Kinds_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int32_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<int32_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 1> > ((*this)[3]) );
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[4]) );
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 1> > ((*this)[5]) );
  visitor.visit(ext_cref<uint64_cref, none_operator_tag, properties_type< 0> > ((*this)[6]) );
  visitor.visit(ext_cref<uint64_cref, none_operator_tag, properties_type< 1> > ((*this)[7]) );
  visitor.visit(ext_cref<decimal_cref, none_operator_tag, properties_type< 0> > ((*this)[8]) );
  visitor.visit(ext_cref<decimal_cref, none_operator_tag, properties_type< 1> > ((*this)[9]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[10]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 1> > ((*this)[11]) );
  visitor.visit(ext_cref<unicode_string_cref, none_operator_tag, properties_type< 0> > ((*this)[12]) );
  visitor.visit(ext_cref<unicode_string_cref, none_operator_tag, properties_type< 1> > ((*this)[13]) );
  visitor.visit(ext_cref<byte_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[14]) );
  visitor.visit(ext_cref<byte_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[15]) );
  visitor.visit(ext_cref< int32_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[16]) );
  visitor.visit(ext_cref< int32_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[17]) );
  visitor.visit(ext_cref< uint32_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[18]) );
  visitor.visit(ext_cref< uint32_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[19]) );
  visitor.visit(ext_cref< int64_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[20]) );
  visitor.visit(ext_cref< int64_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[21]) );
  visitor.visit(ext_cref< uint64_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[22]) );
  visitor.visit(ext_cref< uint64_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[23]) );
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 0> > ((*this)[24]) );
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 1> > ((*this)[25]) );
}

inline
Kinds_mref::Kinds_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Kinds_mref::Kinds_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Kinds_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Kinds_mref::Kinds_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Kinds_mref::Kinds_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Kinds_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Kinds_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int32_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<int32_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 1> > ((*this)[3]) );
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[4]) );
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 1> > ((*this)[5]) );
  visitor.visit(ext_mref<uint64_mref, none_operator_tag, properties_type< 0> > ((*this)[6]) );
  visitor.visit(ext_mref<uint64_mref, none_operator_tag, properties_type< 1> > ((*this)[7]) );
  visitor.visit(ext_mref<decimal_mref, none_operator_tag, properties_type< 0> > ((*this)[8]) );
  visitor.visit(ext_mref<decimal_mref, none_operator_tag, properties_type< 1> > ((*this)[9]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[10]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 1> > ((*this)[11]) );
  visitor.visit(ext_mref<unicode_string_mref, none_operator_tag, properties_type< 0> > ((*this)[12]) );
  visitor.visit(ext_mref<unicode_string_mref, none_operator_tag, properties_type< 1> > ((*this)[13]) );
  visitor.visit(ext_mref<byte_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[14]) );
  visitor.visit(ext_mref<byte_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[15]) );
  visitor.visit(ext_mref<int32_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[16]) );
  visitor.visit(ext_mref<int32_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[17]) );
  visitor.visit(ext_mref<uint32_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[18]) );
  visitor.visit(ext_mref<uint32_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[19]) );
  visitor.visit(ext_mref<int64_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[20]) );
  visitor.visit(ext_mref<int64_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[21]) );
  visitor.visit(ext_mref<uint64_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[22]) );
  visitor.visit(ext_mref<uint64_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[23]) );
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 0> > ((*this)[24]) );
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 1> > ((*this)[25]) );
}

inline
Kinds::Kinds(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Kinds::Kinds(
  const Kinds_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Kinds::Kinds(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Kinds::cref_type
Kinds::ref() const
{
  return Kinds::cref_type(my_storage_.of_group.content_, instruction());
}

inline Kinds::cref_type
Kinds::cref() const
{
  return Kinds::cref_type(my_storage_.of_group.content_, instruction());
}

inline Kinds::mref_type
Kinds::ref()
{
  return Kinds::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Kinds::mref_type
Kinds::mref()
{
  return Kinds::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int32_cref
Kinds_cref::get_mint32() const
{
  return static_cast<mfast::int32_cref>((*this)[0]);
}

inline mfast::int32_cref
Kinds_cref::try_get_mint32() const
{
  return static_cast<mfast::int32_cref>((*this)[0]);
}

inline mfast::int32_mref
Kinds_mref::set_mint32() const
{
  return static_cast<mfast::int32_mref>((*this)[0]);
}

inline mfast::int32_cref
Kinds_cref::get_oint32() const
{
  return static_cast<mfast::int32_cref>((*this)[1]);
}

inline mfast::int32_cref
Kinds_cref::try_get_oint32() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int32_cref>((*this)[1]);
}

inline mfast::int32_mref
Kinds_mref::set_oint32() const
{
  return static_cast<mfast::int32_mref>((*this)[1]);
}

inline
void
Kinds_mref::omit_oint32() const
{
  (*this)[1].omit();
}

inline mfast::uint32_cref
Kinds_cref::get_muInt32() const
{
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_cref
Kinds_cref::try_get_muInt32() const
{
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_mref
Kinds_mref::set_muInt32() const
{
  return static_cast<mfast::uint32_mref>((*this)[2]);
}

inline mfast::uint32_cref
Kinds_cref::get_ouInt32() const
{
  return static_cast<mfast::uint32_cref>((*this)[3]);
}

inline mfast::uint32_cref
Kinds_cref::try_get_ouInt32() const
{
  if ((*this)[3].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_cref>((*this)[3]);
}

inline mfast::uint32_mref
Kinds_mref::set_ouInt32() const
{
  return static_cast<mfast::uint32_mref>((*this)[3]);
}

inline
void
Kinds_mref::omit_ouInt32() const
{
  (*this)[3].omit();
}

inline mfast::int64_cref
Kinds_cref::get_mint64() const
{
  return static_cast<mfast::int64_cref>((*this)[4]);
}

inline mfast::int64_cref
Kinds_cref::try_get_mint64() const
{
  return static_cast<mfast::int64_cref>((*this)[4]);
}

inline mfast::int64_mref
Kinds_mref::set_mint64() const
{
  return static_cast<mfast::int64_mref>((*this)[4]);
}

inline mfast::int64_cref
Kinds_cref::get_oint64() const
{
  return static_cast<mfast::int64_cref>((*this)[5]);
}

inline mfast::int64_cref
Kinds_cref::try_get_oint64() const
{
  if ((*this)[5].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int64_cref>((*this)[5]);
}

inline mfast::int64_mref
Kinds_mref::set_oint64() const
{
  return static_cast<mfast::int64_mref>((*this)[5]);
}

inline
void
Kinds_mref::omit_oint64() const
{
  (*this)[5].omit();
}

inline mfast::uint64_cref
Kinds_cref::get_muInt64() const
{
  return static_cast<mfast::uint64_cref>((*this)[6]);
}

inline mfast::uint64_cref
Kinds_cref::try_get_muInt64() const
{
  return static_cast<mfast::uint64_cref>((*this)[6]);
}

inline mfast::uint64_mref
Kinds_mref::set_muInt64() const
{
  return static_cast<mfast::uint64_mref>((*this)[6]);
}

inline mfast::uint64_cref
Kinds_cref::get_ouInt64() const
{
  return static_cast<mfast::uint64_cref>((*this)[7]);
}

inline mfast::uint64_cref
Kinds_cref::try_get_ouInt64() const
{
  if ((*this)[7].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint64_cref>((*this)[7]);
}

inline mfast::uint64_mref
Kinds_mref::set_ouInt64() const
{
  return static_cast<mfast::uint64_mref>((*this)[7]);
}

inline
void
Kinds_mref::omit_ouInt64() const
{
  (*this)[7].omit();
}

inline mfast::decimal_cref
Kinds_cref::get_mdecimal() const
{
  return static_cast<mfast::decimal_cref>((*this)[8]);
}

inline mfast::decimal_cref
Kinds_cref::try_get_mdecimal() const
{
  return static_cast<mfast::decimal_cref>((*this)[8]);
}

inline mfast::decimal_mref
Kinds_mref::set_mdecimal() const
{
  return static_cast<mfast::decimal_mref>((*this)[8]);
}

inline mfast::decimal_cref
Kinds_cref::get_odecimal() const
{
  return static_cast<mfast::decimal_cref>((*this)[9]);
}

inline mfast::decimal_cref
Kinds_cref::try_get_odecimal() const
{
  if ((*this)[9].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::decimal_cref>((*this)[9]);
}

inline mfast::decimal_mref
Kinds_mref::set_odecimal() const
{
  return static_cast<mfast::decimal_mref>((*this)[9]);
}

inline
void
Kinds_mref::omit_odecimal() const
{
  (*this)[9].omit();
}

inline mfast::ascii_string_cref
Kinds_cref::get_mstring() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[10]);
}

inline mfast::ascii_string_cref
Kinds_cref::try_get_mstring() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[10]);
}

inline mfast::ascii_string_mref
Kinds_mref::set_mstring() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[10]);
}

inline mfast::ascii_string_cref
Kinds_cref::get_ostring() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[11]);
}

inline mfast::ascii_string_cref
Kinds_cref::try_get_ostring() const
{
  if ((*this)[11].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::ascii_string_cref>((*this)[11]);
}

inline mfast::ascii_string_mref
Kinds_mref::set_ostring() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[11]);
}

inline
void
Kinds_mref::omit_ostring() const
{
  (*this)[11].omit();
}

inline mfast::unicode_string_cref
Kinds_cref::get_municode() const
{
  return static_cast<mfast::unicode_string_cref>((*this)[12]);
}

inline mfast::unicode_string_cref
Kinds_cref::try_get_municode() const
{
  return static_cast<mfast::unicode_string_cref>((*this)[12]);
}

inline mfast::unicode_string_mref
Kinds_mref::set_municode() const
{
  return static_cast<mfast::unicode_string_mref>((*this)[12]);
}

inline mfast::unicode_string_cref
Kinds_cref::get_ounicode() const
{
  return static_cast<mfast::unicode_string_cref>((*this)[13]);
}

inline mfast::unicode_string_cref
Kinds_cref::try_get_ounicode() const
{
  if ((*this)[13].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::unicode_string_cref>((*this)[13]);
}

inline mfast::unicode_string_mref
Kinds_mref::set_ounicode() const
{
  return static_cast<mfast::unicode_string_mref>((*this)[13]);
}

inline
void
Kinds_mref::omit_ounicode() const
{
  (*this)[13].omit();
}

inline mfast::byte_vector_cref
Kinds_cref::get_mbyteVector() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[14]);
}

inline mfast::byte_vector_cref
Kinds_cref::try_get_mbyteVector() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[14]);
}

inline mfast::byte_vector_mref
Kinds_mref::set_mbyteVector() const
{
  return static_cast<mfast::byte_vector_mref>((*this)[14]);
}

inline mfast::byte_vector_cref
Kinds_cref::get_obyteVector() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[15]);
}

inline mfast::byte_vector_cref
Kinds_cref::try_get_obyteVector() const
{
  if ((*this)[15].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::byte_vector_cref>((*this)[15]);
}

inline mfast::byte_vector_mref
Kinds_mref::set_obyteVector() const
{
  return static_cast<mfast::byte_vector_mref>((*this)[15]);
}

inline
void
Kinds_mref::omit_obyteVector() const
{
  (*this)[15].omit();
}

inline mfast::int32_vector_cref
Kinds_cref::get_mint32Vector() const
{
  return static_cast<mfast::int32_vector_cref>((*this)[16]);
}

inline mfast::int32_vector_cref
Kinds_cref::try_get_mint32Vector() const
{
  return static_cast<mfast::int32_vector_cref>((*this)[16]);
}

inline mfast::int32_vector_mref
Kinds_mref::set_mint32Vector() const
{
  return static_cast<mfast::int32_vector_mref>((*this)[16]);
}

inline mfast::int32_vector_cref
Kinds_cref::get_oint32Vector() const
{
  return static_cast<mfast::int32_vector_cref>((*this)[17]);
}

inline mfast::int32_vector_cref
Kinds_cref::try_get_oint32Vector() const
{
  if ((*this)[17].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int32_vector_cref>((*this)[17]);
}

inline mfast::int32_vector_mref
Kinds_mref::set_oint32Vector() const
{
  return static_cast<mfast::int32_vector_mref>((*this)[17]);
}

inline
void
Kinds_mref::omit_oint32Vector() const
{
  (*this)[17].omit();
}

inline mfast::uint32_vector_cref
Kinds_cref::get_muInt32Vector() const
{
  return static_cast<mfast::uint32_vector_cref>((*this)[18]);
}

inline mfast::uint32_vector_cref
Kinds_cref::try_get_muInt32Vector() const
{
  return static_cast<mfast::uint32_vector_cref>((*this)[18]);
}

inline mfast::uint32_vector_mref
Kinds_mref::set_muInt32Vector() const
{
  return static_cast<mfast::uint32_vector_mref>((*this)[18]);
}

inline mfast::uint32_vector_cref
Kinds_cref::get_ouInt32Vector() const
{
  return static_cast<mfast::uint32_vector_cref>((*this)[19]);
}

inline mfast::uint32_vector_cref
Kinds_cref::try_get_ouInt32Vector() const
{
  if ((*this)[19].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint32_vector_cref>((*this)[19]);
}

inline mfast::uint32_vector_mref
Kinds_mref::set_ouInt32Vector() const
{
  return static_cast<mfast::uint32_vector_mref>((*this)[19]);
}

inline
void
Kinds_mref::omit_ouInt32Vector() const
{
  (*this)[19].omit();
}

inline mfast::int64_vector_cref
Kinds_cref::get_mint64Vector() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[20]);
}

inline mfast::int64_vector_cref
Kinds_cref::try_get_mint64Vector() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[20]);
}

inline mfast::int64_vector_mref
Kinds_mref::set_mint64Vector() const
{
  return static_cast<mfast::int64_vector_mref>((*this)[20]);
}

inline mfast::int64_vector_cref
Kinds_cref::get_oint64Vector() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[21]);
}

inline mfast::int64_vector_cref
Kinds_cref::try_get_oint64Vector() const
{
  if ((*this)[21].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int64_vector_cref>((*this)[21]);
}

inline mfast::int64_vector_mref
Kinds_mref::set_oint64Vector() const
{
  return static_cast<mfast::int64_vector_mref>((*this)[21]);
}

inline
void
Kinds_mref::omit_oint64Vector() const
{
  (*this)[21].omit();
}

inline mfast::uint64_vector_cref
Kinds_cref::get_muInt64Vector() const
{
  return static_cast<mfast::uint64_vector_cref>((*this)[22]);
}

inline mfast::uint64_vector_cref
Kinds_cref::try_get_muInt64Vector() const
{
  return static_cast<mfast::uint64_vector_cref>((*this)[22]);
}

inline mfast::uint64_vector_mref
Kinds_mref::set_muInt64Vector() const
{
  return static_cast<mfast::uint64_vector_mref>((*this)[22]);
}

inline mfast::uint64_vector_cref
Kinds_cref::get_ouInt64Vector() const
{
  return static_cast<mfast::uint64_vector_cref>((*this)[23]);
}

inline mfast::uint64_vector_cref
Kinds_cref::try_get_ouInt64Vector() const
{
  if ((*this)[23].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint64_vector_cref>((*this)[23]);
}

inline mfast::uint64_vector_mref
Kinds_mref::set_ouInt64Vector() const
{
  return static_cast<mfast::uint64_vector_mref>((*this)[23]);
}

inline
void
Kinds_mref::omit_ouInt64Vector() const
{
  (*this)[23].omit();
}

inline
Kinds_cref::menum_cref::menum_cref(
  const mfast::value_storage*   storage,
  Kinds_cref::menum_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Kinds_cref::menum_cref::menum_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

inline
Kinds_mref::menum_mref::menum_mref(
  mfast::allocator*      alloc,
  mfast::value_storage*  storage,
  Kinds_mref::menum_mref::instruction_cptr instruction)
  : base_type(alloc, storage, instruction)
{
}

inline
Kinds_mref::menum_mref::menum_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

inline
Kinds_cref::menum_cref::element_type
Kinds_cref::menum_cref::value() const
{
  return static_cast<menum::element>(base_type::value());
}

inline
bool Kinds_cref::menum_cref::is_One() const
{
  return this->value() == menum::One;
}

inline
void Kinds_mref::menum_mref::as_One() const
{
  return this->as(menum::One);
}

inline
bool Kinds_cref::menum_cref::is_Two() const
{
  return this->value() == menum::Two;
}

inline
void Kinds_mref::menum_mref::as_Two() const
{
  return this->as(menum::Two);
}

inline
bool Kinds_cref::menum_cref::is_Three() const
{
  return this->value() == menum::Three;
}

inline
void Kinds_mref::menum_mref::as_Three() const
{
  return this->as(menum::Three);
}

inline Kinds_cref::menum_cref
Kinds_cref::get_menum() const
{
  return static_cast<Kinds_cref::menum_cref>((*this)[24]);
}

inline Kinds_cref::menum_cref
Kinds_cref::try_get_menum() const
{
  return static_cast<Kinds_cref::menum_cref>((*this)[24]);
}

inline Kinds_mref::menum_mref
Kinds_mref::set_menum() const
{
  return static_cast<Kinds_mref::menum_mref>((*this)[24]);
}

inline
Kinds_cref::oenum_cref::oenum_cref(
  const mfast::value_storage*   storage,
  Kinds_cref::oenum_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Kinds_cref::oenum_cref::oenum_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

inline
Kinds_mref::oenum_mref::oenum_mref(
  mfast::allocator*      alloc,
  mfast::value_storage*  storage,
  Kinds_mref::oenum_mref::instruction_cptr instruction)
  : base_type(alloc, storage, instruction)
{
}

inline
Kinds_mref::oenum_mref::oenum_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

inline
Kinds_cref::oenum_cref::element_type
Kinds_cref::oenum_cref::value() const
{
  return static_cast<oenum::element>(base_type::value());
}

inline
bool Kinds_cref::oenum_cref::is_One() const
{
  return this->value() == oenum::One;
}

inline
void Kinds_mref::oenum_mref::as_One() const
{
  return this->as(oenum::One);
}

inline
bool Kinds_cref::oenum_cref::is_Two() const
{
  return this->value() == oenum::Two;
}

inline
void Kinds_mref::oenum_mref::as_Two() const
{
  return this->as(oenum::Two);
}

inline
bool Kinds_cref::oenum_cref::is_Three() const
{
  return this->value() == oenum::Three;
}

inline
void Kinds_mref::oenum_mref::as_Three() const
{
  return this->as(oenum::Three);
}

inline Kinds_cref::oenum_cref
Kinds_cref::get_oenum() const
{
  return static_cast<Kinds_cref::oenum_cref>((*this)[25]);
}

inline Kinds_cref::oenum_cref
Kinds_cref::try_get_oenum() const
{
  if ((*this)[25].absent())
    throw mfast::bad_optional_access();
  return static_cast<Kinds_cref::oenum_cref>((*this)[25]);
}

inline Kinds_mref::oenum_mref
Kinds_mref::set_oenum() const
{
  return static_cast<Kinds_mref::oenum_mref>((*this)[25]);
}

inline
void
Kinds_mref::omit_oenum() const
{
  (*this)[25].omit();
}

inline
Linked_cref::Linked_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Linked_cref::Linked_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Linked_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Linked_cref::Linked_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Linked_cref::Linked_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Linked_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Linked_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< one_cref,  group_type_tag, properties_type< 0> > ((*this)[0]) );
  {
    ext_cref< two_cref,  group_type_tag, properties_type< 1> > ext_cref_group((*this)[1]);
    ext_cref_group.set_group_present(this->field_storage(1)->is_present());
    visitor.visit(ext_cref_group);
  }
  visitor.visit(ext_cref<uint32_cref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
}

inline
Linked_mref::Linked_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Linked_mref::Linked_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Linked_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Linked_mref::Linked_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Linked_mref::Linked_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Linked_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Linked_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< one_mref, group_type_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref< two_mref, group_type_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref<uint32_mref, none_operator_tag, properties_type< 0> > ((*this)[2]) );
}

inline
Linked::Linked(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Linked::Linked(
  const Linked_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Linked::Linked(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Linked::cref_type
Linked::ref() const
{
  return Linked::cref_type(my_storage_.of_group.content_, instruction());
}

inline Linked::cref_type
Linked::cref() const
{
  return Linked::cref_type(my_storage_.of_group.content_, instruction());
}

inline Linked::mref_type
Linked::ref()
{
  return Linked::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Linked::mref_type
Linked::mref()
{
  return Linked::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}


inline Linked_cref::one_cref
Linked_cref::get_one() const
{
  return static_cast<Linked_cref::one_cref>((*this)[0]);
}


inline Linked_cref::one_cref
Linked_cref::try_get_one() const
{
  return static_cast<Linked_cref::one_cref>((*this)[0]);
}

inline Linked_mref::one_mref
Linked_mref::set_one() const
{
  return Linked_mref::one_mref((*this)[0]);
}

inline void
Linked_mref::link_one(const Linked_mref::one_mref& ref) const
{
  this->link_group_at(0, ref);
}

inline void
Linked_mref::unlink_one() const
{
  this->unlink_group_at(0);
}


inline Linked_cref::two_cref
Linked_cref::get_two() const
{
  if ((*this)[1].absent())
    return Linked_cref::two_cref(nullptr, Linked_cref::two_cref::instruction_cptr(nullptr));
  return static_cast<Linked_cref::two_cref>((*this)[1]);
}


inline Linked_cref::two_cref
Linked_cref::try_get_two() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Linked_cref::two_cref>((*this)[1]);
}

inline Linked_mref::two_mref
Linked_mref::set_two() const
{
  this->field_storage(1)->present(true);
  return Linked_mref::two_mref((*this)[1]);
}

inline
void
Linked_mref::omit_two() const
{
  (*this)[1].omit();
}

inline void
Linked_mref::link_two(const Linked_mref::two_mref& ref) const
{
  this->link_group_at(1, ref);
}

inline void
Linked_mref::unlink_two() const
{
  this->unlink_group_at(1);
}

inline mfast::uint32_cref
Linked_cref::get_three() const
{
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_cref
Linked_cref::try_get_three() const
{
  return static_cast<mfast::uint32_cref>((*this)[2]);
}

inline mfast::uint32_mref
Linked_mref::set_three() const
{
  return static_cast<mfast::uint32_mref>((*this)[2]);
}

