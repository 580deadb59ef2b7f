// shapes.inl generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

inline
Leaf_cref::Leaf_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Leaf_cref::Leaf_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Leaf_cref::Leaf_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Leaf_cref::Leaf_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Leaf_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Leaf_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[1]) );
}

inline
Leaf_mref::Leaf_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Leaf_mref::Leaf_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Leaf_mref::Leaf_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Leaf_mref::Leaf_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Leaf_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Leaf_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[1]) );
}

inline
Leaf::Leaf(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Leaf::Leaf(
  const Leaf_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Leaf::Leaf(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Leaf::cref_type
Leaf::ref() const
{
  return Leaf::cref_type(my_storage_.of_group.content_, instruction());
}

inline Leaf::cref_type
Leaf::cref() const
{
  return Leaf::cref_type(my_storage_.of_group.content_, instruction());
}

inline Leaf::mref_type
Leaf::ref()
{
  return Leaf::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Leaf::mref_type
Leaf::mref()
{
  return Leaf::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int64_cref
Leaf_cref::get_lelplain() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Leaf_cref::try_get_lelplain() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Leaf_mref::set_lelplain() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline mfast::int64_cref
Leaf_cref::get_lelcopy() const
{
  return static_cast<mfast::int64_cref>((*this)[1]);
}

inline mfast::int64_cref
Leaf_cref::try_get_lelcopy() const
{
  return static_cast<mfast::int64_cref>((*this)[1]);
}

inline mfast::int64_mref
Leaf_mref::set_lelcopy() const
{
  return static_cast<mfast::int64_mref>((*this)[1]);
}

inline
Bare_cref::Bare_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Bare_cref::Bare_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Bare_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Bare_cref::Bare_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Bare_cref::Bare_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Bare_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Bare_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<uint64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline
Bare_mref::Bare_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Bare_mref::Bare_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Bare_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Bare_mref::Bare_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Bare_mref::Bare_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Bare_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Bare_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<uint64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline
Bare::Bare(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Bare::Bare(
  const Bare_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Bare::Bare(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Bare::cref_type
Bare::ref() const
{
  return Bare::cref_type(my_storage_.of_group.content_, instruction());
}

inline Bare::cref_type
Bare::cref() const
{
  return Bare::cref_type(my_storage_.of_group.content_, instruction());
}

inline Bare::mref_type
Bare::ref()
{
  return Bare::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Bare::mref_type
Bare::mref()
{
  return Bare::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::uint64_cref
Bare_cref::get_babplain() const
{
  return static_cast<mfast::uint64_cref>((*this)[0]);
}

inline mfast::uint64_cref
Bare_cref::try_get_babplain() const
{
  return static_cast<mfast::uint64_cref>((*this)[0]);
}

inline mfast::uint64_mref
Bare_mref::set_babplain() const
{
  return static_cast<mfast::uint64_mref>((*this)[0]);
}

inline
Boxed_cref::Boxed_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Boxed_cref::Boxed_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Boxed_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Boxed_cref::Boxed_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Boxed_cref::Boxed_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Boxed_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Boxed_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< xgroup_cref,  group_type_tag, properties_type< 2> > ((*this)[0]) );
  {
    ext_cref< xopt_cref,  group_type_tag, properties_type< 1> > ext_cref_group((*this)[1]);
    ext_cref_group.set_group_present(this->field_storage(1)->is_present());
    visitor.visit(ext_cref_group);
  }
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename xseq_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[2]) );
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 1> > ((*this)[3]) );
}

inline
Boxed_mref::Boxed_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Boxed_mref::Boxed_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Boxed_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Boxed_mref::Boxed_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Boxed_mref::Boxed_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Boxed_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Boxed_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< xgroup_mref, group_type_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(ext_mref< xopt_mref, group_type_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename xseq_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[2]) );
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 1> > ((*this)[3]) );
}

inline
Boxed::Boxed(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Boxed::Boxed(
  const Boxed_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Boxed::Boxed(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Boxed::cref_type
Boxed::ref() const
{
  return Boxed::cref_type(my_storage_.of_group.content_, instruction());
}

inline Boxed::cref_type
Boxed::cref() const
{
  return Boxed::cref_type(my_storage_.of_group.content_, instruction());
}

inline Boxed::mref_type
Boxed::ref()
{
  return Boxed::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Boxed::mref_type
Boxed::mref()
{
  return Boxed::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}


inline Boxed_cref::xgroup_cref
Boxed_cref::get_xgroup() const
{
  return static_cast<Boxed_cref::xgroup_cref>((*this)[0]);
}


inline Boxed_cref::xgroup_cref
Boxed_cref::try_get_xgroup() const
{
  return static_cast<Boxed_cref::xgroup_cref>((*this)[0]);
}

inline Boxed_mref::xgroup_mref
Boxed_mref::set_xgroup() const
{
  return Boxed_mref::xgroup_mref((*this)[0]);
}

inline
Boxed_cref::xgroup_cref::xgroup_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Boxed_cref::xgroup_cref::xgroup_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, xgroup_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Boxed_cref::xgroup_cref::xgroup_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Boxed_cref::xgroup_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
}

inline
Boxed_mref::xgroup_mref::xgroup_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Boxed_mref::xgroup_mref::xgroup_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, xgroup_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Boxed_mref::xgroup_mref::xgroup_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Boxed_mref::xgroup_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
}

inline mfast::int64_cref
Boxed_cref::xgroup_cref::get_xg() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Boxed_cref::xgroup_cref::try_get_xg() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Boxed_mref::xgroup_mref::set_xg() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}


inline Boxed_cref::xopt_cref
Boxed_cref::get_xopt() const
{
  if ((*this)[1].absent())
    return Boxed_cref::xopt_cref(nullptr, Boxed_cref::xopt_cref::instruction_cptr(nullptr));
  return static_cast<Boxed_cref::xopt_cref>((*this)[1]);
}


inline Boxed_cref::xopt_cref
Boxed_cref::try_get_xopt() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Boxed_cref::xopt_cref>((*this)[1]);
}

inline Boxed_mref::xopt_mref
Boxed_mref::set_xopt() const
{
  this->field_storage(1)->present(true);
  return Boxed_mref::xopt_mref((*this)[1]);
}

inline
void
Boxed_mref::omit_xopt() const
{
  (*this)[1].omit();
}

inline
Boxed_cref::xopt_cref::xopt_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Boxed_cref::xopt_cref::xopt_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, xopt_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Boxed_cref::xopt_cref::xopt_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Boxed_cref::xopt_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline
Boxed_mref::xopt_mref::xopt_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Boxed_mref::xopt_mref::xopt_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, xopt_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Boxed_mref::xopt_mref::xopt_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Boxed_mref::xopt_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
Boxed_cref::xopt_cref::get_xo() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Boxed_cref::xopt_cref::try_get_xo() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Boxed_mref::xopt_mref::set_xo() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline Boxed_cref::xseq_cref
Boxed_cref::get_xseq() const
{
  return static_cast<Boxed_cref::xseq_cref>((*this)[2]);
}

inline Boxed_cref::xseq_cref
Boxed_cref::try_get_xseq() const
{
  return static_cast<Boxed_cref::xseq_cref>((*this)[2]);
}

inline Boxed_mref::xseq_mref
Boxed_mref::set_xseq() const
{
  return static_cast<Boxed_mref::xseq_mref>((*this)[2]);
}

inline
Boxed_cref::xseq_element_cref::xseq_element_cref(
  const mfast::value_storage*   storage,
  Boxed_cref::xseq_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Boxed_mref::xseq_element_mref::xseq_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Boxed_mref::xseq_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Boxed_cref::xseq_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void Boxed_mref::xseq_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
Boxed_cref::xseq_element_cref::get_xe() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Boxed_cref::xseq_element_cref::try_get_xe() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Boxed_mref::xseq_element_mref::set_xe() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline mfast::ascii_string_cref
Boxed_cref::get_xstr() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[3]);
}

inline mfast::ascii_string_cref
Boxed_cref::try_get_xstr() const
{
  if ((*this)[3].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::ascii_string_cref>((*this)[3]);
}

inline mfast::ascii_string_mref
Boxed_mref::set_xstr() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[3]);
}

inline
void
Boxed_mref::omit_xstr() const
{
  (*this)[3].omit();
}

inline
Groups_cref::Groups_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Groups_cref::Groups_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Groups_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Groups_cref::Groups_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Groups_cref::Groups_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Groups_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Groups_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref< grmnone_cref,  group_type_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_cref< grmmap_cref,  group_type_tag, properties_type< 2> > ((*this)[2]) );
  {
    ext_cref< gronone_cref,  group_type_tag, properties_type< 1> > ext_cref_group((*this)[3]);
    ext_cref_group.set_group_present(this->field_storage(3)->is_present());
    visitor.visit(ext_cref_group);
  }
  {
    ext_cref< gromap_cref,  group_type_tag, properties_type< 7> > ext_cref_group((*this)[4]);
    ext_cref_group.set_group_present(this->field_storage(4)->is_present());
    visitor.visit(ext_cref_group);
  }
  visitor.visit(ext_cref<uint64_cref, copy_operator_tag, properties_type< 2> > ((*this)[5]) );
}

inline
Groups_mref::Groups_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Groups_mref::Groups_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Groups_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Groups_mref::Groups_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Groups_mref::Groups_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Groups_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Groups_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref< grmnone_mref, group_type_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_mref< grmmap_mref, group_type_tag, properties_type< 2> > ((*this)[2]) );
  visitor.visit(ext_mref< gronone_mref, group_type_tag, properties_type< 1> > ((*this)[3]) );
  visitor.visit(ext_mref< gromap_mref, group_type_tag, properties_type< 7> > ((*this)[4]) );
  visitor.visit(ext_mref<uint64_mref, copy_operator_tag, properties_type< 2> > ((*this)[5]) );
}

inline
Groups::Groups(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Groups::Groups(
  const Groups_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Groups::Groups(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Groups::cref_type
Groups::ref() const
{
  return Groups::cref_type(my_storage_.of_group.content_, instruction());
}

inline Groups::cref_type
Groups::cref() const
{
  return Groups::cref_type(my_storage_.of_group.content_, instruction());
}

inline Groups::mref_type
Groups::ref()
{
  return Groups::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Groups::mref_type
Groups::mref()
{
  return Groups::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int64_cref
Groups_cref::get_grfirst() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Groups_cref::try_get_grfirst() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Groups_mref::set_grfirst() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline
void
Groups_mref::omit_grfirst() const
{
  (*this)[0].omit();
}


inline Groups_cref::grmnone_cref
Groups_cref::get_grmnone() const
{
  return static_cast<Groups_cref::grmnone_cref>((*this)[1]);
}


inline Groups_cref::grmnone_cref
Groups_cref::try_get_grmnone() const
{
  return static_cast<Groups_cref::grmnone_cref>((*this)[1]);
}

inline Groups_mref::grmnone_mref
Groups_mref::set_grmnone() const
{
  return Groups_mref::grmnone_mref((*this)[1]);
}

inline
Groups_cref::grmnone_cref::grmnone_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Groups_cref::grmnone_cref::grmnone_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, grmnone_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Groups_cref::grmnone_cref::grmnone_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_cref::grmnone_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline
Groups_mref::grmnone_mref::grmnone_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Groups_mref::grmnone_mref::grmnone_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, grmnone_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Groups_mref::grmnone_mref::grmnone_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_mref::grmnone_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
Groups_cref::grmnone_cref::get_gra() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Groups_cref::grmnone_cref::try_get_gra() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Groups_mref::grmnone_mref::set_gra() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}


inline Groups_cref::grmmap_cref
Groups_cref::get_grmmap() const
{
  return static_cast<Groups_cref::grmmap_cref>((*this)[2]);
}


inline Groups_cref::grmmap_cref
Groups_cref::try_get_grmmap() const
{
  return static_cast<Groups_cref::grmmap_cref>((*this)[2]);
}

inline Groups_mref::grmmap_mref
Groups_mref::set_grmmap() const
{
  return Groups_mref::grmmap_mref((*this)[2]);
}

inline
Groups_cref::grmmap_cref::grmmap_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Groups_cref::grmmap_cref::grmmap_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, grmmap_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Groups_cref::grmmap_cref::grmmap_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_cref::grmmap_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
}

inline
Groups_mref::grmmap_mref::grmmap_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Groups_mref::grmmap_mref::grmmap_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, grmmap_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Groups_mref::grmmap_mref::grmmap_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_mref::grmmap_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
}

inline mfast::int64_cref
Groups_cref::grmmap_cref::get_grb() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Groups_cref::grmmap_cref::try_get_grb() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Groups_mref::grmmap_mref::set_grb() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}


inline Groups_cref::gronone_cref
Groups_cref::get_gronone() const
{
  if ((*this)[3].absent())
    return Groups_cref::gronone_cref(nullptr, Groups_cref::gronone_cref::instruction_cptr(nullptr));
  return static_cast<Groups_cref::gronone_cref>((*this)[3]);
}


inline Groups_cref::gronone_cref
Groups_cref::try_get_gronone() const
{
  if ((*this)[3].absent())
    throw mfast::bad_optional_access();
  return static_cast<Groups_cref::gronone_cref>((*this)[3]);
}

inline Groups_mref::gronone_mref
Groups_mref::set_gronone() const
{
  this->field_storage(3)->present(true);
  return Groups_mref::gronone_mref((*this)[3]);
}

inline
void
Groups_mref::omit_gronone() const
{
  (*this)[3].omit();
}

inline
Groups_cref::gronone_cref::gronone_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Groups_cref::gronone_cref::gronone_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, gronone_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Groups_cref::gronone_cref::gronone_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_cref::gronone_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline
Groups_mref::gronone_mref::gronone_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Groups_mref::gronone_mref::gronone_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, gronone_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Groups_mref::gronone_mref::gronone_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_mref::gronone_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
Groups_cref::gronone_cref::get_grc() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Groups_cref::gronone_cref::try_get_grc() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Groups_mref::gronone_mref::set_grc() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}


inline Groups_cref::gromap_cref
Groups_cref::get_gromap() const
{
  if ((*this)[4].absent())
    return Groups_cref::gromap_cref(nullptr, Groups_cref::gromap_cref::instruction_cptr(nullptr));
  return static_cast<Groups_cref::gromap_cref>((*this)[4]);
}


inline Groups_cref::gromap_cref
Groups_cref::try_get_gromap() const
{
  if ((*this)[4].absent())
    throw mfast::bad_optional_access();
  return static_cast<Groups_cref::gromap_cref>((*this)[4]);
}

inline Groups_mref::gromap_mref
Groups_mref::set_gromap() const
{
  this->field_storage(4)->present(true);
  return Groups_mref::gromap_mref((*this)[4]);
}

inline
void
Groups_mref::omit_gromap() const
{
  (*this)[4].omit();
}

inline
Groups_cref::gromap_cref::gromap_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Groups_cref::gromap_cref::gromap_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, gromap_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Groups_cref::gromap_cref::gromap_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_cref::gromap_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 1> > ((*this)[0]) );
  {
    ext_cref< grinner_cref,  group_type_tag, properties_type< 3> > ext_cref_group((*this)[1]);
    ext_cref_group.set_group_present(this->field_storage(1)->is_present());
    visitor.visit(ext_cref_group);
  }
  visitor.visit(ext_cref<uint64_cref, constant_operator_tag, properties_type< 3> > ((*this)[2]) );
}

inline
Groups_mref::gromap_mref::gromap_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Groups_mref::gromap_mref::gromap_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, gromap_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Groups_mref::gromap_mref::gromap_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_mref::gromap_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref< grinner_mref, group_type_tag, properties_type< 3> > ((*this)[1]) );
  visitor.visit(ext_mref<uint64_mref, constant_operator_tag, properties_type< 3> > ((*this)[2]) );
}

inline mfast::int64_cref
Groups_cref::gromap_cref::get_grd() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Groups_cref::gromap_cref::try_get_grd() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Groups_mref::gromap_mref::set_grd() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline
void
Groups_mref::gromap_mref::omit_grd() const
{
  (*this)[0].omit();
}


inline Groups_cref::gromap_cref::grinner_cref
Groups_cref::gromap_cref::get_grinner() const
{
  if ((*this)[1].absent())
    return Groups_cref::gromap_cref::grinner_cref(nullptr, Groups_cref::gromap_cref::grinner_cref::instruction_cptr(nullptr));
  return static_cast<Groups_cref::gromap_cref::grinner_cref>((*this)[1]);
}


inline Groups_cref::gromap_cref::grinner_cref
Groups_cref::gromap_cref::try_get_grinner() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Groups_cref::gromap_cref::grinner_cref>((*this)[1]);
}

inline Groups_mref::gromap_mref::grinner_mref
Groups_mref::gromap_mref::set_grinner() const
{
  this->field_storage(1)->present(true);
  return Groups_mref::gromap_mref::grinner_mref((*this)[1]);
}

inline
void
Groups_mref::gromap_mref::omit_grinner() const
{
  (*this)[1].omit();
}

inline
Groups_cref::gromap_cref::grinner_cref::grinner_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Groups_cref::gromap_cref::grinner_cref::grinner_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, grinner_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Groups_cref::gromap_cref::grinner_cref::grinner_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_cref::gromap_cref::grinner_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, increment_operator_tag, properties_type< 2> > ((*this)[0]) );
}

inline
Groups_mref::gromap_mref::grinner_mref::grinner_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Groups_mref::gromap_mref::grinner_mref::grinner_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, grinner_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Groups_mref::gromap_mref::grinner_mref::grinner_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Groups_mref::gromap_mref::grinner_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, increment_operator_tag, properties_type< 2> > ((*this)[0]) );
}

inline mfast::int64_cref
Groups_cref::gromap_cref::grinner_cref::get_gre() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Groups_cref::gromap_cref::grinner_cref::try_get_gre() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Groups_mref::gromap_mref::grinner_mref::set_gre() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline mfast::uint64_cref
Groups_cref::gromap_cref::get_grf() const
{
  return static_cast<mfast::uint64_cref>((*this)[2]);
}

inline mfast::uint64_cref
Groups_cref::gromap_cref::try_get_grf() const
{
  if ((*this)[2].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::uint64_cref>((*this)[2]);
}

inline
void
Groups_mref::gromap_mref::omit_grf() const
{
  (*this)[2].omit();
}

inline mfast::uint64_cref
Groups_cref::get_grlast() const
{
  return static_cast<mfast::uint64_cref>((*this)[5]);
}

inline mfast::uint64_cref
Groups_cref::try_get_grlast() const
{
  return static_cast<mfast::uint64_cref>((*this)[5]);
}

inline mfast::uint64_mref
Groups_mref::set_grlast() const
{
  return static_cast<mfast::uint64_mref>((*this)[5]);
}

inline
Seqs_cref::Seqs_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Seqs_cref::Seqs_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Seqs_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Seqs_cref::Seqs_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Seqs_cref::Seqs_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Seqs_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Seqs_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename ses_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 1> >, ext_cref< typename sem_cref::reference, sequence_element_tag,properties_type< 4> > > ((*this)[1]) );
  visitor.visit(ext_cref<int64_cref, default_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Seqs_mref::Seqs_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Seqs_mref::Seqs_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Seqs_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Seqs_mref::Seqs_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Seqs_mref::Seqs_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Seqs_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Seqs_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename ses_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 1> >, ext_mref< typename sem_mref::reference, sequence_element_tag,properties_type< 4> > > ((*this)[1]) );
  visitor.visit(ext_mref<int64_mref, default_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Seqs::Seqs(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Seqs::Seqs(
  const Seqs_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Seqs::Seqs(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Seqs::cref_type
Seqs::ref() const
{
  return Seqs::cref_type(my_storage_.of_group.content_, instruction());
}

inline Seqs::cref_type
Seqs::cref() const
{
  return Seqs::cref_type(my_storage_.of_group.content_, instruction());
}

inline Seqs::mref_type
Seqs::ref()
{
  return Seqs::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Seqs::mref_type
Seqs::mref()
{
  return Seqs::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Seqs_cref::ses_cref
Seqs_cref::get_ses() const
{
  return static_cast<Seqs_cref::ses_cref>((*this)[0]);
}

inline Seqs_cref::ses_cref
Seqs_cref::try_get_ses() const
{
  return static_cast<Seqs_cref::ses_cref>((*this)[0]);
}

inline Seqs_mref::ses_mref
Seqs_mref::set_ses() const
{
  return static_cast<Seqs_mref::ses_mref>((*this)[0]);
}

inline
Seqs_cref::ses_element_cref::ses_element_cref(
  const mfast::value_storage*   storage,
  Seqs_cref::ses_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Seqs_mref::ses_element_mref::ses_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Seqs_mref::ses_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Seqs_cref::ses_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void Seqs_mref::ses_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
Seqs_cref::ses_element_cref::get_sea() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Seqs_cref::ses_element_cref::try_get_sea() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Seqs_mref::ses_element_mref::set_sea() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline Seqs_cref::sem_cref
Seqs_cref::get_sem() const
{
  return static_cast<Seqs_cref::sem_cref>((*this)[1]);
}

inline Seqs_cref::sem_cref
Seqs_cref::try_get_sem() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Seqs_cref::sem_cref>((*this)[1]);
}

inline Seqs_mref::sem_mref
Seqs_mref::set_sem() const
{
  return static_cast<Seqs_mref::sem_mref>((*this)[1]);
}

inline
void
Seqs_mref::omit_sem() const
{
  (*this)[1].omit();
}

inline
Seqs_cref::sem_element_cref::sem_element_cref(
  const mfast::value_storage*   storage,
  Seqs_cref::sem_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Seqs_mref::sem_element_mref::sem_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Seqs_mref::sem_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Seqs_cref::sem_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(ext_cref<uint64_cref, constant_operator_tag, properties_type< 2> > ((*this)[1]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, copy_operator_tag, properties_type< 2> >, ext_cref< typename sein_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[2]) );
}

template <typename Visitor>
inline void Seqs_mref::sem_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(ext_mref<uint64_mref, constant_operator_tag, properties_type< 2> > ((*this)[1]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, copy_operator_tag, properties_type< 2> >, ext_mref< typename sein_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[2]) );
}

inline mfast::int64_cref
Seqs_cref::sem_element_cref::get_seb() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Seqs_cref::sem_element_cref::try_get_seb() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Seqs_mref::sem_element_mref::set_seb() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline mfast::uint64_cref
Seqs_cref::sem_element_cref::get_sek() const
{
  return static_cast<mfast::uint64_cref>((*this)[1]);
}

inline mfast::uint64_cref
Seqs_cref::sem_element_cref::try_get_sek() const
{
  return static_cast<mfast::uint64_cref>((*this)[1]);
}

inline Seqs_cref::sem_element_cref::sein_cref
Seqs_cref::sem_element_cref::get_sein() const
{
  return static_cast<Seqs_cref::sem_element_cref::sein_cref>((*this)[2]);
}

inline Seqs_cref::sem_element_cref::sein_cref
Seqs_cref::sem_element_cref::try_get_sein() const
{
  return static_cast<Seqs_cref::sem_element_cref::sein_cref>((*this)[2]);
}

inline Seqs_mref::sem_element_mref::sein_mref
Seqs_mref::sem_element_mref::set_sein() const
{
  return static_cast<Seqs_mref::sem_element_mref::sein_mref>((*this)[2]);
}

inline
Seqs_cref::sem_element_cref::sein_element_cref::sein_element_cref(
  const mfast::value_storage*   storage,
  Seqs_cref::sem_element_cref::sein_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Seqs_mref::sem_element_mref::sein_element_mref::sein_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Seqs_mref::sem_element_mref::sein_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Seqs_cref::sem_element_cref::sein_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void Seqs_mref::sem_element_mref::sein_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
Seqs_cref::sem_element_cref::sein_element_cref::get_sec() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Seqs_cref::sem_element_cref::sein_element_cref::try_get_sec() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Seqs_mref::sem_element_mref::sein_element_mref::set_sec() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline mfast::int64_cref
Seqs_cref::get_selast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_cref
Seqs_cref::try_get_selast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_mref
Seqs_mref::set_selast() const
{
  return static_cast<mfast::int64_mref>((*this)[2]);
}

inline
LenOps_cref::LenOps_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
LenOps_cref::LenOps_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, LenOps_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
LenOps_cref::LenOps_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
LenOps_cref::LenOps_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
LenOps_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void LenOps_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, copy_operator_tag, properties_type< 0> >, ext_cref< typename lex_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, copy_operator_tag, properties_type< 1> >, ext_cref< typename ley_cref::reference, sequence_element_tag,properties_type< 2> > > ((*this)[1]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, constant_operator_tag, properties_type< 3> >, ext_cref< typename lez_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[2]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, default_operator_tag, properties_type< 2> >, ext_cref< typename lew_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[3]) );
}

inline
LenOps_mref::LenOps_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
LenOps_mref::LenOps_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, LenOps_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
LenOps_mref::LenOps_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
LenOps_mref::LenOps_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
LenOps_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void LenOps_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, copy_operator_tag, properties_type< 0> >, ext_mref< typename lex_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, copy_operator_tag, properties_type< 1> >, ext_mref< typename ley_mref::reference, sequence_element_tag,properties_type< 2> > > ((*this)[1]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, constant_operator_tag, properties_type< 3> >, ext_mref< typename lez_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[2]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, default_operator_tag, properties_type< 2> >, ext_mref< typename lew_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[3]) );
}

inline
LenOps::LenOps(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
LenOps::LenOps(
  const LenOps_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
LenOps::LenOps(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline LenOps::cref_type
LenOps::ref() const
{
  return LenOps::cref_type(my_storage_.of_group.content_, instruction());
}

inline LenOps::cref_type
LenOps::cref() const
{
  return LenOps::cref_type(my_storage_.of_group.content_, instruction());
}

inline LenOps::mref_type
LenOps::ref()
{
  return LenOps::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline LenOps::mref_type
LenOps::mref()
{
  return LenOps::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline LenOps_cref::lex_cref
LenOps_cref::get_lex() const
{
  return static_cast<LenOps_cref::lex_cref>((*this)[0]);
}

inline LenOps_cref::lex_cref
LenOps_cref::try_get_lex() const
{
  return static_cast<LenOps_cref::lex_cref>((*this)[0]);
}

inline LenOps_mref::lex_mref
LenOps_mref::set_lex() const
{
  return static_cast<LenOps_mref::lex_mref>((*this)[0]);
}

inline
LenOps_cref::lex_element_cref::lex_element_cref(
  const mfast::value_storage*   storage,
  LenOps_cref::lex_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
LenOps_mref::lex_element_mref::lex_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  LenOps_mref::lex_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void LenOps_cref::lex_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void LenOps_mref::lex_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
LenOps_cref::lex_element_cref::get_lea() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
LenOps_cref::lex_element_cref::try_get_lea() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
LenOps_mref::lex_element_mref::set_lea() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline LenOps_cref::ley_cref
LenOps_cref::get_ley() const
{
  return static_cast<LenOps_cref::ley_cref>((*this)[1]);
}

inline LenOps_cref::ley_cref
LenOps_cref::try_get_ley() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<LenOps_cref::ley_cref>((*this)[1]);
}

inline LenOps_mref::ley_mref
LenOps_mref::set_ley() const
{
  return static_cast<LenOps_mref::ley_mref>((*this)[1]);
}

inline
void
LenOps_mref::omit_ley() const
{
  (*this)[1].omit();
}

inline
LenOps_cref::ley_element_cref::ley_element_cref(
  const mfast::value_storage*   storage,
  LenOps_cref::ley_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
LenOps_mref::ley_element_mref::ley_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  LenOps_mref::ley_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void LenOps_cref::ley_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
}

template <typename Visitor>
inline void LenOps_mref::ley_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
}

inline mfast::int64_cref
LenOps_cref::ley_element_cref::get_leb() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
LenOps_cref::ley_element_cref::try_get_leb() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
LenOps_mref::ley_element_mref::set_leb() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline LenOps_cref::lez_cref
LenOps_cref::get_lez() const
{
  return static_cast<LenOps_cref::lez_cref>((*this)[2]);
}

inline LenOps_cref::lez_cref
LenOps_cref::try_get_lez() const
{
  if ((*this)[2].absent())
    throw mfast::bad_optional_access();
  return static_cast<LenOps_cref::lez_cref>((*this)[2]);
}

inline LenOps_mref::lez_mref
LenOps_mref::set_lez() const
{
  return static_cast<LenOps_mref::lez_mref>((*this)[2]);
}

inline
void
LenOps_mref::omit_lez() const
{
  (*this)[2].omit();
}

inline
LenOps_cref::lez_element_cref::lez_element_cref(
  const mfast::value_storage*   storage,
  LenOps_cref::lez_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
LenOps_mref::lez_element_mref::lez_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  LenOps_mref::lez_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void LenOps_cref::lez_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void LenOps_mref::lez_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
LenOps_cref::lez_element_cref::get_lec() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
LenOps_cref::lez_element_cref::try_get_lec() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
LenOps_mref::lez_element_mref::set_lec() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline LenOps_cref::lew_cref
LenOps_cref::get_lew() const
{
  return static_cast<LenOps_cref::lew_cref>((*this)[3]);
}

inline LenOps_cref::lew_cref
LenOps_cref::try_get_lew() const
{
  return static_cast<LenOps_cref::lew_cref>((*this)[3]);
}

inline LenOps_mref::lew_mref
LenOps_mref::set_lew() const
{
  return static_cast<LenOps_mref::lew_mref>((*this)[3]);
}

inline
LenOps_cref::lew_element_cref::lew_element_cref(
  const mfast::value_storage*   storage,
  LenOps_cref::lew_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
LenOps_mref::lew_element_mref::lew_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  LenOps_mref::lew_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void LenOps_cref::lew_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void LenOps_mref::lew_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::int64_cref
LenOps_cref::lew_element_cref::get_led() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
LenOps_cref::lew_element_cref::try_get_led() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
LenOps_mref::lew_element_mref::set_led() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline
Dyn_cref::Dyn_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Dyn_cref::Dyn_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Dyn_cref::Dyn_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Dyn_cref::Dyn_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Dyn_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Dyn_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(nested_message_cref ((*this)[1]) );
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Dyn_mref::Dyn_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Dyn_mref::Dyn_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Dyn_mref::Dyn_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Dyn_mref::Dyn_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Dyn_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Dyn_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(nested_message_mref ((*this)[1]) );
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Dyn::Dyn(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Dyn::Dyn(
  const Dyn_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Dyn::Dyn(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Dyn::cref_type
Dyn::ref() const
{
  return Dyn::cref_type(my_storage_.of_group.content_, instruction());
}

inline Dyn::cref_type
Dyn::cref() const
{
  return Dyn::cref_type(my_storage_.of_group.content_, instruction());
}

inline Dyn::mref_type
Dyn::ref()
{
  return Dyn::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Dyn::mref_type
Dyn::mref()
{
  return Dyn::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int64_cref
Dyn_cref::get_dyhead() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Dyn_cref::try_get_dyhead() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Dyn_mref::set_dyhead() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}


inline
mfast::nested_message_cref
Dyn_cref::get_nested_message1() const
{
  return mfast::nested_message_cref((*this)[1]);
}

inline
mfast::nested_message_cref
Dyn_cref::try_get_nested_message1() const
{
  return mfast::nested_message_cref((*this)[1]);
}

inline
mfast::nested_message_mref
Dyn_mref::set_nested_message1() const
{
  return mfast::nested_message_mref((*this)[1]);
}

inline mfast::int64_cref
Dyn_cref::get_dytail() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_cref
Dyn_cref::try_get_dytail() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_mref
Dyn_mref::set_dytail() const
{
  return static_cast<mfast::int64_mref>((*this)[2]);
}

inline
Stat_cref::Stat_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Stat_cref::Stat_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Stat_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Stat_cref::Stat_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Stat_cref::Stat_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Stat_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Stat_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
  visitor.visit(ext_cref<int64_cref, none_operator_tag, properties_type< 0> > ((*this)[3]) );
}

inline
Stat_mref::Stat_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Stat_mref::Stat_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Stat_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Stat_mref::Stat_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Stat_mref::Stat_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Stat_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Stat_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
  visitor.visit(ext_mref<int64_mref, none_operator_tag, properties_type< 0> > ((*this)[3]) );
}

inline
Stat::Stat(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Stat::Stat(
  const Stat_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Stat::Stat(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Stat::cref_type
Stat::ref() const
{
  return Stat::cref_type(my_storage_.of_group.content_, instruction());
}

inline Stat::cref_type
Stat::cref() const
{
  return Stat::cref_type(my_storage_.of_group.content_, instruction());
}

inline Stat::mref_type
Stat::ref()
{
  return Stat::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Stat::mref_type
Stat::mref()
{
  return Stat::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int64_cref
Stat_cref::get_sthead() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Stat_cref::try_get_sthead() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Stat_mref::set_sthead() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline mfast::int64_cref
Stat_cref::get_lelplain() const
{
  return static_cast<mfast::int64_cref>((*this)[1]);
}

inline mfast::int64_cref
Stat_cref::try_get_lelplain() const
{
  return static_cast<mfast::int64_cref>((*this)[1]);
}

inline mfast::int64_mref
Stat_mref::set_lelplain() const
{
  return static_cast<mfast::int64_mref>((*this)[1]);
}

inline mfast::int64_cref
Stat_cref::get_lelcopy() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_cref
Stat_cref::try_get_lelcopy() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_mref
Stat_mref::set_lelcopy() const
{
  return static_cast<mfast::int64_mref>((*this)[2]);
}

inline mfast::int64_cref
Stat_cref::get_sttail() const
{
  return static_cast<mfast::int64_cref>((*this)[3]);
}

inline mfast::int64_cref
Stat_cref::try_get_sttail() const
{
  return static_cast<mfast::int64_cref>((*this)[3]);
}

inline mfast::int64_mref
Stat_mref::set_sttail() const
{
  return static_cast<mfast::int64_mref>((*this)[3]);
}

inline
Vecs_cref::Vecs_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Vecs_cref::Vecs_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Vecs_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Vecs_cref::Vecs_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Vecs_cref::Vecs_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Vecs_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Vecs_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< int64_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref< int64_vector_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Vecs_mref::Vecs_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Vecs_mref::Vecs_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Vecs_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Vecs_mref::Vecs_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Vecs_mref::Vecs_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Vecs_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Vecs_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<int64_vector_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Vecs::Vecs(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Vecs::Vecs(
  const Vecs_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Vecs::Vecs(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Vecs::cref_type
Vecs::ref() const
{
  return Vecs::cref_type(my_storage_.of_group.content_, instruction());
}

inline Vecs::cref_type
Vecs::cref() const
{
  return Vecs::cref_type(my_storage_.of_group.content_, instruction());
}

inline Vecs::mref_type
Vecs::ref()
{
  return Vecs::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Vecs::mref_type
Vecs::mref()
{
  return Vecs::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int64_vector_cref
Vecs_cref::get_vev() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[0]);
}

inline mfast::int64_vector_cref
Vecs_cref::try_get_vev() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[0]);
}

inline mfast::int64_vector_mref
Vecs_mref::set_vev() const
{
  return static_cast<mfast::int64_vector_mref>((*this)[0]);
}

inline mfast::int64_vector_cref
Vecs_cref::get_veo() const
{
  return static_cast<mfast::int64_vector_cref>((*this)[1]);
}

inline mfast::int64_vector_cref
Vecs_cref::try_get_veo() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int64_vector_cref>((*this)[1]);
}

inline mfast::int64_vector_mref
Vecs_mref::set_veo() const
{
  return static_cast<mfast::int64_vector_mref>((*this)[1]);
}

inline
void
Vecs_mref::omit_veo() const
{
  (*this)[1].omit();
}

inline mfast::int64_cref
Vecs_cref::get_velast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_cref
Vecs_cref::try_get_velast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_mref
Vecs_mref::set_velast() const
{
  return static_cast<mfast::int64_mref>((*this)[2]);
}

inline
Split_cref::Split_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Split_cref::Split_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Split_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Split_cref::Split_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Split_cref::Split_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Split_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Split_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<decimal_cref, std::tuple<copy_operator_tag, none_operator_tag>, std::tuple<properties_type< 0> , properties_type< 2> > > ((*this)[0]) );
  visitor.visit(ext_cref<decimal_cref, std::tuple<none_operator_tag, copy_operator_tag>, std::tuple<properties_type< 1> , properties_type< 2> > > ((*this)[1]) );
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Split_mref::Split_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Split_mref::Split_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Split_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Split_mref::Split_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Split_mref::Split_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Split_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Split_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<decimal_mref, std::tuple<copy_operator_tag, none_operator_tag>, std::tuple<properties_type< 0> , properties_type< 2> > > ((*this)[0]) );
  visitor.visit(ext_mref<decimal_mref, std::tuple<none_operator_tag, copy_operator_tag>, std::tuple<properties_type< 1> , properties_type< 2> > > ((*this)[1]) );
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
Split::Split(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Split::Split(
  const Split_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Split::Split(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Split::cref_type
Split::ref() const
{
  return Split::cref_type(my_storage_.of_group.content_, instruction());
}

inline Split::cref_type
Split::cref() const
{
  return Split::cref_type(my_storage_.of_group.content_, instruction());
}

inline Split::mref_type
Split::ref()
{
  return Split::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Split::mref_type
Split::mref()
{
  return Split::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::decimal_cref
Split_cref::get_spp() const
{
  return static_cast<mfast::decimal_cref>((*this)[0]);
}

inline mfast::decimal_cref
Split_cref::try_get_spp() const
{
  return static_cast<mfast::decimal_cref>((*this)[0]);
}

inline mfast::decimal_mref
Split_mref::set_spp() const
{
  return static_cast<mfast::decimal_mref>((*this)[0]);
}

inline mfast::decimal_cref
Split_cref::get_spq() const
{
  return static_cast<mfast::decimal_cref>((*this)[1]);
}

inline mfast::decimal_cref
Split_cref::try_get_spq() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::decimal_cref>((*this)[1]);
}

inline mfast::decimal_mref
Split_mref::set_spq() const
{
  return static_cast<mfast::decimal_mref>((*this)[1]);
}

inline
void
Split_mref::omit_spq() const
{
  (*this)[1].omit();
}

inline mfast::int64_cref
Split_cref::get_splast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_cref
Split_cref::try_get_splast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_mref
Split_mref::set_splast() const
{
  return static_cast<mfast::int64_mref>((*this)[2]);
}

inline
Reset_cref::Reset_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Reset_cref::Reset_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Reset_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Reset_cref::Reset_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Reset_cref::Reset_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Reset_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Reset_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref<int64_cref, increment_operator_tag, properties_type< 2> > ((*this)[1]) );
}

inline
Reset_mref::Reset_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Reset_mref::Reset_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Reset_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Reset_mref::Reset_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Reset_mref::Reset_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Reset_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Reset_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref<int64_mref, increment_operator_tag, properties_type< 2> > ((*this)[1]) );
}

inline
Reset::Reset(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Reset::Reset(
  const Reset_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Reset::Reset(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Reset::cref_type
Reset::ref() const
{
  return Reset::cref_type(my_storage_.of_group.content_, instruction());
}

inline Reset::cref_type
Reset::cref() const
{
  return Reset::cref_type(my_storage_.of_group.content_, instruction());
}

inline Reset::mref_type
Reset::ref()
{
  return Reset::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Reset::mref_type
Reset::mref()
{
  return Reset::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline mfast::int64_cref
Reset_cref::get_rea() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
Reset_cref::try_get_rea() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
Reset_mref::set_rea() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}

inline
void
Reset_mref::omit_rea() const
{
  (*this)[0].omit();
}

inline mfast::int64_cref
Reset_cref::get_reb() const
{
  return static_cast<mfast::int64_cref>((*this)[1]);
}

inline mfast::int64_cref
Reset_cref::try_get_reb() const
{
  return static_cast<mfast::int64_cref>((*this)[1]);
}

inline mfast::int64_mref
Reset_mref::set_reb() const
{
  return static_cast<mfast::int64_mref>((*this)[1]);
}

inline
Types_cref::Types_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Types_cref::Types_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Types_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Types_cref::Types_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Types_cref::Types_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Types_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Types_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<enum_cref, copy_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_cref<enum_cref, none_operator_tag, properties_type< 2> > ((*this)[2]) );
  visitor.visit(ext_cref<ascii_string_cref, copy_operator_tag, properties_type< 2> > ((*this)[3]) );
}

inline
Types_mref::Types_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Types_mref::Types_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Types_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Types_mref::Types_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Types_mref::Types_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Types_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Types_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<enum_mref, copy_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref<enum_mref, none_operator_tag, properties_type< 2> > ((*this)[2]) );
  visitor.visit(ext_mref<ascii_string_mref, copy_operator_tag, properties_type< 2> > ((*this)[3]) );
}

inline
Types::Types(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Types::Types(
  const Types_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Types::Types(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Types::cref_type
Types::ref() const
{
  return Types::cref_type(my_storage_.of_group.content_, instruction());
}

inline Types::cref_type
Types::cref() const
{
  return Types::cref_type(my_storage_.of_group.content_, instruction());
}

inline Types::mref_type
Types::ref()
{
  return Types::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Types::mref_type
Types::mref()
{
  return Types::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline
Types_cref::tyen_cref::tyen_cref(
  const mfast::value_storage*   storage,
  Types_cref::tyen_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Types_cref::tyen_cref::tyen_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

inline
Types_mref::tyen_mref::tyen_mref(
  mfast::allocator*      alloc,
  mfast::value_storage*  storage,
  Types_mref::tyen_mref::instruction_cptr instruction)
  : base_type(alloc, storage, instruction)
{
}

inline
Types_mref::tyen_mref::tyen_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

inline
Types_cref::tyen_cref::element_type
Types_cref::tyen_cref::value() const
{
  return static_cast<tyen::element>(base_type::value());
}

inline
bool Types_cref::tyen_cref::is_x() const
{
  return this->value() == tyen::x;
}

inline
void Types_mref::tyen_mref::as_x() const
{
  return this->as(tyen::x);
}

inline
bool Types_cref::tyen_cref::is_y() const
{
  return this->value() == tyen::y;
}

inline
void Types_mref::tyen_mref::as_y() const
{
  return this->as(tyen::y);
}

inline Types_cref::tyen_cref
Types_cref::get_tyen() const
{
  return static_cast<Types_cref::tyen_cref>((*this)[0]);
}

inline Types_cref::tyen_cref
Types_cref::try_get_tyen() const
{
  return static_cast<Types_cref::tyen_cref>((*this)[0]);
}

inline Types_mref::tyen_mref
Types_mref::set_tyen() const
{
  return static_cast<Types_mref::tyen_mref>((*this)[0]);
}

inline
Types_cref::tyoe_cref::tyoe_cref(
  const mfast::value_storage*   storage,
  Types_cref::tyoe_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Types_cref::tyoe_cref::tyoe_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

inline
Types_mref::tyoe_mref::tyoe_mref(
  mfast::allocator*      alloc,
  mfast::value_storage*  storage,
  Types_mref::tyoe_mref::instruction_cptr instruction)
  : base_type(alloc, storage, instruction)
{
}

inline
Types_mref::tyoe_mref::tyoe_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

inline
Types_cref::tyoe_cref::element_type
Types_cref::tyoe_cref::value() const
{
  return static_cast<tyoe::element>(base_type::value());
}

inline
bool Types_cref::tyoe_cref::is_x() const
{
  return this->value() == tyoe::x;
}

inline
void Types_mref::tyoe_mref::as_x() const
{
  return this->as(tyoe::x);
}

inline
bool Types_cref::tyoe_cref::is_y() const
{
  return this->value() == tyoe::y;
}

inline
void Types_mref::tyoe_mref::as_y() const
{
  return this->as(tyoe::y);
}

inline Types_cref::tyoe_cref
Types_cref::get_tyoe() const
{
  return static_cast<Types_cref::tyoe_cref>((*this)[1]);
}

inline Types_cref::tyoe_cref
Types_cref::try_get_tyoe() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Types_cref::tyoe_cref>((*this)[1]);
}

inline Types_mref::tyoe_mref
Types_mref::set_tyoe() const
{
  return static_cast<Types_mref::tyoe_mref>((*this)[1]);
}

inline
void
Types_mref::omit_tyoe() const
{
  (*this)[1].omit();
}

inline Types_cref::tybo_cref
Types_cref::get_tybo() const
{
  return static_cast<Types_cref::tybo_cref>((*this)[2]);
}

inline Types_cref::tybo_cref
Types_cref::try_get_tybo() const
{
  return static_cast<Types_cref::tybo_cref>((*this)[2]);
}

inline Types_mref::tybo_mref
Types_mref::set_tybo() const
{
  return static_cast<Types_mref::tybo_mref>((*this)[2]);
}

inline mfast::ascii_string_cref
Types_cref::get_tyst() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[3]);
}

inline mfast::ascii_string_cref
Types_cref::try_get_tyst() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[3]);
}

inline mfast::ascii_string_mref
Types_mref::set_tyst() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[3]);
}

inline
Deep_cref::Deep_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Deep_cref::Deep_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, Deep_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Deep_cref::Deep_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
Deep_cref::Deep_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Deep_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Deep_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename dps_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 1> >, ext_cref< typename dpg_cref::reference, sequence_element_tag,properties_type< 2> > > ((*this)[1]) );
}

inline
Deep_mref::Deep_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Deep_mref::Deep_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, Deep_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Deep_mref::Deep_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
Deep_mref::Deep_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
Deep_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void Deep_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename dps_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 1> >, ext_mref< typename dpg_mref::reference, sequence_element_tag,properties_type< 2> > > ((*this)[1]) );
}

inline
Deep::Deep(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
Deep::Deep(
  const Deep_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
Deep::Deep(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline Deep::cref_type
Deep::ref() const
{
  return Deep::cref_type(my_storage_.of_group.content_, instruction());
}

inline Deep::cref_type
Deep::cref() const
{
  return Deep::cref_type(my_storage_.of_group.content_, instruction());
}

inline Deep::mref_type
Deep::ref()
{
  return Deep::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Deep::mref_type
Deep::mref()
{
  return Deep::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline Deep_cref::dps_cref
Deep_cref::get_dps() const
{
  return static_cast<Deep_cref::dps_cref>((*this)[0]);
}

inline Deep_cref::dps_cref
Deep_cref::try_get_dps() const
{
  return static_cast<Deep_cref::dps_cref>((*this)[0]);
}

inline Deep_mref::dps_mref
Deep_mref::set_dps() const
{
  return static_cast<Deep_mref::dps_mref>((*this)[0]);
}

inline
Deep_cref::dps_element_cref::dps_element_cref(
  const mfast::value_storage*   storage,
  Deep_cref::dps_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Deep_mref::dps_element_mref::dps_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Deep_mref::dps_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Deep_cref::dps_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename dpi_cref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[1]) );
}

template <typename Visitor>
inline void Deep_mref::dps_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 1> > ((*this)[0]) );
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename dpi_mref::reference, sequence_element_tag,properties_type< 0> > > ((*this)[1]) );
}

inline mfast::ascii_string_cref
Deep_cref::dps_element_cref::get_dpa() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_cref
Deep_cref::dps_element_cref::try_get_dpa() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_mref
Deep_mref::dps_element_mref::set_dpa() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[0]);
}

inline
void
Deep_mref::dps_element_mref::omit_dpa() const
{
  (*this)[0].omit();
}

inline Deep_cref::dps_element_cref::dpi_cref
Deep_cref::dps_element_cref::get_dpi() const
{
  return static_cast<Deep_cref::dps_element_cref::dpi_cref>((*this)[1]);
}

inline Deep_cref::dps_element_cref::dpi_cref
Deep_cref::dps_element_cref::try_get_dpi() const
{
  return static_cast<Deep_cref::dps_element_cref::dpi_cref>((*this)[1]);
}

inline Deep_mref::dps_element_mref::dpi_mref
Deep_mref::dps_element_mref::set_dpi() const
{
  return static_cast<Deep_mref::dps_element_mref::dpi_mref>((*this)[1]);
}

inline
Deep_cref::dps_element_cref::dpi_element_cref::dpi_element_cref(
  const mfast::value_storage*   storage,
  Deep_cref::dps_element_cref::dpi_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Deep_mref::dps_element_mref::dpi_element_mref::dpi_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Deep_mref::dps_element_mref::dpi_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Deep_cref::dps_element_cref::dpi_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<ascii_string_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

template <typename Visitor>
inline void Deep_mref::dps_element_mref::dpi_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<ascii_string_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
}

inline mfast::ascii_string_cref
Deep_cref::dps_element_cref::dpi_element_cref::get_dpt() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_cref
Deep_cref::dps_element_cref::dpi_element_cref::try_get_dpt() const
{
  return static_cast<mfast::ascii_string_cref>((*this)[0]);
}

inline mfast::ascii_string_mref
Deep_mref::dps_element_mref::dpi_element_mref::set_dpt() const
{
  return static_cast<mfast::ascii_string_mref>((*this)[0]);
}

inline Deep_cref::dpg_cref
Deep_cref::get_dpg() const
{
  return static_cast<Deep_cref::dpg_cref>((*this)[1]);
}

inline Deep_cref::dpg_cref
Deep_cref::try_get_dpg() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<Deep_cref::dpg_cref>((*this)[1]);
}

inline Deep_mref::dpg_mref
Deep_mref::set_dpg() const
{
  return static_cast<Deep_mref::dpg_mref>((*this)[1]);
}

inline
void
Deep_mref::omit_dpg() const
{
  (*this)[1].omit();
}

inline
Deep_cref::dpg_element_cref::dpg_element_cref(
  const mfast::value_storage*   storage,
  Deep_cref::dpg_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
Deep_mref::dpg_element_mref::dpg_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  Deep_mref::dpg_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void Deep_cref::dpg_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  {
    ext_cref< dpq_cref,  group_type_tag, properties_type< 1> > ext_cref_group((*this)[0]);
    ext_cref_group.set_group_present(this->field_storage(0)->is_present());
    visitor.visit(ext_cref_group);
  }
}

template <typename Visitor>
inline void Deep_mref::dpg_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< dpq_mref, group_type_tag, properties_type< 1> > ((*this)[0]) );
}


inline Deep_cref::dpg_element_cref::dpq_cref
Deep_cref::dpg_element_cref::get_dpq() const
{
  if ((*this)[0].absent())
    return Deep_cref::dpg_element_cref::dpq_cref(nullptr, Deep_cref::dpg_element_cref::dpq_cref::instruction_cptr(nullptr));
  return static_cast<Deep_cref::dpg_element_cref::dpq_cref>((*this)[0]);
}


inline Deep_cref::dpg_element_cref::dpq_cref
Deep_cref::dpg_element_cref::try_get_dpq() const
{
  if ((*this)[0].absent())
    throw mfast::bad_optional_access();
  return static_cast<Deep_cref::dpg_element_cref::dpq_cref>((*this)[0]);
}

inline Deep_mref::dpg_element_mref::dpq_mref
Deep_mref::dpg_element_mref::set_dpq() const
{
  this->field_storage(0)->present(true);
  return Deep_mref::dpg_element_mref::dpq_mref((*this)[0]);
}

inline
void
Deep_mref::dpg_element_mref::omit_dpq() const
{
  (*this)[0].omit();
}

inline
Deep_cref::dpg_element_cref::dpq_cref::dpq_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
Deep_cref::dpg_element_cref::dpq_cref::dpq_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, dpq_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
Deep_cref::dpg_element_cref::dpq_cref::dpq_cref(
  const mfast::field_cref& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Deep_cref::dpg_element_cref::dpq_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<unicode_string_cref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_cref<byte_vector_cref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline
Deep_mref::dpg_element_mref::dpq_mref::dpq_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
Deep_mref::dpg_element_mref::dpq_mref::dpq_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, dpq_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
Deep_mref::dpg_element_mref::dpq_mref::dpq_mref(
  const mfast::field_mref_base& other)
  : base_type(other)
{
}

template <typename Visitor>
inline void Deep_mref::dpg_element_mref::dpq_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<unicode_string_mref, none_operator_tag, properties_type< 0> > ((*this)[0]) );
  visitor.visit(ext_mref<byte_vector_mref, none_operator_tag, properties_type< 0> > ((*this)[1]) );
}

inline mfast::unicode_string_cref
Deep_cref::dpg_element_cref::dpq_cref::get_dpu() const
{
  return static_cast<mfast::unicode_string_cref>((*this)[0]);
}

inline mfast::unicode_string_cref
Deep_cref::dpg_element_cref::dpq_cref::try_get_dpu() const
{
  return static_cast<mfast::unicode_string_cref>((*this)[0]);
}

inline mfast::unicode_string_mref
Deep_mref::dpg_element_mref::dpq_mref::set_dpu() const
{
  return static_cast<mfast::unicode_string_mref>((*this)[0]);
}

inline mfast::byte_vector_cref
Deep_cref::dpg_element_cref::dpq_cref::get_dpv() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[1]);
}

inline mfast::byte_vector_cref
Deep_cref::dpg_element_cref::dpq_cref::try_get_dpv() const
{
  return static_cast<mfast::byte_vector_cref>((*this)[1]);
}

inline mfast::byte_vector_mref
Deep_mref::dpg_element_mref::dpq_mref::set_dpv() const
{
  return static_cast<mfast::byte_vector_mref>((*this)[1]);
}

inline
DynSeq_cref::DynSeq_cref()
  : base_type(nullptr, nullptr)
{
}

template <typename T>inline
DynSeq_cref::DynSeq_cref(
  typename std::enable_if<std::is_same<typename T::cref_type, DynSeq_cref>::value, const mfast::value_storage*>::type storage_array,
  const T* instruction)
  : base_type(storage_array, instruction)
{
}

inline
DynSeq_cref::DynSeq_cref(
  const mfast::message_cref& other)
  : base_type(other)
{
}

inline
DynSeq_cref::DynSeq_cref(
  const mfast::field_cref& other)
  : base_type(mfast::field_cref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
DynSeq_cref::operator mfast::message_cref()
{
  return mfast::message_cref(this->storage(), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void DynSeq_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref< sequence_cref, ext_cref<uint32_cref, none_operator_tag, properties_type< 0> >, ext_cref< typename dss_cref::reference, sequence_element_tag,properties_type< 2> > > ((*this)[0]) );
  {
    ext_cref< dsg_cref,  group_type_tag, properties_type< 1> > ext_cref_group((*this)[1]);
    ext_cref_group.set_group_present(this->field_storage(1)->is_present());
    visitor.visit(ext_cref_group);
  }
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
DynSeq_mref::DynSeq_mref()
  : base_type(nullptr, nullptr, nullptr)
{
}

template <typename T>inline
DynSeq_mref::DynSeq_mref(
  mfast::allocator* alloc,
  typename std::enable_if<std::is_same<typename T::cref_type, DynSeq_cref>::value, mfast::value_storage*>::type storage_array,
  const T*          instruction)
  : base_type(alloc, storage_array, instruction)
{
}

inline
DynSeq_mref::DynSeq_mref(
  const mfast::message_mref& other)
  : base_type(other)
{
}

inline
DynSeq_mref::DynSeq_mref(
  const mfast::field_mref_base& other)
  : base_type(other.allocator(),
              mfast::field_mref_core_access::storage_of(other)->of_group.content_,
              static_cast<instruction_cptr>(other.instruction()))
{
}

inline
DynSeq_mref::operator mfast::message_mref()
{
  return mfast::message_mref(this->allocator(), const_cast<mfast::value_storage*>(this->storage()), static_cast<instruction_cptr>(this->instruction()));
}

template <typename Visitor>
inline void DynSeq_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref< sequence_mref, ext_mref<uint32_mref, none_operator_tag, properties_type< 0> >, ext_mref< typename dss_mref::reference, sequence_element_tag,properties_type< 2> > > ((*this)[0]) );
  visitor.visit(ext_mref< dsg_mref, group_type_tag, properties_type< 1> > ((*this)[1]) );
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[2]) );
}

inline
DynSeq::DynSeq(
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
}

inline
DynSeq::DynSeq(
  const DynSeq_cref& other,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data(), other.field_storage(0))
{
}

#ifdef MFAST_JSON_H
DynSeq::DynSeq(
  const char* json_initializer,
  int json_object_tag_mask,
  mfast::allocator* alloc)
  : base_type(alloc, instruction(), this->data())
{
  std::stringstream strm(json_initializer);
  mfast::json::decode(strm, this->mref(), json_object_tag_mask);
}

#endif
inline DynSeq::cref_type
DynSeq::ref() const
{
  return DynSeq::cref_type(my_storage_.of_group.content_, instruction());
}

inline DynSeq::cref_type
DynSeq::cref() const
{
  return DynSeq::cref_type(my_storage_.of_group.content_, instruction());
}

inline DynSeq::mref_type
DynSeq::ref()
{
  return DynSeq::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline DynSeq::mref_type
DynSeq::mref()
{
  return DynSeq::mref_type(alloc_, my_storage_.of_group.content_, instruction());
}

inline DynSeq_cref::dss_cref
DynSeq_cref::get_dss() const
{
  return static_cast<DynSeq_cref::dss_cref>((*this)[0]);
}

inline DynSeq_cref::dss_cref
DynSeq_cref::try_get_dss() const
{
  return static_cast<DynSeq_cref::dss_cref>((*this)[0]);
}

inline DynSeq_mref::dss_mref
DynSeq_mref::set_dss() const
{
  return static_cast<DynSeq_mref::dss_mref>((*this)[0]);
}

inline
DynSeq_cref::dss_element_cref::dss_element_cref(
  const mfast::value_storage*   storage,
  DynSeq_cref::dss_element_cref::instruction_cptr instruction)
  : base_type(storage, instruction)
{
}

inline
DynSeq_mref::dss_element_mref::dss_element_mref(
  mfast::allocator*               alloc,
  mfast::value_storage*         storage,
  DynSeq_mref::dss_element_mref::instruction_cptr instruction)
  : base_type(alloc,storage, instruction)
{
}

template <typename Visitor>
inline void DynSeq_cref::dss_element_cref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_cref<int64_cref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(nested_message_cref ((*this)[1]) );
}

template <typename Visitor>
inline void DynSeq_mref::dss_element_mref::accept(Visitor& visitor)
{
  using namespace mfast;
  visitor.visit(ext_mref<int64_mref, copy_operator_tag, properties_type< 2> > ((*this)[0]) );
  visitor.visit(nested_message_mref ((*this)[1]) );
}

inline mfast::int64_cref
DynSeq_cref::dss_element_cref::get_dse() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_cref
DynSeq_cref::dss_element_cref::try_get_dse() const
{
  return static_cast<mfast::int64_cref>((*this)[0]);
}

inline mfast::int64_mref
DynSeq_mref::dss_element_mref::set_dse() const
{
  return static_cast<mfast::int64_mref>((*this)[0]);
}


inline
mfast::nested_message_cref
DynSeq_cref::dss_element_cref::get_nested_message1() const
{
  return mfast::nested_message_cref((*this)[1]);
}

inline
mfast::nested_message_cref
DynSeq_cref::dss_element_cref::try_get_nested_message1() const
{
  return mfast::nested_message_cref((*this)[1]);
}

inline
mfast::nested_message_mref
DynSeq_mref::dss_element_mref::set_nested_message1() const
{
  return mfast::nested_message_mref((*this)[1]);
}


inline DynSeq_cref::dsg_cref
DynSeq_cref::get_dsg() const
{
  if ((*this)[1].absent())
    return DynSeq_cref::dsg_cref(nullptr, DynSeq_cref::dsg_cref::instruction_cptr(nullptr));
  return static_cast<DynSeq_cref::dsg_cref>(mfast::aggregate_cref((*this)[1])[0]);
}


inline DynSeq_cref::dsg_cref
DynSeq_cref::try_get_dsg() const
{
  if ((*this)[1].absent())
    throw mfast::bad_optional_access();
  return static_cast<DynSeq_cref::dsg_cref>(mfast::aggregate_cref((*this)[1])[0]);
}

inline DynSeq_mref::dsg_mref
DynSeq_mref::set_dsg() const
{
  this->field_storage(1)->present(true);
  return DynSeq_mref::dsg_mref(mfast::aggregate_mref((*this)[1])[0]);
}

inline
void
DynSeq_mref::omit_dsg() const
{
  (*this)[1].omit();
}

inline mfast::int64_cref
DynSeq_cref::get_dslast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_cref
DynSeq_cref::try_get_dslast() const
{
  return static_cast<mfast::int64_cref>((*this)[2]);
}

inline mfast::int64_mref
DynSeq_mref::set_dslast() const
{
  return static_cast<mfast::int64_mref>((*this)[2]);
}

