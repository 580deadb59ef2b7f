// json.h generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

#pragma once

#include <mfast.h>
namespace json
{
struct mfast_tag
{
  enum element {
    RAW = 1,
    IGNORE = 2
  };
  typedef mfast::enum_field_instruction_ex<mfast_tag> instruction_type;
  static const instruction_type* instruction();
};

class mfast_tag_cref
  : public mfast::enum_cref_ex<mfast_tag_cref, mfast_tag>
{
  public:
    typedef mfast::enum_cref_ex<mfast_tag_cref, mfast_tag> base_type;
    typedef mfast_tag::element element_type;
    typedef mfast_tag::instruction_type instruction_type;
    mfast_tag_cref(
      const mfast::value_storage* storage=nullptr,
      instruction_cptr            instruction=nullptr);

    explicit mfast_tag_cref(const field_cref& other);

    element_type value() const;

    bool is_RAW() const;
    bool is_IGNORE() const;
};

class mfast_tag_mref
  : public mfast::enum_mref_ex<mfast_tag_mref, mfast_tag_cref>
{
  public:
    typedef  mfast::enum_mref_ex<mfast_tag_mref, mfast_tag_cref> base_type;
    typedef mfast_tag::element element_type;
    mfast_tag_mref(
      mfast::allocator*     alloc=nullptr,
      mfast::value_storage* storage=nullptr,
      instruction_cptr      instruction=nullptr);
    explicit mfast_tag_mref(const mfast::field_mref_base& other);

    void as_RAW() const;
    void as_IGNORE() const;
};


class Ints_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Ints_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Ints_cref();
    template <typename T>
    Ints_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Ints_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Ints_cref(const mfast::message_cref& other);

    explicit Ints_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int32_cref get_a1() const;
    mfast::int32_cref try_get_a1() const;
    mfast::uint32_cref get_a2() const;
    mfast::uint32_cref try_get_a2() const;
    mfast::int64_cref get_a3() const;
    mfast::int64_cref try_get_a3() const;
    mfast::uint64_cref get_a4() const;
    mfast::uint64_cref try_get_a4() const;

};


typedef mfast::make_aggregate_mref<Ints_cref> Ints_mref_base;
class Ints_mref
  : public Ints_mref_base
{
  typedef Ints_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Ints_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Ints_mref();
    template <typename T>
    Ints_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Ints_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Ints_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Ints_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int32_mref set_a1() const;
    void omit_a1() const;
    mfast::uint32_mref set_a2() const;
    mfast::int64_mref set_a3() const;
    mfast::uint64_mref set_a4() const;
    void omit_a4() const;
};

class Ints
  : private mfast::value_storage_array<4>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 1
    };
    typedef mfast::template_instruction_ex<Ints_cref> instruction_type;

    typedef mfast::make_message_cref<Ints_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Ints_mref, instruction_type> mref_type;
    Ints(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Ints(
      const Ints_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Ints(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Ints(const Ints&);
    Ints& operator = (const Ints&);
};


class Dec_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Dec_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Dec_cref();
    template <typename T>
    Dec_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Dec_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Dec_cref(const mfast::message_cref& other);

    explicit Dec_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::decimal_cref get_d1() const;
    mfast::decimal_cref try_get_d1() const;

};


typedef mfast::make_aggregate_mref<Dec_cref> Dec_mref_base;
class Dec_mref
  : public Dec_mref_base
{
  typedef Dec_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Dec_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Dec_mref();
    template <typename T>
    Dec_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Dec_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Dec_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Dec_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::decimal_mref set_d1() const;
    void omit_d1() const;
};

class Dec
  : private mfast::value_storage_array<1>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 2
    };
    typedef mfast::template_instruction_ex<Dec_cref> instruction_type;

    typedef mfast::make_message_cref<Dec_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Dec_mref, instruction_type> mref_type;
    Dec(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Dec(
      const Dec_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Dec(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Dec(const Dec&);
    Dec& operator = (const Dec&);
};


class Str_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Str_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Str_cref();
    template <typename T>
    Str_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Str_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Str_cref(const mfast::message_cref& other);

    explicit Str_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::ascii_string_cref get_s1() const;
    mfast::ascii_string_cref try_get_s1() const;

};


typedef mfast::make_aggregate_mref<Str_cref> Str_mref_base;
class Str_mref
  : public Str_mref_base
{
  typedef Str_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Str_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Str_mref();
    template <typename T>
    Str_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Str_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Str_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Str_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::ascii_string_mref set_s1() const;
    void omit_s1() const;
};

class Str
  : private mfast::value_storage_array<1>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 3
    };
    typedef mfast::template_instruction_ex<Str_cref> instruction_type;

    typedef mfast::make_message_cref<Str_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Str_mref, instruction_type> mref_type;
    Str(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Str(
      const Str_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Str(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Str(const Str&);
    Str& operator = (const Str&);
};


class Uni_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Uni_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Uni_cref();
    template <typename T>
    Uni_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Uni_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Uni_cref(const mfast::message_cref& other);

    explicit Uni_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::unicode_string_cref get_s2() const;
    mfast::unicode_string_cref try_get_s2() const;
    mfast::uint32_cref get_s3() const;
    mfast::uint32_cref try_get_s3() const;

};


typedef mfast::make_aggregate_mref<Uni_cref> Uni_mref_base;
class Uni_mref
  : public Uni_mref_base
{
  typedef Uni_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Uni_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Uni_mref();
    template <typename T>
    Uni_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Uni_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Uni_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Uni_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::unicode_string_mref set_s2() const;
    mfast::uint32_mref set_s3() const;
    void omit_s3() const;
};

class Uni
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 4
    };
    typedef mfast::template_instruction_ex<Uni_cref> instruction_type;

    typedef mfast::make_message_cref<Uni_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Uni_mref, instruction_type> mref_type;
    Uni(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Uni(
      const Uni_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Uni(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Uni(const Uni&);
    Uni& operator = (const Uni&);
};


class Bytes_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Bytes_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Bytes_cref();
    template <typename T>
    Bytes_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Bytes_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Bytes_cref(const mfast::message_cref& other);

    explicit Bytes_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::byte_vector_cref get_b1() const;
    mfast::byte_vector_cref try_get_b1() const;
    mfast::uint32_cref get_b2() const;
    mfast::uint32_cref try_get_b2() const;

};


typedef mfast::make_aggregate_mref<Bytes_cref> Bytes_mref_base;
class Bytes_mref
  : public Bytes_mref_base
{
  typedef Bytes_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Bytes_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Bytes_mref();
    template <typename T>
    Bytes_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Bytes_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Bytes_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Bytes_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::byte_vector_mref set_b1() const;
    void omit_b1() const;
    mfast::uint32_mref set_b2() const;
    void omit_b2() const;
};

class Bytes
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 5
    };
    typedef mfast::template_instruction_ex<Bytes_cref> instruction_type;

    typedef mfast::make_message_cref<Bytes_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Bytes_mref, instruction_type> mref_type;
    Bytes(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Bytes(
      const Bytes_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Bytes(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Bytes(const Bytes&);
    Bytes& operator = (const Bytes&);
};


class Raw_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Raw_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Raw_cref();
    template <typename T>
    Raw_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Raw_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Raw_cref(const mfast::message_cref& other);

    explicit Raw_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_cref get_r0() const;
    mfast::uint32_cref try_get_r0() const;
    mfast::byte_vector_cref get_r1() const;
    mfast::byte_vector_cref try_get_r1() const;
    mfast::byte_vector_cref get_r2() const;
    mfast::byte_vector_cref try_get_r2() const;

};


typedef mfast::make_aggregate_mref<Raw_cref> Raw_mref_base;
class Raw_mref
  : public Raw_mref_base
{
  typedef Raw_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Raw_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Raw_mref();
    template <typename T>
    Raw_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Raw_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Raw_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Raw_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_mref set_r0() const;
    void omit_r0() const;
    mfast::byte_vector_mref set_r1() const;
    mfast::byte_vector_mref set_r2() const;
    void omit_r2() const;
};

class Raw
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 6
    };
    typedef mfast::template_instruction_ex<Raw_cref> instruction_type;

    typedef mfast::make_message_cref<Raw_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Raw_mref, instruction_type> mref_type;
    Raw(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Raw(
      const Raw_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Raw(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Raw(const Raw&);
    Raw& operator = (const Raw&);
};


class Vec1_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Vec1_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Vec1_cref();
    template <typename T>
    Vec1_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Vec1_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Vec1_cref(const mfast::message_cref& other);

    explicit Vec1_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int32_vector_cref get_v1() const;
    mfast::int32_vector_cref try_get_v1() const;
    mfast::uint32_vector_cref get_v2() const;
    mfast::uint32_vector_cref try_get_v2() const;

};


typedef mfast::make_aggregate_mref<Vec1_cref> Vec1_mref_base;
class Vec1_mref
  : public Vec1_mref_base
{
  typedef Vec1_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Vec1_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Vec1_mref();
    template <typename T>
    Vec1_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Vec1_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Vec1_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Vec1_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int32_vector_mref set_v1() const;
    void omit_v1() const;
    mfast::uint32_vector_mref set_v2() const;
};

class Vec1
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 7
    };
    typedef mfast::template_instruction_ex<Vec1_cref> instruction_type;

    typedef mfast::make_message_cref<Vec1_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Vec1_mref, instruction_type> mref_type;
    Vec1(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Vec1(
      const Vec1_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Vec1(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Vec1(const Vec1&);
    Vec1& operator = (const Vec1&);
};


class Vec2_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Vec2_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Vec2_cref();
    template <typename T>
    Vec2_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Vec2_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Vec2_cref(const mfast::message_cref& other);

    explicit Vec2_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_vector_cref get_v3() const;
    mfast::int64_vector_cref try_get_v3() const;
    mfast::uint64_vector_cref get_v4() const;
    mfast::uint64_vector_cref try_get_v4() const;

};


typedef mfast::make_aggregate_mref<Vec2_cref> Vec2_mref_base;
class Vec2_mref
  : public Vec2_mref_base
{
  typedef Vec2_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Vec2_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Vec2_mref();
    template <typename T>
    Vec2_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Vec2_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Vec2_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Vec2_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_vector_mref set_v3() const;
    mfast::uint64_vector_mref set_v4() const;
    void omit_v4() const;
};

class Vec2
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 8
    };
    typedef mfast::template_instruction_ex<Vec2_cref> instruction_type;

    typedef mfast::make_message_cref<Vec2_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Vec2_mref, instruction_type> mref_type;
    Vec2(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Vec2(
      const Vec2_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Vec2(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Vec2(const Vec2&);
    Vec2& operator = (const Vec2&);
};


class Grp_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Grp_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Grp_cref();
    template <typename T>
    Grp_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Grp_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Grp_cref(const mfast::message_cref& other);

    explicit Grp_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class g1_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<g1_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        g1_cref();
        template <typename T>
        g1_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, g1_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit g1_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_g2() const;
        mfast::uint32_cref try_get_g2() const;
    };

    g1_cref get_g1() const;
    g1_cref try_get_g1() const;

    class g3_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<g3_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        g3_cref();
        template <typename T>
        g3_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, g3_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit g3_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_g4() const;
        mfast::int64_cref try_get_g4() const;

        class g5_cref
          : public mfast::aggregate_cref
        {
          typedef mfast::aggregate_cref base_type;
          public:
            typedef mfast::group_instruction_ex<g5_cref> instruction_type;

            typedef const instruction_type* instruction_cptr;
            g5_cref();
            template <typename T>
            g5_cref(
              typename std::enable_if<std::is_same<typename T::cref_type, g5_cref>::value, const mfast::value_storage*>::type storage,
              const T* instruction);

            explicit g5_cref(const mfast::field_cref& other);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::uint32_cref get_g6() const;
            mfast::uint32_cref try_get_g6() const;
        };

        g5_cref get_g5() const;
        g5_cref try_get_g5() const;
    };

    g3_cref get_g3() const;
    g3_cref try_get_g3() const;
    mfast::uint32_cref get_g7() const;
    mfast::uint32_cref try_get_g7() const;

};


typedef mfast::make_aggregate_mref<Grp_cref> Grp_mref_base;
class Grp_mref
  : public Grp_mref_base
{
  typedef Grp_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Grp_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Grp_mref();
    template <typename T>
    Grp_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Grp_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Grp_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Grp_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class g1_mref
      : public mfast::make_aggregate_mref<Grp_cref::g1_cref>
    {
      typedef mfast::make_aggregate_mref<Grp_cref::g1_cref> base_type;
      public:
        g1_mref();
        template <typename T>
        g1_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, g1_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit g1_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_g2() const;
        void omit_g2() const;
    };

    g1_mref set_g1() const;

    class g3_mref
      : public mfast::make_aggregate_mref<Grp_cref::g3_cref>
    {
      typedef mfast::make_aggregate_mref<Grp_cref::g3_cref> base_type;
      public:
        g3_mref();
        template <typename T>
        g3_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, g3_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit g3_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_g4() const;

        class g5_mref
          : public mfast::make_aggregate_mref<Grp_cref::g3_cref::g5_cref>
        {
          typedef mfast::make_aggregate_mref<Grp_cref::g3_cref::g5_cref> base_type;
          public:
            g5_mref();
            template <typename T>
            g5_mref(
              mfast::allocator*       alloc,
              typename std::enable_if<std::is_same<typename T::cref_type, g5_cref>::value, mfast::value_storage*>::type   storage,
              const T* instruction);

            explicit g5_mref(const mfast::field_mref_base& other);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::uint32_mref set_g6() const;
            void omit_g6() const;
        };

        g5_mref set_g5() const;
        void omit_g5() const;
    };

    g3_mref set_g3() const;
    void omit_g3() const;
    mfast::uint32_mref set_g7() const;
};

class Grp
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 9
    };
    typedef mfast::template_instruction_ex<Grp_cref> instruction_type;

    typedef mfast::make_message_cref<Grp_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Grp_mref, instruction_type> mref_type;
    Grp(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Grp(
      const Grp_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Grp(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Grp(const Grp&);
    Grp& operator = (const Grp&);
};


class Seq_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Seq_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Seq_cref();
    template <typename T>
    Seq_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Seq_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Seq_cref(const mfast::message_cref& other);

    explicit Seq_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class q1_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<q1_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        q1_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_q2() const;
        mfast::uint32_cref try_get_q2() const;
        mfast::uint32_cref get_q3() const;
        mfast::uint32_cref try_get_q3() const;
    };

    typedef mfast::make_sequence_cref<q1_element_cref> q1_cref;
    q1_cref get_q1() const;
    q1_cref try_get_q1() const;
    mfast::uint32_cref get_q4() const;
    mfast::uint32_cref try_get_q4() const;

};


typedef mfast::make_aggregate_mref<Seq_cref> Seq_mref_base;
class Seq_mref
  : public Seq_mref_base
{
  typedef Seq_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Seq_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Seq_mref();
    template <typename T>
    Seq_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Seq_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Seq_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Seq_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class q1_element_mref
      : public mfast::make_aggregate_mref<Seq_cref::q1_element_cref>
    {
      typedef mfast::make_aggregate_mref<Seq_cref::q1_element_cref> base_type;
      public:
        q1_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_q2() const;
        void omit_q2() const;
        mfast::uint32_mref set_q3() const;
    };

    typedef mfast::make_sequence_mref<q1_element_mref> q1_mref;
    q1_mref set_q1() const;
    void omit_q1() const;
    mfast::uint32_mref set_q4() const;
    void omit_q4() const;
};

class Seq
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 10
    };
    typedef mfast::template_instruction_ex<Seq_cref> instruction_type;

    typedef mfast::make_message_cref<Seq_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Seq_mref, instruction_type> mref_type;
    Seq(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Seq(
      const Seq_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Seq(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Seq(const Seq&);
    Seq& operator = (const Seq&);
};


class SeqSeq_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<SeqSeq_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    SeqSeq_cref();
    template <typename T>
    SeqSeq_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, SeqSeq_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    SeqSeq_cref(const mfast::message_cref& other);

    explicit SeqSeq_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class n1_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<n1_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        n1_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);


        class n2_element_cref
          : public mfast::sequence_element_cref
        {
          typedef mfast::sequence_element_cref base_type;
          public:
            typedef mfast::sequence_instruction_ex<n2_element_cref> instruction_type;
            typedef const instruction_type* instruction_cptr;
            n2_element_cref(
              const mfast::value_storage* storage,
              instruction_cptr            instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::uint32_cref get_n3() const;
            mfast::uint32_cref try_get_n3() const;
        };

        typedef mfast::make_sequence_cref<n2_element_cref> n2_cref;
        n2_cref get_n2() const;
        n2_cref try_get_n2() const;
    };

    typedef mfast::make_sequence_cref<n1_element_cref> n1_cref;
    n1_cref get_n1() const;
    n1_cref try_get_n1() const;

};


typedef mfast::make_aggregate_mref<SeqSeq_cref> SeqSeq_mref_base;
class SeqSeq_mref
  : public SeqSeq_mref_base
{
  typedef SeqSeq_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<SeqSeq_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    SeqSeq_mref();
    template <typename T>
    SeqSeq_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, SeqSeq_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    SeqSeq_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit SeqSeq_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class n1_element_mref
      : public mfast::make_aggregate_mref<SeqSeq_cref::n1_element_cref>
    {
      typedef mfast::make_aggregate_mref<SeqSeq_cref::n1_element_cref> base_type;
      public:
        n1_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);


        class n2_element_mref
          : public mfast::make_aggregate_mref<SeqSeq_cref::n1_element_cref::n2_element_cref>
        {
          typedef mfast::make_aggregate_mref<SeqSeq_cref::n1_element_cref::n2_element_cref> base_type;
          public:
            n2_element_mref(
              mfast::allocator*     alloc,
              mfast::value_storage* storage,
              instruction_cptr      instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::uint32_mref set_n3() const;
        };

        typedef mfast::make_sequence_mref<n2_element_mref> n2_mref;
        n2_mref set_n2() const;
        void omit_n2() const;
    };

    typedef mfast::make_sequence_mref<n1_element_mref> n1_mref;
    n1_mref set_n1() const;
};

class SeqSeq
  : private mfast::value_storage_array<1>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 11
    };
    typedef mfast::template_instruction_ex<SeqSeq_cref> instruction_type;

    typedef mfast::make_message_cref<SeqSeq_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<SeqSeq_mref, instruction_type> mref_type;
    SeqSeq(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    SeqSeq(
      const SeqSeq_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit SeqSeq(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    SeqSeq(const SeqSeq&);
    SeqSeq& operator = (const SeqSeq&);
};


class Plain_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Plain_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Plain_cref();
    template <typename T>
    Plain_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Plain_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Plain_cref(const mfast::message_cref& other);

    explicit Plain_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::make_sequence_cref<mfast::uint32_cref, mfast::sole_element_sequence_trait> p1_cref;
    p1_cref get_p1() const;
    p1_cref try_get_p1() const;
    typedef mfast::make_sequence_cref<mfast::byte_vector_cref, mfast::sole_element_sequence_trait> p2_cref;
    p2_cref get_p2() const;
    p2_cref try_get_p2() const;

};


typedef mfast::make_aggregate_mref<Plain_cref> Plain_mref_base;
class Plain_mref
  : public Plain_mref_base
{
  typedef Plain_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Plain_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Plain_mref();
    template <typename T>
    Plain_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Plain_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Plain_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Plain_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::make_sequence_mref<mfast::uint32_mref, mfast::sole_element_sequence_trait> p1_mref;
    p1_mref set_p1() const;
    typedef mfast::make_sequence_mref<mfast::byte_vector_mref, mfast::sole_element_sequence_trait> p2_mref;
    p2_mref set_p2() const;
    void omit_p2() const;
};

class Plain
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 12
    };
    typedef mfast::template_instruction_ex<Plain_cref> instruction_type;

    typedef mfast::make_message_cref<Plain_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Plain_mref, instruction_type> mref_type;
    Plain(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Plain(
      const Plain_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Plain(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Plain(const Plain&);
    Plain& operator = (const Plain&);
};


class PlainStr_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<PlainStr_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    PlainStr_cref();
    template <typename T>
    PlainStr_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, PlainStr_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    PlainStr_cref(const mfast::message_cref& other);

    explicit PlainStr_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::make_sequence_cref<mfast::ascii_string_cref, mfast::sole_element_sequence_trait> p3_cref;
    p3_cref get_p3() const;
    p3_cref try_get_p3() const;

};


typedef mfast::make_aggregate_mref<PlainStr_cref> PlainStr_mref_base;
class PlainStr_mref
  : public PlainStr_mref_base
{
  typedef PlainStr_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<PlainStr_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    PlainStr_mref();
    template <typename T>
    PlainStr_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, PlainStr_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    PlainStr_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit PlainStr_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::make_sequence_mref<mfast::ascii_string_mref, mfast::sole_element_sequence_trait> p3_mref;
    p3_mref set_p3() const;
};

class PlainStr
  : private mfast::value_storage_array<1>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 13
    };
    typedef mfast::template_instruction_ex<PlainStr_cref> instruction_type;

    typedef mfast::make_message_cref<PlainStr_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<PlainStr_mref, instruction_type> mref_type;
    PlainStr(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    PlainStr(
      const PlainStr_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit PlainStr(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    PlainStr(const PlainStr&);
    PlainStr& operator = (const PlainStr&);
};


class Enums_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Enums_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Enums_cref();
    template <typename T>
    Enums_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Enums_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Enums_cref(const mfast::message_cref& other);

    explicit Enums_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    struct e1
    {
      enum element {
        x = 2,
        y = 5
      };
      typedef mfast::enum_field_instruction_ex<e1> instruction_type;
      static const instruction_type* instruction();
    };

    class e1_cref
      : public mfast::enum_cref_ex<e1_cref, e1>
    {
      public:
        typedef mfast::enum_cref_ex<e1_cref, e1> base_type;
        typedef e1::element element_type;
        typedef e1::instruction_type instruction_type;
        e1_cref(
          const mfast::value_storage* storage=nullptr,
          instruction_cptr            instruction=nullptr);

        explicit e1_cref(const field_cref& other);

        element_type value() const;

        bool is_x() const;
        bool is_y() const;
    };

    e1_cref get_e1() const;
    e1_cref try_get_e1() const;
    struct e2
    {
      enum element {
        u,
        w
      };
      typedef mfast::enum_field_instruction_ex<e2> instruction_type;
      static const instruction_type* instruction();
    };

    class e2_cref
      : public mfast::enum_cref_ex<e2_cref, e2>
    {
      public:
        typedef mfast::enum_cref_ex<e2_cref, e2> base_type;
        typedef e2::element element_type;
        typedef e2::instruction_type instruction_type;
        e2_cref(
          const mfast::value_storage* storage=nullptr,
          instruction_cptr            instruction=nullptr);

        explicit e2_cref(const field_cref& other);

        element_type value() const;

        bool is_u() const;
        bool is_w() const;
    };

    e2_cref get_e2() const;
    e2_cref try_get_e2() const;
    typedef mfast::boolean_cref e3_cref;
    e3_cref get_e3() const;
    e3_cref try_get_e3() const;
    typedef mfast::boolean_cref e4_cref;
    e4_cref get_e4() const;
    e4_cref try_get_e4() const;

};


typedef mfast::make_aggregate_mref<Enums_cref> Enums_mref_base;
class Enums_mref
  : public Enums_mref_base
{
  typedef Enums_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Enums_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Enums_mref();
    template <typename T>
    Enums_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Enums_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Enums_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Enums_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    class e1_mref
      : public mfast::enum_mref_ex<e1_mref, e1_cref>
    {
      public:
        typedef  mfast::enum_mref_ex<e1_mref, e1_cref> base_type;
        typedef e1::element element_type;
        e1_mref(
          mfast::allocator*     alloc=nullptr,
          mfast::value_storage* storage=nullptr,
          instruction_cptr      instruction=nullptr);
        explicit e1_mref(const mfast::field_mref_base& other);

        void as_x() const;
        void as_y() const;
    };

    e1_mref set_e1() const;
    class e2_mref
      : public mfast::enum_mref_ex<e2_mref, e2_cref>
    {
      public:
        typedef  mfast::enum_mref_ex<e2_mref, e2_cref> base_type;
        typedef e2::element element_type;
        e2_mref(
          mfast::allocator*     alloc=nullptr,
          mfast::value_storage* storage=nullptr,
          instruction_cptr      instruction=nullptr);
        explicit e2_mref(const mfast::field_mref_base& other);

        void as_u() const;
        void as_w() const;
    };

    e2_mref set_e2() const;
    void  omit_e2() const;
    typedef mfast::boolean_mref e3_mref;
    e3_mref set_e3() const;
    typedef mfast::boolean_mref e4_mref;
    e4_mref set_e4() const;
    void  omit_e4() const;
};

class Enums
  : private mfast::value_storage_array<4>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 14
    };
    typedef mfast::template_instruction_ex<Enums_cref> instruction_type;

    typedef mfast::make_message_cref<Enums_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Enums_mref, instruction_type> mref_type;
    Enums(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Enums(
      const Enums_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Enums(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Enums(const Enums&);
    Enums& operator = (const Enums&);
};


class Leaf_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Leaf_cref();
    template <typename T>
    Leaf_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Leaf_cref(const mfast::message_cref& other);

    explicit Leaf_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_cref get_l1() const;
    mfast::uint32_cref try_get_l1() const;

};


typedef mfast::make_aggregate_mref<Leaf_cref> Leaf_mref_base;
class Leaf_mref
  : public Leaf_mref_base
{
  typedef Leaf_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Leaf_mref();
    template <typename T>
    Leaf_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Leaf_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Leaf_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_mref set_l1() const;
    void omit_l1() const;
};

class Leaf
  : private mfast::value_storage_array<1>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 15
    };
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;

    typedef mfast::make_message_cref<Leaf_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Leaf_mref, instruction_type> mref_type;
    Leaf(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Leaf(
      const Leaf_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Leaf(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Leaf(const Leaf&);
    Leaf& operator = (const Leaf&);
};


class Dyn_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Dyn_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Dyn_cref();
    template <typename T>
    Dyn_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Dyn_cref(const mfast::message_cref& other);

    explicit Dyn_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::nested_message_cref t1_cref;
    t1_cref get_t1() const;
    t1_cref try_get_t1() const;
    typedef mfast::make_sequence_cref<mfast::nested_message_cref, mfast::sole_element_sequence_trait> t2_cref;
    t2_cref get_t2() const;
    t2_cref try_get_t2() const;
    mfast::uint32_cref get_t3() const;
    mfast::uint32_cref try_get_t3() const;

};


typedef mfast::make_aggregate_mref<Dyn_cref> Dyn_mref_base;
class Dyn_mref
  : public Dyn_mref_base
{
  typedef Dyn_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Dyn_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Dyn_mref();
    template <typename T>
    Dyn_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Dyn_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Dyn_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::nested_message_mref t1_mref;
    t1_mref set_t1() const;
    void link_t1(const t1_mref& ref) const;
    void unlink_t1() const;
    typedef mfast::make_sequence_mref<mfast::nested_message_mref, mfast::sole_element_sequence_trait> t2_mref;
    t2_mref set_t2() const;
    void omit_t2() const;
    mfast::uint32_mref set_t3() const;
    void omit_t3() const;
};

class Dyn
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 16
    };
    typedef mfast::template_instruction_ex<Dyn_cref> instruction_type;

    typedef mfast::make_message_cref<Dyn_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Dyn_mref, instruction_type> mref_type;
    Dyn(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Dyn(
      const Dyn_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Dyn(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Dyn(const Dyn&);
    Dyn& operator = (const Dyn&);
};


class Tags_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Tags_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Tags_cref();
    template <typename T>
    Tags_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Tags_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Tags_cref(const mfast::message_cref& other);

    explicit Tags_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_cref get_i1() const;
    mfast::uint32_cref try_get_i1() const;
    mfast::uint32_cref get_i2() const;
    mfast::uint32_cref try_get_i2() const;

    class i3_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<i3_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        i3_cref();
        template <typename T>
        i3_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, i3_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit i3_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_i4() const;
        mfast::uint32_cref try_get_i4() const;
        mfast::uint32_cref get_i5() const;
        mfast::uint32_cref try_get_i5() const;
    };

    i3_cref get_i3() const;
    i3_cref try_get_i3() const;

    class i6_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<i6_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        i6_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_i7() const;
        mfast::uint32_cref try_get_i7() const;
    };

    typedef mfast::make_sequence_cref<i6_element_cref> i6_cref;
    i6_cref get_i6() const;
    i6_cref try_get_i6() const;

};


typedef mfast::make_aggregate_mref<Tags_cref> Tags_mref_base;
class Tags_mref
  : public Tags_mref_base
{
  typedef Tags_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Tags_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Tags_mref();
    template <typename T>
    Tags_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Tags_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Tags_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Tags_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_mref set_i1() const;
    mfast::uint32_mref set_i2() const;
    void omit_i2() const;

    class i3_mref
      : public mfast::make_aggregate_mref<Tags_cref::i3_cref>
    {
      typedef mfast::make_aggregate_mref<Tags_cref::i3_cref> base_type;
      public:
        i3_mref();
        template <typename T>
        i3_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, i3_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit i3_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_i4() const;
        void omit_i4() const;
        mfast::uint32_mref set_i5() const;
        void omit_i5() const;
    };

    i3_mref set_i3() const;

    class i6_element_mref
      : public mfast::make_aggregate_mref<Tags_cref::i6_element_cref>
    {
      typedef mfast::make_aggregate_mref<Tags_cref::i6_element_cref> base_type;
      public:
        i6_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_i7() const;
    };

    typedef mfast::make_sequence_mref<i6_element_mref> i6_mref;
    i6_mref set_i6() const;
};

class Tags
  : private mfast::value_storage_array<4>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 17
    };
    typedef mfast::template_instruction_ex<Tags_cref> instruction_type;

    typedef mfast::make_message_cref<Tags_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Tags_mref, instruction_type> mref_type;
    Tags(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Tags(
      const Tags_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Tags(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Tags(const Tags&);
    Tags& operator = (const Tags&);
};


class Nest_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Nest_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Nest_cref();
    template <typename T>
    Nest_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Nest_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Nest_cref(const mfast::message_cref& other);

    explicit Nest_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::make_sequence_cref<mfast::uint32_cref, mfast::sole_element_sequence_trait> z1_element_cref;
    typedef mfast::make_sequence_cref<z1_element_cref, mfast::sole_element_sequence_trait> z1_cref;
    z1_cref get_z1() const;
    z1_cref try_get_z1() const;

};


typedef mfast::make_aggregate_mref<Nest_cref> Nest_mref_base;
class Nest_mref
  : public Nest_mref_base
{
  typedef Nest_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Nest_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Nest_mref();
    template <typename T>
    Nest_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Nest_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Nest_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Nest_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    typedef mfast::make_sequence_mref<mfast::uint32_mref, mfast::sole_element_sequence_trait> z1_element_mref;
    typedef mfast::make_sequence_mref<z1_element_mref, mfast::sole_element_sequence_trait> z1_mref;
    z1_mref set_z1() const;
};

class Nest
  : private mfast::value_storage_array<1>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 18
    };
    typedef mfast::template_instruction_ex<Nest_cref> instruction_type;

    typedef mfast::make_message_cref<Nest_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Nest_mref, instruction_type> mref_type;
    Nest(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Nest(
      const Nest_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Nest(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Nest(const Nest&);
    Nest& operator = (const Nest&);
};


struct  templates_description
  : mfast::templates_description
{
  typedef std::tuple<Ints,
                       Dec,
                       Str,
                       Uni,
                       Bytes,
                       Raw,
                       Vec1,
                       Vec2,
                       Grp,
                       Seq,
                       SeqSeq,
                       Plain,
                       PlainStr,
                       Enums,
                       Leaf,
                       Dyn,
                       Tags,
                       Nest> types;
  templates_description();
  static const templates_description* instance();
};

inline const templates_description* description()
{
  return templates_description::instance();
}

#include "json.inl"
}
