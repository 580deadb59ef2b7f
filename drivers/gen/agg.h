// agg.h generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

#pragma once

#include <mfast.h>
namespace agg
{

class Rec_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::group_instruction_ex<Rec_cref> instruction_type;

    typedef const instruction_type* instruction_cptr;
    Rec_cref();
    template <typename T>
    Rec_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Rec_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    explicit Rec_cref(const mfast::field_cref& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_cref get_ra() const;
    mfast::uint32_cref try_get_ra() const;
    mfast::ascii_string_cref get_rb() const;
    mfast::ascii_string_cref try_get_rb() const;
};


class Rec_mref
  : public mfast::make_aggregate_mref<Rec_cref>
{
  typedef mfast::make_aggregate_mref<Rec_cref> base_type;
  public:
    Rec_mref();
    template <typename T>
    Rec_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Rec_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    explicit Rec_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_mref set_ra() const;
    mfast::ascii_string_mref set_rb() const;
};

class Rec
  : private std::array<mfast::value_storage, 2>
  , public mfast::group_type
{
  private:
    typedef  std::array<mfast::value_storage, 2> base_array;
    typedef mfast::group_type base_type;
  public:
    typedef mfast::group_instruction_ex<Rec_cref> instruction_type;

    typedef Rec_cref cref_type;
    typedef Rec_mref mref_type;
    Rec(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Rec(
      const Rec_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();

    Rec(Rec&&) BOOST_NOEXCEPT;
    Rec(const Rec&);
    Rec& operator = (Rec&&) BOOST_NOEXCEPT;
    Rec& operator = (const Rec&);
};


class Recs_element_cref
  : public mfast::sequence_element_cref
{
  typedef mfast::sequence_element_cref base_type;
  public:
    typedef mfast::sequence_instruction_ex<Recs_element_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Recs_element_cref(
      const mfast::value_storage* storage,
      instruction_cptr            instruction);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_cref get_sa() const;
    mfast::uint32_cref try_get_sa() const;
    mfast::ascii_string_cref get_sb() const;
    mfast::ascii_string_cref try_get_sb() const;
};

typedef mfast::make_sequence_cref<Recs_element_cref> Recs_cref;

class Recs_element_mref
  : public mfast::make_aggregate_mref<Recs_element_cref>
{
  typedef mfast::make_aggregate_mref<Recs_element_cref> base_type;
  public:
    Recs_element_mref(
      mfast::allocator*     alloc,
      mfast::value_storage* storage,
      instruction_cptr      instruction);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_mref set_sa() const;
    mfast::ascii_string_mref set_sb() const;
};

typedef mfast::make_sequence_mref<Recs_element_mref> Recs_mref;
class Recs
  : public mfast::sequence_type
{
  typedef mfast::sequence_type base_type;
  public:
    typedef Recs_cref::instruction_type instruction_type;

    typedef Recs_cref cref_type;
    typedef Recs_mref mref_type;
    Recs(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Recs(
      const Recs_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Recs(const Recs&);
    Recs& operator = (const Recs&);
};


class Leaf_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Leaf_cref();
    template <typename T>
    Leaf_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Leaf_cref(const mfast::message_cref& other);

    explicit Leaf_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_cref get_la() const;
    mfast::uint32_cref try_get_la() const;
    mfast::ascii_string_cref get_lb() const;
    mfast::ascii_string_cref try_get_lb() const;

};


typedef mfast::make_aggregate_mref<Leaf_cref> Leaf_mref_base;
class Leaf_mref
  : public Leaf_mref_base
{
  typedef Leaf_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Leaf_mref();
    template <typename T>
    Leaf_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Leaf_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Leaf_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint32_mref set_la() const;
    mfast::ascii_string_mref set_lb() const;
};

class Leaf
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 1
    };
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;

    typedef mfast::make_message_cref<Leaf_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Leaf_mref, instruction_type> mref_type;
    Leaf(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Leaf(
      const Leaf_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Leaf(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Leaf(const Leaf&);
    Leaf& operator = (const Leaf&);
};


class Other_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Other_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Other_cref();
    template <typename T>
    Other_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Other_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Other_cref(const mfast::message_cref& other);

    explicit Other_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::ascii_string_cref get_oa() const;
    mfast::ascii_string_cref try_get_oa() const;
    mfast::uint32_cref get_ob() const;
    mfast::uint32_cref try_get_ob() const;

};


typedef mfast::make_aggregate_mref<Other_cref> Other_mref_base;
class Other_mref
  : public Other_mref_base
{
  typedef Other_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Other_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Other_mref();
    template <typename T>
    Other_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Other_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Other_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Other_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::ascii_string_mref set_oa() const;
    void omit_oa() const;
    mfast::uint32_mref set_ob() const;
};

class Other
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 3
    };
    typedef mfast::template_instruction_ex<Other_cref> instruction_type;

    typedef mfast::make_message_cref<Other_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Other_mref, instruction_type> mref_type;
    Other(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Other(
      const Other_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Other(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Other(const Other&);
    Other& operator = (const Other&);
};


class All_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<All_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    All_cref();
    template <typename T>
    All_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, All_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    All_cref(const mfast::message_cref& other);

    explicit All_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class inl_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<inl_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        inl_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_ia() const;
        mfast::uint32_cref try_get_ia() const;
        mfast::ascii_string_cref get_ib() const;
        mfast::ascii_string_cref try_get_ib() const;
    };

    typedef mfast::make_sequence_cref<inl_element_cref> inl_cref;
    inl_cref get_inl() const;
    inl_cref try_get_inl() const;
    typedef mfast::make_sequence_cref<Leaf_cref, mfast::defined_element_sequence_trait> ref_cref;
    ref_cref get_ref() const;
    ref_cref try_get_ref() const;
    typedef mfast::make_sequence_cref<Rec_cref, mfast::defined_element_sequence_trait> def_cref;
    def_cref get_def() const;
    def_cref try_get_def() const;
    typedef mfast::make_sequence_cref<mfast::uint32_cref, mfast::sole_element_sequence_trait> sol_cref;
    sol_cref get_sol() const;
    sol_cref try_get_sol() const;

    class opt_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<opt_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        opt_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_pa() const;
        mfast::uint32_cref try_get_pa() const;

        class pb_element_cref
          : public mfast::sequence_element_cref
        {
          typedef mfast::sequence_element_cref base_type;
          public:
            typedef mfast::sequence_instruction_ex<pb_element_cref> instruction_type;
            typedef const instruction_type* instruction_cptr;
            pb_element_cref(
              const mfast::value_storage* storage,
              instruction_cptr            instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::ascii_string_cref get_pc() const;
            mfast::ascii_string_cref try_get_pc() const;
        };

        typedef mfast::make_sequence_cref<pb_element_cref> pb_cref;
        pb_cref get_pb() const;
        pb_cref try_get_pb() const;
    };

    typedef mfast::make_sequence_cref<opt_element_cref> opt_cref;
    opt_cref get_opt() const;
    opt_cref try_get_opt() const;

    class man_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<man_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        man_cref();
        template <typename T>
        man_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, man_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit man_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_ma() const;
        mfast::uint32_cref try_get_ma() const;
        mfast::ascii_string_cref get_mb() const;
        mfast::ascii_string_cref try_get_mb() const;
    };

    man_cref get_man() const;
    man_cref try_get_man() const;

    class may_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<may_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        may_cref();
        template <typename T>
        may_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, may_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit may_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_cref get_na() const;
        mfast::uint32_cref try_get_na() const;
        mfast::ascii_string_cref get_nb() const;
        mfast::ascii_string_cref try_get_nb() const;
    };

    may_cref get_may() const;
    may_cref try_get_may() const;
    typedef Recs_cref typ_cref;
    typ_cref get_typ() const;
    typ_cref try_get_typ() const;
    mfast::nested_message_cref get_nested_message8() const;
    mfast::nested_message_cref try_get_nested_message8() const;

};


typedef mfast::make_aggregate_mref<All_cref> All_mref_base;
class All_mref
  : public All_mref_base
{
  typedef All_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<All_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    All_mref();
    template <typename T>
    All_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, All_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    All_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit All_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class inl_element_mref
      : public mfast::make_aggregate_mref<All_cref::inl_element_cref>
    {
      typedef mfast::make_aggregate_mref<All_cref::inl_element_cref> base_type;
      public:
        inl_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_ia() const;
        mfast::ascii_string_mref set_ib() const;
    };

    typedef mfast::make_sequence_mref<inl_element_mref> inl_mref;
    inl_mref set_inl() const;
    typedef mfast::make_sequence_mref<Leaf_mref, mfast::defined_element_sequence_trait> ref_mref;
    ref_mref set_ref() const;
    typedef mfast::make_sequence_mref<Rec_mref, mfast::defined_element_sequence_trait> def_mref;
    def_mref set_def() const;
    typedef mfast::make_sequence_mref<mfast::uint32_mref, mfast::sole_element_sequence_trait> sol_mref;
    sol_mref set_sol() const;

    class opt_element_mref
      : public mfast::make_aggregate_mref<All_cref::opt_element_cref>
    {
      typedef mfast::make_aggregate_mref<All_cref::opt_element_cref> base_type;
      public:
        opt_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_pa() const;

        class pb_element_mref
          : public mfast::make_aggregate_mref<All_cref::opt_element_cref::pb_element_cref>
        {
          typedef mfast::make_aggregate_mref<All_cref::opt_element_cref::pb_element_cref> base_type;
          public:
            pb_element_mref(
              mfast::allocator*     alloc,
              mfast::value_storage* storage,
              instruction_cptr      instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::ascii_string_mref set_pc() const;
        };

        typedef mfast::make_sequence_mref<pb_element_mref> pb_mref;
        pb_mref set_pb() const;
    };

    typedef mfast::make_sequence_mref<opt_element_mref> opt_mref;
    opt_mref set_opt() const;
    void omit_opt() const;

    class man_mref
      : public mfast::make_aggregate_mref<All_cref::man_cref>
    {
      typedef mfast::make_aggregate_mref<All_cref::man_cref> base_type;
      public:
        man_mref();
        template <typename T>
        man_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, man_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit man_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_ma() const;
        mfast::ascii_string_mref set_mb() const;
    };

    man_mref set_man() const;

    class may_mref
      : public mfast::make_aggregate_mref<All_cref::may_cref>
    {
      typedef mfast::make_aggregate_mref<All_cref::may_cref> base_type;
      public:
        may_mref();
        template <typename T>
        may_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, may_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit may_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::uint32_mref set_na() const;
        mfast::ascii_string_mref set_nb() const;
    };

    may_mref set_may() const;
    void omit_may() const;
    typedef Recs_mref typ_mref;
    typ_mref set_typ() const;
    mfast::nested_message_mref set_nested_message8() const;
};

class All
  : private mfast::value_storage_array<9>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 2
    };
    typedef mfast::template_instruction_ex<All_cref> instruction_type;

    typedef mfast::make_message_cref<All_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<All_mref, instruction_type> mref_type;
    All(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    All(
      const All_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit All(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    All(const All&);
    All& operator = (const All&);
};


class Kinds_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Kinds_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Kinds_cref();
    template <typename T>
    Kinds_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Kinds_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Kinds_cref(const mfast::message_cref& other);

    explicit Kinds_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int32_cref get_mint32() const;
    mfast::int32_cref try_get_mint32() const;
    mfast::int32_cref get_oint32() const;
    mfast::int32_cref try_get_oint32() const;
    mfast::uint32_cref get_muInt32() const;
    mfast::uint32_cref try_get_muInt32() const;
    mfast::uint32_cref get_ouInt32() const;
    mfast::uint32_cref try_get_ouInt32() const;
    mfast::int64_cref get_mint64() const;
    mfast::int64_cref try_get_mint64() const;
    mfast::int64_cref get_oint64() const;
    mfast::int64_cref try_get_oint64() const;
    mfast::uint64_cref get_muInt64() const;
    mfast::uint64_cref try_get_muInt64() const;
    mfast::uint64_cref get_ouInt64() const;
    mfast::uint64_cref try_get_ouInt64() const;
    mfast::decimal_cref get_mdecimal() const;
    mfast::decimal_cref try_get_mdecimal() const;
    mfast::decimal_cref get_odecimal() const;
    mfast::decimal_cref try_get_odecimal() const;
    mfast::ascii_string_cref get_mstring() const;
    mfast::ascii_string_cref try_get_mstring() const;
    mfast::ascii_string_cref get_ostring() const;
    mfast::ascii_string_cref try_get_ostring() const;
    mfast::unicode_string_cref get_municode() const;
    mfast::unicode_string_cref try_get_municode() const;
    mfast::unicode_string_cref get_ounicode() const;
    mfast::unicode_string_cref try_get_ounicode() const;
    mfast::byte_vector_cref get_mbyteVector() const;
    mfast::byte_vector_cref try_get_mbyteVector() const;
    mfast::byte_vector_cref get_obyteVector() const;
    mfast::byte_vector_cref try_get_obyteVector() const;
    mfast::int32_vector_cref get_mint32Vector() const;
    mfast::int32_vector_cref try_get_mint32Vector() const;
    mfast::int32_vector_cref get_oint32Vector() const;
    mfast::int32_vector_cref try_get_oint32Vector() const;
    mfast::uint32_vector_cref get_muInt32Vector() const;
    mfast::uint32_vector_cref try_get_muInt32Vector() const;
    mfast::uint32_vector_cref get_ouInt32Vector() const;
    mfast::uint32_vector_cref try_get_ouInt32Vector() const;
    mfast::int64_vector_cref get_mint64Vector() const;
    mfast::int64_vector_cref try_get_mint64Vector() const;
    mfast::int64_vector_cref get_oint64Vector() const;
    mfast::int64_vector_cref try_get_oint64Vector() const;
    mfast::uint64_vector_cref get_muInt64Vector() const;
    mfast::uint64_vector_cref try_get_muInt64Vector() const;
    mfast::uint64_vector_cref get_ouInt64Vector() const;
    mfast::uint64_vector_cref try_get_ouInt64Vector() const;
    struct menum
    {
      enum element {
        One,
        Two,
        Three
      };
      typedef mfast::enum_field_instruction_ex<menum> instruction_type;
      static const instruction_type* instruction();
    };

    class menum_cref
      : public mfast::enum_cref_ex<menum_cref, menum>
    {
      public:
        typedef mfast::enum_cref_ex<menum_cref, menum> base_type;
        typedef menum::element element_type;
        typedef menum::instruction_type instruction_type;
        menum_cref(
          const mfast::value_storage* storage=nullptr,
          instruction_cptr            instruction=nullptr);

        explicit menum_cref(const field_cref& other);

        element_type value() const;

        bool is_One() const;
        bool is_Two() const;
        bool is_Three() const;
    };

    menum_cref get_menum() const;
    menum_cref try_get_menum() const;
    struct oenum
    {
      enum element {
        One,
        Two,
        Three
      };
      typedef mfast::enum_field_instruction_ex<oenum> instruction_type;
      static const instruction_type* instruction();
    };

    class oenum_cref
      : public mfast::enum_cref_ex<oenum_cref, oenum>
    {
      public:
        typedef mfast::enum_cref_ex<oenum_cref, oenum> base_type;
        typedef oenum::element element_type;
        typedef oenum::instruction_type instruction_type;
        oenum_cref(
          const mfast::value_storage* storage=nullptr,
          instruction_cptr            instruction=nullptr);

        explicit oenum_cref(const field_cref& other);

        element_type value() const;

        bool is_One() const;
        bool is_Two() const;
        bool is_Three() const;
    };

    oenum_cref get_oenum() const;
    oenum_cref try_get_oenum() const;

};


typedef mfast::make_aggregate_mref<Kinds_cref> Kinds_mref_base;
class Kinds_mref
  : public Kinds_mref_base
{
  typedef Kinds_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Kinds_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Kinds_mref();
    template <typename T>
    Kinds_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Kinds_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Kinds_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Kinds_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int32_mref set_mint32() const;
    mfast::int32_mref set_oint32() const;
    void omit_oint32() const;
    mfast::uint32_mref set_muInt32() const;
    mfast::uint32_mref set_ouInt32() const;
    void omit_ouInt32() const;
    mfast::int64_mref set_mint64() const;
    mfast::int64_mref set_oint64() const;
    void omit_oint64() const;
    mfast::uint64_mref set_muInt64() const;
    mfast::uint64_mref set_ouInt64() const;
    void omit_ouInt64() const;
    mfast::decimal_mref set_mdecimal() const;
    mfast::decimal_mref set_odecimal() const;
    void omit_odecimal() const;
    mfast::ascii_string_mref set_mstring() const;
    mfast::ascii_string_mref set_ostring() const;
    void omit_ostring() const;
    mfast::unicode_string_mref set_municode() const;
    mfast::unicode_string_mref set_ounicode() const;
    void omit_ounicode() const;
    mfast::byte_vector_mref set_mbyteVector() const;
    mfast::byte_vector_mref set_obyteVector() const;
    void omit_obyteVector() const;
    mfast::int32_vector_mref set_mint32Vector() const;
    mfast::int32_vector_mref set_oint32Vector() const;
    void omit_oint32Vector() const;
    mfast::uint32_vector_mref set_muInt32Vector() const;
    mfast::uint32_vector_mref set_ouInt32Vector() const;
    void omit_ouInt32Vector() const;
    mfast::int64_vector_mref set_mint64Vector() const;
    mfast::int64_vector_mref set_oint64Vector() const;
    void omit_oint64Vector() const;
    mfast::uint64_vector_mref set_muInt64Vector() const;
    mfast::uint64_vector_mref set_ouInt64Vector() const;
    void omit_ouInt64Vector() const;
    class menum_mref
      : public mfast::enum_mref_ex<menum_mref, menum_cref>
    {
      public:
        typedef  mfast::enum_mref_ex<menum_mref, menum_cref> base_type;
        typedef menum::element element_type;
        menum_mref(
          mfast::allocator*     alloc=nullptr,
          mfast::value_storage* storage=nullptr,
          instruction_cptr      instruction=nullptr);
        explicit menum_mref(const mfast::field_mref_base& other);

        void as_One() const;
        void as_Two() const;
        void as_Three() const;
    };

    menum_mref set_menum() const;
    class oenum_mref
      : public mfast::enum_mref_ex<oenum_mref, oenum_cref>
    {
      public:
        typedef  mfast::enum_mref_ex<oenum_mref, oenum_cref> base_type;
        typedef oenum::element element_type;
        oenum_mref(
          mfast::allocator*     alloc=nullptr,
          mfast::value_storage* storage=nullptr,
          instruction_cptr      instruction=nullptr);
        explicit oenum_mref(const mfast::field_mref_base& other);

        void as_One() const;
        void as_Two() const;
        void as_Three() const;
    };

    oenum_mref set_oenum() const;
    void  omit_oenum() const;
};

class Kinds
  : private mfast::value_storage_array<26>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 4
    };
    typedef mfast::template_instruction_ex<Kinds_cref> instruction_type;

    typedef mfast::make_message_cref<Kinds_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Kinds_mref, instruction_type> mref_type;
    Kinds(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Kinds(
      const Kinds_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Kinds(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Kinds(const Kinds&);
    Kinds& operator = (const Kinds&);
};


class Linked_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Linked_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Linked_cref();
    template <typename T>
    Linked_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Linked_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Linked_cref(const mfast::message_cref& other);

    explicit Linked_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    typedef Rec_cref one_cref;
    one_cref get_one() const;
    one_cref try_get_one() const;
    typedef Rec_cref two_cref;
    two_cref get_two() const;
    two_cref try_get_two() const;
    mfast::uint32_cref get_three() const;
    mfast::uint32_cref try_get_three() const;

};


typedef mfast::make_aggregate_mref<Linked_cref> Linked_mref_base;
class Linked_mref
  : public Linked_mref_base
{
  typedef Linked_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Linked_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Linked_mref();
    template <typename T>
    Linked_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Linked_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Linked_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Linked_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    typedef Rec_mref one_mref;
    one_mref set_one() const;
    void link_one(const one_mref& ref) const;
    void unlink_one() const;
    typedef Rec_mref two_mref;
    two_mref set_two() const;
    void omit_two() const;
    void link_two(const two_mref& ref) const;
    void unlink_two() const;
    mfast::uint32_mref set_three() const;
};

class Linked
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 5
    };
    typedef mfast::template_instruction_ex<Linked_cref> instruction_type;

    typedef mfast::make_message_cref<Linked_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Linked_mref, instruction_type> mref_type;
    Linked(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Linked(
      const Linked_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Linked(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Linked(const Linked&);
    Linked& operator = (const Linked&);
};


struct  templates_description
  : mfast::templates_description
{
  typedef std::tuple<Leaf,
                       Other,
                       All,
                       Kinds,
                       Linked> types;
  templates_description();
  static const templates_description* instance();
};

inline const templates_description* description()
{
  return templates_description::instance();
}

#include "agg.inl"
}
