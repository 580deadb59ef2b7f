// shapes.h generated by mFAST from FAST Template. 
// Do not modify this file directly. Any modifications 
// will be lost the next time this file is generated.

#pragma once

#include <mfast.h>
namespace shapes
{

class Leaf_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Leaf_cref();
    template <typename T>
    Leaf_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Leaf_cref(const mfast::message_cref& other);

    explicit Leaf_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_cref get_lelplain() const;
    mfast::int64_cref try_get_lelplain() const;
    mfast::int64_cref get_lelcopy() const;
    mfast::int64_cref try_get_lelcopy() const;

};


typedef mfast::make_aggregate_mref<Leaf_cref> Leaf_mref_base;
class Leaf_mref
  : public Leaf_mref_base
{
  typedef Leaf_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Leaf_mref();
    template <typename T>
    Leaf_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Leaf_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Leaf_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Leaf_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_mref set_lelplain() const;
    mfast::int64_mref set_lelcopy() const;
};

class Leaf
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 21
    };
    typedef mfast::template_instruction_ex<Leaf_cref> instruction_type;

    typedef mfast::make_message_cref<Leaf_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Leaf_mref, instruction_type> mref_type;
    Leaf(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Leaf(
      const Leaf_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Leaf(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Leaf(const Leaf&);
    Leaf& operator = (const Leaf&);
};


class Bare_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Bare_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Bare_cref();
    template <typename T>
    Bare_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Bare_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Bare_cref(const mfast::message_cref& other);

    explicit Bare_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint64_cref get_babplain() const;
    mfast::uint64_cref try_get_babplain() const;

};


typedef mfast::make_aggregate_mref<Bare_cref> Bare_mref_base;
class Bare_mref
  : public Bare_mref_base
{
  typedef Bare_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Bare_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Bare_mref();
    template <typename T>
    Bare_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Bare_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Bare_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Bare_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::uint64_mref set_babplain() const;
};

class Bare
  : private mfast::value_storage_array<1>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 22
    };
    typedef mfast::template_instruction_ex<Bare_cref> instruction_type;

    typedef mfast::make_message_cref<Bare_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Bare_mref, instruction_type> mref_type;
    Bare(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Bare(
      const Bare_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Bare(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Bare(const Bare&);
    Bare& operator = (const Bare&);
};


class Boxed_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Boxed_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Boxed_cref();
    template <typename T>
    Boxed_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Boxed_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Boxed_cref(const mfast::message_cref& other);

    explicit Boxed_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class xgroup_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<xgroup_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        xgroup_cref();
        template <typename T>
        xgroup_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, xgroup_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit xgroup_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_xg() const;
        mfast::int64_cref try_get_xg() const;
    };

    xgroup_cref get_xgroup() const;
    xgroup_cref try_get_xgroup() const;

    class xopt_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<xopt_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        xopt_cref();
        template <typename T>
        xopt_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, xopt_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit xopt_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_xo() const;
        mfast::int64_cref try_get_xo() const;
    };

    xopt_cref get_xopt() const;
    xopt_cref try_get_xopt() const;

    class xseq_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<xseq_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        xseq_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_xe() const;
        mfast::int64_cref try_get_xe() const;
    };

    typedef mfast::make_sequence_cref<xseq_element_cref> xseq_cref;
    xseq_cref get_xseq() const;
    xseq_cref try_get_xseq() const;
    mfast::ascii_string_cref get_xstr() const;
    mfast::ascii_string_cref try_get_xstr() const;

};


typedef mfast::make_aggregate_mref<Boxed_cref> Boxed_mref_base;
class Boxed_mref
  : public Boxed_mref_base
{
  typedef Boxed_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Boxed_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Boxed_mref();
    template <typename T>
    Boxed_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Boxed_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Boxed_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Boxed_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class xgroup_mref
      : public mfast::make_aggregate_mref<Boxed_cref::xgroup_cref>
    {
      typedef mfast::make_aggregate_mref<Boxed_cref::xgroup_cref> base_type;
      public:
        xgroup_mref();
        template <typename T>
        xgroup_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, xgroup_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit xgroup_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_xg() const;
    };

    xgroup_mref set_xgroup() const;

    class xopt_mref
      : public mfast::make_aggregate_mref<Boxed_cref::xopt_cref>
    {
      typedef mfast::make_aggregate_mref<Boxed_cref::xopt_cref> base_type;
      public:
        xopt_mref();
        template <typename T>
        xopt_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, xopt_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit xopt_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_xo() const;
    };

    xopt_mref set_xopt() const;
    void omit_xopt() const;

    class xseq_element_mref
      : public mfast::make_aggregate_mref<Boxed_cref::xseq_element_cref>
    {
      typedef mfast::make_aggregate_mref<Boxed_cref::xseq_element_cref> base_type;
      public:
        xseq_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_xe() const;
    };

    typedef mfast::make_sequence_mref<xseq_element_mref> xseq_mref;
    xseq_mref set_xseq() const;
    mfast::ascii_string_mref set_xstr() const;
    void omit_xstr() const;
};

class Boxed
  : private mfast::value_storage_array<4>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 23
    };
    typedef mfast::template_instruction_ex<Boxed_cref> instruction_type;

    typedef mfast::make_message_cref<Boxed_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Boxed_mref, instruction_type> mref_type;
    Boxed(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Boxed(
      const Boxed_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Boxed(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Boxed(const Boxed&);
    Boxed& operator = (const Boxed&);
};


class Groups_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Groups_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Groups_cref();
    template <typename T>
    Groups_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Groups_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Groups_cref(const mfast::message_cref& other);

    explicit Groups_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_cref get_grfirst() const;
    mfast::int64_cref try_get_grfirst() const;

    class grmnone_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<grmnone_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        grmnone_cref();
        template <typename T>
        grmnone_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, grmnone_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit grmnone_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_gra() const;
        mfast::int64_cref try_get_gra() const;
    };

    grmnone_cref get_grmnone() const;
    grmnone_cref try_get_grmnone() const;

    class grmmap_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<grmmap_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        grmmap_cref();
        template <typename T>
        grmmap_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, grmmap_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit grmmap_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_grb() const;
        mfast::int64_cref try_get_grb() const;
    };

    grmmap_cref get_grmmap() const;
    grmmap_cref try_get_grmmap() const;

    class gronone_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<gronone_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        gronone_cref();
        template <typename T>
        gronone_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, gronone_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit gronone_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_grc() const;
        mfast::int64_cref try_get_grc() const;
    };

    gronone_cref get_gronone() const;
    gronone_cref try_get_gronone() const;

    class gromap_cref
      : public mfast::aggregate_cref
    {
      typedef mfast::aggregate_cref base_type;
      public:
        typedef mfast::group_instruction_ex<gromap_cref> instruction_type;

        typedef const instruction_type* instruction_cptr;
        gromap_cref();
        template <typename T>
        gromap_cref(
          typename std::enable_if<std::is_same<typename T::cref_type, gromap_cref>::value, const mfast::value_storage*>::type storage,
          const T* instruction);

        explicit gromap_cref(const mfast::field_cref& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_grd() const;
        mfast::int64_cref try_get_grd() const;

        class grinner_cref
          : public mfast::aggregate_cref
        {
          typedef mfast::aggregate_cref base_type;
          public:
            typedef mfast::group_instruction_ex<grinner_cref> instruction_type;

            typedef const instruction_type* instruction_cptr;
            grinner_cref();
            template <typename T>
            grinner_cref(
              typename std::enable_if<std::is_same<typename T::cref_type, grinner_cref>::value, const mfast::value_storage*>::type storage,
              const T* instruction);

            explicit grinner_cref(const mfast::field_cref& other);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::int64_cref get_gre() const;
            mfast::int64_cref try_get_gre() const;
        };

        grinner_cref get_grinner() const;
        grinner_cref try_get_grinner() const;
        mfast::uint64_cref get_grf() const;
        mfast::uint64_cref try_get_grf() const;
    };

    gromap_cref get_gromap() const;
    gromap_cref try_get_gromap() const;
    mfast::uint64_cref get_grlast() const;
    mfast::uint64_cref try_get_grlast() const;

};


typedef mfast::make_aggregate_mref<Groups_cref> Groups_mref_base;
class Groups_mref
  : public Groups_mref_base
{
  typedef Groups_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Groups_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Groups_mref();
    template <typename T>
    Groups_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Groups_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Groups_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Groups_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_mref set_grfirst() const;
    void omit_grfirst() const;

    class grmnone_mref
      : public mfast::make_aggregate_mref<Groups_cref::grmnone_cref>
    {
      typedef mfast::make_aggregate_mref<Groups_cref::grmnone_cref> base_type;
      public:
        grmnone_mref();
        template <typename T>
        grmnone_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, grmnone_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit grmnone_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_gra() const;
    };

    grmnone_mref set_grmnone() const;

    class grmmap_mref
      : public mfast::make_aggregate_mref<Groups_cref::grmmap_cref>
    {
      typedef mfast::make_aggregate_mref<Groups_cref::grmmap_cref> base_type;
      public:
        grmmap_mref();
        template <typename T>
        grmmap_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, grmmap_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit grmmap_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_grb() const;
    };

    grmmap_mref set_grmmap() const;

    class gronone_mref
      : public mfast::make_aggregate_mref<Groups_cref::gronone_cref>
    {
      typedef mfast::make_aggregate_mref<Groups_cref::gronone_cref> base_type;
      public:
        gronone_mref();
        template <typename T>
        gronone_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, gronone_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit gronone_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_grc() const;
    };

    gronone_mref set_gronone() const;
    void omit_gronone() const;

    class gromap_mref
      : public mfast::make_aggregate_mref<Groups_cref::gromap_cref>
    {
      typedef mfast::make_aggregate_mref<Groups_cref::gromap_cref> base_type;
      public:
        gromap_mref();
        template <typename T>
        gromap_mref(
          mfast::allocator*       alloc,
          typename std::enable_if<std::is_same<typename T::cref_type, gromap_cref>::value, mfast::value_storage*>::type   storage,
          const T* instruction);

        explicit gromap_mref(const mfast::field_mref_base& other);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_grd() const;
        void omit_grd() const;

        class grinner_mref
          : public mfast::make_aggregate_mref<Groups_cref::gromap_cref::grinner_cref>
        {
          typedef mfast::make_aggregate_mref<Groups_cref::gromap_cref::grinner_cref> base_type;
          public:
            grinner_mref();
            template <typename T>
            grinner_mref(
              mfast::allocator*       alloc,
              typename std::enable_if<std::is_same<typename T::cref_type, grinner_cref>::value, mfast::value_storage*>::type   storage,
              const T* instruction);

            explicit grinner_mref(const mfast::field_mref_base& other);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::int64_mref set_gre() const;
        };

        grinner_mref set_grinner() const;
        void omit_grinner() const;
        void omit_grf() const;
    };

    gromap_mref set_gromap() const;
    void omit_gromap() const;
    mfast::uint64_mref set_grlast() const;
};

class Groups
  : private mfast::value_storage_array<6>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 1
    };
    typedef mfast::template_instruction_ex<Groups_cref> instruction_type;

    typedef mfast::make_message_cref<Groups_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Groups_mref, instruction_type> mref_type;
    Groups(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Groups(
      const Groups_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Groups(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Groups(const Groups&);
    Groups& operator = (const Groups&);
};


class Seqs_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Seqs_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Seqs_cref();
    template <typename T>
    Seqs_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Seqs_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Seqs_cref(const mfast::message_cref& other);

    explicit Seqs_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class ses_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<ses_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        ses_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_sea() const;
        mfast::int64_cref try_get_sea() const;
    };

    typedef mfast::make_sequence_cref<ses_element_cref> ses_cref;
    ses_cref get_ses() const;
    ses_cref try_get_ses() const;

    class sem_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<sem_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        sem_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_seb() const;
        mfast::int64_cref try_get_seb() const;
        mfast::uint64_cref get_sek() const;
        mfast::uint64_cref try_get_sek() const;

        class sein_element_cref
          : public mfast::sequence_element_cref
        {
          typedef mfast::sequence_element_cref base_type;
          public:
            typedef mfast::sequence_instruction_ex<sein_element_cref> instruction_type;
            typedef const instruction_type* instruction_cptr;
            sein_element_cref(
              const mfast::value_storage* storage,
              instruction_cptr            instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::int64_cref get_sec() const;
            mfast::int64_cref try_get_sec() const;
        };

        typedef mfast::make_sequence_cref<sein_element_cref> sein_cref;
        sein_cref get_sein() const;
        sein_cref try_get_sein() const;
    };

    typedef mfast::make_sequence_cref<sem_element_cref> sem_cref;
    sem_cref get_sem() const;
    sem_cref try_get_sem() const;
    mfast::int64_cref get_selast() const;
    mfast::int64_cref try_get_selast() const;

};


typedef mfast::make_aggregate_mref<Seqs_cref> Seqs_mref_base;
class Seqs_mref
  : public Seqs_mref_base
{
  typedef Seqs_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Seqs_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Seqs_mref();
    template <typename T>
    Seqs_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Seqs_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Seqs_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Seqs_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class ses_element_mref
      : public mfast::make_aggregate_mref<Seqs_cref::ses_element_cref>
    {
      typedef mfast::make_aggregate_mref<Seqs_cref::ses_element_cref> base_type;
      public:
        ses_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_sea() const;
    };

    typedef mfast::make_sequence_mref<ses_element_mref> ses_mref;
    ses_mref set_ses() const;

    class sem_element_mref
      : public mfast::make_aggregate_mref<Seqs_cref::sem_element_cref>
    {
      typedef mfast::make_aggregate_mref<Seqs_cref::sem_element_cref> base_type;
      public:
        sem_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_seb() const;

        class sein_element_mref
          : public mfast::make_aggregate_mref<Seqs_cref::sem_element_cref::sein_element_cref>
        {
          typedef mfast::make_aggregate_mref<Seqs_cref::sem_element_cref::sein_element_cref> base_type;
          public:
            sein_element_mref(
              mfast::allocator*     alloc,
              mfast::value_storage* storage,
              instruction_cptr      instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::int64_mref set_sec() const;
        };

        typedef mfast::make_sequence_mref<sein_element_mref> sein_mref;
        sein_mref set_sein() const;
    };

    typedef mfast::make_sequence_mref<sem_element_mref> sem_mref;
    sem_mref set_sem() const;
    void omit_sem() const;
    mfast::int64_mref set_selast() const;
};

class Seqs
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 2
    };
    typedef mfast::template_instruction_ex<Seqs_cref> instruction_type;

    typedef mfast::make_message_cref<Seqs_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Seqs_mref, instruction_type> mref_type;
    Seqs(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Seqs(
      const Seqs_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Seqs(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Seqs(const Seqs&);
    Seqs& operator = (const Seqs&);
};


class LenOps_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<LenOps_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    LenOps_cref();
    template <typename T>
    LenOps_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, LenOps_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    LenOps_cref(const mfast::message_cref& other);

    explicit LenOps_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class lex_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<lex_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        lex_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_lea() const;
        mfast::int64_cref try_get_lea() const;
    };

    typedef mfast::make_sequence_cref<lex_element_cref> lex_cref;
    lex_cref get_lex() const;
    lex_cref try_get_lex() const;

    class ley_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<ley_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        ley_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_leb() const;
        mfast::int64_cref try_get_leb() const;
    };

    typedef mfast::make_sequence_cref<ley_element_cref> ley_cref;
    ley_cref get_ley() const;
    ley_cref try_get_ley() const;

    class lez_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<lez_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        lez_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_lec() const;
        mfast::int64_cref try_get_lec() const;
    };

    typedef mfast::make_sequence_cref<lez_element_cref> lez_cref;
    lez_cref get_lez() const;
    lez_cref try_get_lez() const;

    class lew_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<lew_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        lew_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_led() const;
        mfast::int64_cref try_get_led() const;
    };

    typedef mfast::make_sequence_cref<lew_element_cref> lew_cref;
    lew_cref get_lew() const;
    lew_cref try_get_lew() const;

};


typedef mfast::make_aggregate_mref<LenOps_cref> LenOps_mref_base;
class LenOps_mref
  : public LenOps_mref_base
{
  typedef LenOps_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<LenOps_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    LenOps_mref();
    template <typename T>
    LenOps_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, LenOps_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    LenOps_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit LenOps_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class lex_element_mref
      : public mfast::make_aggregate_mref<LenOps_cref::lex_element_cref>
    {
      typedef mfast::make_aggregate_mref<LenOps_cref::lex_element_cref> base_type;
      public:
        lex_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_lea() const;
    };

    typedef mfast::make_sequence_mref<lex_element_mref> lex_mref;
    lex_mref set_lex() const;

    class ley_element_mref
      : public mfast::make_aggregate_mref<LenOps_cref::ley_element_cref>
    {
      typedef mfast::make_aggregate_mref<LenOps_cref::ley_element_cref> base_type;
      public:
        ley_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_leb() const;
    };

    typedef mfast::make_sequence_mref<ley_element_mref> ley_mref;
    ley_mref set_ley() const;
    void omit_ley() const;

    class lez_element_mref
      : public mfast::make_aggregate_mref<LenOps_cref::lez_element_cref>
    {
      typedef mfast::make_aggregate_mref<LenOps_cref::lez_element_cref> base_type;
      public:
        lez_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_lec() const;
    };

    typedef mfast::make_sequence_mref<lez_element_mref> lez_mref;
    lez_mref set_lez() const;
    void omit_lez() const;

    class lew_element_mref
      : public mfast::make_aggregate_mref<LenOps_cref::lew_element_cref>
    {
      typedef mfast::make_aggregate_mref<LenOps_cref::lew_element_cref> base_type;
      public:
        lew_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_led() const;
    };

    typedef mfast::make_sequence_mref<lew_element_mref> lew_mref;
    lew_mref set_lew() const;
};

class LenOps
  : private mfast::value_storage_array<4>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 3
    };
    typedef mfast::template_instruction_ex<LenOps_cref> instruction_type;

    typedef mfast::make_message_cref<LenOps_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<LenOps_mref, instruction_type> mref_type;
    LenOps(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    LenOps(
      const LenOps_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit LenOps(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    LenOps(const LenOps&);
    LenOps& operator = (const LenOps&);
};


class Dyn_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Dyn_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Dyn_cref();
    template <typename T>
    Dyn_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Dyn_cref(const mfast::message_cref& other);

    explicit Dyn_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_cref get_dyhead() const;
    mfast::int64_cref try_get_dyhead() const;
    mfast::nested_message_cref get_nested_message1() const;
    mfast::nested_message_cref try_get_nested_message1() const;
    mfast::int64_cref get_dytail() const;
    mfast::int64_cref try_get_dytail() const;

};


typedef mfast::make_aggregate_mref<Dyn_cref> Dyn_mref_base;
class Dyn_mref
  : public Dyn_mref_base
{
  typedef Dyn_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Dyn_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Dyn_mref();
    template <typename T>
    Dyn_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Dyn_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Dyn_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Dyn_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_mref set_dyhead() const;
    mfast::nested_message_mref set_nested_message1() const;
    mfast::int64_mref set_dytail() const;
};

class Dyn
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 4
    };
    typedef mfast::template_instruction_ex<Dyn_cref> instruction_type;

    typedef mfast::make_message_cref<Dyn_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Dyn_mref, instruction_type> mref_type;
    Dyn(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Dyn(
      const Dyn_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Dyn(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Dyn(const Dyn&);
    Dyn& operator = (const Dyn&);
};


class Stat_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Stat_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Stat_cref();
    template <typename T>
    Stat_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Stat_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Stat_cref(const mfast::message_cref& other);

    explicit Stat_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_cref get_sthead() const;
    mfast::int64_cref try_get_sthead() const;
    mfast::int64_cref get_lelplain() const;
    mfast::int64_cref try_get_lelplain() const;
    mfast::int64_cref get_lelcopy() const;
    mfast::int64_cref try_get_lelcopy() const;
    mfast::int64_cref get_sttail() const;
    mfast::int64_cref try_get_sttail() const;

};


typedef mfast::make_aggregate_mref<Stat_cref> Stat_mref_base;
class Stat_mref
  : public Stat_mref_base
{
  typedef Stat_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Stat_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Stat_mref();
    template <typename T>
    Stat_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Stat_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Stat_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Stat_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_mref set_sthead() const;
    mfast::int64_mref set_lelplain() const;
    mfast::int64_mref set_lelcopy() const;
    mfast::int64_mref set_sttail() const;
};

class Stat
  : private mfast::value_storage_array<4>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 5
    };
    typedef mfast::template_instruction_ex<Stat_cref> instruction_type;

    typedef mfast::make_message_cref<Stat_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Stat_mref, instruction_type> mref_type;
    Stat(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Stat(
      const Stat_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Stat(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Stat(const Stat&);
    Stat& operator = (const Stat&);
};


class Vecs_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Vecs_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Vecs_cref();
    template <typename T>
    Vecs_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Vecs_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Vecs_cref(const mfast::message_cref& other);

    explicit Vecs_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_vector_cref get_vev() const;
    mfast::int64_vector_cref try_get_vev() const;
    mfast::int64_vector_cref get_veo() const;
    mfast::int64_vector_cref try_get_veo() const;
    mfast::int64_cref get_velast() const;
    mfast::int64_cref try_get_velast() const;

};


typedef mfast::make_aggregate_mref<Vecs_cref> Vecs_mref_base;
class Vecs_mref
  : public Vecs_mref_base
{
  typedef Vecs_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Vecs_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Vecs_mref();
    template <typename T>
    Vecs_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Vecs_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Vecs_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Vecs_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_vector_mref set_vev() const;
    mfast::int64_vector_mref set_veo() const;
    void omit_veo() const;
    mfast::int64_mref set_velast() const;
};

class Vecs
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 6
    };
    typedef mfast::template_instruction_ex<Vecs_cref> instruction_type;

    typedef mfast::make_message_cref<Vecs_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Vecs_mref, instruction_type> mref_type;
    Vecs(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Vecs(
      const Vecs_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Vecs(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Vecs(const Vecs&);
    Vecs& operator = (const Vecs&);
};


class Split_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Split_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Split_cref();
    template <typename T>
    Split_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Split_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Split_cref(const mfast::message_cref& other);

    explicit Split_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::decimal_cref get_spp() const;
    mfast::decimal_cref try_get_spp() const;
    mfast::decimal_cref get_spq() const;
    mfast::decimal_cref try_get_spq() const;
    mfast::int64_cref get_splast() const;
    mfast::int64_cref try_get_splast() const;

};


typedef mfast::make_aggregate_mref<Split_cref> Split_mref_base;
class Split_mref
  : public Split_mref_base
{
  typedef Split_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Split_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Split_mref();
    template <typename T>
    Split_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Split_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Split_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Split_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::decimal_mref set_spp() const;
    mfast::decimal_mref set_spq() const;
    void omit_spq() const;
    mfast::int64_mref set_splast() const;
};

class Split
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 7
    };
    typedef mfast::template_instruction_ex<Split_cref> instruction_type;

    typedef mfast::make_message_cref<Split_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Split_mref, instruction_type> mref_type;
    Split(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Split(
      const Split_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Split(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Split(const Split&);
    Split& operator = (const Split&);
};


class Reset_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Reset_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Reset_cref();
    template <typename T>
    Reset_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Reset_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Reset_cref(const mfast::message_cref& other);

    explicit Reset_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_cref get_rea() const;
    mfast::int64_cref try_get_rea() const;
    mfast::int64_cref get_reb() const;
    mfast::int64_cref try_get_reb() const;

};


typedef mfast::make_aggregate_mref<Reset_cref> Reset_mref_base;
class Reset_mref
  : public Reset_mref_base
{
  typedef Reset_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Reset_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Reset_mref();
    template <typename T>
    Reset_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Reset_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Reset_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Reset_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    mfast::int64_mref set_rea() const;
    void omit_rea() const;
    mfast::int64_mref set_reb() const;
};

class Reset
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 8
    };
    typedef mfast::template_instruction_ex<Reset_cref> instruction_type;

    typedef mfast::make_message_cref<Reset_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Reset_mref, instruction_type> mref_type;
    Reset(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Reset(
      const Reset_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Reset(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Reset(const Reset&);
    Reset& operator = (const Reset&);
};


class Types_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Types_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Types_cref();
    template <typename T>
    Types_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Types_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Types_cref(const mfast::message_cref& other);

    explicit Types_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);

    struct tyen
    {
      enum element {
        x,
        y
      };
      typedef mfast::enum_field_instruction_ex<tyen> instruction_type;
      static const instruction_type* instruction();
    };

    class tyen_cref
      : public mfast::enum_cref_ex<tyen_cref, tyen>
    {
      public:
        typedef mfast::enum_cref_ex<tyen_cref, tyen> base_type;
        typedef tyen::element element_type;
        typedef tyen::instruction_type instruction_type;
        tyen_cref(
          const mfast::value_storage* storage=nullptr,
          instruction_cptr            instruction=nullptr);

        explicit tyen_cref(const field_cref& other);

        element_type value() const;

        bool is_x() const;
        bool is_y() const;
    };

    tyen_cref get_tyen() const;
    tyen_cref try_get_tyen() const;
    struct tyoe
    {
      enum element {
        x,
        y
      };
      typedef mfast::enum_field_instruction_ex<tyoe> instruction_type;
      static const instruction_type* instruction();
    };

    class tyoe_cref
      : public mfast::enum_cref_ex<tyoe_cref, tyoe>
    {
      public:
        typedef mfast::enum_cref_ex<tyoe_cref, tyoe> base_type;
        typedef tyoe::element element_type;
        typedef tyoe::instruction_type instruction_type;
        tyoe_cref(
          const mfast::value_storage* storage=nullptr,
          instruction_cptr            instruction=nullptr);

        explicit tyoe_cref(const field_cref& other);

        element_type value() const;

        bool is_x() const;
        bool is_y() const;
    };

    tyoe_cref get_tyoe() const;
    tyoe_cref try_get_tyoe() const;
    typedef mfast::boolean_cref tybo_cref;
    tybo_cref get_tybo() const;
    tybo_cref try_get_tybo() const;
    mfast::ascii_string_cref get_tyst() const;
    mfast::ascii_string_cref try_get_tyst() const;

};


typedef mfast::make_aggregate_mref<Types_cref> Types_mref_base;
class Types_mref
  : public Types_mref_base
{
  typedef Types_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Types_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Types_mref();
    template <typename T>
    Types_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Types_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Types_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Types_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);

    class tyen_mref
      : public mfast::enum_mref_ex<tyen_mref, tyen_cref>
    {
      public:
        typedef  mfast::enum_mref_ex<tyen_mref, tyen_cref> base_type;
        typedef tyen::element element_type;
        tyen_mref(
          mfast::allocator*     alloc=nullptr,
          mfast::value_storage* storage=nullptr,
          instruction_cptr      instruction=nullptr);
        explicit tyen_mref(const mfast::field_mref_base& other);

        void as_x() const;
        void as_y() const;
    };

    tyen_mref set_tyen() const;
    class tyoe_mref
      : public mfast::enum_mref_ex<tyoe_mref, tyoe_cref>
    {
      public:
        typedef  mfast::enum_mref_ex<tyoe_mref, tyoe_cref> base_type;
        typedef tyoe::element element_type;
        tyoe_mref(
          mfast::allocator*     alloc=nullptr,
          mfast::value_storage* storage=nullptr,
          instruction_cptr      instruction=nullptr);
        explicit tyoe_mref(const mfast::field_mref_base& other);

        void as_x() const;
        void as_y() const;
    };

    tyoe_mref set_tyoe() const;
    void  omit_tyoe() const;
    typedef mfast::boolean_mref tybo_mref;
    tybo_mref set_tybo() const;
    mfast::ascii_string_mref set_tyst() const;
};

class Types
  : private mfast::value_storage_array<4>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 9
    };
    typedef mfast::template_instruction_ex<Types_cref> instruction_type;

    typedef mfast::make_message_cref<Types_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Types_mref, instruction_type> mref_type;
    Types(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Types(
      const Types_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Types(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Types(const Types&);
    Types& operator = (const Types&);
};


class Deep_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<Deep_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Deep_cref();
    template <typename T>
    Deep_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, Deep_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    Deep_cref(const mfast::message_cref& other);

    explicit Deep_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class dps_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<dps_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        dps_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::ascii_string_cref get_dpa() const;
        mfast::ascii_string_cref try_get_dpa() const;

        class dpi_element_cref
          : public mfast::sequence_element_cref
        {
          typedef mfast::sequence_element_cref base_type;
          public:
            typedef mfast::sequence_instruction_ex<dpi_element_cref> instruction_type;
            typedef const instruction_type* instruction_cptr;
            dpi_element_cref(
              const mfast::value_storage* storage,
              instruction_cptr            instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::ascii_string_cref get_dpt() const;
            mfast::ascii_string_cref try_get_dpt() const;
        };

        typedef mfast::make_sequence_cref<dpi_element_cref> dpi_cref;
        dpi_cref get_dpi() const;
        dpi_cref try_get_dpi() const;
    };

    typedef mfast::make_sequence_cref<dps_element_cref> dps_cref;
    dps_cref get_dps() const;
    dps_cref try_get_dps() const;

    class dpg_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<dpg_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        dpg_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);


        class dpq_cref
          : public mfast::aggregate_cref
        {
          typedef mfast::aggregate_cref base_type;
          public:
            typedef mfast::group_instruction_ex<dpq_cref> instruction_type;

            typedef const instruction_type* instruction_cptr;
            dpq_cref();
            template <typename T>
            dpq_cref(
              typename std::enable_if<std::is_same<typename T::cref_type, dpq_cref>::value, const mfast::value_storage*>::type storage,
              const T* instruction);

            explicit dpq_cref(const mfast::field_cref& other);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::unicode_string_cref get_dpu() const;
            mfast::unicode_string_cref try_get_dpu() const;
            mfast::byte_vector_cref get_dpv() const;
            mfast::byte_vector_cref try_get_dpv() const;
        };

        dpq_cref get_dpq() const;
        dpq_cref try_get_dpq() const;
    };

    typedef mfast::make_sequence_cref<dpg_element_cref> dpg_cref;
    dpg_cref get_dpg() const;
    dpg_cref try_get_dpg() const;

};


typedef mfast::make_aggregate_mref<Deep_cref> Deep_mref_base;
class Deep_mref
  : public Deep_mref_base
{
  typedef Deep_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<Deep_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    Deep_mref();
    template <typename T>
    Deep_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, Deep_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    Deep_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit Deep_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class dps_element_mref
      : public mfast::make_aggregate_mref<Deep_cref::dps_element_cref>
    {
      typedef mfast::make_aggregate_mref<Deep_cref::dps_element_cref> base_type;
      public:
        dps_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::ascii_string_mref set_dpa() const;
        void omit_dpa() const;

        class dpi_element_mref
          : public mfast::make_aggregate_mref<Deep_cref::dps_element_cref::dpi_element_cref>
        {
          typedef mfast::make_aggregate_mref<Deep_cref::dps_element_cref::dpi_element_cref> base_type;
          public:
            dpi_element_mref(
              mfast::allocator*     alloc,
              mfast::value_storage* storage,
              instruction_cptr      instruction);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::ascii_string_mref set_dpt() const;
        };

        typedef mfast::make_sequence_mref<dpi_element_mref> dpi_mref;
        dpi_mref set_dpi() const;
    };

    typedef mfast::make_sequence_mref<dps_element_mref> dps_mref;
    dps_mref set_dps() const;

    class dpg_element_mref
      : public mfast::make_aggregate_mref<Deep_cref::dpg_element_cref>
    {
      typedef mfast::make_aggregate_mref<Deep_cref::dpg_element_cref> base_type;
      public:
        dpg_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);


        class dpq_mref
          : public mfast::make_aggregate_mref<Deep_cref::dpg_element_cref::dpq_cref>
        {
          typedef mfast::make_aggregate_mref<Deep_cref::dpg_element_cref::dpq_cref> base_type;
          public:
            dpq_mref();
            template <typename T>
            dpq_mref(
              mfast::allocator*       alloc,
              typename std::enable_if<std::is_same<typename T::cref_type, dpq_cref>::value, mfast::value_storage*>::type   storage,
              const T* instruction);

            explicit dpq_mref(const mfast::field_mref_base& other);

            template <typename Visitor>
            void accept(Visitor& v);

            mfast::unicode_string_mref set_dpu() const;
            mfast::byte_vector_mref set_dpv() const;
        };

        dpq_mref set_dpq() const;
        void omit_dpq() const;
    };

    typedef mfast::make_sequence_mref<dpg_element_mref> dpg_mref;
    dpg_mref set_dpg() const;
    void omit_dpg() const;
};

class Deep
  : private mfast::value_storage_array<2>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 10
    };
    typedef mfast::template_instruction_ex<Deep_cref> instruction_type;

    typedef mfast::make_message_cref<Deep_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<Deep_mref, instruction_type> mref_type;
    Deep(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    Deep(
      const Deep_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit Deep(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    Deep(const Deep&);
    Deep& operator = (const Deep&);
};


class DynSeq_cref
  : public mfast::aggregate_cref
{
  typedef mfast::aggregate_cref base_type;
  public:
    typedef mfast::template_instruction_ex<DynSeq_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    DynSeq_cref();
    template <typename T>
    DynSeq_cref(
      typename std::enable_if<std::is_same<typename T::cref_type, DynSeq_cref>::value, const mfast::value_storage*>::type storage,
      const T* instruction);

    DynSeq_cref(const mfast::message_cref& other);

    explicit DynSeq_cref(const mfast::field_cref& other);

    operator mfast::message_cref();
    template <typename Visitor>
    void accept(Visitor& v);


    class dss_element_cref
      : public mfast::sequence_element_cref
    {
      typedef mfast::sequence_element_cref base_type;
      public:
        typedef mfast::sequence_instruction_ex<dss_element_cref> instruction_type;
        typedef const instruction_type* instruction_cptr;
        dss_element_cref(
          const mfast::value_storage* storage,
          instruction_cptr            instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_cref get_dse() const;
        mfast::int64_cref try_get_dse() const;
        mfast::nested_message_cref get_nested_message1() const;
        mfast::nested_message_cref try_get_nested_message1() const;
    };

    typedef mfast::make_sequence_cref<dss_element_cref> dss_cref;
    dss_cref get_dss() const;
    dss_cref try_get_dss() const;
    typedef mfast::nested_message_cref dsg_cref;
    dsg_cref get_dsg() const;
    dsg_cref try_get_dsg() const;
    mfast::int64_cref get_dslast() const;
    mfast::int64_cref try_get_dslast() const;

};


typedef mfast::make_aggregate_mref<DynSeq_cref> DynSeq_mref_base;
class DynSeq_mref
  : public DynSeq_mref_base
{
  typedef DynSeq_mref_base base_type;
  public:
    typedef mfast::template_instruction_ex<DynSeq_cref> instruction_type;
    typedef const instruction_type* instruction_cptr;
    DynSeq_mref();
    template <typename T>
    DynSeq_mref(
      mfast::allocator*       alloc,
      typename std::enable_if<std::is_same<typename T::cref_type, DynSeq_cref>::value, mfast::value_storage*>::type   storage,
      const T* instruction);

    DynSeq_mref(const mfast::message_mref& other);

    operator mfast::message_mref();
    explicit DynSeq_mref(const mfast::field_mref_base& other);

    template <typename Visitor>
    void accept(Visitor& v);


    class dss_element_mref
      : public mfast::make_aggregate_mref<DynSeq_cref::dss_element_cref>
    {
      typedef mfast::make_aggregate_mref<DynSeq_cref::dss_element_cref> base_type;
      public:
        dss_element_mref(
          mfast::allocator*     alloc,
          mfast::value_storage* storage,
          instruction_cptr      instruction);

        template <typename Visitor>
        void accept(Visitor& v);

        mfast::int64_mref set_dse() const;
        mfast::nested_message_mref set_nested_message1() const;
    };

    typedef mfast::make_sequence_mref<dss_element_mref> dss_mref;
    dss_mref set_dss() const;
    typedef mfast::nested_message_mref dsg_mref;
    dsg_mref set_dsg() const;
    void omit_dsg() const;
    void link_dsg(const dsg_mref& ref) const;
    void unlink_dsg() const;
    mfast::int64_mref set_dslast() const;
};

class DynSeq
  : private mfast::value_storage_array<3>
  , public mfast::message_type
{
  typedef mfast::message_type base_type;
  public:
    enum {
      the_id = 11
    };
    typedef mfast::template_instruction_ex<DynSeq_cref> instruction_type;

    typedef mfast::make_message_cref<DynSeq_cref, instruction_type> cref_type;
    typedef mfast::make_message_mref<DynSeq_mref, instruction_type> mref_type;
    DynSeq(
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
    DynSeq(
      const DynSeq_cref& other,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#ifdef MFAST_JSON_H
    explicit DynSeq(
      const char* json_initializer,
      int json_object_tag_mask=0,
      mfast::allocator* alloc=mfast::malloc_allocator::instance());
#endif // MFAST_JSON_H
    cref_type ref() const;
    cref_type cref() const;
    mref_type ref();
    mref_type mref();
    static const instruction_type* instruction();
  private:
    DynSeq(const DynSeq&);
    DynSeq& operator = (const DynSeq&);
};


struct  templates_description
  : mfast::templates_description
{
  typedef std::tuple<Leaf,
                       Bare,
                       Boxed,
                       Groups,
                       Seqs,
                       LenOps,
                       Dyn,
                       Stat,
                       Vecs,
                       Split,
                       Reset,
                       Types,
                       Deep,
                       DynSeq> types;
  templates_description();
  static const templates_description* instance();
};

inline const templates_description* description()
{
  return templates_description::instance();
}

#include "shapes.inl"
}
