// witnesses for the wire layer: integers, strings, byte vectors, presence maps
#include "drv.h"
#include "mfast/coder/decoder/fast_istream.h"
#include "mfast/coder/encoder/fast_ostream.h"
#include "mfast/coder/encoder/encoder_presence_map.h"
#include "mfast/coder/encoder/resizable_fast_ostreambuf.h"
using namespace vf;

#define ENC_INT(T, N)                                                          \
  extern "C" uint64_t vf_enc_##N(char *buf, uint64_t cap, T v, bool null_,     \
                                 bool nullable) {                              \
    fast_ostreambuf sb(buf, cap);                                              \
    fast_ostream s(nullptr);                                                   \
    s.rdbuf(&sb);                                                              \
    s.encode(v, null_, nullable);                                              \
    return sb.length();                                                        \
  }                                                                            \
  extern "C" uint64_t vf_encN_##N(char *buf, uint64_t cap, T v, bool null_) {  \
    fast_ostreambuf sb(buf, cap);                                              \
    fast_ostream s(nullptr);                                                   \
    s.rdbuf(&sb);                                                              \
    s.encode(v, null_, std::true_type());                                      \
    return sb.length();                                                        \
  }                                                                            \
  extern "C" uint64_t vf_encM_##N(char *buf, uint64_t cap, T v, bool null_) {  \
    fast_ostreambuf sb(buf, cap);                                              \
    fast_ostream s(nullptr);                                                   \
    s.rdbuf(&sb);                                                              \
    s.encode(v, null_, std::false_type());                                     \
    return sb.length();                                                        \
  }
ENC_INT(int16_t, i16)
ENC_INT(int32_t, i32)
ENC_INT(uint32_t, u32)
ENC_INT(int64_t, i64)
ENC_INT(uint64_t, u64)

#define DEC_INT(T, N)                                                          \
  extern "C" bool vf_dec_##N(const char *buf, uint64_t n, T *out,              \
                             const char **cur, bool nullable) {                \
    fast_istreambuf sb(buf, n);                                                \
    fast_istream s(&sb);                                                       \
    bool r = s.decode(*out, nullable);                                         \
    *cur = sb.gptr();                                                          \
    return r;                                                                  \
  }                                                                            \
  extern "C" bool vf_decN_##N(const char *buf, uint64_t n, T *out,             \
                              const char **cur) {                              \
    fast_istreambuf sb(buf, n);                                                \
    fast_istream s(&sb);                                                       \
    bool r = s.decode(*out, std::true_type());                                 \
    *cur = sb.gptr();                                                          \
    return r;                                                                  \
  }                                                                            \
  extern "C" bool vf_decM_##N(const char *buf, uint64_t n, T *out,             \
                              const char **cur) {                              \
    fast_istreambuf sb(buf, n);                                                \
    fast_istream s(&sb);                                                       \
    bool r = s.decode(*out, std::false_type());                                \
    *cur = sb.gptr();                                                          \
    return r;                                                                  \
  }
DEC_INT(int16_t, i16)
DEC_INT(int32_t, i32)
DEC_INT(uint32_t, u32)
DEC_INT(int64_t, i64)
DEC_INT(uint64_t, u64)

#define STR(N, INST, CH)                                                       \
  extern "C" uint64_t vf_enc_##N(char *buf, uint64_t cap, const CH *d,         \
                                 uint32_t len, bool nullable) {                \
    fast_ostreambuf sb(buf, cap);                                              \
    fast_ostream s(nullptr);                                                   \
    s.rdbuf(&sb);                                                              \
    s.encode(d, len, (const INST *)nullptr, nullable);                         \
    return sb.length();                                                        \
  }                                                                            \
  extern "C" bool vf_dec_##N(const char *buf, uint64_t n, const CH **out,      \
                             uint32_t *len, const char **cur, bool nullable) { \
    fast_istreambuf sb(buf, n);                                                \
    fast_istream s(&sb);                                                       \
    bool r = s.decode(*out, *len, (const INST *)nullptr, nullable);            \
    *cur = sb.gptr();                                                          \
    return r;                                                                  \
  }
STR(ascii, ascii_field_instruction, char)
STR(unicode, unicode_field_instruction, char)
STR(bytes, byte_vector_field_instruction, unsigned char)

// presence maps: reading
struct rd_state {
  fast_istreambuf sb;
  fast_istream s;
  decoder_presence_map pmap;
  rd_state(const char *b, uint64_t n) : sb(b, n), s(&sb) {}
};
extern "C" void vf_rd_open(rd_state *r, const char *buf, uint64_t n) {
  new (r) rd_state(buf, n);
  r->s.decode(r->pmap);
}
extern "C" const char *vf_rd_cur(rd_state *r) { return r->sb.gptr(); }
extern "C" bool vf_rd_bit(rd_state *r) { return r->pmap.is_next_bit_set(); }
extern "C" uint64_t vf_rd_size() { return sizeof(rd_state); }

// presence maps: writing
struct wr_state {
  fast_ostreambuf sb;
  fast_ostream s;
  encoder_presence_map pmap;
  wr_state(char *b, uint64_t n) : sb(b, n), s(nullptr) { s.rdbuf(&sb); }
};
extern "C" uint64_t vf_wr_size() { return sizeof(wr_state); }
extern "C" void vf_wr_open(wr_state *w, char *buf, uint64_t cap, bool overlong,
                           uint64_t before, uint64_t maxbits) {
  new (w) wr_state(buf, cap);
  w->s.allow_overlong_pmap(overlong);
  w->sb.skip(before);
  w->pmap.init(&w->s, maxbits);
}
extern "C" void vf_wr_bit(wr_state *w, bool v) { w->pmap.set_next_bit(v); }
extern "C" void vf_wr_data(wr_state *w, const char *d, uint64_t n) {
  w->sb.sputn(d, n);
}
extern "C" void vf_wr_commit(wr_state *w) { w->pmap.commit(); }
extern "C" uint64_t vf_wr_len(wr_state *w) { return w->sb.length(); }

// output buffer
extern "C" uint64_t vf_ob_putc(char *buf, uint64_t cap, uint64_t before,
                               char c) {
  fast_ostreambuf sb(buf, cap);
  sb.skip(before);
  sb.sputc(c);
  return sb.length();
}
extern "C" uint64_t vf_ob_putn(char *buf, uint64_t cap, uint64_t before,
                               const char *d, uint64_t n) {
  fast_ostreambuf sb(buf, cap);
  sb.skip(before);
  sb.sputn(d, n);
  return sb.length();
}
