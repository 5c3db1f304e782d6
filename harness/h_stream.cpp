// the stream operators over a stand-in stream: basic_istream/basic_ostream are
// specialised for a traits type of our own, so the operators' code runs as it is
// and the stream's answers (state, next character, encoding of digits,
// exceptions) are arbitrary
#include <istream>
#include <ostream>
#include <streambuf>
#include "vh.hpp"
struct Tr {
  using char_type = char16_t; using int_type = uint32_t;
  static constexpr int_type eof() { return ~0u; }
  static constexpr bool eq_int_type(int_type a, int_type b) { return a == b; }
  static constexpr bool eq(char_type a, char_type b) { return a == b; }
  static constexpr char_type to_char_type(int_type a) { return (char_type)a; }
  static constexpr int_type to_int_type(char_type a) { return a; }
  static constexpr int_type not_eof(int_type a) { return a == eof() ? 0 : a; }
};
struct Chan {
  char16_t text[2]; unsigned have = 0, at = 0; bool throws = false, canput = true; unsigned consumed = 0;
  char16_t z, o, sp;                     // what '0', '1' and blank look like
  char16_t out[4]; unsigned nout = 0;
  char16_t widen(char c) const { return c == '0' ? z : c == '1' ? o : (char16_t)(unsigned char)c; }
};
struct Boom {};
namespace std {
template <> class basic_streambuf<char16_t, Tr> {
 public:
  Chan* c;
  uint32_t sbumpc() { if (c->throws) throw Boom(); if (c->at == c->have) return Tr::eof(); c->consumed++; return c->text[c->at++]; }
  uint32_t snextc() { return sbumpc() == Tr::eof() ? Tr::eof() : sgetc(); }
  uint32_t sgetc() { if (c->throws) throw Boom(); return c->at == c->have ? Tr::eof() : c->text[c->at]; }
  uint32_t sputbackc(char16_t x) { if (!c->canput || c->at == 0 || c->text[c->at - 1] != x) return Tr::eof(); c->at--; return x; }
  uint32_t sungetc() { if (!c->canput || c->at == 0) return Tr::eof(); return c->text[--c->at]; }
};
template <> class basic_istream<char16_t, Tr> {
 public:
  using char_type = char16_t; using traits_type = Tr; using int_type = uint32_t; using ios_base = std::ios_base; using iostate = std::ios_base::iostate;
  static constexpr iostate goodbit = std::ios_base::goodbit, badbit = std::ios_base::badbit, failbit = std::ios_base::failbit, eofbit = std::ios_base::eofbit;
  Chan* c; std::basic_streambuf<char16_t, Tr>* b; iostate st = goodbit; unsigned sentries = 0;
  basic_istream(Chan* c, std::basic_streambuf<char16_t, Tr>* b) : c(c), b(b) {}
  struct sentry {
    bool ok;
    explicit sentry(basic_istream& is, bool noskip = false) { is.sentries++; ok = is.st == goodbit; if (!ok) is.st |= failbit; }
    explicit operator bool() const { return ok; }
  };
  std::basic_streambuf<char16_t, Tr>* rdbuf() const { return b; }
  char16_t widen(char x) const { return c->widen(x); }
  void setstate(iostate s) { st |= s; }
  void clear(iostate s = goodbit) { st = s; }
  iostate rdstate() const { return st; }
  bool good() const { return st == goodbit; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
  explicit operator bool() const { return !fail(); }
};
template <> class basic_ostream<char16_t, Tr> {
 public:
  using char_type = char16_t; using traits_type = Tr; using int_type = uint32_t;
  Chan* c;
  explicit basic_ostream(Chan* c) : c(c) {}
  char16_t widen(char x) const { return c->widen(x); }
  basic_ostream& put(char16_t x) { if (c->nout < 4) c->out[c->nout] = x; c->nout++; return *this; }
  basic_ostream& write(const char16_t* s, std::streamsize n) { while (n-- > 0) put(*s++); return *this; }
};
template <> inline basic_ostream<char16_t, Tr>& operator<< <char16_t, Tr>(basic_ostream<char16_t, Tr>& os, char16_t x) { return os.put(x); }
template <> inline basic_ostream<char16_t, Tr>& operator<< <char16_t, Tr>(basic_ostream<char16_t, Tr>& os, char x) { return os.put(os.widen(x)); }
}  // namespace std
using IS = std::basic_istream<char16_t, Tr>; using OS = std::basic_ostream<char16_t, Tr>; using SB = std::basic_streambuf<char16_t, Tr>;
static void chan(Chan& c) { c.z = (char16_t)v_sym("zero", 16); c.o = (char16_t)v_sym("one", 16); v_assume(c.z != c.o); }
template <class X> static void read(X& x, bool x0) {
  Chan c; chan(c);
  c.have = (unsigned)v_choose("have", 0, 2);
  for (unsigned i = 0; i < 2; i++) c.text[i] = (char16_t)v_sym("text", 16);
  c.throws = v_choose("throws", 0, 1); c.canput = v_choose("canput", 0, 1);
  SB b; b.c = &c;
  IS is(&c, &b);
  static const std::ios_base::iostate st[] = {IS::goodbit, IS::eofbit, IS::failbit, IS::badbit};
  is.st = st[v_choose("state", 0, 3)];
  auto st0 = is.st;
  IS& r = is >> x;
  v_observe(is.st); v_observe(c.at); v_observe(bool(x));
  v_assert(&r == &is, "the stream is returned");
  bool good = st0 == IS::goodbit, any = good && !c.throws && c.have > 0;
  char16_t t = c.text[0];
  bool ok = any && (t == c.z || t == c.o);
  v_assert(bool(x) == (ok ? t == c.o : x0), "the digits 0 and 1 are read as their values, anything else leaves the target alone");
  v_assert(is.fail() == !ok, "fail is reported exactly when no digit was read");
  v_assert(c.at == (ok || (any && !c.canput) ? 1u : 0u), "a digit is consumed, any other character is left in the stream when it can be put back");
  v_assert(is.eof() == (st0 == IS::eofbit || (good && !c.throws && c.have == 0)), "end of file is reported when the stream has ended");
  v_assert(is.bad() == (st0 == IS::badbit || (good && c.throws)), "an exception of the buffer is reported as bad");
  v_cover(ok && t == c.o, "a one"); v_cover(ok && t == c.z, "a zero"); v_cover(any && !ok, "another character");
}
extern "C" void h_read() {
  bool x0 = v_sym("x", 1);
  bit::bit_value x(x0);
  read(x, x0);
}
extern "C" void h_read_ref() {
  W w[3]; for (auto& v : w) v = (W)v_sym("w", D);
  W w0[3] = {w[0], w[1], w[2]};
  uint64_t k = v_sym("k", LOGD);
  bit::bit_reference<W> x(w[1], k);
  bool x0 = (w0[1] >> k) & 1;
  read(x, x0);
  v_assert(w[0] == w0[0] && w[2] == w0[2] && (W)((w[1] ^ w0[1]) & (W)~((W)1 << k)) == 0, "no other bit changes");
  v_assert((bool)((w[1] >> k) & 1) == bool(x), "the reference still denotes its bit");
}
extern "C" void h_write() {
  Chan c; chan(c);
  OS os(&c);
  bool b = v_sym("b", 1);
  OS& r = os << bit::bit_value(b);
  v_assert(&r == &os && c.nout == 1, "exactly one character is written");
  v_observe(c.out[0]);
  v_assert(c.out[0] == (b ? c.o : c.z), "the digit of the value");
  W w = (W)v_sym("w", D); uint64_t k = v_sym("k", LOGD);
  bit::bit_reference<W> q(w, k);
  os << bit::bit_value(q);
  v_assert(c.nout == 2 && c.out[1] == (((w >> k) & 1) ? c.o : c.z), "the digit of the referenced bit");
  OS& t = os << q;
  v_observe(c.out[2]);
  v_assert(&t == &os && c.nout == 3 && c.out[2] == c.out[1], "the digit of the referenced bit, written through the reference");
  OS& u = os << *bit::bit_iterator<const W*>(&w, k);
  v_assert(&u == &os && c.nout == 4 && c.out[3] == c.out[1], "the digit of a bit of constant words");
}
