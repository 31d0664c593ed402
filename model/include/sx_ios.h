// Small locale-free model of <ios>, <streambuf>, <ostream>, <istream>,
// <sstream>, <fstream>, <iomanip> and <iostream> for the symbolic engine.
// Semantics: C++ standard, "C" locale, char only, in-memory files.
#ifndef SX_IOS_H
#define SX_IOS_H
#include <iosfwd>
#include <string>
#include <string_view>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <type_traits>
#include <initializer_list>
#include <system_error>
#include <bits/locale_classes.h>

extern "C" uint64_t sx_host_fmt_double(char* out, size_t cap, double v, int prec, int mode);
const std::string* sx_file_lookup(const std::string& name);   // rt_io.cc
void sx_file_store(const std::string& name, const std::string& content);

namespace std {
typedef ptrdiff_t streamsize_sx;
class ios_base {
 public:
  typedef unsigned fmtflags;
  static constexpr fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128,
                            scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192,
                            uppercase = 16384, adjustfield = left | right | internal, basefield = dec | oct | hex, floatfield = scientific | fixed;
  typedef unsigned iostate;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  typedef unsigned openmode;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  enum seekdir { beg, cur, end };
  class failure : public std::runtime_error { public: explicit failure(const std::string& s) : std::runtime_error(s) {} };
  class Init {};
  fmtflags flags() const { return fl_; }
  fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags m) { fl_ &= ~m; }
  streamsize precision() const { return prec_; }
  streamsize precision(streamsize p) { auto o = prec_; prec_ = p; return o; }
  streamsize width() const { return width_; }
  streamsize width(streamsize w) { auto o = width_; width_ = w; return o; }
  static bool sync_with_stdio(bool = true) { return true; }
  locale imbue(const locale& l) { return l; }
  locale getloc() const { return locale(); }
 protected:
  fmtflags fl_ = skipws | dec;
  streamsize prec_ = 6, width_ = 0;
};
typedef ios_base __ios_base_sx;

template <typename C, typename T>
class basic_streambuf {
 public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  typedef typename T::off_type off_type;
  std::basic_string<C> data_;
  size_t g_ = 0;
  bool sink_ = false;  // discard output (console)
  virtual ~basic_streambuf() {}
  int_type sgetc() { return g_ < data_.size() ? T::to_int_type(data_[g_]) : T::eof(); }
  int_type sbumpc() { return g_ < data_.size() ? T::to_int_type(data_[g_++]) : T::eof(); }
  int_type snextc() { if (g_ < data_.size()) ++g_; return sgetc(); }
  int_type sputc(C c) { if (!sink_) data_.push_back(c); return T::to_int_type(c); }
  streamsize sputn(const C* p, streamsize n) { if (!sink_) data_.append(p, n); return n; }
  streamsize sgetn(C* p, streamsize n) {
    streamsize k = 0;
    while (k < n && g_ < data_.size()) p[k++] = data_[g_++];
    return k;
  }
  streamsize in_avail() { return data_.size() - g_; }
  int pubsync() { return 0; }
  int_type sungetc() { if (!g_) return T::eof(); return T::to_int_type(data_[--g_]); }
};
template <typename C, typename T>
class basic_ostream;
template <typename C, typename T>
class basic_ios : public ios_base {
 public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  typedef typename T::off_type off_type;
  basic_ios() {}
  explicit basic_ios(basic_streambuf<C, T>* b) : buf_(b) {}
  virtual ~basic_ios() {}
  void init(basic_streambuf<C, T>* b) { buf_ = b; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) { st_ = s; if (st_ & ex_) throw ios_base::failure("ios failure"); }
  void setstate(iostate s) { clear(st_ | s); }
  bool good() const { return st_ == 0; }
  bool eof() const { return st_ & eofbit; }
  bool fail() const { return st_ & (badbit | failbit); }
  bool bad() const { return st_ & badbit; }
  iostate exceptions() const { return ex_; }
  void exceptions(iostate e) { ex_ = e; clear(st_); }
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  basic_streambuf<C, T>* rdbuf() const { return buf_; }
  basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { auto o = buf_; buf_ = b; clear(); return o; }
  basic_ios& copyfmt(const basic_ios& o) { fl_ = o.fl_; prec_ = o.prec_; width_ = o.width_; fill_ = o.fill_; return *this; }
  C widen(char c) const { return c; }
  char narrow(C c, char) const { return c; }
  basic_ostream<C, T>* tie(basic_ostream<C, T>* = nullptr) { return nullptr; }
 protected:
  basic_streambuf<C, T>* buf_ = nullptr;
  iostate st_ = 0, ex_ = 0;
  C fill_ = ' ';
};

template <typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T> {
 public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<C, T>* b) { this->init(b); }
  virtual ~basic_ostream() {}
  struct sentry { explicit sentry(basic_ostream& o) : o_(o.good()) {} explicit operator bool() const { return o_; } bool o_; };
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
  basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  void sx_pad(const C* p, size_t n) {
    size_t w = this->width_ > 0 ? (size_t)this->width_ : 0;
    this->width_ = 0;
    if (!this->good()) { return; }
    size_t pad = w > n ? w - n : 0;
    bool left = (this->fl_ & ios_base::adjustfield) == ios_base::left;
    if (!left) for (size_t i = 0; i < pad; i++) this->buf_->sputc(this->fill_);
    this->buf_->sputn(p, n);
    if (left) for (size_t i = 0; i < pad; i++) this->buf_->sputc(this->fill_);
  }
  basic_ostream& sx_uint(unsigned long long v, bool neg) {
    C b[72];
    size_t n = 72;
    unsigned base = (this->fl_ & ios_base::basefield) == ios_base::hex ? 16 : (this->fl_ & ios_base::basefield) == ios_base::oct ? 8 : 10;
    bool up = this->fl_ & ios_base::uppercase;
    if (v == 0) b[--n] = '0';
    while (v) { unsigned d = v % base; b[--n] = d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10); v /= base; }
    size_t digits = 72 - n;
    if (base == 16 && (this->fl_ & ios_base::showbase)) { b[--n] = up ? 'X' : 'x'; b[--n] = '0'; }
    if (neg) b[--n] = '-';
    else if (this->fl_ & ios_base::showpos) b[--n] = '+';
    (void)digits;
    if (this->width_ > (streamsize)(72 - n) && (this->fl_ & ios_base::adjustfield) == ios_base::internal && (neg)) {
      if (this->good()) this->buf_->sputc(b[n]);
      n++; this->width_--;
    }
    sx_pad(b + n, 72 - n);
    return *this;
  }
  basic_ostream& sx_int(long long v, unsigned long long u) {
    bool dec = !(this->fl_ & (ios_base::hex | ios_base::oct));
    if (dec && v < 0) return sx_uint(0ull - (unsigned long long)v, true);
    return sx_uint(dec ? (unsigned long long)v : u, false);
  }
  basic_ostream& operator<<(short v) { return sx_int(v, (unsigned short)v); }
  basic_ostream& operator<<(unsigned short v) { return sx_uint(v, false); }
  basic_ostream& operator<<(int v) { return sx_int(v, (unsigned)v); }
  basic_ostream& operator<<(unsigned v) { return sx_uint(v, false); }
  basic_ostream& operator<<(long v) { return sx_int(v, (unsigned long)v); }
  basic_ostream& operator<<(unsigned long v) { return sx_uint(v, false); }
  basic_ostream& operator<<(long long v) { return sx_int(v, (unsigned long long)v); }
  basic_ostream& operator<<(unsigned long long v) { return sx_uint(v, false); }
  basic_ostream& operator<<(bool v) {
    if (this->fl_ & ios_base::boolalpha) { if (v) sx_pad("true", 4); else sx_pad("false", 5); return *this; }
    return sx_uint(v ? 1 : 0, false);
  }
  basic_ostream& operator<<(double v) {
    char b[512];
    int mode = (this->fl_ & ios_base::floatfield) == ios_base::fixed ? 1 : (this->fl_ & ios_base::floatfield) == ios_base::scientific ? 2 : 0;
    size_t n = sx_host_fmt_double(b, sizeof b, v, (int)(this->prec_ == 0 && mode == 0 ? 1 : this->prec_), mode);
    sx_pad(b, n);
    return *this;
  }
  basic_ostream& operator<<(float v) { return *this << (double)v; }
  basic_ostream& operator<<(long double v) { return *this << (double)v; }
  basic_ostream& operator<<(const void* p) {
    auto f = this->fl_;
    this->fl_ = (f & ~ios_base::basefield) | ios_base::hex | ios_base::showbase;
    sx_uint((unsigned long long)(uintptr_t)p, false);
    this->fl_ = f;
    return *this;
  }
  basic_ostream& operator<<(nullptr_t) { return *this << "nullptr"; }
  basic_ostream& operator<<(basic_streambuf<C, T>* b) { while (b->g_ < b->data_.size()) put(b->data_[b->g_++]); return *this; }
  basic_ostream& put(C c) { if (this->good()) this->buf_->sputc(c); return *this; }
  basic_ostream& write(const C* p, streamsize n) { if (this->good()) this->buf_->sputn(p, n); return *this; }
  basic_ostream& flush() { return *this; }
  streamoff tellp() { return this->fail() ? -1 : (streamoff)this->buf_->data_.size(); }
};
typedef basic_ostream<char, char_traits<char>> sx_os;
template <typename C, typename T>
inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* p, streamsize n) { o.sx_pad(p, n); return o; }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.sx_pad(&c, 1); return o; }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char d = c; o.sx_pad(&d, 1); return o; }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char d = c; o.sx_pad(&d, 1); return o; }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) {
  if (!s) { o.setstate(ios_base::badbit); return o; }
  o.sx_pad(s, char_traits<char>::length(s));
  return o;
}
template <typename C, typename T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o; }
template <typename C, typename T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { o.put('\0'); return o; }
template <typename C, typename T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
// rvalue stream insertion
template <typename S, typename V, typename = enable_if_t<is_base_of_v<ios_base, remove_reference_t<S>> && !is_lvalue_reference_v<S>>>
inline S&& operator<<(S&& s, const V& v) { static_cast<remove_reference_t<S>&>(s) << v; return std::move(s); }

#define SX_MANIP(NAME, MASK) inline ios_base& NAME(ios_base& b) { b.setf(ios_base::NAME, ios_base::MASK); return b; }
SX_MANIP(dec, basefield) SX_MANIP(hex, basefield) SX_MANIP(oct, basefield)
SX_MANIP(left, adjustfield) SX_MANIP(right, adjustfield) SX_MANIP(internal, adjustfield)
SX_MANIP(fixed, floatfield) SX_MANIP(scientific, floatfield)
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }

template <typename C, typename T>
class basic_istream : virtual public basic_ios<C, T> {
 public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  typedef typename T::off_type off_type;
  basic_istream() {}
  explicit basic_istream(basic_streambuf<C, T>* b) { this->init(b); }
  virtual ~basic_istream() {}
  struct sentry {
    explicit sentry(basic_istream& i, bool noskip = false) {
      if (!i.good()) { i.setstate(ios_base::failbit); ok_ = false; return; }
      if (!noskip && (i.flags() & ios_base::skipws)) {
        auto* b = i.rdbuf();
        while (b->g_ < b->data_.size() && sx_space(b->data_[b->g_])) b->g_++;
        if (b->g_ >= b->data_.size()) { i.setstate(ios_base::eofbit | ios_base::failbit); ok_ = false; return; }
      }
      ok_ = true;
    }
    explicit operator bool() const { return ok_; }
    bool ok_;
  };
  static bool sx_space(C c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
  streamsize gcount() const { return gc_; }
  int_type get() {
    gc_ = 0;
    sentry s(*this, true);
    if (!s) return T::eof();
    int_type c = this->buf_->sbumpc();
    if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit | ios_base::failbit);
    else gc_ = 1;
    return c;
  }
  basic_istream& get(C& c) { int_type r = get(); if (gc_) c = T::to_char_type(r); return *this; }
  int_type peek() {
    sentry s(*this, true);
    if (!s) return T::eof();
    int_type c = this->buf_->sgetc();
    if (T::eq_int_type(c, T::eof())) this->setstate(ios_base::eofbit);
    return c;
  }
  basic_istream& unget() { this->clear(this->rdstate() & ~ios_base::eofbit); this->buf_->sungetc(); return *this; }
  basic_istream& putback(C) { return unget(); }
  basic_istream& ignore(streamsize n = 1, int_type d = T::eof()) {
    while (n-- > 0) {
      int_type c = this->buf_->sbumpc();
      if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; }
      if (T::eq_int_type(c, d)) break;
    }
    return *this;
  }
  basic_istream& read(C* p, streamsize n) {
    gc_ = 0;
    sentry s(*this, true);
    if (s) { gc_ = this->buf_->sgetn(p, n); if (gc_ < n) this->setstate(ios_base::eofbit | ios_base::failbit); }
    return *this;
  }
  basic_istream& getline(C* p, streamsize n, C d = '\n') {
    gc_ = 0;
    sentry s(*this, true);
    streamsize k = 0;
    if (s) {
      for (;;) {
        int_type c = this->buf_->sgetc();
        if (T::eq_int_type(c, T::eof())) { this->setstate(k ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); break; }
        if (T::to_char_type(c) == d) { this->buf_->sbumpc(); gc_++; break; }
        if (k + 1 >= n) { this->setstate(ios_base::failbit); break; }
        p[k++] = T::to_char_type(c); gc_++;
        this->buf_->sbumpc();
      }
    }
    if (n > 0) p[k] = 0;
    return *this;
  }
  streamoff tellg() { return this->fail() ? -1 : (streamoff)this->buf_->g_; }
  basic_istream& seekg(streamoff p) { this->clear(this->rdstate() & ~ios_base::eofbit); this->buf_->g_ = p; return *this; }
  basic_istream& seekg(streamoff o, ios_base::seekdir d) {
    this->clear(this->rdstate() & ~ios_base::eofbit);
    this->buf_->g_ = d == ios_base::beg ? o : d == ios_base::cur ? this->buf_->g_ + o : this->buf_->data_.size() + o;
    return *this;
  }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  template <typename I>
  basic_istream& sx_readint(I& v) {
    sentry s(*this);
    if (!s) return *this;
    auto* b = this->buf_;
    bool neg = false, any = false, ovf = false;
    unsigned base = (this->fl_ & ios_base::basefield) == ios_base::hex ? 16 : (this->fl_ & ios_base::basefield) == ios_base::oct ? 8 : 10;
    if (b->g_ < b->data_.size() && (b->data_[b->g_] == '-' || b->data_[b->g_] == '+')) neg = b->data_[b->g_++] == '-';
    unsigned long long u = 0;
    while (b->g_ < b->data_.size()) {
      C c = b->data_[b->g_];
      unsigned d = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99;
      if (d >= base) break;
      any = true;
      if (u > (~0ull - d) / base) ovf = true; else u = u * base + d;
      b->g_++;
    }
    ios_base::iostate st = b->g_ >= b->data_.size() ? ios_base::eofbit : 0;
    if (!any) { v = 0; this->setstate(st | ios_base::failbit); return *this; }
    if constexpr (is_signed_v<I>) {
      unsigned long long lim = (unsigned long long)numeric_limits_max<I>() + (neg ? 1 : 0);
      if (ovf || u > lim) { v = neg ? (I)(-numeric_limits_max<I>() - 1) : numeric_limits_max<I>(); this->setstate(st | ios_base::failbit); return *this; }
      v = neg ? (I)(0ull - u) : (I)u;
    } else {
      if (ovf || u > (unsigned long long)(I)~(I)0) { v = (I)~(I)0; this->setstate(st | ios_base::failbit); return *this; }
      v = neg ? (I)(0ull - u) : (I)u;
    }
    if (st) this->setstate(st);
    return *this;
  }
  template <typename I> static constexpr I numeric_limits_max() { return (I)((1ull << (sizeof(I) * 8 - 1)) - 1); }
  basic_istream& operator>>(short& v) { return sx_readint(v); }
  basic_istream& operator>>(unsigned short& v) { return sx_readint(v); }
  basic_istream& operator>>(int& v) { return sx_readint(v); }
  basic_istream& operator>>(unsigned& v) { return sx_readint(v); }
  basic_istream& operator>>(long& v) { return sx_readint(v); }
  basic_istream& operator>>(unsigned long& v) { return sx_readint(v); }
  basic_istream& operator>>(long long& v) { return sx_readint(v); }
  basic_istream& operator>>(unsigned long long& v) { return sx_readint(v); }
  basic_istream& operator>>(bool& v) { int i; sx_readint(i); if (i != 0 && i != 1) this->setstate(ios_base::failbit); v = i != 0; return *this; }
  basic_istream& operator>>(double& v) {
    sentry s(*this);
    if (!s) return *this;
    auto* b = this->buf_;
    std::string t;
    bool dig = false, dot = false, ex = false;
    while (b->g_ < b->data_.size()) {
      C c = b->data_[b->g_];
      bool ok = false;
      if (c >= '0' && c <= '9') { ok = true; dig = true; }
      else if ((c == '+' || c == '-') && (t.empty() || ((t.back() == 'e' || t.back() == 'E')))) ok = true;
      else if (c == '.' && !dot && !ex) { ok = true; dot = true; }
      else if ((c == 'e' || c == 'E') && dig && !ex) { ok = true; ex = true; }
      if (!ok) break;
      t.push_back(c);
      b->g_++;
    }
    ios_base::iostate st = b->g_ >= b->data_.size() ? ios_base::eofbit : 0;
    char* e;
    double d = strtod(t.c_str(), &e);
    if (t.empty() || *e) { v = 0; this->setstate(st | ios_base::failbit); return *this; }
    v = d;
    if (st) this->setstate(st);
    return *this;
  }
  basic_istream& operator>>(float& v) { double d = 0; *this >> d; v = (float)d; return *this; }
  basic_istream& operator>>(basic_streambuf<C, T>* o) { while (this->buf_->g_ < this->buf_->data_.size()) o->sputc(this->buf_->data_[this->buf_->g_++]); return *this; }
 protected:
  streamsize gc_ = 0;
};
template <class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) {
  typename basic_istream<char, T>::sentry s(i);
  if (s) c = T::to_char_type(i.rdbuf()->sbumpc());
  return i;
}
inline basic_istream<char, char_traits<char>>& operator>>(basic_istream<char, char_traits<char>>& i, std::string& o) {
  basic_istream<char, char_traits<char>>::sentry s(i);
  if (s) {
    o.clear();
    auto* b = i.rdbuf();
    size_t lim = i.width() > 0 ? i.width() : (size_t)-1;
    while (b->g_ < b->data_.size() && o.size() < lim && !basic_istream<char, char_traits<char>>::sx_space(b->data_[b->g_])) o.push_back(b->data_[b->g_++]);
    i.width(0);
    ios_base::iostate st = b->g_ >= b->data_.size() ? ios_base::eofbit : 0;
    if (o.empty()) st |= ios_base::failbit;
    if (st) i.setstate(st);
  }
  return i;
}
inline basic_istream<char, char_traits<char>>& getline(basic_istream<char, char_traits<char>>& i, std::string& o, char d) {
  basic_istream<char, char_traits<char>>::sentry s(i, true);
  if (s) {
    o.clear();
    auto* b = i.rdbuf();
    bool found = false, any = false;
    while (b->g_ < b->data_.size()) {
      char c = b->data_[b->g_++];
      any = true;
      if (c == d) { found = true; break; }
      o.push_back(c);
    }
    if (!found) i.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit);
  }
  return i;
}
inline basic_istream<char, char_traits<char>>& getline(basic_istream<char, char_traits<char>>& i, std::string& o) { return getline(i, o, '\n'); }
inline basic_istream<char, char_traits<char>>& getline(basic_istream<char, char_traits<char>>&& i, std::string& o) { return getline(i, o, '\n'); }
template <typename C, typename T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) {
  auto* b = i.rdbuf();
  while (b->g_ < b->data_.size() && basic_istream<C, T>::sx_space(b->data_[b->g_])) b->g_++;
  if (b->g_ >= b->data_.size()) i.setstate(ios_base::eofbit);
  return i;
}
template <typename S, typename V, typename = enable_if_t<is_base_of_v<ios_base, remove_reference_t<S>> && !is_lvalue_reference_v<S>>>
inline S&& operator>>(S&& s, V&& v) { static_cast<remove_reference_t<S>&>(s) >> v; return std::move(s); }

template <typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
 public:
  basic_iostream() {}
  explicit basic_iostream(basic_streambuf<C, T>* b) { this->init(b); }
};
inline namespace __cxx11 {
template <typename C, typename T, typename A>
class basic_stringbuf : public basic_streambuf<C, T> {
 public:
  std::string str() const { return this->data_; }
  void str(const std::string& s) { this->data_ = s; this->g_ = 0; }
};
#define SX_SSTREAM(NAME, BASE)                                                            \
  template <typename C, typename T, typename A>                                           \
  class NAME : public BASE<C, T> {                                                        \
    basic_stringbuf<C, T, A> b_;                                                          \
   public:                                                                                \
    NAME() { this->init(&b_); }                                                           \
    explicit NAME(ios_base::openmode) { this->init(&b_); }                                \
    explicit NAME(const std::basic_string<C>& s, ios_base::openmode = 0) { this->init(&b_); b_.data_ = s; } \
    NAME(NAME&& o) : b_(o.b_) { this->init(&b_); }                                        \
    std::basic_string<C> str() const { return b_.data_; }                                 \
    void str(const std::basic_string<C>& s) { b_.data_ = s; b_.g_ = 0; }                  \
    std::basic_string_view<C> view() const { return b_.data_; }                           \
    basic_stringbuf<C, T, A>* rdbuf() const { return const_cast<basic_stringbuf<C, T, A>*>(&b_); } \
  };
SX_SSTREAM(basic_istringstream, basic_istream)
SX_SSTREAM(basic_ostringstream, basic_ostream)
SX_SSTREAM(basic_stringstream, basic_iostream)
}  // namespace __cxx11

template <typename C, typename T>
class basic_filebuf : public basic_streambuf<C, T> {};
#define SX_FSTREAM(NAME, BASE, RD, WR)                                                    \
  template <typename C, typename T>                                                       \
  class NAME : public BASE<C, T> {                                                        \
    basic_filebuf<C, T> b_;                                                               \
    std::string n_;                                                                       \
    bool open_ = false;                                                                   \
   public:                                                                                \
    NAME() { this->init(&b_); }                                                           \
    explicit NAME(const std::string& n, ios_base::openmode m = 0) { this->init(&b_); open(n, m); } \
    explicit NAME(const char* n, ios_base::openmode m = 0) { this->init(&b_); open(n, m); } \
    ~NAME() { close(); }                                                                  \
    void open(const std::string& n, ios_base::openmode m = 0) {                           \
      n_ = n;                                                                             \
      if (RD) {                                                                           \
        const std::string* f = sx_file_lookup(n);                                         \
        if (!f) { this->setstate(ios_base::failbit); return; }                            \
        b_.data_ = *f;                                                                    \
        b_.g_ = 0;                                                                        \
      } else if (m & ios_base::app) {                                                     \
        const std::string* f = sx_file_lookup(n);                                         \
        if (f) b_.data_ = *f;                                                             \
      }                                                                                   \
      open_ = true;                                                                       \
    }                                                                                     \
    bool is_open() const { return open_; }                                                \
    void close() { if (open_ && WR) sx_file_store(n_, b_.data_); open_ = false; }         \
    basic_filebuf<C, T>* rdbuf() const { return const_cast<basic_filebuf<C, T>*>(&b_); }  \
  };
SX_FSTREAM(basic_ifstream, basic_istream, true, false)
SX_FSTREAM(basic_ofstream, basic_ostream, false, true)
SX_FSTREAM(basic_fstream, basic_iostream, true, true)

// iomanip
struct sx_setw { int n; };
inline sx_setw setw(int n) { return {n}; }
struct sx_setp { int n; };
inline sx_setp setprecision(int n) { return {n}; }
struct sx_setfill { char c; };
inline sx_setfill setfill(char c) { return {c}; }
struct sx_setbase { int b; };
inline sx_setbase setbase(int b) { return {b}; }
template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, sx_setw m) { o.width(m.n); return o; }
template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, sx_setp m) { o.precision(m.n); return o; }
template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, sx_setfill m) { o.fill(m.c); return o; }
template <class C, class T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& o, sx_setw m) { o.width(m.n); return o; }

extern ostream cout, cerr, clog;
extern istream cin;
}  // namespace std
#include <bits/streambuf_iterator.h>
#endif
