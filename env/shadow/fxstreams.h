// Simplified C++ streams for the symbolic executor (the native replay uses the real ones).
#pragma once
#include <iosfwd>
#include <string>
#include <string_view>
#include <system_error>
#include <vector>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern "C" { void *fx_io_open(const char *name, const char *mode); int fx_io_close(void *f); size_t fx_io_read(void *f, void *p, size_t n); size_t fx_io_write(void *f, const void *p, size_t n); size_t fx_io_size(void *f); }
namespace std {
typedef ptrdiff_t streamsize;
class ios_base {
 public:
  typedef unsigned fmtflags, iostate, openmode;
  enum : unsigned { goodbit = 0, badbit = 1, eofbit = 2, failbit = 4 };
  enum : unsigned { app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32 };
  enum : unsigned { boolalpha = 1, dec = 2, fixed = 4, hex = 8, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, skipws = 4096, uppercase = 16384, basefield = 2 | 8 | 64, adjustfield = 32 | 128, floatfield = 4 | 256 };
  enum seekdir { beg, cur, end };
  class failure : public system_error { public: failure(const char *s) : system_error(make_error_code(errc::io_error), s) {} };
  unsigned fl_ = dec | skipws; long width_ = 0, prec_ = 6; 
  unsigned flags() const { return fl_; } unsigned flags(unsigned f) { auto o = fl_; fl_ = f; return o; }
  unsigned setf(unsigned f) { auto o = fl_; fl_ |= f; return o; } unsigned setf(unsigned f, unsigned m) { auto o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(unsigned f) { fl_ &= ~f; }
  long width() const { return width_; } long width(long w) { auto o = width_; width_ = w; return o; } long precision() const { return prec_; } long precision(long p) { auto o = prec_; prec_ = p; return o; }
};
template <class C, class T> class basic_streambuf {
 public:
  string d_; size_t g_ = 0;
  typedef C char_type; typedef T traits_type; typedef int int_type;
  int sgetc() { return g_ < d_.size() ? (int)(unsigned char)d_[g_] : -1; }
  int sbumpc() { return g_ < d_.size() ? (int)(unsigned char)d_[g_++] : -1; }
  int snextc() { return sbumpc() == -1 ? -1 : sgetc(); }
  long sgetn(char *p, long n) { long k = 0; while (k < n && g_ < d_.size()) p[k++] = d_[g_++]; return k; }
  int sputc(char c) { d_.push_back(c); return (unsigned char)c; }
  long sputn(const char *p, long n) { d_.append(p, n); return n; }
  int sungetc() { if (!g_) return -1; return (unsigned char)d_[--g_]; }
  long in_avail() { return d_.size() - g_; }
};
inline namespace __cxx11 { template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {}; }
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> { public: void *h_ = nullptr; bool is_open() const { return h_ != nullptr; } };
template <class C, class T> class basic_ios : public ios_base {
 public:
  basic_streambuf<C, T> *sb_ = nullptr; unsigned st_ = 0, ex_ = 0;
  basic_ios() {} explicit basic_ios(basic_streambuf<C, T> *b) : sb_(b) {}
  basic_streambuf<C, T> *rdbuf() const { return sb_; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto *o = sb_; sb_ = b; return o; }
  void clear(unsigned s = 0) { st_ = s; if (st_ & ex_) throw failure("basic_ios::clear"); }
  void setstate(unsigned s) { clear(st_ | s); }
  unsigned rdstate() const { return st_; } unsigned exceptions() const { return ex_; } void exceptions(unsigned e) { ex_ = e; clear(st_); }
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  char fill_ = ' '; char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
 public:
  basic_ostream() {} explicit basic_ostream(basic_streambuf<C, T> *b) { this->sb_ = b; }
  typedef basic_ostream S;
  S &write(const char *p, long n) { if (this->sb_) this->sb_->sputn(p, n); return *this; }
  S &put(char c) { if (this->sb_) this->sb_->sputc(c); return *this; }
  S &flush() { return *this; }
  S &emit(const char *p, long n) { long w = this->width_; this->width_ = 0; if (!this->sb_) return *this; bool l = this->fl_ & ios_base::left; if (!l) for (long i = n; i < w; i++) this->sb_->sputc(this->fill_); this->sb_->sputn(p, n); if (l) for (long i = n; i < w; i++) this->sb_->sputc(this->fill_); return *this; }
  S &num(const char *fd, const char *fx, const char *fo, long v, unsigned long u) { char b[40]; if (!this->sb_) return *this; int n = this->fl_ & ios_base::hex ? snprintf(b, sizeof b, fx, u) : this->fl_ & ios_base::oct ? snprintf(b, sizeof b, fo, u) : snprintf(b, sizeof b, fd, v); return emit(b, n); }
  S &operator<<(bool v) { return emit(v ? "1" : "0", 1); }
  S &operator<<(short v) { return num("%ld", "%lx", "%lo", v, (unsigned short)v); } S &operator<<(unsigned short v) { return num("%lu", "%lx", "%lo", v, v); }
  S &operator<<(int v) { return num("%ld", "%lx", "%lo", v, (unsigned)v); } S &operator<<(unsigned v) { return num("%lu", "%lx", "%lo", v, v); }
  S &operator<<(long v) { return num("%ld", "%lx", "%lo", v, v); } S &operator<<(unsigned long v) { return num("%lu", "%lx", "%lo", (long)v, v); }
  S &operator<<(long long v) { return num("%ld", "%lx", "%lo", v, v); } S &operator<<(unsigned long long v) { return num("%lu", "%lx", "%lo", (long)v, v); }
  S &operator<<(double v) { char b[64]; int n = snprintf(b, sizeof b, "%g", v); return emit(b, n); } S &operator<<(float v) { return *this << (double)v; }
  S &operator<<(const void *p) { return emit("0x0", 3); }
  S &operator<<(basic_streambuf<C, T> *b) { if (this->sb_ && b) while (b->sgetc() != -1) this->sb_->sputc(b->sbumpc()); return *this; }
  S &operator<<(S &(*f)(S &)) { return f(*this); }
  S &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const char *s) { return o.emit(s, strlen(s)); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, char c) { return o.emit(&c, 1); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, unsigned char c) { return o.emit((char *)&c, 1); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, signed char c) { return o.emit((char *)&c, 1); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const string &s) { return o.emit(s.data(), s.size()); }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, string_view s) { return o.emit(s.data(), s.size()); }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o; }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { o.put(0); return o; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
 public:
  typedef basic_istream S; long gc_ = 0;
  basic_istream() {} explicit basic_istream(basic_streambuf<C, T> *b) { this->sb_ = b; }
  S &read(char *p, long n) { gc_ = this->sb_->sgetn(p, n); if (gc_ < n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
  long gcount() const { return gc_; }
  int get() { int c = this->sb_->sbumpc(); if (c == -1) this->setstate(ios_base::eofbit | ios_base::failbit); return c; }
  S &get(char &c) { int k = get(); if (k != -1) c = k; return *this; }
  S &seekg(long p) { this->sb_->g_ = (size_t)p <= this->sb_->d_.size() ? p : this->sb_->d_.size(); return *this; } S &seekg(long o, int w) { return seekg(w == 0 ? o : w == 1 ? (long)this->sb_->g_ + o : (long)this->sb_->d_.size() + o); } long tellg() { return this->sb_->g_; }
  int peek() { return this->sb_->sgetc(); } S &unget() { this->sb_->sungetc(); return *this; }
  S &ignore(long n = 1) { while (n-- > 0 && this->sb_->sbumpc() != -1) ; return *this; }
  void ws_() { if (this->fl_ & ios_base::skipws) while (true) { int c = this->sb_->sgetc(); if (!(c == ' ' || (c >= 9 && c <= 13))) break; this->sb_->sbumpc(); } }
  template <class I> S &rdint(I &v) { ws_(); char b[32]; int n = 0; int c; while (n < 30 && ((c = this->sb_->sgetc()) == '-' || c == '+' || (c >= '0' && c <= '9'))) { b[n++] = c; this->sb_->sbumpc(); } b[n] = 0; char *e; long x = strtol(b, &e, 10); if (!n || e == b) { v = 0; this->setstate(ios_base::failbit); } else { v = (I)x; if ((long)v != x) this->setstate(ios_base::failbit); } if (this->sb_->sgetc() == -1) this->setstate(ios_base::eofbit); return *this; }
  S &operator>>(int &v) { return rdint(v); } S &operator>>(unsigned &v) { return rdint(v); } S &operator>>(long &v) { return rdint(v); } S &operator>>(unsigned long &v) { return rdint(v); } S &operator>>(short &v) { return rdint(v); } S &operator>>(unsigned short &v) { return rdint(v); } S &operator>>(bool &v) { int x; rdint(x); v = x; return *this; }
  S &operator>>(double &v) { ws_(); string t; int c; while ((c = this->sb_->sgetc()) != -1 && c > ' ') t.push_back(this->sb_->sbumpc()); char *e; v = strtod(t.c_str(), &e); if (e == t.c_str()) this->setstate(ios_base::failbit); return *this; }
  S &operator>>(S &(*f)(S &)) { return f(*this); }
};
inline basic_istream<char> &operator>>(basic_istream<char> &i, string &s) { i.ws_(); s.clear(); int c; while ((c = i.rdbuf()->sgetc()) != -1 && !(c == ' ' || (c >= 9 && c <= 13))) { s.push_back(c); i.rdbuf()->sbumpc(); } if (c == -1) i.setstate(ios_base::eofbit | (s.empty() ? ios_base::failbit : 0)); else if (s.empty()) i.setstate(ios_base::failbit); return i; }
inline basic_istream<char> &operator>>(basic_istream<char> &i, char &c) { i.ws_(); int k = i.rdbuf()->sbumpc(); if (k == -1) i.setstate(ios_base::eofbit | ios_base::failbit); else c = k; return i; }
inline basic_istream<char> &getline(basic_istream<char> &i, string &s, char d = '\n') { s.clear(); bool any = false; while (true) { int c = i.rdbuf()->sbumpc(); if (c == -1) { i.setstate(ios_base::eofbit | (any ? 0 : ios_base::failbit)); break; } any = true; if (c == d) break; s.push_back(c); } return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T> *b) { this->sb_ = b; } };
inline namespace __cxx11 { template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { basic_stringbuf<C, T, A> b_; public: basic_istringstream() { this->sb_ = &b_; } explicit basic_istringstream(const string &s, unsigned = 0) { b_.d_ = s; this->sb_ = &b_; } string str() const { return b_.d_; } void str(const string &s) { b_.d_ = s; b_.g_ = 0; } }; }
inline namespace __cxx11 { template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { basic_stringbuf<C, T, A> b_; public: basic_ostringstream() { this->sb_ = &b_; } explicit basic_ostringstream(const string &s, unsigned = 0) { b_.d_ = s; this->sb_ = &b_; } string str() const { return b_.d_; } void str(const string &s) { b_.d_ = s; } }; }
inline namespace __cxx11 { template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { basic_stringbuf<C, T, A> b_; public: basic_stringstream() { this->sb_ = &b_; } explicit basic_stringstream(const string &s, unsigned = 0) { b_.d_ = s; this->sb_ = &b_; } string str() const { return b_.d_; } void str(const string &s) { b_.d_ = s; b_.g_ = 0; } }; }
template <class C, class T> inline long __copy_streambufs_eof(basic_streambuf<C, T> *i, basic_streambuf<C, T> *o, bool &e) { long n = 0; e = true; while (i->sgetc() != -1) { o->sputc(i->sbumpc()); n++; } return n; }
template <class F> inline void fx_loadfile(F &b, void *h) { size_t n = fx_io_size(h); b.d_.resize(n); if (n) fx_io_read(h, &b.d_[0], n); b.g_ = 0; }
template <class C, class T> class basic_ifstream : public basic_istream<C, T> { basic_filebuf<C, T> b_; public: basic_ifstream() { this->sb_ = &b_; } explicit basic_ifstream(const string &n, unsigned m = 0) { this->sb_ = &b_; open(n, m); } explicit basic_ifstream(const char *n, unsigned m = 0) { this->sb_ = &b_; open(n, m); }
  void open(const char *n, unsigned = 0) { b_.h_ = fx_io_open(n, "r"); if (!b_.h_) { this->setstate(ios_base::failbit); return; } fx_loadfile(b_, b_.h_); this->clear(); } void open(const string &n, unsigned m = 0) { open(n.c_str(), m); }
  bool is_open() const { return b_.h_ != nullptr; } void close() { if (b_.h_) { fx_io_close(b_.h_); b_.h_ = nullptr; } } ~basic_ifstream() { close(); } };
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> { basic_filebuf<C, T> b_; public: basic_ofstream() { this->sb_ = &b_; } explicit basic_ofstream(const string &n, unsigned m = 0) { this->sb_ = &b_; open(n, m); } explicit basic_ofstream(const char *n, unsigned m = 0) { this->sb_ = &b_; open(n, m); }
  void open(const char *n, unsigned m = 0) { b_.h_ = fx_io_open(n, m & ios_base::app ? "a" : "w"); if (!b_.h_) this->setstate(ios_base::failbit); } void open(const string &n, unsigned m = 0) { open(n.c_str(), m); }
  bool is_open() const { return b_.h_ != nullptr; } void close() { if (b_.h_) { fx_io_write(b_.h_, b_.d_.data(), b_.d_.size()); fx_io_close(b_.h_); b_.h_ = nullptr; } } ~basic_ofstream() { close(); } };
template <class C, class T> class basic_fstream : public basic_iostream<C, T> {};
inline basic_ostream<char> cout, cerr, clog; inline basic_istream<char> cin;
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; } inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; } inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; } inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; } inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; } inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; } inline ios_base &fixed(ios_base &b) { return b; }
struct fx_setw { long w; }; struct fx_setfill { char c; }; struct fx_setprec { long p; };
inline fx_setw setw(int n) { return {n}; } inline fx_setfill setfill(char c) { return {c}; } inline fx_setprec setprecision(int n) { return {n}; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, fx_setw s) { o.width(s.w); return o; } inline basic_ostream<char> &operator<<(basic_ostream<char> &o, fx_setfill s) { o.fill(s.c); return o; } inline basic_ostream<char> &operator<<(basic_ostream<char> &o, fx_setprec s) { o.precision(s.p); return o; }
inline basic_ostream<char> &operator<<(basic_ostream<char> &o, const error_code &e) { return o << e.category().name() << ':' << e.value(); }
}
#include <bits/stl_iterator_base_types.h>
