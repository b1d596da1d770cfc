// Minimal in-memory replacement of the libstdc++ stream classes, used only for the symbolic build
// (native replay uses the real ones).  Force-included before every translation unit: first all standard
// headers are read, then the stream names are redirected by macros to the simple classes below.
#pragma once
#ifdef __cplusplus
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <array>
#include <memory>
#include <functional>
#include <algorithm>
#include <numeric>
#include <limits>
#include <optional>
#include <variant>
#include <tuple>
#include <utility>
#include <iterator>
#include <exception>
#include <stdexcept>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cctype>
#include <cassert>
#include <ctime>
#include <climits>
#include <chrono>
#include <thread>
#include <mutex>
#include <atomic>
#include <filesystem>
#include <regex>
#include <random>
#include <bitset>
#include <locale>
#include <charconv>
typedef std::ios_base sx_real_ios_base;
typedef sx_real_ios_base &(*sx_manip)(sx_real_ios_base &);
extern "C" { int symx_is_symbolic(unsigned long); long symx_file_slurp(const char *fn, char **data); void symx_file_put(const char *fn, const char *data, long n); }
namespace std {
class sx_ios {
public:
   typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
   static const fmtflags fixed = 1, scientific = 2, left = 4, right = 8, hex = 16, dec = 32, boolalpha = 64, skipws = 128, internal = 256, uppercase = 512, oct = 1024, showpoint = 2048, floatfield = 3, adjustfield = 268, basefield = 1072;
   static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
   static const openmode in = 1, out = 2, binary = 4, app = 8, trunc = 16, ate = 32;
   static const seekdir beg = 0, cur = 1, end = 2;
   fmtflags fl = 0; long prec = 6, wid = 0; char fillc = ' ';
   struct Init { Init() {} };
   fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { auto o = fl; fl = f; return o; }
   fmtflags setf(fmtflags f) { auto o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = fl; fl = (fl & ~m) | f; return o; } void unsetf(fmtflags f) { fl &= ~f; }
   long precision() const { return prec; } long precision(long p) { auto o = prec; prec = p; return o; }
   long width() const { return wid; } long width(long p) { auto o = wid; wid = p; return o; }
};
class sx_streambuf {
public:
   std::string buf; size_t rp = 0; std::string fname; bool toFile = false; bool opened = false;
   virtual ~sx_streambuf() {}
   void put(const char *p, size_t n) { buf.append(p, n); }
   int sgetc() { return rp < buf.size() ? (unsigned char) buf[rp] : -1; } int sbumpc() { return rp < buf.size() ? (unsigned char) buf[rp++] : -1; }
   int snextc() { sbumpc(); return sgetc(); } int sputc(char c) { buf.push_back(c); return c; }
};
class sx_ios_t : public sx_ios {
public:
   iostate st = goodbit; sx_streambuf *sb = nullptr; void *tied = nullptr;
   bool good() const { return !st; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
   explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
   iostate rdstate() const { return st; } void clear(iostate s = goodbit) { st = s; } void setstate(iostate s) { st |= s; }
   sx_streambuf *rdbuf() const { return sb; } sx_streambuf *rdbuf(sx_streambuf *b) { auto *o = sb; sb = b; st = 0; return o; }
   char fill() const { return fillc; } char fill(char c) { char o = fillc; fillc = c; return o; }
   void exceptions(iostate) {} template<class L> void imbue(const L &) {}
};
class sx_ostream : virtual public sx_ios_t {
public:
   typedef sx_ostream Self;
   sx_ostream() {} explicit sx_ostream(sx_streambuf *b) { this->sb = b; }
   Self &raw(const char *p, size_t n) { if (this->sb) this->sb->put(p, n); else this->st |= sx_ios::badbit; return *this; }
   Self &ins(const char *p, size_t n) {
      long w = this->wid; this->wid = 0;
      if (w > (long) n) { std::string pad((size_t) (w - (long) n), this->fillc); if (this->fl & sx_ios::left) { raw(p, n); raw(pad.data(), pad.size()); } else { raw(pad.data(), pad.size()); raw(p, n); } return *this; }
      return raw(p, n);
   }
   Self &num(const char *f, long v) { if (symx_is_symbolic((unsigned long) v)) return ins("?", 1); char b[40]; int k = snprintf(b, 40, f, v); return ins(b, (size_t) k); }
   Self &operator<<(int v) { return num(this->fl & sx_ios::hex ? "%lx" : "%ld", this->fl & sx_ios::hex ? (long) (unsigned) v : v); } Self &operator<<(long v) { return num(this->fl & sx_ios::hex ? "%lx" : "%ld", v); } Self &operator<<(long long v) { return num("%ld", (long) v); } Self &operator<<(short v) { return num("%ld", (long) v); }
   Self &operator<<(unsigned v) { return num(this->fl & sx_ios::hex ? "%lx" : "%lu", v); } Self &operator<<(unsigned long v) { return num(this->fl & sx_ios::hex ? "%lx" : "%lu", v); } Self &operator<<(unsigned long long v) { return num("%lu", v); } Self &operator<<(unsigned short v) { return num("%lu", v); }
   Self &operator<<(bool v) { if (this->fl & sx_ios::boolalpha) return v ? ins("true", 4) : ins("false", 5); return num("%ld", (long) v); }
   Self &operator<<(double v) { unsigned long q; memcpy(&q, &v, 8); if (symx_is_symbolic(q)) return ins("?", 1); char b[400]; int k; if (this->fl & sx_ios::fixed) k = snprintf(b, 400, "%.*f", (int) this->prec, v); else if (this->fl & sx_ios::scientific) k = snprintf(b, 400, "%.*e", (int) this->prec, v); else k = snprintf(b, 400, "%.*g", (int) this->prec, v); return ins(b, (size_t) k); }
   Self &operator<<(float v) { return *this << (double) v; }
   Self &operator<<(const void *) { return ins("0x?", 3); }
   Self &operator<<(sx_streambuf *b) { if (b) { raw(b->buf.data() + b->rp, b->buf.size() - b->rp); b->rp = b->buf.size(); } return *this; }
   Self &operator<<(Self &(*f)(Self &)) { return f(*this); }
   Self &operator<<(sx_ios &(*f)(sx_ios &)) { f(*this); return *this; }
   Self &operator<<(sx_manip f) { if (f == (sx_manip) std::hex) this->setf(sx_ios::hex, sx_ios::basefield); else if (f == (sx_manip) std::dec) this->setf(sx_ios::dec, sx_ios::basefield); else if (f == (sx_manip) std::left) this->setf(sx_ios::left, sx_ios::adjustfield); else if (f == (sx_manip) std::right) this->setf(sx_ios::right, sx_ios::adjustfield); return *this; }
   Self &put(char c) { return raw(&c, 1); } Self &write(const char *p, long n) { return raw(p, (size_t) n); } Self &flush() { return *this; } Self &sx_flush() { return *this; }
   long tellp() { return this->sb ? (long) this->sb->buf.size() : -1; }
};
inline sx_ostream &operator<<(sx_ostream &o, char c) { return o.ins(&c, 1); }
inline sx_ostream &operator<<(sx_ostream &o, unsigned char c) { char x = (char) c; return o.ins(&x, 1); }
inline sx_ostream &operator<<(sx_ostream &o, const std::string &p) { return o.ins(p.data(), p.size()); }
inline sx_ostream &operator<<(sx_ostream &o, std::string_view p) { return o.ins(p.data(), p.size()); }
inline sx_ostream &operator<<(sx_ostream &o, const char *p) { return o.ins(p, __builtin_strlen(p)); }
inline sx_ostream &sx_endl(sx_ostream &o) { return o.put('\n'); }
inline sx_ostream &sx_flush(sx_ostream &o) { return o; }
inline sx_ostream &sx_ends(sx_ostream &o) { return o.put('\0'); }
inline sx_ios &sx_fixed(sx_ios &b) { b.setf(sx_ios::fixed, sx_ios::floatfield); return b; }
inline sx_ios &sx_scientific(sx_ios &b) { b.setf(sx_ios::scientific, sx_ios::floatfield); return b; }
inline sx_ios &sx_defaultfloat(sx_ios &b) { b.unsetf(sx_ios::floatfield); return b; }
inline sx_ios &sx_left(sx_ios &b) { b.setf(sx_ios::left, sx_ios::adjustfield); return b; }
inline sx_ios &sx_right(sx_ios &b) { b.setf(sx_ios::right, sx_ios::adjustfield); return b; }
inline sx_ios &sx_hex(sx_ios &b) { b.setf(sx_ios::hex, sx_ios::basefield); return b; }
inline sx_ios &sx_dec(sx_ios &b) { b.setf(sx_ios::dec, sx_ios::basefield); return b; }
inline sx_ios &sx_boolalpha(sx_ios &b) { b.setf(sx_ios::boolalpha); return b; }
inline sx_ios &sx_noboolalpha(sx_ios &b) { b.unsetf(sx_ios::boolalpha); return b; }
inline sx_ios &sx_uppercase(sx_ios &b) { b.setf(sx_ios::uppercase); return b; }
struct sx_Setw { int n; }; struct sx_Setp { int n; }; struct sx_Setfill { char c; };
inline sx_Setw sx_setw(int n) { return { n }; } inline sx_Setp sx_setprecision(int n) { return { n }; } inline sx_Setfill sx_setfill(char c) { return { c }; }
inline sx_ostream &operator<<(sx_ostream &o, sx_Setw s) { o.wid = s.n; return o; }
inline sx_ostream &operator<<(sx_ostream &o, sx_Setp s) { o.prec = s.n; return o; }
inline sx_ostream &operator<<(sx_ostream &o, sx_Setfill s) { o.fillc = s.c; return o; }

struct sx_PutTime { const struct tm *t; const char *f; }; inline sx_PutTime sx_put_time(const struct tm *t, const char *f) { return { t, f }; }
inline sx_ostream &operator<<(sx_ostream &o, sx_PutTime) { return o.ins("Nov 14, 2023", 12); }
class sx_istream : virtual public sx_ios_t {
public:
   typedef sx_istream Self; long gc = 0;
   sx_istream() {} explicit sx_istream(sx_streambuf *b) { this->sb = b; }
   int get() { int c = this->sb && !this->fail() ? this->sb->sbumpc() : -1; if (c < 0) this->st |= sx_ios::eofbit | sx_ios::failbit; else gc = 1; return c; }
   Self &get(char &c) { int x = get(); if (x >= 0) c = (char) x; return *this; }
   int peek() { int c = this->sb ? this->sb->sgetc() : -1; if (c < 0) this->st |= sx_ios::eofbit; return c; }
   Self &unget() { if (this->sb && this->sb->rp) this->sb->rp--; this->st &= ~sx_ios::eofbit; return *this; }
   Self &read(char *p, long n) { long i = 0; while (i < n) { int c = this->sb ? this->sb->sbumpc() : -1; if (c < 0) { this->st |= sx_ios::eofbit | sx_ios::failbit; break; } p[i++] = (char) c; } gc = i; return *this; }
   long gcount() const { return gc; }
   Self &seekg(long p) { if (this->sb) this->sb->rp = (size_t) p; this->st &= ~sx_ios::eofbit; return *this; }
   Self &seekg(long p, int w) { if (this->sb) this->sb->rp = (size_t) (w == 0 ? p : w == 1 ? (long) this->sb->rp + p : (long) this->sb->buf.size() + p); return *this; }
   long tellg() { return this->sb ? (long) this->sb->rp : -1; }
   Self &ignore(long n = 1, int d = -1) { while (n-- > 0) { int c = get(); if (c < 0 || c == d) break; } return *this; }
   std::string word() { std::string w; int c; while ((c = this->sb ? this->sb->sgetc() : -1) >= 0 && (c == ' ' || (c >= 9 && c <= 13))) this->sb->sbumpc(); while ((c = this->sb ? this->sb->sgetc() : -1) >= 0 && !(c == ' ' || (c >= 9 && c <= 13))) { w.push_back((char) c); this->sb->sbumpc(); } if (c < 0) this->st |= sx_ios::eofbit; if (w.empty()) this->st |= sx_ios::failbit; return w; }
   Self &operator>>(int &v) { auto w = word(); if (!w.empty()) v = (int) strtol(w.c_str(), nullptr, 10); return *this; } Self &operator>>(long &v) { auto w = word(); if (!w.empty()) v = strtol(w.c_str(), nullptr, 10); return *this; }
   Self &operator>>(unsigned &v) { auto w = word(); if (!w.empty()) v = (unsigned) strtol(w.c_str(), nullptr, 10); return *this; } Self &operator>>(unsigned long &v) { auto w = word(); if (!w.empty()) v = (unsigned long) strtol(w.c_str(), nullptr, 10); return *this; }
   Self &operator>>(double &v) { auto w = word(); if (!w.empty()) v = strtod(w.c_str(), nullptr); return *this; }
   Self &operator>>(Self &(*f)(Self &)) { return f(*this); }
};
inline sx_istream &operator>>(sx_istream &i, std::string &s) { s = i.word(); return i; }
inline sx_istream &sx_getline(sx_istream &i, std::string &s, char d) { s.clear(); bool any = false; while (true) { int c = i.sb && !i.fail() ? i.sb->sbumpc() : -1; if (c < 0) { i.st |= sx_ios::eofbit | (any ? 0 : sx_ios::failbit); break; } any = true; if ((char) c == d) break; s.push_back((char) c); } return i; }
inline sx_istream &sx_getline(sx_istream &i, std::string &s) { return sx_getline(i, s, (char) '\n'); }
inline sx_istream &sx_ws(sx_istream &i) { return i; }
class sx_iostream : public sx_istream, public sx_ostream { public: sx_iostream() {} };
class sx_stringbuf : public sx_streambuf { public: std::string str() const { return this->buf; } };
class sx_ostringstream : public sx_ostream { sx_stringbuf b; public: sx_ostringstream() { this->sb = &b; } explicit sx_ostringstream(const std::string &s, unsigned = 0) { this->sb = &b; b.buf = s; } explicit sx_ostringstream(unsigned) { this->sb = &b; } std::string str() const { return b.buf; } void str(const std::string &s) { b.buf = s; b.rp = 0; } };
class sx_istringstream : public sx_istream { sx_stringbuf b; public: sx_istringstream() { this->sb = &b; } explicit sx_istringstream(const std::string &s, unsigned = 0) { this->sb = &b; b.buf = s; } std::string str() const { return b.buf; } void str(const std::string &s) { b.buf = s; b.rp = 0; } };
class sx_stringstream : public sx_iostream { sx_stringbuf b; public: sx_stringstream() { this->sb = &b; } explicit sx_stringstream(const std::string &s, unsigned = 0) { this->sb = &b; b.buf = s; } explicit sx_stringstream(unsigned) { this->sb = &b; } std::string str() const { return b.buf; } void str(const std::string &s) { b.buf = s; b.rp = 0; } };
class sx_filebuf : public sx_streambuf { public: bool is_open() const { return this->opened; } ~sx_filebuf() { done(); } void done() { if (this->opened && this->toFile) symx_file_put(this->fname.c_str(), this->buf.data(), (long) this->buf.size()); this->opened = false; }
   bool openr(const char *f) { char *d; long n = symx_file_slurp(f, &d); if (n < 0) return false; this->buf.assign(d, (size_t) n); this->rp = 0; this->opened = true; this->fname = f; return true; }
   bool openw(const char *f) { this->buf.clear(); this->fname = f; this->toFile = true; this->opened = true; return true; } };
class sx_ifstream : public sx_istream { sx_filebuf b; public: sx_ifstream() { this->sb = &b; } explicit sx_ifstream(const char *f, unsigned = 0) { this->sb = &b; open(f); } explicit sx_ifstream(const std::string &f, unsigned = 0) { this->sb = &b; open(f.c_str()); } void open(const char *f, unsigned = 0) { if (!b.openr(f)) this->st |= sx_ios::failbit; } void open(const std::string &f, unsigned = 0) { open(f.c_str()); } bool is_open() const { return b.is_open(); } void close() { b.done(); } sx_filebuf *rdbuf() const { return const_cast<sx_filebuf *>(&b); } };
class sx_ofstream : public sx_ostream { sx_filebuf b; public: sx_ofstream() { this->sb = &b; } explicit sx_ofstream(const char *f, unsigned = 0) { this->sb = &b; open(f); } explicit sx_ofstream(const std::string &f, unsigned = 0) { this->sb = &b; open(f.c_str()); } void open(const char *f, unsigned = 0) { if (!b.openw(f)) this->st |= sx_ios::failbit; } void open(const std::string &f, unsigned = 0) { open(f.c_str()); } bool is_open() const { return b.is_open(); } void close() { b.done(); } sx_filebuf *rdbuf() const { return const_cast<sx_filebuf *>(&b); } };
class sx_fstream : public sx_iostream { sx_filebuf b; public: sx_fstream() { this->sb = &b; } void close() { b.done(); } bool is_open() const { return b.is_open(); } };
template<class X> struct sx_istreambuf_iterator { sx_streambuf *b = nullptr; typedef std::input_iterator_tag iterator_category; typedef char value_type; typedef long difference_type; typedef const char *pointer; typedef char reference;
   sx_istreambuf_iterator() {} sx_istreambuf_iterator(sx_istream &i) : b(i.sb) {} sx_istreambuf_iterator(sx_streambuf *q) : b(q) {}
   bool atEnd() const { return !b || b->sgetc() < 0; } char operator*() const { return (char) b->sgetc(); } sx_istreambuf_iterator &operator++() { b->sbumpc(); return *this; } sx_istreambuf_iterator operator++(int) { auto t = *this; b->sbumpc(); return t; }
   bool operator==(const sx_istreambuf_iterator &o) const { return atEnd() == o.atEnd(); } bool operator!=(const sx_istreambuf_iterator &o) const { return !(*this == o); } };
template<class X> struct sx_ostreambuf_iterator { sx_streambuf *b = nullptr; typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
   sx_ostreambuf_iterator(sx_ostream &i) : b(i.sb) {} sx_ostreambuf_iterator &operator*() { return *this; } sx_ostreambuf_iterator &operator++() { return *this; } sx_ostreambuf_iterator &operator++(int) { return *this; } sx_ostreambuf_iterator &operator=(char c) { b->sputc(c); return *this; } };
extern sx_ostream sx_cout, sx_cerr, sx_clog; extern sx_istream sx_cin;
}

#define stringstream sx_stringstream
#define ostringstream sx_ostringstream
#define istringstream sx_istringstream
#define ifstream sx_ifstream
#define ofstream sx_ofstream
#define fstream sx_fstream
#define ostream sx_ostream
#define istream sx_istream
#define iostream sx_iostream
#define streambuf sx_streambuf
#define filebuf sx_filebuf
#define stringbuf sx_stringbuf
#define ios_base sx_ios
#define ios sx_ios
#define cout sx_cout
#define cerr sx_cerr
#define clog sx_clog
#define cin sx_cin
#define endl sx_endl
#define ends sx_ends
#define flush sx_flush
#define setw sx_setw
#define setprecision sx_setprecision
#define setfill sx_setfill
#define put_time sx_put_time
#define fixed sx_fixed
#define scientific sx_scientific
#define defaultfloat sx_defaultfloat
#define boolalpha sx_boolalpha
#define getline sx_getline
#define istreambuf_iterator sx_istreambuf_iterator
#define ostreambuf_iterator sx_ostreambuf_iterator
namespace std { using sx_std_left_t = int; }
#endif
