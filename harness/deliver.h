// Matchers that read one byte string through different sources and read schedules.
#ifndef DELIVER_H
#define DELIVER_H
#include "vp.h"
#include <reflex/matcher.h>
#include <sstream>
#include <memory>

namespace dl {
using vp::Rng;

// M = matcher class.  get() returns irregular pieces, never 0 before the end.
template<typename M>
struct Chunked : public M {
  template<typename P>
  Chunked(const P& p, const std::string& s, uint64_t seed, int st, const char *opt = NULL)
    : M(p, reflex::Input(), opt), data(s), at(0), rng(seed), style(st), reads(0) { }
  virtual size_t get(char *s, size_t n) {
    ++reads;
    size_t left = data.size() - at;
    size_t k = n < left ? n : left;
    if (k > 1) {
      if (style == 1) k = 1;
      else if (style == 2) k = 1 + rng(k < 7 ? static_cast<uint32_t>(k) : 7);
      else if (style == 3) k = 1 + rng(static_cast<uint32_t>(k));
      else if (style == 4 && k > 100) k = 1 + rng(100);
    }
    memcpy(s, data.data() + at, k);
    at += k;
    return k;
  }
  std::string data;
  size_t at;
  Rng rng;
  int style;
  uint64_t reads;
};

inline bool bomlike(const std::string& s) {
  unsigned char a = s.size() > 0 ? s[0] : 1, b = s.size() > 1 ? s[1] : 1;
  return a == 0xFE || a == 0xFF || a == 0xEF || (a == 0 && b == 0) || a == 0;
}

// an istream that delivers in small portions
struct SlowBuf : public std::streambuf {
  SlowBuf(const std::string& s, uint64_t seed) : data(s), at(0), rng(seed) { }
  virtual int_type underflow() {
    if (at >= data.size()) return traits_type::eof();
    size_t k = 1 + rng(9);
    if (k > data.size() - at) k = data.size() - at;
    setg(&data[at], &data[at], &data[at] + k);
    at += k;
    return traits_type::to_int_type(*gptr());
  }
  std::string data; size_t at; Rng rng;
};

template<typename M>
struct Source {
  std::unique_ptr<M> m;
  std::unique_ptr<std::istream> is;
  std::unique_ptr<std::streambuf> sb;
  FILE *f;
  std::vector<char> mem, filemem;
  std::string data, how;
  bool blocks = true; // vary the size of the blocks read
  Source() : f(NULL) { }
  ~Source() { m.reset(); if (f) fclose(f); }

  static const int KINDS = 12;
  // kind 0 is the reference delivery
  template<typename P>
  bool make(const P& pat, const std::string& s, int kind, Rng& r, const char *opt = NULL) {
    data = s;
    size_t blk = 0;
    switch (kind) {
      case 0: how = "string"; m.reset(new M(pat, reflex::Input(data), opt)); break;
      case 1: case 2: case 3: case 4:
        how = "chunks" + std::to_string(kind);
        m.reset(new Chunked<M>(pat, s, r.next(), kind, opt));
        if (blocks && r.chance(1, 3)) { blk = r.range(1, 40); how += "/block" + std::to_string(blk); m->buffer(blk); }
        break;
      case 5:
        blk = r.chance(1, 2) ? r.range(1, 8) : r.range(1, 5000);
        how = "string/block" + std::to_string(blk);
        m.reset(new M(pat, reflex::Input(data), opt));
        m->buffer(blk);
        break;
      case 6:
        how = "string/interactive";
        m.reset(new M(pat, reflex::Input(data), opt));
        m->interactive();
        break;
      case 7:
        how = "string/buffer-all";
        m.reset(new M(pat, reflex::Input(data), opt));
        m->buffer();
        break;
      case 8:
        how = "in-place";
        mem.assign(s.begin(), s.end());
        mem.push_back('\0');
        m.reset(new M(pat, reflex::Input(), opt));
        m->buffer(&mem[0], mem.size());
        break;
      case 9:
        if (bomlike(s) || s.empty()) return false;
        how = "FILE";
        filemem.assign(s.begin(), s.end());
        f = fmemopen(&filemem[0], filemem.size(), "r");
        if (!f) return false;
        if (r.chance(1, 2)) { setvbuf(f, NULL, _IOFBF, r.range(1, 64)); how += "/smallbuf"; }
        m.reset(new M(pat, reflex::Input(f), opt));
        if (blocks && r.chance(1, 2)) { blk = r.range(1, 300); how += "/block" + std::to_string(blk); m->buffer(blk); }
        else if (r.chance(1, 3)) { how += "/buffer-all"; m->buffer(); }
        break;
      case 10:
        how = "istringstream";
        is.reset(new std::istringstream(s));
        m.reset(new M(pat, reflex::Input(*is), opt));
        if (blocks && r.chance(1, 2)) { blk = r.range(1, 300); how += "/block" + std::to_string(blk); m->buffer(blk); }
        else if (r.chance(1, 3)) { how += "/buffer-all"; m->buffer(); }
        break;
      default:
        how = "slow-istream";
        sb.reset(new SlowBuf(s, r.next()));
        is.reset(new std::istream(sb.get()));
        m.reset(new M(pat, reflex::Input(*is), opt));
        break;
    }
    return true;
  }
};

} // namespace dl
#endif
