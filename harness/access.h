// Accessors of a match: every way to take the text and the accept index must give the same answer.
#ifndef VP_ACCESS_H
#define VP_ACCESS_H
#include "vp.h"
namespace vp {
template<class MT> inline std::string bad_access(MT& m, Rng& r, size_t acc, const std::string& w) {
  ctx().evaluations++;
  switch (r(14)) {
    case 0: if (m.accept() != acc || static_cast<size_t>(m) != acc) return "accept()"; break;
    case 1: if (m.str() != w || m.size() != w.size()) return "str()"; break;
    case 2: if (std::string(m.begin(), m.end()) != w) return "begin()..end()"; break;
    case 3: { std::pair<size_t,std::string> p = m.pair(); if (p.first != acc || p.second != w) return "pair()"; break; }
    case 4: { std::string s = m; if (s != w) return "std::string(matcher)"; break; }
    case 5: { std::pair<const char*,size_t> p = m[0]; if (std::string(p.first, p.second) != w) return "[0]"; break; }
    case 6: if (!(m == w) || m != w) return "== std::string"; if (m == w + "x" || !(m != w + "x")) return "== longer std::string"; break;
    case 7: if (!w.empty() && (m == w.substr(0, w.size() - 1) || !(m != w.substr(0, w.size() - 1)))) return "== shorter std::string"; break;
    case 8: {
      // a buffer of exactly the size of the string, to detect reads behind its terminator
      std::string z = r.chance(1, 2) ? w : w.substr(0, r(static_cast<uint32_t>(w.size() + 1)));
      if (r.chance(1, 4)) z += 'x';
      std::unique_ptr<char[]> q(new char[strlen(z.c_str()) + 1]);
      strcpy(q.get(), z.c_str());
      bool same = strlen(q.get()) == w.size() && memcmp(q.get(), w.data(), w.size()) == 0;
      const char *s = q.get();
      if ((m == s) != same || (m != s) == same) return "== const char*";
      break;
    }
    case 9: if (!(m == acc) || m != acc || m == acc + 1 || !(m != acc + 1)) return "== size_t"; break;
    case 10: if (acc < 0x7FFFFFFF && (!(m == static_cast<int>(acc)) || m != static_cast<int>(acc) || m == static_cast<int>(acc) + 1)) return "== int"; break;
    case 11: if (m.chr() != (w.empty() ? m.chr() : w[0])) return "chr()"; break;
    case 12: { size_t k = 0; for (char b : w) k += (b & 0xC0) != 0x80; if (m.wsize() != k) return "wsize()"; break; }
    default: { const char *t = m.text(); if (memcmp(t, w.data(), w.size()) != 0 || t[w.size()] != '\0') return "text()"; if (m.str() != w) return "str() after text()"; break; }
  }
  return std::string();
}

// Step through the matches with the functor, an iterator or a constant iterator.
template<class MT> class Stepper {
 public:
  Stepper(MT& m, int method, Rng& r) : m_(m), method_(method), style_(r(5)), first_(true), r_(r) { }
  size_t next() {
    typename MT::Operation& op = method_ == 0 ? m_.scan : method_ == 1 ? m_.find : m_.split;
    switch (style_) {
      case 0: case 1: return op();
      case 2:
      case 3:
        if (first_) it_ = op.begin();
        else if (style_ == 2) ++it_;
        else it_++;
        first_ = false;
        if (it_ == op.end()) { style_ = 0; return 0; }
        if (!(it_ != op.end()) || &*it_ != &m_) { ctx().fail("iterator", "iterator does not refer to its matcher"); return 0; }
        return it_->accept();
      default:
        if (first_) ct_ = op.cbegin();
        else ++ct_;
        first_ = false;
        if (ct_ == op.cend()) { style_ = 0; return 0; }
        return ct_->accept();
    }
  }
  int style() const { return style_; }
 private:
  MT& m_;
  int method_, style_;
  bool first_;
  Rng& r_;
  typename MT::iterator it_;
  typename MT::const_iterator ct_;
};
}
#endif
