// C12: converted regexes describe the texts of the original, judged by a reference semantics of
// the abstract regex, on the native, PCRE2, Boost and std::regex engines.
#include "vp.h"
#include <reflex/matcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/boostmatcher.h>
#pragma push_macro("ASSERT")
#undef ASSERT
#define ASSERT(c) (void)0
#include <reflex/stdmatcher.h>
#pragma pop_macro("ASSERT")
#include <memory>
#include <algorithm>
using namespace vp;
namespace cf = reflex::convert_flag;

static std::string S(long long n) { return std::to_string(n); }
typedef uint64_t Bits;
static const int CP[] = {
  'a','b','c','k','z','A','B','K','Z','0','7','9','_',' ','\t','\n','\r','-',']','[','^','\\','#','"','/','.','*','+','?','(',')','{','}','|','!','~',',',':','&','=','$',1,0x7F,
  0x85,0xA0,0xDF,0xE9,0xC9,0x3BB,0x39B,0x416,0x661,0x2028,0x4E2D,0x1F600 };
static const int NCP = sizeof CP / sizeof *CP;
static Bits ASCII = 0, ALL = 0;
static int idx(int c) { for (int i = 0; i < NCP; ++i) if (CP[i] == c) return i; return -1; }
static Bits bit(int c) { int i = idx(c); return i < 0 ? 0 : Bits(1) << i; }
static Bits bits(std::initializer_list<int> l) { Bits b = 0; for (int c : l) b |= bit(c); return b; }
static Bits range(int a, int b) { Bits r = 0; for (int i = 0; i < NCP; ++i) if (CP[i] >= a && CP[i] <= b) r |= Bits(1) << i; return r; }
static std::string enc(int c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xC0 + c / 64); s += static_cast<char>(0x80 + c % 64); }
  else if (c < 0x10000) { s += static_cast<char>(0xE0 + c / 4096); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  else { s += static_cast<char>(0xF0 + c / 262144); s += static_cast<char>(0x80 + c / 4096 % 64); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  return s;
}
static bool letter(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
// case pairs: ASCII only (b[0]) or all of Unicode (b[1])
static Bits fold(Bits s, bool uni) {
  static const int P[][2] = { {'a','A'}, {'b','B'}, {'k','K'}, {'z','Z'}, {0xE9,0xC9}, {0x3BB,0x39B} };
  Bits r = s;
  for (auto& p : P) if (p[0] < 0x80 || uni) { Bits a = bit(p[0]), b = bit(p[1]); if (s & (a | b)) r |= a | b; }
  return r;
}

// ---- abstract regex ----
enum K { SET, CAT, ALT, REP };
struct N;
typedef std::shared_ptr<N> P;
struct N { K k; Bits b[2]; bool dot; bool wide; std::vector<P> a; int lo, hi; std::string s; N(K k) : k(k), dot(false), wide(false), lo(0), hi(0) { b[0] = b[1] = 0; } };

// end positions of matches from i
struct Ref {
  const std::vector<int>& t;   // alphabet indices
  int v;                       // folding
  std::map<std::pair<const N*, int>, std::vector<bool> > memo;
  Ref(const std::vector<int>& t, int v) : t(t), v(v) { }
  std::vector<bool> ends(const P& n, int i) {
    auto key = std::make_pair(static_cast<const N*>(n.get()), i);
    auto f = memo.find(key);
    if (f != memo.end()) return f->second;
    std::vector<bool> r(t.size() + 1, false);
    switch (n->k) {
      case SET: if (i < static_cast<int>(t.size()) && (n->b[v] >> t[i] & 1)) r[i + 1] = true; break;
      case CAT: r = seq(n, 0, i); break;
      case ALT: for (auto& a : n->a) { auto e = ends(a, i); for (size_t j = 0; j < r.size(); ++j) if (e[j]) r[j] = true; } break;
      case REP: {
        std::vector<bool> cur(t.size() + 1, false), seen;
        cur[i] = true;
        if (n->lo == 0) r[i] = true;
        int max = n->hi < 0 ? static_cast<int>(t.size()) + n->lo + 1 : n->hi;
        for (int k = 1; k <= max; ++k) {
          std::vector<bool> nx(t.size() + 1, false);
          bool any = false;
          for (size_t j = 0; j < cur.size(); ++j) if (cur[j]) { auto e = ends(n->a[0], j); for (size_t m = 0; m < e.size(); ++m) if (e[m]) { nx[m] = true; any = true; } }
          if (k >= n->lo) for (size_t j = 0; j < r.size(); ++j) if (nx[j]) r[j] = true;
          if (!any) break;
          cur = nx;
        }
        break;
      }
    }
    memo[key] = r;
    return r;
  }
  std::vector<bool> seq(const P& n, size_t k, int i) {
    std::vector<bool> cur(t.size() + 1, false);
    cur[i] = true;
    for (; k < n->a.size(); ++k) {
      std::vector<bool> nx(t.size() + 1, false);
      for (size_t j = 0; j < cur.size(); ++j) if (cur[j]) { auto e = ends(n->a[k], j); for (size_t m = 0; m < e.size(); ++m) if (e[m]) nx[m] = true; }
      cur = nx;
    }
    return cur;
  }
  bool full(const P& n) { return ends(n, 0)[t.size()]; }
};

struct Mode { bool i, s, x, u; };

struct Gen {
  Rng& r;
  reflex::convert_flag_type fl;
  bool lex, bre, u4, nnl, free_, perm;
  bool lexops;                 // {+} etc. allowed
  bool macros_on;
  std::map<std::string, std::string> macros;
  std::map<std::string, P> mtree;
  // what the printed regex uses, for targets with a different reading
  bool uses_posix, uses_setop, uses_dots, inline_i, uni_range_i;
  int width;
  int dots, rep;
  Gen(Rng& r) : r(r), fl(0), lex(false), bre(false), u4(false), nnl(false), free_(false), perm(false), lexops(false), macros_on(false), uses_posix(false), uses_setop(false), uses_dots(false), inline_i(false), uni_range_i(false), width(4), dots(0), rep(0) { }

  Bits universe(const Mode& m) { return m.u ? ALL : ASCII; }
  int anychar(const Mode& m, Bits ex = 0) {
    for (;;) {
      int i = r.chance(2, 3) ? r(13) : r(NCP);
      if ((universe(m) & ~ex) >> i & 1) return CP[i];
    }
  }
  std::string blank(const Mode& m) {
    if (!m.x) return "";
    switch (r(8)) {
      case 0: return " ";
      case 1: return "\t";
      case 2: return "\n";
      case 3: return " \r\n ";
      case 4: if (lex && free_) return " "; { static const char *C[] = { "#\n", "# it's (a\n", "#[b\n", "# c) d|e\n", "#\\\n", "# {x\n", "#\"q\n" }; return std::string(C[r(lex ? 6 : 7)]); }
      default: return "";
    }
  }
  std::string hex(int c, const Mode& m) {
    char b[32];
    switch (r(m.u ? 4 : 3)) {
      case 0: if (c <= 0xFF) { snprintf(b, sizeof b, r.chance(1, 2) ? "\\x%02x" : "\\x%02X", c); return b; } /* fall through */
      case 1: snprintf(b, sizeof b, "\\x{%x}", c); return b;
      case 2: snprintf(b, sizeof b, r.chance(1, 2) ? "\\u{%X}" : "\\u{%04x}", c); return b;
      default:
        if (!u4) { snprintf(b, sizeof b, "\\u{%X}", c); return b; }
        if (c <= 0xFFFF) snprintf(b, sizeof b, "\\u%04x", c);
        else snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3FF));
        return b;
    }
  }
  // one character in the pattern
  std::string chr(int c, const Mode& m) {
    bool alnum = letter(c) || (c >= '0' && c <= '9') || c == '_';
    if (c == '\t' && r.chance(1, 2)) return "\\t";
    if (c == '\n' && (m.x || r.chance(1, 2))) return "\\n";
    if (c == '\r' && (m.x || r.chance(1, 2))) return "\\r";
    if (c == 1 && r.chance(1, 2)) return r.chance(1, 2) ? "\\cA" : "\\001";
    if (c == '0' && r.chance(1, 8)) return "\\0060";
    if (!(letter(c) && m.i) && r.chance(1, 7)) return hex(c, m);
    if (c >= 0x80) return c == 0x85 || c == 0xA0 || c == 0x2028 ? hex(c, m) : enc(c);
    if (alnum) return std::string(1, c);
    if (c == ' ' || c == '\t') {
      if (!m.x) return std::string(1, c);
      return c == '\t' ? "\\t" : r.chance(1, 2) ? "[ ]" : "\\x20";
    }
    if (c == '\n' || c == '\r') return std::string(1, c);
    if (c < 32 || c == 0x7F) return r.chance(1, 2) ? hex(c, m) : std::string(1, c);
    static const char META[] = "#$()*+.?[\\]^{|}\"/~";
    if (bre && strchr("()|{}?+", c)) return std::string(1, c);
    if (strchr(META, c)) {
      if (strchr("\"/~", c) && !lex && r.chance(1, 2)) return std::string(1, c);
      if (c == '#' && ((!m.x && r.chance(1, 2)) || (lex && free_))) return "#";
      return std::string("\\") + static_cast<char>(c);
    }
    if (strchr("!,:&-", c) && r.chance(1, 4)) return std::string("\\") + static_cast<char>(c);
    return std::string(1, c);
  }
  // quoted text
  std::string quote(const std::vector<int>& t) {
    std::string s;
    for (int c : t) s += enc(c);
    if (lex && r.chance(2, 3)) {
      std::string q = "\"";
      for (char c : s) { if (c == '"') q += '\\'; q += c; }
      return q + "\"";
    }
    return "\\Q" + s + "\\E";
  }
  struct Cls { const char *s; Bits a, u; };   // spelling, ASCII members, Unicode members
  static const std::vector<Cls>& classes() {
    static std::vector<Cls> v;
    if (v.empty()) {
      Bits d = range('0', '9'), l = range('a', 'z'), U = range('A', 'Z'), w = d | l | U | bit('_'), s = bits({' ', '\t', '\n', '\r'}), h = bits({' ', '\t'});
      Bits ud = d | bit(0x661), ul = l | bits({0xDF, 0xE9, 0x3BB}), uU = U | bits({0xC9, 0x39B, 0x416}), uL = ul | uU | bit(0x4E2D), uw = ud | uL | bit('_'), us = s | bits({0x85, 0xA0, 0x2028});
      v = { {"\\d", d, ud}, {"\\w", w, uw}, {"\\s", s, us}, {"\\h", h, h}, {"\\p{Alpha}", l | U, l | U}, {"\\p{Digit}", d, d}, {"\\p{Alnum}", d | l | U, d | l | U}, {"\\p{Punct}", range('!', '~') & ~w, range('!', '~') & ~w},
        // indices 8-10: letter case classes
        {"\\l", l, ul}, {"\\u", U, uU}, {"\\p{Upper}", U, U},
        // Unicode only, from 11
        {"\\p{L}", 0, uL}, {"\\p{Nd}", 0, ud}, {"\\p{Greek}", 0, bits({0x3BB, 0x39B})}, {"\\p{Han}", 0, bit(0x4E2D)}, {"\\pN", 0, ud}, {"\\p{Cyrillic}", 0, bit(0x416)}, {"\\p{Zl}", 0, bit(0x2028)}, {"\\p{So}", 0, bit(0x1F600)},
        {"\\p{Lu}", 0, uU}, {"\\p{Ll}", 0, ul} };
      // Punct: '_' is punctuation too
      v[7].a = v[7].u = v[7].a | bit('_');
    }
    return v;
  }
  // a class escape: spelling and members
  std::string cls(const Mode& m, Bits& b, bool list) {
    const std::vector<Cls>& v = classes();
    for (;;) {
      int i = r(static_cast<uint32_t>(m.u ? v.size() : 11));
      if (i == 9 && u4) continue;  // \u takes digits
      bool cased = (i >= 8 && i <= 10) || i >= 19;
      if (cased && m.i) continue;
      Bits a = m.u ? v[i].u : v[i].a;
      std::string s = v[i].s;
      bool neg = r.chance(1, 4) && !nnl && !m.i && s != "\\h";
      if (nnl && s == "\\s") a &= ~bit('\n');
      if (i >= 4 && s[1] == 'p' && s != "\\pN" && i < 11) uses_posix = uses_posix || (list && neg);
      if (s == "\\u" && !list) s = "[\\u]";
      else if (neg) {
        if (s[1] == 'p') { if (s[2] == '{' && r.chance(1, 2)) s = "\\p{^" + s.substr(3); else s[1] = 'P'; }
        else s[1] = static_cast<char>(s[1] - 32);
        a = universe(m) & ~a;
      }
      b = a;
      return s;
    }
  }
  // bracket list, depth limits set operations
  std::string list(const Mode& m, Bits out[2], int depth) {
    for (;;) {
      bool up = uses_posix, us = uses_setop;
      std::string s = "[";
      bool neg = r.chance(1, 4);
      if (neg) s += '^';
      Bits b = 0;
      int n = r.range(1, 4);
      bool atstart = true;
      for (int k = 0; k < n; ++k) {
        switch (r(8)) {
          case 0: case 1: { Bits x; s += cls(m, x, true); b |= x; break; }
          case 2: if (r.chance(1, 2)) {
              static const char *NM[] = { "alpha", "digit", "alnum", "space", "xdigit", "blank", "upper", "lower", "punct", "^digit", "^alpha" };
              Bits d = range('0', '9'), l = range('a', 'z'), U = range('A', 'Z');
              Bits w[] = { l | U, d, d | l | U, bits({' ', '\t', '\n', '\r'}), d | bits({'a', 'b', 'c', 'A', 'B'}), bits({' ', '\t'}), U, l, classes()[7].a, 0, 0 };
              w[9] = universe(m) & ~d;
              w[10] = universe(m) & ~(l | U);
              int i = r(nnl || m.i ? 9 : 11);
              if (m.i && (i == 6 || i == 7)) i = 0;
              s += std::string("[:") + NM[i] + ":]";
              b |= w[i];
              uses_posix = true;
              break;
            }
            /* fall through */
          case 3: {
            // range of alphabet members
            int a = anychar(m), z = anychar(m);
            if (a > z) std::swap(a, z);
            if (m.i && (letter(a) || letter(z)) && false) continue;
            s += lchr(a, m, atstart) + "-" + lchr(z, m, false);
            b |= range(a, z) & universe(m);
            if (m.i) {
              // letters of which the other case is in the range
              for (int j = 0; j < NCP; ++j) if (letter(CP[j]) && (CP[j] ^ 0x20) >= a && (CP[j] ^ 0x20) <= z) b |= Bits(1) << j;
              if (z >= 0x80) uni_range_i = true;
            }
            break;
          }
          default: { int a = anychar(m); s += lchr(a, m, atstart); b |= bit(a); }
        }
        atstart = false;
      }
      if (depth > 0 && !m.i && r.chance(1, 3)) {
        int ops = r.range(1, 2);
        for (int k = 0; k < ops; ++k) {
          Bits x[2];
          std::string q = list(m, x, depth - 1);
          if (macros_on && !m.i && r.chance(1, 4)) { q = "{aset}"; x[0] = range('a', 'c') & universe(m); }
          switch (r(3)) {
            case 0: s += "||" + q; b |= x[0]; break;
            case 1: s += "&&" + q; b &= x[0]; break;
            default: s += "--" + q; b &= ~x[0];
          }
          uses_setop = true;
        }
      }
      s += "]";
      out[0] = m.i ? fold(b, false) : b;
      out[1] = m.i ? fold(b, true) : b;
      if (neg) for (int v = 0; v < 2; ++v) { out[v] = universe(m) & ~out[v]; if (nnl) out[v] &= ~bit('\n'); }
      if (out[0] && b) return s;
      uses_posix = up;
      uses_setop = us;
    }
  }
  // one character in a bracket list
  std::string lchr(int c, const Mode& m, bool) {
    if (c == '\n') return "\\n";
    if (c == '\t') return "\\t";
    if (c == '\r') return "\\r";
    if (!(letter(c) && m.i) && r.chance(1, 8)) return hex(c, m);
    if (c == 0x85 || c == 0xA0 || c == 0x2028 || c < 32 || c == 0x7F) return hex(c, m);
    if (c >= 0x80) return enc(c);
    if (strchr("][\\^-&|{}", c)) return std::string("\\") + static_cast<char>(c);
    if (c == '"' && lex) return "\\\"";
    return std::string(1, c);
  }
  P lit(int c, const Mode& m) {
    P n(new N(SET));
    n->b[0] = m.i ? fold(bit(c), false) : bit(c);
    n->b[1] = m.i ? fold(bit(c), true) : bit(c);
    n->wide = c >= 0x80;
    return n;
  }
  // an atom that a quantifier may follow
  std::string atom(const Mode& m, P& n, int depth) {
    std::string s = blank(m);
    if (!bre && r.chance(1, 40)) s += r.chance(1, 2) ? "(?#c)" : "(?#a|b[c)";
    int k = r(20);
    if (k < 8) { int c = anychar(m); n = lit(c, m); return s + chr(c, m); }
    if (k < 10) {
      n = P(new N(SET));
      bool N_ = r.chance(1, 4);
      n->b[0] = n->b[1] = m.s && !N_ ? universe(m) : universe(m) & ~bit('\n');
      n->dot = true;
      ++dots;
      if (rep || dots > 1) uses_dots = true;
      return s + (N_ ? "\\N" : ".");
    }
    if (k < 12) { n = P(new N(SET)); Bits b; s += cls(m, b, false); n->b[0] = m.i ? fold(b, false) : b; n->b[1] = m.i ? fold(b, true) : b; return s; }
    if (k < 15) {
      n = P(new N(SET));
      s += list(m, n->b, bre ? 0 : 2);
      if (lexops && !m.i && !nnl && r.chance(1, 3)) {
        int ops = r.range(1, 2);
        for (int j = 0; j < ops; ++j) {
          Bits x[2];
          std::string q = list(m, x, 0);
          if (macros_on && !m.i && r.chance(1, 4)) { q = "{aset}"; x[0] = range('a', 'c') & universe(m); }
          Bits b = n->b[0];
          int op = r(4);
          if (op < 2) b |= x[0]; else if (op == 2) b &= x[0]; else b &= ~x[0];
          if (!b) break;
          s += std::string("{") + "+|&-"[op] + "}" + q;
          n->b[0] = n->b[1] = b;
          uses_setop = true;
        }
      }
      return s;
    }
    if (k == 15 && macros_on && !m.i) {
      auto i = mtree.begin();
      std::advance(i, r(static_cast<uint32_t>(mtree.size())));
      n = i->second;
      return s + "{" + i->first + "}";
    }
    if (k == 16) {
      // quoted text as an atom: a group
      std::vector<int> t;
      int len = r.range(1, 3);
      for (int j = 0; j < len; ++j) { int c = anychar(m, bit('\\') | bit(1) | bit(0x7F) | bit(0x85) | bit(0xA0) | bit(0x2028)); t.push_back(c); }
      n = P(new N(CAT));
      for (int c : t) n->a.push_back(lit(c, m));
      if (bre) { s += "\\("; for (int c : t) s += chr(c, m); return s + "\\)"; }
      return s + "(?:" + quote(t) + ")";
    }
    if (depth <= 0) { int c = anychar(m); n = lit(c, m); return s + chr(c, m); }
    // group
    if (bre) { std::string e = alt(m, n, depth - 1); return s + "\\(" + e + "\\)"; }
    Mode q = m;
    std::string mod;
    if (r.chance(1, 2)) {
      std::string on, off;
      if (r.chance(1, 4)) { on += 'i'; q.i = inline_i = true; } else if (r.chance(1, 6)) { off += 'i'; q.i = false; }
      if (r.chance(1, 4)) { on += 's'; q.s = true; } else if (r.chance(1, 6)) { off += 's'; q.s = false; }
      if (!free_ || !lex) { if (r.chance(1, 4)) { on += 'x'; q.x = true; } else if (r.chance(1, 6)) { off += 'x'; q.x = false; } }
      mod = "?" + on + (off.empty() ? "" : "-" + off) + ":";
    }
    std::string e = alt(q, n, depth - 1);
    return s + "(" + mod + e + blank(q) + ")";
  }
  std::string quant(const Mode& m, P& n, std::string s, bool &q) {
    q = r.chance(1, 3);
    if (!q) return s;
    P p(new N(REP));
    p->a.push_back(n);
    std::string o = bre ? "\\" : "";
    std::string x;
    switch (r(6)) {
      case 0: x = "*"; p->lo = 0; p->hi = -1; break;
      case 1: x = o + "+"; p->lo = 1; p->hi = -1; break;
      case 2: x = o + "?"; p->lo = 0; p->hi = 1; break;
      default: {
        p->lo = r.range(0, 3);
        p->hi = r.chance(1, 3) ? -1 : p->lo + r.range(0, 2);
        if (p->hi == 0) p->hi = p->lo = 1;
        x = o + "{" + S(p->lo) + (p->hi == p->lo ? "" : p->hi < 0 ? "," : "," + S(p->hi)) + o + "}";
      }
    }
    n = p;
    std::string b = blank(m);
    if (b.find('#') != std::string::npos) b = " ";
    return s + b + x;
  }
  std::string seq(const Mode& m, P& n, int depth) {
    n = P(new N(CAT));
    std::string s;
    int k = r.range(1, width);
    for (int i = 0; i < k; ++i) {
      P a;
      int d0 = dots;
      std::string t = atom(m, a, depth);
      bool q;
      t = quant(m, a, t, q);
      if (q && dots > d0) uses_dots = true;
      // quoted text that no quantifier follows
      if (!q && r.chance(1, 12) && !bre) {
        std::vector<int> v;
        int len = r.range(1, 4);
        for (int j = 0; j < len; ++j) v.push_back(anychar(m, bit('\\') | bit(1) | bit(0x7F) | bit(0x85) | bit(0xA0) | bit(0x2028)));
        t += quote(v);
        P c(new N(CAT));
        c->a.push_back(a);
        for (int x : v) c->a.push_back(lit(x, m));
        a = c;
      }
      // "\001" or "\0060" before a digit, "{2}{3}"
      if (!s.empty() && !t.empty() && isdigit(static_cast<unsigned char>(t[0])) && s.size() >= 2 && isdigit(static_cast<unsigned char>(s[s.size() - 1])) && s.find('\\') != std::string::npos) { if (bre) t = "[" + t.substr(0, 1) + "]" + t.substr(1); else s += "(?:)" , s.resize(s.size() - 4), t = "[" + t.substr(0, 1) + "]" + t.substr(1); }
      s += t;
      n->a.push_back(a);
    }
    return s;
  }
  std::string alt(const Mode& m, P& n, int depth) {
    int k = r.chance(2, 3) ? 1 : r.range(2, 3);
    n = P(new N(ALT));
    std::string s;
    for (int i = 0; i < k; ++i) {
      P a;
      if (i) s += (bre ? "\\|" : "|");
      s += seq(m, a, depth);
      n->a.push_back(a);
    }
    return s;
  }
};

static void sample(Rng& r, const P& n, int v, std::vector<int>& t, int budget) {
  switch (n->k) {
    case SET: {
      Bits b = n->b[v];
      if (!b) return;
      int k = __builtin_popcountll(b), j = r(static_cast<uint32_t>(k));
      for (int i = 0; i < NCP; ++i) if (b >> i & 1) if (j-- == 0) { t.push_back(i); return; }
      return;
    }
    case CAT: for (auto& a : n->a) sample(r, a, v, t, budget - 1); return;
    case ALT: sample(r, n->a[r(static_cast<uint32_t>(n->a.size()))], v, t, budget - 1); return;
    case REP: {
      int k = n->lo + (n->hi < 0 ? r(3) : r(static_cast<uint32_t>(n->hi - n->lo + 1)));
      for (int i = 0; i < k && t.size() < 40; ++i) sample(r, n->a[0], v, t, budget - 1);
    }
  }
}

// rough size of the machine
static long weight(const P& n) {
  switch (n->k) {
    case SET: return (n->b[0] & ~ASCII) && __builtin_popcountll(n->b[0]) > 1 ? 30 : 1;
    case REP: return weight(n->a[0]) * (n->hi < 0 ? n->lo + 1 : n->hi);
    default: { long w = 0; for (auto& a : n->a) w += weight(a); return w; }
  }
}

// signatures, as in the matcher classes
static const char *SIG[] = { "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", "imPRsx!#<>=&|'(0123456789*:abcdefghnrstvwxzABCDGHKNQRSVWXZ0123456789?+", "imPRsx!#<>=&|'(0123456789*:abcdefghknprstvwxzABCDGHKNPQRSVWXZ0123456789?+", "imPRsx!#<>=&'(0123456789:abcdefghklnrstuvwxzABCDHLNQSUWZ0123456789<>?+", "!=:bcdfnrstvwxBDSW?", "fnrtv" };
static const char *TGT[] = { "native", "pcre2", "pcre2utf", "boost", "std", "stdposix" };
enum { NATIVE, PCRE, UTF, BOOST, STD, AWK, NT };

// whole-text matching by an engine, independent of the matcher classes except for the native one
struct Engine {
  int tg = -1;
  std::unique_ptr<reflex::Pattern> np;
  std::unique_ptr<reflex::Matcher> nm;
  pcre2_code *pc = NULL;
  pcre2_match_data *md = NULL;
  std::unique_ptr<boost::regex> br;
  std::unique_ptr<std::regex> sr;
  Engine() { }
  Engine(const Engine&) = delete;
  ~Engine() { if (md) pcre2_match_data_free(md); if (pc) pcre2_code_free(pc); }
  void compile(int t, const std::string& re) {
    tg = t;
    switch (t) {
      case NATIVE: np.reset(new reflex::Pattern(re)); nm.reset(new reflex::Matcher(*np)); break;
      case PCRE: case UTF: {
        int err;
        PCRE2_SIZE pos;
        pc = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(re.data()), re.size(), t == UTF ? PCRE2_UTF | PCRE2_UCP : 0, &err, &pos, NULL);
        if (!pc) { PCRE2_UCHAR b[200]; pcre2_get_error_message(err, b, sizeof b); throw std::runtime_error(std::string(reinterpret_cast<char*>(b)) + " at " + S(static_cast<long long>(pos))); }
        md = pcre2_match_data_create_from_pattern(pc, NULL);
        break;
      }
      case BOOST: br.reset(new boost::regex(re)); break;
      case STD: sr.reset(new std::regex(re, std::regex::ECMAScript)); break;
      case AWK: sr.reset(new std::regex(re, std::regex::awk)); break;
    }
  }
  // 0 or the accepted alternative, if captured
  size_t full(const std::string& s) {
    switch (tg) {
      case NATIVE: nm->input(s); return nm->matches();
      case PCRE: case UTF: {
        int rc = pcre2_match(pc, reinterpret_cast<PCRE2_SPTR>(s.data()), s.size(), 0, PCRE2_ANCHORED | PCRE2_ENDANCHORED, md, NULL);
        if (rc == PCRE2_ERROR_NOMATCH) return 0;
        if (rc <= 0) throw std::runtime_error("pcre2");
        PCRE2_SIZE *ov = pcre2_get_ovector_pointer(md);
        size_t k = 1;
        while (k < static_cast<size_t>(rc) && ov[2 * k] == PCRE2_UNSET) ++k;
        return k;
      }
      case BOOST: return boost::regex_match(s, *br, boost::match_default | boost::match_not_dot_newline);
      default: return std::regex_match(s, *sr);
    }
  }
};

static std::string flagstr(reflex::convert_flag_type f) {
  static const char *NM[] = { "basic", "unicode", "recap", "lex", "u4", "anycase", "multiline", "dotall", "freespace", "notnewline", "permissive" };
  std::string s;
  for (int i = 0; i < 11; ++i) if (f >> i & 1) s += std::string(s.empty() ? "" : "|") + NM[i];
  return s.empty() ? "none" : s;
}

static void test(Rng& r, Gen& g, const P& tree, const std::string& regex, const Mode& top) {
  Ctx& c = ctx();
  std::string head = "regex \"" + esc(regex) + "\" flags " + flagstr(g.fl);
  c.set_note(head);
  // texts
  std::vector<std::vector<int> > texts;
  for (int k = 0; k < 14; ++k) {
    std::vector<int> t;
    sample(r, tree, 0, t, 12);
    if (k % 2) {
      int n = r.range(1, 2);
      for (int j = 0; j < n; ++j) {
        int x = -1;
        do x = r.chance(1, 2) ? r(16) : r(NCP); while (!top.u && CP[x] >= 0x80);
        size_t at = r(static_cast<uint32_t>(t.size() + 1));
        switch (r(4)) {
          case 0: t.insert(t.begin() + at, x); break;
          case 1: if (at < t.size()) t.erase(t.begin() + at); break;
          case 2: if (at < t.size()) t[at] = x; break;
          default: if (at < t.size()) { Bits f = fold(Bits(1) << t[at], true) & ~(Bits(1) << t[at]); if (f) t[at] = __builtin_ctzll(f); }
        }
      }
    }
    if (!t.empty() && t.size() < 40) texts.push_back(t);
  }
  if (texts.empty()) return;
  if (weight(tree) > 150) { c.count("too_large"); return; }
  bool pos = false, neg = false;
  for (int tg = 0; tg < NT; ++tg) {
    if (tg == UTF && (!top.u || g.uses_posix || g.uni_range_i)) continue;
    if (tg == BOOST && g.inline_i) continue;    // Boost's own reading of ranges
    if ((tg == UTF || tg == STD || tg == AWK || tg == BOOST) && r.chance(1, 2)) continue;
    bool mac = g.macros_on && tg != UTF;
    if (g.macros_on && tg == UTF) continue;
    std::string conv;
    Engine en;
    std::string h = head + " for " + TGT[tg];
    try {
      if (mac) conv = reflex::convert(regex, SIG[tg], g.fl, &g.macros);
      else switch (tg) {
        case NATIVE: conv = reflex::Matcher::convert(regex, g.fl); break;
        case PCRE: conv = reflex::PCRE2Matcher::convert(regex, g.fl); break;
        case UTF: conv = reflex::PCRE2UTFMatcher::convert(regex, g.fl); break;
        case BOOST: conv = reflex::BoostMatcher::convert(regex, g.fl); break;
        case STD: conv = reflex::StdEcmaMatcher::convert(regex, g.fl); break;
        case AWK: conv = reflex::StdPosixMatcher::convert(regex, g.fl); break;
      }
    }
    catch (const reflex::regex_error& e) {
      if (tg == NATIVE) { c.fail("rejected", h + ": " + e.what()); return; }
      if (e.pos() > regex.size()) { c.fail("error-pos", h + ": position " + S(e.pos())); return; }
      c.count("unsupported");
      continue;
    }
    if ((tg == STD || tg == AWK) && conv.find("\\c") != std::string::npos) continue; // libstdc++ does not convert \cX
    if (tg == BOOST && conv.find("\\N{") != std::string::npos) continue; // a named character for Boost
    std::string cv = " converted \"" + esc(conv, 1000) + "\"";
    c.set_note(h + cv);
    try {
      en.compile(tg, conv);
    }
    catch (const std::exception& e) {
      // the engine does not take what convert() made for it
      std::string w = e.what();
      if (tg == BOOST && (w.find("omplexity") != std::string::npos || w.find("memory") != std::string::npos)) continue;
      c.count((std::string("engine_rejects_") + TGT[tg]).c_str());
      if (tg == STD || tg == AWK || tg == UTF) { c.count("unsupported"); continue; }
      if (tg == BOOST || w.find("too large") != std::string::npos) { c.count("engine_limit"); continue; }
      c.fail(std::string("engine-rejects-") + TGT[tg], h + ": " + w + cv);
      return;
    }
    for (auto& t : texts) {
      std::string s;
      bool ascii = true;
      for (int i : t) { s += enc(CP[i]); if (CP[i] >= 0x80) ascii = false; }
      if (tg == BOOST && g.dots && s.find_first_of("\r") != std::string::npos) continue; // Boost's . is no match for \r
      if (tg == BOOST && g.dots && s.find("\x85") != std::string::npos) continue;
      if (tg == UTF && s.find("\xc2\xa0") != std::string::npos && regex.find("\\h") != std::string::npos) continue; // \h is Unicode in PCRE2
      if (tg == UTF && (g.fl & cf::anycase) && !ascii) continue;
      Ref ref(t, tg == UTF ? 1 : 0);
      bool want = ref.full(tree);
      size_t got = 0;
      try { got = en.full(s); }
      catch (const std::exception& e) { c.count("engine_limit"); continue; }
      ++c.evaluations;
      (want ? pos : neg) = true;
      if ((got != 0) != want) {
        if (!want && top.u && !ascii && g.uses_dots) { c.count("dots_in_bytes"); continue; }
        c.fail(std::string("meaning-") + TGT[tg], h + " on \"" + esc(s) + "\": " + (got ? "matches" : "no match") + " expected " + (want ? "match" : "no match") + cv);
        return;
      }
      if (want && (tg == NATIVE || ((g.fl & cf::recap) && (tg == PCRE || tg == UTF)))) {
        size_t k = 0;
        while (k < tree->a.size() && !ref.full(tree->a[k])) ++k;
        if (got != k + 1 && !(g.uses_dots && top.u && !ascii)) { c.fail(std::string("index-") + TGT[tg], h + " on \"" + esc(s) + "\": accepts " + S(got) + " expected " + S(k + 1) + cv); return; }
        c.count("indices");
      }
    }
    c.count((std::string("regexes_") + TGT[tg]).c_str());
  }
  if (pos && neg) { c.nontrivial(hash_str(regex + flagstr(g.fl))); c.sample(head); }
}

// a regex made invalid must be rejected, with a position in the regex
static void invalid(Rng& r) {
  Ctx& c = ctx();
  Gen g(r);
  Mode m = { false, false, false, r.chance(1, 2) };
  if (m.u) g.fl |= cf::unicode;
  P tree;
  std::string a = g.alt(m, tree, 1), b = g.alt(m, tree, 1), s;
  std::map<std::string, std::string> macros;
  const std::map<std::string, std::string> *mp = NULL;
  int k = r(28);
  switch (k) {
    case 0: s = a + ")"; break;
    case 1: s = "(" + a; break;
    case 2: s = a + "[z-a]" + b; break;
    case 3: s = "(?:" + a + "){3,1}" + b; break;
    case 4: s = a + "\\"; break;
    case 5: s = a + "[[:foo:]]" + b; break;
    case 6: s = a + "\\p{Foo}" + b; break;
    case 7: s = a + "[\\p{Foo}x]" + b; break;
    case 8: s = a + "[a"; break;
    case 9: s = "*" + a; break;
    case 10: s = a + "|*" + b; break;
    case 11: s = "(?Z:" + a + ")"; break;
    case 12: s = a + "\\Qabc"; break;
    case 13: s = a + "}"; break;
    case 14: s = "(?:" + a + "){"; break;
    case 15: s = "(?:" + a + "){2"; break;
    case 16: s = "(?:" + a + "){2,x}" + b; break;
    case 17: s = a + "\\x{110000}" + b; break;
    case 18: s = a + "\\x{12" ; break;
    case 19: s = a + "[b-\\d]" + b; break;
    case 20: s = a + "(?=" + b; break;
    case 21: s = a + "\\p{L"; break;
    case 22: s = a + "[[:alpha:"; break;
    case 23: s = a + "{nosuchname}" + b; macros["foo"] = "x"; mp = &macros; break;
    case 24: s = a + "\"abc"; g.fl |= cf::lex; { size_t q = a.find('"'); if (q != std::string::npos || a.find('/') != std::string::npos || a.find('$') != std::string::npos || a.find("||") != std::string::npos) return; } break;
    case 25: s = a + "[]" ; break;
    case 26: s = a + "[x-"; break;
    default: s = a + "(?#comment"; break;
  }
  static const char *KIND[] = { "extra )", "missing )", "range z-a", "repeat 3,1", "trailing \\", "POSIX class", "class", "class in list", "unclosed list", "leading *", "* in alternative", "modifier", "unclosed \\Q", "extra }", "repeat {", "repeat {2", "repeat {2,x}", "code point", "unclosed \\x{", "range to class", "unclosed lookahead", "unclosed \\p{", "unclosed [[:", "undefined macro", "unclosed quote", "list []", "unclosed range", "unclosed comment" };
  std::string h = std::string("invalid (") + KIND[k] + ") regex \"" + esc(s) + "\" flags " + flagstr(g.fl);
  c.set_note(h);
  for (int tg = 0; tg < NT; ++tg) {
    std::string conv;
    try {
      conv = reflex::convert(s, SIG[tg], g.fl, mp);
      if (tg == NATIVE) {
        try { reflex::Pattern p(conv); c.fail("accepted", h); return; }
        catch (const reflex::regex_error& e) { if (e.pos() > conv.size()) { c.fail("pattern-error-pos", h + " converted \"" + esc(conv) + "\": position " + S(e.pos()) + " " + e.what()); return; } }
      }
    }
    catch (const reflex::regex_error& e) {
      if (e.pos() > s.size()) { c.fail("error-pos", h + " for " + TGT[tg] + ": position " + S(e.pos()) + " of " + S(s.size()) + " " + e.what()); return; }
    }
    ++c.evaluations;
  }
  c.count("invalid");
  c.nontrivial(hash_str(h));
}

int main(int argc, char **argv) {
  for (int i = 0; i < NCP; ++i) { ALL |= Bits(1) << i; if (CP[i] < 0x80) ASCII |= Bits(1) << i; }
  return run(argc, argv, [&](Rng& r, uint64_t) {
    if (r(5) == 0) { invalid(r); return; }
    Gen g(r);
    Mode m = { false, false, false, r.chance(1, 2) };
    if (m.u && r.chance(7, 8)) g.fl |= cf::unicode;
    bool inl_u = m.u && !(g.fl & cf::unicode);
    if (r.chance(1, 4)) { g.fl |= cf::anycase; m.i = true; }
    if (r.chance(1, 4)) { g.fl |= cf::dotall; m.s = true; }
    if (r.chance(1, 3)) { g.fl |= cf::recap; }
    if (r.chance(1, 6) && !inl_u) { g.fl |= cf::basic; g.bre = true; }
    else {
      if (r.chance(1, 4)) { g.fl |= cf::freespace; m.x = g.free_ = true; }
      if (r.chance(1, 3)) { g.fl |= cf::lex; g.lex = true; g.lexops = r.chance(1, 2); }
      if (r.chance(1, 3)) { g.fl |= cf::u4; g.u4 = true; }
    }
    if (r.chance(1, 6)) g.fl |= cf::multiline;
    if (r.chance(1, 6)) { g.fl |= cf::notnewline; g.nnl = true; }
    if (m.u && r.chance(1, 6)) g.fl |= cf::permissive;
    if (!g.bre && r.chance(1, 4)) {
      g.macros_on = true;
      P t(new N(SET));
      t->b[0] = t->b[1] = range('a', 'c');
      g.macros["aset"] = "[a-c]";
      g.mtree["aset"] = t;
      P x(new N(ALT)), y(new N(CAT)), z(new N(SET));
      z->b[0] = z->b[1] = bit('k');
      y->a.push_back(t); y->a.push_back(z);
      x->a.push_back(y); x->a.push_back(z);
      g.macros["two"] = "[a-c]k|k";
      g.mtree["two"] = x;
      P s(new N(REP));
      s->a.push_back(z); s->lo = 0; s->hi = -1;
      g.macros["ks"] = "k*";
      g.mtree["ks"] = s;
    }
    std::string pre;
    if (!g.bre) {
      std::string mods;
      if (inl_u) mods += 'u';
      if (r.chance(1, 6)) { mods += 'i'; m.i = g.inline_i = true; }
      if (r.chance(1, 6)) { mods += 's'; m.s = true; }
      if (r.chance(1, 6) && !g.lex) { mods += 'x'; m.x = true; }
      std::string un;
      if (m.i && mods.find('i') == std::string::npos && r.chance(1, 6)) { un += 'i'; m.i = false; }
      if (m.s && mods.find('s') == std::string::npos && r.chance(1, 6)) { un += 's'; m.s = false; }
      if (!mods.empty() || !un.empty()) pre = "(?" + mods + (un.empty() ? "" : "-" + un) + ")";
    }
    P tree;
    bool big = r.chance(1, 4);
    g.width = big ? 4 : 2;
    std::string s = pre + g.alt(m, tree, big ? 2 : 1);
    test(r, g, tree, s, m);
  });
}
