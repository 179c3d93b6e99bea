// Independent reference regex semantics: random regex ASTs over bytes, printed in RE/flex
// syntax, and matched with a plain Thompson NFA simulation (leftmost-longest, lowest
// alternative index).  Shares no code with the library under test.
#ifndef RX_H
#define RX_H
#include "vp.h"
#include <bitset>
#include <memory>
#include <algorithm>

namespace rx {

using vp::Rng;
typedef std::bitset<256> Set;

enum Kind { EMPTY, CHR, CAT, ALT, REP, ASSERT_ };
enum Assert { A_BOB, A_EOB, A_BOL, A_EOL, A_WB, A_NWB, A_BW, A_EW, A_BNW, A_ENW };

struct Node;
typedef std::shared_ptr<Node> P;
struct Node {
  Kind k;
  Set set;
  int lo, hi;        // REP, hi<0 = unlimited
  int as;            // ASSERT_
  std::vector<P> kids;
  explicit Node(Kind kk) : k(kk), lo(0), hi(0), as(0) { }
};
inline P mk(Kind k) { return std::make_shared<Node>(k); }
inline P chr(const Set& s) { P p = mk(CHR); p->set = s; return p; }
inline P chr(int c) { Set s; s.set(c & 255); return chr(s); }
inline P cat(const std::vector<P>& v) { P p = mk(CAT); p->kids = v; return p; }
inline P alt(const std::vector<P>& v) { P p = mk(ALT); p->kids = v; return p; }
inline P rep(P x, int lo, int hi) { P p = mk(REP); p->kids.push_back(x); p->lo = lo; p->hi = hi; return p; }
inline P asrt(int a) { P p = mk(ASSERT_); p->as = a; return p; }
inline P str(const std::string& s) { std::vector<P> v; for (size_t i = 0; i < s.size(); ++i) v.push_back(chr(static_cast<unsigned char>(s[i]))); return cat(v); }

inline bool isword(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }

// ---------------------------------------------------------------- NFA
struct NFA {
  enum Op { NCHR, NSPLIT, NASSERT, NACC };
  struct St { Op op; Set set; int as; int a, b; };
  std::vector<St> st;
  int start;
  int add(Op op) { St s; s.op = op; s.as = 0; s.a = s.b = -1; st.push_back(s); return static_cast<int>(st.size()) - 1; }
  // builds node so that it continues at state next, returns its entry
  int build(const Node *n, int next) {
    switch (n->k) {
      case EMPTY: return next;
      case CHR: { int i = add(NCHR); st[i].set = n->set; st[i].a = next; return i; }
      case ASSERT_: { int i = add(NASSERT); st[i].as = n->as; st[i].a = next; return i; }
      case CAT: { int e = next; for (size_t i = n->kids.size(); i-- > 0; ) e = build(n->kids[i].get(), e); return e; }
      case ALT: {
        int e = build(n->kids.back().get(), next);
        for (size_t i = n->kids.size() - 1; i-- > 0; ) {
          int f = build(n->kids[i].get(), next);
          int s = add(NSPLIT); st[s].a = f; st[s].b = e; e = s;
        }
        return e;
      }
      case REP: {
        const Node *x = n->kids[0].get();
        int e = next;
        if (n->hi < 0) {
          int s = add(NSPLIT);
          st[s].b = next;
          int b = build(x, s);
          st[s].a = b;
          e = s;
        } else {
          for (int i = n->lo; i < n->hi; ++i) {
            int b = build(x, e);
            int s = add(NSPLIT); st[s].a = b; st[s].b = next; e = s;
          }
        }
        for (int i = 0; i < n->lo; ++i) e = build(x, e);
        return e;
      }
    }
    return next;
  }
  // alternatives get accept indices 1..n
  explicit NFA(const std::vector<P>& alts) {
    start = -1;
    for (size_t i = alts.size(); i-- > 0; ) {
      int acc = add(NACC); st[acc].as = static_cast<int>(i) + 1;
      int e = build(alts[i].get(), acc);
      if (start < 0) start = e;
      else { int s = add(NSPLIT); st[s].a = e; st[s].b = start; start = s; }
    }
    mark.assign(st.size(), 0);
    gen = 0;
  }
  static bool holds(int as, const char *in, size_t n, size_t p) {
    bool pw = p > 0 && isword(static_cast<unsigned char>(in[p - 1]));
    bool nw = p < n && isword(static_cast<unsigned char>(in[p]));
    switch (as) {
      case A_BOB: return p == 0;
      case A_EOB: return p == n;
      case A_BOL: return p == 0 || in[p - 1] == '\n';
      case A_EOL: return p == n || in[p] == '\n' || (in[p] == '\r' && p + 1 < n && in[p + 1] == '\n');
      case A_WB: return pw != nw;
      case A_NWB: return pw == nw;
      case A_BW: return !pw && nw;
      case A_EW: return pw && !nw;
      case A_BNW: return pw && !nw;   // \> at the start: starts a non-word
      case A_ENW: return !pw && nw;   // \< at the end: ends a non-word
    }
    return false;
  }
  std::vector<uint64_t> mark;
  uint64_t gen;
  std::vector<int> stk;
  void closure(std::vector<int>& out, int s0, const char *in, size_t n, size_t p, int& acc) {
    stk.push_back(s0);
    while (!stk.empty()) {
      int s = stk.back(); stk.pop_back();
      if (mark[s] == gen) continue;
      mark[s] = gen;
      const St& t = st[s];
      switch (t.op) {
        case NCHR: out.push_back(s); break;
        case NSPLIT: stk.push_back(t.a); stk.push_back(t.b); break;
        case NASSERT: if (holds(t.as, in, n, p)) stk.push_back(t.a); break;
        case NACC: if (acc == 0 || t.as < acc) acc = t.as; break;
      }
    }
  }
  // longest match at position p: returns accept index (0 = none) and length
  int longest(const char *in, size_t n, size_t p, size_t& len, uint64_t *steps = nullptr) {
    std::vector<int>& cur = v1; std::vector<int>& nxt = v2;
    cur.clear();
    int best = 0;
    len = 0;
    ++gen;
    int acc = 0;
    closure(cur, start, in, n, p, acc);
    if (acc) best = acc;
    size_t q = p;
    while (!cur.empty() && q < n) {
      unsigned char c = in[q++];
      nxt.clear();
      ++gen;
      acc = 0;
      for (size_t i = 0; i < cur.size(); ++i)
        if (st[cur[i]].set.test(c)) closure(nxt, st[cur[i]].a, in, n, q, acc);
      if (acc) { best = acc; len = q - p; }
      cur.swap(nxt);
      if (steps) ++*steps;
    }
    return best;
  }
  // all accepted lengths at p with their lowest accept index
  std::map<size_t, int> all(const char *in, size_t n, size_t p) {
    std::map<size_t, int> res;
    std::vector<int> cur, nxt;
    ++gen;
    int acc = 0;
    closure(cur, start, in, n, p, acc);
    if (acc) res[0] = acc;
    size_t q = p;
    while (!cur.empty() && q < n) {
      unsigned char c = in[q++];
      nxt.clear();
      ++gen;
      acc = 0;
      for (size_t i = 0; i < cur.size(); ++i)
        if (st[cur[i]].set.test(c)) closure(nxt, st[cur[i]].a, in, n, q, acc);
      if (acc) res[q - p] = acc;
      cur.swap(nxt);
    }
    return res;
  }
  std::vector<int> v1, v2;
};

// ---------------------------------------------------------------- reference DFA and its transition cover
// States are reached by their shortest access string; every (state, character class) pair gives test inputs:
// access+char, extended to acceptance when the reference survives, and extended with the completions of other
// states that are entered on the same class when the reference dies.
struct Cover {
  std::vector<std::vector<int> > sets;
  std::vector<int> acc;
  std::vector<std::string> access, fin;     // fin: shortest accepting suffix
  std::vector<std::vector<int> > next;      // [state][class], -1 dead
  std::vector<Set> classes;
  bool complete;
  static int acc_of(NFA& n, std::vector<int>& out, const std::vector<int>& from) {
    int acc = 0;
    ++n.gen;
    for (int s : from) n.closure(out, s, "", 0, 0, acc);
    std::sort(out.begin(), out.end());
    return acc;
  }
  Cover(NFA& n, size_t maxstates) {
    // character classes by signature
    std::map<std::vector<bool>, Set> sig;
    for (int c = 0; c < 256; ++c) {
      std::vector<bool> v;
      for (auto& t : n.st) if (t.op == NFA::NCHR) v.push_back(t.set.test(c));
      sig[v].set(c);
    }
    for (auto& x : sig) classes.push_back(x.second);
    std::map<std::vector<int>, int> id;
    std::vector<int> s0, f(1, n.start);
    int a0 = acc_of(n, s0, f);
    id[s0] = 0; sets.push_back(s0); acc.push_back(a0); access.push_back("");
    complete = true;
    for (size_t i = 0; i < sets.size(); ++i) {
      next.push_back(std::vector<int>(classes.size(), -1));
      for (size_t k = 0; k < classes.size(); ++k) {
        int c = 0; while (!classes[k].test(c)) ++c;
        if (classes[k].test('a' + static_cast<int>(k % 26))) c = 'a' + static_cast<int>(k % 26);
        std::vector<int> to, from;
        for (int s : sets[i]) if (n.st[s].set.test(c)) from.push_back(n.st[s].a);
        if (from.empty()) continue;
        int a = acc_of(n, to, from);
        if (to.empty() && a == 0) continue;
        // accepting index is part of the state
        std::vector<int> key(to); key.push_back(-1 - a);
        auto it = id.find(key);
        int t;
        if (it == id.end()) {
          if (sets.size() >= maxstates) { complete = false; continue; }
          t = static_cast<int>(sets.size());
          id[key] = t; sets.push_back(to); acc.push_back(a); access.push_back(access[i] + static_cast<char>(c));
        } else t = it->second;
        next[i][k] = t;
      }
    }
    // shortest accepting suffixes by backward relaxation
    fin.assign(sets.size(), "");
    std::vector<int> d(sets.size(), 1 << 30);
    for (size_t i = 0; i < sets.size(); ++i) if (acc[i]) d[i] = 0;
    for (bool more = true; more; ) {
      more = false;
      for (size_t i = sets.size(); i-- > 0; )
        for (size_t k = 0; k < classes.size(); ++k) {
          int t = next[i][k];
          if (t >= 0 && d[t] + 1 < d[i]) { d[i] = d[t] + 1; int c = 0; while (!classes[k].test(c)) ++c; fin[i] = std::string(1, static_cast<char>(c)) + fin[t]; more = true; }
        }
    }
  }
  char pick(Rng& r, size_t k) { int n = static_cast<int>(r(static_cast<uint32_t>(classes[k].count()))); for (int c = 0; c < 256; ++c) if (classes[k].test(c) && n-- == 0) return static_cast<char>(c); return 0; }
};

// ---------------------------------------------------------------- sampling members
inline void sample(Rng& r, const Node *n, std::string& out, int depth = 0) {
  switch (n->k) {
    case EMPTY: case ASSERT_: break;
    case CHR: {
      int cnt = static_cast<int>(n->set.count());
      if (cnt == 0) break;
      int k;
      if (cnt > 100 && r.chance(4, 5)) {
        static const char pref[] = "abcxyzABC019_ -.,\n\t\"*/";
        for (int t = 0; t < 8; ++t) { unsigned char c = pref[r(sizeof(pref) - 1)]; if (n->set.test(c)) { out += static_cast<char>(c); return; } }
      }
      k = r(cnt);
      for (int c = 0; c < 256; ++c) if (n->set.test(c) && k-- == 0) { out += static_cast<char>(c); break; }
      break;
    }
    case CAT: for (auto& x : n->kids) sample(r, x.get(), out, depth + 1); break;
    case ALT: sample(r, n->kids[r(static_cast<uint32_t>(n->kids.size()))].get(), out, depth + 1); break;
    case REP: {
      int hi = n->hi < 0 ? n->lo + 3 : n->hi;
      int k = r.range(n->lo, hi);
      for (int i = 0; i < k && out.size() < 4000; ++i) sample(r, n->kids[0].get(), out, depth + 1);
      break;
    }
  }
}

inline bool nullable(const Node *n) {
  switch (n->k) {
    case EMPTY: case ASSERT_: return true;
    case CHR: return false;
    case CAT: for (auto& x : n->kids) if (!nullable(x.get())) return false; return true;
    case ALT: for (auto& x : n->kids) if (nullable(x.get())) return true; return false;
    case REP: return n->lo == 0 || nullable(n->kids[0].get());
  }
  return true;
}
// number of character positions after unrolling repeats (bounds DFA cost)
inline int weight(const Node *n) {
  switch (n->k) {
    case EMPTY: case ASSERT_: return 0;
    case CHR: return 1;
    case CAT: case ALT: { int w = 0; for (auto& x : n->kids) w += weight(x.get()); return w; }
    case REP: { int m = n->hi < 0 ? (n->lo > 0 ? n->lo : 1) : (n->hi > 0 ? n->hi : 1); return m * weight(n->kids[0].get()); }
  }
  return 0;
}

// ---------------------------------------------------------------- generator
struct Mode { bool i, s, x, q, m; Mode() : i(false), s(false), x(false), q(false), m(false) { } };

struct Gen {
  Rng& r;
  std::string alpha;     // literal alphabet
  bool brackets, escapes, modgroups, quotes, dots;
  int maxdepth;
  bool esc_u;
  int bigrep;            // chance (of 100) for larger counted repeats
  bool nest;             // more and nested counted repeats
  explicit Gen(Rng& rr) : r(rr), alpha("abc"), brackets(true), escapes(true), modgroups(true), quotes(true), dots(true), maxdepth(3), esc_u(false), bigrep(3), nest(false) { }

  void pick_alphabet() {
    switch (r(8)) {
      case 0: alpha = "ab"; break;
      case 1: alpha = "abc"; break;
      case 2: alpha = "abcdefgh"; break;
      case 3: alpha = "aAbB01_"; break;
      case 4: alpha = std::string("ab \n\t-.", 7); break;
      case 5: alpha = std::string("a\x00\x80\xff\xc3\xa9z", 7); break;
      case 6: alpha = "xyz019XYZ_ "; break;
      default: alpha = "abcXYZ+*?()[]{}|^$./\\\"-#~@"; break;
    }
  }
  static void add_ci(Set& s, int c, bool ci) {
    s.set(c);
    if (ci && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) s.set(c ^ 0x20);
  }
  std::string hex(int c) { char b[12]; snprintf(b, sizeof b, r.chance(1, 2) ? "\\x%02x" : (r.chance(1, 2) ? "\\x{%02X}" : "\\x%02X"), c); return b; }
  std::string print_lit(int c, const Mode& m) {
    if (r.chance(1, 12) && !(m.i && c < 128 && isalpha(c))) return hex(c);   // \xHH is never case-folded
    if (c == '\n') return "\\n";
    if (c == '\t') return r.chance(1, 2) || m.x ? "\\t" : "\t";
    if (c == ' ') return m.x ? (r.chance(1, 2) ? "[ ]" : "\\x20") : " ";
    if (c == '#') return m.x ? "[#]" : "#";
    if (c == '"') return m.q ? "\\\"" : (r.chance(1, 2) ? "\"" : "\\\"");
    if (c == '/') return r.chance(1, 2) ? "/" : "\\/";
    if (strchr("\\.?*+|()[]{}^$", c) && c) return std::string("\\") + static_cast<char>(c);
    if (c < 32 || c == 127) return hex(c);
    if (c >= 128) return r.chance(1, 2) ? hex(c) : std::string(1, static_cast<char>(c));
    return std::string(1, static_cast<char>(c));
  }
  P literal(std::string& out, const Mode& m) {
    int c = static_cast<unsigned char>(alpha[r(static_cast<uint32_t>(alpha.size()))]);
    out += print_lit(c, m);
    Set s; add_ci(s, c, m.i);
    return chr(s);
  }
  static Set cls(char e) {
    Set s;
    switch (e) {
      case 'd': for (int c = '0'; c <= '9'; ++c) s.set(c); break;
      case 'w': for (int c = 0; c < 128; ++c) if (isword(c)) s.set(c); break;
      case 's': s.set(' '); s.set('\t'); s.set('\n'); s.set('\v'); s.set('\f'); s.set('\r'); break;
      case 'h': s.set(' '); s.set('\t'); break;
      case 'l': for (int c = 'a'; c <= 'z'; ++c) s.set(c); break;
      case 'u': for (int c = 'A'; c <= 'Z'; ++c) s.set(c); break;
      case 'x': for (int c = 0; c < 128; ++c) if (isxdigit(c)) s.set(c); break;
    }
    return s;
  }
  struct Px { const char *name; };
  static Set posix(const std::string& n) {
    Set s;
    for (int c = 0; c < 128; ++c) {
      bool b = false;
      if (n == "alpha") b = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
      else if (n == "alnum") b = isword(c) && c != '_';
      else if (n == "digit") b = c >= '0' && c <= '9';
      else if (n == "xdigit") b = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
      else if (n == "space") b = c == ' ' || (c >= 9 && c <= 13);
      else if (n == "blank") b = c == ' ' || c == '\t';
      else if (n == "cntrl") b = c < 32 || c == 127;
      else if (n == "print") b = c >= 32 && c < 127;
      else if (n == "graph") b = c > 32 && c < 127;
      else if (n == "punct") b = (c >= 0x21 && c <= 0x2f) || (c >= 0x3a && c <= 0x40) || (c >= 0x5b && c <= 0x60) || (c >= 0x7b && c <= 0x7e);
      else if (n == "lower") b = c >= 'a' && c <= 'z';
      else if (n == "upper") b = c >= 'A' && c <= 'Z';
      else if (n == "word") b = isword(c);
      if (b) s.set(c);
    }
    return s;
  }
  const std::vector<std::string>& posix_names(bool ci) {
    static const std::vector<std::string> all = { "alpha", "alnum", "digit", "xdigit", "space", "blank", "cntrl", "print", "graph", "punct", "word", "lower", "upper" };
    static const std::vector<std::string> noci = { "alpha", "alnum", "digit", "xdigit", "space", "blank", "cntrl", "print", "graph", "punct", "word" };
    return ci ? noci : all;
  }
  std::string br_lit(int c, bool ci = false) {
    if (c == '\n') return "\\n";
    if (c == '\t') return "\\t";
    if (c == ']' || c == '[' || c == '\\' || c == '^' || c == '-' || c == '|' || c == '&' || c == '"') return std::string("\\") + static_cast<char>(c);
    if (c < 32 || c == 127) return hex(c);
    if (c >= 128) return r.chance(1, 2) ? hex(c) : std::string(1, static_cast<char>(c));
    if (!ci && r.chance(1, 20)) return hex(c);
    return std::string(1, static_cast<char>(c));
  }
  P bracket(std::string& out, const Mode& m) {
    Set s;
    bool neg = r.chance(1, 4);
    std::string body;
    int items = r.range(1, 4);
    for (int k = 0; k < items; ++k) {
      switch (r(8)) {
        case 0: case 1: case 2: case 3: { int c = static_cast<unsigned char>(alpha[r(static_cast<uint32_t>(alpha.size()))]); body += br_lit(c, m.i); add_ci(s, c, m.i); break; }
        case 4: case 5: {
          int a, b;
          switch (r(5)) {
            case 0: a = r.range('a', 'z'); b = r.range(a, 'z'); break;
            case 1: a = r.range('0', '9'); b = r.range(a, '9'); break;
            case 2: a = r.range('A', 'Z'); b = r.range(a, 'Z'); break;
            case 3: a = r.range(128, 255); b = r.range(a, 255); break;
            default: a = r.range(0, 255); b = r.range(a, 255); break;
          }
          body += br_lit(a, m.i) + "-" + br_lit(b, m.i);
          for (int c = a; c <= b; ++c) add_ci(s, c, m.i);
          break;
        }
        case 6: { const std::string& n = r.pick(posix_names(m.i)); body += "[:" + n + ":]"; s |= posix(n); break; }
        default: { static const char e[] = "dwsh"; char c = e[r(4)]; body += std::string("\\") + c; s |= cls(c); break; }
      }
    }
    if (neg) s.flip();
    if (s.none()) return literal(out, m);
    out += std::string("[") + (neg ? "^" : "") + body + "]";
    return chr(s);
  }
  P escape(std::string& out, const Mode& m) {
    switch (r(4)) {
      case 0: case 1: {
        static const char e[] = "dwshlu";
        char c = e[r(m.i ? 4 : 6)];
        Set s = cls(c);
        if (r.chance(1, 3)) { s.flip(); c = static_cast<char>(c - 32); }
        out += std::string("\\") + c;
        esc_u = c == 'u';
        return chr(s);
      }
      case 2: {
        std::string n = r.pick(posix_names(m.i));
        std::string t = n == "xdigit" ? "XDigit" : n; t[0] = static_cast<char>(t[0] < 'a' ? t[0] : t[0] - 32);
        Set s = posix(n);
        if (r.chance(1, 4)) { s.flip(); out += "\\P{" + t + "}"; }
        else out += "\\p{" + t + "}";
        return chr(s);
      }
      default: {
        Set s; s.set(); s.reset('\n');
        out += "\\N";
        return chr(s);
      }
    }
  }
  P quoted(std::string& out, const Mode& m) {
    std::string body;
    std::vector<P> v;
    int n = r.range(1, 4);
    for (int k = 0; k < n; ++k) {
      int c = static_cast<unsigned char>(alpha[r(static_cast<uint32_t>(alpha.size()))]);
      if (c == '\\' || c == '"' || c == 0 || (m.x && (c == ' ' || c == '\t' || c == '\n' || c == '#'))) c = 'a';
      body += static_cast<char>(c);
      Set s; add_ci(s, c, m.i);
      v.push_back(chr(s));
    }
    if (m.q && r.chance(2, 3)) out += "\"" + body + "\"";
    else out += "\\Q" + body + "\\E";
    return n == 1 ? v[0] : cat(v);
  }
  // atom: `simple` is set when the printed form can take a quantifier without grouping
  P atom(std::string& out, const Mode& m, int depth, bool& simple) {
    simple = true;
    uint32_t k = r(20);
    if (depth > 0 && k < 5) {
      std::string body;
      P p = alternation(body, m, depth - 1);
      out += (r.chance(1, 3) ? "(?:" : "(") + body + ")";
      return p;
    }
    if (k < 7 && brackets) return bracket(out, m);
    if (k == 7 && escapes) return escape(out, m);
    if (k == 8 && dots) {
      Set s; s.set(); if (!m.s) s.reset('\n');
      out += ".";
      return chr(s);
    }
    if (k == 9 && quotes && r.chance(1, 2)) { simple = false; return quoted(out, m); }
    if (k == 10 && modgroups && depth > 0 && r.chance(1, 2)) {
      Mode n = m;
      std::string mod;
      switch (r(6)) {
        case 0: n.i = true; mod = "(?i:"; break;
        case 1: n.i = false; mod = "(?-i:"; break;
        case 2: n.s = true; mod = "(?s:"; break;
        case 3: n.s = false; mod = "(?-s:"; break;
        case 4: n.i = true; n.s = true; mod = r.chance(1, 2) ? "(?is:" : "(?si:"; break;
        default: n.i = true; n.s = false; mod = "(?i-s:"; break;
      }
      std::string body;
      P p = alternation(body, n, depth - 1);
      out += mod + body + ")";
      return p;
    }
    return literal(out, m);
  }
  void sp(std::string& out, const Mode& m) { if (m.x && r.chance(1, 3)) out += r.chance(1, 4) ? "\n" : " "; }
  P factor(std::string& out, const Mode& m, int depth) {
    std::string a;
    bool simple;
    esc_u = false;
    P p = atom(a, m, depth, simple);
    if (r.chance(nest ? 12 : 7, 20)) {
      if (!simple || esc_u) a = "(" + a + ")";   // \u{ would start a Unicode escape
      int w = weight(p.get());
      switch (r(6)) {
        case 0: a += "*"; p = rep(p, 0, -1); break;
        case 1: a += "+"; p = rep(p, 1, -1); break;
        case 2: a += "?"; p = rep(p, 0, 1); break;
        case 3: { int n = nest && w <= 24 ? r.range(2, w > 8 ? 2 : 3) : r.range(1, w > 4 ? 2 : (w == 1 && static_cast<int>(r(100)) < bigrep ? 20 : 4)); a += "{" + std::to_string(n) + "}"; p = rep(p, n, n); break; }
        case 4: { int n = r.range(0, w > 4 ? (nest && w <= 24 ? 2 : 1) : 3); int h = r.range(n > 0 ? n : 1, w > 4 ? (nest && w <= 12 ? 3 : 2) : 4); if (h < n) h = n; a += "{" + std::to_string(n) + "," + std::to_string(h) + "}"; p = rep(p, n, h); break; }
        default: { int n = r.range(0, w > 4 ? 2 : 3); a += "{" + std::to_string(n) + ",}"; p = rep(p, n, -1); break; }
      }
    }
    out += a;
    return p;
  }
  P concat(std::string& out, const Mode& m, int depth) {
    int n = r.chance(1, 8) ? r.range(4, 7) : r.range(1, 3);
    std::vector<P> v;
    for (int i = 0; i < n; ++i) {
      sp(out, m);
      v.push_back(factor(out, m, depth));
      sp(out, m);
    }
    return n == 1 ? v[0] : cat(v);
  }
  P alternation(std::string& out, const Mode& m, int depth) {
    int n = r.chance(1, 2) ? 1 : r.range(2, 3);
    std::vector<P> v;
    for (int i = 0; i < n; ++i) {
      if (i) out += "|";
      v.push_back(concat(out, m, depth));
    }
    return n == 1 ? v[0] : alt(v);
  }
  P word(std::string& out, const Mode& m, int lo, int hi) {
    int n = r.range(lo, hi);
    std::vector<P> v;
    for (int i = 0; i < n; ++i) {
      int c = static_cast<unsigned char>(alpha[r(static_cast<uint32_t>(alpha.size()))]);
      if (c < 128 && !isalnum(c) && c != '_') c = 'a' + c % 8;
      out += static_cast<char>(c);
      Set s; add_ci(s, c, m.i);
      v.push_back(chr(s));
    }
    return cat(v);
  }
};

// a whole pattern: top-level alternatives with their printed regex
struct Pat {
  std::vector<P> alts;
  std::vector<std::string> parts;
  std::string regex, opts;
  Mode mode;
  int w;
};

inline std::string join(const std::vector<std::string>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) { if (i) s += "|"; s += v[i]; }
  return s;
}

// nl: total weight bound
inline Pat gen_pattern(Rng& r, Gen& g, int maxw = 60, bool allow_nullable = true) {
  for (;;) {
    Pat p;
    std::string pre;
    if (r.chance(1, 8)) p.mode.i = true;
    if (r.chance(1, 8)) p.mode.s = true;
    if (r.chance(1, 12)) p.mode.x = true;
    if (r.chance(1, 12)) p.mode.q = true;
    // modes by option letter or by leading modifier
    std::string mods;
    if (p.mode.i) { if (r.chance(1, 2)) p.opts += "i"; else mods += "i"; }
    if (p.mode.s) { if (r.chance(1, 2)) p.opts += "s"; else mods += "s"; }
    if (p.mode.x) { if (r.chance(1, 2)) p.opts += "x"; else mods += "x"; }
    if (p.mode.q) { if (r.chance(1, 2)) p.opts += "q"; else mods += "q"; }
    if (!mods.empty()) pre = "(?" + mods + ")";
    int n;
    int style = r(10);
    if (style == 0) n = r.range(5, 30);       // keyword list
    else if (style < 4) n = 1;
    else n = r.range(2, 5);
    p.w = 0;
    bool ok = true;
    for (int i = 0; i < n; ++i) {
      std::string s;
      P x;
      bool lit = style == 0 ? r.chance(9, 10) : r.chance(1, 4);
      if (p.mode.i && g.modgroups && r.chance(1, 4)) {
        // one case only within a case-insensitive pattern
        Mode n = p.mode;
        n.i = false;
        std::string t;
        P a = g.word(t, n, 1, 3);
        s = "(?-i:" + t + ")";
        t.clear();
        P b = g.word(t, p.mode, 1, 4);
        s += t;
        x = cat({a, b});
      }
      else if (lit) x = g.word(s, p.mode, 1, style == 0 ? 6 : 9);
      else { x = g.concat(s, p.mode, g.maxdepth); if (r.chance(1, 3)) s = (r.chance(1, 3) ? "(?:" : "(") + s + ")"; }
      if (!allow_nullable && nullable(x.get())) { ok = false; break; }
      p.w += weight(x.get());
      p.alts.push_back(x);
      p.parts.push_back(s);
    }
    if (!ok || p.w > maxw * (style == 0 ? 3 : 1)) continue;
    p.regex = pre + join(p.parts);
    return p;
  }
}

// alternatives that may be anchored at their start and end; nothing nullable
inline Pat gen_anchored(Rng& r, Gen& g, int maxw = 40) {
  for (;;) {
    Pat p;
    if (r.chance(1, 2)) { p.mode.m = true; p.opts = "m"; }
    if (r.chance(1, 8)) { p.mode.i = true; p.opts += "i"; }
    if (r.chance(1, 8)) { p.mode.s = true; p.opts += "s"; }
    int n = r.chance(1, 2) ? 1 : r.range(2, 4);
    p.w = 0;
    bool ok = true;
    for (int i = 0; i < n && ok; ++i) {
      std::string s;
      P x;
      if (r.chance(1, 3)) x = g.word(s, p.mode, 1, 5);
      else { x = g.concat(s, p.mode, g.maxdepth); s = (r.chance(1, 2) ? "(?:" : "(") + s + ")"; }
      if (nullable(x.get())) ok = false;
      p.w += weight(x.get());
      std::vector<P> v;
      static const char *pre[] = { "^", "\\A", "\\b", "\\B", "\\<", "\\>" };
      static const char *post[] = { "$", "\\z", "\\b", "\\B", "\\<", "\\>" };
      const int prea[] = { p.mode.m ? A_BOL : A_BOB, A_BOB, A_WB, A_NWB, A_BW, A_BNW };
      const int posta[] = { p.mode.m ? A_EOL : A_EOB, A_EOB, A_WB, A_NWB, A_ENW, A_EW };
      int how = r(4);
      if (how & 1) { int k = r(6); s = pre[k] + s; v.push_back(asrt(prea[k])); }
      v.push_back(x);
      if (how & 2) { int k = r(6); s += post[k]; v.push_back(asrt(posta[k])); }
      p.alts.push_back(v.size() == 1 ? v[0] : cat(v));
      p.parts.push_back(s);
    }
    if (!ok || p.w > maxw) continue;
    p.regex = join(p.parts);
    return p;
  }
}

// random input related to the pattern
inline std::string gen_input(Rng& r, const Pat& p, const std::string& alpha, size_t maxlen) {
  std::string s;
  int pieces = r.range(0, 6);
  for (int i = 0; i < pieces && s.size() < maxlen; ++i) {
    switch (r(6)) {
      case 0: case 1: case 2: sample(r, p.alts[r(static_cast<uint32_t>(p.alts.size()))].get(), s); break;
      case 3: { int k = r.range(1, 5); for (int j = 0; j < k; ++j) s += alpha[r(static_cast<uint32_t>(alpha.size()))]; break; }
      case 4: s += r.chance(1, 3) ? '\n' : static_cast<char>(r.chance(1, 2) ? r.range(32, 126) : r.range(0, 255)); break;
      default: {
        std::string t;
        sample(r, p.alts[r(static_cast<uint32_t>(p.alts.size()))].get(), t);
        if (!t.empty()) {
          size_t k = r(static_cast<uint32_t>(t.size()));
          if (r.chance(1, 2)) t.resize(k); else t[k] = alpha[r(static_cast<uint32_t>(alpha.size()))];
        }
        s += t;
      }
    }
  }
  if (s.size() > maxlen) s.resize(maxlen);
  return s;
}

// keyword sets large enough for long jumps in the opcode table
inline Pat gen_big(Rng& r, Gen& g, int words) {
  Pat p;
  p.w = 0;
  std::string al = "abcdefghijklmnopqrstuvwxyz";
  if (r.chance(1, 2)) al += "0123456789_ABCDEFGHIJ";
  std::vector<std::string> ws;
  for (int i = 0; i < words; ++i) {
    std::string w;
    if (!ws.empty() && r.chance(1, 2)) { w = r.pick(ws); w.resize(1 + r(static_cast<uint32_t>(w.size()))); }
    for (int j = r.range(3, 12); j > 0; --j) w += al[r(static_cast<uint32_t>(al.size()))];
    ws.push_back(w);
    std::string s = w;
    P x = str(w);
    if (r.chance(1, 50)) { std::string t; P y = g.bracket(t, p.mode); s += t + "+"; x = cat({x, rep(y, 1, -1)}); }
    p.alts.push_back(x); p.parts.push_back(s);
  }
  p.regex = join(p.parts);
  return p;
}

} // namespace rx
#endif
