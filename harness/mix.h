// Random patterns of every kind and recorded histories of matcher calls, for checks that compare two executions.
#ifndef MIX_H
#define MIX_H
#include "rx.h"
#include "deliver.h"
namespace mix {
using namespace vp;
typedef reflex::Matcher RM;

inline std::string S(size_t n) { return std::to_string(n); }

// replays one history (a pure function of seed) and records what is observable
inline std::vector<std::string> trace(RM& m, uint64_t seed, int style, size_t n) {
  std::vector<std::string> t;
  Rng r(seed);
  size_t steps = 0;
  int ended = 0;
  while (ended < 2 && steps < 4 * n + 50 && t.size() < 3000) {
    ++steps;
    std::string e;
    int k = r(100);
    size_t a = 0;
    bool textop = true;
    if (style == 4) {
      // any mix of methods
      k = k % 12;
      if (k < 3) { e = "scan="; a = m.scan(); }
      else if (k < 6) { e = "find="; a = m.find(); }
      else if (k == 6) { e = "split="; a = m.split(); }
      else if (k == 7) { int c = m.input(); e = "input=" + std::to_string(c); textop = false; }
      else if (k == 8) { int c = m.peek(); e = "peek=" + std::to_string(c); textop = false; }
      else if (k == 9) { bool b = m.skip('\n'); e = "skip=" + S(b); textop = false; }
      else if (k == 10) { bool b = m.at_end(); e = "at_end=" + S(b); textop = false; if (b) ++ended; }
      else { e = "scan="; a = m.scan(); if (a && m.size() > 1 && r.chance(1, 3)) { m.less(m.size() - 1); e += "less,"; } }
    } else {
      if (style == 0) { e = "scan="; a = m.scan(); }
      else if (style == 1) { e = "find="; a = m.find(); }
      else if (style == 2) { e = "split="; a = m.split(); }
      else { e = "matches="; a = m.matches(); ended = 2; }
      if (a == 0 && style == 0) {
        bool b = m.at_end();
        int c = m.input();
        e += "0,at_end=" + S(b) + ",input=" + std::to_string(c);
        textop = false;
        if (c == EOF) ++ended;
      } else if (a == 0) {
        ++ended;
        e += "0,at_end=" + S(m.at_end()) + ",";
      }
    }
    if (textop) {
      e += S(a);
      if (a) {
        std::string x = m.str();
        e += " \"" + (x.size() > 60 ? esc(x.substr(0, 30)) + "..." + S(hash_str(x)) : esc(x)) + "\"+" + S(x.size());
        if (r.chance(1, 2)) e += "@" + S(m.first());
        if (r.chance(1, 4)) e += " line " + S(m.lineno());
        if (r.chance(1, 4)) e += " ends " + S(m.lineno_end());
        if (r.chance(1, 6)) e += " wsize " + S(m.wsize());
        if (r.chance(1, 6)) e += std::string(" bol ") + (m.at_bol() ? "1" : "0");
        if (r.chance(1, 8)) { const char *z = m.text(); e += " text " + S(strlen(z)); }
        if (r.chance(1, 8)) { e += std::string(" end ") + (m.at_end() ? "1" : "0"); }
      }
    }
    t.push_back(e);
  }
  return t;
}

inline std::string gen_regex(Rng& r, rx::Gen& g, std::vector<rx::P>& al, std::string& opts, bool& indent) {
  indent = false;
  int k = r(10);
  if (k < 4) { rx::Pat p = rx::gen_pattern(r, g, 40); al = p.alts; opts = p.opts; return p.regex; }
  if (k < 6) { rx::Pat p = rx::gen_anchored(r, g); al = p.alts; opts = p.opts; return p.regex; }
  if (k < 8) {
    // lookahead, lazy and negative alternatives
    rx::Mode m;
    std::string re;
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i) {
      std::string s, t;
      rx::P x = g.concat(s, m, 1), y = g.concat(t, m, 0);
      if (i) re += "|";
      switch (r(5)) {
        case 0: re += "(" + s + ")(?=" + t + ")"; al.push_back(rx::cat({x, y})); break;
        case 1: re += "(?^" + s + ")"; al.push_back(x); break;
        case 2: re += "(" + s + ")*?" + t; al.push_back(rx::cat({x, x, y})); break;
        case 3: re += "\\b(" + s + ")\\b"; al.push_back(x); break;
        default: re += s; al.push_back(x); break;
      }
    }
    return re;
  }
  static const char *re[] = {
    "(?m)^[ \\t]*\\i|^[ \\t]*\\j|[a-z]+|[ \\n]|.",
    "(?m)^[ \\t]+|^[ \\t]*\\i|^[ \\t]*\\j|\\j|[a-c]+|\\n|.",
    "(?m)_*\\i|^_+|_*\\j|\\w|(?^[ \\n])",
    "(?m)^.*$|\\n",
    "(?s)/\\*.*?\\*/|//[^\\n]*|\"(\\\\.|[^\"])*\"|\\w+|.",
    "(?m)^a|a$|\\ba\\b|[a-c]+",
    "\\A.*\\n|\\n.*\\z|x+",
    "(?s).{5000,}|a.*b|\\n+",
    "[a-c ]+\\n?|\\n",
  };
  int j = r(9);
  indent = j < 3;
  g.alpha = j == 4 ? "/*\"ab\n\\" : j < 3 ? "ab _\n" : "abc x\n";
  static const char *mem[] = { "a\n", "  a\n", "    b", "\t", "abc", "/* a */", "\"a\"", "b\na", "a b", "_", "// a\n" };
  for (int i = 0; i < 6; ++i) al.push_back(rx::str(mem[r(11)]));
  return re[j];
}


// an input for a pattern made by gen_regex
inline std::string gen_text(Rng& r, rx::Gen& g, const std::vector<rx::P>& al, size_t max) {
  rx::Pat p;
  p.alts = al;
  std::string in;
  size_t target = r(static_cast<uint32_t>(max));
  while (in.size() < target) {
    in += rx::gen_input(r, p, g.alpha, 100);
    if (max > 200 && r.chance(1, 10)) in += std::string(r.range(1, r.chance(1, 10) ? 9000 : 300), g.alpha[r(static_cast<uint32_t>(g.alpha.size()))]);
    if (in.empty()) break;
    if (r.chance(1, 3)) in += '\n';
  }
  if (r.chance(1, 10) && in.size() > 2) in.insert(r(static_cast<uint32_t>(in.size())), 1, '\0');
  return in;
}

} // namespace mix
#endif
