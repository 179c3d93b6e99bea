// Matchers based on PCRE2, Boost.Regex and std::regex: every token, piece and match that the matcher
// returns, under any source and read schedule, is what the engine itself finds on the whole input.
#include "vpdebug.h"
#include <reflex/pcre2matcher.h>
#include <reflex/boostmatcher.h>
#pragma push_macro("ASSERT")
#undef ASSERT
#define ASSERT(c)
#include <reflex/stdmatcher.h>
#pragma pop_macro("ASSERT")
#include "deliver.h"
#include <algorithm>
#include <ctime>
using namespace vp;

static std::string S(size_t n) { return std::to_string(n); }

struct Hit {
  size_t b = 0, e = 0;
  std::vector<std::pair<long,long>> g; // groups 1..
};
enum { ANCHORED = 1, NOTEMPTY = 2, NOTEMPTY_AT = 4 };

// ---------- engines ----------
struct Pcre {
  typedef reflex::PCRE2Matcher Base;
  static const bool utf = false;
  pcre2_code *c = NULL, *cj = NULL; pcre2_match_data *d = NULL; bool jit = false;
  std::map<size_t, std::string> names;
  ~Pcre() { if (d) pcre2_match_data_free(d); if (c) pcre2_code_free(c); if (cj) pcre2_code_free(cj); }
  bool compile(const std::string& re, bool u) {
    int err; PCRE2_SIZE pos;
    c = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(re.data()), re.size(), u ? PCRE2_UTF | PCRE2_UCP | PCRE2_MATCH_INVALID_UTF : 0, &err, &pos, NULL);
    if (!c) return false;
    d = pcre2_match_data_create_from_pattern(c, NULL);
    cj = pcre2_code_copy_with_tables(c);
    jit = pcre2_jit_compile(cj, PCRE2_JIT_COMPLETE) == 0;
    uint32_t nc = 0, ns = 0; PCRE2_SPTR tab = NULL;
    pcre2_pattern_info(c, PCRE2_INFO_NAMECOUNT, &nc);
    pcre2_pattern_info(c, PCRE2_INFO_NAMEENTRYSIZE, &ns);
    pcre2_pattern_info(c, PCRE2_INFO_NAMETABLE, &tab);
    for (uint32_t i = 0; i < nc; ++i) names[tab[i * ns] << 8 | tab[i * ns + 1]] = reinterpret_cast<const char*>(tab + i * ns + 2);
    return true;
  }
  // 1 hit, 0 none, -1 the engine gave up or its interpreter and its compiled code disagree
  int search(const std::string& s, size_t pos, int fl, Hit& h) {
    int k = search1(c, s, pos, fl, h);
    if (!jit || k < 0) return k;
    Hit g;
    int l = search1(cj, s, pos, fl, g);
    if (k != l || (k && (g.b != h.b || g.e != h.e || g.g != h.g))) { ctx().count("engine disagrees with itself"); return -1; }
    return k;
  }
  int search1(pcre2_code *c, const std::string& s, size_t pos, int fl, Hit& h) {
    in_oracle() = true;
    struct Off { ~Off() { in_oracle() = false; } } off;
    uint32_t f = 0;
    if (fl & ANCHORED) f |= PCRE2_ANCHORED;
    if (fl & NOTEMPTY) f |= PCRE2_NOTEMPTY;
    if (fl & NOTEMPTY_AT) f |= PCRE2_NOTEMPTY_ATSTART;
    int rc = pcre2_match(c, reinterpret_cast<PCRE2_SPTR>(s.data()), s.size(), pos, f, d, NULL);
    if (rc == PCRE2_ERROR_NOMATCH) return 0;
    if (rc <= 0) return -1;
    PCRE2_SIZE *o = pcre2_get_ovector_pointer(d);
    h.b = o[0]; h.e = o[1];
    h.g.clear();
    for (uint32_t i = 1; i < pcre2_get_ovector_count(d); ++i) {
      if (o[2 * i] == PCRE2_UNSET) h.g.push_back({ -1, -1 });
      else h.g.push_back({ static_cast<long>(o[2 * i]), static_cast<long>(o[2 * i + 1]) });
    }
    if (h.b > h.e) return -1;
    return 1;
  }
};
struct Bst {
  boost::regex re; bool posix = false;
  std::map<size_t, std::string> names;
  bool compile(const std::string& s, bool) { try { re = boost::regex(s); return true; } catch (...) { return false; } }
  int search(const std::string& s, size_t pos, int fl, Hit& h) {
    boost::match_flag_type f = boost::regex_constants::match_not_dot_newline;
    f |= posix ? boost::regex_constants::match_posix : boost::regex_constants::match_perl;
    if (fl & ANCHORED) f |= boost::regex_constants::match_continuous;
    if (fl & NOTEMPTY) f |= boost::regex_constants::match_not_null;
    if (pos) f |= boost::regex_constants::match_prev_avail | boost::regex_constants::match_not_bob;
    boost::cmatch m;
    in_oracle() = true;
    struct Off { ~Off() { in_oracle() = false; } } off;
    try {
      if (!boost::regex_search(s.data() + pos, s.data() + s.size(), m, re, f, s.data())) return 0;
    } catch (...) { return -1; }
    h.b = m[0].first - s.data(); h.e = m[0].second - s.data();
    h.g.clear();
    for (size_t i = 1; i < m.size(); ++i)
      if (m[i].matched) h.g.push_back({ m[i].first - s.data(), m[i].second - s.data() }); else h.g.push_back({ -1, -1 });
    return 1;
  }
};
struct Std {
  std::regex re; std::regex::flag_type syn = std::regex::ECMAScript;
  std::map<size_t, std::string> names;
  bool compile(const std::string& s, bool) { try { re = std::regex(s, syn); return true; } catch (...) { return false; } }
  int search(const std::string& s, size_t pos, int fl, Hit& h) {
    std::regex_constants::match_flag_type f = std::regex_constants::match_default;
    if (fl & ANCHORED) f |= std::regex_constants::match_continuous;
    if (fl & NOTEMPTY) f |= std::regex_constants::match_not_null;
    if (pos) f |= std::regex_constants::match_prev_avail;
    std::cmatch m;
    in_oracle() = true;
    struct Off { ~Off() { in_oracle() = false; } } off;
    try {
      if (!std::regex_search(s.data() + pos, s.data() + s.size(), m, re, f)) return 0;
    } catch (...) { return -1; }
    h.b = m[0].first - s.data(); h.e = m[0].second - s.data();
    h.g.clear();
    for (size_t i = 1; i < m.size(); ++i)
      if (m[i].matched) h.g.push_back({ m[i].first - s.data(), m[i].second - s.data() }); else h.g.push_back({ -1, -1 });
    return 1;
  }
};

// ---------- patterns ----------
enum Eng { EPCRE, EUTF, EBOOST, EBPOSIX, ESTD, ESTDX };
struct Pg {
  Rng& r; Eng e; int groups = 0, open = 0; bool anchors, big;
  std::vector<std::string> chars;
  std::string nl = "\\n";
  Pg(Rng& r_, Eng e_, bool a, bool b) : r(r_), e(e_), anchors(a), big(b) {
    chars = { "a", "b", "c" };
    if (r.chance(1, 3)) chars.push_back("1");
    if (e == EUTF) { chars.push_back("\xc3\xa9"); chars.push_back("\xe2\x82\xac"); if (r.chance(1, 2)) chars.push_back("\xf0\x9f\x98\x80"); }
  }
  struct Sub { std::string re, x, y; bool null; };
  bool perl() const { return e == EPCRE || e == EUTF || e == EBOOST; }
  Sub ch() { std::string c = r.pick(chars); return { c, c, c, false }; }
  Sub cls() {
    std::string a = r.pick(chars), b = r.pick(chars);
    switch (r(7)) {
      case 0: return { "[" + a + b + "]", a, b, false };
      case 1: return { "[^" + a + "]", b, a == b ? "x" : b, false };
      case 2: return { "[a-c]", "a", "c", false };
      case 3: if (e == EBPOSIX || e == ESTDX) return { "[[:alnum:]]", "b", "1", false }; return { "\\w", "b", "1", false };
      case 4: if (e == EBPOSIX || e == ESTDX) return { "[[:space:]]", " ", "\n", false }; return { "\\s", " ", "\n", false };
      case 5: return { "[^" + a + "\n]", b, "x", false };
      default: return { ".", a, "x", false };
    }
  }
  Sub atom(int d) {
    int k = r(10);
    if (d <= 0 || k < 4) return r.chance(3, 5) ? ch() : cls();
    if (k < 7) {
      int n = ++groups;
      (void)n;
      ++open;
      Sub s = alt(d - 1);
      --open;
      std::string pre = "(";
      if ((e == EPCRE || e == EUTF) && r.chance(1, 4)) pre = "(?<n" + S(n) + ">";
      return { pre + s.re + ")", s.x, s.y, s.null };
    }
    if (k < 9) {
      Sub s = alt(d - 1);
      if (e == EBPOSIX || e == ESTDX) { ++groups; return { "(" + s.re + ")", s.x, s.y, s.null }; }
      std::string pre = "(?:";
      if ((e == EPCRE || e == EUTF) && r.chance(1, 8)) pre = "(?>";
      return { pre + s.re + ")", s.x, s.y, s.null };
    }
    if (perl() || e == ESTD) {
      if (r.chance(1, 3) && groups > open && groups < 10 && e != ESTD) {
        // backreference to a group that is closed: the first one closed is not tracked, so use a fresh one
        Sub s = cls(); int n = ++groups;
        return { "(" + s.re + ")\\" + S(n), s.x + s.x, s.y + s.y, false };
      }
      Sub s = cls(), t = ch();
      switch (r(perl() && e != EBOOST ? 4 : 2)) {
        case 0: return { t.re + "(?=" + s.re + ")", t.x, t.x, false };
        case 1: return { t.re + "(?!" + s.re + ")", t.x, t.x, false };
        case 2: return { "(?<=" + r.pick(chars) + ")" + t.re, t.x, t.x, false };
        default: return { "(?<!" + r.pick(chars) + ")" + t.re, t.x, t.x, false };
      }
    }
    return cls();
  }
  Sub quant(int d) {
    Sub s = atom(d);
    if (!r.chance(1, 3)) return s;
    std::string lazy = e != EBPOSIX && e != ESTDX && r.chance(1, 4) ? "?" : (e == EPCRE || e == EUTF) && s.re.find('(') == std::string::npos && r.chance(1, 10) ? "+" : "";
    if (s.re.size() > 1 && s.re[0] != '(' && s.re[0] != '[' && s.re[0] != '\\' && s.re.size() > 4) s.re = (e == EBPOSIX || e == ESTDX ? (++groups, "(") : "(?:") + s.re + ")";
    std::string rep;
    if (s.null && (e == ESTD || e == ESTDX || e == EBPOSIX)) return s;
    switch (r(6)) {
      case 0: return { s.re + "?" + lazy, "", s.x, true };
      case 1: return { s.re + "*" + lazy, s.x + s.y, "", true };
      case 2: { int n = r.range(1, 3), m = n + r.range(0, 2); std::string x, y; for (int i = 0; i < n; ++i) x += s.x; for (int i = 0; i < m; ++i) y += s.y; return { s.re + "{" + S(n) + "," + S(m) + "}" + (m == n ? "" : lazy), x, y, s.null }; }
      default: return { s.re + "+" + lazy, s.x, s.x + s.y + s.x, s.null };
    }
  }
  Sub cat(int d) {
    int n = r.range(1, 3);
    Sub s = { "", "", "", true };
    for (int i = 0; i < n; ++i) {
      if (anchors && r.chance(1, 12)) {
        static const char *an[] = { "^", "$", "\\b", "\\B" };
        int a = r(4);
        if (a || (d == 2 && i == 0)) s.re += an[a]; // ^ at the start of the regex only, see the fixed case below
      }
      Sub t = quant(d);
      s.re += t.re; s.x += t.x; s.y += t.y; s.null = s.null && t.null;
    }
    if (anchors && r.chance(1, 12)) s.re += r.chance(1, 2) ? "$" : "\\b";
    return s;
  }
  Sub alt(int d) {
    Sub s = cat(d);
    int n = r.chance(1, 2) ? 0 : r.range(1, 2);
    for (int i = 0; i < n; ++i) { Sub t = cat(d); s.re += "|" + t.re; if (r.chance(1, 2)) s.x = t.x; else s.y = t.y; s.null = s.null || t.null; }
    return s;
  }
};

static bool& invalid() { static bool b = false; return b; }

static std::string gen_input(Rng& r, Pg& g, const std::vector<Pg::Sub>& subs, size_t target) {
  std::string in;
  while (in.size() < target) {
    const Pg::Sub& s = r.pick(subs);
    switch (r(8)) {
      case 0: case 1: in += s.x; break;
      case 2: case 3: in += s.y; break;
      case 4: in += r.pick(g.chars); break;
      case 5: in += r.chance(1, 2) ? " " : "\n"; break;
      case 6: in += s.x.substr(0, 0) + s.y; in += r.pick(g.chars); break;
      default: if (target > 500 && r.chance(1, 10)) { std::string c = r.pick(g.chars); for (int n = r(300); n > 0; --n) in += c; } else in += "x"; break;
    }
    if (in.empty() && r.chance(1, 5)) break;
  }
  if (g.e != EUTF && r.chance(1, 10) && !in.empty()) in.insert(r(static_cast<uint32_t>(in.size())), 1, static_cast<char>(128 + r(128)));
  invalid() = false;
  if (g.e == EUTF && r.chance(1, 6)) {
    invalid() = true; // no reference for invalid UTF-8: memory safety and termination only
    for (int n = r.range(1, 3); n > 0 && !in.empty(); --n) {
      size_t at = r(static_cast<uint32_t>(in.size()));
      if (r.chance(1, 2)) in.erase(at, 1); else in.insert(at, 1, static_cast<char>(128 + r(128)));
    }
    if (r.chance(1, 3)) in += "\xf0\x9f";
  }
  if (r.chance(1, 15) && !in.empty() && g.e != EUTF) in[r(static_cast<uint32_t>(in.size()))] = '\0';
  return in;
}

static std::string show(const std::string& s, size_t at) {
  size_t b = at > 40 ? at - 40 : 0;
  return (b ? "..." : "") + esc(s.substr(b, 80)) + " (" + S(s.size()) + " bytes)";
}

// ---------- one history ----------
template<typename M, typename O>
static void history(Rng& r, M& m, O& o, const std::string& in, int style, bool N, bool nullable, const std::string& where) {
  Ctx& c = ctx();
  size_t pos = 0, tokens = 0, grouped = 0;
  int empty_at = 0;
  bool done = false;
  std::string log;
  auto bad = [&](const std::string& key, const std::string& what) {
    if (invalid()) { c.count("invalid UTF-8"); for (int n = 0; n < 300 && (r.chance(1, 2) ? m.find() : m.scan()); ++n) continue; throw Abandon(); }
    c.fail(key, where + " at " + S(pos) + " near \"" + show(in, pos) + "\" after " + (log.size() > 60 ? log.substr(log.size() - 60) : log) + ": " + what);
    throw Abandon();
  };
  auto check_groups = [&](const Hit& h, size_t a, bool split) {
    size_t first = 0;
    for (size_t i = 0; i < h.g.size() && !first; ++i) if (h.g[i].first >= 0) first = i + 1;
    if (first ? a != first : a == 0) bad("eng-accept", "accept " + S(a) + " expected " + (first ? S(first) : "nonzero"));
    if (split) return;
    bool txt = r.chance(1, 4), before = r.chance(1, 2);
    if (txt && before) (void)m.text();
    for (size_t i = 0; i < h.g.size(); ++i) {
      std::pair<const char*,size_t> p = m[i + 1];
      if (h.g[i].first < 0) { if (p.first) bad("eng-group", "group " + S(i + 1) + " set to \"" + esc(std::string(p.first, p.second)) + "\" but the engine leaves it unset"); }
      else {
        std::string want = in.substr(h.g[i].first, h.g[i].second - h.g[i].first);
        if (!p.first) bad("eng-group", "group " + S(i + 1) + " unset, expected \"" + esc(want) + "\"");
        else if (std::string(p.first, p.second) != want) bad("eng-group", "group " + S(i + 1) + " is \"" + esc(std::string(p.first, p.second)) + "\" expected \"" + esc(want) + "\"");
        ++grouped;
      }
    }
    if (m[h.g.size() + 1].first) bad("eng-group", "group beyond the last is set");
    if (r.chance(1, 3)) {
      std::pair<size_t,const char*> id = m.group_id();
      for (size_t i = 0; i < h.g.size(); ++i) {
        if (h.g[i].first < 0) continue;
        if (id.first != i + 1) bad("eng-group-id", "group id " + S(id.first) + " expected " + S(i + 1));
        auto nm = o.names.find(i + 1);
        if (nm == o.names.end() ? id.second != NULL : (!id.second || nm->second != id.second)) bad("eng-group-id", std::string("name ") + (id.second ? id.second : "NULL") + " of group " + S(i + 1));
        id = m.group_next_id();
      }
      if (id.first != 0) bad("eng-group-id", "group id " + S(id.first) + " after the last group, expected 0");
    }
  };
  if (style == 3) {
    Hit h;
    int k = o.search(in, 0, ANCHORED, h);
    if (k < 0) throw Abandon();
    if (nullable && h.b == h.e && k && in.empty()) { }
    size_t a = m.matches();
    bool want = k && h.e == in.size();
    if ((a != 0) != want) bad("eng-matches", "matches " + S(a) + " expected " + (want ? "nonzero" : "0"));
    if (want) { if (m.str() != in) bad("eng-text", "matched \"" + esc(m.str()) + "\""); check_groups(h, a, false); c.nontrivial(hash_str(where)); }
    ++c.evaluations;
    return;
  }
  bool atend_seen = false;
  size_t steps = 0;
  while (!done && steps < 3 * in.size() + 30) {
    ++steps;
    Hit h;
    int op = style;
    if (style == 4) { static const int ops[] = { 0, 0, 0, 1, 1, 1, 5, 6, 7, 8, 9, 2 }; op = ops[r(12)]; if (op == 2 && nullable) op = 1; }
    static const char *opname[] = { "scan", "find", "split", "", "", "at_end", "peek", "input", "skip", "less" };
    log += std::string(" ") + opname[op] + "@" + S(pos);
    if (op == 0) {
      int k = o.search(in, pos, ANCHORED | NOTEMPTY, h);
      if (k < 0) throw Abandon();
      size_t a = m.scan();
      if (!k) {
        if (a) bad("eng-scan", "scanned \"" + esc(m.str()) + "\" expected no match");
        // consume a character
        bool e = m.at_end();
        if (e != (pos == in.size())) bad("eng-at-end", std::string("at_end ") + (e ? "true" : "false") + " at " + S(pos));
        int ch = m.input();
        int want = pos < in.size() ? static_cast<unsigned char>(in[pos]) : EOF;
        if (ch != want) bad("eng-input", "input() " + std::to_string(ch) + " expected " + std::to_string(want) + " after scan without match");
        if (want == EOF) done = true;
        else {
          ++pos;
          while (c.opt["utf"] == "1" && pos < in.size() && (in[pos] & 0xC0) == 0x80) {
            ch = m.input();
            if (ch != static_cast<unsigned char>(in[pos])) bad("eng-input", "input() " + std::to_string(ch) + " inside a character");
            ++pos;
          }
        }
        continue;
      }
      std::string want = in.substr(h.b, h.e - h.b);
      if (!a) bad("eng-scan", "no match, expected \"" + esc(want) + "\"");
      if (m.str() != want) bad("eng-scan", "scanned \"" + esc(m.str()) + "\" expected \"" + esc(want) + "\"");
      if (m.first() != h.b) bad("eng-first", "first " + S(m.first()) + " expected " + S(h.b));
      check_groups(h, a, false);
      pos = h.e;
      ++tokens;
    }
    else if (op == 1) {
      int fl = 0;
      if (!N) fl = NOTEMPTY;
      else if (empty_at) fl = NOTEMPTY_AT;
      int k = o.search(in, pos, fl, h);
      if (k < 0) throw Abandon();
      if (k && N && h.b == h.e && h.e == in.size()) k = 0;      // documented: no empty match at the end
      size_t a = m.find();
      if (!k) {
        if (a) bad("eng-find", "found \"" + esc(m.str()) + "\" at " + S(m.first()) + " expected no match");
        pos = in.size();
        int ch = m.input();
        if (ch != EOF) bad("eng-find", "input() " + std::to_string(ch) + " after find without match");
        done = true;
        continue;
      }
      std::string want = in.substr(h.b, h.e - h.b);
      if (!a) bad("eng-find", "no match, expected \"" + esc(want) + "\" at " + S(h.b));
      if (m.first() != h.b || m.str() != want) bad("eng-find", "found \"" + esc(m.str()) + "\" at " + S(m.first()) + " expected \"" + esc(want) + "\" at " + S(h.b));
      check_groups(h, a, false);
      pos = h.e;
      empty_at = h.b == h.e;
      ++tokens;
    }
    else if (op == 2) {
      int k = done ? 0 : o.search(in, pos, empty_at ? NOTEMPTY_AT : 0, h);
      if (k < 0) throw Abandon();
      if (in.empty() && nullable) k = 0;
      size_t a = m.split();
      if (!k && style == 4 && a == 0 && pos == in.size()) { done = true; continue; }
      if (!k) {
        if (a != reflex::PatternMatcher<std::string>::Const::EMPTY) bad("eng-split", "accept " + S(a) + " expected EMPTY for the last piece");
        if (m.str() != in.substr(pos)) bad("eng-split", "last piece \"" + esc(m.str()) + "\" expected \"" + esc(in.substr(pos)) + "\"");
        pos = in.size();
        if (style == 4) { if (m.at_end() != true) bad("eng-split", "not at end after the last piece"); ++tokens; done = true; continue; }
        size_t b = m.split();
        if (b) bad("eng-split", "piece after the last one: \"" + esc(m.str()) + "\"");
        done = true;
        ++tokens;
        continue;
      }
      std::string want = in.substr(pos, h.b - pos);
      if (!a || m.str() != want) bad("eng-split", "piece " + S(a) + " \"" + esc(m.str()) + "\" expected \"" + esc(want) + "\" before the match at " + S(h.b));
      check_groups(h, a, true);
      if (m.first() != pos) bad("eng-first", "first " + S(m.first()) + " expected " + S(pos));
      pos = h.e;
      empty_at = h.b == h.e;
      ++tokens;
    }
    else if (op == 5) {
      bool e = m.at_end();
      if (e != (pos == in.size())) bad("eng-at-end", std::string("at_end ") + (e ? "true" : "false") + " at " + S(pos));
      if (e) { if (atend_seen) done = true; atend_seen = true; }
    }
    else if (op == 6) {
      int ch = m.peek(), want = pos < in.size() ? static_cast<unsigned char>(in[pos]) : EOF;
      if (ch != want) bad("eng-peek", "peek() " + std::to_string(ch) + " expected " + std::to_string(want));
    }
    else if (op == 7) {
      do {
        int ch = m.input(), want = pos < in.size() ? static_cast<unsigned char>(in[pos]) : EOF;
        if (ch != want) bad("eng-input", "input() " + std::to_string(ch) + " expected " + std::to_string(want));
        if (want != EOF) ++pos;
      } while (c.opt["utf"] == "1" && pos < in.size() && (in[pos] & 0xC0) == 0x80);
      empty_at = 0;
    }
    else if (op == 8) {
      if (!r.chance(1, 4)) continue;
      size_t q = in.find('\n', pos);
      bool got = m.skip('\n');
      if (got != (q != std::string::npos)) bad("eng-skip", std::string("skip ") + (got ? "true" : "false"));
      pos = q == std::string::npos ? in.size() : q + 1;
    }
    else if (op == 9) {
      size_t at = pos;
      int k = o.search(in, pos, ANCHORED | NOTEMPTY, h);
      if (k < 0) throw Abandon();
      size_t a = m.scan();
      if ((a != 0) != (k != 0)) bad("eng-scan", "scan " + S(a) + " expected " + S(k));
      if (a && (h.b != at || m.str() != in.substr(h.b, h.e - h.b))) bad("eng-scan", "scanned \"" + esc(m.str()) + "\"");
      if (a) {
        size_t keep = r(static_cast<uint32_t>(h.e - h.b)) + 1;
        while (c.opt["utf"] == "1" && h.b + keep < in.size() && (in[h.b + keep] & 0xC0) == 0x80) ++keep;
        m.less(keep);
        if (m.str() != in.substr(h.b, keep)) bad("eng-less", "text after less(" + S(keep) + ") is \"" + esc(m.str()) + "\"");
        pos = h.b + keep;
        ++tokens;
      }
    }
  }
  ++c.evaluations;
  c.count("tokens", tokens);
  c.count("groups", grouped);
  if (tokens >= 2) c.nontrivial(hash_str(where));
}

static void set_syntax(Pcre&, Eng) { }
static void set_syntax(Bst& o, Eng e) { o.posix = e == EBPOSIX; }
static void set_syntax(Std& o, Eng e) { o.syn = e == ESTD ? std::regex::ECMAScript : std::regex::awk; }

template<typename M, typename O>
static void engine(Rng& r, Eng e, const char *name, std::vector<int> kinds, const std::string& only) {
  Ctx& c = ctx();
  bool utf = e == EUTF;
  c.opt["utf"] = utf ? "1" : "0";
  bool anchors = (e == EPCRE || e == EUTF || e == EBOOST) && r.chance(2, 5);
  Pg g(r, e, anchors, false);
  std::string re;
  std::vector<Pg::Sub> subs;
  int n = r.range(1, 4);
  bool null = false;
  bool grp = r.chance(2, 3);
  for (int i = 0; i < n; ++i) {
    Pg::Sub s;
    int tries = 0;
    do { int save = g.groups; if (grp) ++g.groups; s = g.cat(e == ESTD || e == ESTDX ? 1 : 2); if (s.null && ++tries < 20) g.groups = save; else break; } while (e == ESTD || e == ESTDX || e == EBOOST || e == EBPOSIX || r.chance(4, 5));
    if (s.null && e != EPCRE && e != EUTF) throw Abandon();
    // names and numbers of groups are consistent only when nothing was retried; recompile decides
    if (i) re += "|";
    re += grp ? "(" + s.re + ")" : s.re;
    null = null || s.null;
    subs.push_back(s);
  }
  if ((e == EPCRE || e == EUTF) && anchors && r.chance(2, 3)) re = "(?m)" + re;
  else if ((e == EPCRE || e == EUTF)) { if (re.find('^') != std::string::npos && anchors) re = "(?m)" + re; if (r.chance(1, 6)) re = "(?s)" + re; if (r.chance(1, 6)) re = "(?i)" + re; }
  if (e == EBOOST && r.chance(1, 6)) re = "(?i)" + re;
  O o;
  set_syntax(o, e);
  if (!o.compile(re, utf)) { c.count("uncompiled"); throw Abandon(); }
  size_t target = r.chance(1, 12) && e != ESTD && e != ESTDX ? r(e == EBOOST || e == EBPOSIX ? 3000 : 20000) : r.chance(1, 3) ? r(e == ESTD || e == ESTDX ? 200 : 600) : r(60);
  std::string in = gen_input(r, g, subs, target);
  // an empty match must be possible only where the model covers it
  { Hit h; int k = o.search(in, 0, ANCHORED, h); if (k < 0) throw Abandon(); }
  if (e == ESTD || e == ESTDX) {
    // std::regex takes exponential time for some regexes, which says nothing about the matcher
    clock_t start = clock();
    for (size_t at = 0; at < in.size(); ++at) {
      Hit h;
      (void)o.search(in, at, ANCHORED, h);
      if (clock() - start > CLOCKS_PER_SEC / 2) { c.count("slow regexes skipped"); throw Abandon(); }
    }
  }
  int style = r.chance(1, 8) ? 3 : r(5) == 0 ? 4 : r(3);
  if (style == 3 && r.chance(2, 3)) { in = r.chance(1, 2) ? r.pick(subs).x : r.pick(subs).y; }
  bool N = style == 1 && (e == EPCRE || e == EUTF) && r.chance(1, 3);
  for (int rep = 0; rep < 3; ++rep) {
    int kind = rep == 0 ? kinds[0] : r.pick(kinds);
    dl::Source<M> src;
    src.blocks = e == EPCRE || e == EUTF;
    std::string what = std::string(name) + " regex \"" + esc(re) + "\" style " + S(style) + (N ? " N" : "");
    c.set_note(what + " input \"" + esc(in, 2000) + "\"");
    try {
      if (!src.make(re, in, kind, r, N ? "N" : NULL)) continue;
    } catch (const reflex::regex_error& x) { c.fail("eng-compile", what + ": " + x.what()); throw Abandon(); }
    c.set_note(what + " from " + src.how + " input \"" + esc(in, 2000) + "\"");
    uint64_t save = r.next();
    Rng h(save);
    c.count((std::string("delivery ") + src.how.substr(0, src.how.find('/'))).c_str());
    history(h, *src.m, o, in, style, N, null, what + " from " + src.how);
    c.count(name);
  }
  (void)only;
  c.sample(std::string(name) + " " + re);
}

// captures of regexes with many groups, of which some are named
template<typename M>
static void groups(Rng& r, const char *name, bool names) {
  Ctx& c = ctx();
  size_t n = r.chance(1, 3) ? names ? r.range(250, 700) : r.range(60, 120) : r.range(2, 60), per = r.range(1, 3);
  // one alternative has 1 to 3 optional groups in sequence, each of which matches its own word
  std::vector<std::string> word(n + 1), nm(n + 1);
  std::string re;
  std::vector<std::vector<size_t> > alt;
  for (size_t g = 1; g <= n; ) {
    size_t k = r.range(1, static_cast<int>(per));
    if (!re.empty()) re += '|';
    alt.push_back(std::vector<size_t>());
    re += static_cast<char>('A' + alt.size() % 26);
    re += S(alt.size()) + "_";
    for (; k > 0 && g <= n; --k, ++g) {
      word[g] = std::string(1, static_cast<char>('a' + g % 26)) + S(g) + "-";
      if (names && r.chance(1, 4)) nm[g] = "n" + S(g * 7 % 1000) + "x" + S(g);
      re += nm[g].empty() ? "(" : "(?<" + nm[g] + ">";
      re += word[g] + ")?";
      alt.back().push_back(g);
    }
  }
  std::string note = std::string(name) + " " + S(n) + " groups, regex \"" + esc(re, 3000) + "\"";
  c.set_note(note);
  std::string in;
  std::vector<std::pair<std::string, std::vector<size_t> > > want;
  for (int k = r.range(1, 12); k > 0; --k) {
    size_t a = r.chance(1, 3) ? alt.size() - 1 - r(std::min<size_t>(alt.size(), 9)) : r(alt.size());
    std::string t = std::string(1, static_cast<char>('A' + (a + 1) % 26)) + S(a + 1) + "_";
    std::vector<size_t> caps;
    for (size_t g : alt[a]) if (r.chance(2, 3)) { t += word[g]; caps.push_back(g); }
    in += t;
    want.push_back({ t, caps });
    if (r.chance(1, 2)) in += ' ';
  }
  M m(re, reflex::Input(in));
  for (auto& w : want) {
    size_t a = m.find();
    ++c.evaluations;
    std::string err;
    if (m.str() != w.first) err = "finds \"" + esc(m.str()) + "\" not \"" + w.first + "\"";
    else if (!w.second.empty() && a != w.second[0]) err = "accepts " + S(a) + " not " + S(w.second[0]);
    std::pair<size_t,const char*> id = m.group_id();
    for (size_t k = 0; k <= w.second.size() && err.empty(); ++k) {
      size_t g = k < w.second.size() ? w.second[k] : 0;
      if (id.first != g) err = "group " + S(id.first) + " not " + S(g);
      else if (g == 0 || nm[g].empty() ? id.second != NULL : id.second == NULL || nm[g] != id.second) err = "group " + S(g) + " is named " + (id.second ? id.second : "(none)") + " not " + nm[g];
      else if (g != 0) {
        std::pair<const char*,size_t> t = m[g];
        if (t.first == NULL || std::string(t.first, t.second) != word[g]) err = "group " + S(g) + " is not " + word[g];
      }
      c.count(g == 0 ? "ends of groups" : nm[g].empty() ? "groups" : "named groups");
      if (g != 0) id = m.group_next_id();
    }
    if (!err.empty()) { c.fail("eng-many-groups", note + " input \"" + esc(in) + "\" at \"" + w.first + "\": " + err); return; }
  }
  c.nontrivial(hash_str(note));
}

int main(int argc, char **argv) {
  return run(argc, argv, [](Rng& r, uint64_t) {
    Ctx& c = ctx();
    std::string e = c.opt["engine"];
    std::vector<int> all, whole = { 0, 7, 8 };
    for (int i = 0; i < dl::Source<reflex::PCRE2Matcher>::KINDS; ++i) all.push_back(i);
    try {
      if (r.chance(1, 12)) {
        if (e == "pcre") groups<reflex::PCRE2Matcher>(r, "PCRE2Matcher", true);
        else if (e == "utf") groups<reflex::PCRE2UTFMatcher>(r, "PCRE2UTFMatcher", true);
        else if (e == "boost") groups<reflex::BoostPerlMatcher>(r, "BoostPerlMatcher", false);
        else groups<reflex::StdEcmaMatcher>(r, "StdEcmaMatcher", false);
      }
      else if (e == "pcre") engine<reflex::PCRE2Matcher, Pcre>(r, EPCRE, "PCRE2Matcher", all, "");
      else if (e == "utf") engine<reflex::PCRE2UTFMatcher, Pcre>(r, EUTF, "PCRE2UTFMatcher", all, "");
      else if (e == "boost") {
        if (r.chance(2, 3)) engine<reflex::BoostPerlMatcher, Bst>(r, EBOOST, "BoostPerlMatcher", { 7, 8 }, "");
        else engine<reflex::BoostPosixMatcher, Bst>(r, EBPOSIX, "BoostPosixMatcher", { 7, 8 }, "");
      }
      else {
        if (r.chance(2, 3)) engine<reflex::StdEcmaMatcher, Std>(r, ESTD, "StdEcmaMatcher", { 0, 7, 8, 9, 10, 11 }, "");
        else engine<reflex::StdPosixMatcher, Std>(r, ESTDX, "StdPosixMatcher", { 0, 7, 8, 9, 10, 11 }, "");
      }
    } catch (const Abandon&) { }
    catch (const std::runtime_error& x) { if (e == "boost" && strstr(x.what(), "complexity")) c.count("engine gave up"); else throw; }
  }, []() {
    Ctx& c = ctx();
    if (c.opt["engine"] != "pcre") return;
    // PCRE2's ^ does not match behind a newline that ends the bytes read so far
    struct Two : public reflex::PCRE2Matcher {
      Two() : reflex::PCRE2Matcher("(?m)a\\n^b", reflex::Input()), n(0) { }
      virtual size_t get(char *s, size_t) { ++n; if (n > 2) return 0; memcpy(s, n == 1 ? "a\n" : "b\n", 2); return 2; }
      int n;
    } m;
    if (!m.find()) c.fail("eng-circumflex-after-newline-at-read-end", "PCRE2Matcher regex \"(?m)a\\n^b\" does not find \"a\\nb\" when the input arrives as \"a\\n\" and \"b\\n\"");
  });
}
