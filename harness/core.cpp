// C01 scan/matches, C02 find, C03 split: the real matcher against the reference NFA.
#include "rx.h"
#include "access.h"
#include <reflex/matcher.h>
using namespace vp;
using rx::Pat;

static std::string desc(const Pat& p, const std::string& in) {
  return "regex=\"" + esc(p.regex) + "\" opts=\"" + p.opts + "\" input=\"" + esc(in) + "\"";
}

// delivers the string in irregular pieces
struct Chunked : public reflex::Matcher {
  Chunked(const reflex::Pattern& p, const std::string& s, Rng& r, int style, const char *opt = NULL)
    : reflex::Matcher(p, reflex::Input(), opt), data(s), at(0), rng(r.next()), style(style) { }
  virtual size_t get(char *s, size_t n) {
    size_t left = data.size() - at;
    size_t k = n < left ? n : left;
    if (k > 1) {
      if (style == 1) k = 1;
      else if (style == 2) k = 1 + rng(k < 7 ? static_cast<uint32_t>(k) : 7);
      else if (style == 3) k = 1 + rng(static_cast<uint32_t>(k));
    }
    memcpy(s, data.data() + at, k);
    at += k;
    return k;
  }
  const std::string& data;
  size_t at;
  Rng rng;
  int style;
};

typedef std::unique_ptr<reflex::Matcher> M;
static M make(const reflex::Pattern& pat, const std::string& in, Rng& r, int& style, const char *opt = NULL) {
  style = r.chance(1, 2) ? 0 : r.range(1, 3);
  if (style == 0) return M(new reflex::Matcher(pat, reflex::Input(in), opt));
  return M(new Chunked(pat, in, r, style, opt));
}

static void check_scan(const Pat& p, rx::NFA& nfa, const reflex::Pattern& pat, const std::string& in, Rng& r) {
  int style;
  M mp = make(pat, in, r, style);
  reflex::Matcher& m = *mp;
  Ctx& c = ctx();
  size_t pos = 0, n = in.size();
  int matched = 0, rejected = 0;
  for (size_t guard = 0; guard < 4 * n + 8; ++guard) {
    size_t len;
    int acc = nfa.longest(in.data(), n, pos, len);
    if (len == 0) acc = 0;   // scan does not return empty matches
    size_t got = m.scan();
    c.evaluations++;
    std::string d = desc(p, in) + " style=" + std::to_string(style) + " pos=" + std::to_string(pos);
    if (got != static_cast<size_t>(acc) || (acc && (m.size() != len || m.first() != pos || m.str() != in.substr(pos, len)))) {
      c.fail("scan-mismatch", d + " expected accept=" + std::to_string(acc) + " len=" + std::to_string(len) + " got accept=" + std::to_string(got) + " len=" + std::to_string(got ? m.size() : 0) + " first=" + std::to_string(m.first()));
      return;
    }
    if (acc == 0) {
      if (m.at_end() != (pos == n)) { c.fail("scan-at_end", d + " at_end=" + std::to_string(m.at_end())); return; }
      if (pos == n) break;
      int ch = m.input();
      if (ch != static_cast<unsigned char>(in[pos])) { c.fail("scan-input", d + " input()=" + std::to_string(ch)); return; }
      ++pos; ++rejected;
    } else {
      std::string why = r.chance(1, 6) ? bad_access(m, r, acc, in.substr(pos, len)) : std::string();
      if (!why.empty()) { c.fail("scan-access", d + " " + why); return; }
      pos += len; ++matched;
    }
  }
  if (pos != n) c.fail("scan-progress", desc(p, in) + " stopped at " + std::to_string(pos));
  c.count("tokens", matched);
  c.count("rejected_positions", rejected);
  if (matched >= 2) c.nontrivial(hash_str(p.regex + "\1" + p.opts + "\1" + in));
  if (matched >= 2 && in.size() < 60) c.sample(desc(p, in) + " tokens=" + std::to_string(matched));
}

static void check_matches(const Pat& p, rx::NFA& nfa, const reflex::Pattern& pat, const std::string& in, Rng& r) {
  int style;
  M m = make(pat, in, r, style);
  Ctx& c = ctx();
  size_t len;
  int acc = nfa.longest(in.data(), in.size(), 0, len);
  if (acc && len != in.size()) acc = 0;
  size_t got = m->matches();
  c.evaluations++;
  if (got != static_cast<size_t>(acc)) {
    c.fail("matches-mismatch", desc(p, in) + " style=" + std::to_string(style) + " expected=" + std::to_string(acc) + " got=" + std::to_string(got));
    return;
  }
  c.count(acc ? "whole_match_yes" : "whole_match_no");
  if (acc && !in.empty()) c.nontrivial(hash_str(p.regex + "\2" + p.opts + "\2" + in));
}

struct Hit { int acc; size_t pos, len; };
static std::vector<Hit> ref_find(rx::NFA& nfa, const std::string& in, bool optN, bool& over) {
  std::vector<Hit> v;
  size_t n = in.size(), pos = 0;
  uint64_t steps = 0;
  over = false;
  while (pos < n) {
    size_t len;
    int acc = nfa.longest(in.data(), n, pos, len, &steps);
    if (steps > 30000000) { over = true; return v; }
    if (acc && len > 0) { Hit h = { acc, pos, len }; v.push_back(h); pos += len; }
    else if (acc && optN) { Hit h = { acc, pos, 0 }; v.push_back(h); pos += 1; }
    else ++pos;
  }
  return v;
}

static void check_find(const Pat& p, rx::NFA& nfa, const reflex::Pattern& pat, const std::string& in, Rng& r) {
  Ctx& c = ctx();
  bool over;
  std::vector<Hit> exp = ref_find(nfa, in, false, over);
  if (over) { c.count("skipped_expensive"); return; }
  int style;
  M mp = make(pat, in, r, style);
  reflex::Matcher& m = *mp;
  size_t i = 0;
  Stepper<reflex::AbstractMatcher> step(m, 1, r);
  for (;;) {
    size_t got = step.next();
    c.evaluations++;
    bool bad = false;
    if (i == exp.size()) bad = got != 0;
    else bad = got != static_cast<size_t>(exp[i].acc) || m.first() != exp[i].pos || m.size() != exp[i].len || memcmp(m.begin(), in.data() + exp[i].pos, exp[i].len) != 0;
    if (bad) {
      std::string e = i == exp.size() ? "none" : std::to_string(exp[i].acc) + "@" + std::to_string(exp[i].pos) + "+" + std::to_string(exp[i].len);
      c.fail("find-mismatch", desc(p, in) + " style=" + std::to_string(style) + " match#" + std::to_string(i) + " expected=" + e + " got=" + std::to_string(got) + "@" + std::to_string(m.first()) + "+" + std::to_string(got ? m.size() : 0));
      return;
    }
    if (got == 0) break;
    if (r.chance(1, 12)) {
      std::string why = bad_access(m, r, got, in.substr(exp[i].pos, exp[i].len));
      if (!why.empty()) { c.fail("find-access", desc(p, in) + " match#" + std::to_string(i) + " " + why); return; }
    }
    ++i;
  }
  if (!m.at_end()) { c.fail("find-at_end", desc(p, in)); return; }
  c.count("matches_found", exp.size());
  if (in.size() > 4096) c.count("long_inputs");
  if (!exp.empty() && (exp.size() > 1 || exp[0].pos > 0)) {
    c.nontrivial(hash_str(p.regex + "\1" + p.opts + "\1" + in));
    if (in.size() < 80) c.sample(desc(p, in) + " matches=" + std::to_string(exp.size()));
  }
}

// split: text pieces between matches; an empty match does not end a piece where it starts,
// except that it gives the empty piece before it at the begin of input; last piece EMPTY
static void check_split(const Pat& p, rx::NFA& nfa, const reflex::Pattern& pat, const std::string& in, Rng& r) {
  Ctx& c = ctx();
  struct Piece { size_t acc, from, to; };
  std::vector<Piece> exp;
  {
    size_t n = in.size(), s = 0, cur = 0;
    uint64_t steps = 0;
    bool bob = true;
    while (true) {
      size_t len;
      int acc = nfa.longest(in.data(), n, cur, len, &steps);
      if (steps > 30000000) { c.count("skipped_expensive"); return; }
      if (acc == 0 || (cur + len == s && !bob)) {
        if (cur < n) { ++cur; continue; }
        Piece x = { reflex::Matcher::Const::EMPTY, s, n };
        exp.push_back(x);
        break;
      }
      if (n == 0) acc = 0;
      Piece x = { acc ? static_cast<size_t>(acc) : reflex::Matcher::Const::EMPTY, s, cur };
      exp.push_back(x);
      if (n == 0) break;
      cur += len;
      s = cur;
      bob = false;
    }
  }
  int style;
  M mp = make(pat, in, r, style);
  reflex::Matcher& m = *mp;
  Stepper<reflex::AbstractMatcher> step(m, 2, r);
  for (size_t i = 0; ; ++i) {
    size_t got = step.next();
    c.evaluations++;
    Piece x = { 0, in.size(), in.size() };
    if (i < exp.size()) x = exp[i];
    std::string w = in.substr(x.from, x.to - x.from);
    if (got != x.acc || (got && (m.str() != w || m.size() != w.size() || m.first() != x.from))) {
      c.fail("split-mismatch", desc(p, in) + " style=" + std::to_string(style) + " piece#" + std::to_string(i) + " expected=" + std::to_string(x.acc) + ":\"" + esc(w, 60) + "\"@" + std::to_string(x.from) + " got=" + std::to_string(got) + ":\"" + esc(m.str(), 60) + "\"@" + std::to_string(m.first()));
      return;
    }
    if (got == 0) break;
    if (r.chance(1, 6)) {
      std::string why = bad_access(m, r, got, w);
      if (!why.empty()) { c.fail("split-access", desc(p, in) + " piece#" + std::to_string(i) + " " + why); return; }
    }
  }
  c.count("pieces", exp.size());
  if (exp.size() >= 2) {
    c.nontrivial(hash_str(p.regex + "\1" + p.opts + "\1" + in));
    if (in.size() < 80) c.sample(desc(p, in) + " pieces=" + std::to_string(exp.size()));
  }
}

// long inputs with a sparse or dense filler that cross the internal buffer blocks
static std::string gen_long(Rng& r, const Pat& p, const std::string& alpha, size_t max = 700000) {
  std::string s;
  size_t target = r.chance(1, 3) ? r.range(30000, 700000) : r.range(300, 9000);
  if (target > max) target = max;
  std::string fill;
  for (int i = 0, n = r.range(1, 40); i < n; ++i) fill += r.chance(1, 2) ? alpha[r(static_cast<uint32_t>(alpha.size()))] : static_cast<char>(r.chance(1, 10) ? '\n' : r.range(32, 126));
  int density = r.range(0, 3);
  while (s.size() < target) {
    size_t gap = density == 0 ? r.range(1, 20) : density == 1 ? r.range(100, 3000) : r.range(5000, 200000);
    while (gap > 0 && s.size() < target) { size_t k = gap < fill.size() ? gap : fill.size(); s.append(fill, 0, k); gap -= k; }
    std::string t;
    rx::sample(r, p.alts[r(static_cast<uint32_t>(p.alts.size()))].get(), t);
    if (r.chance(1, 4) && !t.empty()) t.resize(t.size() - 1);
    s += t;
  }
  // place a member around a power-of-two block boundary
  if (r.chance(1, 2)) {
    static const size_t b[] = { 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288 };
    size_t k = b[r(8)];
    std::string t;
    rx::sample(r, p.alts[r(static_cast<uint32_t>(p.alts.size()))].get(), t);
    size_t off = r(static_cast<uint32_t>(t.size() + 4));
    if (k > off && k - off + t.size() < s.size()) s.replace(k - off, t.size(), t);
  }
  return s;
}

// transition cover of the reference DFA, decided by matches()
static void check_cover(const Pat& p, rx::NFA& nfa, const reflex::Pattern& pat, Rng& r, size_t budget) {
  Ctx& c = ctx();
  rx::Cover v(nfa, 400);
  c.count("reference_states", v.sets.size());
  c.count(v.complete ? "cover_complete" : "cover_cut");
  std::vector<std::vector<int> > into(v.classes.size());
  for (size_t i = 0; i < v.next.size(); ++i) for (size_t k = 0; k < v.classes.size(); ++k) if (v.next[i][k] >= 0) into[k].push_back(v.next[i][k]);
  reflex::Matcher m(pat);
  size_t total = v.next.size() * v.classes.size(), stride = total > budget ? total / budget + 1 : 1;
  std::string in;
  auto test = [&]() {
    size_t len;
    int acc = nfa.longest(in.data(), in.size(), 0, len);
    if (acc && len != in.size()) acc = 0;
    m.input(reflex::Input(in));
    size_t got = m.matches();
    c.evaluations++;
    if (got != static_cast<size_t>(acc)) {
      c.fail("cover-mismatch", desc(p, in) + " expected=" + std::to_string(acc) + " got=" + std::to_string(got));
      return false;
    }
    if (acc) c.count("cover_accepted"); else c.count("cover_rejected");
    return true;
  };
  for (size_t q = stride > 1 ? r(static_cast<uint32_t>(stride)) : 0; q < total; q += stride) {
    size_t i = q / v.classes.size(), k = q % v.classes.size();
    std::string w = v.access[i] + v.pick(r, k);
    in = w;
    if (!test()) return;
    int t = v.next[i][k];
    if (t >= 0) { in = w + v.fin[t]; if (!v.fin[t].empty() && !test()) return; }
    else
      for (int j = 0; j < 2 && !into[k].empty(); ++j) { in = w + v.fin[r.pick(into[k])]; if (!test()) return; }
  }
  if (v.sets.size() >= 3) c.nontrivial(hash_str(p.regex + "\3" + p.opts));
}

int main(int argc, char **argv) {
  std::string mode;
  for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return run(argc, argv, [&](Rng& r, uint64_t) {
    Ctx& c = ctx();
    rx::Gen g(r);
    g.pick_alphabet();
    g.maxdepth = r.range(0, 3);
    Pat p;
    if (mode == "anchor" || mode == "asplit") {
      static const char *al[] = { "ab ", "ab\n", "a_ -", "aA\n ", "ab\r\n" };
      if (r.chance(3, 4)) g.alpha = al[r(5)];
      g.quotes = false;
      g.maxdepth = r.range(0, 1);
      p = rx::gen_anchored(r, g);
      c.set_note("regex=\"" + p.regex + "\" opts=\"" + p.opts + "\"");
      reflex::Pattern pat(p.regex, p.opts + "r");
      c.count("patterns");
      rx::NFA nfa(p.alts);
      for (int k = 0; k < 10; ++k) {
        std::string in = k == 9 && r.chance(1, 30) ? gen_long(r, p, g.alpha, 10000) : rx::gen_input(r, p, g.alpha, 60);
        c.set_note(desc(p, in));
        if (mode == "asplit") { check_split(p, nfa, pat, in, r); continue; }
        if (r.chance(1, 2) && in.size() < 100) check_scan(p, nfa, pat, in, r);
        else check_find(p, nfa, pat, in, r);
        if (r.chance(1, 4) && in.size() < 100) check_matches(p, nfa, pat, in, r);
      }
      return;
    }
    if (mode == "cover") {
      g.nest = r.chance(2, 3);
      if (r.chance(1, 2)) { static const char *al[] = { "ab", "abc", "aAb" }; g.alpha = al[r(3)]; }
      if (g.nest) { g.maxdepth = r.range(2, 4); g.escapes = g.dots = r.chance(1, 3); g.brackets = r.chance(1, 2); }
      p = rx::gen_pattern(r, g, g.nest ? 130 : 60);
    }
    bool simple = mode == "find" && r.chance(1, 2);
    if (mode == "big") {
      p = rx::gen_big(r, g, r.chance(1, 3) ? r.range(500, 3000) : r.range(5000, 6500));
      c.set_note("big regex of " + std::to_string(p.regex.size()) + " bytes");
      reflex::Pattern pat(p.regex, "r");
      c.count("patterns");
      c.count("opcodes", pat.words());
      if (pat.words() > 65534) c.count("patterns_with_long_jumps");
      rx::NFA nfa(p.alts);
      reflex::Matcher m(pat);
      size_t longs = 0;
      std::string in;
      std::vector<size_t> exp;
      for (int k = 0; k < 3000; ++k) {
        std::string t;
        size_t i = r(static_cast<uint32_t>(p.alts.size()));
        rx::sample(r, p.alts[i].get(), t);
        if (r.chance(1, 4)) t[r(static_cast<uint32_t>(t.size()))] = 'a' + static_cast<char>(r(26));
        size_t len;
        int acc = nfa.longest(t.data(), t.size(), 0, len);
        if (acc && len != t.size()) acc = 0;
        m.input(reflex::Input(t));
        size_t got = m.matches();
        c.evaluations++;
        if (got != static_cast<size_t>(acc)) { c.fail("big-mismatch", "words=" + std::to_string(p.alts.size()) + " opcodes=" + std::to_string(pat.words()) + " input=" + esc(t) + " expected=" + std::to_string(acc) + " got=" + std::to_string(got)); return; }
        longs += acc != 0;
      }
      c.count("big_members", longs);
      c.nontrivial(hash_str(p.regex));
      return;
    }
    if (mode == "cover") { }
    else
    if (simple) {
      // shapes that exercise the search heuristics: literal prefixes, fixed minimum lengths
      g.bigrep = 30;
      g.modgroups = false;
      p.w = 0;
      int n = r.chance(1, 2) ? 1 : r.range(2, 6);
      for (int i = 0; i < n; ++i) {
        std::string s, t; rx::P x;
        int k = r(5);
        if (k == 0) x = g.word(s, p.mode, 1, r.chance(1, 6) ? 40 : 12);
        else if (k == 1) { rx::P a = g.word(s, p.mode, 1, 10); rx::P b = g.factor(t, p.mode, 1); x = rx::cat({a, b}); s += t; }
        else { std::vector<rx::P> v; for (int j = r.range(1, 9); j > 0; --j) { t.clear(); if (r.chance(1, 2)) v.push_back(g.bracket(t, p.mode)); else if (r.chance(1, 5)) v.push_back(g.factor(t, p.mode, 1)); else v.push_back(g.literal(t, p.mode)); s += t; } x = rx::cat(v); }
        p.alts.push_back(x); p.parts.push_back(s); p.w += rx::weight(x.get());
      }
      p.regex = rx::join(p.parts);
      if (p.w > 150) { c.count("skipped_big"); return; }
    } else {
      p = rx::gen_pattern(r, g, 50);
    }
    c.set_note("regex=\"" + p.regex + "\" opts=\"" + p.opts + "\"");
    std::string opts = p.opts + "r";
    std::unique_ptr<reflex::Pattern> pat;
    try { pat.reset(new reflex::Pattern(p.regex, opts)); }
    catch (const reflex::regex_error& e) {
      c.fail("valid-regex-rejected", "regex=\"" + esc(p.regex) + "\" opts=\"" + p.opts + "\" error=" + esc(e.what()));
      return;
    }
    c.count("patterns");
    rx::NFA nfa(p.alts);
    if (mode == "cover") {
      check_cover(p, nfa, *pat, r, 450);
      for (int k = 0; k < 2; ++k) { std::string in = rx::gen_input(r, p, g.alpha, 60); c.set_note(desc(p, in)); check_scan(p, nfa, *pat, in, r); }
    } else if (mode == "scan") {
      for (int k = 0; k < 5; ++k) {
        std::string in = rx::gen_input(r, p, g.alpha, 60);
        c.set_note(desc(p, in));
        check_scan(p, nfa, *pat, in, r);
      }
      for (int k = 0; k < 5; ++k) {
        std::string in;
        if (k == 0) in = rx::gen_input(r, p, g.alpha, 20);
        else if (k == 1 && r.chance(1, 4)) in = "";
        else { rx::sample(r, p.alts[r(static_cast<uint32_t>(p.alts.size()))].get(), in); if (r.chance(1, 4) && !in.empty()) in[r(static_cast<uint32_t>(in.size()))] = g.alpha[r(static_cast<uint32_t>(g.alpha.size()))]; }
        c.set_note(desc(p, in));
        check_matches(p, nfa, *pat, in, r);
      }
    } else {
      for (int k = 0; k < 4; ++k) {
        std::string in;
        if (k == 3 && r.chance(1, mode == "find" ? 4 : 12)) in = gen_long(r, p, g.alpha);
        else {
          in = rx::gen_input(r, p, g.alpha, 400);
          if (r.chance(1, 3)) { std::string f; for (int i = r.range(1, 60); i > 0; --i) f += g.alpha[r(static_cast<uint32_t>(g.alpha.size()))]; in = f + in; }
        }
        c.set_note(desc(p, in));
        if (mode == "find") check_find(p, nfa, *pat, in, r); else check_split(p, nfa, *pat, in, r);
      }
    }
  });
}
