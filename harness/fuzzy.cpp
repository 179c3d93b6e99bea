// C18: fuzzy matching against the edit distance between a text and the language of a pattern.
//  mode literal: string patterns, matches() must accept exactly the texts within the distance
//  mode regex: regular expressions, everything accepted must be within the distance, exact matches have no errors
//  mode find: everything found is within the distance; what is found has a reachable number of edits; for string patterns split is its complement
#include "vp.h"
#include "vpdebug.h"
#include "../fuzzy/fuzzymatcher.h"
#include "deliver.h"
#include <deque>
using namespace vp;
typedef reflex::FuzzyMatcher FM;
static std::string S(size_t n) { return std::to_string(n); }

typedef std::vector<int> Chars;
static std::string enc(int c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xC0 | c >> 6); s += static_cast<char>(0x80 | (c & 0x3F)); }
  else if (c < 0x10000) { s += static_cast<char>(0xE0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 0x3F)); s += static_cast<char>(0x80 | (c & 0x3F)); }
  else { s += static_cast<char>(0xF0 | c >> 18); s += static_cast<char>(0x80 | (c >> 12 & 0x3F)); s += static_cast<char>(0x80 | (c >> 6 & 0x3F)); s += static_cast<char>(0x80 | (c & 0x3F)); }
  return s;
}
static std::string enc(const Chars& t) { std::string s; for (int c : t) s += enc(c); return s; }
static Chars dec(const std::string& s) {
  Chars t;
  for (size_t i = 0; i < s.size(); ) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    if (n == 1) t.push_back(c);
    else if (c < 0xC2 || i + n > s.size()) { t.push_back(0x110000 + c); n = 1; } // piece of a char
    else { int w = c & (0xFF >> (n + 1)); for (int k = 1; k < n; ++k) w = w << 6 | (s[i + k] & 0x3F); t.push_back(w); }
    i += n;
  }
  return t;
}

// nondeterministic automaton: edges on a set of characters, or empty
struct Nfa {
  struct E { int to; bool eps; std::set<int> cs; };
  std::vector<std::vector<E> > q;
  std::map<int,int> accept; // state -> rule
  int add() { q.emplace_back(); return static_cast<int>(q.size()) - 1; }
  void eps(int a, int b) { q[a].push_back(E{ b, true, {} }); }
  void on(int a, int b, const std::set<int>& cs) { q[a].push_back(E{ b, false, cs }); }
  // distance of the text to each rule
  std::map<int,int> dist(const Chars& t, bool ins, bool del, bool sub, int limit) const {
    std::vector<std::vector<int> > d(t.size() + 1, std::vector<int>(q.size(), 1 << 20));
    std::deque<std::pair<size_t,int> > w;
    auto relax = [&](size_t i, int s, int v, bool free) { if (v < d[i][s] && v <= limit) { d[i][s] = v; if (free) w.push_front({ i, s }); else w.push_back({ i, s }); } };
    relax(0, 0, 0, true);
    while (!w.empty()) {
      size_t i = w.front().first;
      int s = w.front().second, v = d[i][s];
      w.pop_front();
      for (const E& e : q[s]) {
        if (e.eps) { relax(i, e.to, v, true); continue; }
        if (i < t.size() && e.cs.count(t[i])) relax(i + 1, e.to, v, true);
        if (del) relax(i, e.to, v + 1, false);
        if (sub && i < t.size() && t[i] != '\n' && t[i] != 0) relax(i + 1, e.to, v + 1, false);
      }
      if (ins && i < t.size() && t[i] != '\n' && t[i] != 0) relax(i + 1, s, v + 1, false);
    }
    std::map<int,int> r;
    for (auto& a : accept) { int v = d[t.size()][a.first]; if (v <= limit) { auto j = r.find(a.second); if (j == r.end() || j->second > v) r[a.second] = v; } }
    return r;
  }
};

struct Pat {
  std::string regex, opts;
  Nfa n;
  Chars sample; // some text of the pattern
  int rules = 1;
  bool nul = false;
};

static Chars alpha(Rng& r, bool utf) {
  Chars a{ 'a', 'b', 'c' };
  if (r.chance(1, 3)) { a.push_back('d'); a.push_back('1'); }
  if (utf) { a.push_back(0xE9); a.push_back(0x20AC); if (r.chance(1, 2)) a.push_back(0x1F600); if (r.chance(1, 3)) a.push_back(0xE8); }
  return a;
}

// regex for rule, from state s to a new state; appends a text
static int build(Rng& r, Pat& p, const Chars& al, int s, int depth, bool top, std::string& re, Chars& t) {
  Nfa& n = p.n;
  int k = depth <= 0 ? 0 : r(9);
  if (k <= 2) { // string
    for (int i = r.range(1, depth > 2 ? 4 : 2); i > 0; --i) { int c = r.pick(al), x = n.add(); n.on(s, x, { c }); s = x; re += enc(c); t.push_back(c); }
    return s;
  }
  if (k == 3) { // class of ASCII characters
    std::set<int> cs;
    for (int i = r.range(1, 3); i > 0; --i) { int c = r.pick(al); if (c < 0x80) cs.insert(c); }
    if (cs.empty()) cs.insert('a');
    re += '[';
    for (int c : cs) re += static_cast<char>(c);
    re += ']';
    int x = n.add();
    n.on(s, x, cs);
    t.push_back(*cs.begin());
    return x;
  }
  if (k <= 5) { // sequence
    for (int i = r.range(2, 3); i > 0; --i) s = build(r, p, al, s, depth - 1, false, re, t);
    return s;
  }
  if (k == 6) { // alternatives
    int x = n.add();
    re += "(?:";
    for (int i = r.range(2, 3), j = 0; j < i; ++j) {
      if (j) re += '|';
      Chars u;
      int b = n.add();
      n.eps(s, b);
      n.eps(build(r, p, al, b, depth - 1, false, re, u), x);
      if (j == 0) t.insert(t.end(), u.begin(), u.end());
    }
    re += ')';
    return x;
  }
  int a = n.add(), x = n.add();
  n.eps(s, a);
  re += "(?:";
  int b = build(r, p, al, a, depth - 1, false, re, t);
  re += ')';
  n.eps(b, x);
  if (k == 7) { re += '?'; n.eps(a, x); }
  else if (r.chance(1, 2)) { re += '+'; n.eps(b, a); }
  else { re += '*'; n.eps(b, a); n.eps(a, x); }
  (void)top;
  return x;
}

static Chars mutate(Rng& r, Chars t, const Chars& al) {
  for (int k = r(5); k > 0; --k) {
    int c = r.chance(1, 4) ? 'x' : r.pick(al), o = r(3);
    if (r.chance(1, 40)) c = '\n';
    size_t i = r(static_cast<uint32_t>(t.size() + 1));
    if (o == 0 && i < t.size()) t.erase(t.begin() + i);
    else if (o == 1) t.insert(t.begin() + i, c);
    else if (i < t.size()) t[i] = c;
  }
  return t;
}

static void make(Rng& r, Pat& p, bool literal, const Chars& al) {
  int s = p.n.add();
  if (literal) {
    int len = r.range(1, r.chance(1, 5) ? 12 : 6);
    std::string re;
    for (int i = 0; i < len; ++i) { int c = r.pick(al), x = p.n.add(); p.n.on(s, x, { c }); s = x; re += enc(c); p.sample.push_back(c); }
    p.n.accept[s] = 1;
    p.regex = r.chance(1, 4) ? "\\Q" + re + "\\E" : re;
    return;
  }
  p.rules = r.chance(1, 3) ? r.range(2, 3) : 1;
  for (int i = 1; i <= p.rules; ++i) {
    std::string re;
    Chars t;
    int b = p.n.add();
    p.n.eps(s, b);
    p.n.accept[build(r, p, al, b, 3, true, re, t)] = i;
    if (p.rules > 1) re = "(" + re + ")";
    p.regex += (i > 1 ? "|" : "") + re;
    if (i == 1 || r.chance(1, 2)) p.sample = t;
  }
  std::map<int,int> e = p.n.dist(Chars(), false, false, false, 0);
  p.nul = !e.empty();
}

struct Chunk : public FM {
  std::string data; size_t at = 0; Rng r;
  template<typename P> Chunk(const P& p, uint16_t mx, const std::string& s, uint64_t seed) : FM(p, mx), data(s), r(seed) { }
  virtual size_t get(char *s, size_t n) {
    size_t k = std::min<size_t>(std::min<size_t>(n, 1 + r(7)), data.size() - at);
    memcpy(s, data.data() + at, k);
    at += k;
    return k;
  }
  virtual bool wrap() { return false; }
};

static void one(Rng& r, const std::string& mode) {
  Ctx& c = ctx();
  bool utf = c.opt.count("utf") && r.chance(1, 2), literal = mode == "literal" || (mode == "find" && r.chance(1, 2));
  Chars al = alpha(r, utf), bl = c.opt.count("mix") ? alpha(r, true) : al; // characters of the pattern and of the text
  Pat p;
  make(r, p, literal, al);
  c.set_note("regex=\"" + esc(p.regex) + "\"");
  reflex::Pattern pat(p.regex);
  for (int rep = 0; rep < 12; ++rep) {
    int mx = r.range(1, literal ? 4 : 3), fl = r(8);
    bool I = fl & 1 || !fl, D = fl & 2 || !fl, U = fl & 4 || !fl;
    uint16_t arg = static_cast<uint16_t>(mx | (fl & 1 ? FM::INS : 0) | (fl & 2 ? FM::DEL : 0) | (fl & 4 ? FM::SUB : 0));
    Chars t = mutate(r, p.sample, bl);
    if (mode == "find") {
      Chars u;
      for (int k = c.opt.count("long") && r.chance(1, 3) ? r.range(200, 900) : r.range(1, 4); k > 0; --k) {
        for (int j = r(4); j > 0; --j) u.push_back(r.chance(1, 6) ? '\n' : r.chance(1, 2) ? 'x' : r.pick(bl));
        Chars v = mutate(r, p.sample, bl);
        u.insert(u.end(), v.begin(), v.end());
      }
      t = u;
    }
    std::string in = enc(t), note = "regex=\"" + esc(p.regex) + "\" max=" + S(mx) + (I ? " ins" : "") + (D ? " del" : "") + (U ? " sub" : "") + " input=\"" + esc(in) + "\"";
    c.set_note(note);
    std::unique_ptr<FM> m;
    bool chunks = r.chance(1, 3);
    if (chunks) m.reset(new Chunk(pat, arg, in, r.next()));
    else m.reset(new FM(pat, arg, reflex::Input(in)));
    if (mode != "find") {
      size_t a = m->matches();
      int e = m->edits();
      ++c.evaluations;
      std::map<int,int> d = p.n.dist(t, I, D, U, mx);
      int best = 1 << 20;
      for (auto& x : d) best = std::min(best, x.second);
      if (t.empty()) { c.count("empty texts"); if (a && best > mx) c.fail("fuzzy-unsound", note); continue; }
      if (a) {
        c.count(e ? "texts accepted with edits" : "texts accepted exactly");
        if (a > static_cast<size_t>(p.rules)) c.fail("fuzzy-rule", note + ": accepts rule " + S(a));
        else if (e > mx) c.fail("fuzzy-edits", note + ": edits " + S(e) + " over the maximum");
        else if (m->str() != in) c.fail("fuzzy-text", note + ": text \"" + esc(m->str()) + "\"");
        else if (utf) c.count("UTF-8 texts accepted");
        else if (best > mx) c.fail("fuzzy-unsound", note + ": accepted with " + S(e) + " edits");
        else if (e < best) c.fail("fuzzy-edits", note + ": edits " + S(e) + " less than the distance " + S(best));
        else if (!d.count(static_cast<int>(a)) || d[static_cast<int>(a)] > e) c.fail("fuzzy-rule", note + ": rule " + S(a) + " is not within " + S(e) + " edits");
        if (best == 0) {
          int first = 0;
          for (auto& x : d) if (x.second == 0) { first = x.first; break; }
          if (e != 0 || static_cast<int>(a) != first) c.fail("fuzzy-exact", note + ": exact match of rule " + S(first) + " reported as rule " + S(a) + " with " + S(e) + " edits");
        }
      } else {
        c.count("texts rejected");
        if (best == 0) c.fail("fuzzy-exact", note + ": exact match rejected");
        else if (best <= mx && literal && !utf) c.fail("fuzzy-incomplete", note + ": rejected at distance " + S(best));
      }
      c.nontrivial(hash_str(note));
      if (rep == 0) c.sample(note);
      continue;
    }
    // find: every text within the distance, in order; pieces of split are the complement
    size_t at = 0, steps = 0;
    std::vector<std::pair<size_t,size_t> > hits;
    bool bad = false;
    while (m->find()) {
      std::string s = m->str();
      int e = m->edits();
      size_t f = m->first();
      ++c.evaluations;
      c.count(e ? "texts found with edits" : "texts found exactly");
      if (f < at || f + s.size() > in.size() || in.compare(f, s.size(), s) != 0) { c.fail("fuzzy-find-text", note + ": text \"" + esc(s) + "\" at " + S(f)); bad = true; break; }
      at = f + s.size();
      std::map<int,int> d = p.n.dist(dec(s), I, D, U, mx);
      int best = 1 << 20;
      for (auto& x : d) best = std::min(best, x.second);
      if (utf ? e > mx : best > mx || e > mx || e < best) { c.fail("fuzzy-find-unsound", note + ": found \"" + esc(s) + "\" at " + S(f) + " with " + S(e) + " edits, distance " + (best > mx ? "over the maximum" : S(best))); bad = true; break; }
      hits.push_back({ f, s.size() });
      if (++steps > in.size() + 5) { c.fail("fuzzy-find-endless", note); bad = true; break; }
    }
    if (!bad) c.nontrivial(hash_str(note));
    if (rep == 0) c.sample(note);
    // a text of the pattern that begins the input, on a line of its own, is found
    if (!bad && !p.nul && r.chance(1, 2) && std::find(p.sample.begin(), p.sample.end(), '\n') == p.sample.end()) {
      std::string own = enc(p.sample);
      std::string line = "\n" + own + "\n";
      FM f(pat, arg, reflex::Input(line));
      size_t n = 0;
      std::string got;
      while (f.find() && n++ < 50) got += "[" + f.str() + "]" + S(f.edits());
      ++c.evaluations;
      if (got.empty()) c.fail("fuzzy-find-exact", note + ": \"" + esc(own) + "\" on a line of its own is not found");
      c.count("exact texts searched");
    }
    if (!bad && !p.nul && !utf && literal && r.chance(1, 2)) {
      FM f(pat, arg, reflex::Input(in));
      std::string all;
      size_t n = 0, k = 0;
      std::string err;
      size_t b = 0;
      while (size_t a = f.split()) {
        std::string piece = f.str();
        size_t want = k < hits.size() ? hits[k].first : in.size();
        if (f.first() != b || b + piece.size() != want) { err = "piece " + S(k) + " \"" + esc(piece) + "\" at " + S(f.first()) + " expected " + S(b) + ".." + S(want); break; }
        if (a == reflex::FuzzyMatcher::Const::EMPTY) break;
        b = k < hits.size() ? hits[k].first + hits[k].second : in.size();
        ++k;
        if (++n > in.size() + 5) { err = "endless"; break; }
      }
      if (err.empty() && k != hits.size()) err = "split has " + S(k) + " separators, find has " + S(hits.size());
      ++c.evaluations;
      c.count("splits");
      if (!err.empty()) c.fail("fuzzy-split", note + ": " + err);
    }
  }
}

int main(int argc, char **argv) {
  return run(argc, argv, [](Rng& r, uint64_t) { one(r, ctx().opt["mode"]); });
}
