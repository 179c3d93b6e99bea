// C05: trailing lookahead, lazy repeats and negative patterns against declarative semantics.
#include "rx.h"
#include "deliver.h"
using namespace vp;
typedef reflex::Matcher RM;

// one top-level alternative
struct Alt {
  rx::P x, y;            // y: trailing lookahead
  bool neg, lazy;
  std::string part;
  std::unique_ptr<rx::NFA> nx, ny, nxy;
  Alt() : neg(false), lazy(false) { }
  void ready() {
    nx.reset(new rx::NFA(std::vector<rx::P>(1, x)));
    if (y) {
      ny.reset(new rx::NFA(std::vector<rx::P>(1, y)));
      nxy.reset(new rx::NFA(std::vector<rx::P>(1, rx::cat({x, y}))));
    }
  }
};
struct Spec { std::vector<Alt> alts; std::string regex, opts; rx::Mode mode; };

struct Best { int acc; bool neg; size_t total, len; bool undecided; };

// the specified match at position p: longest text (lookahead included), a negative alternative
// before the others, then the first alternative
static Best ref(Spec& s, const std::string& in, size_t p) {
  Best b = { 0, false, 0, 0, false };
  for (size_t i = 0; i < s.alts.size(); ++i) {
    Alt& a = s.alts[i];
    std::map<size_t, int> t = (a.y ? a.nxy : a.nx)->all(in.data(), in.size(), p);
    if (t.empty()) continue;
    size_t total = a.lazy ? t.begin()->first : t.rbegin()->first;
    if (b.acc && (total < b.total || (total == b.total && !(a.neg && !b.neg)))) continue;
    size_t len = total;
    bool und = false;
    if (a.y) {
      std::map<size_t, int> h = a.nx->all(in.data(), in.size(), p);
      size_t last = 0; bool any = false;
      for (auto& k : h) {
        if (k.first > total) break;
        last = k.first;
        std::map<size_t, int> u = a.ny->all(in.data(), in.size(), p + k.first);
        if (u.count(total - k.first)) { len = k.first; any = true; }
      }
      // documented limitation: the end of x overlaps the lookahead
      und = !any || len != last;
    }
    b.acc = static_cast<int>(i) + 1; b.neg = a.neg; b.total = total; b.len = len; b.undecided = und;
  }
  return b;
}

static Spec gen_spec(Rng& r, rx::Gen& g, const std::string& mode) {
  Spec s;
  for (;;) {
    s = Spec();
    if (r.chance(1, 8)) { s.mode.i = true; s.opts += "i"; }
    if (r.chance(1, 3)) { s.mode.s = true; s.opts += "s"; }
    int n = r.range(1, 4), w = 0;
    bool special = false, ok = true;
    int lazies = 0;
    for (int i = 0; i < n && ok; ++i) {
      Alt a;
      bool sp = r.chance(1, 2) || (i == n - 1 && !special);
      std::string t;
      if (mode == "lazy" && sp && lazies < 1) {
        ++lazies; special = true;
        a.lazy = true;
        std::vector<rx::P> v;
        std::string u;
        if (r.chance(4, 5)) { v.push_back(g.word(u, s.mode, 1, 2)); t += u; }
        // a lazy repeat of a class, a literal, or a group
        rx::P b; u.clear();
        switch (r(4)) {
          case 0: { rx::Set c; c.set(); if (!s.mode.s) c.reset('\n'); b = rx::chr(c); u = "."; break; }
          case 1: b = g.bracket(u, s.mode); break;
          case 2: { b = g.word(u, s.mode, 1, 2); u = "(" + u + ")"; break; }
          default: { std::string q; rx::P b1 = g.word(u, s.mode, 1, 2); rx::P b2 = g.word(q, s.mode, 1, 2); // the body is prefix-free: otherwise the number of repeats does not decide the length
            std::string lu = u, lq = q;
            for (auto& ch : lu) ch = static_cast<char>(tolower(ch));
            for (auto& ch : lq) ch = static_cast<char>(tolower(ch));
            if (lu.compare(0, lq.size(), lq) == 0 || lq.compare(0, lu.size(), lu) == 0) { u = "(" + u + ")"; b = b1; }
            else { u = "(" + u + "|" + q + ")"; b = rx::alt({b1, b2}); } }
        }
        switch (r(3)) {
          case 0: u += "*?"; b = rx::rep(b, 0, -1); break;
          case 1: u += "+?"; b = rx::rep(b, 1, -1); break;
          default: u += "?\?"; b = rx::rep(b, 0, 1); break;
        }
        t += u; v.push_back(b); u.clear();
        v.push_back(g.word(u, s.mode, 1, 3)); t += u;
        a.x = rx::cat(v);
      } else {
        if (r.chance(1, 3)) a.x = g.word(t, s.mode, 1, 4);
        else { a.x = g.concat(t, s.mode, g.maxdepth); t = "(" + t + ")"; }
        if (rx::nullable(a.x.get())) { ok = false; break; }
        if (mode == "look" && sp) {
          std::string u;
          if (r.chance(1, 2)) a.y = g.word(u, s.mode, 1, 3); else { a.y = g.concat(u, s.mode, g.maxdepth); if (r.chance(1, 2)) u = "(" + u + ")"; }
          if (rx::nullable(a.y.get())) { ok = false; break; }
          t += "(?=" + u + ")";
          special = true;
        }
        if ((mode == "neg" && sp) || (mode == "look" && r.chance(1, 12))) { a.neg = true; t = "(?^" + t + ")"; special = true; }
      }
      w += rx::weight(a.x.get()) + (a.y ? rx::weight(a.y.get()) : 0);
      a.part = t;
      s.alts.push_back(std::move(a));
    }
    if (!ok || !special || w > 40) continue;
    for (size_t i = 0; i < s.alts.size(); ++i) s.regex += (i ? "|" : "") + s.alts[i].part;
    for (auto& a : s.alts) a.ready();
    return s;
  }
}

static std::string gen_in(Rng& r, const Spec& s, const std::string& alpha, size_t maxlen) {
  std::string o;
  int n = r.range(1, 7);
  for (int i = 0; i < n && o.size() < maxlen; ++i) {
    const Alt& a = s.alts[r(static_cast<uint32_t>(s.alts.size()))];
    switch (r(6)) {
      case 0: case 1: rx::sample(r, a.x.get(), o); break;
      case 2: case 3: rx::sample(r, a.x.get(), o); if (a.y) rx::sample(r, a.y.get(), o); break;
      case 4: for (int j = r.range(1, 5); j > 0; --j) o += alpha[r(static_cast<uint32_t>(alpha.size()))]; break;
      default: {
        std::string t;
        rx::sample(r, a.x.get(), t); if (a.y) rx::sample(r, a.y.get(), t);
        if (!t.empty()) { if (r.chance(1, 2)) t.resize(r(static_cast<uint32_t>(t.size()))); else t[r(static_cast<uint32_t>(t.size()))] = alpha[r(static_cast<uint32_t>(alpha.size()))]; }
        o += t;
      }
    }
  }
  if (o.size() > maxlen) o.resize(maxlen);
  return o;
}

int main(int argc, char **argv) {
  std::string mode;
  bool lng = false;   // mostly inputs that cross the blocks of the small internal buffer
  for (int i = 1; i < argc; ++i) { if (i + 1 < argc && std::string(argv[i]) == "--mode") mode = argv[i + 1]; if (std::string(argv[i]) == "--long") lng = true; }
  return run(argc, argv, [&](Rng& r, uint64_t) {
    Ctx& c = ctx();
    rx::Gen g(r);
    g.pick_alphabet();
    g.quotes = false;
    g.maxdepth = r.range(0, 1);
    Spec s = gen_spec(r, g, mode);
    c.set_note("regex=\"" + s.regex + "\" opts=\"" + s.opts + "\"");
    reflex::Pattern pat(s.regex, s.opts + "r");
    c.count("patterns");
    for (int k = 0; k < (lng ? 2 : 8); ++k) {
      std::string in = gen_in(r, s, g.alpha, 80);
      if (lng) {
        size_t n = r.range(5000, 14000);
        int nl = r.range(0, 3);
        while (in.size() < n) {
          if (r.chance(1, 6)) in += std::string(r.range(0, 200), r.chance(1, 3) ? g.alpha[0] : '#');
          if (nl && r.chance(nl, 6)) in += '\n';
          in += gen_in(r, s, g.alpha, 80);
        }
      }
      else if (r.chance(1, 20)) while (in.size() < 6000) in += gen_in(r, s, g.alpha, 80) + std::string(r.range(0, 300), g.alpha[0]);
      bool find = r.chance(1, 2), all = !s.regex.empty() && r.chance(1, 5);
      dl::Source<RM> src;
      if (!src.make(pat, in, r(dl::Source<RM>::KINDS), r, all ? "A" : NULL)) continue;
      RM& m = *src.m;
      std::string d = "regex=\"" + esc(s.regex) + "\" opts=\"" + s.opts + "\" via=" + src.how + (find ? " find" : " scan") + (all ? " A" : "") + " input=\"" + esc(in) + "\"";
      c.set_note(d);
      size_t pos = 0, n = in.size(), tokens = 0, special = 0, skipped = 0;
      uint64_t guard = 0;
      for (;;) {
        // next visible match
        Best b = { 0, false, 0, 0, false };
        size_t q = pos;
        bool und = false, empty_neg = false;
        while (q <= n) {
          b = ref(s, in, q);
          if (++guard > 40000) return;
          if (b.acc && b.undecided) { und = true; break; }
          if (b.acc && b.len > 0) {
            if (b.neg && !all) { q += b.len; ++skipped; if (find || q > n) continue; continue; }
            break;
          }
          if (b.acc && b.len == 0) empty_neg = true;
          b.acc = 0;
          if (!find) break;
          ++q;
        }
        (void)empty_neg;
        if (und) { c.count("undecided_overlap"); break; }
        size_t want = b.acc == 0 || q > n ? 0 : b.neg ? static_cast<size_t>(RM::Const::REDO) : static_cast<size_t>(b.acc);
        size_t got = find ? m.find() : m.scan();
        c.evaluations++;
        if (got != want || (want && (m.first() != q || m.size() != b.len || m.str() != in.substr(q, b.len)))) {
          c.fail(mode + "-mismatch", d + " at " + std::to_string(pos) + " expected=" + std::to_string(want) + "@" + std::to_string(q) + "+" + std::to_string(b.len) + " got=" + std::to_string(got) + "@" + std::to_string(m.first()) + "+" + std::to_string(got ? m.size() : 0));
          return;
        }
        if (want) {
          ++tokens; pos = q + b.len;
          if (s.alts[b.acc - 1].y || s.alts[b.acc - 1].lazy || s.alts[b.acc - 1].neg) ++special;
        } else {
          if (find) { if (!m.at_end()) c.fail(mode + "-at_end", d); break; }
          pos = q;     // behind text eaten by negative patterns
          int ch = m.input();
          int w = pos < n ? static_cast<unsigned char>(in[pos]) : EOF;
          if (ch != w) { c.fail(mode + "-input", d + " at " + std::to_string(pos) + " input()=" + std::to_string(ch) + " expected " + std::to_string(w)); return; }
          if (ch == EOF) break;
          ++pos;
        }
      }
      c.count("tokens", tokens);
      c.count("special_matches", special);
      c.count("negated_matches", skipped);
      if (special + skipped >= 1 && tokens >= 1) { c.nontrivial(hash_str(s.regex + "\1" + s.opts + "\1" + in)); if (in.size() < 50) c.sample(d); }
    }
  });
}
