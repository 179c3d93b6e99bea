// Copying, assigning, re-initialising and resetting patterns, matchers and inputs in any order:
// afterwards every object behaves as one freshly constructed from the same specification.
#include "vpdebug.h"
#include <reflex/matcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/boostmatcher.h>
#pragma push_macro("ASSERT")
#undef ASSERT
#define ASSERT(c)
#include <reflex/stdmatcher.h>
#pragma pop_macro("ASSERT")
#include "mix.h"
#include <memory>
#include <sstream>
using namespace vp;

static std::string S(size_t n) { return std::to_string(n); }

// a simple regex every engine understands, no anchors, never empty
static std::string simple_regex(Rng& r) {
  static const char *alpha = "abc";
  int n = r.range(1, 3);
  std::string re;
  for (int i = 0; i < n; ++i) {
    if (i) re += "|";
    std::string s;
    switch (r(7)) {
      case 0: for (int k = r.range(1, 6); k > 0; --k) s += alpha[r(3)]; break;
      case 1: s = std::string("[") + alpha[r(3)] + alpha[r(3)] + "]+"; break;
      case 2: s = std::string(1, alpha[r(3)]) + "[a-c]" + alpha[r(3)]; break;
      case 3: for (int k = r.range(1, 3); k > 0; --k) { s += alpha[r(3)]; s += r.chance(1, 2) ? "+" : ""; } break;
      case 4: s = "abcabc"; s.resize(r.range(1, 6)); s += "x"; break;
      case 5: s = std::string(1, alpha[r(3)]) + "(a|bc)*" + alpha[r(3)]; break;
      default: s = " +"; break;
    }
    re += r.chance(1, 2) ? "(" + s + ")" : s;
  }
  return re;
}
static std::string simple_text(Rng& r) {
  std::string s;
  size_t n = r.chance(1, 20) ? r(12000) : r(60);
  while (s.size() < n) {
    switch (r(6)) {
      case 0: s += "abcabcx"; break;
      case 1: s += " "; break;
      case 2: s += "\n"; break;
      case 3: s += "abc"; break;
      default: s += static_cast<char>('a' + r(3)); break;
    }
  }
  return s;
}

// what a matcher reports for the rest of its input
template<typename M>
static std::string report(M& m, int style, size_t base, size_t max) {
  std::string t;
  for (size_t i = 0; i < max; ++i) {
    size_t a = style == 0 ? m.scan() : style == 1 ? m.find() : m.split();
    if (!a) {
      if (style != 0) { t += "0;"; break; }
      int c = m.input();
      if (c == EOF) { t += "EOF;"; break; }
      t += "<" + S(c) + ">";
      continue;
    }
    t += S(a) + ":" + esc(m.str(), 60) + "@" + S(m.first() - base) + ";";
  }
  return t;
}

// ---------- patterns of the native engine ----------
struct PSpec { bool set; std::string re, opt; };

static std::string pattern_report(const reflex::Pattern& p, const std::vector<std::string>& texts) {
  std::string t = "size " + S(p.size());
  for (size_t i = 0; i <= p.size(); ++i) t += " " + esc(p[i]) + (i ? p.reachable(i) ? "+" : "-" : "");
  t += " nodes " + S(p.nodes()) + " words " + S(p.words());
  for (size_t i = 0; i < texts.size(); ++i) {
    reflex::Matcher m(p, texts[i]);
    t += " | " + report(m, static_cast<int>(i % 3), 0, 200);
  }
  std::string head = texts[0].substr(0, 4);
  reflex::Matcher m(p, head);
  t += " matches " + S(m.matches());
  return t;
}

static std::string pattern_regex(Rng& r, std::string& opt) {
  rx::Gen g(r);
  std::vector<rx::P> al;
  bool indent = false;
  opt.clear();
  std::string re = simple_regex(r);
  if (r.chance(1, 2)) {
    // small enough that its determinization is quick: no counted repeats of two digits, no lazy groups
    std::string o, x = mix::gen_regex(r, g, al, o, indent);
    bool ok = x.size() < 80 && x.find(")*?") == std::string::npos && x.find(")+?") == std::string::npos;
    for (size_t i = 0; ok && i + 2 < x.size(); ++i)
      if (x[i] == '{' && isdigit(static_cast<unsigned char>(x[i + 1])) && isdigit(static_cast<unsigned char>(x[i + 2]))) ok = false;
    for (size_t i = 0; ok && i + 3 < x.size(); ++i)
      if (x[i] == '{' && x[i + 1] != '}' && (x[i + 3] == '}' || x[i + 2] == ',') && x[i + 1] > '4') ok = false;
    if (ok) { re = x; opt = o; }
  }
  if (opt.empty() && r.chance(1, 4)) opt = r.chance(1, 2) ? "i" : "m";
  return re;
}

static void patterns(Rng& r) {
  Ctx& c = ctx();
  const int N = 4;
  std::unique_ptr<reflex::Pattern> p[N];
  PSpec s[N];
  std::vector<std::string> texts;
  for (int i = 0; i < 4; ++i) texts.push_back(simple_text(r).substr(0, 300));
  std::string log;
  for (int i = 0; i < N; ++i) { p[i].reset(new reflex::Pattern()); s[i].set = false; }
  int steps = r.range(3, 14);
  bool tables = false;
  for (int k = 0; k < steps; ++k) {
    int i = r(N), j = r(N);
    switch (r(8)) {
      case 0: case 1: {
        std::string o, re = pattern_regex(r, o);
        log += " p" + S(i) + ".assign(\"" + esc(re) + "\",\"" + o + "\")";
        c.set_note(log);
        try {
          switch (r(4)) {
            case 0: p[i]->assign(re, o); break;
            case 1: p[i]->assign(re.c_str(), o.c_str()); break;
            case 2: if (o.empty()) { *p[i] = re; break; }  // fallthrough
            default: p[i].reset(new reflex::Pattern(re, o)); break;
          }
          s[i] = PSpec{ true, re, o };
        } catch (const reflex::regex_error&) {
          // a failed assign leaves an unset pattern that can be assigned again
          s[i].set = false;
        }
        break;
      }
      case 2: {
        log += " p" + S(i) + ".assign(bad)";
        c.set_note(log);
        bool threw = false;
        try { p[i]->assign(r.chance(1, 2) ? "(a|b" : "[a", "r"); } catch (const reflex::regex_error&) { threw = true; }
        if (!threw) c.fail("life-bad-regex", log + ": no error");
        s[i].set = false;
        break;
      }
      case 3: case 4:
        log += " p" + S(i) + "=p" + S(j);
        c.set_note(log);
        *p[i] = *p[j];
        s[i] = s[j];
        break;
      case 5:
        log += " p" + S(i) + "(p" + S(j) + ")";
        c.set_note(log);
        if (i != j) { p[i].reset(new reflex::Pattern(*p[j])); s[i] = s[j]; }
        break;
      case 6: {
        log += " vector";
        c.set_note(log);
        std::vector<reflex::Pattern> v;
        for (int q = 0; q < N; ++q) v.push_back(*p[q]);
        v.erase(v.begin());
        v.push_back(*p[0]);
        for (int q = 0; q < N; ++q) *p[(q + 1) % N] = v[q];
        break;
      }
      default:
        log += " delete p" + S(i);
        c.set_note(log);
        p[i].reset(new reflex::Pattern());
        s[i].set = false;
        break;
    }
    for (int q = 0; q < N; ++q) {
      if (!r.chance(1, 2) && k + 1 < steps) continue;
      ++c.evaluations;
      if (!s[q].set) {
        if (!p[q]->empty()) { c.fail("life-pattern-empty", log + ": p" + S(q) + " is not empty"); throw Abandon(); }
        continue;
      }
      reflex::Pattern fresh(s[q].re, s[q].opt);
      std::string a = pattern_report(*p[q], texts), b = pattern_report(fresh, texts);
      if (a != b) { c.fail("life-pattern", log + ": p" + S(q) + " reports \"" + a.substr(0, 700) + "\" but a fresh pattern \"" + b.substr(0, 700) + "\""); throw Abandon(); }
      c.count("patterns compared");
    }
  }
  (void)tables;
  c.nontrivial(hash_str(log));
  c.sample(log);
}

// ---------- matchers ----------
template<typename M> struct Pat { typedef typename M::Pattern T; static T *make(const std::string& re) { return new T(re); } };

template<typename M>
static void matchers(Rng& r, const char *name) {
  Ctx& c = ctx();
  const bool lazy_in = !std::is_base_of<reflex::StdMatcher, M>::value;  // reads its input only when asked to match
  typedef typename M::Pattern P;
  const int NP = 3, N = 4;
  std::unique_ptr<P> pat[NP];
  std::string pre[NP];
  for (int i = 0; i < NP; ++i) { pre[i] = simple_regex(r); pat[i].reset(new P(pre[i])); }
  struct Slot { std::unique_ptr<M> m; std::string re, opt, text; size_t pos, base; bool in, fresh; int owner; };
  Slot s[N];
  std::vector<std::unique_ptr<std::string> > texts;   // string inputs must persist
  auto new_text = [&]() -> const std::string& { texts.push_back(std::unique_ptr<std::string>(new std::string(simple_text(r)))); return *texts.back(); };
  static const char *opts[] = { "", "A", "T=4", "" };
  std::string log = std::string(name);
  for (int i = 0; i < NP; ++i) log += " P" + S(i) + "=\"" + pre[i] + "\"";
  auto note = [&](const std::string& x) { log += " " + x; c.set_note(log); };
  // before the pattern owned by slot i goes away, its sharers get another one
  auto release = [&](int i) {
    for (int q = 0; q < N; ++q) if (q != i && s[q].m && s[q].owner == i) { note("m" + S(q) + ".pattern(&P0)"); s[q].m->pattern(pat[0].get()); s[q].re = pre[0]; s[q].owner = -1; }
  };
  auto owner_of = [&](int j) { return s[j].m->own_pattern() ? j : s[j].owner; };
  auto make = [&](int i) {
    release(i);
    int k = r(NP);
    s[i].opt = opts[r(4)];
    const std::string& t = new_text();
    s[i].text = t; s[i].pos = 0; s[i].base = 0; s[i].in = true; s[i].fresh = true; s[i].owner = -1;
    if (r.chance(1, 2)) { s[i].re = pre[k]; note("m" + S(i) + "(P" + S(k) + ",opt " + s[i].opt + ")"); s[i].m.reset(new M(pat[k].get(), reflex::Input(t), s[i].opt.c_str())); }
    else { s[i].re = simple_regex(r); note("m" + S(i) + "(\"" + s[i].re + "\",opt " + s[i].opt + ")"); s[i].m.reset(new M(s[i].re, reflex::Input(t), s[i].opt.c_str())); }
  };
  auto input = [&](int i) {
    const std::string& t = new_text();
    note("m" + S(i) + ".input(" + S(t.size()) + ")");
    s[i].m->input(reflex::Input(t));
    s[i].text = t; s[i].pos = 0; s[i].base = 0; s[i].in = true; s[i].fresh = true;
  };
  for (int i = 0; i < N; ++i) make(i);
  int steps = r.range(4, 24);
  size_t compared = 0;
  for (int k = 0; k < steps; ++k) {
    int i = r(N), j = r(N);
    switch (r(15)) {
      case 0: make(i); break;
      case 1: {
        if (i == j) break;
        release(i);
        int own = owner_of(j);
        if (own == i) break;
        note("m" + S(i) + "(m" + S(j) + ")");
        s[i].m.reset(r.chance(1, 2) ? new M(*s[j].m) : static_cast<M*>(s[j].m->clone()));
        s[i].re = s[j].re; s[i].opt = s[j].opt; s[i].text = s[j].text; s[i].pos = s[j].pos; s[i].base = 0;
        s[i].owner = s[i].m->own_pattern() ? -1 : own;
        s[i].fresh = true;
        s[i].in = s[j].fresh && s[j].in && lazy_in;
        break;
      }
      case 2: {
        if (i == j && r.chance(1, 2)) break;
        if (i != j) {
          int own = owner_of(j);
          if (own == i) break;
          release(i);
          note("m" + S(i) + "=m" + S(j));
          *s[i].m = *s[j].m;
          s[i].re = s[j].re; s[i].opt = s[j].opt; s[i].text = s[j].text; s[i].pos = s[j].pos; s[i].base = 0;
          s[i].owner = s[i].m->own_pattern() ? -1 : own;
          s[i].fresh = true;
          s[i].in = s[j].fresh && s[j].in && lazy_in;
        }
        else {
          note("m" + S(i) + "=m" + S(i));
          M& self = *s[i].m;
          *s[i].m = self;
          s[i].in = false;
        }
        break;
      }
      case 3: case 4: {
        int q = r(NP);
        release(i);
        note("m" + S(i) + ".pattern(P" + S(q) + ")");
        s[i].m->pattern(pat[q].get());
        s[i].re = pre[q]; s[i].owner = -1;
        break;
      }
      case 5: {
        release(i);
        s[i].re = simple_regex(r);
        note("m" + S(i) + ".pattern(\"" + s[i].re + "\")");
        if (r.chance(1, 2)) s[i].m->pattern(s[i].re); else s[i].m->pattern(s[i].re.c_str());
        s[i].owner = -1;
        break;
      }
      case 12: {
        release(i);
        note("m" + S(i) + ".pattern(bad)");
        bool threw = false;
        try { s[i].m->pattern(r.chance(1, 2) ? "(a|b" : "[a"); } catch (const std::exception&) { threw = true; }
        // reflex::Pattern without option r does not raise errors
        if (!threw && !dynamic_cast<reflex::Matcher*>(s[i].m.get())) { c.fail("life-bad-regex", log + ": no error"); throw Abandon(); }
        int q = r(NP);
        if (r.chance(1, 2)) { note("m" + S(i) + ".pattern(P" + S(q) + ")"); s[i].m->pattern(pat[q].get()); s[i].re = pre[q]; }
        else { s[i].re = simple_regex(r); note("m" + S(i) + ".pattern(\"" + s[i].re + "\")"); s[i].m->pattern(s[i].re); }
        s[i].owner = -1;
        break;
      }
      case 6: {
        if (i == j) break;
        int own = owner_of(j);
        if (own == i) break;
        release(i);
        note("m" + S(i) + ".pattern(m" + S(j) + ")");
        s[i].m->pattern(*s[j].m);
        s[i].re = s[j].re; s[i].opt = s[j].opt; s[i].owner = s[i].m->own_pattern() ? -1 : own;
        break;
      }
      case 7: {
        s[i].opt = opts[r(4)];
        note("m" + S(i) + ".reset(" + s[i].opt + ")");
        s[i].m->reset(s[i].opt.c_str());
        s[i].in = false;
        input(i);
        break;
      }
      case 8: note("m" + S(i) + ".reset()"); s[i].m->reset(); if (!(s[i].fresh && s[i].in && lazy_in)) s[i].in = false; break;
      case 9: case 10: input(i); break;
      case 11: {
        // pattern object reassigned; its users take it up again
        int q = r(NP);
        pre[q] = simple_regex(r);
        note("P" + S(q) + "=\"" + pre[q] + "\"");
        std::vector<int> users;
        for (int u = 0; u < N; ++u) if (s[u].m->has_pattern() && &s[u].m->pattern() == pat[q].get()) users.push_back(u);
        *pat[q] = P(pre[q]);
        for (int u : users) { note("m" + S(u) + ".pattern(P" + S(q) + ")"); if (r.chance(1, 2)) s[u].m->pattern(pat[(q + 1) % NP].get()); s[u].m->pattern(pat[q].get()); s[u].m->reset(); s[u].in = false; s[u].re = pre[q]; s[u].owner = -1; input(u); }
        break;
      }
      default: {
        // consume a part of the input
        if (!s[i].in) break;
        int n = r.range(1, 4);
        int style = r(2);
        note("m" + S(i) + (style ? ".find" : ".scan") + "*" + S(n));
        s[i].fresh = false;
        while (n-- > 0) {
          size_t a = style ? s[i].m->find() : s[i].m->scan();
          if (a) s[i].pos = s[i].m->first() + s[i].m->size();
          else if (style) s[i].pos = s[i].text.size();
          if (!a) break;
        }
        if (s[i].pos > s[i].text.size()) { c.fail("life-position", log + ": position " + S(s[i].pos) + " beyond the input"); throw Abandon(); }
        break;
      }
    }
    if (r.chance(1, 2) || k + 1 == steps) {
      int q = r(N);
      if (!s[q].in) input(q);
      // the rest of the input is matched as by a fresh matcher
      int style = r(3);
      std::string rest = s[q].text.substr(s[q].pos);
      M fresh(s[q].re, reflex::Input(rest), s[q].opt.c_str());
      note("check m" + S(q) + " style " + S(style));
      std::string b = report(fresh, style, 0, 300);
      std::string a = report(*s[q].m, style, s[q].pos, 300);
      ++c.evaluations;
      ++compared;
      if (a != b) {
        size_t d = 0;
        while (d < a.size() && d < b.size() && a[d] == b[d]) ++d;
        d = d > 60 ? d - 60 : 0;
        c.fail("life-matcher", log + ": m" + S(q) + " regex \"" + esc(s[q].re) + "\" reports \"" + a.substr(d, 200) + "\" but a fresh matcher \"" + b.substr(d, 200) + "\" for \"" + esc(rest, 300) + "\"");
        throw Abandon();
      }
      s[q].in = false;
      s[q].fresh = false;
    }
  }
  // pattern owners go last
  for (int i = 0; i < N; ++i) release(i);
  c.count(name, compared);
  c.nontrivial(hash_str(log));
  c.sample(log);
}

// ---------- inputs ----------
static void inputs(Rng& r) {
  Ctx& c = ctx();
  const int N = 4;
  std::vector<std::unique_ptr<std::string> > texts;
  std::vector<std::unique_ptr<std::istringstream> > streams;
  struct In { reflex::Input in; std::string rest; bool open, file; };
  In s[N];
  std::string log;
  for (int i = 0; i < N; ++i) s[i].open = s[i].file = false;
  std::vector<FILE*> files;
  // characters that need one to four UTF-8 bytes, so that a read may end within a character
  auto wide = [&](std::string& t) { std::vector<int> cs; t.clear(); for (int k = r.range(0, 120); k > 0; --k) { static const int W[] = { 'a', 'z', '\n', 0xE9, 0x3B1, 0x20AC, 0xFFFD, 0x1F600, 0x10FFFF }; int x = W[r(9)]; cs.push_back(x); char b[8]; t.append(b, reflex::utf8(x, b)); } return cs; };
  auto note = [&](const std::string& x) { log += " " + x; c.set_note(log); };
  int steps = r.range(4, 30);
  for (int k = 0; k < steps; ++k) {
    int i = r(N), j = r(N);
    switch (r(7)) {
      case 0: {
        texts.push_back(std::unique_ptr<std::string>(new std::string(simple_text(r).substr(0, 200))));
        const std::string& t = *texts.back();
        note("i" + S(i) + "=string(" + S(t.size()) + ")");
        if (r.chance(1, 2)) s[i].in = t; else s[i].in = reflex::Input(t.data(), t.size());
        s[i].rest = t; s[i].open = true; s[i].file = false;
        break;
      }
      case 1: {
        std::string t;
        std::vector<int> cs = wide(t);
        std::wstring w(cs.begin(), cs.end());
        note("i" + S(i) + "=wstring(" + S(t.size()) + ")");
        static std::vector<std::unique_ptr<std::wstring> > ws;
        if (ws.size() > 50) { bool used = false; for (int q = 0; q < N; ++q) used = used || s[q].open; if (!used) ws.clear(); }
        ws.push_back(std::unique_ptr<std::wstring>(new std::wstring(w)));
        s[i].in = *ws.back();
        s[i].rest = t; s[i].open = true; s[i].file = false;
        break;
      }
      case 2:
      case 3: {
        note("i" + S(i) + (k & 1 ? "=i" : "(i") + S(j));
        if (k & 1) s[i].in = s[j].in;
        else { reflex::Input t(s[j].in); s[i].in = t; }
        s[i].rest = s[j].rest; s[i].open = s[j].open; s[i].file = s[j].file;
        // copies of a file input read the same file: only the last copy is used
        if (s[j].file && i != j) { s[j].in.clear(); s[j].rest.clear(); s[j].open = s[j].file = false; }
        break;
      }
      case 6: {
        std::string t;
        std::vector<int> cs = wide(t);
        int e = r(4);
        note("i" + S(i) + "=file" + S(e) + "(" + S(t.size()) + ")");
        FILE *f = tmpfile();
        if (f == NULL) break;
        files.push_back(f);
        auto put = [&](unsigned v, int bytes, bool big) { for (int b = 0; b < bytes; ++b) fputc(v >> 8 * (big ? bytes - 1 - b : b) & 0xFF, f); };
        bool big = e & 1;
        int w = e & 2 ? 4 : 2;
        put(0xFEFF, w, big);
        for (int x : cs) {
          if (w == 4 || x < 0x10000) put(x, w, big);
          else { put(0xD7C0 + (x >> 10), 2, big); put(0xDC00 + (x & 0x3FF), 2, big); }
        }
        rewind(f);
        s[i].in = f;
        s[i].rest = t; s[i].open = s[i].file = true;
        c.count("inputs of files");
        break;
      }
      case 4: note("i" + S(i) + ".clear"); s[i].in.clear(); s[i].rest.clear(); s[i].open = s[i].file = false; break;
      default: {
        size_t n = r.range(1, r.chance(1, 2) ? 4 : 50);
        note("i" + S(i) + ".get(" + S(n) + ")");
        char b[64];
        std::string got;
        size_t m;
        do { m = s[i].in.get(b, n - got.size()); got.append(b, m); } while (m && got.size() < n);
        ++c.evaluations;
        std::string want = s[i].rest.substr(0, n);
        if (got != want) { c.fail("life-input", log + ": got \"" + esc(got) + "\" expected \"" + esc(want) + "\""); for (FILE *f : files) fclose(f); throw Abandon(); }
        s[i].rest.erase(0, n < s[i].rest.size() ? n : s[i].rest.size());
        break;
      }
    }
  }
  c.nontrivial(hash_str(log));
  for (int i = 0; i < N; ++i) s[i].in.clear();
  for (FILE *f : files) fclose(f);
  c.count("input histories");
}

int main(int argc, char **argv) {
  return run(argc, argv, [](Rng& r, uint64_t) {
    std::string mode = ctx().opt["mode"];
    try {
      if (mode == "pattern") patterns(r);
      else if (mode == "input") inputs(r);
      else switch (r(6)) {
        case 0: case 1: case 2: matchers<reflex::Matcher>(r, "Matcher"); break;
        case 3: matchers<reflex::PCRE2Matcher>(r, "PCRE2Matcher"); break;
        case 4: matchers<reflex::BoostMatcher>(r, "BoostMatcher"); break;
        default: matchers<reflex::StdMatcher>(r, "StdMatcher"); break;
      }
    } catch (const Abandon&) { }
  });
}
