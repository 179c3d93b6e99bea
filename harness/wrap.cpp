// C22: wrapped input and stacks of inputs.
//  mode wrap:  a matcher (native, PCRE2, Boost, std) whose wrap() sets the next source is compared with the same engine
//              reading the concatenation of the sources
//  mode lexer: a lexer whose wrap() sets the next source with in(...) is compared with the concatenation
//  mode stack: a lexer that pushes and pops matchers at include markers, resets its input or switches round robin
//              between matchers; compared with a recursive interpreter
#include "mix.h"
#include <reflex/abslexer.h>
#include <reflex/pcre2matcher.h>
#include <functional>
using namespace vp;
using mix::S;

// one source of input, with the storage that it needs
struct Src {
  std::string utf8, how;
  std::vector<char> mem;
  std::wstring w;
  std::u16string u16;
  std::unique_ptr<std::istream> is;
  std::unique_ptr<std::streambuf> sb;
  FILE *f = NULL;
  Src() { }
  Src(const Src&) = delete;
  ~Src() { if (f) fclose(f); }
  int kind = 0;
  void make(Rng& r, const std::string& s) {
    utf8 = s;
    kind = r(8);
    if ((kind == 2 || kind == 6) && (s.empty() || dl::bomlike(s))) kind = 0;
    bool ascii = true;
    for (unsigned char c : s) if (c >= 0x80 || c == 0) ascii = false;
    if ((kind == 3 || kind == 4 || kind == 7) && !ascii) kind = 1;
  }
  reflex::Input input() {
    switch (kind) {
      case 1: how = "istream"; is.reset(new std::istringstream(utf8)); return reflex::Input(*is);
      case 2: case 6: {
        how = "FILE";
        mem.assign(utf8.begin(), utf8.end());
        f = fmemopen(&mem[0], mem.size(), "r");
        return reflex::Input(f);
      }
      case 3: how = "wstring"; w.assign(utf8.begin(), utf8.end()); return reflex::Input(w);
      case 4: how = "wcstr"; w.assign(utf8.begin(), utf8.end()); return reflex::Input(w.c_str());
      case 5: how = "slow-istream"; { static uint64_t n; sb.reset(new dl::SlowBuf(utf8, ++n)); } is.reset(new std::istream(sb.get())); return reflex::Input(*is);
      case 7: how = "cstr"; return reflex::Input(utf8.c_str());
      default: how = "string"; return reflex::Input(utf8);
    }
  }
};

template<typename M>
struct Wrapped : public M {
  template<typename P>
  Wrapped(const P& p, std::vector<std::unique_ptr<Src>>& s, size_t first, size_t chunk)
    : M(p, first ? s[0]->input() : reflex::Input()), src(s), next(first), wraps(0), chunk(chunk) { }
  virtual size_t get(char *s, size_t n) {
    if (chunk && n > chunk) n = chunk;
    return M::get(s, n);
  }
  virtual bool wrap() {
    ++wraps;
    while (next < src.size()) {
      this->in = src[next++]->input();
      return true;
    }
    return false;
  }
  std::vector<std::unique_ptr<Src>>& src;
  size_t next, wraps, chunk;
};

static std::vector<std::string> cut(Rng& r, const std::string& all) {
  std::vector<std::string> v;
  size_t p = 0;
  int n = r.range(1, 7);
  for (int i = 0; i < n && p < all.size(); ++i) {
    size_t k = i == n - 1 ? all.size() - p : r.chance(1, 6) ? 0 : r.chance(1, 3) ? r(4) : r(static_cast<uint32_t>(all.size() - p + 1));
    if (k > all.size() - p) k = all.size() - p;
    v.push_back(all.substr(p, k));
    p += k;
  }
  if (p < all.size()) v.push_back(all.substr(p));
  if (v.empty()) v.push_back("");
  return v;
}

static std::string desc(const std::vector<std::unique_ptr<Src>>& s) {
  std::string t;
  for (auto& x : s) t += (t.empty() ? "" : "+") + std::to_string(x->kind) + "\"" + esc(x->utf8, 60) + "\"";
  return t;
}

// a history that every engine supports
template<typename M>
static std::vector<std::string> gtrace(M& m, uint64_t seed, int style, size_t n) {
  std::vector<std::string> t;
  Rng r(seed);
  for (size_t k = 0; k < 2 * n + 20 && t.size() < 2000; ++k) {
    int act = style == 4 ? r(6) : style;
    std::string e;
    if (act == 4) { e = "input " + std::to_string(m.input()); }
    else if (act == 5) { e = "peek " + std::to_string(m.peek()); }
    else if (act == 3) { e = std::string("skip ") + (m.skip('\n') ? "1" : "0"); }
    else {
      size_t a = act == 0 ? m.scan() : act == 1 ? m.find() : m.split();
      e = S(a);
      if (a) e += " \"" + esc(m.str(), 80) + "\" " + S(m.first()) + " line " + S(m.lineno());
      if (a && r.chance(1, 8)) {
        // the rest of the line, which may be in the next sources
        bool incl = r.chance(1, 2);
        const char *q = m.eol(incl);
        e += " eol \"" + esc(std::string(m.end(), q), 120) + "\"";
      }
      if (a && r.chance(1, 200)) {
        const char *q = m.rest();
        t.push_back(e + " rest \"" + esc(q, 300) + "\" " + S(m.size()));
        break;
      }
      if (a) { }
      else if (act == 0) { int c = m.input(); e += " input " + std::to_string(c); if (c == EOF) { t.push_back(e); break; } }
      else { t.push_back(e + " end " + S(m.at_end())); break; }
    }
    t.push_back(e);
  }
  return t;
}

template<typename M, typename P>
static void wrap_with(Rng& r, const char *name, const P& pat, const std::string& regex, const std::string& text, bool native) {
  Ctx& c = ctx();
  std::vector<std::string> parts = cut(r, text);
  std::vector<std::unique_ptr<Src>> src;
  std::string all;
  for (auto& p : parts) { src.emplace_back(new Src()); src.back()->make(r, p); all += p; }
  uint64_t seed = r.next();
  int style = r(native ? 5 : 3);
  size_t first = r(2), chunk = r.chance(1, 3) ? r.range(1, 9) : 0;
  c.set_note(std::string(name) + " /" + esc(regex) + "/ " + desc(src) + " style " + S(style) + " first " + S(first) + " chunk " + S(chunk));
  M ref(pat, reflex::Input(all));
  Wrapped<M> m(pat, src, first, chunk);
  std::vector<std::string> want = gtrace(ref, seed, style, all.size()), got = gtrace(m, seed, style, all.size());
  ++c.evaluations;
  c.count("wraps", m.wraps);
  c.count((std::string("sources ") + name).c_str(), src.size());
  c.distinct.insert(hash_str(c.note));
  for (size_t i = 0; i < want.size() || i < got.size(); ++i) {
    std::string a = i < want.size() ? want[i] : "nothing", b = i < got.size() ? got[i] : "nothing";
    if (a != b) { c.fail("wrap-differs", c.note + ": step " + S(i) + " gives " + b + ", the concatenation gives " + a); return; }
  }
}

// words, numbers, blanks: literal-free patterns that all engines agree on how to read
static std::string words(Rng& r, size_t n) {
  static const char *w[] = { "a", "ab", "abc", "hello", "12", "7", " ", "  ", "\n", "\n\n", ";", "x1", "\"str\"", "/* c */", "\xc3\xa9", "\xe2\x82\xac" };
  std::string s;
  while (s.size() < n) {
    if (r.chance(1, 60)) s += std::string(r.range(200, 5000), r.chance(1, 2) ? 'a' : ' ');
    else s += w[r(r.chance(1, 8) ? 16 : 14)];
  }
  return s;
}

static const char *RX[] = { "[a-z]+|[0-9]+|[ ]+|\\n|.", "[a-z][a-z0-9]*|\\n+|\"[^\"]*\"|/\\*(.|\\n)*?\\*/|[ ]|.", "ab|abc|hello|[0-9]+", "hello|12|;\n", "[a-z]+;|[a-z]+|\\n", "/\\*[^*]*\\*/|str|\\n" };

static void wraps(Rng& r) {
  std::string text = words(r, r.chance(1, 5) ? r(12000) : r(200));
  switch (r(6)) {
    case 0: {
      std::string x = RX[r(6)];
      reflex::PCRE2Matcher::Pattern p(x);
      wrap_with<reflex::PCRE2Matcher>(r, "pcre2", p, x, text, false);
      break;
    }
    default: {
      std::string x, o;
      std::vector<rx::P> al;
      rx::Gen g(r);
      if (r.chance(1, 2)) { x = RX[r(6)]; }
      else {
        rx::Pat p = rx::gen_pattern(r, g, 12);
        x = p.regex; o = p.opts; al = p.alts;
        text = mix::gen_text(r, g, al, r.chance(1, 6) ? 9000 : 200);
      }
      reflex::Pattern p(x, o);
      wrap_with<reflex::Matcher>(r, "reflex", p, x, text, true);
    }
  }
}

// ---------- lexers ----------
typedef reflex::AbstractLexer<reflex::Matcher> Base;

struct Lexer : public Base {
  Lexer(const reflex::Pattern& p, const reflex::Input& in) : Base(in, std::cout), pat(p) { }
  const reflex::Pattern& pat;
  std::function<int(Lexer&)> onwrap;
  virtual int wrap() { return onwrap ? onwrap(*this) : 1; }
  void init() { if (!has_matcher()) matcher(new Matcher(pat, stdinit(), this)); }
};

static void lexers(Rng& r) {
  Ctx& c = ctx();
  std::string regex = RX[r(6)];
  std::string text = words(r, r.chance(1, 5) ? r(12000) : r(200));
  std::vector<std::string> parts = cut(r, text);
  std::vector<std::unique_ptr<Src>> src;
  std::string all;
  for (auto& p : parts) { src.emplace_back(new Src()); src.back()->make(r, p); all += p; }
  c.set_note("lexer /" + esc(regex) + "/ " + desc(src));
  reflex::Pattern pat(regex);
  size_t next = 1;
  Lexer lx(pat, src[0]->input());
  lx.onwrap = [&](Lexer& l) { if (next >= src.size()) return 1; l.in(src[next++]->input()); return 0; };
  lx.init();
  if (r.chance(1, 4)) lx.matcher().interactive();
  else if (r.chance(1, 3)) lx.matcher().buffer(r.range(1, 30));
  reflex::Matcher ref(pat, reflex::Input(all));
  ++c.evaluations;
  c.distinct.insert(hash_str(c.note));
  for (size_t k = 0; k < 2 * all.size() + 20; ++k) {
    size_t a = ref.scan(), b = lx.matcher().scan();
    std::string x = a ? ref.str() : "", y = b ? lx.matcher().str() : "";
    if (a != b || x != y || (a && (ref.lineno() != lx.lineno() || (ref.columno() < 3000 && ref.columno() != lx.columno())))) {
      c.fail("lexer-wrap", c.note + ": token " + S(k) + " is " + S(b) + " \"" + esc(y) + "\", the concatenation gives " + S(a) + " \"" + esc(x) + "\"");
      return;
    }
    if (!a) {
      int p = ref.input(), q = lx.matcher().input();
      if (p != q) { c.fail("lexer-wrap", c.note + ": input() after token " + S(k) + " is " + S(q) + ", expected " + S(p)); return; }
      if (p == EOF) break;
    }
  }
  if (next != src.size()) c.fail("lexer-wrap", c.note + ": only " + S(next) + " sources read");
}

// includes: sources with markers #d; that include source d
struct Tok { size_t depth; std::string text; size_t line, col; bool operator==(const Tok& t) const { return depth == t.depth && text == t.text && line == t.line && (col > 3000 || col == t.col); }  // long lines are truncated when reporting columns
  };
static std::string show(const Tok& t) { return S(t.depth) + ":\"" + esc(t.text) + "\"@" + S(t.line) + "," + S(t.col); }

static void model(const std::vector<std::string>& src, size_t k, size_t depth, std::vector<Tok>& out) {
  const std::string& s = src[k];
  size_t p = 0, line = 1, col = 0;
  while (p < s.size()) {
    size_t b = p;
    if (s[p] == '#') p += 3;
    else if (isalpha(static_cast<unsigned char>(s[p]))) while (p < s.size() && isalpha(static_cast<unsigned char>(s[p]))) ++p;
    else if (isdigit(static_cast<unsigned char>(s[p]))) while (p < s.size() && isdigit(static_cast<unsigned char>(s[p]))) ++p;
    else if (s[p] == ' ') while (p < s.size() && s[p] == ' ') ++p;
    else ++p;
    if (s[b] == '#') model(src, s[b + 1] - '0', depth + 1, out);
    else out.push_back(Tok{ depth, s.substr(b, p - b), line, col });
    for (size_t i = b; i < p; ++i) if (s[i] == '\n') { ++line; col = 0; } else ++col;
  }
}

static void stacks(Rng& r) {
  Ctx& c = ctx();
  int n = r.range(2, 8);
  std::vector<std::string> src(n);
  size_t budget = 0;
  for (int i = n - 1; i >= 0; --i) {
    // a source includes only later ones
    std::string s;
    size_t want = r.chance(1, 8) ? r(9000) : r(60);
    int inc = 0;
    while (s.size() < want) {
      if (i + 1 < n && inc < 3 && r.chance(1, 5)) { s += "#" + S(r.range(i + 1, n - 1)) + ";"; ++inc; }
      else {
        static const char *w[] = { "a", "word", "12", "7", " ", "   ", "\n", ";", "x" };
        if (r.chance(1, 80)) s += std::string(r.range(300, 5000), 'b');
        else s += w[r(9)];
      }
    }
    src[i] = s;
    budget += s.size();
  }
  std::string note = "stack";
  for (auto& s : src) note += " \"" + esc(s, 80) + "\"";
  c.set_note(note);
  static const reflex::Pattern pat("#[0-9];|[a-z]+|[0-9]+|[ ]+|\\n|.");
  std::vector<Tok> want, got;
  model(src, 0, 0, want);
  std::vector<std::unique_ptr<Src>> hold;
  auto open = [&](size_t k) -> Src& { hold.emplace_back(new Src()); hold.back()->make(r, src[k]); return *hold.back(); };
  Lexer lx(pat, open(0).input());
  lx.init();
  size_t depth = 0;
  uint64_t pushes = 0, max = 0;
  for (size_t k = 0; k < want.size() + 100000; ++k) {
    size_t a = lx.matcher().scan();
    if (!a) {
      if (!lx.matcher().at_end()) { c.fail("stack-no-match", note); return; }
      if (depth == 0) break;
      lx.pop_matcher();
      --depth;
      continue;
    }
    std::string t = r.chance(1, 2) ? lx.str() : lx.text();
    if (t[0] == '#') {
      Src& s = open(t[1] - '0');
      if (r.chance(1, 8)) {
        // in place
        s.mem.assign(s.utf8.begin(), s.utf8.end());
        s.mem.push_back('\0');
        lx.push_matcher(lx.new_matcher());
        lx.matcher().buffer(&s.mem[0], s.mem.size());
      } else {
        lx.push_matcher(lx.new_matcher(s.input()));
        if (r.chance(1, 3)) lx.matcher().buffer(r.range(1, 20));
      }
      ++depth;
      ++pushes;
      if (depth > max) max = depth;
      continue;
    }
    got.push_back(Tok{ depth, t, lx.lineno(), lx.columno() });
    if (got.size() > want.size()) break;
  }
  ++c.evaluations;
  c.count("pushed matchers", pushes);
  c.count(("depth " + S(max)).c_str());
  c.distinct.insert(hash_str(note));
  for (size_t i = 0; i < want.size() || i < got.size(); ++i) {
    if (i >= want.size() || i >= got.size() || !(want[i] == got[i])) {
      c.fail("stack-differs", note + ": token " + S(i) + " is " + (i < got.size() ? show(got[i]) : "missing") + ", expected " + (i < want.size() ? show(want[i]) : "none"));
      return;
    }
  }
  // round robin between matchers, and new input in the middle of the old
  int m = r.range(2, 4);
  std::vector<std::vector<Tok>> each(m);
  std::vector<Base::Matcher*> ms(m);
  std::vector<size_t> at(m, 0);
  for (int i = 0; i < m; ++i) {
    std::vector<std::string> one(1);
    for (char ch : src[r(n)]) if (ch != '#') one[0] += ch;
    model(one, 0, 0, each[i]);
    hold.emplace_back(new Src());
    hold.back()->make(r, one[0]);
    ms[i] = lx.new_matcher(hold.back()->input());
  }
  Base::Matcher *old = lx.ptr_matcher();
  int live = m;
  std::vector<bool> done(m, false);
  std::string err;
  while (live > 0 && err.empty()) {
    int i = r(m);
    if (done[i]) continue;
    lx.matcher(ms[i]);
    for (int k = r.range(1, 5); k > 0 && !done[i] && err.empty(); --k) {
      if (r.chance(1, 60)) {
        // replace the rest of this input
        std::vector<std::string> one(1);
        for (char ch : src[r(n)]) if (ch != '#') one[0] += ch;
        each[i].clear();
        model(one, 0, 0, each[i]);
        at[i] = 0;
        hold.emplace_back(new Src());
        hold.back()->make(r, one[0]);
        lx.in(hold.back()->input());
        c.count("inputs replaced");
      }
      size_t a = lx.matcher().scan();
      if (!a) {
        if (at[i] < each[i].size()) err = "matcher " + S(i) + " ends before " + show(each[i][at[i]]);
        done[i] = true;
        --live;
      } else {
        Tok t{ 0, lx.str(), lx.lineno(), lx.columno() };
        if (at[i] >= each[i].size()) err = "matcher " + S(i) + " gives " + show(t) + " after its end";
        else if (!(each[i][at[i]] == t)) err = "matcher " + S(i) + " gives " + show(t) + " expected " + show(each[i][at[i]]);
        ++at[i];
      }
      c.count("switched tokens");
    }
  }
  ++c.evaluations;
  lx.matcher(old);
  for (auto x : ms) delete x;
  if (!err.empty()) c.fail("switch-differs", note + ": " + err);
}

int main(int argc, char **argv) {
  return run(argc, argv, [](Rng& r, uint64_t) {
    const std::string& mode = ctx().opt["mode"];
    if (mode == "wrap") wraps(r);
    else if (mode == "lexer") lexers(r);
    else stacks(r);
  });
}
