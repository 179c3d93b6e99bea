// C21: indent, dedent and undent anchors against a margin-stack model.
//  kit 0: the documented rules, \h margins          kit 1: the same with another margin class
//  kit 2: with the documented negative patterns     kit 3: with \k and a second pattern for comments
//  kit 4: with indented comments that end at a dedent, \k in a third pattern, all as in the documentation
// Patterns are run from opcode tables and from exported code that was compiled (reflex::Pattern of a function).
#include "vp.h"
#include "vpdebug.h"
#include "deliver.h"
#include <reflex/matcher.h>
#include <dlfcn.h>
#include <stack>
using namespace vp;
typedef reflex::Matcher RM;
static std::string S(size_t n) { return std::to_string(n); }

static const char *rules[] = {
  "(?m)(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)",
  "(?m)(^[ \\t.]+)|(^[ \\t.]+\\i)|(^[ \\t.]*\\j)|(\\j)|(.|\\n)",
  "(?m)(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)|(?^^\\h*\\n)|(?^^\\h*\\/\\*(.|\\n)*?\\*\\/)|(?^\\\\\\n\\h*)|(?^\\/\\*(.|\\n)*?\\*\\/)",
  "(?m)(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)|(\\h*\\/\\*\\k?)|(?^^\\h*\\n)",
  "(?m)(^\\h+)|(^\\h+\\i)|(^\\h*\\j)|(\\j)|(.|\\n)|(#.*\\n)",
  "(\\*\\/)|(.|\\n)",
  "(?m)(^\\h+\\i)|(.|\\n)",
  "(?m)(^\\h*\\j)|(\\j)|(^\\h+\\k)|(.|\\n)",
};
static const int NKIT = 5, NPAT = 8;
enum State { MAIN, COMMENT, HASH, MORE }; // start conditions, patterns kit, 5, 6, 7
static const reflex::Pattern *pats[2][NPAT]; // [opcodes, code]
static void *lib;

static void prepare() {
  Ctx& c = ctx();
  std::string base = c.workdir + "/ind-" + S(c.shard), cpp = base + ".cpp", so = base + ".so";
  std::string glue = "#include <reflex/matcher.h>\n";
  for (int i = 0; i < NPAT; ++i) {
    pats[0][i] = new reflex::Pattern(rules[i]);
    std::string file = base + "-" + S(i) + ".cpp";
    reflex::Pattern p(rules[i], "n=K" + S(i) + ";o;f=" + file);
    glue += "#include \"" + file + "\"\n";
  }
  glue += "extern \"C\" const reflex::Pattern *mk(int i) {\n  switch (i) {\n";
  for (int i = 0; i < NPAT; ++i) glue += "    case " + S(i) + ": return new reflex::Pattern(reflex_code_K" + S(i) + ");\n";
  glue += "  }\n  return 0;\n}\n";
  FILE *f = fopen(cpp.c_str(), "w");
  fputs(glue.c_str(), f);
  fclose(f);
  const char *cxx = getenv("VP_CXX");
  if (!cxx) { printf("ERROR no VP_CXX\n"); exit(2); }
  std::string cmd = std::string(cxx) + " -O0 -fno-sanitize=undefined -fPIC -shared -o " + so + " " + cpp + " > " + base + ".log 2>&1";
  if (system(cmd.c_str()) != 0) { c.fail("exported-code-rejected", "indent patterns, see " + base + ".log"); printf("compilation failed\n"); exit(1); }
  lib = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!lib) { printf("ERROR dlopen %s\n", dlerror()); exit(2); }
  typedef const reflex::Pattern *(*Mk)(int);
  Mk mk = reinterpret_cast<Mk>(dlsym(lib, "mk"));
  for (int i = 0; i < NPAT; ++i) pats[1][i] = mk(i);
}

struct Ev { unsigned rules; std::string text; bool end = false; bool dent = false; bool ded = false; bool aligned = true; };

struct Model {
  const std::string& in;
  int kit;
  size_t T, p = 0, pend = 0;
  bool bol = true, abandon = false;
  State state = MAIN;
  std::vector<size_t> st;
  std::stack<std::vector<size_t> > stk;
  Model(const std::string& in, int kit, size_t T) : in(in), kit(kit), T(T) { }
  bool margin(size_t q) const { return q < in.size() && (in[q] == ' ' || in[q] == '\t' || (kit == 1 && in[q] == '.')); }
  size_t top() const { return st.empty() ? 0 : st.back(); }
  bool open(size_t q) const { return in.compare(q, 2, "/*") == 0; }
  Ev take(unsigned rules, size_t n) {
    Ev e{ rules, in.substr(p, n) };
    p += n;
    if (n) bol = in[p - 1] == '\n';
    return e;
  }
  Ev next() {
    if (state == COMMENT) {
      if (p == in.size()) { Ev e{ 0, "" }; e.end = true; return e; }
      if (in.compare(p, 2, "*/") == 0) { state = MAIN; return take(1 << 1, 2); }
      return take(1 << 2, 1);
    }
    if (state == HASH || state == MORE) {
      if (bol) {
        size_t q = p, col = 0;
        while (margin(q)) {
          if (in[q] == '\t') col = (col / T + 1) * T; else ++col;
          ++q;
        }
        if (state == HASH) {
          if (col > top()) { st.push_back(col); state = MORE; Ev e = take(1 << 1, q - p); e.dent = true; return e; }
          state = MAIN;
          if (col < top()) { abandon = true; return next(); } // what less(0) does to the stops is not specified
          if (p == in.size()) { Ev e{ 0, "" }; e.end = true; return e; }
          Ev e = take(1 << 2, 1);
          p -= 1; // put back
          bol = true;
          return e;
        }
        if (col < top()) {
          size_t n = 0;
          while (!st.empty() && st.back() > col) { st.pop_back(); ++n; }
          pend = n - 1;
          Ev e = take(1 << 1 | (q == p ? 1 << 2 : 0), q - p);
          e.dent = true;
          e.ded = true;
          e.aligned = top() == col;
          state = MAIN;
          bol = false;
          return e;
        }
        bol = false;
        if (q > p) return take(1 << 3, q - p);
      }
      if (p == in.size()) { Ev e{ 0, "" }; e.end = true; return e; }
      return take(state == MORE ? 1 << 4 : 1 << 2, 1);
    }
    if (pend) { --pend; Ev e{ 1 << 3 | 1 << 4, "" }; e.dent = e.ded = true; return e; }
    while (bol) {
      size_t q = p, col = 0;
      while (margin(q)) {
        if (in[q] == '\t') col = (col / T + 1) * T; else ++col;
        ++q;
      }
      if ((kit == 2 || kit == 3) && q < in.size() && in[q] == '\n') { p = q + 1; continue; } // blank line
      if (kit == 2 && open(q)) {
        size_t e = in.find("*/", q + 2);
        if (e != std::string::npos) { p = e + 2; bol = false; break; }
      }
      if (kit == 3 && open(q)) { state = COMMENT; return take(1 << 6, q + 2 - p); }
      if (kit == 2 && q == p && in.compare(q, 2, "\\\n") == 0) break;
      bol = false;
      if (col > top()) {
        st.push_back(col);
        Ev e = take(1 << 2, q - p);
        e.dent = true;
        return e;
      }
      if (col < top()) {
        size_t n = 0;
        while (!st.empty() && st.back() > col) { st.pop_back(); ++n; }
        pend = n - 1;
        Ev e = take(1 << 3 | (q == p ? 1 << 4 : 0), q - p);
        e.dent = true;
        e.ded = true;
        e.aligned = top() == col;
        return e;
      }
      if (q > p) return take(1 << 1, q - p);
    }
    if (kit == 2) {
      for (;;) {
        if (in.compare(p, 2, "\\\n") == 0) { p += 2; while (margin(p)) ++p; bol = false; continue; }
        size_t e;
        if (open(p) && (e = in.find("*/", p + 2)) != std::string::npos) { p = e + 2; continue; }
        break;
      }
    }
    if (p == in.size()) { Ev e{ 0, "" }; e.end = true; return e; }
    if (kit == 3) {
      size_t q = p;
      while (margin(q)) ++q;
      if (open(q)) { state = COMMENT; return take(1 << 6, q + 2 - p); }
    }
    if (kit == 4 && in[p] == '#') {
      size_t q = in.find('\n', p);
      if (q != std::string::npos) { state = HASH; return take(1 << 6, q + 1 - p); }
    }
    return take(1 << 5, 1);
  }
};

static std::string gen_input(Rng& r, int kit, size_t T, bool small) {
  std::string s;
  std::vector<size_t> lv(1, 0);
  size_t lines = r.range(0, r.chance(1, 4) ? 40 : 8);
  size_t scale = small && r.chance(1, 4) ? r.range(100, 3000) : 1;
  for (size_t i = 0; i < lines; ++i) {
    size_t col = lv.back();
    if (r.chance(2, 5)) { col += (1 + r(r.chance(1, 2) ? 4 : 9)) * scale; lv.push_back(col); }
    else if (r.chance(1, 2)) {
      lv.resize(1 + r(static_cast<uint32_t>(lv.size())));
      col = lv.back();
      if (r.chance(1, 8)) col += r(3);
    }
    // margin of this width, from blanks and tabs
    size_t at = 0;
    std::string m;
    while (at < col) {
      size_t nx = (at / T + 1) * T;
      if (nx <= col && r.chance(1, 3)) { m += '\t'; at = nx; }
      else { m += kit == 1 && r.chance(1, 3) ? '.' : ' '; ++at; }
    }
    s += m;
    if ((kit == 2 || kit == 3) && r.chance(1, 5)) {
      std::string cm = "/*";
      for (int k = r(6); k > 0; --k) cm += r.pick(std::vector<std::string>{ "a", " ", "\n", "\n  ", "*", "\t", "\n        c" });
      s += cm + " */";
      if (r.chance(1, 2)) { s += r.chance(1, 2) ? "\n" : "x\n"; continue; }
    }
    if (!r.chance(1, 8)) {
      int w = r.range(1, 4);
      if (small && r.chance(1, 10)) w = r.range(200, 3000);
      for (int k = 0; k < w; ++k) {
        s += static_cast<char>('a' + r(3));
        if (r.chance(1, 6)) s += r.chance(1, 2) ? " " : "\t";
        if (kit == 2 && r.chance(1, 12)) s += r.chance(1, 2) ? "\\\n " : "\\\n\t  ";
        if ((kit == 2 || kit == 3) && r.chance(1, 12)) s += "/* b\n  d*/";
      }
    }
    if (kit == 4 && r.chance(1, 5)) s += "# d";
    if (i + 1 < lines || r.chance(2, 3)) s += '\n';
  }
  return s;
}

static std::string show(const std::vector<size_t>& v) { std::string s = "{"; for (size_t x : v) s += S(x) + ","; return s + "}"; }

static void one(Rng& r) {
  Ctx& c = ctx();
  int kit = r(NKIT), code = r(2);
  bool small = c.opt.count("small");
  size_t T = 1 << r(4);
  std::string in = gen_input(r, kit, T, small);
  dl::Source<RM> src;
  int kind = r(dl::Source<RM>::KINDS);
  std::string mo = "T=" + S(T);
  bool runtime = r.chance(1, 4);
  if (!src.make(*pats[code][kit], in, kind, r, runtime ? NULL : mo.c_str())) return;
  RM& m = *src.m;
  if (runtime) m.tabs(T);
  bool ops = r.chance(1, 3), find = r.chance(1, 4);
  std::string log, note = "kit=" + S(kit) + (code ? " code" : " table") + " T=" + S(T) + " via=" + src.how + (find ? " find" : "") + " input=\"" + esc(in, 1500) + "\"";
  c.set_note(note);
  Model w(in, kit, T);
  size_t steps = 0, dents = 0, ind = 0, ded = 0;
  State was = MAIN;
  std::string err;
  if (m.tabs() != T) err = "tabs() is " + S(m.tabs());
  while (err.empty()) {
    was = w.state;
    Ev e = w.next();
    if (w.abandon) { c.count("histories cut at a dedent that is put back"); break; }
    size_t a = find ? m.find() : m.scan();
    ++c.evaluations;
    std::string t = a ? m.str() : "";
    if (a ? e.end || !(e.rules >> (a < 31 ? a : 0) & 1) || t != e.text : !e.end) {
      err = "rule " + S(a) + " \"" + esc(t, 60) + "\" expected " + (e.end ? "end" : "rule mask " + S(e.rules) + " \"" + esc(e.text, 60) + "\"") + " at " + S(w.p);
      break;
    }
    if (e.dent) { ++dents; ++(e.ded ? ded : ind); }
    if (!e.aligned) {
      // the margins after a dedent to a column between two margins are not specified: follow the matcher
      std::vector<size_t>& v = m.stops();
      c.count("dedents to a column between margins");
      for (size_t i = 1; i < v.size(); ++i) if (v[i - 1] >= v[i]) err = "stops not sorted " + show(v);
      if (v.size() != w.st.size()) err = "stops " + show(v) + " expected as many as " + show(w.st);
      w.st = v;
    }
    if (m.stops() != w.st) err = "stops " + show(m.stops()) + " expected " + show(w.st) + " at " + S(w.p);
    if (m.last_stop() != w.top()) err = "last_stop " + S(m.last_stop());
    if (e.end) break;
    if (was == HASH && e.rules == 1 << 2) m.less(0);
    if (was != w.state) m.pattern(pats[code][w.state == MAIN ? kit : 4 + w.state]);
    if (ops && w.state == MAIN && was == MAIN && !w.pend && e.rules == 1 << 5 && t != "\n" && r.chance(1, 6)) {
      size_t n = r(20);
      switch (r(6)) {
        case 0: m.push_stops(); w.stk.push(w.st); w.st.clear(); c.count("push_stops"); break;
        case 1: if (w.stk.empty()) break; m.pop_stops(); w.st = w.stk.top(); w.stk.pop(); c.count("pop_stops"); break;
        case 2: m.clear_stops(); w.st.clear(); c.count("clear_stops"); break;
        case 3: m.insert_stop(n); if (n && !std::binary_search(w.st.begin(), w.st.end(), n)) { w.st.push_back(n); std::sort(w.st.begin(), w.st.end()); } c.count("insert_stop"); break;
        case 4: m.delete_stop(n); while (!w.st.empty() && w.st.back() >= n) w.st.pop_back(); c.count("delete_stop"); break;
        default: w.T = 1 << r(4); m.tabs(static_cast<char>(w.T)); c.count("tabs changed"); break;
      }
      ind = ded = 0;
      for (size_t k = 0; k < w.st.size(); ++k) ++ind;
      if (m.stops() != w.st) err = "stops " + show(m.stops()) + " expected " + show(w.st) + " after an operation";
    }
    if (!w.pend && ind - ded != w.st.size()) err = "indents " + S(ind) + " dedents " + S(ded) + " do not balance with stops " + show(w.st);
    if (++steps > 20 * in.size() + 100) err = "does not end";
  }
  if (!err.empty()) { c.fail(std::string("indent-") + (code ? "code" : "table"), note + ": " + err); return; }
  c.count("indent and dedent events", dents);
  c.count(code ? "histories from code" : "histories from tables");
  if (dents) c.nontrivial(hash_str(in) + kit * 2 + code);
  if (dents > 2 && in.size() < 60) c.sample(note);
}

int main(int argc, char **argv) {
  bool ready = false;
  return run(argc, argv, [&](Rng& r, uint64_t) {
    if (!ready) { prepare(); ready = true; }
    for (int i = 0; i < 20; ++i) one(r);
  });
}
