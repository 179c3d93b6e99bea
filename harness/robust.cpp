// C15: any byte string as regex, any options, any input: construct or regex_error, run safely, terminate.
#include <reflex/matcher.h>
#include <reflex/convert.h>
#include "mix.h"
#include <sys/wait.h>
#include <sanitizer/lsan_interface.h>
using namespace vp;
using mix::S;
namespace cf = reflex::convert_flag;

static const char *SIG[] = { "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", "imPRsx!#<>=&|'(0123456789*:abcdefghnrstvwxzABCDGHKNQRSVWXZ0123456789?+", "imPRsx!#<>=&|'(0123456789*:abcdefghknprstvwxzABCDGHKNPQRSVWXZ0123456789?+", "imPRsx!#<>=&'(0123456789:abcdefghklnrstuvwxzABCDHLNQSUWZ0123456789<>?+", "!=:bcdfnrstvwxBDSW?", "fnrtv" };

static const char *TOK[] = {
  "a", "b", "B", "0", "7", "_", " ", "\n", "\t", "-", ",", ":", "=", "!", "<", ">", "#", "~", "'", "/", "\"", "&&", "||", "--", "&&[", "||[^", "--[",
  "(", "(", "(", ")", ")", ")", "(?", "(?:", "(?i)", "(?i:", "(?m)", "(?s)", "(?s:", "(?x)", "(?x:", "(?q)", "(?q:", "(?-i:", "(?imsx-q:", "(?^", "(?=", "(?!", "(?<=", "(?#", "(?#x)", "(?u:", "(?<a>", "(?'", "(?|", "(?>", "(?P<",
  "[", "[", "[^", "]", "]", "[]", "[^]", "[a-z]", "[z-a]", "[:", ":]", "[[:alpha:]]", "[[:^digit:]]", "[[:bad:]]", "[[:", "[.", "[=", "a-", "-z", "[^\\n]", "[\\d\\D]", "[\\0-\\xff]", "[^\\x00-\\xff]", "[\xc3\xa4-\xc3\xb6]",
  "|", "|", "||", "*", "+", "?", "*?", "+?", "??", "*+", "++", "{", "}", "{2}", "{0}", "{0,0}", "{1,}", "{,3}", "{2,3}", "{3,2}", "{0,2}?", "{2}{2}", "{1", "{1,", "{a}", "{}", "{name}", "{ 2 }",
  "{65535}", "{65536}", "{32767}", "{1,65536}", "{0,65537}", "{1,131072}", "{9999999}", "{99999999999}", "{1,99999999999}", "{4294967297}",
  ".", ".", "^", "$", "\\b", "\\B", "\\<", "\\>", "\\A", "\\z", "\\Z", "\\G", "\\i", "\\j", "\\k", "\\K", "\\R", "\\X", "\\N", "\\h", "\\H", "\\s", "\\S", "\\w", "\\W", "\\d", "\\D", "\\l", "\\L", "\\u", "\\U", "\\_", "\\e", "\\a", "\\n", "\\t", "\\v", "\\f", "\\r", "\\.", "\\-", "\\]", "\\(", "\\)", "\\{", "\\}", "\\/", "\\\"", "\\\\", "\\",
  "\\0", "\\01", "\\012", "\\0777", "\\1", "\\8", "\\x", "\\x4", "\\x41", "\\xg", "\\x{", "\\x{41", "\\x{41}", "\\x{110000}", "\\x{d800}", "\\x{ffffffffff}", "\\u{", "\\u{e4}", "\\u00e4", "\\ud83d\\ude00", "\\u{10ffff}", "\\c", "\\cA", "\\c[", "\\p", "\\p{", "\\p{L", "\\p{L}", "\\p{Lu}", "\\P{Greek}", "\\p{^Nd}", "\\p{Alpha}", "\\p{}", "\\p{xyz}", "\\pL", "\\PN", "\\Q", "\\E", "\\Qa\\E", "\\Q.\\E", "\\o{12}", "\\N{U+41}", "\\g{1}", "\\k<a>",
  "%", "%a", "\x80", "\xff", "\xc0", "\xc3", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xed\xa0\x80", "\xf8", "\x7f", "\x01", "\r", "\r\n" };
static const size_t NTOK = sizeof TOK / sizeof *TOK;

static std::string soup(Rng& r) {
  std::string s;
  int n = r.range(0, r.chance(1, 4) ? 40 : 10);
  int focus = r(3);
  size_t lo = 0, hi = NTOK;
  if (focus == 0) { lo = r(NTOK); hi = std::min(NTOK, lo + 30); }
  for (int i = 0; i < n; ++i) s += r.chance(1, 3) ? TOK[r(NTOK)] : TOK[lo + r(static_cast<uint32_t>(hi - lo))];
  return s;
}

static std::string mutate(Rng& r, std::string s) {
  int n = r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    size_t p = r(static_cast<uint32_t>(s.size() + 1));
    switch (r(7)) {
      case 0: if (p < s.size()) s.erase(p, r.range(1, 3)); break;
      case 1: case 2: s.insert(p, TOK[r(NTOK)]); break;
      case 3: if (p < s.size()) s[p] = static_cast<char>(r(256)); break;
      case 4: s.resize(p); break;
      case 5: if (p < s.size()) s.insert(p, s.substr(p, r.range(1, 8))); break;
      case 6: if (p < s.size()) { std::string t = TOK[r(NTOK)]; s.replace(p, std::min<size_t>(t.size(), s.size() - p), t); } break;
    }
  }
  return s;
}

// the repeat counts of a regex multiply: keep what must be built within bounds
static bool heavy(const std::string& s) {
  double prod = 1;
  for (size_t i = 0; i < s.size(); ++i)
    if (s[i] == '{') {
      size_t j = i + 1, k = 0, m = 0;
      while (j < s.size() && (isdigit(static_cast<unsigned char>(s[j])) || s[j] == ',' || s[j] == ' ')) { if (isdigit(static_cast<unsigned char>(s[j]))) { k = k * 10 + s[j] - '0'; if (k > 100000000) k = 100000000; } else { m = std::max(m, k); k = 0; } ++j; }
      m = std::max(m, k);
      if (m > 1) prod *= static_cast<double>(m);
    }
  // loops around counted repeats may need exponentially many states
  return prod > (s.find_first_of("*+,") == std::string::npos ? 300 : 12);
}

static std::string options(Rng& r) {
  std::string o;
  static const char *O[] = { "b", "i", "m", "o", "p", "q", "s", "w", "x", "r", "e=;", "e=%;", "e=a;", "e;", "e", ";", " ", "y", "=", "z=N;", "z=", "z", "e=" };
  int n = r.chance(1, 3) ? 0 : r.range(1, 4);
  for (int i = 0; i < n; ++i) o += O[r(r.chance(1, 4) ? 23 : 10)];
  return o;
}

// some regexes need a DFA of exponential size: only small regexes must be compiled within the time limit of a case
static bool toobig(const std::string& s, const std::string& opt) {
  size_t loops = 0;
  for (char ch : s) if (ch == '*' || ch == '+' || ch == '{' || ch == '?') ++loops;
  if (s.size() <= 80 && loops <= 10) return false;
  ctx().count("tried_in_child");
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) return true;
  if (p == 0) {
    arm(3);
    signal(SIGPROF, [](int) { _exit(97); });
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 2);
    try { reflex::Pattern x(s, opt); } catch (...) { }
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) continue;
  return WIFEXITED(st) && WEXITSTATUS(st) == 97;
}

// an exact-size copy on the heap: reading behind it is caught
struct Exact {
  char *p;
  explicit Exact(const std::string& s) : p(static_cast<char*>(malloc(s.size() + 1))) { memcpy(p, s.c_str(), s.size() + 1); }
  ~Exact() { free(p); }
};

static std::string gen_input(Rng& r, const std::string& re) {
  std::string in;
  static const char *W[] = { "a", "b", "ab", "aab", "B", "0", "7", "_", " ", "\n", "\t", "-", ",", "\"", "#", "\xc3\xa4", "\xe2\x82\xac", "\x80", "\xff", "  a\n", "a\n", "\r\n", "(", "]", "/" };
  int n = r.range(0, r.chance(1, 5) ? 200 : 25);
  for (int i = 0; i < n; ++i) {
    if (r.chance(1, 4) && !re.empty()) { size_t p = r(static_cast<uint32_t>(re.size())); in += re.substr(p, r.range(1, 4)); }
    else in += W[r(25)];
  }
  if (r.chance(1, 10)) in += std::string(r.range(1, 5000), "ab \n"[r(4)]);
  return in;
}

static bool execute(Rng& r, const reflex::Pattern& p, const std::string& re, const std::string& h) {
  Ctx& c = ctx();
  std::string in = gen_input(r, re);
  int meth = r(4);
  std::string mo = r.chance(1, 4) ? "N" : r.chance(1, 4) ? "W" : r.chance(1, 5) ? "A" : "";
  std::string d = h + " " + (meth == 0 ? "scan" : meth == 1 ? "find" : meth == 2 ? "split" : "matches") + " options \"" + mo + "\" input \"" + esc(in, 1500) + "\"";
  c.set_note(d);
  reflex::Matcher m(p, reflex::Input(in.data(), in.size()), mo.c_str());
  if (r.chance(1, 4)) m.buffer(r.chance(1, 2) ? 0 : r.range(1, 20));
  if (meth == 3) {
    size_t a = m.matches();
    ++c.evaluations;
    if (a > p.size() && a != reflex::Matcher::Const::EMPTY && a != reflex::Matcher::Const::REDO) { c.fail("accept-range", d + ": index " + S(a) + " of " + S(p.size())); return false; }
    return true;
  }
  size_t last = 0, calls = 0, limit = 4 * in.size() + 200, got = 0, zero = 0;
  while (true) {
    if (++calls > limit) { c.fail("no-progress", d + ": " + S(calls) + " calls"); return false; }
    size_t a = meth == 0 ? m.scan() : meth == 1 ? m.find() : m.split();
    if (a == 0) {
      if (meth == 0 && !m.at_end() && ++zero < 100000) { if (m.input() == EOF) break; last = std::max(last, m.first()); continue; }
      break;
    }
    if (a > p.size() && a != reflex::Matcher::Const::EMPTY && a != reflex::Matcher::Const::REDO) { c.fail("accept-range", d + ": index " + S(a) + " of " + S(p.size())); return false; }
    size_t f = m.first(), n = m.size();
    if (f < last || f + n > in.size()) { c.fail("bounds", d + ": match at " + S(f) + " of " + S(n) + " bytes after " + S(last)); return false; }
    if (memcmp(m.begin(), in.data() + f, n) != 0) { c.fail("text", d + ": match at " + S(f) + " \"" + esc(m.str()) + "\""); return false; }
    last = meth == 2 ? f + n : f + n;
    if (r.chance(1, 4)) { m.lineno(); m.columno(); m.lineno_end(); }
    ++got;
    if (meth == 2 && a == reflex::Matcher::Const::EMPTY) break;
  }
  ++c.evaluations;
  if (got) c.count("run_with_matches");
  return got > 0;
}

static void one(Rng& r) {
  Ctx& c = ctx();
  std::string re;
  int how = r(6);
  if (how < 3) re = soup(r);
  else if (how < 5) {
    rx::Gen g(r);
    std::vector<rx::P> al; std::string o; bool ind;
    re = mix::gen_regex(r, g, al, o, ind);
    if (r.chance(4, 5)) re = mutate(r, re);
  }
  else { int n = r(12); for (int i = 0; i < n; ++i) re += static_cast<char>(r(256)); }
  if (r.chance(1, 60)) {
    // a fragment many times over, or nested deeply
    std::string f = r.chance(1, 2) ? soup(r).substr(0, 6) : re.substr(0, 8);
    re.clear();
    int n = r.range(2, 60);
    if (r.chance(1, 2)) { for (int i = 0; i < n; ++i) re += f; }
    else {
      static const char *O[] = { "(", "(?:", "(a|", "(?i:", "(?^", "(?=", "(a" };
      static const char *C[] = { ")", ")*", ")?", ")|b)", "){2}" };
      n = r.chance(1, 3) ? r.range(900, 5000) : n;
      const char *o = O[r(7)], *e = n < 100 ? C[r(4)] : ")";
      for (int i = 0; i < n; ++i) re += o;
      re += f;
      for (int i = r.chance(1, 4) ? r(n) : 0; i < n; ++i) re += e;
    }
    c.count("repeated_fragment");
  }
  if (r.chance(1, 12)) re = "(?" + std::string(1, "imsxq-"[r(6)]) + ")" + re;
  std::string opt = options(r);
  if (heavy(re)) {
    // only alone
    if (r.chance(1, 2)) return;
    size_t p = re.find('{');
    while (p + 1 < re.size() && !isdigit(static_cast<unsigned char>(re[p + 1])) && re.find('{', p + 1) != std::string::npos) p = re.find('{', p + 1);
    size_t e = re.find_first_not_of("0123456789,", p + 1);
    re = "a" + re.substr(p, e == std::string::npos ? e : e - p + 1);
    if (heavy(re)) { c.count("huge_repeat"); }
  }
  std::string h = "regex \"" + esc(re, 1200) + "\" options \"" + esc(opt) + "\"";
  c.set_note(h);
  // conversion
  if (r.chance(1, 2)) {
    int sig = r(6);
    reflex::convert_flag_type fl = cf::none;
    if (r.chance(1, 2)) fl |= cf::unicode;
    if (r.chance(1, 4)) fl |= cf::anycase;
    if (r.chance(1, 4)) fl |= cf::dotall;
    if (r.chance(1, 4)) fl |= cf::freespace;
    if (r.chance(1, 4)) fl |= cf::lex;
    if (r.chance(1, 6)) fl |= cf::multiline;
    if (r.chance(1, 6)) fl |= cf::basic;
    if (r.chance(1, 6)) fl |= cf::recap;
    if (r.chance(1, 6)) fl |= cf::notnewline;
    if (r.chance(1, 6)) fl |= cf::u4;
    if (r.chance(1, 8)) fl |= cf::permissive;
    std::map<std::string,std::string> mac;
    mac["name"] = "[a-c]+"; mac["a"] = "x|y";
    std::string d = h + " convert signature " + S(sig) + " flags " + S(fl);
    c.set_note(d);
    std::string cv;
    bool ok = false;
    try {
      Exact x(re);
      if (re.find('\0') == std::string::npos && r.chance(1, 2)) cv = reflex::convert(x.p, SIG[sig], fl, r.chance(1, 2) ? &mac : nullptr);
      else cv = reflex::convert(re, SIG[sig], fl, r.chance(1, 2) ? &mac : nullptr);
      ok = true;
      c.count("converted");
    }
    catch (const reflex::regex_error& e) {
      c.count("convert_rejected");
      if (e.pos() > re.size()) { c.fail("convert-error-pos", d + ": position " + S(e.pos()) + " of " + S(re.size()) + ": " + e.what()); return; }
      if (strstr(e.what(), "error") == nullptr) { c.fail("convert-error-text", d); return; }
    }
    ++c.evaluations;
    if (!ok || sig != 0 || heavy(cv) || cv.size() > 20000) return;
    re = cv;
    h = "regex \"" + esc(re, 1200) + "\" options \"" + esc(opt) + "\"";
    c.set_note(h);
  }
  try {
    Exact x(re), o(opt);
    std::unique_ptr<reflex::Pattern> p;
    if (toobig(re, opt)) { c.count("too_big"); return; }
    if (re.find('\0') == std::string::npos && r.chance(1, 2)) p.reset(new reflex::Pattern(x.p, o.p));
    else p.reset(new reflex::Pattern(re, opt));
    c.count("constructed");
    ++c.evaluations;
    bool nt = false;
    for (int k = r.range(1, 3); k > 0; --k) nt |= execute(r, *p, re, h);
    if (nt) c.nontrivial(hash_str(re + "\1" + opt));
  }
  catch (const reflex::regex_error& e) {
    c.count("rejected");
    ++c.evaluations;
    if (e.pos() > re.size()) { c.fail("error-pos", h + ": position " + S(e.pos()) + " of " + S(re.size()) + ": " + e.what()); return; }
    c.nontrivial(hash_str(re + "\1" + opt));
    if (r.chance(1, 50)) c.sample(esc(re) + ": " + esc(e.what(), 200));
  }
  // option r reports on standard error and raises; without it errors are reported the same way
}

// regexes beyond the limits of the library are rejected, those within match what they specify
static void limits(Rng& r) {
  Ctx& c = ctx();
  std::string re, in;
  bool over = false, match = true;
  static const char *X[] = { "a", "[ab]", "(ab)", "(a|b)", ".", "\\w" };
  if (r.chance(1, 2)) {
    // counted repeats up to 65535
    std::string x = X[r(6)];
    uint64_t n = r.range(0, 6), m = n + r(5);
    auto big = [&]() { return r.chance(1, 2) ? 65536ull * r.range(1, 150) + r(8) : 65536ull + r(9000000); };
    int kind = r(4);
    if (kind == 0) m = big();
    else if (kind == 1) { n = big(); m = n + r(3); }
    over = kind < 2;
    int form = kind == 1 ? r(3) : kind == 0 ? 0 : r(3);
    re = x + "{" + std::to_string(n) + (form == 0 ? "," + std::to_string(m) : form == 1 ? "," : "") + "}";
    if (form == 2) m = n;
    if (kind == 3) {
      // nested repeats multiply
      uint64_t k = r.range(2, 9);
      if (r.chance(1, 2)) { k = 65535 / std::max<uint64_t>(m, 1) + 1 + r(1000); over = m > 0 && form != 1 && k * m > 65535 && k <= 65535; if (!over) return; }
      re = "(" + re + "){" + std::to_string(k) + "}";
      if (!over) return;
    }
    if (!over) {
      // what is in range matches as often as specified
      size_t k = r(static_cast<uint32_t>(m + 3));
      for (size_t i = 0; i < k; ++i) in += x == "(ab)" ? "ab" : x == "a" || r.chance(1, 2) ? "a" : "b";
      match = k >= n && (form == 1 || k <= m);
      if (in.empty()) return;
    }
  } else {
    // up to 255 lazy quantifiers
    int n = r.chance(1, 3) ? r.range(240, 300) : r.range(500, 1100);
    if (r.chance(1, 2)) n = r.range(2, 255);
    over = n > 255;
    static const char *Q[] = { "*?", "+?", "??", "{1,3}?" };
    for (int i = 0; i < n; ++i) {
      if (i) re += '|';
      re += S(i) + "_[ab]" + Q[r(4)] + "b";
    }
    if (!over) {
      int i = r(n);
      size_t at = re.find(S(i) + "_[ab]") , q = at + S(i).size() + 5;
      if (i > 0) { at = re.find("|" + S(i) + "_[ab]") + 1; q = at + S(i).size() + 5; }
      std::string z = re[q] == '?' && re[q + 1] == '?' ? "b" : re[q] == '*' ? "b" : "ab";
      if (re[q] == '?' || re[q] == '*') in = S(i) + "_b"; else in = S(i) + "_ab";
      std::string text = in + "bb";
      c.set_note("regex \"" + esc(re, 1500) + "\" input " + text);
      reflex::Pattern p(re);
      reflex::Matcher m(p, text);
      size_t a = m.scan();
      ++c.evaluations;
      c.count("regexes with many lazy quantifiers");
      if (a != static_cast<size_t>(i) + 1 || m.str() != in) c.fail("limits-lazy", c.note + ": matches \"" + esc(m.str()) + "\" with " + S(a));
      return;
    }
  }
  c.set_note("regex \"" + esc(re, 1500) + "\"");
  ++c.evaluations;
  try {
    reflex::Pattern p(re);
    if (over) { c.fail("limits-accepted", c.note + " exceeds the limits but is accepted"); return; }
    reflex::Matcher m(p, in);
    c.count("regexes within the limits");
    if ((m.matches() != 0) != match) c.fail("limits-repeat", c.note + " input \"" + in + "\" " + (match ? "is not matched" : "is matched"));
  } catch (const reflex::regex_error& e) {
    if (!over) c.fail("limits-rejected", c.note + ": " + e.what());
    else if (e.pos() > re.size()) c.fail("error-pos", c.note + ": position " + S(e.pos()));
    c.count("regexes beyond the limits rejected");
  }
}

int main(int argc, char **argv) {
  return run(argc, argv, [&](Rng& r, uint64_t) { if (r.chance(1, 30)) limits(r); else one(r); });
}
