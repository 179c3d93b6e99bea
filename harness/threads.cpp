// C16: threads that share patterns, construct and copy patterns, convert regexes, and use matchers, inputs and lexers
// of their own, under ThreadSanitizer.  Every task is a pure function of its seed: its result in the storm of threads is
// compared with its result when it runs alone.  A storm runs in a new process, so that the first use of everything that
// the library initialises lazily happens in concurrent threads.
#include "vp.h"
#include "rx.h"
#include <reflex/pcre2matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/stdmatcher.h>
#include "deliver.h"
#include "mix.h"
#include "../fuzzy/fuzzymatcher.h"
#include <reflex/abslexer.h>
#include <atomic>
#include <mutex>
#include <sched.h>
#include <sys/wait.h>
#include <thread>
using namespace vp;
using mix::S;
typedef reflex::Matcher RM;

// everything that the threads share
struct Shared {
  struct P { std::string regex, opts; std::unique_ptr<const reflex::Pattern> pat; std::unique_ptr<rx::Gen> g; std::vector<rx::P> al; bool indent = false; std::vector<std::string> inputs; };
  std::vector<P> pats;
  std::unique_ptr<const reflex::Pattern> word, fuzzy;
  std::unique_ptr<const reflex::PCRE2Matcher::Pattern> pcre;
  boost::regex boost_re;
  std::regex std_re;
};

// pieces of input with a chance to switch threads
struct YieldBuf : public std::streambuf {
  const std::string& s; size_t at = 0; Rng r; char b[64];
  YieldBuf(const std::string& s, uint64_t seed) : s(s), r(seed) { }
  virtual int_type underflow() {
    if (at >= s.size()) return traits_type::eof();
    if (r.chance(1, 3)) sched_yield();
    if (r.chance(1, 20)) usleep(r(50));
    size_t n = std::min<size_t>(1 + r(sizeof b), s.size() - at);
    memcpy(b, s.data() + at, n);
    at += n;
    setg(b, b, b + n);
    return traits_type::to_int_type(b[0]);
  }
};

template<typename M>
static std::string tokens(M& m, Rng& r, int method, size_t n) {
  std::string out;
  size_t steps = 0;
  if (method == 3) { out += "M" + S(m.matches()) + m.str(); return out; }
  while (steps++ < 2 * n + 20) {
    size_t a = method == 0 ? m.scan() : method == 1 ? m.find() : m.split();
    out += S(a) + ":" + m.str() + "@" + S(m.first());
    if (r.chance(1, 3)) out += "l" + S(m.lineno()) + "c" + S(m.columno());
    if (r.chance(1, 6)) { std::pair<size_t,const char*> id = m.group_id(); out += "g" + S(id.first) + (id.second ? id.second : ""); }
    out += '|';
    if (!a) break;
  }
  return out;
}

struct Lex : public reflex::AbstractLexer<RM> {
  std::ostringstream os;
  const reflex::Pattern& p;
  Lex(const reflex::Pattern& p, const reflex::Input& in) : reflex::AbstractLexer<RM>(in, os), p(p) { matcher(new_matcher(in)); }
  virtual Matcher *new_matcher(const reflex::Input& in, const char *opt = NULL) { return new Matcher(p, in, this, opt); }
  std::string run() { std::string s; while (size_t a = matcher().scan()) { s += S(a) + str() + S(lineno()) + "," + S(columno()) + "|"; if (matcher().size() > 2 && a == 1) matcher().less(1); out() << text(); } return s + os.str(); }
};

static const int KINDS = 15;
static std::string text(Rng& r, size_t max) {
  static const char *w[] = { "foo", "bar", "x1", " ", "\n", "\t", "12", "3.5", "\xc3\xa9", "\xe2\x82\xac", "the", "fox", "==", "/*c*/", "A", "Zz", "-", "\"q\"" };
  std::string s;
  size_t n = r(static_cast<uint32_t>(max));
  while (s.size() < n) s += w[r(sizeof w / sizeof *w)];
  return s;
}
static std::string uregex(Rng& r) {
  static const char *a[] = { "\\p{L}+", "\\p{Greek}", "\\p{Nd}{2}", "[\\p{Lu}--[A-Z]]", "[[:alpha:]_]\\w*", "\\d+(\\.\\d+)?", "\\s+", ".", "\\p{IsBasicLatin}", "(?i:abc|def)", "\\bfo+", "x*?y", "[^\\n\"]", "\\p{Lowercase}", "\\X{20AC}", "a{2,4}", "\\P{Han}", "\\h+" };
  std::string s;
  for (int n = r.range(1, 4); n > 0; --n) { if (!s.empty()) s += "|"; s += "(?:"; s += a[r(sizeof a / sizeof *a)]; if (r.chance(1, 3)) s += a[r(sizeof a / sizeof *a)]; s += ")"; }
  return s;
}

static std::string task(Shared& sh, uint64_t seed, int& kind) {
  Rng r(seed);
  kind = r(KINDS);
  try {
    switch (kind) {
      case 0: case 1: case 2: {
        Shared::P& p = sh.pats[r(static_cast<uint32_t>(sh.pats.size()))];
        const std::string& in = r.pick(p.inputs);
        std::vector<std::string> t;
        uint64_t ts = r.next();
        int style = r(p.indent ? 4 : 5);
        if (r.chance(1, 2)) {
          YieldBuf yb(in, seed);
          std::istream is(&yb);
          RM m(*p.pat, reflex::Input(is));
          t = mix::trace(m, ts, style, in.size());
        } else {
          dl::Source<RM> src;
          if (!src.make(*p.pat, in, r(dl::Source<RM>::KINDS), r)) return "";
          t = mix::trace(*src.m, ts, style, in.size());
        }
        std::string s;
        for (auto& x : t) s += x + "\n";
        return s;
      }
      case 3: { // construct and use
        std::string re = reflex::Matcher::convert(uregex(r), reflex::convert_flag::unicode), in = text(r, 150);
        reflex::Pattern p(re, r.chance(1, 2) ? "m" : "im");
        RM m(p, in);
        return re + S(p.words()) + "," + S(p.nodes()) + "," + S(p.edges()) + "\n" + tokens(m, r, r(4), in.size());
      }
      case 4: { // copies of shared patterns
        Shared::P& p = sh.pats[r(static_cast<uint32_t>(sh.pats.size()))];
        reflex::Pattern q(*p.pat);
        if (r.chance(1, 2)) { reflex::Pattern z("abc"); z = q; q = z; }
        const std::string& in = r.pick(p.inputs);
        RM m(q, in);
        if (r.chance(1, 3)) { RM n(m); n.input(in); return tokens(n, r, r(3), in.size()); }
        return tokens(m, r, r(3), in.size());
      }
      case 5: { // conversion
        static const char *sig[] = { "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", "!=:bcdegiklnrstuvxz", "imsx!#<=:ABDHLNQSWZ", "imsxA:abdefhlrtuwxzADHLPSUWZ.", "" };
        return reflex::convert(uregex(r), sig[r(5)], r.chance(1, 2) ? reflex::convert_flag::unicode : reflex::convert_flag::recap);
      }
      case 6: { std::string in = text(r, 300); reflex::PCRE2Matcher m(*sh.pcre, in); return tokens(m, r, r(4), in.size()); }
      case 7: { std::string in = text(r, 300); reflex::BoostMatcher m(sh.boost_re, in); return tokens(m, r, r(4), in.size()); }
      case 8: { std::string in = text(r, 100); reflex::StdMatcher m(sh.std_re, in); return tokens(m, r, r(2), in.size()); }
      case 9: { // inputs of several encodings
        std::string in = text(r, 400), raw;
        static const int enc[] = { reflex::Input::file_encoding::latin, reflex::Input::file_encoding::utf16le, reflex::Input::file_encoding::utf32be, reflex::Input::file_encoding::cp1252, reflex::Input::file_encoding::ebcdic, reflex::Input::file_encoding::koi8_r };
        int e = enc[r(6)];
        raw = in;
        raw += std::string((4 - raw.size() % 4) % 4, 'x');
        FILE *f = fmemopen(const_cast<char*>(raw.data()), raw.size(), "r");
        if (!f) return "";
        std::string s;
        {
          reflex::Input i(f, e);
          char b[37];
          size_t n;
          s += S(i.size());
          while ((n = i.get(b, 1 + r(sizeof b))) > 0) s.append(b, n);
        }
        fclose(f);
        return s;
      }
      case 10: { std::string in = text(r, 40); reflex::FuzzyMatcher m(*sh.fuzzy, 1 + r(2), in); std::string s; size_t k = 0; while (m.find() && k++ < 60) s += m.str() + S(m.edits()) + "|"; return s; }
      case 11: { // errors
        static const char *bad[] = { "(", "[", "a{2,1}", "\\p{Nope}", "x)", "[z-a]", "(?", "\\", "*a" };
        std::string b = bad[r(9)];
        try { reflex::Pattern p(b, "r"); return "accepted"; }
        catch (reflex::regex_error& e) { return std::string(e.what()) + S(e.pos()) + S(e.code()); }
      }
      case 12: { // everything that a const pattern tells
        Shared::P& p = sh.pats[r(static_cast<uint32_t>(sh.pats.size()))];
        std::string s = S(p.pat->size());
        for (reflex::Pattern::Accept i = 0; i <= p.pat->size() && i < 20; ++i) s += (*p.pat)[i] + (i && p.pat->reachable(i) ? "r" : "-");
        return s + S(p.pat->words()) + S(p.pat->nodes()) + S(p.pat->edges());
      }
      case 13: { std::string in = text(r, 300); Lex l(*sh.word, in); return l.run(); }
      default: { // one matcher that goes over several shared patterns and inputs
        RM m(*sh.word, "");
        std::string s;
        for (int k = 0; k < 4; ++k) {
          Shared::P& p = sh.pats[r(static_cast<uint32_t>(sh.pats.size()))];
          const std::string& in = r.pick(p.inputs);
          m.pattern(*p.pat);
          m.input(in);
          s += tokens(m, r, r(3), in.size());
        }
        return s;
      }
    }
  }
  catch (reflex::regex_error& e) { return std::string("regex error ") + e.what(); }
  catch (std::exception& e) { return std::string("error ") + e.what(); }
}

static void storm(Rng& r, FILE *out) {
  Shared sh;
  for (int i = 0; i < 5; ++i) {
    sh.pats.emplace_back();
    Shared::P& p = sh.pats.back();
    p.g.reset(new rx::Gen(r));
    if (i == 4) { p.regex = reflex::Matcher::convert("\\p{L}+|\\p{Nd}+|\\s|.", reflex::convert_flag::unicode); for (int k = 0; k < 12; ++k) p.inputs.push_back(text(r, 300)); }
    else {
      p.regex = mix::gen_regex(r, *p.g, p.al, p.opts, p.indent);
      for (int k = 0; k < 12; ++k) p.inputs.push_back(mix::gen_text(r, *p.g, p.al, k == 11 ? 9000 : 200));
    }
    p.pat.reset(new reflex::Pattern(p.regex, p.opts));
  }
  sh.word.reset(new reflex::Pattern("(\\w+)|([ \\t]+)|(\\n)|(.)"));
  sh.fuzzy.reset(new reflex::Pattern("(?m)fox|bar+"));
  sh.pcre.reset(new reflex::PCRE2Matcher::Pattern("(?<w>[a-z]+)|([0-9]+)|(\\s+)"));
  sh.boost_re = boost::regex("(fo+)|([a-z]+)|(\\d+)|(\\s)");
  sh.std_re = std::regex("[a-z]+|[0-9]+|[ \\n]", std::regex::ECMAScript);
  size_t nt = r.range(3, 8), per = r.range(4, 9);
  std::vector<uint64_t> seeds;
  for (size_t i = 0; i < nt * per; ++i) seeds.push_back(i > 3 && r.chance(1, 4) ? seeds[r(static_cast<uint32_t>(i))] : r.next()); // some tasks run in several threads at once
  std::vector<std::string> got(seeds.size());
  std::vector<int> kinds(seeds.size());
  std::atomic<int> gate(0);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
    ++gate;
    while (gate < static_cast<int>(nt)) sched_yield();
    for (size_t i = t; i < seeds.size(); i += nt) got[i] = task(sh, seeds[i], kinds[i]);
  });
  for (auto& x : th) x.join();
  size_t evals = 0, made = 0;
  for (size_t i = 0; i < seeds.size(); ++i) {
    int k;
    std::string alone = task(sh, seeds[i], k);
    ++evals;
    made += !got[i].empty();
    fprintf(out, "K %d\n", k);
    if (alone != got[i]) {
      size_t d = 0;
      while (d < alone.size() && d < got[i].size() && alone[d] == got[i][d]) ++d;
      fprintf(out, "F task kind %d: in threads ...%s alone ...%s\n", k, esc(got[i].substr(d > 20 ? d - 20 : 0), 150).c_str(), esc(alone.substr(d > 20 ? d - 20 : 0), 150).c_str());
    }
  }
  fprintf(out, "E %zu %zu %zu\n", evals, made, nt);
  fflush(out);
}

int main(int argc, char **argv) {
  return run(argc, argv, [&](Rng& r, uint64_t id) {
    Ctx& c = ctx();
    c.set_note("storm of threads, case " + std::to_string(id));
    int fd[2];
    if (pipe(fd) != 0) { printf("ERROR pipe\n"); exit(2); }
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      FILE *f = fdopen(fd[1], "w");
      storm(r, f);
      fclose(f);
      exit(0); // ThreadSanitizer decides the exit code
    }
    close(fd[1]);
    FILE *f = fdopen(fd[0], "r");
    char line[1000];
    bool end = false;
    std::string fails;
    uint64_t h = id;
    static const char *names[KINDS] = { "histories on shared patterns", "histories on shared patterns", "histories on shared patterns", "patterns constructed", "patterns copied", "conversions", "PCRE2 matchers", "Boost matchers", "std matchers", "encoded inputs", "fuzzy matchers", "regex errors", "pattern queries", "lexers", "matchers that change patterns" };
    while (fgets(line, sizeof line, f)) {
      size_t a, b, t;
      int k;
      if (sscanf(line, "K %d", &k) == 1) c.count(names[k]);
      else if (*line == 'F') fails += line;
      else if (sscanf(line, "E %zu %zu %zu", &a, &b, &t) == 3) {
        end = true;
        c.evaluations += a;
        for (size_t i = 0; i < b; ++i) c.nontrivial(h = hash_str("s", h + i));
        c.count("threads", t);
        c.count("storms");
      }
    }
    fclose(f);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!fails.empty()) c.fail("threads-differ", fails);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66) { fflush(NULL); _exit(66); } // the report is on stderr
    if (!end || !WIFEXITED(st) || WEXITSTATUS(st) != 0) { fflush(NULL); fprintf(stderr, "storm ended with status %d\n", st); if (WIFSIGNALED(st)) abort(); _exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 3); }
    c.sample("storm " + std::to_string(id) + " of tasks on shared patterns");
  });
}
