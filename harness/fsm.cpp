// C09: opcode tables and state machine code exported as C++ must behave as the in-memory pattern.
#include "mix.h"
#include <dlfcn.h>
#include <sys/stat.h>
using namespace vp;
using namespace mix;

struct Item {
  std::string regex, opts, name;
  rx::Gen *g;
  std::vector<rx::P> al;
  bool indent, ns, pred, big;
  std::unique_ptr<reflex::Pattern> pat;
};

int main(int argc, char **argv) {
  return run(argc, argv, [&](Rng& r, uint64_t) {
    Ctx& c = ctx();
    const char *cxx = getenv("VP_CXX");
    if (!cxx) { printf("ERROR no compiler\n"); exit(2); }
    std::string base = c.workdir + "/b" + S(r.next() & 0xffffff);
    std::vector<Item> items;
    std::vector<std::unique_ptr<rx::Gen> > gens;
    int n = r.range(14, 22);
    bool big = r.chance(1, 3);      // one table with long jumps
    std::string what;
    for (int i = 0; i < n; ++i) {
      gens.emplace_back(new rx::Gen(r));
      Item t;
      t.g = gens.back().get();
      t.g->pick_alphabet();
      t.g->maxdepth = r.range(0, 2);
      t.big = big && i == 0;
      if (t.big) { rx::Pat p = rx::gen_big(r, *t.g, r.range(5000, 6500)); t.indent = false; t.regex = p.regex; t.al.assign(p.alts.begin(), p.alts.begin() + 500); t.g->alpha = "abc \n"; }
      else t.regex = gen_regex(r, *t.g, t.al, t.opts, t.indent);
      if (t.regex.size() > 3000 && !t.big) continue;
      t.name = "P" + S(i);
      t.ns = r.chance(1, 5);
      t.pred = r.chance(1, 2);
      // exported by the pattern itself: first the tables, then the code
      std::string o = t.opts + (t.pred ? "p" : "") + "r";
      std::string ex = (t.ns ? ";z=aa::bb" : "") + std::string(";n=") + t.name;
      c.set_note("regex=\"" + t.regex + "\" opts=\"" + o + ex + "\"");
      try {
        t.pat.reset(new reflex::Pattern(t.regex, t.opts + "r"));
        reflex::Pattern a(t.regex, o + ex + "T;f=+" + base + ".cpp");
        if (t.big) { c.count("tables_with_long_jumps", t.pat->words() > 65534); }
        else reflex::Pattern b(t.regex, o + "o" + ex + "F;f=+" + base + ".cpp");
      } catch (const reflex::regex_error&) { c.count("rejected_patterns"); continue; }
      what += t.name + "=\"" + t.regex.substr(0, 300) + "\" ";
      items.push_back(std::move(t));
    }
    std::string glue;
    glue = "#include <reflex/matcher.h>\n#include \"" + base + ".cpp\"\nusing namespace reflex;\n";
    for (auto& t : items) {
      std::string q = t.ns ? "aa::bb::" : "";
      glue += "extern \"C\" Pattern *" + t.name + "_make(int k) {\n"
        "  if (k == 0) return new Pattern(" + q + "reflex_code_" + t.name + "T);\n" + std::string(t.big ? "" : "  if (k == 1) return new Pattern(" + q + "reflex_code_" + t.name + "F);\n");
      if (t.pred) glue += "  if (k == 2) return new Pattern(" + q + "reflex_code_" + t.name + "T, " + q + "reflex_pred_" + t.name + "T);\n";
      if (t.pred && !t.big) glue += "  if (k == 3) return new Pattern(" + q + "reflex_code_" + t.name + "F, " + q + "reflex_pred_" + t.name + "F);\n";
      glue += "  return NULL;\n}\n";
    }
    FILE *f = fopen((base + "g.cpp").c_str(), "w");
    fputs(glue.c_str(), f);
    fclose(f);
    c.set_note("compiling " + what);
    std::string so = base + ".so", cmd = std::string(cxx) + " -O0 -fno-sanitize=undefined -fPIC -shared -o " + so + " " + base + "g.cpp > " + base + ".log 2>&1";
    arm(0);
    if (system(cmd.c_str()) != 0) {
      std::string log;
      if (FILE *l = fopen((base + ".log").c_str(), "r")) { char b[1500]; size_t k = fread(b, 1, sizeof b, l); log.assign(b, k); fclose(l); }
      c.fail("exported-code-rejected", esc(log, 1500) + " " + esc(what, 1500));
      return;
    }
    arm(c.hang_limit);
    void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { printf("ERROR dlopen %s\n", dlerror()); exit(2); }
    c.count("libraries");
    for (auto& t : items) {
      typedef reflex::Pattern *(*Make)(int);
      Make make = reinterpret_cast<Make>(dlsym(h, (t.name + "_make").c_str()));
      if (!make) { printf("ERROR dlsym %s\n", t.name.c_str()); exit(2); }
      std::unique_ptr<reflex::Pattern> p[4];
      for (int k = 0; k < 4; ++k) p[k].reset(make(k));
      c.count("patterns");
      for (int rep = 0; rep < 24; ++rep) {
        std::string in = gen_text(r, *t.g, t.al, r.chance(1, 20) ? 9000 : r.chance(1, 2) ? 40 : 300);
        const char *mo = NULL;
        static const char *mos[] = { "A", "N", "W", "T=2", "AN" };
        if (r.chance(1, 3)) mo = mos[r(5)];
        if (t.indent && mo && *mo != 'T') mo = NULL;
        int style = r(5);
        uint64_t seed = r.next();
        std::string nb = "regex=\"" + esc(t.regex, 1000) + "\" opts=\"" + t.opts + "\" matcher=\"" + (mo ? mo : "") + "\" method=" + S(style);
        c.set_note(nb + " input=\"" + esc(in, 1500) + "\"");
        std::vector<std::string> t0;
        { dl::Source<RM> src; src.make(*t.pat, in, 0, r, mo); t0 = trace(*src.m, seed, style, in.size()); }
        size_t hits = 0;
        for (auto& x : t0) if (x.find('"') != std::string::npos) ++hits;
        static const char *kinds[] = { "table", "code", "table+pred", "code+pred" };
        for (int k = 0; k < 4; ++k) {
          if (!p[k]) continue;
          dl::Source<RM> src;
          int kind = r.chance(1, 2) ? 0 : r(dl::Source<RM>::KINDS);
          if (!src.make(*p[k], in, kind, r, mo)) continue;
          c.set_note(nb + " from=" + kinds[k] + " via=" + src.how + " input=\"" + esc(in, 1500) + "\"");
          std::vector<std::string> t1 = trace(*src.m, seed, style, in.size());
          c.evaluations += t1.size();
          c.count(kinds[k]);
          if (t0 != t1) {
            size_t i = 0;
            while (i < t0.size() && i < t1.size() && t0[i] == t1[i]) ++i;
            c.fail(std::string("export-mismatch-") + (k & 1 ? "code" : "table"), nb + " from=" + kinds[k] + " via=" + src.how + " input=\"" + esc(in, 600) + "\" step " + S(i) + ": in memory {" + (i < t0.size() ? t0[i] : "end") + "} exported {" + (i < t1.size() ? t1[i] : "end") + "}");
            rep = 1000;
            break;
          }
          if (hits) c.nontrivial(hash_str(nb + kinds[k] + in));
        }
        if (hits >= 2 && in.size() < 60) c.sample(nb + " input=\"" + esc(in) + "\"");
      }
    }
    // the library stays loaded: its patterns are gone, so it can be unloaded
    dlclose(h);
    for (const char *e : { ".cpp", "g.cpp", ".so", ".log" }) unlink((base + e).c_str());
  });
}
