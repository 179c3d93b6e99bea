// C06: the same history of matcher calls over different deliveries of the same input.
#include "mix.h"
using namespace vp;
using namespace mix;

int main(int argc, char **argv) {
  return run(argc, argv, [&](Rng& r, uint64_t) {
    Ctx& c = ctx();
    rx::Gen g(r);
    g.pick_alphabet();
    g.maxdepth = r.range(0, 2);
    std::vector<rx::P> al;
    std::string opts, regex;
    bool indent;
    regex = gen_regex(r, g, al, opts, indent);
    c.set_note("regex=\"" + regex + "\" opts=\"" + opts + "\"");
    std::unique_ptr<reflex::Pattern> pat;
    // an alternative may be rejected, e.g. a lazy quantifier on an empty text; not this property's concern
    try { pat.reset(new reflex::Pattern(regex, opts + "r")); } catch (const reflex::regex_error&) { c.count("rejected_patterns"); return; }
    c.count("patterns");
    for (int rep = 0; rep < 4; ++rep) {
      bool quad = opts.find('s') != std::string::npos || regex.find("(?s") != std::string::npos;
      std::string in = gen_text(r, g, al, r.chance(1, 6) ? (quad ? 12000 : 60000) : 200);
      const char *mo = NULL;
      static const char *mos[] = { "A", "N", "W", "T=2", "AN" };
      if (r.chance(1, 3)) mo = mos[r(5)];
      if (indent && mo && *mo != 'T') mo = NULL;
      int style = r(5);
      // find() over long inputs without matches is quadratic for some patterns
      if (in.size() > 15000 && style != 0 && style != 3) in.resize(15000);
      uint64_t seed = r.next();
      std::string base = "regex=\"" + esc(regex) + "\" opts=\"" + opts + "\" matcher=\"" + (mo ? mo : "") + "\" method=" + S(style);
      c.set_note(base + " input=\"" + esc(in, 1500) + "\"");
      std::vector<std::string> t0;
      {
        dl::Source<RM> src;
        src.make(*pat, in, 0, r, mo);
        t0 = trace(*src.m, seed, style, in.size());
      }
      size_t hits = 0;
      for (auto& x : t0) if (x.find('"') != std::string::npos) ++hits;
      uint64_t h = hash_str(regex + "\1" + opts + "\1" + in + (mo ? mo : "") + S(style));
      for (int j = 0; j < 4; ++j) {
        dl::Source<RM> src;
        int kind = 1 + r(dl::Source<RM>::KINDS - 1);
        if (!src.make(*pat, in, kind, r, mo)) continue;
        c.set_note(base + " via=" + src.how + " input=\"" + esc(in, 1500) + "\"");
        std::vector<std::string> t1 = trace(*src.m, seed, style, in.size());
        c.evaluations += t1.size();
        c.count(("deliveries:" + src.how.substr(0, src.how.find('/'))).c_str());
        if (t0 != t1) {
          size_t i = 0;
          while (i < t0.size() && i < t1.size() && t0[i] == t1[i]) ++i;
          c.fail("delivery-mismatch", base + " via=" + src.how + " input=\"" + esc(in, 600) + "\" step " + S(i) + ": at once {" + (i < t0.size() ? t0[i] : "end") + "} this way {" + (i < t1.size() ? t1[i] : "end") + "}");
          return;
        }
        if (hits >= 1) c.nontrivial(hash_str(src.how, h));
      }
      c.count("matches", hits);
      if (in.size() > 4096) c.count("inputs_beyond_buffer");
      if (hits >= 2 && in.size() < 60) c.sample(base + " input=\"" + esc(in) + "\"");
    }
  });
}
