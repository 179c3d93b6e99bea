// C20: Unicode and POSIX classes against an independent reading of the Unicode data files.
#include "vp.h"
#include <reflex/matcher.h>
#include <reflex/unicode.h>
#include <reflex/posix.h>
#include <fstream>
#include <sstream>
#include <memory>
#include <algorithm>
using namespace vp;

static std::string S(long long n) { return std::to_string(n); }
static std::string X(int n) { char b[16]; snprintf(b, sizeof b, "%X", n); return b; }
static const int MAX = 0x110000;
// sorted disjoint inclusive ranges
struct Set {
  std::vector<std::pair<int, int> > v;
  bool operator[](int c) const {
    size_t lo = 0, hi = v.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (v[m].second < c) lo = m + 1; else hi = m; }
    return lo < v.size() && v[lo].first <= c;
  }
  void norm() {
    std::sort(v.begin(), v.end());
    std::vector<std::pair<int, int> > w;
    for (auto& p : v) if (!w.empty() && p.first <= w.back().second + 1) w.back().second = std::max(w.back().second, p.second); else w.push_back(p);
    v.swap(w);
  }
  bool operator==(const Set& s) const { return v == s.v; }
};

static std::map<std::string, Set> uni, posix_;
static std::vector<std::string> uni_names, posix_names;

static Set &U(const std::string& n) { return uni[n]; }
static void add(Set& s, int a, int b) { s.v.push_back(std::make_pair(a, b)); }
static void join(const std::string& to, std::initializer_list<const char*> from) {
  Set t;
  for (auto f : from) { Set& s = U(f); t.v.insert(t.v.end(), s.v.begin(), s.v.end()); }
  Set& d = U(to);
  d.v.insert(d.v.end(), t.v.begin(), t.v.end());
}

static void load() {
  std::string root = getenv("VP_ROOT") ? getenv("VP_ROOT") : "/repo";
  std::string line;
  {
    // general categories
    std::ifstream f(root + "/unicode/UnicodeData.txt");
    int first = -1;
    while (std::getline(f, line)) {
      std::vector<std::string> v;
      std::stringstream ss(line);
      std::string x;
      while (v.size() < 3 && std::getline(ss, x, ';')) v.push_back(x);
      if (v.size() < 3) continue;
      int cp = strtol(v[0].c_str(), 0, 16);
      if (v[1].size() > 8 && v[1].substr(v[1].size() - 8) == ", First>") { first = cp; continue; }
      int lo = first >= 0 ? first : cp;
      first = -1;
      // not provided by the library: surrogates, private use
      if (v[2] == "Cs" || v[2] == "Co") continue;
      add(U(v[2]), lo, cp);
    }
  }
  {
    std::ifstream f(root + "/unicode/Scripts.txt");
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#') continue;
      char name[100];
      int a, b;
      if (sscanf(line.c_str(), "%x..%x ; %99[A-Za-z_0-9]", &a, &b, name) == 3) add(U(name), a, b);
      else if (sscanf(line.c_str(), "%x ; %99[A-Za-z_0-9]", &a, name) == 2) add(U(name), a, a);
    }
  }
  {
    std::ifstream f(root + "/unicode/Blocks.txt");
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#') continue;
      int a, b, n = 0;
      if (sscanf(line.c_str(), "%x..%x; %n", &a, &b, &n) < 2 || !n) continue;
      std::string name = "Is";
      for (char c : line.substr(n)) if (isalnum(static_cast<unsigned char>(c)) || c == '-' || c == '_') name += c;
      add(U(name), a, b);
    }
  }
  join("L&", {"Lu", "Ll", "Lt"});
  join("L", {"L&", "Lm", "Lo"});
  join("M", {"Mn", "Mc", "Me"});
  join("N", {"Nd", "Nl", "No"});
  join("P", {"Pd", "Ps", "Pe", "Pi", "Pf", "Pc", "Po"});
  join("S", {"Sm", "Sc", "Sk", "So"});
  join("Z", {"Zs", "Zl", "Zp"});
  join("C", {"Cc", "Cf"});
  add(U("ASCII"), 0, 0x7F);
  add(U("Unicode"), 0, 0xD7FF); add(U("Unicode"), 0xE000, 0x10FFFF);
  add(U("Non_ASCII_Unicode"), 0x80, 0xD7FF); add(U("Non_ASCII_Unicode"), 0xE000, 0x10FFFF);
  join("Space", {"Z"}); add(U("Space"), 9, 13); add(U("Space"), 0x85, 0x85);
  join("Word", {"L", "Nd", "Pc"});
  add(U("IdentifierIgnorable"), 0, 8); add(U("IdentifierIgnorable"), 0x0E, 0x1B); add(U("IdentifierIgnorable"), 0x7F, 0x9F);
  join("UnicodeIdentifierStart", {"L", "Nl"});
  join("UnicodeIdentifierPart", {"L", "Nl", "Pc", "Mn", "Mc", "Nd", "Cf", "IdentifierIgnorable"});
  join("JavaIdentifierStart", {"L", "Nl", "Sc", "Pc"});
  join("JavaIdentifierPart", {"L", "Nl", "Sc", "Pc", "Mn", "Mc", "Nd", "Cf", "IdentifierIgnorable"});
  join("CsIdentifierStart", {"L", "Nl", "Pc"}); add(U("CsIdentifierStart"), '@', '@');
  join("CsIdentifierPart", {"L", "Nl", "Pc", "Mn", "Mc", "Nd", "Cf"});
  { join("PythonIdentifierStart", {"L", "Nl"}); Set& s = U("PythonIdentifierStart"); add(s, 0x1885, 0x1886); add(s, 0x2118, 0x2118); add(s, 0x212E, 0x212E); add(s, 0x309B, 0x309C); }
  { join("PythonIdentifierPart", {"L", "Nl", "Pc", "Mn", "Mc", "Nd"}); Set& s = U("PythonIdentifierPart"); add(s, 0xB7, 0xB7); add(s, 0x387, 0x387); add(s, 0x1369, 0x1371); add(s, 0x19DA, 0x19DA); }
  static const char *ALIAS[][2] = { {"Other","C"}, {"Letter","L"}, {"Mark","M"}, {"Number","N"}, {"Punctuation","P"}, {"Symbol","S"}, {"Separator","Z"}, {"Lowercase_Letter","Ll"}, {"Uppercase_Letter","Lu"}, {"Titlecase_Letter","Lt"}, {"Modifier_Letter","Lm"}, {"Other_Letter","Lo"},
    {"Non_Spacing_Mark","Mn"}, {"Spacing_Combining_Mark","Mc"}, {"Enclosing_Mark","Me"}, {"Space_Separator","Zs"}, {"Line_Separator","Zl"}, {"Paragraph_Separator","Zp"}, {"Math_Symbol","Sm"}, {"Currency_Symbol","Sc"}, {"Modifier_Symbol","Sk"}, {"Other_Symbol","So"},
    {"Decimal_Digit_Number","Nd"}, {"Letter_Number","Nl"}, {"Other_Number","No"}, {"Dash_Punctuation","Pd"}, {"Open_Punctuation","Ps"}, {"Close_Punctuation","Pe"}, {"Initial_Punctuation","Pi"}, {"Final_Punctuation","Pf"}, {"Connector_Punctuation","Pc"}, {"Other_Punctuation","Po"}, {"Control","Cc"}, {"Format","Cf"},
    {"d","Nd"}, {"l","Ll"}, {"u","Lu"}, {"s","Space"}, {"w","Word"} };
  for (auto& a : ALIAS) uni[a[0]] = U(a[1]);
  for (auto& p : uni) p.second.norm();
  // ASCII classes by definition
  struct { const char *n, *s; int (*f)(int); } PX[] = { {"Alnum","",isalnum}, {"Alpha","",isalpha}, {"Blank","h",isblank}, {"Cntrl","",iscntrl}, {"Digit","d",isdigit}, {"Graph","",isgraph}, {"Lower","l",islower}, {"Print","",isprint}, {"Punct","",ispunct}, {"Space","s",isspace}, {"Upper","u",isupper}, {"XDigit","x",isxdigit} };
  for (auto& p : PX) {
    Set s;
    for (int i = 0; i < 128; ++i) if (p.f(i)) add(s, i, i);
    s.norm();
    posix_[p.n] = s;
    if (*p.s) posix_[p.s] = s;
    if (!uni.count(p.n)) uni[p.n] = s;
    if (*p.s && !uni.count(p.s)) uni[p.s] = s;
  }
  { Set s = posix_["Alnum"]; add(s, '_', '_'); s.norm(); posix_["Word"] = posix_["w"] = s; }
  { Set s; add(s, 0, 127); posix_["ASCII"] = s; }
  for (auto& p : uni) uni_names.push_back(p.first);
  for (auto& p : posix_) posix_names.push_back(p.first);
}

static std::string enc(int c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xC0 + c / 64); s += static_cast<char>(0x80 + c % 64); }
  else if (c < 0x10000) { s += static_cast<char>(0xE0 + c / 4096); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  else { s += static_cast<char>(0xF0 + c / 262144); s += static_cast<char>(0x80 + c / 4096 % 64); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  return s;
}

static bool table_ok(const char *kind, const std::string& name, const int *t, const Set& want) {
  Ctx& c = ctx();
  if (!t) { c.fail(std::string(kind) + "-missing", name); return false; }
  int last = -1;
  Set got;
  for (; t[1] != 0; t += 2) {
    if (t[0] > t[1] || t[0] <= last || t[1] >= MAX) { c.fail(std::string(kind) + "-order", name + " at " + X(t[0])); return false; }
    add(got, t[0], t[1]);
    last = t[1];
  }
  c.evaluations += MAX;
  got.norm();
  if (got == want) return true;
  for (int i = 0; i < MAX; ++i) if (got[i] != want[i]) { c.fail(std::string(kind) + "-table", name + " U+" + X(i) + " in table: " + S(got[i])); break; }
  return false;
}

// tables, all names, all code points
static void tables() {
  Ctx& c = ctx();
  for (auto& n : uni_names) table_ok("unicode", n, reflex::Unicode::range(n.c_str()), uni[n]);
  for (auto& n : posix_names) table_ok("posix", n, reflex::Posix::range(n.c_str()), posix_[n]);
  struct T : reflex::Unicode::Tables { } t;
  for (auto& p : t.range) if (!uni.count(p.first)) c.fail("unicode-extra", p.first);
  struct P : reflex::Posix::Tables { } q;
  for (auto& p : q.range) if (!posix_.count(p.first)) c.fail("posix-extra", p.first);
  c.count("tables", uni_names.size() + posix_names.size());
}

struct Form { const char *pre, *post; bool neg; };
static const Form FORMS[] = { {"\\p{", "}", false}, {"[\\p{", "}]", false}, {"\\P{", "}", true}, {"\\p{^", "}", true}, {"[^\\p{", "}]", true}, {"[\\P{", "}]", true}, {"[\\p{^", "}]", true}, {"(?:\\p{", "})", false} };

static void check_class(Rng& r, const std::string& name, const Set& want, int form, bool all) {
  Ctx& c = ctx();
  const Form& f = FORMS[form];
  std::string re;
  bool neg = f.neg;
  static const char ESCS[] = "dlusw";
  if (name.size() == 1 && (strchr(ESCS, name[0]) || name[0] == 'h')) {
    char k = name[0];
    bool no_inv = name[0] == 'h';
    switch (form) {
      case 0: case 7: re = std::string("\\") + k; neg = false; break;
      case 1: re = std::string("[\\") + k + "]"; neg = false; break;
      case 2: case 3: if (no_inv) { re = "\\h"; neg = false; } else { re = std::string("\\") + static_cast<char>(toupper(k)); neg = true; } break;
      case 4: re = std::string("[^\\") + k + "]"; neg = true; break;
      default: if (no_inv) { re = "[\\h]"; neg = false; } else { re = std::string("[\\") + static_cast<char>(toupper(k)) + "]"; neg = true; }
    }
  }
  else if (name.size() == 1 && isupper(name[0]) && r.chance(1, 2)) {
    re = form == 2 ? "\\P" + name : form == 4 ? "[^\\p" + name + "]" : form == 5 ? "[\\P" + name + "]" : form == 1 ? "[\\p" + name + "]" : "\\p" + name;
    neg = form == 2 || form == 4 || form == 5;
  }
  else re = f.pre + name + f.post;
  bool lean = r.chance(1, 4);
  reflex::convert_flag_type fl = lean ? reflex::convert_flag::permissive : reflex::convert_flag::none;
  bool inl = r.chance(1, 8);
  std::string src = inl ? "(?u)" + re : re;
  if (!inl) fl |= reflex::convert_flag::unicode;
  std::string h = "\"" + src + "\" flags " + S(fl);
  c.set_note(h);
  std::unique_ptr<reflex::Pattern> p;
  std::string cv;
  try {
    cv = reflex::Matcher::convert(src, fl);
    p.reset(new reflex::Pattern(cv));
  } catch (const std::exception& e) {
    bool empty = true, full = true;
    for (int i = 0; i < MAX; ++i) if (i < 0xD800 || i > 0xDFFF) { if (want[i]) empty = false; else full = false; }
    if (neg ? full : empty) return;
    c.fail("class-rejected", h + ": " + e.what());
    return;
  }
  std::vector<int> cps;
  if (all) { for (int i = 0; i < MAX; ++i) cps.push_back(i); }
  else {
    for (auto& q : want.v) { for (int e : { q.first - 1, q.first, q.second, q.second + 1 }) if (e >= 0 && e < MAX) cps.push_back(e); }
    while (cps.size() > 600) { size_t k = r(cps.size()); cps[k] = cps.back(); cps.pop_back(); }
    for (int k = 0; k < 200; ++k) cps.push_back(r.chance(1, 3) ? r(0x3000) : r(MAX));
    static const int E[] = { 0, 9, 10, 13, 32, 0x7F, 0x80, 0x85, 0xA0, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF };
    for (int e : E) cps.push_back(e);
    for (int i = 0; i < 256; i += 1 + r(3)) cps.push_back(i);
    for (size_t i = cps.size(); i > 1; --i) std::swap(cps[i - 1], cps[r(i)]);
  }
  std::string text;
  std::vector<int> seq;
  for (int cp : cps) {
    if (cp >= 0xD800 && cp <= 0xDFFF) { if (neg || name == "IsHighSurrogates" || name.find("Surrogates") != std::string::npos) continue; }
    // a boundary between characters that no class can span
    seq.push_back(cp);
    text += enc(cp);
  }
  reflex::Matcher m(*p, reflex::Input(text.data(), text.size()));
  size_t at = 0, k = 0, hits = 0;
  auto bad = [&](int cp, bool got) { c.fail("class", h + " U+" + X(cp) + " matched: " + S(got) + (cv.size() < 300 ? " converted " + cv : "")); };
  while (true) {
    bool more = m.find() != 0;
    size_t pos = more ? m.first() : text.size();
    // skipped characters must not be members
    while (k < seq.size() && at < pos) {
      if (want[seq[k]] != neg) { bad(seq[k], false); return; }
      at += enc(seq[k++]).size();
    }
    if (!more) break;
    if (at != pos || k >= seq.size()) { c.fail("class-inside", h + " match inside a character at " + S(pos)); return; }
    std::string e = enc(seq[k]);
    if (want[seq[k]] == neg) { bad(seq[k], true); return; }
    if (m.size() != e.size()) { c.fail("class-length", h + " U+" + X(seq[k]) + " matched " + S(m.size()) + " bytes"); return; }
    at += e.size();
    ++k;
    ++hits;
  }
  c.evaluations += seq.size();
  c.count(all ? "exhaustive_classes" : "sampled_classes");
  if (hits && hits < seq.size()) { c.nontrivial(hash_str(h)); c.sample(h + ": " + S(hits) + " of " + S(seq.size())); }
}

// 8-bit classes, every byte
static void bytes(Rng& r) {
  Ctx& c = ctx();
  std::string name = r.pick(posix_names);
  const Set& want = posix_[name];
  std::string re;
  bool neg;
  if (name.size() == 1) {
    char k = name[0];
    if (k == 'x') return;
    neg = r.chance(1, 2);
    re = std::string("\\") + static_cast<char>(neg ? toupper(k) : k);
    switch (r(3)) { case 0: break; case 1: re = "[" + re + "]"; break; default: re = "[^" + re + "]"; neg = !neg; }
  } else {
    std::string low = name;
    for (auto& ch : low) ch = static_cast<char>(tolower(ch));
    switch (r(9)) {
      case 0: re = "\\p{" + name + "}"; neg = false; break;
      case 1: re = "\\P{" + name + "}"; neg = true; break;
      case 2: re = "\\p{^" + name + "}"; neg = true; break;
      case 3: re = "[[:" + low + ":]]"; neg = false; break;
      case 4: re = "[^[:" + low + ":]]"; neg = true; break;
      case 5: re = "[[:^" + low + ":]]"; neg = true; break;
      case 6: re = "[\\p{" + name + "}]"; neg = false; break;
      case 7: re = "[^\\p{" + name + "}]"; neg = true; break;
      default: re = "[\\P{" + name + "}]"; neg = true; break;
    }
  }
  bool conv = r.chance(1, 2);
  std::string h = std::string(conv ? "converted " : "native ") + re;
  c.set_note(h);
  std::unique_ptr<reflex::Pattern> p;
  std::string cv = re;
  try {
    if (conv) cv = reflex::Matcher::convert(re);
    p.reset(new reflex::Pattern(cv));
  } catch (const std::exception& e) { c.fail("byte-class-rejected", h + ": " + e.what()); return; }
  reflex::Matcher m(*p);
  for (int b = 0; b < 256; ++b) {
    char ch = static_cast<char>(b);
    m.input(reflex::Input(&ch, 1));
    bool got = m.matches() != 0;
    c.evaluations++;
    if (got != (want[b] != neg)) { c.fail("byte-class", h + " = " + cv + " byte " + X(b) + " matched: " + S(got)); return; }
  }
  c.nontrivial(hash_str(h));
  c.count("byte_classes");
}

// names that are not in the data
static void unknown(Rng& r) {
  Ctx& c = ctx();
  bool u = r.chance(1, 2);
  std::string name = r.pick(u ? uni_names : posix_names);
  switch (r(6)) {
    case 0: name.erase(r(name.size()), 1); break;
    case 1: name.insert(r(name.size() + 1), 1, "abcxyzABCXYZ_09"[r(15)]); break;
    case 2: name[r(name.size())] ^= 0x20; break;
    case 3: name += r.pick(u ? uni_names : posix_names); break;
    case 4: name = name.substr(0, 1 + r(name.size())); break;
    default: for (auto& ch : name) ch = static_cast<char>(r.chance(1, 2) ? toupper(ch) : tolower(ch));
  }
  for (char ch : name) if (!isalnum(static_cast<unsigned char>(ch)) && ch != '_' && ch != '-' && ch != '&') return;
  if (name.empty() || (u ? uni : posix_).count(name)) return;
  // bytes: names are not case-folded; POSIX bracket names are lower case
  int form = r(u ? 4 : 6);
  std::string re;
  std::string low;
  for (char ch : name) low += static_cast<char>(tolower(ch));
  switch (form) {
    case 0: re = "\\p{" + name + "}"; break;
    case 1: re = "\\P{" + name + "}"; break;
    case 2: re = "[\\p{" + name + "}]"; break;
    case 3: re = "[^\\P{" + name + "}]"; break;
    default: {
      for (auto& n : posix_names) { std::string l; for (char ch : n) l += static_cast<char>(tolower(ch)); if (l == low) return; }
      re = form == 4 ? "[[:" + low + ":]]" : "[[:^" + low + ":]]";
    }
  }
  bool native = !u && r.chance(1, 2);
  std::string h = re + (u ? " unicode" : native ? " native" : "");
  c.set_note(h);
  c.evaluations++;
  std::string cv;
  try {
    if (native) cv = re;
    else cv = reflex::Matcher::convert(re, u ? reflex::convert_flag::unicode : reflex::convert_flag::none);
    reflex::Pattern p(cv, "r");
  } catch (const reflex::regex_error& e) {
    if (e.pos() > (native ? re : re).size()) c.fail("error-position", h + " at " + S(e.pos()));
    c.nontrivial(hash_str(h));
    c.count("rejected_names");
    return;
  }
  c.fail("unknown-name-accepted", h + " = " + cv);
}

int main(int argc, char **argv) {
  load();
  bool deep = false;
  for (int i = 1; i < argc; ++i) if (std::string(argv[i]) == "--deep") deep = true;
  // every class, shared out over the shards
  bool once = false;
  uint64_t shard = 0, shards = 8;
  for (int i = 1; i + 1 < argc; ++i) { if (std::string(argv[i]) == "--shard") shard = strtoull(argv[i + 1], 0, 0); if (std::string(argv[i]) == "--shards") shards = strtoull(argv[i + 1], 0, 0); }
  return run(argc, argv, [&](Rng& r, uint64_t) {
    if (!once && !ctx().single) {
      once = true;
      for (size_t i = shard; i < uni_names.size(); i += shards) {
        arm(ctx().hang_limit * 2);
        Rng q(hash_str(uni_names[i], ctx().seed));
        check_class(q, uni_names[i], uni[uni_names[i]], 0, true);
        if (deep) for (int f = 1; f < 8; ++f) { arm(ctx().hang_limit * 2); check_class(q, uni_names[i], uni[uni_names[i]], f, true); }
      }
      arm(ctx().hang_limit);
    }
    switch (r(5)) {
      case 0: bytes(r); break;
      case 1: unknown(r); break;
      default: { std::string n = r.pick(uni_names); check_class(r, n, uni[n], r(8), r.chance(1, 60)); }
    }
  }, tables);
}
