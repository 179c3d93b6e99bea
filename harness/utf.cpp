// C11: UTF-8 codecs and regexes of code point ranges.
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>
#include "vp.h"
#include <reflex/matcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/utf8.h>
#include <memory>
#include <vector>
#include <algorithm>
using namespace vp;

static std::string S(long long n) { return std::to_string(n); }
static std::string X(int n) { char b[16]; snprintf(b, sizeof b, "%X", n); return b; }
static const int MAXCP = 0x10FFFF;
static const int NONCHAR = 0x200000;

// reference encoder
static std::string enc(int c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xC0 + c / 64); s += static_cast<char>(0x80 + c % 64); }
  else if (c < 0x10000) { s += static_cast<char>(0xE0 + c / 4096); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  else { s += static_cast<char>(0xF0 + c / 262144); s += static_cast<char>(0x80 + c / 4096 % 64); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  return s;
}

// reference decoder: length of the valid sequence at s[i], 0 if invalid; MUTF-8 NUL and surrogates allowed
static int dec(const std::string& s, size_t i, int& cp) {
  unsigned char c = s[i];
  auto cont = [&](size_t k) { return i + k < s.size() && (static_cast<unsigned char>(s[i + k]) & 0xC0) == 0x80; };
  auto at = [&](size_t k) { return static_cast<unsigned char>(s[i + k]) & 0x3F; };
  if (c < 0x80) { cp = c; return 1; }
  if (c == 0xC0 && i + 1 < s.size() && static_cast<unsigned char>(s[i + 1]) == 0x80) { cp = 0; return 2; }
  if (c >= 0xC2 && c <= 0xDF && cont(1)) { cp = (c & 0x1F) * 64 + at(1); return 2; }
  if (c >= 0xE0 && c <= 0xEF && cont(1) && cont(2)) { cp = (c & 15) * 4096 + at(1) * 64 + at(2); return cp >= 0x800 ? 3 : 0; }
  if (c >= 0xF0 && c <= 0xF4 && cont(1) && cont(2) && cont(3)) { cp = (c & 7) * 262144 + at(1) * 4096 + at(2) * 64 + at(3); return cp >= 0x10000 && cp <= MAXCP ? 4 : 0; }
  return 0;
}

static const int EDGE[] = { 0, 1, 9, 10, 0x1F, 0x20, 0x22, 0x23, 0x2D, 0x2F, 0x5B, 0x5C, 0x5D, 0x5E, 0x7B, 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xFF, 0x100, 0x13F, 0x140, 0x3FF, 0x7BF, 0x7C0, 0x7FE, 0x7FF, 0x800, 0x801, 0x83F, 0x840, 0xFFF, 0x1000, 0x1FFF, 0x2000,
  0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xEFFF, 0xF000, 0xFFBF, 0xFFC0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1003F, 0x10040, 0x10FFF, 0x11000, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0x41000, 0x7FFFF, 0x80000, 0xBFFFF, 0xFFFFF, 0x100000, 0x100FFF, 0x101000, 0x10F000, 0x10FFBF, 0x10FFC0, 0x10FFFE, 0x10FFFF };
static const int NE = sizeof EDGE / sizeof *EDGE;
static int edge(Rng& r) {
  int c;
  switch (r(6)) {
    case 0: c = r(0x110000); break;
    case 1: c = r(0x3000); break;
    case 2: c = r(0x100); break;
    default: c = EDGE[r(NE)] + (r.chance(1, 3) ? r.range(-2, 2) : 0);
  }
  return c < 0 ? 0 : c > MAXCP ? MAXCP : c;
}

static void codepoints() {
  Ctx& c = ctx();
  reflex::Matcher m("(?s:.|\\n)+");
  for (int cp = 0; cp <= MAXCP; ++cp) {
    std::string e = enc(cp);
    char *b = static_cast<char*>(malloc(e.size()));
    size_t n = reflex::utf8(cp, b);
    if (n != e.size() || memcmp(b, e.data(), n)) c.fail("encode", "U+" + X(cp) + " gives " + esc(std::string(b, std::min(n, e.size()))));
    free(b);
    char *z = strdup(e.c_str());
    const char *p = z;
    int d = reflex::utf8(z, &p);
    if (d != cp || p != z + e.size()) c.fail("decode", "U+" + X(cp) + " decodes to " + X(d) + " length " + S(p - z));
    if (reflex::utf8(z) != cp) c.fail("decode", "U+" + X(cp));
    free(z);
    c.evaluations += 3;
  }
  c.count("code_points", MAXCP + 1);
  // beyond the last code point
  for (int k = 0; k < 300; ++k) {
    long long l = k < 64 ? MAXCP + 1 + k : MAXCP + 1 + k * 0x600000LL;
    if (l > 0x7FFFFFFF) break;
    int cp = static_cast<int>(l);

    char b[8] = { 0 };
    size_t n = reflex::utf8(cp, b);
    if (n != 5 || memcmp(b, "\xf8\x88\x80\x80\x80", 5)) c.fail("encode-beyond", X(cp));
    c.evaluations++;
  }
}

static std::string bytes(Rng& r, int n) {
  std::string s;
  static const unsigned char LEAD[] = { 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF };
  while (static_cast<int>(s.size()) < n) {
    switch (r(6)) {
      case 0: s += enc(edge(r)); break;
      case 1: s += static_cast<char>(r(256)); break;
      case 2: s += static_cast<char>(LEAD[r(sizeof LEAD)]); break;
      case 3: { static const unsigned char C[] = { 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF }; s += static_cast<char>(C[r(6)]); break; }
      case 4: { std::string e = enc(edge(r)); s += e.substr(0, 1 + r(e.size())); break; }
      default: s += static_cast<char>(r.range(32, 126));
    }
  }
  return s.substr(0, n);
}

// decoding arbitrary bytes
static void decoding(Rng& r) {
  Ctx& c = ctx();
  std::string s = bytes(r, r.range(1, r.chance(1, 8) ? 300 : 12));
  c.set_note("bytes \"" + esc(s) + "\"");
  int valid = 0, invalid = 0;
  auto check = [&](const char *what, bool ok, const std::string& d) { c.evaluations++; if (!ok) c.fail(what, "\"" + esc(s) + "\" " + d); return ok; };
  // each position, from a text that ends right behind
  for (size_t i = 0; i < s.size(); ++i) {
    size_t e = std::min(s.size(), i + 1 + r(6));
    std::string t = s.substr(i, e - i);
    char *z = static_cast<char*>(malloc(t.size() + 1));
    memcpy(z, t.data(), t.size());
    z[t.size()] = 0;
    const char *p = z;
    int d = reflex::utf8(z, &p);
    int cp, n = dec(t, 0, cp);
    size_t used = p - z;
    free(z);
    if (n) { ++valid; check("decode-valid", d == cp && used == static_cast<size_t>(n), "at " + S(i) + " gives " + X(d) + " used " + S(used)); }
    else {
      ++invalid;
      bool ok = d == NONCHAR && used >= 1 && used <= t.size();
      for (size_t k = 1; ok && k < used; ++k) if ((static_cast<unsigned char>(t[k]) & 0xC0) != 0x80) ok = false;
      check("decode-invalid", ok, "at " + S(i) + " of \"" + esc(t) + "\" gives " + X(d) + " used " + S(used));
    }
  }
  // whole string, without terminator
  {
    char *z = static_cast<char*>(malloc(s.size()));
    memcpy(z, s.data(), s.size());
    std::wstring w = reflex::wcs(z, s.size());
    free(z);
    std::wstring w2 = reflex::wcs(s);
    check("wcs", w == w2, "wcs(s,n) and wcs(string) differ");
    // walk: valid characters are kept in order, invalid bytes give NONCHAR
    size_t i = 0, k = 0;
    bool ok = true;
    while (i < s.size() && ok) {
      int cp, n = dec(s, i, cp);
      if (n) { ok = k < w.size() && static_cast<int>(w[k]) == cp; ++k; i += n; }
      else {
        // one or more NONCHAR for the bytes up to the next valid lead
        size_t j = i + 1;
        int x;
        while (j < s.size() && !dec(s, j, x)) ++j;
        size_t bad = 0;
        while (k < w.size() && w[k] == NONCHAR) { ++k; ++bad; }
        ok = bad >= 1 && bad <= j - i;
        i = j;
      }
    }
    check("wcs-content", ok && k == w.size(), "decodes to " + S(w.size()) + " wide characters, wrong at byte " + S(i));
    // back to UTF-8
    if (!invalid) {
      std::string back;
      for (wchar_t ch : w) { char b[8]; back.append(b, reflex::utf8(static_cast<int>(ch), b)); }
      size_t i = 0; std::string want;
      while (i < s.size()) { int cp, n = dec(s, i, cp); if (!n) break; want += enc(cp); i += n; }
      if (i == s.size()) check("wcs-back", back == want, "");
    }
  }
  // through a matcher
  {
    reflex::Matcher m("(?s:.|\\n)+", reflex::Input(s.data(), s.size()));
    std::string got;
    while (m.find()) {
      std::string t = m.str();
      got += t;
      check("matcher-wstr", m.wstr() == reflex::wcs(t), "wstr");
      check("matcher-wpair", m.wpair().second == reflex::wcs(t), "wpair");
      int cp, n = dec(t, 0, cp);
      int d = m.wchr();
      check("matcher-wchr", d == (n ? cp : NONCHAR), "wchr " + X(d));
      size_t cnt = 0;
      for (unsigned char ch : t) if ((ch & 0xC0) != 0x80) ++cnt;
      check("matcher-wsize", m.wsize() == cnt, "wsize " + S(m.wsize()) + " expected " + S(cnt));
    }
    check("matcher-text", got == s, "");
  }
  c.count("valid_sequences", valid);
  c.count("invalid_sequences", invalid);
  if (valid && invalid) c.nontrivial(hash_str(s));
}

struct PCRE {
  pcre2_code *code;
  pcre2_match_data *md;
  PCRE(const std::string& re) : code(0), md(0) {
    int err; PCRE2_SIZE off;
    std::string w = "\\A(?:" + re + ")\\z";
    code = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(w.data()), w.size(), PCRE2_DOTALL | PCRE2_NEVER_UTF, &err, &off, nullptr);
    if (code) md = pcre2_match_data_create_from_pattern(code, nullptr);
  }
  ~PCRE() { if (md) pcre2_match_data_free(md); if (code) pcre2_code_free(code); }
  bool matches(const std::string& s) { return pcre2_match(code, reinterpret_cast<PCRE2_SPTR>(s.data()), s.size(), 0, 0, md, nullptr) >= 0; }
};

struct Tester {
  std::unique_ptr<reflex::Pattern> p;
  std::unique_ptr<reflex::Matcher> m;
  std::unique_ptr<PCRE> x;
  bool matches(const std::string& s, int& which) {
    which = 0;
    bool a = false, b = false;
    if (m) { m->input(reflex::Input(s.data(), s.size())); a = m->matches() != 0; which = 1; }
    if (x) { b = x->matches(s); which |= 2; }
    if (m && x && a != b) which |= 4;
    return m ? a : b;
  }
};

static std::vector<std::string> invalid_forms(int cp) {
  std::vector<std::string> v;
  std::string e = enc(cp);
  if (e.size() > 1) { v.push_back(e.substr(0, e.size() - 1)); v.push_back(e.substr(1)); std::string t = e; t[t.size() - 1] = 'A'; v.push_back(t); t = e; t[t.size() - 1] = '\xC3'; v.push_back(t); }
  v.push_back(e + "\x80");
  v.push_back(e + e);
  // overlong
  if (cp < 0x80) { v.push_back(std::string() + static_cast<char>(0xC0 | cp >> 6) + static_cast<char>(0x80 | (cp & 63))); }
  if (cp < 0x800) { v.push_back(std::string() + static_cast<char>(0xE0) + static_cast<char>(0x80 | cp >> 6) + static_cast<char>(0x80 | (cp & 63))); }
  if (cp < 0x10000) { v.push_back(std::string() + static_cast<char>(0xF0) + static_cast<char>(0x80 | cp >> 12) + static_cast<char>(0x80 | (cp >> 6 & 63)) + static_cast<char>(0x80 | (cp & 63))); }
  return v;
}

static void ranges(Rng& r) {
  Ctx& c = ctx();
  int a = edge(r), b = edge(r);
  if (r.chance(1, 3)) b = std::min(MAXCP, a + static_cast<int>(r(r.chance(1, 2) ? 4 : 300)));
  if (a > b) { if (r.chance(1, 10)) b = a; else std::swap(a, b); }
  static const int ESC[] = { 'x', 'x', '0', '\0' };
  int es = ESC[r(4)];
  bool strict = !r.chance(1, 3);
  bool noncap = r.chance(1, 2);
  bool lat = b <= 0xFF && r.chance(1, 3);
  bool brackets = r.chance(2, 3);
  // a reversed range is the single value
  int bb = r.chance(1, 12) ? (a > 0 ? a - 1 : a) : b;
  if (bb <= a) b = a;
  std::string re = lat ? reflex::latin1(a, bb, es, brackets) : reflex::utf8(a, bb, es, noncap ? "(?:" : "(", strict);
  if (lat && !brackets) { if (a == b) re = re; else re = "[" + re + "]"; }
  std::string h = std::string(lat ? "latin1" : strict ? "utf8" : "lean") + "(" + X(a) + "," + X(bb) + "," + std::string(1, es ? static_cast<char>(es) : '_') + (lat && brackets ? ",[]" : "") + (noncap ? ",(?:" : "") + ")";
  c.set_note(h + " = " + re);
  Tester t;
  if (es != '\0') {
    try { t.p.reset(new reflex::Pattern(re)); } catch (const std::exception& e) { c.fail("range-invalid-regex", h + " = " + re + ": " + e.what()); return; }
    t.m.reset(new reflex::Matcher(*t.p));
  }
  if (es != '0' && (es == 'x' || noncap || lat)) {
    t.x.reset(new PCRE(re));
    if (!t.x->code) { c.fail("range-invalid-regex", h + " = " + re + ": PCRE2 rejects it"); return; }
  }
  if (!t.m && !t.x) return;
  int in = 0, out = 0;
  auto test = [&](const std::string& s, bool want, const std::string& what) {
    int w;
    bool got = t.matches(s, w);
    c.evaluations++;
    want ? ++in : ++out;
    if (w & 4) { c.fail("range-engines", h + " = " + re + " on \"" + esc(s) + "\": RE/flex says " + S(got)); return false; }
    if (got != want) { c.fail(lat ? "latin1-range" : "utf8-range", h + " = " + re + " " + what + " \"" + esc(s) + "\" matched: " + S(got)); return false; }
    return true;
  };
  if (lat) {
    for (int k = 0; k < 256; ++k) if (!test(std::string(1, static_cast<char>(k)), k >= a && k <= b, "byte")) return;
    if (!test(std::string(2, static_cast<char>(a)), false, "two bytes")) return;
    if (!test("", false, "empty")) return;
  } else {
    std::vector<int> cps;
    for (int d = -2; d <= 2; ++d) { cps.push_back(a + d); cps.push_back(b + d); }
    for (int k = 0; k < NE; ++k) cps.push_back(EDGE[k]);
    for (int k = 0; k < 60; ++k) { cps.push_back(edge(r)); cps.push_back(a + r(b - a + 1)); }
    // one byte of an end changed
    for (int k = 0; k < 24; ++k) { std::string e = enc(r.chance(1, 2) ? a : b); size_t i = r(e.size()); e[i] = static_cast<char>(r.chance(1, 2) ? (e[i] + r.range(-1, 1)) : i ? 0x80 + r(64) : r(256)); int cp; int n = dec(e, 0, cp); if (n == static_cast<int>(e.size()) && enc(cp) == e) cps.push_back(cp); }
    for (int cp : cps) {
      if (cp < 0 || cp > MAXCP) continue;
      if (!strict && cp == 10 && 0) continue;
      if (!test(enc(cp), cp >= a && cp <= b, "U+" + X(cp))) return;
    }
    if (strict)
      for (int k = 0; k < 12; ++k) {
        int cp = r.chance(1, 2) ? edge(r) : a + static_cast<int>(r(b - a + 1));
        for (auto& s : invalid_forms(cp)) {
          int x, n = dec(s, 0, x);
          bool valid = n == static_cast<int>(s.size()) && enc(x) == s;
          if (!test(s, valid && x >= a && x <= b, "form of U+" + X(cp))) return;
        }
      }
    if (!test("", false, "empty")) return;
  }
  if (in && out) { c.nontrivial(hash_str(h)); c.sample(h + " = " + re); }
  c.count(lat ? "latin1_ranges" : strict ? "strict_ranges" : "lean_ranges");
}

// bracket lists of code points in converted regexes
static void lists(Rng& r) {
  Ctx& c = ctx();
  std::vector<std::pair<int, int> > v;
  bool neg = r.chance(1, 3);
  std::string body;
  int n = r.range(1, 6);
  for (int k = 0; k < n; ++k) {
    int a = edge(r), b = r.chance(1, 3) ? a : edge(r);
    if (r.chance(1, 2)) b = std::min(MAXCP, a + static_cast<int>(r(40)));
    if (a > b) std::swap(a, b);
    // surrogates cannot be written
    if (a >= 0xD800 && a <= 0xDFFF) a = 0xE000;
    if (b >= 0xD800 && b <= 0xDFFF) b = 0xD7FF;
    if (a > b) continue;
    v.push_back(std::make_pair(a, b));
    auto w = [&](int cp) {
      if (cp > 0xA0 && r.chance(1, 2)) return enc(cp);
      if (cp >= '0' && cp <= 'z' && isalnum(cp) && r.chance(1, 2)) return std::string(1, static_cast<char>(cp));
      return (r.chance(1, 2) ? "\\x{" : "\\u{") + X(cp) + "}";
    };
    body += w(a);
    if (b > a) body += "-" + w(b);
  }
  if (v.empty()) return;
  reflex::convert_flag_type fl = reflex::convert_flag::unicode;
  bool lean = r.chance(1, 4);
  if (lean) fl |= reflex::convert_flag::permissive;
  std::string re = std::string(neg ? "[^" : "[") + body + "]";
  c.set_note("list " + re);
  std::string cv;
  Tester t;
  try {
    cv = reflex::Matcher::convert(re, fl);
    t.p.reset(new reflex::Pattern(cv));
    t.m.reset(new reflex::Matcher(*t.p));
  } catch (const std::exception& e) {
    // rejected if nothing is left
    std::vector<std::pair<int, int> > o = v;
    o.push_back(std::make_pair(0xD800, 0xDFFF));
    std::sort(o.begin(), o.end());
    int next = 0;
    for (auto& p : o) if (p.first <= next) next = std::max(next, p.second + 1);
    if (neg && next > MAXCP) return;
    c.fail("list-rejected", esc(re) + ": " + e.what());
    return;
  }
  int in = 0, out = 0;
  std::vector<int> cps;
  for (auto& p : v) for (int d = -1; d <= 1; ++d) { cps.push_back(p.first + d); cps.push_back(p.second + d); }
  for (int k = 0; k < NE; ++k) cps.push_back(EDGE[k]);
  for (int k = 0; k < 40; ++k) cps.push_back(edge(r));
  for (int cp : cps) {
    if (cp < 0 || cp > MAXCP || (cp >= 0xD800 && cp <= 0xDFFF)) continue;
    bool want = neg;
    for (auto& p : v) if (cp >= p.first && cp <= p.second) want = !neg;
    int w;
    bool got = t.matches(enc(cp), w);
    c.evaluations++;
    want ? ++in : ++out;
    if (got != want) { c.fail("list", esc(re) + " = " + cv + " U+" + X(cp) + " matched: " + S(got)); return; }
  }
  if (in && out) c.nontrivial(hash_str(re + S(fl)));
  c.count("lists");
}

int main(int argc, char **argv) {
  return run(argc, argv, [&](Rng& r, uint64_t) {
    switch (r(5)) {
      case 0: case 1: ranges(r); break;
      case 2: lists(r); break;
      default: decoding(r);
    }
  }, codepoints);
}
