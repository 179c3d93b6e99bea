// C08: random histories of matcher operations against a character-stream model (--mode api)
// C07: positions of every match against counting in the input (--mode pos)
#include "rx.h"
#include "deliver.h"
using namespace vp;
using rx::Pat;
typedef reflex::Matcher RM;

static std::string S(size_t n) { return std::to_string(n); }

// reference UTF-8 decoder for valid text; -1 when the sequence at p is not a valid encoding
static int ref_decode(const std::string& s, size_t p, size_t& len) {
  unsigned char c = s[p];
  len = 1;
  if (c < 0x80) return c;
  int n = c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : 0;
  if (n == 0 || p + n >= s.size()) return -1;
  int v = n == 1 ? c & 0x1F : n == 2 ? c & 0x0F : c & 0x07;
  for (int i = 1; i <= n; ++i) {
    unsigned char d = s[p + i];
    if ((d & 0xC0) != 0x80) return -1;
    v = v << 6 | (d & 0x3F);
  }
  static const int lo[] = { 0, 0x80, 0x800, 0x10000 };
  if (v < lo[n] || v > 0x10FFFF) return -1;
  len = n + 1;
  return v;
}
static std::string ref_encode(int c) {
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xC0 | c >> 6); s += static_cast<char>(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += static_cast<char>(0xE0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
  else { s += static_cast<char>(0xF0 | c >> 18); s += static_cast<char>(0x80 | (c >> 12 & 63)); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
  return s;
}

static std::string gen_text(Rng& r, const Pat& p, const std::string& alpha) {
  std::string s;
  size_t target = r.chance(1, 5) ? r.range(2000, 40000) : r.range(0, 200);
  static const char *u[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xce\xb1", "\xef\xbf\xbd" };
  while (s.size() < target) {
    switch (r(9)) {
      case 0: case 1: case 2: rx::sample(r, p.alts[r(static_cast<uint32_t>(p.alts.size()))].get(), s); break;
      case 3: s += alpha[r(static_cast<uint32_t>(alpha.size()))]; break;
      case 4: s += r.chance(1, 4) ? "\r\n" : "\n"; break;
      case 5: s += '\t'; break;
      case 6: s += u[r(5)]; break;
      case 7: s += static_cast<char>(r.range(32, 126)); break;
      default: s += r.chance(1, 8) ? static_cast<char>(r.range(0, 255)) : ' ';
    }
    if (target > 2000 && r.chance(1, 40)) s += std::string(r.range(1, 200), static_cast<char>('a' + r(3)));
  }
  return s;
}

static void api_case(Rng& r) {
  Ctx& c = ctx();
  rx::Gen g(r);
  g.pick_alphabet();
  g.maxdepth = r.range(0, 2);
  Pat p = rx::gen_pattern(r, g, 30);
  reflex::Pattern pat(p.regex, p.opts + "r");
  rx::NFA nfa(p.alts);
  for (int rep = 0; rep < 6; ++rep) {
    std::string in = gen_text(r, p, g.alpha);
    dl::Source<RM> src;
    int kind = r(dl::Source<RM>::KINDS);
    if (!src.make(pat, in, kind, r)) continue;
    RM& m = *src.m;
    std::string st = in;          // the stream: consumed part (editable by unput) and the rest
    size_t pos = 0;               // next character
    bool have = false;            // the text below is defined
    size_t tb = 0, te = 0;        // text [tb,te) of st
    bool more = false;            // more() pending
    bool shifted = false;         // offsets are meaningless after characters were put back
    bool bob = true;
    int skipped_more = 0;
    std::string log;
    std::string base = "regex=\"" + esc(p.regex) + "\" opts=\"" + p.opts + "\" via=" + src.how + " input=\"" + esc(in, 300) + "\" ops:";
    c.set_note(base);
    int nops = r.range(5, 60);
    uint64_t h = hash_str(p.regex + "\1" + in + src.how);
    size_t tokens = 0, kinds = 0;
    for (int op = 0; op < nops; ++op) {
      int k = r(26);
      std::string why;
      #define BAD(msg) do { why = msg; goto bad; } while (0)
      c.evaluations++;
      size_t n = st.size();
      h = h * 31 + k;
      kinds |= 1u << k;
      if (k < 7) {
        // scan
        size_t len;
        int acc = nfa.longest(st.data(), n, pos, len);
        if (len == 0) acc = 0;
        if (acc == 0 && more) { ++skipped_more; continue; }
        log += " scan"; c.set_note(base + log);
        size_t got = m.scan();
        if (got != static_cast<size_t>(acc)) BAD("scan()=" + S(got) + " expected " + S(acc));
        if (acc) { tb = more ? tb : pos; te = pos + len; pos = te; have = true; ++tokens; bob = false; }
        else have = false;
        more = false;
      } else if (k < 10) {
        // find
        if (more) continue;
        log += " find"; c.set_note(base + log);
        size_t q = pos, len = 0;
        int acc = 0;
        for (; q < n; ++q) { acc = nfa.longest(st.data(), n, q, len); if (acc && len) break; acc = 0; }
        size_t got = m.find();
        if (got != static_cast<size_t>(acc)) BAD("find()=" + S(got) + " expected " + S(acc));
        if (acc) { tb = q; te = q + len; pos = te; have = true; ++tokens; }
        else { pos = n; have = false; }
        bob = false;
      } else if (k < 13) {
        log += " input"; c.set_note(base + log);
        int got = m.input();
        int want = pos < n ? static_cast<unsigned char>(st[pos]) : EOF;
        if (got != want) BAD("input()=" + std::to_string(got) + " expected " + std::to_string(want));
        if (pos < n) ++pos;
        bob = false;
        // a text that was extended by more() is not continued behind a character read in between
        more = false;
      } else if (k == 13) {
        log += " winput"; c.set_note(base + log);
        size_t len = 1;
        int want = pos < n ? ref_decode(st, pos, len) : EOF;
        if (pos < n && want < 0) continue;      // malformed: covered by robustness checks only
        int got = m.winput();
        if (got != want) BAD("winput()=" + std::to_string(got) + " expected " + std::to_string(want));
        if (pos < n) pos += len;
        bob = false; more = false;
      } else if (k < 16) {
        log += " peek"; c.set_note(base + log);
        int got = m.peek();
        int want = pos < n ? static_cast<unsigned char>(st[pos]) : EOF;
        if (got != want) BAD("peek()=" + std::to_string(got) + " expected " + std::to_string(want));
      } else if (k == 16) {
        char ch = r.chance(1, 2) ? g.alpha[r(static_cast<uint32_t>(g.alpha.size()))] : static_cast<char>(r.range(1, 255));
        if (pos == 0 && kind == 8) continue;    // documented: not honoured in place before reading
        log += " unput(" + esc(std::string(1, ch)) + ")"; c.set_note(base + log);
        m.unput(ch);
        if (pos > 0) st[--pos] = ch; else st.insert(0, 1, ch);
        have = false; shifted = true; more = false;
      } else if (k == 17) {
        static const int cps[] = { 'a', 'b', 0xE9, 0x20AC, 0x1F600, 0x3B1 };
        int ch = cps[r(6)];
        std::string e = ref_encode(ch);
        if (pos < e.size() && kind == 8) continue;
        if (pos < e.size() && pos > 0) continue;
        log += " wunput(" + std::to_string(ch) + ")"; c.set_note(base + log);
        m.wunput(ch);
        if (pos >= e.size()) { pos -= e.size(); st.replace(pos, e.size(), e); } else st.insert(0, e);
        have = false; shifted = true; more = false;
      } else if (k == 18) {
        char ch = r.chance(3, 4) && pos < n ? st[pos + r(static_cast<uint32_t>(n - pos < 50 ? n - pos : 50))] : static_cast<char>(r.range(1, 127));
        if (ch == 0 || static_cast<unsigned char>(ch) >= 0x80) ch = ' ';
        log += " skip(" + esc(std::string(1, ch)) + ")"; c.set_note(base + log);
        bool got = m.skip(ch);
        size_t q = st.find(ch, pos);
        bool want = q != std::string::npos;
        if (got != want) BAD("skip()=" + S(got) + " expected " + S(want));
        pos = want ? q + 1 : n;
        if (m.size() != 0) BAD("text not empty after skip");
        have = false; bob = false; more = false;
      } else if (k == 19) {
        std::string d;
        if (r.chance(3, 4) && pos < n) { size_t o = pos + r(static_cast<uint32_t>(n - pos < 80 ? n - pos : 80)); d = st.substr(o, r.range(1, 5)); }
        else d = "ab";
        if (r.chance(1, 3)) d += d;
        if (d.find('\0') != std::string::npos) continue;
        bool wide = false;
        int cp = 0;
        if (r.chance(1, 4)) { size_t l; cp = ref_decode(d, 0, l); if (cp > 0) { d = d.substr(0, l); wide = true; } }
        log += std::string(wide ? " wskip(" : " skip(\"") + esc(d) + "\")"; c.set_note(base + log);
        bool got = wide ? m.skip(static_cast<wchar_t>(cp)) : m.skip(d.c_str());
        size_t q = st.find(d, pos);
        bool want = q != std::string::npos;
        if (got != want) BAD("skip(string)=" + S(got) + " expected " + S(want));
        pos = want ? q + d.size() : n;
        if (m.size() != 0) BAD("text not empty after skip");
        have = false; bob = false; more = false;
      } else if (k == 20) {
        if (!have || te != pos) continue;
        size_t l = r(static_cast<uint32_t>(te - tb + 2));
        log += " less(" + S(l) + ")"; c.set_note(base + log);
        m.less(l);
        if (l < te - tb) { te = tb + l; pos = te; more = false; }   // less(n) with n >= size() does nothing
      } else if (k == 21) {
        if (!have || te != pos) continue;
        log += " more"; c.set_note(base + log);
        m.more();
        more = true;
        if (te == tb) more = false;
      } else if (k == 22) {
        log += " text"; c.set_note(base + log);
        const char *t = m.text();
        if (have && (strlen(t) != strnlen(st.data() + tb, te - tb) || memcmp(t, st.data() + tb, strlen(t)) != 0)) BAD("text()=\"" + esc(t, 80) + "\" expected \"" + esc(st.substr(tb, te - tb), 80) + "\"");
      } else if (k == 23) {
        if (have) {
          std::string w = st.substr(tb, te - tb);
          log += " str"; c.set_note(base + log);
          if (m.str() != w || m.size() != w.size() || std::string(m.begin(), m.end()) != w || !(m == w) || m != w || m.pair().second != w) BAD("str()=\"" + esc(m.str(), 80) + "\" expected \"" + esc(w, 80) + "\"");
          if (m[0].second != w.size()) BAD("[0].second");
          std::wstring ww;
          bool valid = true;
          for (size_t i = 0; i < w.size() && valid; ) { size_t l; int cp = ref_decode(w, i, l); if (cp < 0) valid = false; else ww += static_cast<wchar_t>(cp); i += l; }
          if (valid && (m.wstr() != ww || m.wsize() != ww.size() || m.wpair().second != ww)) BAD("wstr()/wsize()");
          if (!w.empty() && m.chr() != w[0]) BAD("chr()");
          if (valid && !ww.empty() && m.wchr() != static_cast<int>(ww[0])) BAD("wchr()");
        }
      } else if (k == 24) {
        log += " at_end"; c.set_note(base + log);
        bool got = m.at_end();
        if (got != (pos == n)) BAD("at_end()=" + S(got) + " with " + S(n - pos) + " characters left");
      } else if (r.chance(1, 6)) {
        log += " rest"; c.set_note(base + log);
        const char *t = m.rest();
        std::string w = st.substr(pos);
        if (m.size() != w.size() || m.str() != w || strlen(t) != strlen(w.c_str())) BAD("rest() size " + S(m.size()) + " expected " + S(w.size()));
        tb = pos; te = pos = n; have = true; bob = false; more = false;
      } else if (r.chance(1, 4)) {
        size_t b = r.chance(1, 3) ? 0 : r.range(1, 100);
        if (kind >= 1 && kind <= 4 && b == 0) continue;
        log += " buffer(" + S(b) + ")"; c.set_note(base + log);
        if (b == 0 && kind >= 9) continue;
        m.buffer(b);
      }
      // after every operation
      if (have && !more) {
        if (m.size() != te - tb) BAD("size()=" + S(m.size()) + " expected " + S(te - tb));
        if (!shifted && m.first() != tb) BAD("first()=" + S(m.first()) + " expected " + S(tb));
        if (!shifted && m.last() != te) BAD("last()=" + S(m.last()) + " expected " + S(te));
      }
      continue;
    bad:
      c.fail("api-mismatch:" + why.substr(0, why.find_first_of("(= ")), base + log + " => " + why);
      return;
    }
    // drain: what is left comes out unchanged
    std::string left;
    for (int ch; (ch = m.input()) != EOF; ) { left += static_cast<char>(ch); if (left.size() > st.size()) break; }
    c.evaluations++;
    if (left != st.substr(pos)) { c.fail("api-drain", base + log + " => remaining \"" + esc(left, 100) + "\" expected \"" + esc(st.substr(pos), 100) + "\""); return; }
    c.count("tokens", tokens);
    c.count("operations", nops);
    if (tokens >= 1 && __builtin_popcount(kinds) >= 5) { c.nontrivial(h); if (in.size() < 60) c.sample(base + log); }
  }
}

// ------------------------------------------------------------------ positions
struct PosModel {
  const std::string& s; int tab; size_t lineadd;
  size_t bol(size_t p) const { size_t q = p ? s.rfind('\n', p - 1) : std::string::npos; return q == std::string::npos ? 0 : q + 1; }
  size_t eol(size_t p) const { size_t q = s.find('\n', p); return q == std::string::npos ? s.size() : q; }
  size_t cols(size_t a, size_t b, size_t k = 0) const {
    for (size_t i = a; i < b; ++i) { unsigned char c = s[i]; if (c == '\t') k = k / tab * tab + tab; else if ((c & 0xC0) != 0x80) ++k; }
    return k;
  }
};

// records what the event handler sees when the buffer is shifted
struct ShiftLog : public reflex::AbstractMatcher::Handler {
  const std::string *in; size_t next, events; std::string why;
  ShiftLog(const std::string *in) : in(in), next(0), events(0) { }
  virtual void operator()(reflex::AbstractMatcher&, const char *buf, size_t len, size_t num) {
    ++events;
    if (num < next || num + len > in->size()) why = "shift handler called with " + S(len) + " bytes at " + S(num) + " after " + S(next);
    else if (num != next) why = "shift handler skipped from " + S(next) + " to " + S(num);
    else if (memcmp(buf, in->data() + num, len) != 0) why = "shift handler text differs at " + S(num);
    else if (len > 0 && (*in)[num + len - 1] != '\n') why = "shift handler text does not end at a line";
    next = num + len;
  }
};

static void pos_case(Rng& r) {
  Ctx& c = ctx();
  rx::Gen g(r);
  Pat p;
  std::string opts = "r";
  if (r.chance(1, 2)) {
    // token shapes with newlines, tabs and multi-byte characters
    static const char *shapes[] = { "[a-z]+|[0-9]+|[ \\t]+|\\n|\\r|[^a-z0-9 \\t\\n\\r]", "[^\\n]+|\\n", "[a-z]+(\\n[a-z]+)*|\\n+|.", "\\w+|\\W", "[\\x80-\\xff]+|\\t+|\\n[ \\t]*|.|\\n", "(.|\\n){1,7}", "[ab\\t\\n]+|.", "[a-c]+|\\n|\\t" };
    p.regex = shapes[r(8)];
    p.w = 1;
    p.alts.push_back(rx::str("ab"));
    p.alts.push_back(rx::str("abc\n"));
    p.alts.push_back(rx::str("\t"));
  } else {
    g.pick_alphabet();
    g.alpha += "\n\t";
    p = rx::gen_pattern(r, g, 30, false);
    opts = p.opts + "r";
  }
  reflex::Pattern pat(p.regex, opts);
  for (int rep = 0; rep < 5; ++rep) {
    std::string in = gen_text(r, p, g.alpha);
    if (r.chance(1, 8)) while (in.size() < 30000) in += in.empty() ? "a\n" : in;   // many lines
    static const int tabs[] = { 8, 1, 2, 4 };
    int tab = tabs[r(4)];
    std::string mo = "T=" + std::to_string(tab);
    dl::Source<RM> src;
    int kind = r(dl::Source<RM>::KINDS);
    if (!src.make(pat, in, kind, r, mo.c_str())) continue;
    RM& m = *src.m;
    if (r.chance(1, 4)) { tab = tabs[r(4)]; m.tabs(static_cast<char>(tab)); }
    ShiftLog shifted(&in);
    bool handler = r.chance(1, 3);
    if (handler) m.set_handler(&shifted);
    bool find = r.chance(1, 2);
    int density = r.range(1, 4);          // how often positions are queried
    PosModel pm = { in, tab, 0 };
    std::string base = "regex=\"" + esc(p.regex) + "\" opts=\"" + opts + "\" tab=" + S(tab) + " via=" + src.how + (find ? " find" : " scan") + " input=\"" + esc(in, 300) + "\"";
    c.set_note(base);
    size_t matches = 0, checked = 0, shifts = 0;
    size_t end = 0;
    size_t linefrom = 0; long lineshift = 0;
    for (size_t guard = 0; guard < in.size() + 3; ++guard) {
      size_t got = find ? m.find() : m.scan();
      if (!got) {
        if (m.at_end()) break;
        if (find) { c.fail("pos-stopped", base); return; }
        m.input();
        end = m.last() > end ? m.last() : end;
        if (r.chance(1, 6)) { if (m.skip('\n')) { } }
        continue;
      }
      ++matches;
      if (m.first() > 2 * 4096) ++shifts;
      size_t f = m.first(), l = m.last();
      std::string why;
      #undef BAD
      #define BAD(x) do { why = x; goto bad; } while (0)
      c.evaluations++;
      if (!shifted.why.empty()) BAD(shifted.why);
      if (f < end || l != f + m.size() || l > in.size()) BAD("offsets " + S(f) + ".." + S(l));
      if (memcmp(m.begin(), in.data() + f, l - f) != 0) BAD("text differs from input at first()=" + S(f));
      end = l;
      {
        size_t ln = 1 + static_cast<size_t>(std::count(in.begin(), in.begin() + f, '\n')) + lineshift;
        size_t nl = static_cast<size_t>(std::count(in.begin() + f, in.begin() + l, '\n'));
        size_t b = pm.bol(f);
        bool longline = f - b > 3800 || pm.eol(l) - b > 3800;
        if (r(4) < static_cast<uint32_t>(density)) {
          ++checked;
          for (int q = r.range(1, 5); q > 0; --q) {
            c.evaluations++;
            switch (r(15)) {
              case 13:
                if (!longline) {
                  reflex::AbstractMatcher::Context x = m.before();
                  if (x.num + x.len != b || memcmp(x.buf, in.data() + x.num, x.len) != 0) BAD("before() " + S(x.num) + "+" + S(x.len) + " expected to end at " + S(b));
                  if (handler && x.num != shifted.next) BAD("before().num=" + S(x.num) + " but shifted out " + S(shifted.next));
                }
                break;
              case 14: {
                bool nl1 = l > 0 && in[l - 1] == '\n';
                if (l > f && m.at_bol() != nl1) BAD("at_bol()=" + S(m.at_bol()) + " at " + S(l));
                if (l > f && m.at_bob()) BAD("at_bob() at " + S(l));
                if (m.hit_end() && l != in.size()) BAD("hit_end() at " + S(l));
                break;
              }
              case 0: if (m.lineno() != ln) BAD("lineno()=" + S(m.lineno()) + " expected " + S(ln) + " at " + S(f)); break;
              case 1: if (m.lines() != nl + 1) BAD("lines()=" + S(m.lines()) + " expected " + S(nl + 1) + " at " + S(f)); break;
              case 2: if (m.lineno_end() != ln + nl) BAD("lineno_end()=" + S(m.lineno_end()) + " expected " + S(ln + nl) + " at " + S(f)); break;
              case 3: case 4: if (!longline && m.columno() != pm.cols(b, f)) BAD("columno()=" + S(m.columno()) + " expected " + S(pm.cols(b, f)) + " at " + S(f)); break;
              case 5:
                if (!longline && nl == 0 && in.substr(f, l - f).find('\r') == std::string::npos) {
                  size_t k = pm.cols(b, f), w = pm.cols(f, l, k) - k;
                  if (m.columns() != w) BAD("columns()=" + S(m.columns()) + " expected " + S(w) + " at " + S(f));
                }
                break;
              case 6:
                if (!longline && l > f) {
                  size_t lb = pm.bol(l), k = pm.cols(lb, l);
                  size_t w = k > 0 ? k - 1 : 0;
                  if (m.columno_end() != w) BAD("columno_end()=" + S(m.columno_end()) + " expected " + S(w) + " at " + S(f));
                }
                break;
              case 7: {
                size_t w = 0;
                for (size_t i = f; i < l; ++i) w += (in[i] & 0xC0) != 0x80;
                if (m.wsize() != w) BAD("wsize()=" + S(m.wsize()) + " expected " + S(w));
                break;
              }
              case 8: if (!longline && m.border() != f - b) BAD("border()=" + S(m.border()) + " expected " + S(f - b) + " at " + S(f)); break;
              case 9:
                if (!longline) {
                  std::string w = in.substr(b, pm.eol(l) - b), x = m.line();
                  if (x != w) BAD("line()=\"" + esc(x, 100) + "\" expected \"" + esc(w, 100) + "\" at " + S(f));
                }
                break;
              case 10:
                if (!longline) {
                  bool incl = r.chance(1, 2);
                  size_t e = pm.eol(l);
                  bool nlend = e < in.size();
                  const char *ep = m.eol(incl);
                  const char *bp = m.bol();
                  std::string w = in.substr(b, e - b + (incl && nlend ? 1 : 0)), x(bp, ep - bp);
                  if (x != w && std::string(x.c_str()) != w.substr(0, strlen(x.c_str()))) BAD("bol..eol \"" + esc(x, 100) + "\" expected \"" + esc(w, 100) + "\"");
                  if (x.size() != w.size()) BAD("eol-bol=" + S(x.size()) + " expected " + S(w.size()));
                }
                break;
              case 11: if (m.first() != f || m.last() != l) BAD("first() moved to " + S(m.first()) + " from " + S(f)); (void)m.text(); break;
              default: if (m.str() != in.substr(f, l - f)) BAD("str() changed"); break;
            }
          }
          if (r.chance(1, 40) && !longline) {
            const char *sp = m.span();
            size_t e = pm.eol(l);
            std::string w = in.substr(b, e - b);
            c.evaluations++;
            if (m.size() != w.size() || m.str() != w || strlen(sp) != strlen(w.c_str())) BAD("span()=\"" + esc(m.str(), 100) + "\" expected \"" + esc(w, 100) + "\"");
            if (m.first() != b || m.columno() != 0) BAD("span() position");
            end = e;
          } else if (r.chance(1, 30) && l > f + 1) {
            size_t k = r(static_cast<uint32_t>(l - f));
            m.less(k);
            if (k == 0) { if (m.input() == EOF) BAD("input after less"); end = f + 1; }
            else end = f + k;
            c.evaluations++;
            if (m.last() != f + k || m.first() != f) BAD("less() position");
          } else if (r.chance(1, 60)) {
            long nn = r.range(1, 100);
            lineshift += nn - static_cast<long>(ln);
            m.lineno(nn);
            c.evaluations++;
            if (m.lineno() != static_cast<size_t>(nn)) BAD("lineno(n)");
          }
        }
      }
      continue;
    bad:
      c.fail("pos-mismatch:" + why.substr(0, why.find_first_of("(= ")), base + " match#" + S(matches) + " => " + why);
      return;
    }
    (void)linefrom;
    if (m.at_end()) {
      c.evaluations++;
      if (!shifted.why.empty()) { c.fail("pos-mismatch:handler", base + " => " + shifted.why); return; }
      if (!m.hit_end()) { c.fail("pos-mismatch:hit_end", base); return; }
      reflex::AbstractMatcher::Context x = m.after();
      if (x.num + x.len != in.size() || memcmp(x.buf, in.data() + x.num, x.len) != 0) { c.fail("pos-mismatch:after", base + " => after() " + S(x.num) + "+" + S(x.len)); return; }
    }
    c.count("shift_events", shifted.events);
    c.count("matches", matches);
    c.count("queried_matches", checked);
    c.count("matches_behind_8K", shifts);
    if (checked >= 3) { c.nontrivial(hash_str(p.regex + "\1" + in + src.how)); if (in.size() < 60) c.sample(base); }
  }
}

int main(int argc, char **argv) {
  std::string mode;
  for (int i = 1; i + 1 < argc; ++i) if (std::string(argv[i]) == "--mode") mode = argv[i + 1];
  return run(argc, argv, [&](Rng& r, uint64_t) { if (mode == "api") api_case(r); else pos_case(r); });
}
