// C10: every input source yields the UTF-8 text that its bytes or characters spell.
//
// Reference: this file decodes the raw content itself (BOM rules of the manual, UTF-16/32
// decoding with REFLEX_NONCHAR for what is not a character, code page tables from Python's
// codecs) and the monitor compares every byte delivered through every reading interface, in
// portions of any size, with it; size(), good(), eof() and peek() are checked between reads.
#include "vp.h"
#include "cptab.h"
#include <reflex/input.h>
#include <reflex/matcher.h>
#include <sstream>
#include <fstream>
#include <memory>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <errno.h>

using namespace vp;
using reflex::Input;
using reflex::BufferedInput;
typedef struct Input::file_encoding FE;

static std::string S(long long x) { return std::to_string(x); }

static const char NONCHAR[] = "\xf8\x88\x80\x80\x80";

// reference UTF-8 encoder
static std::string u8(unsigned cp) {
  std::string s;
  if (cp < 0x80) s += static_cast<char>(cp);
  else if (cp < 0x800) { s += static_cast<char>(0xC0 | cp >> 6); s += static_cast<char>(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { s += static_cast<char>(0xE0 | cp >> 12); s += static_cast<char>(0x80 | (cp >> 6 & 63)); s += static_cast<char>(0x80 | (cp & 63)); }
  else if (cp <= 0x10FFFF) { s += static_cast<char>(0xF0 | cp >> 18); s += static_cast<char>(0x80 | (cp >> 12 & 63)); s += static_cast<char>(0x80 | (cp >> 6 & 63)); s += static_cast<char>(0x80 | (cp & 63)); }
  else s = std::string(NONCHAR, 5);
  return s;
}

static unsigned rcp(Rng& r) {
  switch (r(10)) {
    case 0: return 'a' + r(26);
    case 1: return r(128);
    case 2: return 0x80 + r(0x80);
    case 3: return 0x100 + r(0x700);
    case 4: return 0x800 + r(0xD800 - 0x800);
    case 5: return 0xE000 + r(0x2000);
    case 6: return 0x10000 + r(0x100000);
    case 7: { static const unsigned e[] = { 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0, '\n', '\r', 0xFF, 0x100, 0x10FC00, 0xFE, 0xEFBB, 0xBBEF }; return e[r(sizeof(e) / sizeof(*e))]; }
    case 8: return '\n';
    default: return 0x20 + r(0x5F);
  }
}

static std::vector<unsigned> rtext(Rng& r, size_t n) {
  std::vector<unsigned> v;
  int mode = r(4);
  while (v.size() < n) {
    if (mode == 0) v.push_back(0x20 + r(0x5F));
    else if (mode == 1 && r.chance(1, 5)) { v.push_back('\r'); v.push_back('\n'); }
    else v.push_back(rcp(r));
  }
  return v;
}

static void put16(std::string& s, unsigned u, bool be) {
  char h = static_cast<char>(u >> 8), l = static_cast<char>(u);
  if (be) { s += h; s += l; } else { s += l; s += h; }
}
static void put32(std::string& s, unsigned u, bool be) {
  for (int i = 0; i < 4; ++i) s += static_cast<char>(u >> (be ? 24 - 8 * i : 8 * i));
}

// units of UTF-16, possibly with unpaired surrogates
static std::vector<unsigned> to16(Rng& r, const std::vector<unsigned>& t, bool bad) {
  std::vector<unsigned> v;
  for (unsigned c : t) {
    if (bad && r.chance(1, 6)) { int k = 1 + r(3); while (k-- > 0) v.push_back(r.chance(1, 2) ? 0xD800 + r(0x400) : 0xDC00 + r(0x400)); }
    if (c < 0x10000) v.push_back(c);
    else { v.push_back(0xD800 + ((c - 0x10000) >> 10)); v.push_back(0xDC00 + ((c - 0x10000) & 0x3FF)); }
  }
  return v;
}

static std::string dec16(const std::vector<unsigned>& v, bool wide = false) {
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) {
    unsigned c = v[i];
    if (wide && c > 0x10FFFF) s.append(NONCHAR, 5);
    else if (c >= 0xD800 && c < 0xE000) {
      if (c < 0xDC00 && i + 1 < v.size() && v[i + 1] >= 0xDC00 && v[i + 1] < 0xE000) { s += u8(0x10000 + ((c - 0xD800) << 10) + (v[i + 1] - 0xDC00)); ++i; }
      else s.append(NONCHAR, 5);
    }
    else s += u8(c);
  }
  return s;
}

static unsigned short custom_page[256];

// decode file content: BOM rules, else the given encoding
static std::string decode(const std::string& b, int enc, int& det) {
  size_t p = 0;
  const unsigned char *d = reinterpret_cast<const unsigned char*>(b.data());
  size_t n = b.size();
  det = enc;
  if (n >= 3 && !memcmp(d, "\xef\xbb\xbf", 3)) { det = FE::utf8; p = 3; }
  else if (n >= 4 && !memcmp(d, "\0\0\xfe\xff", 4)) { det = FE::utf32be; p = 4; }
  else if (n >= 4 && !memcmp(d, "\xff\xfe\0\0", 4)) { det = FE::utf32le; p = 4; }
  else if (n >= 2 && !memcmp(d, "\xff\xfe", 2)) { det = FE::utf16le; p = 2; }
  else if (n >= 2 && !memcmp(d, "\xfe\xff", 2)) { det = FE::utf16be; p = 2; }
  switch (det) {
    case FE::plain: case FE::utf8: return b.substr(p);
    case FE::utf16be: case FE::utf16le: {
      std::vector<unsigned> v;
      for (; p + 1 < n; p += 2) v.push_back(det == FE::utf16be ? d[p] << 8 | d[p + 1] : d[p + 1] << 8 | d[p]);
      return dec16(v);
    }
    case FE::utf32be: case FE::utf32le: {
      std::string s;
      for (; p + 3 < n; p += 4) {
        unsigned c = 0;
        for (int i = 0; i < 4; ++i) c |= static_cast<unsigned>(d[p + i]) << (det == FE::utf32be ? 24 - 8 * i : 8 * i);
        s += u8(c);
      }
      return s;
    }
    case FE::latin: {
      std::string s;
      for (; p < n; ++p) s += u8(d[p]);
      return s;
    }
    default: {
      std::string s;
      const unsigned short *t = det == FE::custom ? custom_page : CPTAB[det - FE::cp437];
      for (; p < n; ++p) s += u8(t[d[p]]);
      return s;
    }
  }
}

// ---------------------------------------------------------------- readers
struct Want {
  const std::string& text;
  size_t pos;
  bool sized;        // size() must be exact
  bool exact_eof;    // eof() must be exact (strings)
  std::string what;
  bool nb;           // non-blocking file: good() may be false for now
  bool cr;           // dos: text already translated
  Want(const std::string& t, const std::string& w) : text(t), pos(0), sized(false), exact_eof(false), what(w), nb(false), cr(false) {}
  void fail(const std::string& key, const std::string& d) {
    ctx().fail(key, what + " after " + S(pos) + " of " + S(text.size()) + " bytes: " + d);
    throw Abandon();
  }
  void got(const char *s, size_t k, size_t asked) {
    if (k > asked) fail("overrun", "asked " + S(asked) + " got " + S(k));
    if (k > text.size() - pos) fail("extra", "got " + S(k) + " bytes \"" + esc(std::string(s, k > 60 ? 60 : k)) + "\", " + S(text.size() - pos) + " left");
    if (memcmp(s, text.data() + pos, k) != 0) {
      size_t i = 0;
      while (s[i] == text[pos + i]) ++i;
      size_t from = i > 8 ? i - 8 : 0;
      fail("text", "at +" + S(i) + " got \"" + esc(std::string(s + from, std::min<size_t>(k - from, 30))) + "\" expected \"" + esc(text.substr(pos + from, 30)) + "\"");
    }
    pos += k;
    ctx().evaluations++;
  }
  size_t left() const { return text.size() - pos; }
};

// size/good/eof monitor; I is Input or BufferedInput
static bool buffered(Input&) { return false; }
static bool buffered(BufferedInput&) { return true; }
template<typename I> static void status(Rng& r, I& in, Want& w) {
  if (r.chance(1, 3)) {
    bool e = in.eof(), g = in.good();
    if (e && w.left()) w.fail("eof", "eof() with bytes left");
    if (!g && w.left() && !w.nb) w.fail("good", "good() false with bytes left");
    if (w.exact_eof && !w.left() && (!e || g)) w.fail("eof", "nothing left, eof " + S(e) + " good " + S(g));
    if (g != static_cast<bool>(in)) w.fail("good", "operator bool differs");
  }
  if (r.chance(1, 4)) {
    size_t z = in.size();
    if (w.sized ? z != w.left() : buffered(in) ? z > w.left() : (z != 0 && z != w.left())) w.fail("size", "size() is " + S(static_cast<long long>(z)) + ", left " + S(w.left()));
    ctx().count("size_checks");
  }
}

static void read_input(Rng& r, Input& in0, Want& w) {
  Input *in = &in0;
  std::unique_ptr<Input> cp;
  std::vector<char> b(70000);
  int style = r(4);
  size_t maxn = r.chance(1, 3) ? 8 : r.chance(1, 2) ? 100 : 40000;
  while (true) {
    status(r, *in, w);
    if (r.chance(1, 12)) {  // an Input may be copied, the copy carries on
      if (r.chance(1, 2)) { std::unique_ptr<Input> n(new Input(*in)); cp.swap(n); in = cp.get(); }
      else { std::unique_ptr<Input> n(new Input()); *n = *in; cp.swap(n); in = cp.get(); }
      ctx().count("input_copies");
    }
    if (style == 0 || (style == 1 && r.chance(1, 2))) {
      int c = in->get();
      if (c == EOF) { if (w.left()) w.fail("early-eof", "get() is EOF"); break; }
      char ch = static_cast<char>(c);
      if (c < 0 || c > 255) w.fail("range", "get() is " + S(c));
      w.got(&ch, 1, 1);
    } else {
      size_t n = 1 + r(static_cast<uint32_t>(maxn));
      // exact room so the sanitizer sees any write past the end
      std::unique_ptr<char[]> x(new char[n]);
      size_t k = in->get(x.get(), n);
      if (k == 0) { if (w.left()) w.fail("early-eof", "get(s, " + S(n) + ") is 0"); break; }
      w.got(x.get(), k, n);
      if (w.exact_eof && k < n && w.left()) w.fail("short", "get(s, " + S(n) + ") is " + S(k));
    }
  }
  status(r, *in, w);
  if (in->get() != EOF) w.fail("after-eof", "get() after EOF is not EOF");
}

static void read_buffered(Rng& r, BufferedInput& in0, Want& w) {
  BufferedInput *in = &in0;
  std::unique_ptr<BufferedInput> cp;
  size_t maxn = r.chance(1, 3) ? 8 : r.chance(1, 2) ? 100 : 40000;
  while (true) {
    status(r, *in, w);
    if (r.chance(1, 30)) { std::unique_ptr<BufferedInput> n(new BufferedInput(*in)); cp.swap(n); in = cp.get(); }
    else if (r.chance(1, 30)) { std::unique_ptr<BufferedInput> n(new BufferedInput()); *n = *in; cp.swap(n); in = cp.get(); }
    switch (r(4)) {
      case 0: {
        int c = in->peek();
        if (c == EOF ? w.left() > 0 : (!w.left() || c != static_cast<unsigned char>(w.text[w.pos]))) w.fail("peek", "peek() is " + S(c));
      }
      // fall through
      case 1: {
        int c = in->get();
        if (c == EOF) { if (w.left()) w.fail("early-eof", "get() is EOF"); goto end; }
        char ch = static_cast<char>(c);
        w.got(&ch, 1, 1);
        break;
      }
      default: {
        size_t n = 1 + r(static_cast<uint32_t>(maxn));
        std::unique_ptr<char[]> x(new char[n]);
        size_t k = in->get(x.get(), n);
        if (k < n && k < w.left()) w.fail("short", "get(s, " + S(n) + ") is " + S(k));
        w.got(x.get(), k, n);
        if (k == 0) goto end;
      }
    }
  }
end:
  if (in->peek() != EOF || in->get() != EOF) w.fail("after-eof", "not EOF after EOF");
}

static void read_stream(Rng& r, std::streambuf *sb, Want& w) {
  std::istream is(sb);
  size_t maxn = r.chance(1, 3) ? 8 : r.chance(1, 2) ? 100 : 40000;
  while (true) {
    switch (r(5)) {
      case 0: {
        int c = is.peek();
        if (c == EOF ? w.left() > 0 : (!w.left() || c != static_cast<unsigned char>(w.text[w.pos]))) w.fail("peek", "istream::peek() is " + S(c));
        if (c == EOF) goto end;
        break;
      }
      case 1: {
        int c = is.get();
        if (c == EOF) { if (w.left()) w.fail("early-eof", "istream::get() is EOF"); goto end; }
        char ch = static_cast<char>(c);
        w.got(&ch, 1, 1);
        break;
      }
      case 2: {
        std::string l;
        if (!std::getline(is, l)) { if (w.left()) w.fail("early-eof", "getline at EOF"); goto end; }
        size_t e = w.text.find('\n', w.pos);
        std::string x = w.text.substr(w.pos, e == std::string::npos ? e : e - w.pos);
        if (l != x) w.fail("text", "getline \"" + esc(l, 80) + "\" expected \"" + esc(x, 80) + "\"");
        w.pos += x.size() + (e != std::string::npos);
        break;
      }
      default: {
        size_t n = 1 + r(static_cast<uint32_t>(maxn));
        std::unique_ptr<char[]> x(new char[n]);
        is.read(x.get(), static_cast<std::streamsize>(n));
        size_t k = static_cast<size_t>(is.gcount());
        if (k < n && k < w.left()) w.fail("short", "read(s, " + S(n) + ") got " + S(k));
        w.got(x.get(), k, n);
        if (!is) goto end;
      }
    }
  }
end:
  if (w.left()) w.fail("early-eof", "stream ended early");
}

static void read_matcher(Rng& r, const Input& in, Want& w) {
  static reflex::Pattern any(".|\\n", "r"), line("[^\\n]+|\\n"), two("(?s:..?.?.?)");
  const reflex::Pattern& p = r.chance(1, 3) ? any : r.chance(1, 2) ? line : two;
  reflex::Matcher m(p, in);
  if (r.chance(1, 4)) m.buffer(1 + r(64));
  else if (r.chance(1, 8)) {
    // whole text buffered at once
    if (m.buffer()) { }
  }
  int style = r(3);
  while (true) {
    if (style == 0 || (style == 1 && r.chance(1, 2))) {
      int c = m.input();
      if (c == EOF) break;
      char ch = static_cast<char>(c);
      w.got(&ch, 1, 1);
    } else if (m.scan()) {
      w.got(m.begin(), m.size(), m.size());
    } else {
      if (m.at_end()) break;
      int c = m.input();   // a byte the pattern does not match
      if (c == EOF) break;
      char ch = static_cast<char>(c);
      w.got(&ch, 1, 1);
    }
  }
  if (w.left()) w.fail("early-eof", "matcher at end");
}

static std::string dos(const std::string& t) {
  std::string s;
  for (size_t i = 0; i < t.size(); ++i) if (!(t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n')) s += t[i];
  return s;
}

// read everything the input delivers, by one of the interfaces
static void read_any(Rng& r, Input in, const std::string& text, const std::string& what, bool sized, bool exact_eof) {
  int how = r(9);
  static const char *HOW[] = { "get", "get", "BufferedInput", "BufferedInput=", "Input::streambuf", "Input::dos_streambuf", "BufferedInput::streambuf", "BufferedInput::dos_streambuf", "matcher" };
  std::string td = how == 5 || how == 7 ? dos(text) : text;
  Want w(td, what + " by " + HOW[how]);
  w.sized = sized;
  w.exact_eof = exact_eof;
  ctx().set_note(w.what + " text \"" + esc(text, 200) + "\"");
  switch (how) {
    case 0: case 1: read_input(r, in, w); break;
    case 2: { BufferedInput b(in); read_buffered(r, b, w); break; }
    case 3: { BufferedInput b; b = in; read_buffered(r, b, w); break; }
    case 4: { Input::streambuf sb(in); read_stream(r, &sb, w); break; }
    case 5: { Input::dos_streambuf sb(in); read_stream(r, &sb, w); break; }
    case 6: { if (r.chance(1, 2)) { BufferedInput::streambuf sb(in); read_stream(r, &sb, w); } else { BufferedInput b(in); BufferedInput::streambuf sb(b); read_stream(r, &sb, w); } break; }
    case 7: { BufferedInput::dos_streambuf sb(in); read_stream(r, &sb, w); break; }
    case 8: read_matcher(r, in, w); break;
  }
  ctx().count((std::string("by_") + HOW[how]).c_str());
  if (!text.empty()) ctx().nontrivial(hash_str(what + HOW[how], hash_str(text)));
}

static size_t rlen(Rng& r) { return r.chance(1, 5) ? r(6) : r.chance(1, 12) ? 16300 + r(200) : r.chance(1, 20) ? 5000 + r(30000) : r(80); }

// ---------------------------------------------------------------- strings and streams
static void strings(Rng& r) {
  std::vector<unsigned> t = rtext(r, rlen(r));
  switch (r(5)) {
    case 0: {
      std::string s;
      for (unsigned c : t) s += r.chance(1, 10) ? std::string(1, static_cast<char>(r(256))) : u8(c);
      switch (r(4)) {
        case 0: read_any(r, Input(s), s, "std::string", true, true); break;
        case 1: read_any(r, Input(&s), s, "std::string*", true, true); break;
        case 2: read_any(r, Input(s.data(), s.size()), s, "char*,size", true, true); break;
        default: { s = s.c_str(); std::unique_ptr<char[]> x(new char[s.size() + 1]); memcpy(x.get(), s.c_str(), s.size() + 1); read_any(r, Input(x.get()), s, "char*", true, true); }
      }
      ctx().count("src_string");
      break;
    }
    case 1: case 2: {
      bool bad = r.chance(1, 3), pairs = r.chance(1, 2);
      std::vector<unsigned> v = pairs || bad ? to16(r, t, bad) : t;
      if (bad && r.chance(1, 2)) for (unsigned& c : v) if (r.chance(1, 8)) c = r.chance(1, 2) ? 0x110000 + r(0x7FFFFFFF - 0x110000) : 0x80000000u + r(0x7FFFFFFF);
      std::wstring ws;
      for (unsigned& c : v) { if (c == 0) c = 1; ws += static_cast<wchar_t>(c); }
      std::string s = dec16(v, true);
      std::unique_ptr<wchar_t[]> x(new wchar_t[ws.size() + 1]);
      memcpy(x.get(), ws.c_str(), (ws.size() + 1) * sizeof(wchar_t));
      switch (r(3)) {
        case 0: read_any(r, Input(ws), s, "std::wstring", true, true); break;
        case 1: read_any(r, Input(&ws), s, "std::wstring*", true, true); break;
        default: read_any(r, Input(static_cast<const wchar_t*>(x.get())), s, "wchar_t*", true, true);
      }
      ctx().count("src_wide");
      break;
    }
    case 3: {
      std::string s, pre(r(3) ? 0 : r(9), 'x');
      for (unsigned c : t) s += r.chance(1, 10) ? std::string(1, static_cast<char>(r(256))) : u8(c);
      std::stringstream ss(pre + s);
      for (size_t i = 0; i < pre.size(); ++i) ss.get();
      if (r.chance(1, 2)) read_any(r, Input(ss), s, "stringstream", true, false);
      else read_any(r, Input(&ss), s, "stringstream*", true, false);
      ctx().count("src_istream");
      break;
    }
    default: {
      std::string s;
      for (unsigned c : t) s += u8(c);
      std::string fn = ctx().workdir + "/inp.s";
      { std::ofstream o(fn.c_str(), std::ios::binary); o.write(s.data(), static_cast<std::streamsize>(s.size())); }
      std::ifstream i(fn.c_str(), std::ios::binary);
      read_any(r, Input(i), s, "ifstream", true, false);
      ctx().count("src_ifstream");
    }
  }
}

// ---------------------------------------------------------------- files
struct Kick : public Input::Handler {
  int fd;
  const std::string *data;
  size_t at;
  Rng *r;
  FILE *f;
  int calls;
  virtual int operator()() {
    ++calls;
    clearerr(f);
    if (fd < 0) return 1;
    if (at >= data->size()) { ::close(fd); fd = -1; return 1; }
    size_t k = std::min<size_t>(1 + (*r)(40), data->size() - at);
    if ((*r).chance(1, 4)) return 1;  // nothing yet: try again
    ssize_t d = ::write(fd, data->data() + at, k);
    if (d > 0) at += static_cast<size_t>(d);
    return 1;
  }
};

static void files(Rng& r) {
  static const char *EN[] = { "plain", "utf8", "utf16be", "utf16le", "utf32be", "utf32le", "latin" };
  int enc = r.chance(1, 2) ? r(7) : 7 + r(32);
  bool bom = enc >= 1 && enc <= 5 && r.chance(1, 2);
  if (enc == FE::utf8 && !bom) enc = FE::plain;
  size_t n = rlen(r);
  std::vector<unsigned> t = rtext(r, n);
  std::string b;
  bool bad = r.chance(1, 4);
  switch (enc) {
    case FE::plain: case FE::utf8: for (unsigned c : t) b += bad && r.chance(1, 6) ? std::string(1, static_cast<char>(r(256))) : u8(c); break;
    case FE::utf16be: case FE::utf16le: for (unsigned u : to16(r, t, bad)) put16(b, u, enc == FE::utf16be); break;
    case FE::utf32be: case FE::utf32le: for (unsigned c : t) put32(b, bad && r.chance(1, 6) ? 0x110000u + static_cast<unsigned>(r.next() % 0xFFEF0000u) : c, enc == FE::utf32be); break;
    default:
      if (enc == FE::custom) for (int i = 0; i < 256; ++i) custom_page[i] = static_cast<unsigned short>(i < 128 && r.chance(3, 4) ? i : (i < 128 && r.chance(1, 2) ? r(0x80) : r.chance(1, 2) ? 0x80 + r(0x780) : r.chance(1, 2) ? 0x800 + r(0xD000) : 0xE000 + r(0x2000)));
      for (unsigned c : t) {
        unsigned char x = static_cast<unsigned char>(r.chance(1, 2) ? r(256) : c);
        if (enc > FE::latin && enc < FE::custom) while (CPTAB[enc - FE::cp437][x] == 0xFFFF) x = static_cast<unsigned char>(r(256));
        b += static_cast<char>(x);
      }
  }
  if (enc >= 2 && enc <= 5 && bad && r.chance(1, 2)) b += std::string(1 + r(3), 'z').substr(0, enc >= 4 ? 3 : 1);  // truncated last unit
  if (!bom && r.chance(1, 4)) {
    // content that starts like a BOM but is not one (or is)
    static const char *P[] = { "\xef", "\xef\xbb", "\xef\xbb\xbe", "\xfe", "\xfe\xfe", "\xff", "\xff\xff", "\xff\xfe", "\xfe\xff", "\xef\xbb\xbf" };
    static const char Z[] = "\0\0\xfe\xfe\0\0\0\0\xff\xfe\0\xff\xff\xfe\0\0";
    std::string p = r.chance(1, 2) ? std::string(P[r(10)]) : std::string(Z + r(12), 1 + r(4));
    bool ok = true;
    if (enc > FE::latin && enc < FE::custom) for (char c : p) if (CPTAB[enc - FE::cp437][static_cast<unsigned char>(c)] == 0xFFFF) ok = false;
    if (ok) b = r.chance(1, 3) ? p : p + b;
  }
  std::string raw = b;
  if (bom) {
    static const char *B[] = { "", "\xef\xbb\xbf", "\xfe\xff", "\xff\xfe", "", "" };
    raw = (enc == FE::utf32be ? std::string("\0\0\xfe\xff", 4) : enc == FE::utf32le ? std::string("\xff\xfe\0\0", 4) : std::string(B[enc])) + b;
  }
  int det;
  std::string text = decode(raw, bom ? static_cast<int>(FE::plain) : enc, det);
  for (size_t i = 0; enc > FE::latin && enc < FE::custom && det == enc && i < raw.size(); ++i)
    if (CPTAB[enc - FE::cp437][static_cast<unsigned char>(raw[i])] == 0xFFFF) return;
  std::string what = "file enc " + (enc < 7 ? std::string(EN[enc]) : S(enc)) + (bom ? " with BOM" : "");
  int kind = r(8);
  FILE *f = NULL;
  int p[2] = { -1, -1 };
  std::thread th;
  std::string pre(kind == 0 ? 1 + r(20) : 0, 'P');
  std::string fn = ctx().workdir + "/inp.f";
  Kick k; k.f = NULL; k.fd = -1; k.calls = 0;
  if (kind < 5 || raw.size() > 60000) {
    FILE *o = fopen(fn.c_str(), "wb");
    fwrite(pre.data(), 1, pre.size(), o);
    fwrite(raw.data(), 1, raw.size(), o);
    fclose(o);
    f = fopen(fn.c_str(), "rb");
    if (!pre.empty()) fseek(f, static_cast<long>(pre.size()), SEEK_SET);
    if (r.chance(1, 3)) setvbuf(f, NULL, r.chance(1, 2) ? _IONBF : _IOFBF, 64);
    ctx().count("src_file");
  } else {
    if (pipe(p) != 0) return;
    bool nonblock = kind == 7 && (det == FE::plain || det >= FE::latin) && raw.size() > 5;
    f = fdopen(p[0], "rb");
    if (nonblock) {
      fcntl(p[0], F_SETFL, fcntl(p[0], F_GETFL) | O_NONBLOCK);
      size_t k0 = 5;
      if (write(p[1], raw.data(), k0) != static_cast<ssize_t>(k0)) return;
      k.fd = p[1]; k.data = &raw; k.at = k0; k.r = &r; k.f = f; k.calls = 0;
      what += " non-blocking";
    } else if (kind == 6) {
      // a slow writer: short reads at every boundary
      uint64_t seed = r.next();
      int wfd = p[1];
      th = std::thread([raw, seed, wfd] {
        Rng q(seed);
        size_t at = 0;
        int naps = 0;
        while (at < raw.size()) {
          size_t n = std::min<size_t>(1 + q(q.chance(1, 2) ? 4 : 3000), raw.size() - at);
          ssize_t d = ::write(wfd, raw.data() + at, n);
          if (d <= 0) break;
          at += static_cast<size_t>(d);
          if (naps < 20 && q.chance(1, 3)) { usleep(100); ++naps; }
        }
        ::close(wfd);
      });
      what += " slow pipe";
    } else {
      size_t at = 0;
      while (at < raw.size()) { ssize_t d = ::write(p[1], raw.data() + at, raw.size() - at); if (d <= 0) break; at += static_cast<size_t>(d); }
      close(p[1]);
      what += " pipe";
    }
    ctx().count("src_pipe");
  }
  struct Close { FILE *f; std::thread& t; ~Close() { if (t.joinable()) { char b[4096]; while (fread(b, 1, sizeof b, f) > 0) ; t.join(); } fclose(f); } } cl = { f, th };
  what += " raw \"" + esc(raw, 60) + "\"";
  ctx().set_note(what);
  bool explicit_enc = !bom && enc != FE::plain;
  Input in;
  if (!explicit_enc) in = Input(f);
  else if (r.chance(1, 2)) in = Input(f, static_cast<Input::file_encoding_type>(enc), enc == FE::custom ? custom_page : NULL);
  else {
    in = Input(f);
    if (in.file_encoding() == FE::plain) in.file_encoding(static_cast<Input::file_encoding_type>(enc), enc == FE::custom ? custom_page : NULL);
    what += " set";
  }
  if (in.file_encoding() != det) { ctx().fail("detected", what + ": file_encoding() is " + S(in.file_encoding()) + " expected " + S(det)); return; }
  bool regular = p[0] < 0;
  if (k.f == f && f && what.find("non-blocking") != std::string::npos) {
    in.set_handler(&k);
    Want w(text, what);
    w.nb = true;
    read_input(r, in, w);
    ctx().count("nonblocking_handler_calls", static_cast<uint64_t>(k.calls));
    return;
  }
  read_any(r, in, text, what, regular, false);
  ctx().count(bom || det != enc ? "bom_detected" : explicit_enc ? "encoding_set" : "plain");
}

// every byte of every code page, delivered at every split
static void pages() {
  std::string fn = ctx().workdir + "/inp.p";
  for (int enc = FE::latin; enc < FE::custom; ++enc) {
    std::string raw;
    for (int i = 0; i < 256; ++i) if (enc == FE::latin || CPTAB[enc - FE::cp437][i] != 0xFFFF) raw += static_cast<char>(i);
    raw = "a" + raw + raw.substr(raw.size() / 2);
    FILE *o = fopen(fn.c_str(), "wb");
    fwrite(raw.data(), 1, raw.size(), o);
    fclose(o);
    int det;
    std::string text = decode(raw, enc, det);
    for (size_t n = 1; n <= 5; ++n) {
      FILE *f = fopen(fn.c_str(), "rb");
      Input in(f, static_cast<Input::file_encoding_type>(enc));
      std::string g;
      char b[8];
      size_t k;
      while ((k = in.get(b, n)) > 0 && g.size() < 4 * raw.size()) g.append(b, k);
      fclose(f);
      ctx().evaluations += raw.size();
      if (g != text) {
        size_t i = 0;
        while (i < g.size() && i < text.size() && g[i] == text[i]) ++i;
        ctx().fail("page", "encoding " + S(enc) + " portions of " + S(n) + ": differs at " + S(i) + ": \"" + esc(g.substr(i, 12)) + "\" expected \"" + esc(text.substr(i, 12)) + "\"");
        break;
      }
    }
    ctx().nontrivial(hash_str("page" + S(enc)));
    ctx().count("pages");
  }
}

int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  return run(argc, argv, [&](Rng& r, uint64_t) {
    if (r(3) == 0) strings(r); else files(r);
  }, pages);
}
