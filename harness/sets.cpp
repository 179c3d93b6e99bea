// C14: range sets, bit sets and set operations against mathematical sets.
#include "vp.h"
#include <reflex/ranges.h>
#include <reflex/bits.h>
#include <reflex/setop.h>
#include <algorithm>
#include <memory>
using namespace vp;
static std::string S(long long n) { return std::to_string(n); }

static const int N = 64;           // values 0..N-1, negative for even cases by an offset

// ------------------------------------------------------------------ ranges
// closed ranges are intervals of the real line: the grid has a point between neighbouring values.
// open-ended ranges hold integers and merge neighbours.
typedef std::vector<char> Grid;

template<typename R, bool ORD> struct RangeModel {
  int off;
  static int gp(int v) { return ORD ? v : 2 * v; }
  static int gsize() { return ORD ? N : 2 * N; }
  // runs of the grid as (lo,hi) values
  static std::vector<std::pair<int,int> > runs(const Grid& g) {
    std::vector<std::pair<int,int> > v;
    for (int i = 0; i < gsize(); ++i)
      if (g[i]) {
        int j = i;
        while (j + 1 < gsize() && g[j + 1]) ++j;
        v.push_back(ORD ? std::make_pair(i, j) : std::make_pair(i / 2, j / 2));
        i = j;
      }
    return v;
  }
  static Grid cover(int lo, int hi) { Grid g(gsize(), 0); for (int i = gp(lo); i <= gp(hi); ++i) g[i] = 1; return g; }
};

template<typename T, template<typename> class RT, bool ORD>
struct RangeTest {
  typedef RT<T> R;
  typedef RangeModel<R, ORD> M;
  Rng& r;
  Ctx& c;
  int off;
  R s[3];
  Grid g[3];
  std::string hist;
  RangeTest(Rng& r) : r(r), c(ctx()), off(0) { for (int i = 0; i < 3; ++i) g[i] = Grid(M::gsize(), 0); }
  T val(int v) const { return static_cast<T>(v + off); }
  static std::string show(const R& x) { std::string t; for (auto& p : x) t += "[" + S(p.first) + "," + S(p.second) + (ORD ? ")" : "]"); return t; }
  bool same(int k, const R& x, const Grid& gr) {
    auto v = M::runs(gr);
    bool ok = v.size() == x.size();
    size_t i = 0;
    if (ok) for (auto it = x.begin(); it != x.end(); ++it, ++i)
      if (it->first != val(v[i].first) || it->second != static_cast<T>(val(v[i].second) + (ORD ? 1 : 0))) ok = false;
    c.evaluations++;
    if (!ok) {
      std::string e;
      for (auto& p : v) e += "[" + S(val(p.first)) + "," + S(val(p.second) + (ORD ? 1 : 0)) + (ORD ? ")" : "]");
      c.fail(ORD ? "oranges-content" : "ranges-content", hist + " set " + S(k) + " expected " + e + " got " + show(x));
    }
    return ok;
  }
  bool bad(const char *what, const std::string& d) { c.fail(std::string(ORD ? "oranges-" : "ranges-") + what, hist + " " + d); return false; }
  static bool erase(reflex::ORanges<T>& x, T lo, T hi, bool one) { return one ? x.erase(lo) : x.erase(lo, hi); }
  static bool erase(reflex::Ranges<T>&, T, T, bool) { return false; }
  static void sub(reflex::ORanges<T>& x, const reflex::ORanges<T>& y, bool inplace, reflex::ORanges<T>& z) { if (inplace) { if (&x == &y) { x -= y; z = x; } else { z = x; z -= y; } } else z = x - y; }
  static void sub(reflex::Ranges<T>&, const reflex::Ranges<T>&, bool, reflex::Ranges<T>&) { }
  bool step() {
    int k = r(3), o = r(3);
    int lo = r(N - 2), hi = lo + (r.chance(1, 3) ? 0 : r.chance(1, 4) ? r(N - 2 - lo) : r(std::min(6, N - 2 - lo)));
    int op = r(14);
    hist += " " + S(op) + ":" + S(k) + "," + S(o) + "," + S(val(lo)) + "," + S(val(hi));
    c.set_note(hist);
    if (op < 4) {
      std::pair<typename R::iterator, bool> p;
      if (op == 3) { hi = lo; p = s[k].insert(val(lo)); } else p = op == 2 ? std::make_pair(s[k].begin(), false) : s[k].insert(val(lo), val(hi));
      if (op == 2) {
        // constructors
        R x = r.chance(1, 2) ? R(val(lo), val(hi)) : R(std::make_pair(val(lo), val(hi)));
        if (!same(9, x, M::cover(lo, hi))) return false;
        s[k] |= x;
        Grid a = M::cover(lo, hi);
        for (size_t i = 0; i < a.size(); ++i) g[k][i] |= a[i];
      } else {
        Grid a = M::cover(lo, hi);
        bool upd = false;
        for (size_t i = 0; i < a.size(); ++i) { if (a[i] && !g[k][i]) upd = true; g[k][i] |= a[i]; }
        if (p.second != upd) return bad("insert-flag", "updated " + S(upd) + " reported " + S(p.second));
        if (p.first == s[k].end() || p.first->first > val(lo) || p.first->second < val(hi)) return bad("insert-iterator", show(s[k]));
      }
    } else if (op == 4) {
      if (ORD) {
        if (r.chance(1, 4)) hi = lo;
        bool one = hi == lo && r.chance(1, 2);
        bool upd = false;
        for (int i = lo; i <= hi; ++i) { upd |= g[k][i]; g[k][i] = 0; }
        bool e = erase(s[k], val(lo), val(hi), one);
        if (e != upd) return bad("erase-flag", "updated " + S(upd) + " reported " + S(e));
      }
    } else if (op == 5) { if (r.chance(1, 2)) s[k] |= s[o]; else s[k] += s[o]; for (size_t i = 0; i < g[k].size(); ++i) g[k][i] |= g[o][i]; }
    else if (op == 6) { s[k] &= s[o]; for (size_t i = 0; i < g[k].size(); ++i) g[k][i] &= g[o][i]; }
    else if (op == 7) {
      if (ORD) { R z; sub(s[k], s[o], r.chance(1, 2), z); s[k] = z; for (size_t i = 0; i < g[k].size(); ++i) g[k][i] &= !g[o][i]; }
    }
    else if (op == 8) { int t = r(3); R z = r.chance(1, 2) ? s[k] | s[o] : s[k] + s[o]; Grid gz = g[k]; for (size_t i = 0; i < gz.size(); ++i) gz[i] |= g[o][i]; s[t] = z; g[t] = gz; k = t; }
    else if (op == 9) { int t = r(3); R z = s[k] & s[o]; Grid gz = g[k]; for (size_t i = 0; i < gz.size(); ++i) gz[i] &= g[o][i]; s[t] = z; g[t] = gz; k = t; }
    else if (op == 10) {
      bool m = false, sub = true;
      for (size_t i = 0; i < g[k].size(); ++i) { m |= g[k][i] && g[o][i]; sub &= g[k][i] || !g[o][i]; }
      c.evaluations += 2;
      if (s[k].intersects(s[o]) != m) return bad("intersects", show(s[k]) + " and " + show(s[o]) + " expected " + S(m));
      if (s[k].contains(s[o]) != sub) return bad("contains", show(s[k]) + " and " + show(s[o]) + " expected " + S(sub));
    } else if (op == 11) {
      // the first range that overlaps
      auto v = M::runs(g[k]);
      const R& x = s[k];
      auto it = hi == lo ? x.find(val(lo)) : x.find(val(lo), val(hi));
      size_t i = 0;
      while (i < v.size() && !(v[i].second >= lo && v[i].first <= hi)) ++i;
      bool has = i < v.size();
      c.evaluations++;
      if (has != (it != x.end()) || (has && it->first != val(v[i].first))) return bad("find", show(x) + " expected " + (has ? S(val(v[i].first)) : "none"));
    } else if (op == 12) {
      bool any = false;
      int f = -1, l = -1;
      for (int i = 0; i < N; ++i) if (g[k][M::gp(i)]) { any = true; if (f < 0) f = i; l = i; }
      c.evaluations++;
      if (s[k].any() != any) return bad("any", show(s[k]));
      if (any && (s[k].lo() != val(f) || s[k].hi() != val(l))) return bad("bounds", show(s[k]) + " lo " + S(s[k].lo()) + " hi " + S(s[k].hi()));
    } else {
      // a total order that agrees with equality
      bool eq = g[k] == g[o];
      auto a = M::runs(g[k]), b = M::runs(g[o]);
      c.evaluations += 5;
      if ((s[k] == s[o]) != eq) return bad("equal", show(s[k]) + " and " + show(s[o]));
      bool lt = a < b, gt = b < a;
      if ((s[k] < s[o]) != lt || (s[k] > s[o]) != gt || (s[k] <= s[o]) == gt || (s[k] >= s[o]) == lt) return bad("order", show(s[k]) + " and " + show(s[o]) + " expected less " + S(lt) + " greater " + S(gt));
    }
    for (int i = 0; i < 3; ++i) if (!same(i, s[i], g[i])) return false;
    return true;
  }
  void go(int n) {
    for (int i = 0; i < n; ++i) if (!step()) return;
    c.count(ORD ? "oranges_histories" : "ranges_histories");
    c.nontrivial(hash_str(hist));
    if (hist.size() < 200) c.sample(hist);
  }
};

// ------------------------------------------------------------------ bit sets
struct BitTest {
  Rng& r;
  Ctx& c;
  reflex::Bits s[3];
  std::set<size_t> m[3];
  std::string hist;
  int top;
  BitTest(Rng& r) : r(r), c(ctx()) { top = r.chance(1, 2) ? 130 : r.chance(1, 2) ? 64 : 700; }
  bool bad(const char *what, const std::string& d) { c.fail(std::string("bits-") + what, hist + " " + d); return false; }
  static std::string show(const std::set<size_t>& x) { std::string t; for (size_t i : x) t += S(i) + " "; return t; }
  bool same(const reflex::Bits& b, const std::set<size_t>& x) {
    std::set<size_t> got;
    for (size_t i = b.find_first(); i != reflex::Bits::npos; i = b.find_next(i)) got.insert(i);
    c.evaluations++;
    if (got != x) return bad("content", "expected {" + show(x) + "} got {" + show(got) + "}");
    if (b.count() != x.size()) return bad("count", S(b.count()));
    if (b.any() != !x.empty()) return bad("any", show(x));
    if (b.size() && b.all() != (x.size() == b.size())) return bad("all", show(x));
    if (b.size() && !x.empty() && *x.rbegin() >= b.size()) return bad("size", show(x));
    for (int i = 0; i < 6; ++i) { size_t n = r(static_cast<uint32_t>(top + 80)); if (b[n] != (x.count(n) > 0)) return bad("member", S(n)); }
    return true;
  }
  static void flip(std::set<size_t>& x, size_t i) { if (!x.insert(i).second) x.erase(i); }
  bool step() {
    int k = r(3), o = r(3);
    size_t a = r(static_cast<uint32_t>(top)), b = a + (r.chance(1, 3) ? r(200) : r(10));
    if (r.chance(1, 5)) a = a / 64 * 64;
    if (r.chance(1, 5)) b = b / 64 * 64 + 63;
    if (b < a) b = a;
    int op = r(25);
    hist += " " + S(op) + ":" + S(k) + "," + S(o) + "," + S(a) + "," + S(b);
    c.set_note(hist);
    const std::set<size_t> y = m[o];
    reflex::Bits& x = s[k];
    std::set<size_t>& z = m[k];
    switch (op) {
      case 0: x.insert(a); z.insert(a); break;
      case 1: x.erase(a); z.erase(a); break;
      case 2: x.flip(a); flip(z, a); break;
      case 3: x.insert(a, b); for (size_t i = a; i <= b; ++i) z.insert(i); break;
      case 4: x.erase(a, b); for (size_t i = a; i <= b; ++i) z.erase(i); break;
      case 5: x.flip(a, b); for (size_t i = a; i <= b; ++i) flip(z, i); break;
      case 6: x.lshift(); { std::set<size_t> t; for (size_t i : z) t.insert(i + 1); z = t; } break;
      case 7: x.rshift(); { std::set<size_t> t; for (size_t i : z) if (i) t.insert(i - 1); z = t; } break;
      case 8: x |= s[o]; z.insert(y.begin(), y.end()); break;
      case 9: x &= s[o]; { std::set<size_t> t; for (size_t i : z) if (y.count(i)) t.insert(i); z = t; } break;
      case 10: x ^= s[o]; for (size_t i : y) flip(z, i); break;
      case 11: x -= s[o]; for (size_t i : y) z.erase(i); break;
      case 12: { int t = r(3); reflex::Bits q = x | s[o]; std::set<size_t> w = z; w.insert(y.begin(), y.end()); s[t] = q; m[t] = w; } break;
      case 13: { int t = r(3); reflex::Bits q = x & s[o]; std::set<size_t> w; for (size_t i : z) if (y.count(i)) w.insert(i); s[t] = q; m[t] = w; } break;
      case 14: { int t = r(3); reflex::Bits q = x ^ s[o]; std::set<size_t> w = z; for (size_t i : y) flip(w, i); s[t] = q; m[t] = w; } break;
      case 15: { int t = r(3); reflex::Bits q = x - s[o]; std::set<size_t> w = z; for (size_t i : y) w.erase(i); s[t] = q; m[t] = w; } break;
      case 16: { int t = r(3); reflex::Bits q = ~x; std::set<size_t> w; for (size_t i = 0; i < x.size(); ++i) if (!z.count(i)) w.insert(i); s[t] = q; m[t] = w; } break;
      case 17: s[k] = s[o]; m[k] = y; break;
      case 18: { reflex::Bits q(s[o]); s[k].swap(q); m[k] = y; } break;
      case 19: { bool v = r.chance(1, 2); int q = r(5); auto ref = x[a]; bool old = z.count(a) > 0, now = old;
                 if (q == 0) { ref = v; now = v; } else if (q == 1) { ref |= v; now = old | v; } else if (q == 2) { ref &= v; now = old & v; } else if (q == 3) { ref ^= v; now = old ^ v; }
                 else { bool w = m[o].count(b) > 0; const reflex::Bits& cs = s[o]; if (r.chance(1, 2)) x[a] = cs[b]; else { reflex::Bits t = s[o]; x[a] = t[b]; } now = w; }
                 if (now) z.insert(a); else z.erase(a); } break;
      case 20: x.reserve(a); break;
      case 21: if (r.chance(1, 4)) { x.clear(); z.clear(); } else if (r.chance(1, 2)) { s[k] = reflex::Bits(a, b); m[k].clear(); for (size_t i = a; i <= b; ++i) m[k].insert(i); } break;
      case 22: {
        bool in = false, sub = true;
        for (size_t i : y) { if (z.count(i)) in = true; else sub = false; }
        c.evaluations += 2;
        if (x.intersects(s[o]) != in) return bad("intersects", "{" + show(z) + "} {" + show(y) + "}");
        if (x.contains(s[o]) != sub) return bad("contains", "{" + show(z) + "} {" + show(y) + "}");
        break; }
      case 23: {
        c.evaluations += 4;
        bool eq = z == y;
        if ((x == s[o]) != eq || (x != s[o]) == eq) return bad("equal", "{" + show(z) + "} {" + show(y) + "}");
        bool lt = x < s[o], gt = x > s[o];
        if (lt + gt + eq != 1 || (x <= s[o]) == gt || (x >= s[o]) == lt || (s[o] < x) != gt) return bad("order", "{" + show(z) + "} {" + show(y) + "}");
        int t = r(3);
        if (lt && s[o] < s[t] && !(x < s[t])) return bad("order", "not transitive");
        break; }
      case 24: {
        size_t n = x.find_next(a);
        auto it = z.upper_bound(a);
        c.evaluations++;
        if (n != (it == z.end() ? reflex::Bits::npos : *it)) return bad("find-next", S(n));
        break; }
    }
    for (int i = 0; i < 3; ++i) if (!same(s[i], m[i])) return false;
    return true;
  }
  void go(int n) {
    for (int i = 0; i < n; ++i) if (!step()) return;
    c.count("bits_histories");
    c.nontrivial(hash_str(hist));
  }
};

// ------------------------------------------------------------------ set operations
static void setops(Rng& r) {
  Ctx& c = ctx();
  typedef std::set<int> A;
  typedef std::set<int> B;
  for (int rep = 0; rep < 60; ++rep) {
    A a; B b;
    int span = r.range(1, 12);
    for (int i = r(8); i > 0; --i) a.insert(r(span) - 3);
    for (int i = r(8); i > 0; --i) b.insert(r(span) - 3);
    if (r.chance(1, 6)) b = a;
    std::string h = "a={";
    for (int i : a) h += S(i) + " ";
    h += "} b={";
    for (int i : b) h += S(i) + " ";
    h += "}";
    c.set_note("setop " + h);
    std::vector<int> in, un, df;
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(in));
    std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(un));
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(df));
    c.evaluations += 7;
    if (reflex::is_disjoint(a, b) != in.empty()) c.fail("setop-disjoint", h);
    if (reflex::is_subset(a, b) != (in.size() == a.size())) c.fail("setop-subset", h);
    int v = r(span) - 3;
    if (reflex::is_in_set(v, a) != (a.count(v) > 0)) c.fail("setop-in", h);
    { A x = a; reflex::set_insert(x, b); if (std::vector<int>(x.begin(), x.end()) != un) c.fail("setop-insert", h); }
    { A x = a; reflex::set_delete(x, b); if (std::vector<int>(x.begin(), x.end()) != df) c.fail("setop-delete", h); }
    {
      reflex::lazy_intersection<A, B> l(a, b);
      std::vector<int> got;
      bool post = r.chance(1, 2);
      for (auto i = l.begin(); i != l.end() && got.size() < 100; ) { if (post) { auto j = i++; got.push_back(*j); } else { got.push_back(*i); ++i; } }
      if (got != in) c.fail("setop-lazy-intersection", h);
    }
    {
      reflex::lazy_union<A, B> l(a, b);
      std::vector<int> got;
      bool post = r.chance(1, 2);
      for (auto i = l.begin(); i != l.end() && got.size() < 100; ) { if (post) { auto j = i++; got.push_back(*j); } else { got.push_back(*i); ++i; } }
      if (got != un) { std::string d; for (int i : got) d += S(i) + " "; c.fail("setop-lazy-union", h + " got {" + d + "}"); }
    }
    if (in.size() && un.size() > in.size()) c.nontrivial(hash_str(h));
  }
}

int main(int argc, char **argv) {
  return run(argc, argv, [&](Rng& r, uint64_t) {
    int n = r.range(3, 60);
    switch (r(5)) {
      case 0: { RangeTest<int, reflex::Ranges, false> t(r); t.off = r.chance(1, 2) ? -30 : 0; t.go(n); break; }
      case 1: { RangeTest<unsigned short, reflex::ORanges, true> t(r); t.off = r.chance(1, 2) ? 65535 - N : 0; t.go(n); break; }
      case 2: { RangeTest<int, reflex::ORanges, true> t(r); t.off = r.chance(1, 2) ? -30 : 0x10FFFF - N; t.go(n); break; }
      case 3: { BitTest t(r); t.go(n); break; }
      default: setops(r);
    }
  });
}
