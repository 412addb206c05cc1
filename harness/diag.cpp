// Diagnostics classes: pools, responses, comparisons, command line, catalogue, timing (P18, P19, P20, P22, P23, P25).
#include "rcase.h"
#include <assert.h>
#include <regex>
#include <tuple>
#include <time.h>
#include "vdtdiag_helper.h"
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
#include "vdtdiag_fcnPerformance.h"
#include "vdtdiag_fcnTuples.h"
#include "vdtdiag_simpleCmd.h"

using g::bits;
using g::real;
template <class T> u64v bitsv(const std::vector<T> &v) { u64v r; r.reserve(v.size()); for (T x : v) r.push_back(bits(x)); return r; }
static str hex(uint64_t x) { char b[24]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)x); return b; }
static str firstdiff(const u64v &got, const u64v &want) {
  if (got.size() != want.size()) return std::to_string(got.size()) + " entries instead of " + std::to_string(want.size());
  for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) return "entry " + std::to_string(i) + " is " + hex(got[i]) + " instead of " + hex(want[i]);
  return "";
}
static const char *FILES[] = {"a.txt", "b b", "sub/c.txt", "d"};
static str file(uint64_t k) { mkdir("sub", 0700); return FILES[k % 4]; }
static const size_t SLOTS = 4;

// ---------------------------------------------------------------- histories of objects and files (P18, P19, P20)
// O: data() gives the observable content, write, print, copy; M: model of the content
struct Model { std::vector<u64v> col; bool operator==(const Model &o) const { return col == o.col; } };
static str mdiff(const Model &got, const Model &want) { if (got.col.size() != want.col.size()) return "columns"; for (size_t k = 0; k < got.col.size(); ++k) { str d = firstdiff(got.col[k], want.col[k]); if (!d.empty()) return "column " + std::to_string(k) + ": " + d; } return ""; }
template <class O> struct History {
  std::vector<std::unique_ptr<O>> slot; std::vector<Model> model; std::map<str, Model> disk; str why; std::function<bool(const O &, const Model &, str &)> same;
  History() : slot(SLOTS), model(SLOTS) { for (auto f : FILES) unlink(f); }
  bool verify(size_t s, const str &when) { if (!slot[s]) return true; str d; if (same(*slot[s], model[s], d)) return true; why = when + ": " + d; return false; }
  // kind: 1 write 2 read 3 copy 4 print 5 remove 6 replace the file by something else 7 write and read back
  bool step(uint64_t kind, size_t s, uint64_t f, size_t s2) {
    str fn = file(f); const str at = " (slot " + std::to_string(s) + ", file '" + fn + "')";
    switch (kind) {
      case 1: if (slot[s]) { slot[s]->writeFile(fn); disk[fn] = model[s]; } break;
      case 2: if (disk.count(fn)) { slot[s].reset(new O(fn)); model[s] = disk[fn]; if (!verify(s, "after reading" + at)) return false; } break;
      case 3: if (slot[s]) { std::unique_ptr<O> c; if constexpr (std::is_copy_assignable<O>::value) { if (slot[s2] && s != s2 && f & 1) { c = std::move(slot[s2]); *c = *slot[s]; } } if (!c) c.reset(new O(*slot[s])); slot[s2] = std::move(c); model[s2] = Model(model[s]); if (!verify(s2, "copy" + at)) return false; } break;
      case 4: if (slot[s]) slot[s]->print(); break;
      case 5: unlink(fn.c_str()); disk.erase(fn); break;
      case 6: { std::ofstream o(fn); for (int i = 0; i < 8; ++i) o << "0x3ff0000000000000 0x1 \n"; disk.erase(fn); break; }
      case 7: if (slot[s]) { slot[s]->writeFile(fn); disk[fn] = model[s]; slot[s].reset(new O(fn)); if (!verify(s, "write and read back" + at)) return false; } break;
    }
    for (size_t k = 0; k < SLOTS; ++k) if (!verify(k, "object changed by an operation on others (kind " + std::to_string(kind) + at + ")")) return false;
    return true;
  }
};
static rc::Gen<uint64_t> wide(uint64_t big) { return rc::gen::elementOf(u64v{65535, 65536, 65537, big}); } // lengths around the range of 16 bits
static rc::Gen<u64v> ops(std::vector<rc::Gen<uint64_t>> create_cols, double scale = 0.3) {
  std::vector<rc::Gen<uint64_t>> cols = {rc::gen::weightedElement<uint64_t>({{6, 0}, {4, 1}, {4, 2}, {2, 3}, {1, 4}, {1, 5}, {1, 6}, {4, 7}}), g::upto(SLOTS - 1), g::upto(3), g::upto(SLOTS - 1)};
  for (auto &c : create_cols) cols.push_back(c);
  return g::rows(cols, (int)(scale * 100), 100);
}

// ---- P18
template <class T, int D> struct Pool;
template <class T> struct Pool<T, 1> : randomPool1D<T> {
  using randomPool1D<T>::randomPool1D; Pool(T a, T, T b, T, uint64_t n, int32_t s) : randomPool1D<T>(a, b, n, s) {}
  Model data() const { return Model{{bitsv(this->getNumbers())}}; }
};
template <class T> struct Pool<T, 2> : randomPool2D<T> {
  using randomPool2D<T>::randomPool2D;
  Model data() const { return Model{{bitsv(this->getNumbersX()), bitsv(this->getNumbersY())}}; }
};
template <class T> double ulps(T a, T b) { T m = std::max(std::fabs(a), std::fabs(b)); T u = std::nextafter(m, std::numeric_limits<T>::infinity()) - m; if (!std::isfinite(u)) u = m - std::nextafter(m, (T)0); return (double)(((long double)b - a) / u); }
template <class T> bool spread(const std::vector<T> &v, T a, T b, int bins, str &why, const char *what) {
  if (ulps(a, b) < 65536 || v.size() < 400) return true;
  std::vector<double> n((size_t)bins, 0); for (T x : v) { int k = (int)(((long double)x - a) / ((long double)b - a) * bins); n[(size_t)std::min(std::max(k, 0), bins - 1)] += 1; }
  double e = (double)v.size() / bins; for (int k = 0; k < bins; ++k) if (std::fabs(n[(size_t)k] - e) > 10 * std::sqrt(e)) { why = str(what) + ": bin " + std::to_string(k) + " of " + std::to_string(bins) + " has " + std::to_string((int)n[(size_t)k]) + " of " + std::to_string(v.size()) + " numbers"; return false; }
  return true;
}
template <class T, int D> bool p18(const Case &c, str &why) {
  typedef Pool<T, D> P; History<P> h; h.same = [](const P &o, const Model &m, str &d) { d = mdiff(o.data(), m); return d.empty(); };
  const u64v &o = c.n.at("ops"); const size_t W = 10;
  for (size_t i = 0; i + W <= o.size(); i += W) {
    uint64_t kind = o[i]; size_t s = o[i + 1] % SLOTS;
    if (kind == 0) {
      T l[2], u[2]; for (int k = 0; k < 2; ++k) { T a = g::finite<T>(o[i + 4 + 2 * k]), b = g::finite<T>(o[i + 5 + 2 * k]); l[k] = std::min(a, b); u[k] = std::max(a, b); }
      uint64_t size = o[i + 8]; int32_t seed = (int32_t)(uint32_t)o[i + 9];
      h.slot[s].reset(new P(l[0], l[1], u[0], u[1], size, seed)); Model m = h.slot[s]->data(); h.model[s] = m;
      std::ostringstream w; w << std::setprecision(17) << "pool(" << l[0] << ", " << u[0]; if (D == 2) w << "; " << l[1] << ", " << u[1]; w << "; size " << size << ", seed " << seed << "): ";
      for (int k = 0; k < D; ++k) {
        if (m.col[(size_t)k].size() != size) { why = w.str() + std::to_string(m.col[(size_t)k].size()) + " numbers"; return true; }
        std::vector<T> v; for (uint64_t b : m.col[(size_t)k]) { T x; if (sizeof(T) == 8) memcpy(&x, &b, 8); else { uint32_t q = (uint32_t)b; memcpy(&x, &q, 4); } v.push_back(x); if (!(x >= l[k] && x <= u[k])) { std::ostringstream z; z << std::setprecision(17) << x; why = w.str() + "number out of the limits: " + z.str(); return true; } }
        if (!spread(v, l[k], u[k], 16, why, "spread") ) { why = w.str() + why; return true; }
        if (ulps(l[k], u[k]) > 4194304) { u64v d(m.col[(size_t)k]); std::sort(d.begin(), d.end()); d.erase(std::unique(d.begin(), d.end()), d.end()); double pairs = (double)size * (double)size / 2 / 4194304; if ((double)(size - d.size()) > 20 + 10 * pairs) { why = w.str() + "only " + std::to_string(d.size()) + " different numbers"; return true; } }
        if (k == 1 && size >= 1000 && ulps(l[0], u[0]) > 65536 && ulps(l[1], u[1]) > 65536) { // the whole rectangle
          std::vector<int> n(16, 0); for (size_t j = 0; j < size; ++j) { T x; uint64_t b = m.col[0][j]; if (sizeof(T) == 8) memcpy(&x, &b, 8); else { uint32_t q = (uint32_t)b; memcpy(&x, &q, 4); } int kx = std::min(3, (int)(((long double)x - l[0]) / ((long double)u[0] - l[0]) * 4)), ky = std::min(3, (int)(((long double)v[j] - l[1]) / ((long double)u[1] - l[1]) * 4)); n[(size_t)(kx * 4 + ky)]++; }
          const double e = (double)size / 16; for (int q : n) if (!q || std::fabs(q - e) > 10 * std::sqrt(e)) { why = w.str() + "a 16th of the rectangle has " + std::to_string(q) + " numbers"; return true; } }
      }
      P again(l[0], l[1], u[0], u[1], size, seed); str d = mdiff(again.data(), m); if (!d.empty()) { why = w.str() + "not reproducible: " + d; return true; }
      if (seed == 1) { std::unique_ptr<P> dflt; if constexpr (D == 1) dflt.reset(new P(l[0], u[0], size)); else dflt.reset(new P(l[0], l[1], u[0], u[1], size)); d = mdiff(dflt->data(), m); if (!d.empty()) { why = w.str() + "default seed is not 1: " + d; return true; } }
      for (int32_t sd : {(int32_t)((uint32_t)seed + 1 + (uint32_t)o[i + 3]), (int32_t)((uint32_t)seed ^ (1u << (mix(o[i + 4], o[i + 9]) % 32)))}) { P other(l[0], l[1], u[0], u[1], size, sd); Model mo = other.data(); for (int k = 0; k < D; ++k) if (size >= 8 && ulps(l[k], u[k]) > 65536 && mo.col[(size_t)k] == m.col[(size_t)k]) { why = w.str() + "the same numbers with seed " + std::to_string(sd); return true; } }
      for (size_t k = 0; k < SLOTS; ++k) if (!h.verify(k, "pool changed by the creation of another")) { why = h.why; return true; }
    } else if (!h.step(kind, s, o[i + 2], o[i + 3] % SLOTS)) { why = h.why; return true; }
  }
  return false;
}
static size_t rowcount(const Case &c, size_t W, uint64_t kind) { size_t n = 0; const u64v &o = c.n.at("ops"); for (size_t i = 0; i + W <= o.size(); i += W) n += o[i] == kind; return n; }
// a file was written and read again at some point
static bool has_roundtrip(const Case &c, size_t W) { return rowcount(c, W, 0) > 0 && (rowcount(c, W, 7) > 0 || (rowcount(c, W, 1) > 0 && rowcount(c, W, 2) > 0)); }
static rc::Gen<uint64_t> limit() { // limits of intervals: any finite number, often simple ones
  return rc::gen::weightedOneOf<uint64_t>({{3, g::pattern()}, {3, rc::gen::map(g::upto(2000), [](uint64_t k) { return bits((double)k - 1000); })}, {3, rc::gen::map(g::upto(2000), [](uint64_t k) { return bits((float)k - 1000); })}, {2, rc::gen::elementOf(u64v{bits(0.), bits(1.), bits(-1.), bits(1.f), bits(-1.f), bits(705.), bits(-705.), bits(5000.), bits(-5000.), bits(.0001f), bits(5000.f)})}});
}
static rc::Gen<Case> gen18(uint64_t big) {
  auto size = rc::gen::weightedOneOf<uint64_t>({{8, g::upto(20)}, {2, g::upto(300)}, {1, g::upto(big)}, {1, rc::gen::elementOf(u64v{0, 1, 2, 255, 256, 400, 1000, 1024, big})}, {big > 10000 ? 5 : 0, wide(big)}});
  auto seed = rc::gen::weightedOneOf<uint64_t>({{4, g::upto(3)}, {4, g::any64()}, {2, rc::gen::elementOf(u64v{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 65535, 65536, 1000})}});
  return rc::gen::map(ops({limit(), limit(), limit(), limit(), size, seed}, 0.2), [](const u64v &o) { Case c; c.n["ops"] = o; return c; });
}

// ---- values shared by P19, P20
// function values: any bits, a quarter of them special
template <class T> T special(uint64_t m) {
  typedef std::numeric_limits<T> L; const T v[] = {0, L::infinity(), L::quiet_NaN(), L::denorm_min(), L::min(), L::max(), 1, L::epsilon()}; T r = v[(m >> 8) % 8]; return m & 128 ? -r : r;
}
template <class T> T bithash(T x, uint64_t k) { uint64_t m = mix(bits(x), k); return m >> 62 ? real<T>(m) : special<T>(m); }
template <class T> T bithash(T x, T y, uint64_t k) { uint64_t m = mix(mix(bits(x), k), bits(y)); return m >> 62 ? real<T>(m) : special<T>(m); }
template <class T> std::vector<T> slice(const Case &c, uint64_t off, uint64_t len) { const u64v &v = c.n.at("vals"); std::vector<T> r; for (uint64_t i = 0; i < len; ++i) r.push_back(i < v.size() && off < 1000 ? real<T>(v[(off + i) % v.size()]) : real<T>(mix(off, i))); return r; }
static rc::Gen<u64v> values() { return rc::gen::scale(0.4, rc::gen::nonEmpty(rc::gen::container<u64v>(g::pattern()))); }

// ---- P19
template <class T> struct Resp1 : fcnResponse1D<T> { using fcnResponse1D<T>::fcnResponse1D; Model data() const { auto *p = const_cast<Resp1 *>(this); return Model{{bitsv(p->getInput()), bitsv(p->getOutput())}}; } };
template <class T> struct Resp2 : fcnResponse2D<T> { using fcnResponse2D<T>::fcnResponse2D; Model data() const { auto *p = const_cast<Resp2 *>(this); return Model{{bitsv(p->getInput1()), bitsv(p->getInput2()), bitsv(p->getOutput())}}; } };
template <class T, int D> bool p19(const Case &c, str &why) {
  typedef typename std::conditional<D == 1, Resp1<T>, Resp2<T>>::type R; History<R> h; h.same = [](const R &o, const Model &m, str &d) { d = mdiff(o.data(), m); return d.empty(); };
  const u64v &o = c.n.at("ops"); const size_t W = 9;
  for (size_t i = 0; i + W <= o.size(); i += W) {
    uint64_t kind = o[i]; size_t s = o[i + 1] % SLOTS;
    if (kind == 0) {
      uint64_t len = o[i + 6], k = o[i + 7]; std::vector<T> in1 = slice<T>(c, o[i + 4], len), in2 = slice<T>(c, o[i + 5], len); bool arr = o[i + 8] & 1;
      str name = o[i + 8] & 2 ? "f" : "Some Function 0x12 name"; Model m; const u64v b1 = bitsv(in1), b2 = bitsv(in2); u64v out;
      uint64_t calls = 0;
      if constexpr (D == 1) {
        for (T x : in1) out.push_back(bits(bithash(x, k))); m = Model{{b1, out}};
        if (arr) h.slot[s].reset(new R(name, in1, std::function<void(uint32_t, T *, T *)>([k](uint32_t n, T *a, T *r) { for (uint32_t j = 0; j < n; ++j) r[j] = bithash(a[j], k); })));
        else h.slot[s].reset(new R(name, in1, std::function<T(T)>([&calls, k](T x) { ++calls; return bithash(x, k); })));
      } else {
        for (size_t j = 0; j < in1.size(); ++j) out.push_back(bits(bithash(in1[j], in2[j], k))); m = Model{{b1, b2, out}};
        if (arr) h.slot[s].reset(new R(name, in1, in2, std::function<void(uint32_t, T *, T *, T *)>([k](uint32_t n, T *a, T *b, T *r) { for (uint32_t j = 0; j < n; ++j) r[j] = bithash(a[j], b[j], k); })));
        else h.slot[s].reset(new R(name, in1, in2, std::function<T(T, T)>([&calls, k](T x, T y) { ++calls; return bithash(x, y, k); })));
      }
      h.model[s] = m;
      if (bitsv(in1) != b1 || bitsv(in2) != b2) { why = "the caller's inputs were modified"; return true; }
      for (size_t q = 0; q < SLOTS; ++q) if (!h.verify(q, q == s ? str("response of ") + (arr ? "array" : "scalar") + " function, " + std::to_string(len) + " entries" : "response changed by the creation of another")) { why = h.why; return true; }
    } else if (!h.step(kind, s, o[i + 2], o[i + 3] % SLOTS)) { why = h.why; return true; }
  }
  return false;
}
static rc::Gen<Case> gen19(uint64_t big) {
  auto len = rc::gen::weightedOneOf<uint64_t>({{8, g::upto(12)}, {3, g::upto(100)}, {1, g::upto(big)}, {1, rc::gen::elementOf(u64v{0, 1, 2, 255, 256, 257, big})}, {big > 10000 ? 5 : 0, wide(big)}});
  return rc::gen::apply([](const u64v &o, const u64v &v) { Case c; c.n["ops"] = o; c.n["vals"] = v; return c; }, ops({rc::gen::weightedOneOf<uint64_t>({{6, g::upto(40)}, {1, g::any64()}}), g::upto(40), len, g::any64(), g::upto(3)}, 0.2), values());
}

// ---- P20
static unsigned model_diffbit(uint64_t a, uint64_t b) { uint64_t d = a > b ? a - b : b - a; unsigned n = 0; while (d) { ++n; d >>= 1; } return n; }
struct Stats { unsigned max = 0, min = 0; double mean = 0, var = 0; uint64_t n = 0; };
static Stats stats_of(const u64v &d) {
  Stats s; s.n = d.size(); s.min = d.empty() ? 0 : ~0u; __int128 sum = 0, sum2 = 0; for (uint64_t x : d) { s.max = std::max<unsigned>(s.max, x); s.min = std::min<unsigned>(s.min, x); sum += x; sum2 += x * x; }
  s.mean = (double)((long double)sum / s.n); __int128 num = sum2 * (__int128)s.n - sum * sum; s.var = s.n == 1 ? -1 : (double)((long double)num / ((long double)s.n * (s.n - 1))); return s;
}
static bool closeto(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol; }
// the file as its format line says: five header lines, statistics, then rows
template <class T> bool parse_comparison(const str &fn, int D, Model &m, Stats &st, str &why) {
  std::ifstream f(fn); str l; for (int i = 0; i < 5; ++i) if (!std::getline(f, l)) { why = "file too short"; return false; }
  str a, b; unsigned mx, mn; if (!(f >> mx >> mn >> a >> b)) { why = "no statistics in file"; return false; }
  auto hx = [](const str &s, uint64_t &x) { char *e; if (s.compare(0, 2, "0x")) return false; x = strtoull(s.c_str(), &e, 16); return !*e; };
  uint64_t u; st.max = mx; st.min = mn; if (!hx(a, u)) { why = "mean not in hex"; return false; } memcpy(&st.mean, &u, 8); if (!hx(b, u)) { why = "spread not in hex"; return false; } memcpy(&st.var, &u, 8);
  m.col.assign((size_t)D + 3, u64v()); str w; std::getline(f, l);
  while (std::getline(f, l)) { std::istringstream is(l); for (int k = 0; k < D + 2; ++k) { if (!(is >> w) || !hx(w, u)) { why = "bad row '" + l + "'"; return false; } m.col[(size_t)k].push_back(u); } unsigned db; if (!(is >> db)) { why = "bad row '" + l + "'"; return false; } m.col[(size_t)D + 2].push_back(db); }
  return true;
}
static bool stats_ok(const Stats &got, const Stats &want, str &why) {
  std::ostringstream o; o << std::setprecision(17) << "max " << got.max << " min " << got.min << " mean " << got.mean << " spread " << got.var << " instead of " << want.max << " " << want.min << " " << want.mean << " " << want.var;
  if (got.max != want.max || got.min != want.min || !closeto(got.mean, want.mean, 1e-10) || !closeto(got.var, want.var, 1e-7)) { why = o.str(); return false; } return true;
}
static bool printed_ok(const str &t, bool tab, const Stats &want, str &why) {
  static const std::regex re_t("(\\d+)\\s+(\\d+)\\s*(-?\\d+\\.\\d\\d|-?nan)\\s*(-?\\d+\\.\\d\\d|-?nan)\\s*$"), re_p("(\\d+)\\s*\\n[^\\n]*?(\\d+)\\s*\\n[^\\n]*?(\\S+)\\s*\\n[^\\n]*?(\\S+)\\s*\\n*$");
  std::smatch mm; str tail = t.size() > 400 ? t.substr(t.size() - 400) : t; if (!std::regex_search(tail, mm, tab ? re_t : re_p)) { why = "printed statistics not understood: " + tail; return false; }
  Stats g; g.max = (unsigned)strtoul(mm[1].str().c_str(), 0, 10); g.min = (unsigned)strtoul(mm[2].str().c_str(), 0, 10); g.mean = strtod(mm[3].str().c_str(), 0); g.var = strtod(mm[4].str().c_str(), 0);
  auto near = [&](double a, double b) { return a == b || std::fabs(a - b) <= 0.00501 + (tab ? 0 : 0.0501 * std::fabs(b)); };
  if (g.max != want.max || g.min != want.min || !near(g.mean, want.mean) || !near(g.var, want.var)) { std::ostringstream o; o << "printed " << mm[0].str() << " for " << want.max << " " << want.min << " " << want.mean << " " << want.var; why = o.str(); return false; }
  return true;
}
template <class T, int D> struct Comp : std::conditional<D == 1, fcnComparison1D<T>, fcnComparison2D<T>>::type { typedef typename std::conditional<D == 1, fcnComparison1D<T>, fcnComparison2D<T>>::type B; using B::B; };
template <class T, int D> bool p20(const Case &c, str &why) {
  typedef Comp<T, D> P; History<P> h;
  h.same = [](const P &co, const Model &m, str &d) {
    P &o = const_cast<P &>(co); Stats want = stats_of(m.col.back()), got; Model f;
    if (o.hasDifference() != (want.max > 0)) { d = "hasDifference is wrong"; return false; }
    for (int tab = 0; tab < 2; ++tab) if (!printed_ok(captured([&] { o.printStats(tab); }), tab, want, d)) return false;
    o.writeFile("obs"); if (!parse_comparison<T>("obs", D, f, got, d)) return false; if (!stats_ok(got, want, d)) return false; d = mdiff(f, m); return d.empty();
  };
  const u64v &o = c.n.at("ops"); const size_t W = 11;
  for (size_t i = 0; i + W <= o.size(); i += W) {
    uint64_t kind = o[i]; size_t s = o[i + 1] % SLOTS;
    if (kind == 0) {
      uint64_t len = std::max<uint64_t>(1, o[i + 7]), rel = o[i + 8]; std::vector<T> in1 = slice<T>(c, o[i + 4], len), in2 = slice<T>(c, o[i + 5], len), o1 = slice<T>(c, o[i + 6], len), o2; Model m; u64v db;
      for (size_t j = 0; j < len; ++j) {
        uint64_t b = bits(o1[j]), r = mix(rel, j), x = b; const unsigned n = sizeof(T) * 8; uint64_t all = n == 64 ? ~0ull : 0xffffffffull;
        switch (o[i + 9] % 7) { case 0: break; case 1: x = (b + r % 5 - 2) & all; break; case 2: x = b ^ (1ull << (r % n)); break; case 3: x = r & all; break; case 4: x = (r % 16 == 0) ? (r >> 8) & all : b; break; case 5: x = (b + ((r & 1) ? 1 : -1) * ((1ull << ((r >> 1) % n)) - ((r >> 9) & 1))) & all; break; case 6: x = j + 1 == len || j == 0 ? b ^ 1 : b; break; }
        T y; if (n == 64) memcpy(&y, &x, 8); else { uint32_t q = (uint32_t)x; memcpy(&y, &q, 4); } if (!(y == y)) y = std::copysign(std::numeric_limits<T>::quiet_NaN(), y); o2.push_back(y); db.push_back(model_diffbit(b, bits(y)));
      }
      if (D == 1) m = Model{{bitsv(in1), bitsv(o1), bitsv(o2), db}}; else m = Model{{bitsv(in1), bitsv(in2), bitsv(o1), bitsv(o2), db}};
      str name = o[i + 10] & 1 ? "name" : "A rather long name of a comparison 12 34 55";
      if constexpr (D == 1) h.slot[s].reset(new P(name, in1, o1, o2)); else h.slot[s].reset(new P(name, in1, in2, o1, o2));
      h.model[s] = m; for (size_t q = 0; q < SLOTS; ++q) if (!h.verify(q, q == s ? "new comparison of " + std::to_string(len) + " entries" : "comparison changed by the creation of another")) { why = h.why; return true; }
    } else if (!h.step(kind, s, o[i + 2], o[i + 3] % SLOTS)) { why = h.why; return true; }
  }
  return false;
}
static rc::Gen<Case> gen20(uint64_t big) {
  auto len = rc::gen::weightedOneOf<uint64_t>({{8, g::upto(12)}, {3, g::upto(100)}, {1, g::upto(big)}, {1, rc::gen::elementOf(u64v{1, 2, 255, 256, 257, big})}, {big > 10000 ? 5 : 0, wide(big)}});
  return rc::gen::apply([](const u64v &o, const u64v &v) { Case c; c.n["ops"] = o; c.n["vals"] = v; return c; }, ops({rc::gen::weightedOneOf<uint64_t>({{6, g::upto(40)}, {1, g::any64()}}), g::upto(40), rc::gen::weightedOneOf<uint64_t>({{6, g::upto(40)}, {1, g::any64()}}), len, g::any64(), g::upto(6), g::upto(1)}, 0.2), values());
}

// one long comparison, most often with very few differences
static rc::Gen<Case> gen20long() {
  auto len = rc::gen::weightedOneOf<uint64_t>({{4, g::upto(3000)}, {3, g::upto(70000)}, {1, g::upto(300000)}}); auto off = rc::gen::weightedOneOf<uint64_t>({{1, g::upto(40)}, {1, g::any64()}});
  return rc::gen::apply([](u64v r, uint64_t rel, const u64v &v) { Case c; r[0] = 0; r[9] = rel; c.n["ops"] = r; c.n["vals"] = v; return c; }, rc::gen::exec([=] { u64v r(11, 0); r[4] = *off; r[5] = *off; r[6] = *off; r[7] = *len; r[8] = *g::any64(); r[10] = *g::upto(1); return r; }), rc::gen::elementOf(u64v{0, 1, 2, 3, 4, 5, 6, 6, 6, 6}), values());
}

// ---------------------------------------------------------------- P21
template <class T> T rawbits(uint64_t b) { T x; if (sizeof(T) == 8) memcpy(&x, &b, 8); else { uint32_t q = (uint32_t)b; memcpy(&x, &q, 4); } return x; }
template <class T> str bitstring(uint64_t b) { const int n = sizeof(T) * 8, e = n == 64 ? 11 : 8; str s; for (int i = n - 1; i >= 0; --i) { s += (b >> i) & 1 ? '1' : '0'; if (i == n - 1 || i == n - 1 - e) s += ' '; } return s; }
template <class T> void pairs21(const Case &c, u64v &a, u64v &b) {
  const u64v &r = c.n.at("pairs"); const unsigned n = sizeof(T) * 8; const uint64_t all = n == 64 ? ~0ull : 0xffffffffull;
  for (size_t i = 0; i + 3 <= r.size(); i += 3) {
    uint64_t x = (n == 64 ? r[i] : (r[i] ^ (r[i] >> 32))) & all, k = r[i + 2], y = x;
    switch (r[i + 1] % 8) { case 0: y = x; break; case 1: y = x + 1; break; case 2: y = x - 1; break; case 3: y = x ^ (1ull << (k % n)); break; case 4: y = k; break; case 5: y = x + (1ull << (k % n)); break; case 6: y = x + (1ull << (k % n)) - 1; break; case 7: y = x - ((1ull << (k % n)) + (k >> 8) % 3 - 1); break; }
    a.push_back(x); b.push_back(y & all);
  }
}
template <class T> bool p21(const Case &c, str &why) {
  u64v a, b; pairs21<T>(c, a, b); const int n = sizeof(T) * 8; const uint64_t mag = n == 64 ? ~0ull >> 1 : 0x7fffffffull; std::stringstream ss; std::ostringstream plain; const u64v &sep = c.n.at("sep");
  for (size_t i = 0; i < a.size(); ++i) {
    T x = rawbits<T>(a[i]), y = rawbits<T>(b[i]); unsigned d = vdth::diffbit(x, y), e = vdth::diffbit(y, x), w = model_diffbit(a[i], b[i]);
    if (d != w || e != w) { why = "differing bits of " + hex(a[i]) + " and " + hex(b[i]) + ": " + std::to_string(d) + ", reversed " + std::to_string(e) + ", should be " + std::to_string(w); return true; }
    if (x == x && std::isfinite(x) && (a[i] & mag) != mag) { T z = std::nextafter(x, std::numeric_limits<T>::infinity()); if (z != 0 && x != 0 && std::isfinite(z) && vdth::diffbit(x, z) != 1) { why = "neighbours of " + hex(a[i]) + " do not differ by one bit"; return true; } }
    if (vdth::getbsasstr(x) != bitstring<T>(a[i])) { why = "bit string of " + hex(a[i]) + " is " + vdth::getbsasstr(x); return true; }
    if (vdth::fp2uint64(x) != a[i]) { why = "pattern of " + hex(a[i]) + " is " + hex(vdth::fp2uint64(x)); return true; }
    uint64_t k = sep.empty() ? 0 : sep[i % sep.size()]; ss << fpToHex<T>(x); if (k % 4 == 1) ss << std::endl; if (k % 4 == 2) ss << 12 << " " << fpToHex<T>(y) << "word "; if (k % 4 == 3) ss << "\t " << fpToHex<T>(y);
  }
  for (size_t i = 0; i < a.size(); ++i) {
    fpFromHex<T> v, v2; uint64_t k = sep.empty() ? 0 : sep[i % sep.size()]; if (!(ss >> v)) { why = "number " + std::to_string(i) + " cannot be read back"; return true; } T x = v.getValue();
    if (bits(x) != a[i]) { why = hex(a[i]) + " read back as " + hex(bits(x)) + ", number " + std::to_string(i) + " of a sequence"; return true; }
    if (k % 4 == 2) { int t = 0; str w; if (!(ss >> t >> v2 >> w) || t != 12 || w != "word" || bits(v2.getValue()) != b[i]) { why = "text around number " + std::to_string(i) + " is not read back: " + hex(b[i]); return true; } }
    if (k % 4 == 3) { if (!(ss >> v2) || bits(v2.getValue()) != b[i]) { why = "second number " + hex(b[i]) + " is read back as " + hex(bits(v2.getValue())); return true; } }
  }
  return false;
}
// printed comparison of two functions: differing bits and bit strings of their values, argument by argument
template <class T> bool p21_print(const Case &c, str &why) {
  u64v a, b; pairs21<T>(c, a, b); const uint64_t form = c.n.at("form")[0] % 7; std::vector<T> x, y; std::vector<std::pair<T, T>> want; for (size_t i = 0; i < a.size(); ++i) { x.push_back(real<T>(a[i] ^ (sizeof(T) == 4 ? a[i] >> 32 << 32 : 0))); y.push_back(real<T>(b[i])); }
  std::function<T(T)> f1 = [](T v) { return bithash(v, 1); }, f2 = [](T v) { return bits(v) % 3 ? bithash(v, 2) : bithash(v, 1); }; std::function<T(T, T)> g1 = [](T v, T w) { return bithash(v, w, 1); }, g2 = [](T v, T w) { return bits(v) % 3 ? bithash(v, w, 3) : bithash(v, w, 1); };
  vdth::genfpfunctionv<T> f1v = [&](uint32_t n, T *p, T *r) { for (uint32_t i = 0; i < n; ++i) r[i] = f1(p[i]); }, f2v = [&](uint32_t n, T *p, T *r) { for (uint32_t i = 0; i < n; ++i) r[i] = f2(p[i]); };
  vdth::genfp2functionv<T> g1v = [&](uint32_t n, T *p, T *q, T *r) { for (uint32_t i = 0; i < n; ++i) r[i] = g1(p[i], q[i]); }, g2v = [&](uint32_t n, T *p, T *q, T *r) { for (uint32_t i = 0; i < n; ++i) r[i] = g2(p[i], q[i]); };
  const uint32_t n = (uint32_t)x.size(); const bool two = form == 1 || form == 3 || form == 5;
  str t = captured([&] {
    switch (form) {
      case 0: for (uint32_t i = 0; i < n; ++i) vdth::printFuncDiff<T>("f", f1, f2, x[i]); break;
      case 1: for (uint32_t i = 0; i < n; ++i) vdth::printFuncDiff<T>("f", g1, g2, x[i], y[i]); break;
      case 2: vdth::printFuncDiff<T>("f", f1v, f2v, x.data(), n); break;
      case 3: vdth::printFuncDiff<T>("f", g1v, g2v, x.data(), y.data(), n); break;
      case 4: vdth::printFuncDiff<T>("f", f1, f2, x.data(), n); break;
      case 5: vdth::printFuncDiff<T>("f", g1, g2, x.data(), y.data(), n); break;
      case 6: for (uint32_t i = 0; i < n; ++i) vdth::print_different_bit(x[i], y[i], true); break;
    } });
  for (uint32_t i = 0; i < n; ++i) want.push_back(form == 6 ? std::make_pair(x[i], y[i]) : two ? std::make_pair(g1(x[i], y[i]), g2(x[i], y[i])) : std::make_pair(f1(x[i]), f2(x[i])));
  // " is <bits>" then the two strings, in order
  std::istringstream is(t); str l; size_t k = 0; std::vector<str> lines; while (std::getline(is, l)) if (!l.empty()) lines.push_back(l);
  for (size_t i = 0; i < lines.size(); ++i) {
    size_t e = lines[i].rfind(" is "); if (lines[i].compare(0, 9, "Different") || e == str::npos) continue; if (k >= want.size()) { why = "more comparisons printed than arguments given"; return true; }
    uint64_t p = bits(want[k].first), q = bits(want[k].second); if ((unsigned)atoi(lines[i].c_str() + e + 4) != model_diffbit(p, q)) { why = "printed '" + lines[i] + "' for " + hex(p) + " and " + hex(q); return true; }
    if (i + 2 >= lines.size() || lines[i + 1] != bitstring<T>(p) || lines[i + 2] != bitstring<T>(q)) { why = "bit strings printed for " + hex(p) + " and " + hex(q) + " are wrong"; return true; }
    ++k; i += 2;
  }
  if (k != want.size()) { why = std::to_string(k) + " comparisons printed for " + std::to_string(want.size()) + " arguments (form " + std::to_string(form) + ")"; return true; }
  return false;
}
static rc::Gen<Case> gen21() {
  auto num = rc::gen::weightedOneOf<uint64_t>({{2, g::pattern()}, {1, g::any64()}, {1, rc::gen::map(g::upto(63), [](uint64_t k) -> uint64_t { return 1ull << k; })}, {1, rc::gen::map(g::upto(63), [](uint64_t k) -> uint64_t { return ~0ull >> k; })}});
  return rc::gen::apply([](const u64v &p, const u64v &s, uint64_t f) { Case c; c.n["pairs"] = p; c.n["sep"] = s; c.n["form"] = {f}; return c; }, g::rows({num, g::upto(7), rc::gen::weightedOneOf<uint64_t>({{1, num}, {1, g::upto(63)}})}, 3, 10), rc::gen::scale(0.1, rc::gen::container<u64v>(g::upto(3))), g::upto(6));
}

// ---------------------------------------------------------------- P22
static bool p22(const Case &c, str &why) {
  CmdOptions cmd; std::vector<std::pair<str, str>> opts = {{"-h", "--help"}}; const auto &names = c.s.at("names"); std::set<str> used = {"-h", "--help"};
  for (size_t i = 0; i + 1 < names.size(); i += 2) { if (names[i] == names[i + 1] || used.count(names[i]) || used.count(names[i + 1])) continue; used.insert(names[i]); used.insert(names[i + 1]); cmd.addOption(names[i], names[i + 1], "help text " + std::to_string(opts.size()) + " of it"); opts.push_back({names[i], names[i + 1]}); }
  std::vector<str> argv = {"prog"}; const auto &lit = c.s.at("lit"); const u64v &a = c.n.at("args");
  for (size_t i = 0; i + 4 <= a.size(); i += 4) { // option, form, value, distortion
    auto &p = opts[a[i] % opts.size()]; str v = lit.empty() ? "" : lit[a[i + 2] % lit.size()], n = a[i + 1] & 1 ? p.first : p.second, s = n + (a[i + 1] & 2 ? "=" + v : "");
    switch (a[i + 3]) { case 1: s = v; break; case 2: s = n.substr(0, n.size() - 1) + (a[i + 1] & 2 ? "=" + v : ""); break; case 3: s = n + "x" + (a[i + 1] & 2 ? "=" + v : ""); break; case 4: s = "=" + v; break; case 5: s = " " + s; break; case 6: s = n + " " + v; break; case 7: for (char &ch : s) ch = (char)toupper(ch); break; case 8: s = "-" + s; break; case 9: s = s.substr(s.size() > 1 ? 1 : 0); break; case 10: s = n + "=" + str(1 + a[i + 2] * 41 % 5000, 'y') + v; break; }
    argv.push_back(s);
  }
  bool ok = true; std::map<str, str> given;
  for (size_t i = 1; i < argv.size() && ok; ++i) { size_t e = argv[i].find('='); str flag = argv[i].substr(0, e), v = e == str::npos ? "" : argv[i].substr(e + 1); const str *key = nullptr; for (auto &p : opts) if (p.first == flag || p.second == flag) key = &p.first; if (!key || given.count(*key)) ok = false; else given[*key] = v; }
  std::vector<std::vector<char>> buf; std::vector<char *> av; for (auto &s : argv) { buf.emplace_back(s.begin(), s.end()); buf.back().push_back(0); } for (auto &b : buf) av.push_back(b.data()); av.push_back(nullptr);
  int r = 0; str text = captured([&] { r = cmd.parseCmd((int)argv.size(), av.data()); });
  str line; for (size_t i = 1; i < argv.size(); ++i) line += " '" + argv[i] + "'"; str decl; for (auto &p : opts) decl += " " + p.first + "|" + p.second;
  if ((r != 0) != ok) { why = str(ok ? "rejected" : "accepted") + ":" + line + " declared:" + decl; return true; }
  for (size_t i = 0; i < argv.size(); ++i) if (argv[i] != buf[i].data()) { why = "argument modified"; return true; }
  if (ok) for (auto &p : opts) { bool set = given.count(p.first); if (cmd.isSet(p.first) != set) { why = str(set ? "not set: " : "set: ") + p.first + " in" + line; return true; } str want = set ? given[p.first] : ""; if (cmd.getArgument(p.first) != want) { why = "argument of " + p.first + " is '" + cmd.getArgument(p.first) + "' in" + line; return true; } }
  auto shows = [&](const str &t, size_t k) { // names and text of this option, in this order
    size_t at = 0; for (const str &s : {opts[k].first, opts[k].second, k ? "help text " + std::to_string(k) + " of it" : str("")}) { at = t.find(s, at); if (at == str::npos) return false; at += s.size(); } return true; };
  if (ok && given.count("-h")) for (size_t k = 0; k < opts.size(); ++k) if (!shows(text, k)) { why = "help does not show " + opts[k].first + " declared:" + decl; return true; }
  if (!a.empty()) { size_t k = a[0] % opts.size(); str t = captured([&] { cmd.printHelp(a[1] & 1 ? opts[k].first : opts[k].second); }); if (!shows(t, k)) { why = "help of " + opts[k].first + " is '" + t + "'"; return true; } }
  return false;
}
static rc::Gen<str> word(const str &alphabet, int minlen) { return rc::gen::map(rc::gen::resize(7, rc::gen::container<str>(rc::gen::elementOf(alphabet))), [=](str s) { while ((int)s.size() < minlen) s += alphabet[0]; return s; }); }
static rc::Gen<Case> gen22() {
  auto nm = rc::gen::weightedOneOf<str>({{4, rc::gen::map(word("nsabr", 1), [](const str &s) { return "-" + s; })}, {4, rc::gen::map(word("nsabr-", 1), [](const str &s) { return "--" + s; })}, {1, word("ab-. \xc3\xa9/", 1)}, {2, rc::gen::elementOf(std::vector<str>{"-n", "-s", "-R", "-T", "-r", "-M", "-m", "-p", "--nick", "--size", "--reference", "--test", "--help2", "-hh", "--nicknames", "--hel"})}});
  auto lit = rc::gen::weightedOneOf<str>({{4, word("ab=,.- 1\t\"'\\\xff", 0)}, {2, rc::gen::elementOf(std::vector<str>{"", "=", "==", "a=b", "-n", "--nick", "-n=3", "--help", "-h", "0", "-", "--", "file one.txt,b.txt", "a=b=c=", "%s%n"})}});
  auto dist = rc::gen::weightedElement<uint64_t>({{28, 0}, {1, 1}, {1, 2}, {1, 3}, {1, 4}, {1, 5}, {1, 6}, {1, 7}, {1, 8}, {1, 9}, {2, 10}});
  return rc::gen::apply([](const std::vector<str> &n, const std::vector<str> &l, const u64v &a) { Case c; c.s["names"] = n; c.s["lit"] = l; c.n["args"] = a; return c; }, rc::gen::scale(0.2, rc::gen::container<std::vector<str>>(nm)), rc::gen::scale(0.1, rc::gen::container<std::vector<str>>(lit)), g::rows({g::upto(30), g::upto(3), g::upto(100), dist}, 9, 100));
}

// ---------------------------------------------------------------- P23
template <class T> struct Cat { typedef std::function<T(T)> F; typedef std::function<T(T, T)> F2; std::map<str, std::pair<F, char>> one; std::map<str, F2> two; };
static Cat<double> catalogue(double) {
  Cat<double> c;
  c.one = {{"Identity", {[](double x) { return x; }, 's'}}, {"Exp", {[](double x) { return ::exp(x); }, 'e'}}, {"Log", {[](double x) { return ::log(x); }, 'p'}}, {"Sin", {[](double x) { return ::sin(x); }, 's'}}, {"Cos", {[](double x) { return ::cos(x); }, 's'}}, {"Tan", {[](double x) { return ::tan(x); }, 's'}}, {"Tanh", {[](double x) { return ::tanh(x); }, 's'}}, {"Asin", {[](double x) { return ::asin(x); }, 'm'}}, {"Acos", {[](double x) { return ::acos(x); }, 'm'}}, {"Atan", {[](double x) { return ::atan(x); }, 's'}}, {"Isqrt", {[](double x) { return vdt::isqrt(x); }, 'p'}}, {"Inverse", {[](double x) { return vdt::inv(x); }, 's'}},
    {"Fast_Exp", {[](double x) { return vdt::fast_exp(x); }, 'e'}}, {"Fast_Log", {[](double x) { return vdt::fast_log(x); }, 'p'}}, {"Fast_Sin", {[](double x) { return vdt::fast_sin(x); }, 's'}}, {"Fast_Cos", {[](double x) { return vdt::fast_cos(x); }, 's'}}, {"Fast_Tan", {[](double x) { return vdt::fast_tan(x); }, 's'}}, {"Fast_Tanh", {[](double x) { return vdt::fast_tanh(x); }, 's'}}, {"Fast_Asin", {[](double x) { return vdt::fast_asin(x); }, 'm'}}, {"Fast_Acos", {[](double x) { return vdt::fast_acos(x); }, 'm'}}, {"Fast_Atan", {[](double x) { return vdt::fast_atan(x); }, 's'}}, {"Fast_Isqrt", {[](double x) { return vdt::fast_isqrt(x); }, 'p'}}, {"Fast_Inv", {[](double x) { return vdt::fast_inv(x); }, 's'}}, {"Fast_Apr_Isqrt", {[](double x) { return vdt::fast_approx_isqrt(x); }, 'p'}}, {"Fast_Apr_Inv", {[](double x) { return vdt::fast_approx_inv(x); }, 's'}}};
  c.two = {{"Identity2D", nullptr}, {"Atan2", [](double x, double y) { return ::atan2(x, y); }}, {"Fast_Atan2", [](double x, double y) { return vdt::fast_atan2(x, y); }}}; return c;
}
static Cat<float> catalogue(float) {
  Cat<float> c;
  c.one = {{"Identity", {[](float x) { return x; }, 's'}}, {"Exp", {[](float x) { return ::expf(x); }, 'e'}}, {"Log", {[](float x) { return ::logf(x); }, 'p'}}, {"Sin", {[](float x) { return ::sinf(x); }, 's'}}, {"Cos", {[](float x) { return ::cosf(x); }, 's'}}, {"Tan", {[](float x) { return ::tanf(x); }, 's'}}, {"Tanh", {[](float x) { return ::tanhf(x); }, 's'}}, {"Asin", {[](float x) { return ::asinf(x); }, 'm'}}, {"Acos", {[](float x) { return ::acosf(x); }, 'm'}}, {"Atan", {[](float x) { return ::atanf(x); }, 's'}}, {"Isqrt", {[](float x) { return vdt::isqrtf(x); }, 'p'}}, {"Inverse", {[](float x) { return vdt::invf(x); }, 's'}},
    {"Fast_Exp", {[](float x) { return vdt::fast_expf(x); }, 'e'}}, {"Fast_Log", {[](float x) { return vdt::fast_logf(x); }, 'p'}}, {"Fast_Sin", {[](float x) { return vdt::fast_sinf(x); }, 's'}}, {"Fast_Cos", {[](float x) { return vdt::fast_cosf(x); }, 's'}}, {"Fast_Tan", {[](float x) { return vdt::fast_tanf(x); }, 's'}}, {"Fast_Tanh", {[](float x) { return vdt::fast_tanhf(x); }, 's'}}, {"Fast_Asin", {[](float x) { return vdt::fast_asinf(x); }, 'm'}}, {"Fast_Acos", {[](float x) { return vdt::fast_acosf(x); }, 'm'}}, {"Fast_Atan", {[](float x) { return vdt::fast_atanf(x); }, 's'}}, {"Fast_Isqrt", {[](float x) { return vdt::fast_isqrtf(x); }, 'p'}}, {"Fast_Inv", {[](float x) { return vdt::fast_invf(x); }, 's'}}, {"Fast_Apr_Isqrt", {[](float x) { return vdt::fast_approx_isqrtf(x); }, 'p'}}, {"Fast_Apr_Inv", {[](float x) { return vdt::fast_approx_invf(x); }, 's'}}};
  c.two = {{"Identity2D", nullptr}, {"Atan2", [](float x, float y) { return ::atan2f(x, y); }}, {"Fast_Atan2", [](float x, float y) { return vdt::fast_atan2f(x, y); }}}; return c;
}
template <class T> bool sameval(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }
template <class T> static bool p23(const Case &c, str &why) {
  static const Cat<T> cat = catalogue(T()); const u64v &p = c.n.at("pools"); const str suf = sizeof(T) == 4 ? "f" : "";
  auto sz = [&](int k) { return 1 + p[(size_t)k] % 24; }; auto sd = [&](int k) { return (int32_t)(p[(size_t)k] >> 8); };
  randomPool<T> sym(-5000, 5000, sz(0), sd(0)), pos((T)1e-4, 5000, sz(1), sd(1)), one(-1, 1, sz(2), sd(2)), ex(sizeof(T) == 8 ? -705 : -85, sizeof(T) == 8 ? 705 : 85, sz(3), sd(3)); randomPool2D<T> two(-1, -7, 1, 9, sz(4), sd(4));
  const u64v ps = bitsv(sym.getNumbers()), pp = bitsv(pos.getNumbers()), pm = bitsv(one.getNumbers()), pe = bitsv(ex.getNumbers()), px = bitsv(two.getNumbersX()), py = bitsv(two.getNumbersY());
  std::vector<T> extra; for (uint64_t b : c.n.at("vals")) extra.push_back(real<T>(b));
  auto want_pool = [&](char k) -> const u64v & { return k == 's' ? ps : k == 'p' ? pp : k == 'm' ? pm : pe; };
  std::set<str> seen;
  auto base = [&](const str &name, bool arr, str &b) { str s = suf + (arr ? "v" : ""); if (name.size() <= s.size() || name.compare(name.size() - s.size(), str::npos, s)) return false; b = name.substr(0, name.size() - s.size()); return true; };
  auto bad = [&](const str &n, const str &w) { why = n + ": " + w; return true; };
  auto fmt = [](T x) { std::ostringstream o; o << std::setprecision(17) << x; return o.str(); };
  { std::vector<genfpfcn_tuple<T>> t; getFunctionTuples(&t, sym, pos, one, ex); getFunctionTuples(&t, sym, pos, one, ex);
    for (auto &e : t) { const str &n = std::get<0>(e); str b; if (!seen.insert(n).second) return bad(n, "name occurs twice"); if (!base(n, false, b) || !cat.one.count(b)) continue; auto &f = cat.one.at(b); str d = firstdiff(bitsv(std::get<2>(e)), want_pool(f.second)); if (!d.empty()) return bad(n, "not attached to its pool: " + d);
      std::vector<T> args(std::get<2>(e)); args.insert(args.end(), extra.begin(), extra.end()); for (T x : args) if (!sameval(std::get<1>(e)(x), f.first(x))) return bad(n, "at " + fmt(x) + " gives " + fmt(std::get<1>(e)(x)) + " instead of " + fmt(f.first(x))); }
    for (auto &k : cat.one) if (!seen.count(k.first + suf)) return bad(k.first + suf, "missing"); }
  { std::vector<genfpfcnv_tuple<T>> t; getFunctionTuplesvect(&t, sym, pos, one, ex); getFunctionTuplesvect(&t, sym, pos, one, ex);
    for (auto &e : t) { const str &n = std::get<0>(e); str b; if (!seen.insert(n).second) return bad(n, "name occurs twice"); if (!base(n, true, b) || !cat.one.count(b)) continue; auto &f = cat.one.at(b); str d = firstdiff(bitsv(std::get<2>(e)), want_pool(f.second)); if (!d.empty()) return bad(n, "not attached to its pool: " + d);
      std::vector<T> args(std::get<2>(e)); args.insert(args.end(), extra.begin(), extra.end()); std::vector<T> in(args), out(args.size() + 1, (T)42); std::get<1>(e)((uint32_t)args.size(), in.data(), out.data()); for (size_t i = 0; i < args.size(); ++i) if (!sameval(out[i], f.first(args[i]))) return bad(n, "at " + fmt(args[i]) + " gives " + fmt(out[i]) + " instead of " + fmt(f.first(args[i]))); }
    for (auto &k : cat.one) if (!seen.count(k.first + suf + "v")) return bad(k.first + suf + "v", "missing"); }
  { std::vector<genfpfcn2D_tuple<T>> t; getFunctionTuples(&t, two); getFunctionTuples(&t, two); std::vector<genfpfcn2Dv_tuple<T>> tv; getFunctionTuplesvect(&tv, two); getFunctionTuplesvect(&tv, two);
    std::vector<T> ax(two.getNumbersX()), ay(two.getNumbersY()); for (size_t i = 0; i + 1 < extra.size(); i += 2) { ax.push_back(extra[i]); ay.push_back(extra[i + 1]); }
    auto skip2 = [](T a, T b) { return a != a || b != b || (std::isinf(a) && std::isinf(b)); };
    for (auto &e : t) { const str &n = std::get<0>(e); str b; if (!seen.insert(n).second) return bad(n, "name occurs twice"); if (!base(n, false, b) || !cat.two.count(b)) continue; auto &f = cat.two.at(b); str d = firstdiff(bitsv(std::get<2>(e)), px); if (d.empty()) d = firstdiff(bitsv(std::get<3>(e)), py); if (!d.empty()) return bad(n, "not attached to its pool: " + d);
      if (f) for (size_t i = 0; i < ax.size(); ++i) if (!skip2(ax[i], ay[i]) && !sameval(std::get<1>(e)(ax[i], ay[i]), f(ax[i], ay[i]))) return bad(n, "at " + fmt(ax[i]) + ", " + fmt(ay[i]) + " gives " + fmt(std::get<1>(e)(ax[i], ay[i])) + " instead of " + fmt(f(ax[i], ay[i]))); }
    for (auto &e : tv) { const str &n = std::get<0>(e); str b; if (!seen.insert(n).second) return bad(n, "name occurs twice"); if (!base(n, true, b) || !cat.two.count(b)) continue; auto &f = cat.two.at(b); str d = firstdiff(bitsv(std::get<2>(e)), px); if (d.empty()) d = firstdiff(bitsv(std::get<3>(e)), py); if (!d.empty()) return bad(n, "not attached to its pool: " + d);
      std::vector<T> ix(ax), iy(ay), out(ax.size() + 1, (T)42); std::get<1>(e)((uint32_t)ax.size(), ix.data(), iy.data(), out.data()); if (f) for (size_t i = 0; i < ax.size(); ++i) if (!skip2(ax[i], ay[i]) && !sameval(out[i], f(ax[i], ay[i]))) return bad(n, "at " + fmt(ax[i]) + ", " + fmt(ay[i]) + " gives " + fmt(out[i]) + " instead of " + fmt(f(ax[i], ay[i]))); }
    for (auto &k : cat.two) for (str s : {suf, suf + "v"}) if (!seen.count(k.first + s)) return bad(k.first + s, "missing"); }
  std::vector<str> names; getFunctionBasicNames(&names); std::set<str> bn(names.begin(), names.end()); if (bn.size() != names.size()) return bad("basic names", "repeated"); for (auto &k : cat.one) { bool basic = k.first.find("Fast") == str::npos && k.first != "Identity"; if (basic && !bn.count(k.first)) return bad("basic names", k.first + " missing"); if (!basic && bn.count(k.first)) return bad("basic names", k.first + " present"); }
  return false;
}
static rc::Gen<Case> gen23() { return rc::gen::apply([](const u64v &p, const u64v &v) { Case c; c.n["pools"] = p; c.n["vals"] = v; return c; }, rc::gen::container<u64v>(5, g::any64()), rc::gen::scale(0.6, rc::gen::container<u64v>(g::pattern()))); }

// ---------------------------------------------------------------- P32: listings on the screen
// the numbers of a line: words between blanks, commas, parentheses and equal signs which are numbers as a whole
static std::vector<str> numbers_of(const str &line) {
  std::vector<str> r; str w; for (size_t i = 0; i <= line.size(); ++i) { char ch = i < line.size() ? line[i] : ' '; if (!strchr(" \t,()=", ch)) { w += ch; continue; } if (!w.empty()) { char *e; (void)strtod(w.c_str(), &e); if (!*e) r.push_back(w); } w.clear(); } return r;
}
template <class T> bool listing_ok(const str &text, const Model &m, bool comparison, str &why) {
  std::vector<str> lines; { std::istringstream is(text); str l; while (std::getline(is, l)) lines.push_back(l); }
  const size_t n = m.col[0].size(), cols = m.col.size() - (comparison ? 1 : 0); const str total = "/" + std::to_string(n); size_t at = 0; uint64_t base = 0;
  for (size_t i = 0; i < n; ++i) {
    if (i == 0) { while (at < lines.size() && lines[at].compare(0, total.size() + 1, "0" + total) && lines[at].compare(0, total.size() + 1, "1" + total)) ++at; if (at < lines.size()) base = (uint64_t)(lines[at][0] - '0'); }
    if (at >= lines.size()) { why = "entry " + std::to_string(i) + " of " + std::to_string(n) + " is not printed"; return false; }
    const str &l = lines[at++], pos = std::to_string(base + i) + total; if (l.compare(0, pos.size(), pos) || (l.size() > pos.size() && isdigit(l[pos.size()]))) { why = "'" + l + "' instead of entry " + pos; return false; }
    std::vector<str> w = numbers_of(l.substr(pos.size())), want; const size_t need = cols + (comparison ? 3 : 0); if (w.size() < need) { why = "'" + l + "' has " + std::to_string(w.size()) + " numbers"; return false; } w.erase(w.begin(), w.end() - (long)need);
    for (size_t k = 0; k < cols; ++k) { T x = rawbits<T>(m.col[k][i]); long double v = strtold(w[k].c_str(), 0), tol = std::pow(10., 1 - std::numeric_limits<T>::digits10) * std::fabs((long double)x); bool ok = x != x ? v != v : std::isinf(x) ? v == (long double)x : std::fabs(v - (long double)x) <= tol; if (!ok) { std::ostringstream o; o << std::setprecision(17) << (double)x; why = "'" + l + "' shows " + w[k] + " for " + o.str(); return false; } }
    if (comparison) for (size_t k = 0; k < 3; ++k) { const size_t c = cols - 2 + k; uint64_t v = strtoull(w[cols + k].c_str(), 0, k < 2 ? 16 : 10); if (v != m.col[c][i]) { why = "'" + l + "' shows " + w[cols + k] + " for " + (k < 2 ? hex(m.col[c][i]) : std::to_string(m.col[c][i])); return false; } }
  }
  for (; at < lines.size(); ++at) if (!comparison && lines[at].find(total) != str::npos) { why = "more than " + std::to_string(n) + " entries printed"; return false; }
  if (comparison) return printed_ok(text, false, stats_of(m.col.back()), why);
  return true;
}
// a history of objects on one screen; each one is printed, some are written to a file and read back before, tables of statistics in between
template <class T> bool p32(const Case &c, str &why) {
  std::cout.copyfmt(std::ios(nullptr)); const u64v &o = c.n.at("ops"); const size_t W = 8;
  for (size_t i = 0; i + W <= o.size(); i += W) {
    const int kind = (int)(o[i] % 6); const bool via = o[i + 1] & 1, two = kind & 1; const uint64_t tables = o[i + 1] >> 1, len = kind >= 4 ? std::max<uint64_t>(1, o[i + 2]) : o[i + 2], k = o[i + 6]; const str name = std::vector<str>{"f", "Fast_Exp", "Some Function 0x12 name", "a/3 2/5", "x = ( 7 )"}[o[i + 7] % 5]; str text; Model m;
    auto show = [&](auto *obj) { typedef typename std::remove_pointer<decltype(obj)>::type O; std::unique_ptr<O> p(obj); if (via) { p->writeFile("list"); p.reset(new O(str("list"))); } text = captured([&] { p->print(); }); };
    std::vector<T> in1 = slice<T>(c, o[i + 3], len), in2 = slice<T>(c, o[i + 4], len), o1, o2;
    if (kind < 2) { T a = g::finite<T>(o[i + 3] * 0x9e3779b97f4a7c15ull), b = g::finite<T>(o[i + 6]); if (o[i + 5] & 1) { a = -1; b = 1; } if (a > b) std::swap(a, b);
      if (two) { auto *p = new Pool<T, 2>(a, a, b, b, len, (int32_t)k); m = p->data(); show(p); } else { auto *p = new Pool<T, 1>(a, a, b, b, len, (int32_t)k); m = p->data(); show(p); } }
    else if (kind < 4) {
      if (two) { auto *p = new Resp2<T>(name, in1, in2, std::function<T(T, T)>([k](T x, T y) { return bithash(x, y, k); })); m = p->data(); show(p); } else { auto *p = new Resp1<T>(name, in1, std::function<T(T)>([k](T x) { return bithash(x, k); })); m = p->data(); show(p); } }
    else { u64v db; for (size_t j = 0; j < len; ++j) { T x = bithash(in1[j], k), y = mix(k, j) & 3 ? rawbits<T>(bits(x) + mix(k, j) % 7 - 3) : bithash(in2[j], k + 1); if (y != y) y = std::copysign(std::numeric_limits<T>::quiet_NaN(), y); o1.push_back(x); o2.push_back(y); db.push_back(model_diffbit(bits(x), bits(y))); }
      auto table = [&](auto &q) { if (tables & 1) captured([&] { q.printStats(tables & 2); }); };
      if (two) { m = Model{{bitsv(in1), bitsv(in2), bitsv(o1), bitsv(o2), db}}; Comp<T, 2> q("t", in1, in2, o1, o2); if (tables & 4) table(q); show(new Comp<T, 2>(name, in1, in2, o1, o2)); if (!(tables & 4)) table(q); }
      else { m = Model{{bitsv(in1), bitsv(o1), bitsv(o2), db}}; Comp<T, 1> q("t", in1, o1, o2); if (tables & 4) table(q); show(new Comp<T, 1>(name, in1, o1, o2)); if (!(tables & 4)) table(q); } }
    str w; if (!listing_ok<T>(text, m, kind >= 4, w)) { static const char *K[] = {"pool 1D", "pool 2D", "response 1D", "response 2D", "comparison 1D", "comparison 2D"}; why = str(K[kind]) + (via ? " read from file" : "") + ", object " + std::to_string(i / W) + ": " + w; return true; }
  }
  return false;
}
static rc::Gen<Case> gen32(uint64_t big) {
  auto len = big ? rc::gen::elementOf(u64v{65536, 65537, big}) : rc::gen::weightedOneOf<uint64_t>({{8, g::upto(5)}, {3, g::upto(30)}, {1, g::upto(300)}});
  return rc::gen::apply([](const u64v &o, const u64v &v) { Case c; c.n["ops"] = o; c.n["vals"] = v; return c; }, g::rows({g::upto(5), g::upto(15), len, rc::gen::weightedOneOf<uint64_t>({{6, g::upto(40)}, {1, g::any64()}}), g::upto(40), g::upto(3), g::any64(), g::upto(4)}, big ? 6 : 12, 100), values());
}

// ---------------------------------------------------------------- P25: a clock that only the measured function advances
static bool fake = false; static int64_t fake_ns = 0; static uint64_t clock_reads = 0;
#include <sys/syscall.h>
extern "C" int clock_gettime(clockid_t id, struct timespec *t) noexcept { if (!fake) return (int)syscall(SYS_clock_gettime, id, t); ++clock_reads; int64_t r = id == CLOCK_THREAD_CPUTIME_ID ? fake_ns : fake_ns % 2000000000000000000 + (int64_t)clock_reads * 1234567891; /* what others do takes time on the other clocks */ t->tv_sec = r / 1000000000; t->tv_nsec = r % 1000000000; return 0; }
struct Fake { Fake(int64_t base) { fake_ns = base; clock_reads = 0; fake = true; } ~Fake() { fake = false; } };
static bool p25_timer(const Case &c, str &why) {
  const u64v &r = c.n.at("readings"); vdth::timer t; Fake f(0);
  for (size_t i = 0; i + 2 <= r.size(); i += 2) { // pairs (start, difference), several on one timer
    int64_t a = (int64_t)(r[i] % 4000000000000000000ull), d = (int64_t)(r[i + 1] % 4000000000000000000ull); fake_ns = a; t.start(); fake_ns = a + d; t.stop(); fake_ns = 7; uint64_t got = t.get_elapsed_time(), again = t.get_elapsed_time();
    if (got != (uint64_t)d || again != got) { why = "from " + std::to_string(a) + " ns to " + std::to_string(a + d) + " ns: elapsed " + std::to_string(got) + " ns"; return true; }
    str s = captured([&] { t.print(); }); size_t b = s.find_first_of("0123456789"); if (b == str::npos || strtoull(s.c_str() + b, 0, 10) != (uint64_t)d) { why = std::to_string(d) + " ns elapsed: prints '" + s + "'"; return true; }
  }
  return false;
}
static rc::Gen<uint64_t> nanos() { const uint64_t S = 1000000000; return rc::gen::weightedOneOf<uint64_t>({{3, g::upto(3 * S)}, {3, g::any64()}, {3, rc::gen::apply([=](uint64_t s, uint64_t d) -> uint64_t { return s * S + d - (s ? 3 : 0); }, g::upto(5), g::upto(6))}, {2, rc::gen::apply([=](uint64_t s, uint64_t d) -> uint64_t { return s * S + d; }, g::upto(10000000), g::upto(S - 1))}, {1, rc::gen::elementOf(u64v{0, 1, S - 1, S, S + 1, 4294967295ull, 4294967296ull, 4294967296ull * S % 4000000000000000000ull, 2147483647ull * S, 2147483648ull * S, 4294967295, 18446744073ull * 100})}}); }
template <class T> bool p25_perf(const Case &c, str &why) {
  const u64v &q = c.n.at("cfg"); const int kind = (int)(q[0] % 4); uint64_t size = std::max<uint64_t>(1, q[1]), reps = std::max<uint64_t>(1, q[2]); const uint64_t costmode = q[4], costmax = q[5] % 2000000000ull, warm = q[6] % 3000000000ull, h = q[7];
  std::vector<T> in1 = slice<T>(c, q[8], size), in2 = slice<T>(c, q[9], size); const u64v b1 = bitsv(in1), b2 = bitsv(in2);
  uint64_t call = 0, pass = 0, measured = 0; std::map<uint64_t, uint64_t> rep; str trouble; const bool two = kind & 1, arr = kind & 2;
  // cost of one call (or pass) of the function: the warm up passes are slower
  auto advance = [&](uint64_t idx, uint64_t p) { uint64_t k = costmode == 0 ? costmax : costmode == 1 ? (costmax ? mix(h, idx) % (costmax + 1) : 0) : costmode == 2 ? (idx % 97 == 0 ? costmax : 3) : 0; if (p < reps) k += warm; else { measured += k; rep[p] += k; } fake_ns += (int64_t)k; };
  auto scalar = [&](T x, T y) -> T { uint64_t i = call % size, p = call / size; if (bits(x) != b1[i] || (two && bits(y) != b2[i])) { if (trouble.empty()) trouble = "call " + std::to_string(call) + " has the wrong argument"; } advance(call, p); ++call; return (T)((double)(call % 16) - 8); };
  auto array = [&](uint32_t n, T *x, T *y, T *r) { if (n != size) { trouble = "array length " + std::to_string(n); n = (uint32_t)std::min<uint64_t>(n, size); } for (uint32_t i = 0; i < n; ++i) { if (bits(x[i]) != b1[i] || (two && bits(y[i]) != b2[i])) if (trouble.empty()) trouble = "pass " + std::to_string(pass) + " entry " + std::to_string(i) + " has the wrong argument"; r[i] = (T)((double)(i % 16) - 8); } advance(pass, pass); ++pass; call += n; };
  std::unique_ptr<fcnPerformance<T>> p; const str name = q[10] & 1 ? "a : 12.5 +- 3 ns" : "Fast_Exp"; bool dflt = q[10] & 2; if (dflt) reps = 10; uint32_t R = (uint32_t)reps;
  { Fake f((int64_t)(q[3] % 1000000000000000000ull));
    if (kind == 0) { std::function<T(T)> fn = [&](T x) { return scalar(x, x); }; p.reset(dflt ? new fcnPerformance<T>(name, in1, fn) : new fcnPerformance<T>(name, in1, fn, R)); }
    if (kind == 1) { std::function<T(T, T)> fn = scalar; p.reset(dflt ? new fcnPerformance<T>(name, in1, in2, fn) : new fcnPerformance<T>(name, in1, in2, fn, R)); }
    if (kind == 2) { std::function<void(uint32_t, T *, T *)> fn = [&](uint32_t n, T *x, T *r) { array(n, x, x, r); }; p.reset(dflt ? new fcnPerformance<T>(name, in1, fn) : new fcnPerformance<T>(name, in1, fn, R)); }
    if (kind == 3) { std::function<void(uint32_t, T *, T *, T *)> fn = array; p.reset(dflt ? new fcnPerformance<T>(name, in1, in2, fn) : new fcnPerformance<T>(name, in1, in2, fn, R)); } }
  std::ostringstream w; w << std::setprecision(17) << (arr ? "array" : "scalar") << (two ? " 2D" : "") << ", " << size << " numbers, " << reps << " repetitions: ";
  if (!trouble.empty()) { why = w.str() + trouble; return true; }
  if (call != 2 * size * reps) { w << call << " calls"; why = w.str(); return true; }
  if (bitsv(in1) != b1 || bitsv(in2) != b2) { why = w.str() + "inputs modified"; return true; }
  double want = (double)((long double)measured / ((long double)size * reps)), got = p->getAvg(), err = p->getAvgErr(); const double rel = sizeof(T) == 8 ? 1e-12 : 1e-6;
  if (!closeto(got, want, rel * want)) { w << "average " << got << " instead of " << want; why = w.str(); return true; }
  if (size * reps > 1 && !(err >= 0 && std::isfinite(err))) { w << "error of the average is " << err; why = w.str(); return true; }
  if (reps > 1) { // standard error of the mean of the repetitions, per call; the sums of squares lose half of the digits
    long double m = (long double)measured / reps, v = 0; for (auto &r : rep) v += (r.second - m) * (r.second - m); v += m * m * (reps - rep.size()); double se = (double)(sqrtl(v / (reps - 1) / reps) / size);
    if (!closeto(err, se, (sizeof(T) == 8 ? 1e-7 : 1e-6) * (se + want))) { w << "error of the average is " << err << " instead of " << se; why = w.str(); return true; } }
  for (double scale : {1., 3., want * (double)(1 + h % 40), (double)(h >> 32)}) { std::ostringstream o; p->print(o, scale); str t = o.str(); size_t a = t.find(name); size_t e = a == str::npos ? a : t.find(" : ", a + name.size()); double v = e == str::npos ? NAN : strtod(t.c_str() + e + 3, 0); if (!closeto(v, want, 0.00501 + 1e-9 * want)) { w << "prints '" << t << "' for an average of " << want; why = w.str(); return true; }
    size_t s = t.find("--> ", e); if (std::fabs(scale - 1) > 1e-6 && want > 0 && (s == str::npos || !closeto(strtod(t.c_str() + s + 4, 0), scale / want, 0.00501 + rel * scale / want))) { w << "prints '" << t << "' for a speedup of " << scale / want; why = w.str(); return true; } }
  return false;
}
static rc::Gen<Case> gen25p() {
  auto size = rc::gen::weightedOneOf<uint64_t>({{6, g::upto(10)}, {2, g::upto(80)}, {1, g::upto(2000)}}), reps = rc::gen::weightedOneOf<uint64_t>({{6, g::upto(6)}, {1, g::upto(40)}});
  auto cost = rc::gen::weightedOneOf<uint64_t>({{3, g::upto(100)}, {2, g::upto(100000)}, {2, g::upto(2000000000)}, {1, rc::gen::just<uint64_t>(0)}});
  return rc::gen::apply([](const u64v &q, const u64v &v) { Case c; u64v r(q); r.resize(11, 0); c.n["cfg"] = r; c.n["vals"] = v; return c; },
    rc::gen::exec([=] { u64v r; for (auto &x : std::vector<rc::Gen<uint64_t>>{g::upto(3), size, reps, nanos(), g::upto(3), cost, cost, g::any64(), rc::gen::weightedOneOf<uint64_t>({{6, g::upto(40)}, {1, g::any64()}}), g::upto(40), g::upto(3)}) r.push_back(*x); return r; }), values());
}
// more than 2^32 timed calls in total
static bool p25_huge(const Case &c, str &why) {
  const uint64_t k = c.n.at("k")[0]; const uint32_t size = 1u << 24, reps = 257 + (uint32_t)k; std::vector<float> in(size, 1.f); uint64_t pass = 0; Fake f(5);
  std::function<void(uint32_t, float *, float *)> fn = [&](uint32_t n, float *, float *r) { if (pass == 0) memset(r, 0, 4ull * n); ++pass; fake_ns += 1000000; };
  fcnPerformance<float> p("x", in, fn, reps); double want = 1e6 / size; if (!closeto(p.getAvg(), want, 1e-6 * want) || pass != 2 * reps) { why = "average " + std::to_string(p.getAvg()) + " instead of " + std::to_string(want); return true; } return false;
}

int main(int argc, char **argv) {
  parse_roptions(argc, argv); std::vector<Prop> p; str rule;
#if PROP == 18
    auto nt = [](const Case &c) { return has_roundtrip(c, 10); };
    p = {{"pool 1D double", gen18(3000), p18<double, 1>, nt, 50000, 400000}, {"pool 1D float", gen18(3000), p18<float, 1>, nt, 50000, 400000}, {"pool 2D double", gen18(3000), p18<double, 2>, nt, 50000, 400000}, {"pool 2D float", gen18(3000), p18<float, 2>, nt, 50000, 400000}, {"long pool 1D", gen18(70000), p18<double, 1>, nt, 160, 3000}, {"long pool 2D", gen18(70000), p18<float, 2>, nt, 160, 3000}};
    rule = "a history counts as non trivial if it creates a pool and has at least one write that is read back";
#endif
#if PROP == 19
    auto nt = [](const Case &c) { return has_roundtrip(c, 9); };
    p = {{"response 1D double", gen19(600), p19<double, 1>, nt, 60000, 600000}, {"response 1D float", gen19(600), p19<float, 1>, nt, 60000, 600000}, {"response 2D double", gen19(600), p19<double, 2>, nt, 60000, 600000}, {"response 2D float", gen19(600), p19<float, 2>, nt, 60000, 600000}, {"long response 1D", gen19(70000), p19<float, 1>, nt, 160, 3000}, {"long response 2D", gen19(70000), p19<double, 2>, nt, 160, 3000}};
    rule = "a history counts as non trivial if it builds a response and has at least one write that is read back";
#endif
#if PROP == 20
    auto nt = [](const Case &c) { return has_roundtrip(c, 11); }; auto big = [](const Case &c) { return c.n.at("ops")[7] > 1000; };
    p = {{"comparison 1D double", gen20(600), p20<double, 1>, nt, 5000, 80000}, {"comparison 1D float", gen20(600), p20<float, 1>, nt, 5000, 80000}, {"comparison 2D double", gen20(600), p20<double, 2>, nt, 5000, 80000}, {"comparison 2D float", gen20(600), p20<float, 2>, nt, 5000, 80000}, {"long comparison 1D", gen20(70000), p20<float, 1>, nt, 64, 1500}, {"long comparison 2D", gen20(70000), p20<double, 2>, nt, 64, 1500}, {"few differences double", gen20long(), p20<double, 1>, big, 240, 3000}, {"few differences float", gen20long(), p20<float, 2>, big, 240, 3000}};
    rule = "a history counts as non trivial if it builds a comparison and has at least one write that is read back, a single comparison if it has more than 1000 entries";
#endif
#if PROP == 32
    auto nt = [](const Case &c) { return c.n.at("ops").size() >= 16; };
    p = {{"listings double", gen32(0), p32<double>, nt, 60000, 1000000}, {"listings float", gen32(0), p32<float>, nt, 60000, 1000000}, {"long listings double", gen32(70000), p32<double>, nt, 80, 1000}, {"long listings float", gen32(70000), p32<float>, nt, 80, 1000}};
    rule = "a history counts as non trivial if at least two objects are printed";
#endif
#if PROP == 21
    auto nt = [](const Case &c) { return c.n.at("pairs").size() >= 6; };
    p = {{"bits double", gen21(), p21<double>, nt, 240000, 3000000}, {"bits float", gen21(), p21<float>, nt, 240000, 3000000}, {"printed double", gen21(), p21_print<double>, nt, 20000, 300000}, {"printed float", gen21(), p21_print<float>, nt, 20000, 300000}};
    rule = "a list counts as non trivial if it has at least two pairs of numbers";
#endif
#if PROP == 22
    p = {{"command lines", gen22(), p22, [](const Case &c) { return c.n.at("args").size() >= 8 && c.s.at("names").size() >= 4; }, 600000, 8000000}};
    rule = "a command line counts as non trivial if it has at least two arguments and at least two options besides help were proposed";
#endif
#if PROP == 23
    auto nt = [](const Case &c) { return c.n.at("vals").size() >= 4; };
    p = {{"catalogue double", gen23(), p23<double>, nt, 200000, 2000000}, {"catalogue float", gen23(), p23<float>, nt, 200000, 2000000}};
    rule = "pools plus at least four further arguments, at which all entries are evaluated";
#endif
#if PROP == 25
    auto nt = [](const Case &c) { return c.n.at("cfg")[1] > 1 && c.n.at("cfg")[2] > 1; };
    p = {{"timer", rc::gen::map(g::rows({nanos(), nanos()}), [](const u64v &v) { Case c; c.n["readings"] = v; return c; }), p25_timer, [](const Case &c) { for (uint64_t x : c.n.at("readings")) if (x > 1000000000) return true; return false; }, 200000, 3000000},
         {"performance double", gen25p(), p25_perf<double>, nt, 150000, 2500000}, {"performance float", gen25p(), p25_perf<float>, nt, 150000, 2500000}};
    if (ropt().tier == "thorough" || !ropt().replay.empty()) p.push_back({"more than 2^32 calls", rc::gen::map(g::upto(3), [](uint64_t k) { Case c; c.n["k"] = {k}; return c; }), p25_huge, [](const Case &) { return true; }, 1, 8});
    rule = "timer readings beyond one second; measurements with at least two inputs and two repetitions";
#endif
  return run_props(p, rule);
}
