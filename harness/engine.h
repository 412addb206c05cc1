// Point engine: generated-input search over numeric arguments.
//  - enumerates all 2^32 floats or draws arguments from weighted strata
//  - deterministic function of (seed, task, chunk number), independent of thread timing
//  - first failing chunk wins; the failing argument is shrunk greedily
#ifndef ENGINE_H
#define ENGINE_H
#include <algorithm>
#include <atomic>
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include "sut.h"

typedef std::string str;

// ---------------------------------------------------------------- utilities
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    s += 0xa0761d6478bd642full;
    __uint128_t t = (__uint128_t)s * (s ^ 0xe7037ed1a0b428dbull);
    return (uint64_t)(t >> 64) ^ (uint64_t)t;
  }
  uint64_t below(uint64_t n) { return (uint64_t)(((__uint128_t)next() * n) >> 64); }
  double unit() { return (next() >> 11) * 0x1p-53; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull);
  x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32;
  return x;
}
inline uint64_t hashstr(const str &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

template <class T> struct FT;
template <> struct FT<double> { typedef uint64_t U; typedef int64_t I; static const int mant = 52; static const int ebias = 1023; static const int emax = 2046; static const char *suf() { return ""; } };
template <> struct FT<float> { typedef uint32_t U; typedef int32_t I; static const int mant = 23; static const int ebias = 127; static const int emax = 254; static const char *suf() { return "f"; } };
template <class T> inline typename FT<T>::U bits(T x) { typename FT<T>::U u; memcpy(&u, &x, sizeof u); return u; }
template <class T> inline T frombits(uint64_t b) { typename FT<T>::U u = (typename FT<T>::U)b; T x; memcpy(&x, &u, sizeof u); return x; }
template <class T> inline bool same(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }

// spacing of T at |y|
inline double ulpd(double y) {
  uint64_t b = bits(y) & 0x7ff0000000000000ull;
  if (b <= (52ull << 52)) return 0x1p-1074 * (b ? std::ldexp(1.0, (int)(b >> 52) - 1) : 1.0);
  return frombits<double>(b - (52ull << 52));
}
inline double ulpf(double y) {   // spacing of float at a double value
  y = std::fabs(y);
  if (y < 0x1p-126) return 0x1p-149;
  uint64_t b = bits(y) & 0x7ff0000000000000ull;
  return frombits<double>(b - (23ull << 52));
}
template <class T> inline double ulp_at(double y);
template <> inline double ulp_at<double>(double y) { return ulpd(y); }
template <> inline double ulp_at<float>(double y) { return ulpf(y); }
// the same for a high precision value (truncated towards zero, so that the binade is right)
template <class T> inline long double ulp_exact(long double y) {
  y = fabsl(y);
  if (y == 0) return sizeof(T) == 8 ? 0x1p-1074L : 0x1p-149L;
  int e; frexpl(y, &e); // y = m*2^e, m in [0.5,1)
  int q = e - 1 - FT<T>::mant;
  int qmin = sizeof(T) == 8 ? -1074 : -149;
  return ldexpl(1.0L, std::max(q, qmin));
}

inline str hexfp(double x) { char b[80]; snprintf(b, sizeof b, "%a (%.17g)", x, x); return b; }
inline str jsonesc(const str &s) { str o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

// ---------------------------------------------------------------- global options
struct Options {
  str prop, tier = "quick", out, replay, dict, journal; uint64_t seed = 1; int threads = 8; double scale = 1; bool measure = false; str only;
  std::vector<str> sut; std::vector<str> extra;
};
extern Options opt;

// ---------------------------------------------------------------- dictionary
// numbers harvested from the sources of the tree under test by the driver, plus fixed interesting ones
struct Dict { std::vector<double> v; std::vector<uint64_t> ints; };
inline const Dict &dict() {
  static Dict d; static std::once_flag f;
  std::call_once(f, [] {
    std::vector<double> base = {0.5, 1, 2, 3, 4, 10, 100, 1000, 5000, 8192, 0.1, 0.25, 0.75, 0.625, 0.66, 1e-3, 1e-5, 1e-7, 1e-8, 1e-10, 1e-15, 1e15, 1e7,
      M_PI, M_PI_2, M_PI_4, 3 * M_PI_4, M_E, M_LN2, M_LOG2E, M_SQRT2, M_SQRT1_2, 2.414213562373095, 0.4142135623730950, 708, 709, 710, 745, 87, 88, 88.72283905206835, 88.3762626647949, 20, 9.1, 20.5, 1e307, 1e308,
      DBL_MIN, DBL_MAX, FLT_MIN, FLT_MAX, DBL_EPSILON, FLT_EPSILON, 4.9e-324, 1.4e-45, 0x1p28, 0x1p29, 0x1p31, 0x1p32, 0x1p52, 0x1p53, 0x1p63, 0x1p64, 0x1p24, 0x1p23, 65536, 1048576, 2147483647, 4294967295.0};
    if (!opt.dict.empty()) {
      std::ifstream in(opt.dict); str w;
      while (in >> w) {
        if (w[0] == 'i') d.ints.push_back(strtoull(w.c_str() + 1, 0, 16));
        else base.push_back(strtod(w.c_str(), 0));
      }
    }
    for (uint64_t i : {0x1ull, 0xffull, 0xffffull, 0xfffffull, 0xffffffffull, 0x7fffffffull, 0x80000000ull, 0xfffffffffffffull}) d.ints.push_back(i);
    for (uint64_t i : d.ints) { base.push_back((double)i); base.push_back(frombits<double>(i)); base.push_back(frombits<float>(i)); base.push_back(frombits<double>(i << 32)); }
    auto add = [&](double x) { if (x == x && std::isfinite(x)) d.v.push_back(std::fabs(x)); };
    for (double c : base) {
      c = std::fabs(c);
      if (!(c == c) || !std::isfinite(c)) continue;
      double s[] = {c, 1 / c, c * c, std::sqrt(c), std::exp(c), std::exp(-c), std::log(c), std::exp2(c), std::exp2(-c), c * M_LN2, c * M_LOG2E, c * M_PI_4, c * M_PI_2, c / 2, c * 2, c / 4, 1 - c, 1 + c, std::sqrt(1 - c * c),
                    std::tan(c), std::sin(c), std::atan(c), std::tanh(c), std::atanh(c), 1 - 2 * c, (1 - c) / 2, 10 * c, c / 10, M_PI_2 - c, M_PI_4 - c};
      for (double x : s) add(x);
    }
    std::sort(d.v.begin(), d.v.end());
    d.v.erase(std::unique(d.v.begin(), d.v.end()), d.v.end());
  });
  return d;
}

// ---------------------------------------------------------------- statistics and results
struct Stats { uint64_t n = 0, nontrivial = 0; };
struct Case { str task; std::vector<uint64_t> arg; int64_t chunk = -1; bool whole = false; };
struct Failure { bool set = false; uint64_t chunk = ~0ull; Case c; str desc; };

struct Task {
  str name; uint64_t nchunks = 0;
  virtual ~Task() {}
  // runs one chunk; returns true if it fails, then fills c
  virtual bool chunk(uint64_t i, Rng &r, Stats &st, Case &c) = 0;
  // decides one case; returns true if it FAILS
  virtual bool one(const Case &c, str &desc) = 0;
  virtual void shrink(Case &) {}
  virtual void samples(Rng &, std::vector<str> &) {}
  virtual void measured() {}
};

// ---------------------------------------------------------------- generators of one argument
template <class T> struct Domain {
  T lo, hi;               // closed interval
  int emin_op = -60;      // smallest binary exponent considered "operative"
  std::vector<double> pts; // function specific interesting points (both signs are used)
  std::function<double(Rng &)> special; // function specific families of interesting points
  bool in(T x) const { return x >= lo && x <= hi; }
};

template <class T> inline T nudge(T x, Rng &r) {
  typedef typename FT<T>::U U;
  // move by +-2^U ulps, sometimes not at all
  int maxb = FT<T>::mant - 4;
  uint64_t k = r.next();
  int s = (int)(k % (uint64_t)(maxb + 3)); k >>= 8;
  U b = bits(x);
  U sign = b & ((U)1 << (sizeof(U) * 8 - 1)); b ^= sign;
  if (s > 0) {
    U off = (U)(r.next() & (((uint64_t)1 << (s - 1)) | (((uint64_t)1 << (s - 1)) - 1)));
    if (k & 1) b = b + off; else b = b > off ? b - off : 0;
  }
  U inf = (U)(FT<T>::emax + 1) << FT<T>::mant;
  if (b >= inf) b = inf - 1;
  return frombits<T>(b | sign);
}

enum { ST_UNIFORM, ST_LOGOP, ST_LOGFULL, ST_DICT, ST_SHORT, ST_SPECIAL, ST_BITS, ST_N };
inline int pick_stratum(Rng &r) {
  uint64_t k = r.below(100);
  if (k < 24) return ST_UNIFORM;
  if (k < 54) return ST_LOGOP;
  if (k < 61) return ST_LOGFULL;
  if (k < 74) return ST_DICT;
  if (k < 80) return ST_SHORT;
  if (k < 95) return ST_SPECIAL;
  return ST_BITS;
}
inline const char *stratum_name(int s) { static const char *n[] = {"uniform", "loguniform", "loguniform-full", "constants", "short", "special-points", "bit-patterns"}; return n[s]; }

template <class T> inline T gen_log(Rng &r, int emin, int emax, bool neg) {
  typedef typename FT<T>::U U;
  U m = (U)r.next() & (((U)1 << FT<T>::mant) - 1);
  int e = emin + (int)r.below((uint64_t)(emax - emin + 1));
  int be = e + FT<T>::ebias; if (be < 0) be = 0; if (be > FT<T>::emax) be = FT<T>::emax;
  U b = ((U)be << FT<T>::mant) | m;
  if (neg && (r.next() >> 63)) b |= (U)1 << (sizeof(U) * 8 - 1);
  return frombits<T>(b);
}

template <class T> T gen_short(Rng &r) {
  uint64_t k = r.next();
  switch (k & 7) {
  case 0: return (T)(int64_t)(r.below(2000001) - 1000000);
  case 1: return (T)((double)(int64_t)(r.below(20001) - 10000) / 2);
  case 2: return (T)((double)(int64_t)(r.below(20001) - 10000) / 10);
  case 3: return (T)((double)(int64_t)(r.below(200001) - 100000) / 1000);
  case 4: { double v = (double)(int64_t)(r.below(2047) - 1023); return (T)std::ldexp(v, (int)r.below(80) - 60); }
  case 5: { double v = (double)(int64_t)(r.below(2000001) - 1000000); return (T)(v * std::pow(10., (double)(int)r.below(20) - 14)); }
  case 6: return (T)std::ldexp((k >> 8) & 1 ? 1. : -1., (int)r.below(120) - 90);
  default: return (T)(int64_t)(r.below(2001) - 1000);
  }
}

template <class T> T gen_bits(Rng &r, T base) {
  typedef typename FT<T>::U U;
  const Dict &d = dict();
  U b = bits(base); uint64_t k = r.next();
  int w = FT<T>::mant;
  switch (k & 3) {
  case 0: { uint64_t lit = d.ints[r.below(d.ints.size())]; int nb = 1 + (int)r.below(w); U m = ((U)1 << nb) - 1; b = (b & ~m) | ((U)lit & m); break; }
  case 1: { int nb = (int)r.below(w + 1); U m = ((U)1 << nb) - 1; b &= ~m; break; }
  case 2: { int nb = (int)r.below(w + 1); U m = ((U)1 << nb) - 1; b |= m; break; }
  default: { int nb = (int)r.below(w + 1); U m = (((U)1 << w) - 1) & ~(((U)1 << nb) - 1); if ((k >> 8) & 1) b |= m; else b &= ~m; break; }
  }
  return frombits<T>(b);
}

template <class T> T gen_one(Rng &r, int st, const Domain<T> &D) {
  bool neg = D.lo < 0;
  int ehi; { T m = std::max(std::fabs(D.lo), std::fabs(D.hi)); ehi = (m == 0) ? 0 : std::ilogb(m); }
  switch (st) {
  case ST_UNIFORM: { double u = r.unit(); return (T)((double)D.lo * (1 - u) + (double)D.hi * u); }
  case ST_LOGOP: return gen_log<T>(r, std::max(D.emin_op, -(int)FT<T>::ebias), ehi, neg);
  case ST_LOGFULL: return gen_log<T>(r, -(int)FT<T>::ebias, ehi, neg);
  case ST_DICT: { const Dict &d = dict(); T x = (T)d.v[r.below(d.v.size())]; if (neg && (r.next() & 1)) x = -x; return nudge(x, r); }
  case ST_SHORT: { T x = gen_short<T>(r); if (!neg) x = std::fabs(x); return x; }
  case ST_SPECIAL: {
    double p;
    if (D.special && (D.pts.empty() || (r.next() & 3))) p = D.special(r);
    else if (!D.pts.empty()) p = D.pts[r.below(D.pts.size())];
    else p = dict().v[r.below(dict().v.size())];
    if (neg && (r.next() & 1)) p = -p;
    return nudge((T)p, r); }
  default: return gen_bits<T>(r, gen_log<T>(r, std::max(D.emin_op, -(int)FT<T>::ebias), ehi, neg));
  }
}
// always inside the domain
template <class T> T gen_in(Rng &r, int st, const Domain<T> &D) {
  for (int k = 0; k < 4; ++k) { T x = gen_one(r, st, D); if (D.in(x)) return x; }
  T x = gen_one(r, ST_UNIFORM, D);
  return D.in(x) ? x : D.hi;
}

// ---------------------------------------------------------------- tasks over one argument
static const size_t BUF = 1024;
static const uint64_t CHUNK = 1 << 16;

template <class T> struct Point1 : Task {
  Domain<T> D; bool exhaustive = false; double trivial_below = 0; int sparse = 1; // in the outer binades only every sparse-th block is enumerated
  // index of the first failing argument or -1
  virtual int test(const T *a, size_t n) = 0;
  virtual bool fails(T x, str &desc) = 0;
  void setup(uint64_t nsamples) {
    if (exhaustive) nchunks = (1ull << 32) / CHUNK; else nchunks = std::max<uint64_t>(8, (uint64_t)(nsamples * opt.scale) / CHUNK);
  }
  bool chunk(uint64_t i, Rng &r, Stats &st, Case &c) override {
    T a[BUF];
    if (exhaustive) {
      uint32_t base = (uint32_t)(i * CHUNK); size_t n = 0;
      if (sparse > 1) { int e = (int)((base >> 23) & 255) - 127; if ((e < -24 || e > 40) && mix(opt.seed, i) % (uint64_t)sparse != 0) return false; }
      for (uint64_t k = 0; k <= CHUNK; ++k) {
        if (k < CHUNK) { T x = frombits<T>(base + (uint32_t)k); if (!D.in(x)) continue; a[n++] = x; if (std::fabs(x) >= trivial_below) st.nontrivial++; }
        if (n == BUF || (k == CHUNK && n)) { st.n += n; int f = test(a, n); if (f >= 0) { c.arg = {bits(a[f])}; return true; } n = 0; }
      }
      return false;
    }
    for (uint64_t k = 0; k < CHUNK / BUF; ++k) {
      int s = pick_stratum(r);
      for (size_t j = 0; j < BUF; ++j) a[j] = gen_in(r, s, D);
      if (s == ST_UNIFORM || s == ST_LOGOP || s == ST_LOGFULL) for (size_t j = 0; j < BUF; ++j) if (std::fabs(a[j]) >= trivial_below) st.nontrivial++;
      st.n += BUF;
      int f = test(a, BUF);
      if (f >= 0) { c.arg = {bits(a[f])}; return true; }
    }
    return false;
  }
  bool one(const Case &c, str &desc) override {
    T x = frombits<T>(c.arg.at(0));
    str d; bool f = fails(x, d);
    desc = d; return f;
  }
  void shrink(Case &c) override {
    str d; T x = frombits<T>(c.arg[0]); typedef typename FT<T>::U U;
    auto ok = [&](T y) { return D.in(y) && fails(y, d); };
    if (ok(std::fabs(x))) x = std::fabs(x);
    if (std::isfinite(x) && std::fabs(x) < 1e15 && ok((T)std::round((double)x))) x = (T)std::round((double)x);
    for (int b = FT<T>::mant; b > 0; --b) { U m = ((U)1 << b) - 1; T y = frombits<T>(bits(x) & ~m); if (y != x && ok(y)) { x = y; break; } }
    for (int b = FT<T>::mant - 1; b >= 0; --b) { U m = (U)1 << b; if (bits(x) & m) { T y = frombits<T>(bits(x) & ~m); if (ok(y)) x = y; } }
    c.arg[0] = bits(x);
  }
  void samples(Rng &r, std::vector<str> &o) override {
    if (exhaustive) { o.push_back(name + ": all float bit patterns inside [" + hexfp(D.lo) + ", " + hexfp(D.hi) + "]"); return; }
    for (int s = 0; s < ST_N; ++s) o.push_back(name + " " + stratum_name(s) + ": " + hexfp((double)gen_in(r, s, D)));
  }
};

// ---------------------------------------------------------------- tasks over two arguments
template <class T> T gen_any(Rng &r, int st) { static const Domain<T> D = [] { Domain<T> d; d.lo = -std::numeric_limits<T>::max(); d.hi = std::numeric_limits<T>::max(); d.emin_op = -40; return d; }();
  if (st == ST_UNIFORM) return (T)((r.unit() - 0.5) * 10000);
  if (st == ST_LOGOP) return gen_log<T>(r, -40, 40, true);
  return gen_in(r, st, D); }

template <class T> void gen_pair(Rng &r, int st, T &a, T &b) {
  static const double sp[] = {0., 1., 2., 0.5, 1e-300, 1e300, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 1.4e-45, 1.1754943508222875e-38, 3.4028234663852886e38, 1e-30, 1e30};
  const T big = std::numeric_limits<T>::max();
  auto lim = [&](double v) -> T { if (v > (double)big) v = (double)big; return (T)v; };
  switch (st) {
  case 0: a = gen_any<T>(r, ST_UNIFORM); b = gen_any<T>(r, ST_UNIFORM); break;
  case 1: a = gen_any<T>(r, ST_LOGOP); b = gen_any<T>(r, ST_LOGOP); break;
  case 2: a = gen_any<T>(r, ST_LOGFULL); b = gen_any<T>(r, ST_LOGFULL); break;
  case 3: case 4: { // ratio near a constant
    b = gen_any<T>(r, (r.next() & 3) ? ST_LOGOP : ST_LOGFULL);
    static const double k[] = {1, 0.41421356237309503, 2.414213562373095, 0.66, 0.5, 2, 3, 0.1, 10, 0.25, 1.5};
    double c = (st == 3) ? k[r.below(sizeof k / sizeof *k)] : dict().v[r.below(dict().v.size())];
    double v = (double)b * c; if (std::fabs(v) > (double)big) v = std::copysign((double)big, v);
    a = nudge((T)v, r); if (r.next() & 1) a = -a; if (r.next() & 1) std::swap(a, b); break; }
  case 5: { a = lim(sp[r.below(sizeof sp / sizeof *sp)]); b = (r.next() & 1) ? lim(sp[r.below(sizeof sp / sizeof *sp)]) : gen_any<T>(r, (int)r.below(ST_N));
    if (r.next() & 1) a = -a; if (r.next() & 1) b = -b; if (r.next() & 1) std::swap(a, b); break; }
  case 6: a = gen_any<T>(r, ST_SHORT); b = gen_any<T>(r, ST_SHORT); break;
  case 7: a = gen_any<T>(r, (int)r.below(ST_N)); b = gen_any<T>(r, (int)r.below(ST_N)); break;
  default: a = gen_any<T>(r, ST_LOGFULL); b = (r.next() & 1) ? a : -a; if (r.next() & 1) b = nudge(b, r); break;
  }
}
inline int pick_pair(Rng &r) { static const int w[] = {18, 22, 12, 14, 12, 8, 5, 5, 4}; int k = (int)r.below(100); int s = 0; while (k >= w[s]) k -= w[s++]; return s; }

template <class T> struct Point2 : Task {
  virtual int test(const T *a, const T *b, size_t n) = 0;
  virtual bool fails(T x, T y, str &desc) = 0;
  virtual bool in(T, T) { return true; }
  void setup(uint64_t nsamples) { nchunks = std::max<uint64_t>(8, (uint64_t)(nsamples * opt.scale) / CHUNK); }
  bool chunk(uint64_t, Rng &r, Stats &st, Case &c) override {
    T a[BUF], b[BUF];
    for (uint64_t k = 0; k < CHUNK / BUF; ++k) {
      int s = pick_pair(r); size_t m = 0;
      for (size_t j = 0; j < BUF; ++j) { gen_pair(r, s, a[m], b[m]); if (in(a[m], b[m])) ++m; }
      if (s <= 2) st.nontrivial += m;
      st.n += m; if (!m) continue;
      int f = test(a, b, m);
      if (f >= 0) { c.arg = {bits(a[f]), bits(b[f])}; return true; }
    }
    return false;
  }
  bool one(const Case &c, str &desc) override { return fails(frombits<T>(c.arg.at(0)), frombits<T>(c.arg.at(1)), desc); }
  void shrink(Case &c) override {
    str d; T x[2] = {frombits<T>(c.arg[0]), frombits<T>(c.arg[1])}; typedef typename FT<T>::U U;
    auto ok = [&](int i, T y) { T s = x[i]; x[i] = y; bool f = in(x[0], x[1]) && fails(x[0], x[1], d); if (!f) x[i] = s; return f; };
    for (int rep = 0; rep < 2; ++rep) for (int i = 0; i < 2; ++i) {
      static const double simple[] = {0, 1, -1, 2, -2, 0.5};
      bool done = false;
      for (double v : simple) { if (x[i] == (T)v) { done = true; break; } if (ok(i, (T)v)) { done = true; break; } }
      if (done) continue;
      if (x[i] < 0) ok(i, -x[i]);
      for (int b = FT<T>::mant; b > 0; --b) { U m = ((U)1 << b) - 1; T y = frombits<T>(bits(x[i]) & ~m); if (bits(y) != bits(x[i]) && ok(i, y)) break; }
      for (int b = FT<T>::mant - 1; b >= 0; --b) { U m = (U)1 << b; if (bits(x[i]) & m) ok(i, frombits<T>(bits(x[i]) & ~m)); }
    }
    c.arg = {bits(x[0]), bits(x[1])};
  }
  void samples(Rng &r, std::vector<str> &o) override { for (int s = 0; s < 9; ++s) { T a, b; gen_pair(r, s, a, b); o.push_back(name + " pair stratum " + std::to_string(s) + ": " + hexfp((double)a) + ", " + hexfp((double)b)); } }
};

// ---------------------------------------------------------------- runner
inline void write_case(const str &path, const Case &c, const str &desc) {
  std::ofstream o(path); o << "# " << desc << "\n" << c.task << "\n"; if (c.whole) o << "whole " << opt.seed << "\n"; else if (c.chunk >= 0) o << "chunk " << opt.seed << " " << c.chunk << " " << opt.scale << " " << opt.tier << "\n"; for (uint64_t a : c.arg) o << std::hex << a << "\n";
}
static const int HANG_SECONDS = 120; // a block of calls normally takes well below a second
struct Result { Stats st; Failure f; std::vector<Case> alt; // further ways to reproduce it
  std::vector<str> samples; std::map<str, uint64_t> per_task; };

inline void write_result(const Result &res, const str &rule, const str &replay) {
  std::ofstream o(opt.out);
  o << "{\"evaluations\": " << res.st.n << ", \"distinct_nontrivial\": " << res.st.nontrivial << ", \"rule\": \"" << jsonesc(rule) << "\", \"samples\": [";
  for (size_t i = 0; i < res.samples.size() && i < 60; ++i) o << (i ? ", " : "") << "\"" << jsonesc(res.samples[i]) << "\"";
  o << "], \"per_task\": {"; bool first = true;
  for (auto &p : res.per_task) { o << (first ? "" : ", ") << "\"" << jsonesc(p.first) << "\": " << p.second; first = false; }
  o << "}, \"failures\": [";
  if (res.f.set) for (size_t k = 0; k <= res.alt.size(); ++k) o << (k ? ", " : "") << "{\"replay\": \"" << jsonesc(k ? replay + std::to_string(k) : replay) << "\", \"what\": \"" << jsonesc(res.f.desc) << "\"}";
  o << "]}\n";
}

inline void run_task(Task &t, Result &res) {
  std::atomic<uint64_t> next(0), best(~0ull); std::mutex mu; Failure fail; Stats total;
  uint64_t h = mix(opt.seed, hashstr(t.name));
  struct Slot { std::atomic<int64_t> since{0}; std::atomic<uint64_t> chunk{0}; }; std::vector<Slot> slots((size_t)opt.threads); std::atomic<int> running(opt.threads);
  auto now = [] { struct timespec x; clock_gettime(CLOCK_MONOTONIC, &x); return (int64_t)x.tv_sec; };
  auto work = [&](int me) {
    Stats st; Slot &sl = slots[(size_t)me];
    for (;;) {
      uint64_t i = next++; sl.chunk = i; sl.since = now();
      if (i >= t.nchunks || i >= best.load()) break;
      Rng r(mix(h, i)); Case c; c.task = t.name;
      if (t.chunk(i, r, st, c)) {
        std::lock_guard<std::mutex> l(mu);
        if (i < fail.chunk) { fail.set = true; fail.chunk = i; fail.c = c; best = i; }
      }
    }
    sl.since = 0; running--;
    std::lock_guard<std::mutex> l(mu); total.n += st.n; total.nontrivial += st.nontrivial;
  };
  std::vector<std::thread> th; for (int k = 0; k < opt.threads; ++k) th.emplace_back(work, k);
  std::thread dog([&] { for (int tick = 0; running > 0; ++tick) { usleep(20000); if (tick % 50) continue; for (auto &s : slots) { int64_t s0 = s.since; if (s0 && now() - s0 > HANG_SECONDS) {
    Case c; c.task = t.name; c.chunk = (int64_t)s.chunk.load(); res.f.set = true; res.f.c = c; res.f.desc = t.name + ": a call does not return within " + std::to_string(HANG_SECONDS) + " s (generated batch " + std::to_string(c.chunk) + ")";
    if (opt.replay.empty()) { write_case(opt.out + ".replay", c, res.f.desc); write_result(res, "", opt.out + ".replay"); } _exit(1); } } } });
  for (auto &x : th) x.join();
  dog.join();
  res.st.n += total.n; res.st.nontrivial += total.nontrivial; res.per_task[t.name] += total.n;
  Rng sr(mix(h, 77)); t.samples(sr, res.samples);
  if (fail.set) {
    str d;
    if (!t.one(fail.c, d)) { fail.c.chunk = (int64_t)fail.chunk; fail.c.arg.clear(); d = "fails in generated batch " + std::to_string(fail.chunk) + " but not for the single argument: depends on preceding calls or neighbouring elements (" + d + ")"; }
    else { res.alt.push_back(fail.c); t.shrink(fail.c); t.one(fail.c, d); Case b; b.task = t.name; b.chunk = (int64_t)fail.chunk; res.alt.push_back(b); }
    { Case w; w.task = t.name; w.whole = true; res.alt.push_back(w); } // state kept between batches
    fail.desc = t.name + ": " + d;
    res.f = fail;
  }
}

inline Case read_case(const str &path) {
  std::ifstream in(path); str line; Case c;
  while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; if (c.task.empty()) c.task = line; else if (line.compare(0, 6, "whole ") == 0) { c.whole = true; opt.seed = strtoull(line.c_str() + 6, 0, 10); } else if (line.compare(0, 6, "chunk ") == 0) { std::istringstream is(line.substr(6)); is >> opt.seed >> c.chunk >> opt.scale >> opt.tier; } else c.arg.push_back(strtoull(line.c_str(), 0, 16)); }
  return c;
}
inline int run_all(std::vector<std::unique_ptr<Task>> &tasks, const str &rule) {
  if (!opt.replay.empty()) {
    Case c = read_case(opt.replay); str d;
    if (c.whole) { Result res; for (auto &t : tasks) { run_task(*t, res); if (res.f.set) { printf("FAILS %s\n", res.f.desc.c_str()); return 1; } } printf("ok whole run\n"); return 0; }
    for (auto &t : tasks) if (t->name == c.task) {
      bool f;
      if (c.chunk >= 0) { Rng r(mix(mix(opt.seed, hashstr(t->name)), (uint64_t)c.chunk)); Stats st; Case k; f = t->chunk((uint64_t)c.chunk, r, st, k); d = "batch"; }
      else f = t->one(c, d);
      printf("%s %s: %s\n", f ? "FAILS" : "ok", c.task.c_str(), d.c_str()); return f ? 1 : 0; }
    fprintf(stderr, "no task %s\n", c.task.c_str()); return 3;
  }
  Result res;
  for (auto &t : tasks) {
    if (!opt.only.empty() && t->name.find(opt.only) == str::npos) continue;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    run_task(*t, res);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    fprintf(stderr, "%-40s %12llu  %.2fs%s\n", t->name.c_str(), (unsigned long long)res.per_task[t->name], (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec), res.f.set ? "  FAILED" : "");
    if (opt.measure) t->measured();
    if (res.f.set) break;
  }
  str replay = opt.out + ".replay";
  if (res.f.set) { write_case(replay, res.f.c, res.f.desc); for (size_t k = 0; k < res.alt.size(); ++k) write_case(replay + std::to_string(k + 1), res.alt[k], res.f.desc); }
  write_result(res, rule, replay);
  return res.f.set ? 1 : 0;
}

inline void parse_options(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    str a = argv[i]; auto val = [&]() -> str { return ++i < argc ? argv[i] : ""; };
    if (a == "--prop") opt.prop = val(); else if (a == "--tier") opt.tier = val(); else if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") opt.out = val(); else if (a == "--replay") opt.replay = val(); else if (a == "--dict") opt.dict = val();
    else if (a == "--threads") opt.threads = atoi(val().c_str()); else if (a == "--sut") opt.sut.push_back(val()); else if (a == "--scale") opt.scale = atof(val().c_str());
    else if (a == "--measure") opt.measure = true; else if (a == "--only") opt.only = val(); else if (a == "--journal") opt.journal = val(); else opt.extra.push_back(a);
  }
}

struct Sut {
  str path, label; const SutTable *t = nullptr;
  explicit Sut(const str &spec) {
    size_t p = spec.find('='); label = p == str::npos ? "default" : spec.substr(0, p); path = p == str::npos ? spec : spec.substr(p + 1);
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    sut_table_t f = (sut_table_t)dlsym(h, "sut_table"); t = f();
  }
  const SutFn &get(const str &n) const { for (int i = 0; i < t->n; ++i) if (n == t->fn[i].name) return t->fn[i]; fprintf(stderr, "no function %s\n", n.c_str()); exit(3); }
};
#endif
