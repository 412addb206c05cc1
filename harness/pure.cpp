// P13: purity. Histories of calls, reordered histories, fresh instances of the library, concurrent threads,
// and different ways of calling must all give the same bits.
#include "engine.h"
#include <array>
#include <fcntl.h>
#include <sys/stat.h>
#include <xmmintrin.h>
Options opt;
static const Sut *S0;
static std::vector<Sut> forms;

struct Op { int fn; uint64_t a, b; };
struct Res { uint64_t o, o2; bool operator==(const Res &r) const { return o == r.o && o2 == r.o2; } };

static uint64_t canon(const SutFn &f, uint64_t v) { // all NaNs are equal
  if (f.prec) { float x = frombits<float>(v); return x != x ? 0x7fc00000u : v; }
  double x = frombits<double>(v); return x != x ? 0x7ff8000000000000ull : v;
}
// one scalar call; surrounding memory is watched
static thread_local bool spill = false;
static Res call(const SutTable *t, const Op &p, bool arr = false) {
  const SutFn &f = t->fn[p.fn]; Res r{0, 0};
  const uint64_t C = 0xa5a5a5a5a5a5a5a5ull;
  if (f.prec) {
    float a = frombits<float>(p.a), b = frombits<float>(p.b); uint32_t o[5], q[5]; for (int i = 0; i < 5; ++i) o[i] = q[i] = (uint32_t)C;
    (arr ? f.arr : f.scal)(&a, &b, &o[2], &q[2], 1); r.o = canon(f, o[2]); if (f.nout == 2) r.o2 = canon(f, q[2]);
    for (int i = 0; i < 5; ++i) if (i != 2 && (o[i] != (uint32_t)C || q[i] != (uint32_t)C)) spill = true;
  } else {
    double a = frombits<double>(p.a), b = frombits<double>(p.b); uint64_t o[5], q[5]; for (int i = 0; i < 5; ++i) o[i] = q[i] = C;
    (arr ? f.arr : f.scal)(&a, &b, &o[2], &q[2], 1); r.o = canon(f, o[2]); if (f.nout == 2) r.o2 = canon(f, q[2]);
    for (int i = 0; i < 5; ++i) if (i != 2 && (o[i] != C || q[i] != C)) spill = true;
  }
  return r;
}
static str show(const Op &p) {
  const SutFn &f = S0->t->fn[p.fn]; double a = f.prec ? frombits<float>(p.a) : frombits<double>(p.a), b = f.prec ? frombits<float>(p.b) : frombits<double>(p.b);
  return str(f.name) + "(" + hexfp(a) + (f.nin == 2 ? ", " + hexfp(b) : str()) + ")";
}
template <class T> uint64_t gen_arg(Rng &r, std::vector<double> &seen) {
  uint64_t k = r.below(100); T x;
  const T inf = std::numeric_limits<T>::infinity();
  if (k < 45 && !seen.empty()) { // related to an argument used before
    double v = seen[r.below(seen.size())]; x = (T)v;
    switch (r.below(12)) {
    case 0: case 1: case 2: break; case 3: case 4: x = nudge(x, r); break; case 5: x = -x; break; case 6: x = (T)(float)v; break; case 7: x = (T)(v + 2 * M_PI); break; case 8: x = (T)(v * 2); break; case 9: x = (T)(1 / v); break;
    case 10: x = std::nextafter(x, inf); break; default: x = (T)(v + 1e-9 * r.unit()); }
  } else if (k < 60) x = (T)((r.unit() - 0.5) * 10); else if (k < 70) x = gen_any<T>(r, ST_LOGOP); else if (k < 80) x = gen_any<T>(r, (int)r.below(ST_N)); else if (k < 85) x = gen_short<T>(r); else if (k < 88) x = 0; else if (k < 91) x = -(T)0; else if (k < 93) x = inf; else if (k < 95) x = -inf; else if (k < 97) x = std::numeric_limits<T>::quiet_NaN(); else x = (T)(r.unit() * 2 - 1);
  if (seen.size() < 40) seen.push_back((double)x); else seen[r.below(40)] = (double)x;
  return bits(x);
}
static std::vector<int> usable; // functions with a scalar form
static std::vector<Op> gen_ops(Rng &r, size_t len) {
  std::vector<double> seen; std::vector<Op> v; int nf = 1 + (int)r.below(4); int fs[4]; for (int &f : fs) f = usable[r.below(usable.size())];
  for (size_t i = 0; i < len; ++i) { Op p; p.fn = fs[r.below((uint64_t)nf)]; if (S0->t->fn[p.fn].prec) { p.a = gen_arg<float>(r, seen); p.b = gen_arg<float>(r, seen); } else { p.a = gen_arg<double>(r, seen); p.b = gen_arg<double>(r, seen); } v.push_back(p); }
  return v;
}
static unsigned csr() { return _mm_getcsr() & 0xffc0u; }

// a freshly loaded copy of the library; a copy which stays loaded (destructors of thread-local objects) is not used again
static thread_local str mycopy;
static std::mutex copies_m; static std::vector<str> copies;
static void remove_copies() { for (auto &c : copies) unlink(c.c_str()); }
struct FreshLib {
  void *h; const SutTable *t;
  FreshLib() {
    if (!mycopy.empty()) if (void *old = dlopen(mycopy.c_str(), RTLD_NOW | RTLD_NOLOAD)) { dlclose(old); unlink(mycopy.c_str()); mycopy.clear(); }
    if (mycopy.empty()) { static std::atomic<int> k(0); mycopy = opt.out + ".copy" + std::to_string(getpid()) + "." + std::to_string(k++) + ".so"; { std::ifstream i(S0->path, std::ios::binary); std::ofstream o(mycopy, std::ios::binary); o << i.rdbuf(); } std::lock_guard<std::mutex> g(copies_m); copies.push_back(mycopy); }
    h = dlopen(mycopy.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    t = ((sut_table_t)dlsym(h, "sut_table"))();
  }
  ~FreshLib() { dlclose(h); }
};
static thread_local std::vector<Op> calls_made; // by the current batch
static Res call0(const Op &p) { calls_made.push_back(p); return call(S0->t, p); }

struct OpsTask : Task {
  uint64_t per = 256; size_t maxlen = 60;
  virtual bool bad(const std::vector<Op> &v, uint64_t s, str *d) = 0;
  static std::vector<uint64_t> enc(const std::vector<Op> &v, uint64_t s) { std::vector<uint64_t> a = {s}; for (auto &p : v) { a.push_back((uint64_t)p.fn); a.push_back(p.a); a.push_back(p.b); } return a; }
  static std::vector<Op> dec(const std::vector<uint64_t> &a) { std::vector<Op> v; for (size_t i = 1; i + 2 < a.size(); i += 3) v.push_back(Op{(int)a[i], a[i + 1], a[i + 2]}); return v; }
  // a history of calls, made in a fresh library, in which the last one returns something else than as the first call
  enum : uint64_t { HISTORY = 0x797274736968ull };
  static Res first_call(const Op &p) { FreshLib f; return call(f.t, p); }
  static size_t first_wrong(const std::vector<Op> &v) { // index, or the number of calls
    std::vector<Res> got; { FreshLib f; for (auto &p : v) got.push_back(call(f.t, p)); }
    struct Seen { Res r; size_t at; }; std::map<std::array<uint64_t, 3>, Seen> m;
    for (size_t i = 0; i < v.size(); ++i) { // calls which were answered in two ways
      auto k = m.insert({{{(uint64_t)v[i].fn, v[i].a, v[i].b}}, Seen{got[i], i}});
      if (!k.second && !(k.first->second.r == got[i])) return first_call(v[i]) == got[i] ? k.first->second.at : i;
    }
    size_t budget = 3000; for (auto &p : m) { if (!budget--) break; if (!(first_call(v[p.second.at]) == p.second.r)) return p.second.at; }
    return v.size();
  }
  static bool last_wrong(const std::vector<Op> &v, Res ref) { FreshLib f; Res r{0, 0}; for (auto &p : v) r = call(f.t, p); return !(r == ref); }
  bool chunk(uint64_t, Rng &r, Stats &st, Case &c) override {
    calls_made.clear();
    for (uint64_t k = 0; k < per; ++k) {
      auto v = gen_ops(r, 2 + r.below(maxlen)); uint64_t s = r.next(); st.n += v.size(); st.nontrivial += v.size() > 3 ? 1 : 0;
      if (!bad(v, s, nullptr)) continue;
      auto h = calls_made; size_t w = first_wrong(h);
      if (w < h.size()) { h.resize(w + 1); c.arg = enc(h, HISTORY); } else c.arg = enc(v, s);
      return true;
    }
    return false;
  }
  uint64_t again = 0; // what depends on the number of calls fails again only after as many of them
  bool one(const Case &c, str &d) override {
    auto v = dec(c.arg);
    if (c.arg.at(0) == HISTORY) {
      if (v.empty()) return false;
      Res ref = first_call(v.back()); if (!last_wrong(v, ref)) return false;
      d = show(v.back()) + " returns something else than as the first call, after the " + std::to_string(v.size() - 1) + " calls"; for (size_t k = 0; k + 1 < v.size() && k < 12; ++k) d += " " + show(v[k]);
      return true;
    }
    for (uint64_t k = 0; k <= again / (v.size() + 1); ++k) if (bad(v, c.arg.at(0), &d)) return true; return false; }
  void shrink(Case &c) override {
    auto v = dec(c.arg); uint64_t s = c.arg[0]; int budget = 2000;
    if (s == HISTORY) {
      Res ref = first_call(v.back()); Op last = v.back(); v.pop_back();
      for (size_t len = (v.size() + 1) / 2; len >= 1; len /= 2) for (size_t from = 0; from < v.size() && budget-- > 0;) { auto w = v; w.erase(w.begin() + (ptrdiff_t)from, w.begin() + (ptrdiff_t)std::min(from + len, w.size())); auto x = w; x.push_back(last); if (last_wrong(x, ref)) v = w; else from += len; }
      v.push_back(last); c.arg = enc(v, s); return;
    }
    for (size_t len = v.size() / 2; len >= 1; len /= 2) for (size_t from = 0; from + len <= v.size() && budget-- > 0;) { auto w = v; w.erase(w.begin() + (ptrdiff_t)from, w.begin() + (ptrdiff_t)(from + len)); if (!w.empty() && bad(w, s, nullptr)) v = w; else from += len; }
    c.arg = enc(v, s);
  }
  void samples(Rng &r, std::vector<str> &o) override { auto v = gen_ops(r, 6); str s = name + ":"; for (auto &p : v) s += " " + show(p); o.push_back(s); }
};
// the same calls in two orders
struct OrderTask : OpsTask {
  bool bad(const std::vector<Op> &v, uint64_t s, str *d) override {
    unsigned m0 = csr(); int rm = fegetround(); size_t n = v.size();
    std::vector<Res> r1(n), r2(n); std::vector<size_t> ord(n); for (size_t i = 0; i < n; ++i) ord[i] = i;
    Rng r(s); if (s & 1) std::reverse(ord.begin(), ord.end()); else for (size_t i = n; i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
    spill = false;
    for (size_t i = 0; i < n; ++i) r1[i] = call0(v[i]);
    for (size_t i : ord) r2[i] = call0(v[i]);
    if (csr() != m0 || fegetround() != rm) { if (d) *d = "the floating point control state is changed by the calls"; _mm_setcsr((_mm_getcsr() & 0x3f) | m0); fesetround(FE_TONEAREST); return true; }
    if (spill) { if (d) *d = "memory next to the result is written"; return true; }
    for (size_t i = 0; i < n; ++i) if (!(r1[i] == r2[i])) { if (d) { *d = show(v[i]) + " returns different values depending on the calls before; sequence:"; for (size_t k = 0; k < n && k < 12; ++k) *d += " " + show(v[k]); } return true; }
    return false;
  }
};
// every call compared with the first call of a freshly loaded library
struct FreshTask : OpsTask {
  bool bad(const std::vector<Op> &v, uint64_t, str *d) override {
    std::vector<Res> ref; std::vector<Res> got;
    for (auto &p : v) ref.push_back(first_call(p));
    for (auto &p : v) got.push_back(call0(p));
    for (size_t i = 0; i < v.size(); ++i) if (!(ref[i] == got[i])) { if (d) { *d = show(v[i]) + " as the first call of a fresh library returns something else than after other calls; sequence:"; for (size_t k = 0; k < v.size() && k < 12; ++k) *d += " " + show(v[k]); } return true; }
    return false;
  }
};
// the same calls from many threads at once
struct ThreadTask : Task {
  size_t pool = 2048; uint64_t calls = 3000000; int nth = 8;
  bool bad(uint64_t s, str *d) {
    Rng r(s); std::vector<Op> v; while (v.size() < pool) for (auto &p : gen_ops(r, 64)) v.push_back(p);
    if (s % 3 == 0) { int fn = v[0].fn; std::vector<Op> w; for (auto &p : v) { p.fn = fn; if (S0->t->fn[fn].prec) { p.a &= 0xffffffffu; p.b &= 0xffffffffu; } w.push_back(p); } v = w; }
    std::vector<Res> ref; for (auto &p : v) ref.push_back(call(S0->t, p));
    std::atomic<int64_t> wrong(-1); std::vector<std::thread> th;
    for (int k = 0; k < nth; ++k) th.emplace_back([&, k] { Rng q(mix(s, 1000 + (uint64_t)k)); for (uint64_t i = 0; i < calls && wrong < 0; ++i) { size_t j = q.below(v.size()); if (!(call(S0->t, v[j]) == ref[j])) wrong = (int64_t)j; } });
    for (auto &x : th) x.join();
    if (wrong >= 0) { if (d) *d = show(v[(size_t)wrong.load()]) + " returns a different value while other threads call the library"; return true; }
    return false;
  }
  bool chunk(uint64_t, Rng &r, Stats &st, Case &c) override { uint64_t s = r.next(); st.n += calls * (uint64_t)nth; st.nontrivial += pool; if (bad(s, nullptr)) { c.arg = {s}; return true; } return false; }
  bool one(const Case &c, str &d) override { for (int k = 0; k < 5; ++k) if (bad(c.arg.at(0), &d)) return true; return false; }
  void samples(Rng &, std::vector<str> &o) override { o.push_back(std::to_string(nth) + " threads, " + std::to_string(calls) + " calls each from a pool of " + std::to_string(pool) + " calls"); }
};
// the same call made in different ways
template <class T> struct FormTask : Task {
  int fn;
  bool bad(uint64_t a, uint64_t b, str *d) {
    Op p{fn, a, b}; Res r = call(S0->t, p);
    auto cmp = [&](const SutTable *t, bool arr, const str &w) { // several equal elements, so that vector code is reached
      const SutFn &f = t->fn[fn]; T x[19], y[19], o[19], q[19]; for (int i = 0; i < 19; ++i) x[i] = frombits<T>(a), y[i] = frombits<T>(b), o[i] = q[i] = 0;
      (arr ? f.arr : f.scal)(x, y, o, q, 19);
      for (int i = 0; i < 19; ++i) { Res g{canon(f, bits(o[i])), f.nout == 2 ? canon(f, bits(q[i])) : 0}; if (!(g == r)) { if (d) *d = show(p) + " returns " + hexfp(frombits<T>(g.o)) + " " + w + " but " + hexfp(frombits<T>(r.o)) + " as a single call"; return true; } }
      return false; };
    for (size_t k = 0; k < forms.size(); ++k) if (cmp(forms[k].t, false, forms[k].label)) return true;
    if (S0->t->fn[fn].arr && cmp(S0->t, true, "in an array call")) return true;
    return false;
  }
  bool chunk(uint64_t, Rng &r, Stats &st, Case &c) override {
    std::vector<double> seen; st.n += 4096; st.nontrivial += 4096;
    for (int k = 0; k < 4096; ++k) { uint64_t a = (k & 1) ? gen_arg<T>(r, seen) : bits(gen_any<T>(r, (int)r.below(ST_N))), b = gen_arg<T>(r, seen); if (bad(a, b, nullptr)) { c.arg = {a, b}; return true; } }
    return false;
  }
  bool one(const Case &c, str &d) override { return bad(c.arg.at(0), c.arg.at(1), &d); }
};
int main(int argc, char **argv) {
  parse_options(argc, argv); atexit(remove_copies);
  Sut base(opt.sut.at(0)); S0 = &base; for (size_t i = 1; i < opt.sut.size(); ++i) forms.emplace_back(opt.sut[i]);
  for (int i = 0; i < base.t->n; ++i) if (base.t->fn[i].scal) usable.push_back(i);
  bool th = opt.tier == "thorough"; if (opt.out.empty()) opt.out = opt.replay;
  std::vector<std::unique_ptr<Task>> ts;
  { auto *t = new ThreadTask; t->name = "threads"; t->nchunks = th ? 100 : 12; ts.emplace_back(t); }
  { auto *t = new OrderTask; t->name = "reordered histories"; t->again = 20000000; t->nchunks = th ? 200000 : 16000; ts.emplace_back(t); }
  { auto *t = new OrderTask; t->name = "reordered long histories"; t->again = 20000000; t->maxlen = 3000; t->per = 16; t->nchunks = th ? 40000 : 2000; ts.emplace_back(t); }
  { auto *t = new FreshTask; t->name = "fresh library"; t->again = 3000; t->per = 8; t->maxlen = 30; t->nchunks = th ? 20000 : 600; ts.emplace_back(t); }
  for (int i : usable) { Task *t; if (base.t->fn[i].prec) { auto *p = new FormTask<float>; p->fn = i; t = p; } else { auto *p = new FormTask<double>; p->fn = i; t = p; } t->name = str("ways of calling ") + base.t->fn[i].name; t->nchunks = th ? 4000 : 160; ts.emplace_back(t); }
  return run_all(ts, "call sequences of more than three related calls; calls of the concurrent pool; arguments called in four ways");
}
