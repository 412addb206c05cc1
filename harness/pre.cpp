// P15: run with the preload library in LD_PRELOAD. The C functions of pre_client.c reach whatever the dynamic
// linker binds; expected values come from a library without preload symbols and from libm itself.
#include "engine.h"
Options opt;
extern "C" { struct Client { const char *name; int prec, nin, replaced; void (*f)(const void *, const void *, void *, size_t); }; extern const Client client[]; }
static void *libm;

template <class T> struct CallTask : Task {
  // kind 0: replaced function; 1: untouched function; 2: array function of the preloaded library
  int kind = 0, nin = 1; bool all = false; uint64_t stride = 1; const Client *c = nullptr; const SutFn *ref = nullptr; void *sym = nullptr;
  void got(const T *a, const T *b, T *o, size_t n) {
    if (kind < 2) c->f(a, b, o, n);
    else if (nin == 1) ((void (*)(uint32_t, const T *, T *))sym)((uint32_t)n, a, o);
    else ((void (*)(uint32_t, const T *, const T *, T *))sym)((uint32_t)n, a, b, o);
  }
  void want(const T *a, const T *b, T *o, size_t n) {
    if (kind != 1) ref->scal(a, b, o, nullptr, n);
    else for (size_t i = 0; i < n; ++i) o[i] = nin == 1 ? ((T(*)(T))sym)(a[i]) : ((T(*)(T, T))sym)(a[i], b[i]);
  }
  int run(const T *a, const T *b, size_t n) {
    T g[BUF], w[BUF]; got(a, b, g, n); want(a, b, w, n);
    for (size_t i = 0; i < n; ++i) if (!same(g[i], w[i])) return (int)i;
    return -1;
  }
  static T any(Rng &r, int s) {
    if (r.below(64) == 0) { static const double sp[] = {0., -0., 1., -1., INFINITY, -INFINITY, NAN, -NAN}; return (T)sp[r.below(8)]; }
    if (s == ST_N) return (T)(r.unit() * 2 - 1);
    return gen_any<T>(r, s);
  }
  bool chunk(uint64_t i, Rng &r, Stats &st, Case &k) override {
    T a[BUF], b[BUF];
    if (all) { uint32_t base = (uint32_t)(((i * stride + mix(opt.seed, i) % stride) & 0xffff) << 16);
      for (uint32_t j = 0; j < CHUNK; j += BUF) { for (uint32_t m = 0; m < BUF; ++m) a[m] = frombits<T>(base + j + m); st.n += BUF; st.nontrivial += BUF; int f = run(a, b, BUF); if (f >= 0) { k.arg = {bits(a[f]), 0}; return true; } }
      return false; }
    for (int m = 0; m < 16; ++m) { int s = (int)r.below(ST_N + 1); size_t n = kind == 2 ? 1 + r.below(BUF) : BUF;
      for (size_t j = 0; j < n; ++j) { if (nin == 2) { if (r.below(8) == 0) { a[j] = any(r, s); b[j] = any(r, s); } else gen_pair(r, pick_pair(r), a[j], b[j]); } else a[j] = any(r, s); }
      st.n += n; st.nontrivial += n; int f = run(a, b, n);
      if (f >= 0) { k.arg = {bits(a[f]), nin == 2 ? bits(b[f]) : 0}; return true; } }
    return false;
  }
  bool one(const Case &k, str &d) override {
    T x = frombits<T>(k.arg.at(0)), y = frombits<T>(k.arg.at(1)), g, w; got(&x, &y, &g, 1); want(&x, &y, &w, 1);
    if (same(g, w)) return false;
    d = name + ": " + hexfp(x) + (nin == 2 ? ", " + hexfp(y) : str()) + " gives " + hexfp(g) + " instead of " + hexfp(w); return true;
  }
  void shrink(Case &k) override {
    str d; for (int i = 0; i < nin; ++i) for (double v : {0., 1., -1., 2., 0.5, -0.5, 3., 10., 100., 1000.}) { Case c2 = k; c2.arg[(size_t)i] = bits((T)v); if (one(c2, d)) { k = c2; break; } }
  }
  void samples(Rng &r, std::vector<str> &o) override { o.push_back(name + (all ? ": enumerated bit patterns" : ": e.g. " + hexfp(any(r, (int)r.below(ST_N))) + (nin == 2 ? ", " + hexfp(any(r, 0)) : str()))); }
};
static Sut *S;
template <class T> void add(std::vector<std::unique_ptr<Task>> &ts, const Client *c, bool th) {
  str n = c->name; auto mk = [&](int kind, const str &name, uint64_t nch) { auto *t = new CallTask<T>; t->kind = kind; t->nin = c->nin; t->c = c; t->name = name; t->nchunks = nch; ts.emplace_back(t); return t; };
  if (c->replaced) {
    const SutFn *ref = &S->get("fast_" + n);
    mk(0, n + " under preload", th ? 4000 : 400)->ref = ref;
    if (sizeof(T) == 4 && c->nin == 1) { auto *t = mk(0, n + " under preload, enumeration", th ? 65536 : 4096); t->ref = ref; t->all = true; t->stride = th ? 1 : 16; }
    str f = "fast_" + n + "v", m = "_ZN3vdt" + std::to_string(f.size()) + f + (sizeof(T) == 8 ? (c->nin == 1 ? "EjPKdPd" : "EjPKdS1_Pd") : (c->nin == 1 ? "EjPKfPf" : "EjPKfS1_Pf"));
    auto *t = mk(2, f + " of the preloaded library", th ? 1000 : 100); t->ref = ref; t->sym = dlsym(RTLD_DEFAULT, m.c_str());
    if (!t->sym) { fprintf(stderr, "no symbol %s\n", m.c_str()); exit(4); }
  } else {
    auto *t = mk(1, n + " untouched", th ? 200 : 10); t->sym = dlsym(libm, n.c_str());
    if (!t->sym) { fprintf(stderr, "libm has no %s\n", n.c_str()); exit(3); }
  }
}
int main(int argc, char **argv) {
  parse_options(argc, argv); Sut s(opt.sut.at(0)); S = &s; bool th = opt.tier == "thorough";
  libm = dlopen("libm.so.6", RTLD_NOW | RTLD_LOCAL); if (!libm) exit(3);
  std::vector<std::unique_ptr<Task>> ts;
  for (const Client *c = client; c->name; ++c) if (c->prec) add<float>(ts, c, th); else add<double>(ts, c, th);
  return run_all(ts, "arguments of any kind (generated strata, special values, enumerated floats); every one exercises the symbol binding");
}
