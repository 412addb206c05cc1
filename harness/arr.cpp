// P09 (array = elementwise scalar) and P10 (memory contract): generated array calls.
// A case is (function, placement, offsets, length, contents). Arrays lie between inaccessible pages
// and are surrounded by canaries.
#include "engine.h"
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <time.h>
Options opt;

static thread_local sigjmp_buf jb;
static thread_local volatile sig_atomic_t armed = 0;
static void onsig(int s) { if (armed) siglongjmp(jb, s); signal(s, SIG_DFL); raise(s); }

static const size_t PAGE = 4096;
struct Arena { // PROT_NONE | usable | PROT_NONE
  char *base = nullptr, *lo = nullptr, *hi = nullptr; size_t usable = 0;
  void need(size_t bytes) {
    size_t u = (bytes + 3 * PAGE) / PAGE * PAGE;
    if (u <= usable) return;
    if (base) munmap(base, usable + 2 * PAGE);
    usable = u; base = (char *)mmap(0, usable + 2 * PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(3); }
    mprotect(base, PAGE, PROT_NONE); mprotect(base + PAGE + usable, PAGE, PROT_NONE);
    lo = base + PAGE; hi = lo + usable;
  }
  // place n elements of size es: at the low end (+off elements), at the high end (-off elements) or in the middle
  char *place(size_t n, size_t es, int where, size_t off) {
    need(n * es + 2048 + 64 * es);
    if (where == 0) return lo + off * es;
    if (where == 1) return hi - (n + off) * es;
    return lo + 512 + off * es;
  }
};
struct Bufs { Arena a, b, o; };
static Bufs &bufs() { static thread_local Bufs x; return x; }

// reference values of the functions without the fast prefix
template <class T> T plain(const str &n, T x, T y) {
  str b = n; if (sizeof(T) == 4) b.pop_back();
  if (b == "exp") return std::exp(x); if (b == "log") return std::log(x); if (b == "sin") return std::sin(x); if (b == "cos") return std::cos(x); if (b == "tan") return std::tan(x);
  if (b == "tanh") return std::tanh(x); if (b == "asin") return std::asin(x); if (b == "acos") return std::acos(x); if (b == "atan") return std::atan(x); if (b == "atan2") return std::atan2(x, y);
  if (b == "isqrt") return (T)1 / std::sqrt(x); if (b == "inv") return (T)1 / x; if (b == "identity" || b == "identity2D") return x;
  fprintf(stderr, "no reference for %s\n", n.c_str()); exit(3);
}

struct Call { int fn, pa, pb, po; size_t oa, ob, oo, n; };
static const SutTable *T_;

template <class T> T elem(Rng &r, int mode, const Domain<T> &D) {
  switch (mode) {
  case 0: return gen_in(r, (int)r.below(ST_N), D);
  case 1: { uint64_t k = r.below(12); const T inf = std::numeric_limits<T>::infinity();
    if (k == 0) return inf; if (k == 1) return -inf; if (k == 2) return std::numeric_limits<T>::quiet_NaN(); if (k == 3) return 0; if (k == 4) return -(T)0; if (k == 5) return std::numeric_limits<T>::denorm_min() * (T)(1 + r.below(1000));
    return frombits<T>(r.next()); }
  case 2: return (T)(0.001 + 0.997 * r.unit());
  default: return frombits<T>(r.next());
  }
}
static uint64_t raw_elem(Rng &r, const SutFn &f, int mode, uint64_t pos, uint64_t poison) {
  str n = f.name; if (n.compare(0, 5, "fast_") == 0) n = n.substr(5); if (f.prec) n.pop_back();
  // domains: the operative interval of the function
  if (mode == 3) { mode = pos == poison ? 1 : 2; }
  auto lim = [&](auto &D) { if (n == "exp") { D.lo = f.prec ? -88 : -708; D.hi = -D.lo; } else if (n == "log" || n == "isqrt" || n == "approx_isqrt") { D.lo = (decltype(D.lo))1e-30; D.hi = (decltype(D.lo))1e30; } else if (n == "asin" || n == "acos") { D.lo = -1; D.hi = 1; } else { D.lo = -5000; D.hi = 5000; } };
  if (f.prec) { Domain<float> D; lim(D); return bits(elem<float>(r, mode, D)); }
  Domain<double> D; lim(D); return bits(elem<double>(r, mode, D));
}

static size_t gen_len(Rng &r) {
  uint64_t k = r.below(1000);
  if (k < 450) return r.below(70);
  if (k < 750) return r.below(600);
  if (k < 900) { static const size_t e[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097}; return e[r.below(sizeof e / sizeof *e)]; }
  if (k < 994) return r.below(6000);
  if (k < 998) { static const size_t e[] = {32767, 32768, 32769, 65535, 65536, 65537, 70000}; return e[r.below(7)]; }
  return 65000 + r.below(70000);
}

struct ArrTask : Task {
  int prop; uint64_t per = 64;
  // arg = {fn, pa, pb, po, oa, ob, oo, n, a..., b...}
  bool decide(const std::vector<uint64_t> &v, str *desc) {
    const SutFn &f = T_->fn[v[0]]; return f.prec ? dec<float>(f, v, desc) : dec<double>(f, v, desc);
  }
  template <class T> bool dec(const SutFn &f, const std::vector<uint64_t> &v, str *desc) {
    size_t n = v[7]; const uint64_t *ea = v.data() + 8, *eb = ea + n; Bufs &B = bufs();
    T *a = (T *)B.a.place(n, sizeof(T), (int)v[1], v[4]), *b = (T *)B.b.place(n, sizeof(T), (int)v[2], v[5]), *o = (T *)B.o.place(n, sizeof(T), (int)v[3], v[6]);
    auto say = [&](const str &s) { if (desc) { char t[160]; snprintf(t, sizeof t, "array form of %s, length %zu, input %s+%llu, output %s+%llu: ", f.name, n, v[1] == 0 ? "start" : v[1] == 1 ? "end" : "middle", (unsigned long long)v[4], v[3] == 0 ? "start" : v[3] == 1 ? "end" : "middle", (unsigned long long)v[6]); *desc = t + s; } return true; };
    // canaries around all arrays: at most 64 elements on either side, as far as the usable pages go
    const size_t G = 256;
    auto glo = [&](Arena &A, char *p) { return (size_t)std::min<ptrdiff_t>(G, p - A.lo); };
    auto ghi = [&](Arena &A, char *p) { return (size_t)std::min<ptrdiff_t>(G, A.hi - p); };
    for (int pass = 0; pass < (prop == 10 ? 2 : 1); ++pass) {
      unsigned char can = pass ? 0x5c : 0xa7;
      auto fill = [&](Arena &A, T *p) { size_t l = glo(A, (char *)p), h = ghi(A, (char *)(p + n)); memset((char *)p - l, can, l); memset((char *)(p + n), can, h); };
      fill(B.a, a); if (f.nin == 2) fill(B.b, b); fill(B.o, o); memset((void *)o, can, n * sizeof(T));
      for (size_t i = 0; i < n; ++i) { a[i] = frombits<T>(ea[i]); if (f.nin == 2) b[i] = frombits<T>(eb[i]); }
      int sig = 0;
      if ((sig = sigsetjmp(jb, 1)) == 0) { armed = 1; f.arr(a, b, o, nullptr, n); armed = 0; }
      else { armed = 0; return say("access outside the arrays (signal " + std::to_string(sig) + ")"); }
      if (prop == 10) {
        for (size_t i = 0; i < n; ++i) { if (bits(a[i]) != (typename FT<T>::U)ea[i]) return say("input element " + std::to_string(i) + " was changed"); if (f.nin == 2 && bits(b[i]) != (typename FT<T>::U)eb[i]) return say("element " + std::to_string(i) + " of the second input was changed"); }
        auto chk = [&](Arena &A, T *p, const char *w) -> bool { size_t l = glo(A, (char *)p), h = ghi(A, (char *)(p + n)); for (size_t k = 0; k < l; ++k) if (((unsigned char *)p)[-1 - (ptrdiff_t)k] != can) { say(str("memory before the ") + w + " was written"); return true; } for (size_t k = 0; k < h; ++k) if (((unsigned char *)(p + n))[k] != can) { say(str("memory after the ") + w + " was written, byte " + std::to_string(k)); return true; } return false; };
        if (chk(B.o, o, "output") || chk(B.a, a, "input") || (f.nin == 2 && chk(B.b, b, "second input"))) return true;
        static thread_local std::vector<uint64_t> first; 
        if (pass == 0) { first.resize(n); for (size_t i = 0; i < n; ++i) first[i] = bits(o[i]); }
        else for (size_t i = 0; i < n; ++i) if (first[i] != bits(o[i]) && o[i] == o[i]) return say("output element " + std::to_string(i) + " is not written");
            else if (first[i] != bits(o[i])) { uint64_t ca = 0, cb = 0; memset(&ca, 0xa7, sizeof(T)); memset(&cb, 0x5c, sizeof(T)); if (first[i] == ca || bits(o[i]) == cb) return say("output element " + std::to_string(i) + " is not written"); }
      } else {
        for (size_t i = 0; i < n; ++i) {
          T x = frombits<T>(ea[i]), y = f.nin == 2 ? frombits<T>(eb[i]) : (T)0, w;
          if (f.scal && str(f.name).compare(0, 5, "fast_") == 0) f.scal(&x, &y, &w, nullptr, 1); else w = plain<T>(f.name, x, y);
          if (!same(w, o[i])) return say("element " + std::to_string(i) + " for " + hexfp(x) + (f.nin == 2 ? ", " + hexfp(y) : str()) + " is " + hexfp(o[i]) + ", the scalar function gives " + hexfp(w));
        }
      }
    }
    return false;
  }
  void gen(Rng &r, std::vector<uint64_t> &v) {
    int fn; do fn = (int)r.below((uint64_t)T_->n); while (!T_->fn[fn].arr);
    const SutFn &f = T_->fn[fn]; size_t n = gen_len(r); int mode = (int)r.below(4); uint64_t poison = n ? r.below(n) : 0;
    v.assign(8 + n * (f.nin), 0);
    v[0] = (uint64_t)fn; v[1] = r.below(3); v[2] = r.below(3); v[3] = r.below(3); v[4] = r.below(17); v[5] = r.below(17); v[6] = r.below(17); v[7] = n;
    if (r.below(3) == 0) v[4] = v[5] = v[6] = 0;
    Rng e(r.next());
    for (size_t i = 0; i < n * (size_t)f.nin; ++i) v[8 + i] = raw_elem(e, f, mode, i % (n ? n : 1), poison);
  }
  bool chunk(uint64_t, Rng &r, Stats &st, Case &c) override {
    std::vector<uint64_t> v;
    for (uint64_t k = 0; k < per; ++k) { gen(r, v); st.n++; if (v[7] > 4) st.nontrivial++; if (decide(v, nullptr)) { c.arg = v; return true; } }
    return false;
  }
  bool one(const Case &c, str &d) override { return decide(c.arg, &d); }
  void shrink(Case &c) override {
    str d; auto ok = [&](const std::vector<uint64_t> &v) { return decide(v, nullptr); };
    const size_t nin = (size_t)T_->fn[c.arg[0]].nin; int budget = 3000;
    auto cut = [&](const std::vector<uint64_t> &v, size_t from, size_t len) { size_t n = v[7]; std::vector<uint64_t> w(v.begin(), v.begin() + 8); w[7] = n - len; for (size_t k = 0; k < nin; ++k) for (size_t i = 0; i < n; ++i) if (i < from || i >= from + len) w.push_back(v[8 + k * n + i]); return w; };
    for (size_t len = c.arg[7] / 2; len >= 1; len = len / 2) for (size_t from = 0; from + len <= c.arg[7] && budget-- > 0;) { auto w = cut(c.arg, from, len); if (ok(w)) c.arg = w; else from += len; }
    for (int k = 1; k < 7; ++k) if (c.arg[k]) { auto w = c.arg; w[k] = 0; if (ok(w)) c.arg = w; }
    uint64_t one = T_->fn[c.arg[0]].prec ? bits(1.f) : bits(1.);
    for (size_t i = 8; i < c.arg.size() && budget-- > 0; ++i) if (c.arg[i] != one) { auto w = c.arg; w[i] = one; if (ok(w)) c.arg = w; }
  }
  void samples(Rng &r, std::vector<str> &o) override { for (int k = 0; k < 12; ++k) { std::vector<uint64_t> v; gen(r, v); char b[200]; snprintf(b, sizeof b, "%s array, length %llu, input at %llu+%llu, output at %llu+%llu", T_->fn[v[0]].name, (unsigned long long)v[7], (unsigned long long)v[1], (unsigned long long)v[4], (unsigned long long)v[3], (unsigned long long)v[6]); o.push_back(b); } }
};

// every function at every length 0..200, placed at both ends: enumerated
struct Lengths : ArrTask {
  std::vector<int> fns;
  bool chunk(uint64_t i, Rng &r, Stats &st, Case &c) override {
    int fn = fns[i]; const SutFn &f = T_->fn[fn];
    for (size_t n = 0; n <= 200; ++n) for (int w = 0; w < 2; ++w) {
      std::vector<uint64_t> v(8 + n * (size_t)f.nin, 0); v[0] = (uint64_t)fn; v[1] = v[2] = v[3] = (uint64_t)w; v[7] = n; v[6] = (n + (uint64_t)w) % 3;
      for (size_t k = 0; k < n * (size_t)f.nin; ++k) v[8 + k] = raw_elem(r, f, 0, 0, 1);
      st.n++; if (n > 4) st.nontrivial++;
      if (decide(v, nullptr)) { c.arg = v; return true; }
    }
    return false;
  }
};

// lengths beyond 2^31: the arrays are virtual, all but their last block are mapped onto the same memory
struct Huge : Task {
  const SutFn *f; int prop; std::vector<uint64_t> lens;
  bool decide(uint64_t n, str &d) {
    const size_t blk = 1 << 22, es = f->prec ? 4 : 8; size_t bytes = (size_t)n * es, nb = bytes / blk, tail = bytes - nb * blk;
    int fi = memfd_create("in", 0), fo = memfd_create("out", 0); if (ftruncate(fi, blk) || ftruncate(fo, blk)) exit(3);
    size_t total = (nb + 2) * blk; char *in = (char *)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *out = (char *)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (in == MAP_FAILED || out == MAP_FAILED) { close(fi); close(fo); return false; }
    for (size_t k = 0; k < nb; ++k) { if (mmap(in + k * blk, blk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fi, 0) == MAP_FAILED || mmap(out + k * blk, blk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fo, 0) == MAP_FAILED) { close(fi); close(fo); munmap(in, total); munmap(out, total); return false; } }
    size_t tl = (tail + PAGE - 1) / PAGE * PAGE + PAGE; mprotect(in + nb * blk, tl, PROT_READ | PROT_WRITE); mprotect(out + nb * blk, tl, PROT_READ | PROT_WRITE);
    auto val = [&](size_t i, char *p) { double v = 0.001 + 0.9 * (double)((i * 2654435761u) % 1000003) / 1000003; if (f->prec) ((float *)p)[0] = (float)v; else ((double *)p)[0] = v; };
    for (size_t i = 0; i < blk / es; ++i) val(i, in + i * es);
    for (size_t i = 0; i < tail / es; ++i) val(i, in + nb * blk + i * es);
    memset(out, 0xa7, blk); memset(out + nb * blk, 0xa7, tl);
    bool bad = false; int sig;
    if ((sig = sigsetjmp(jb, 1)) == 0) { armed = 1; f->arr(in, in, out, nullptr, (size_t)(uint32_t)n); armed = 0; } else { armed = 0; bad = true; d = "access outside the arrays"; }
    for (size_t i = 0; !bad && i < tail / es; ++i) {
      char *p = out + nb * blk + i * es, *q = in + nb * blk + i * es;
      if (f->prec) { float w; f->scal(q, q, &w, 0, 1); if (!same(w, *(float *)p)) bad = true; } else { double w; f->scal(q, q, &w, 0, 1); if (!same(w, *(double *)p)) bad = true; }
      if (bad) d = "element " + std::to_string(nb * (blk / es) + i) + " is wrong or not written";
    }
    for (size_t i = tail; !bad && i < tl; ++i) if ((unsigned char)out[nb * blk + i] != 0xa7) { bad = true; d = "memory after the output was written"; }
    for (size_t i = 0; !bad && i < blk / es; ++i) { char t[8]; val(i, t); if (memcmp(t, in + i * es, es)) { bad = true; d = "the input was changed"; } }
    munmap(in, total); munmap(out, total); close(fi); close(fo);
    if (bad) d = str("array form of ") + f->name + ", length " + std::to_string(n) + ": " + d;
    return bad;
  }
  bool chunk(uint64_t i, Rng &, Stats &st, Case &c) override { str d; st.n++; st.nontrivial++; if (decide(lens[i], d)) { c.arg = {lens[i]}; return true; } return false; }
  bool one(const Case &c, str &d) override { return decide(c.arg.at(0), d); }
  void samples(Rng &, std::vector<str> &o) override { for (uint64_t n : lens) o.push_back(str(f->name) + " array, length " + std::to_string(n)); }
};

int main(int argc, char **argv) {
  parse_options(argc, argv);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0);
  Sut S(opt.sut.at(0)); T_ = S.t; int prop = atoi(opt.prop.c_str() + 1); bool th = opt.tier == "thorough";
  std::vector<std::unique_ptr<Task>> ts;
  { auto *t = new Lengths; t->name = "all lengths"; t->prop = prop; for (int i = 0; i < T_->n; ++i) if (T_->fn[i].arr) t->fns.push_back(i); t->nchunks = t->fns.size(); ts.emplace_back(t); }
  { auto *t = new ArrTask; t->name = "generated calls"; t->prop = prop; t->nchunks = (uint64_t)((th ? 600000 : 16000) * opt.scale); ts.emplace_back(t); }
  for (int i = 0; i < T_->n; ++i) {
    str n = T_->fn[i].name; if (!T_->fn[i].arr || !T_->fn[i].scal) continue;
    if (th ? (T_->fn[i].nin == 1) : (n == "identityf" || n == "fast_isqrtf" || n == "identity")) { auto *t = new Huge; t->name = n + " huge array"; t->f = &T_->fn[i]; t->prop = prop; t->lens = {(1ull << 31) + 1021}; if (th && T_->fn[i].prec) t->lens.push_back((1ull << 32) - 1); t->nchunks = t->lens.size(); ts.emplace_back(t); }
  }
  return run_all(ts, "array calls with more than four elements (reaching the vectorised part of the loop)");
}
