// P26: entry points of the generated wrapper library against the scalar fast functions and exact arithmetic.
// The pointer types below are those a C client relies on; they are taken from the generated header.
#include "rcase.h"
#include "sut.h"
#include "vdtFatLibWrapper.h"
#include <dlfcn.h>
#include <sys/mman.h>

template <class T> struct Entry {
  str name; int nin, nout;
  std::function<void(const T *, T *)> scal;                                                        // arguments, results
  std::function<void(const T *, const T *, const T *, T *, T *, long)> arr;
  std::function<void(const T *, T *)> ref; bool either = false;                                    // either: rounded once or twice
};
static const SutTable *table;
static const SutFn *sutfn(const str &n) { for (int i = 0; i < table->n; ++i) if (n == table->fn[i].name) return &table->fn[i]; fprintf(stderr, "no function %s\n", n.c_str()); exit(3); }

template <class T> struct Typed {
  typedef T (*S1)(T); typedef T (*S2)(T, T); typedef T (*S3)(T, T, T); typedef void (*S12)(T, T *, T *);
  typedef void (*A1)(const T *, T *, long); typedef void (*A2)(const T *, const T *, T *, long); typedef void (*A3)(const T *, const T *, const T *, T *, long); typedef void (*A12)(const T *, T *, T *, long);
  std::vector<Entry<T>> v;
  std::function<void(const T *, T *)> fast(const str &n, int nin) { const SutFn *f = sutfn("fast_" + n + (sizeof(T) == 4 ? "f" : "")); return [f, nin](const T *x, T *o) { f->scal(x, nin > 1 ? x + 1 : x, o, o + 1, 1); }; }
  void add(const str &n, S1 s, A1 a, std::function<void(const T *, T *)> ref = nullptr) { Entry<T> e; e.name = n; e.nin = e.nout = 1; e.scal = [s](const T *x, T *o) { *o = s(*x); }; e.arr = [a](const T *x, const T *, const T *, T *o, T *, long k) { a(x, o, k); }; e.ref = ref ? ref : fast(n, 1); v.push_back(e); }
  void add(const str &n, S2 s, A2 a, std::function<void(const T *, T *)> ref = nullptr) { Entry<T> e; e.name = n; e.nin = 2; e.nout = 1; e.scal = [s](const T *x, T *o) { *o = s(x[0], x[1]); }; e.arr = [a](const T *x, const T *y, const T *, T *o, T *, long k) { a(x, y, o, k); }; e.ref = ref ? ref : fast(n, 2); v.push_back(e); }
  void add(const str &n, S3 s, A3 a, std::function<void(const T *, T *)> ref) { Entry<T> e; e.name = n; e.nin = 3; e.nout = 1; e.scal = [s](const T *x, T *o) { *o = s(x[0], x[1], x[2]); }; e.arr = [a](const T *x, const T *y, const T *z, T *o, T *, long k) { a(x, y, z, o, k); }; e.ref = ref; e.either = n == "fma"; v.push_back(e); }
  void add(const str &n, S12 s, A12 a) { Entry<T> e; e.name = n; e.nin = 1; e.nout = 2; e.scal = [s](const T *x, T *o) { s(*x, o, o + 1); }; e.arr = [a](const T *x, const T *, const T *, T *o, T *p, long k) { a(x, o, p, k); }; e.ref = fast(n, 1); v.push_back(e); }
};
static Typed<double> D; static Typed<float> F;
// exact arithmetic: volatile keeps the operations apart
template <class T> T prodsum(T x, T y, T z) { volatile T p = x * y; return p + z; }
static void fill() {
#define U(n) D.add(#n, &vdt_##n, &vdt_##n##v); F.add(#n, &vdt_##n##f, &vdt_##n##fv);
#define R(n, expr) D.add(#n, &vdt_##n, &vdt_##n##v, [](const double *x, double *o) { typedef double T; *o = expr; }); F.add(#n, &vdt_##n##f, &vdt_##n##fv, [](const float *x, float *o) { typedef float T; *o = expr; });
  U(asin) U(atan) U(cos) U(exp) U(inv) U(isqrt) U(log) U(sin) U(atan2) U(sincos)
  R(identity, x[0]) R(sqrt, std::sqrt(x[0])) R(div, x[0] / x[1]) R(fma, prodsum<T>(x[0], x[1], x[2])) R(fmac, std::fma(x[0], x[1], x[2]))
}
template <class T> Typed<T> &typed(); template <> Typed<double> &typed<double>() { return D; } template <> Typed<float> &typed<float>() { return F; }

static bool same(double a, double b) { return g::bits(a) == g::bits(b) || (a != a && b != b); }
static bool same(float a, float b) { return g::bits(a) == g::bits(b) || (a != a && b != b); }
template <class T> str show(T x) { char b[64]; snprintf(b, sizeof b, "%.17g(%0*llx)", (double)x, (int)sizeof(T) * 2, (unsigned long long)g::bits(x)); return b; }
template <class T> bool differs(const Entry<T> &e, const T *x, const T *o, str &d, const str &how) {
  T w[2] = {0, 0}; e.ref(x, w);
  for (int k = 0; k < e.nout; ++k) if (!same(w[k], o[k])) {
    if (e.either && same(std::fma(x[0], x[1], x[2]), o[k])) continue;
    d = "vdt_" + e.name + (sizeof(T) == 4 ? "f" : "") + how + "("; for (int i = 0; i < e.nin; ++i) d += (i ? ", " : "") + show(x[i]);
    d += "): result " + std::to_string(k + 1) + " is " + show(o[k]) + " instead of " + show(w[k]); return true; }
  return false;
}

// numbers of the usual range of the functions, special values, any pattern
template <class T> T value(uint64_t b) {
  switch ((b >> 8) % 4) { case 0: return g::real<T>(mix(b, 1)); case 1: { double u = (double)(mix(b, 2) >> 11) * 0x1p-53; return (T)(2 * u - 1); } case 2: { double u = (double)(mix(b, 3) >> 11) * 0x1p-53; return (T)(u * 40); } default: { double u = (double)(mix(b, 4) >> 11) * 0x1p-53; return (T)((u - 0.5) * 1400); } }
}
struct Guard { // memory of n numbers ending or beginning at an inaccessible page
  char *base; size_t len; char *p; size_t n; unsigned char can = 0xa7;
  Guard(size_t bytes, bool at_end, size_t off) { n = bytes; len = (bytes + off + 8191) / 4096 * 4096; base = (char *)mmap(0, len + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) exit(3);
    mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + len, 4096, PROT_NONE); p = at_end ? base + 4096 + len - bytes - off : base + 4096 + off; memset(base + 4096, can, len); }
  bool touched() { for (char *q = base + 4096; q < base + 4096 + len; ++q) if ((q < p || q >= p + n) && (unsigned char)*q != can) return true; return false; }
  ~Guard() { munmap(base, len + 8192); }
};

template <class T> bool bad_scalar(const Case &c, str &d) {
  auto &v = typed<T>().v; const Entry<T> &e = v[c.n.at("entry")[0] % v.size()]; const u64v &a = c.n.at("args");
  for (size_t i = 0; i + 2 < a.size(); i += 3) {
    T x[3]; bool raw = c.n.at("raw")[0] & 1; for (int k = 0; k < 3; ++k) x[k] = raw ? g::real<T>(a[i + k]) : value<T>(a[i + k]);
    T o[2]; memset(o, 0xa7, sizeof o); e.scal(x, o); if (differs(e, x, o, d, "")) return true; }
  return false;
}
template <class T> bool bad_array(const Case &c, str &d) {
  auto &v = typed<T>().v; const Entry<T> &e = v[c.n.at("entry")[0] % v.size()]; const u64v &a = c.n.at("args"), &pl = c.n.at("place"); size_t n = a.size() / 3, extra = c.n.at("more")[0]; if (n) n += extra;
  std::unique_ptr<Guard> G[5]; T *p[5]; for (int k = 0; k < 5; ++k) { G[k].reset(new Guard(n * sizeof(T), pl[(size_t)k] & 1, (pl[(size_t)k] >> 1) % 9 * sizeof(T))); p[k] = (T *)G[k]->p; }
  bool raw = c.n.at("raw")[0] & 1;
  auto arg = [&](size_t i, int k) { size_t m = a.size() / 3; uint64_t b = i < m ? a[3 * i + (size_t)k] : mix(a[3 * (i % m) + (size_t)k], i); return raw ? g::real<T>(b) : value<T>(b); };
  for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) p[k][i] = arg(i, k);
  e.arr(p[0], p[1], p[2], p[3], p[4], (long)n);
  str nm = "vdt_" + e.name + (sizeof(T) == 4 ? "fv" : "v") + ", length " + std::to_string(n);
  for (size_t i = 0; i < n; ++i) { T x[3], o[2]; for (int k = 0; k < 3; ++k) { x[k] = arg(i, k); if (g::bits(x[k]) != g::bits(p[k][i])) { d = nm + ": input " + std::to_string(k + 1) + " was changed"; return true; } } o[0] = p[3][i]; o[1] = p[4][i]; if (differs(e, x, o, d, "v element " + std::to_string(i) + " of " + std::to_string(n) + " ")) return true; }
  for (int k = 0; k < 5; ++k) if (G[k]->touched()) { d = nm + ": memory around " + (k < 3 ? "input " + std::to_string(k + 1) : "output " + std::to_string(k - 2)) + " was changed"; return true; }
  return false;
}
// lengths beyond 2^31: all blocks of an array but the last lie on the same memory
static bool bad_huge(const Case &c, str &d) {
  typedef float T; static const char *nm[] = {"identity", "div", "fma", "sincos", "exp", "atan2", "fmac", "sqrt"}; const Entry<T> *e = nullptr; for (auto &x : F.v) if (x.name == nm[c.n.at("entry")[0] % 8]) e = &x;
  uint64_t n = (1ull << 31) + c.n.at("length")[0]; const size_t blk = 1 << 22; size_t nb = n * sizeof(T) / blk, tail = n * sizeof(T) - nb * blk; char *p[5]; size_t total = (nb + 2) * blk; bool bad = false;
  for (int k = 0; k < 5; ++k) { p[k] = (char *)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p[k] == MAP_FAILED) return false; int fd = memfd_create("a", 0); if (ftruncate(fd, blk)) exit(3);
    for (size_t b = 0; b < nb; ++b) if (mmap(p[k] + b * blk, blk, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(3); }
    close(fd); mprotect(p[k] + nb * blk, (tail + 4095) / 4096 * 4096, PROT_READ | PROT_WRITE);
    for (size_t i = 0; i < blk / sizeof(T); ++i) ((T *)p[k])[i] = value<T>(mix(i, (uint64_t)k)); for (size_t i = 0; i < tail / sizeof(T); ++i) ((T *)(p[k] + nb * blk))[i] = value<T>(mix(i, (uint64_t)k + 77)); }
  e->arr((T *)p[0], (T *)p[1], (T *)p[2], (T *)p[3], (T *)p[4], (long)n);
  for (size_t i = 0; i < tail / sizeof(T) && !bad; ++i) { T x[3], o[2]; for (int k = 0; k < 3; ++k) x[k] = ((T *)(p[k] + nb * blk))[i]; o[0] = ((T *)(p[3] + nb * blk))[i]; o[1] = ((T *)(p[4] + nb * blk))[i]; bad = differs(*e, x, o, d, "v element " + std::to_string(nb * (blk / sizeof(T)) + i) + " of " + std::to_string(n) + " "); }
  for (int k = 0; k < 5; ++k) munmap(p[k], total);
  return bad;
}

template <class T> rc::Gen<Case> gen(bool arr) {
  return rc::gen::exec([arr] { Case c; c.n["entry"] = {*g::upto(D.v.size() - 1)}; c.n["raw"] = {*g::upto(1)}; c.n["args"] = *g::rows({g::pattern(), g::pattern(), g::pattern()}, arr ? 1 : 1, arr ? 1 : 2);
    if (arr) { u64v pl; for (int i = 0; i < 5; ++i) pl.push_back(*g::upto(17)); c.n["place"] = pl; c.n["more"] = {*rc::gen::shrink(rc::gen::weightedOneOf<uint64_t>({{6, rc::gen::just((uint64_t)0)}, {2, g::upto(1000)}, {1, g::upto(9000)}, {1, rc::gen::map(g::upto(40), [](uint64_t k) -> uint64_t { return 65500 + k; })}}), [](uint64_t x) { return rc::shrink::towards<uint64_t>(x, 0); })}; }
    else if (c.n["args"].empty()) c.n["args"] = {*g::pattern(), *g::pattern(), *g::pattern()};
    return c; });
}

int main(int argc, char **argv) {
  parse_roptions(argc, argv); str sut; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--sut")) sut = argv[i + 1];
  void *h = dlopen(sut.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; } table = ((sut_table_t)dlsym(h, "sut_table"))(); fill();
  std::vector<Prop> ps;
  auto nt = [](const Case &c) { return c.n.at("args").size() >= 12; };
  ps.push_back({"scalar double", gen<double>(false), bad_scalar<double>, nt, 40000, 2000000});
  ps.push_back({"scalar float", gen<float>(false), bad_scalar<float>, nt, 40000, 2000000});
  ps.push_back({"array double", gen<double>(true), bad_array<double>, nt, 14000, 400000});
  ps.push_back({"array float", gen<float>(true), bad_array<float>, nt, 14000, 400000});
  bool huge = true; for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--nohuge")) huge = false;
  if (huge) ps.push_back({"array beyond 2^31", rc::gen::exec([] { Case c; c.n["entry"] = {*g::upto(7)}; c.n["length"] = {1 + *g::upto(2000)}; return c; }), bad_huge, [](const Case &) { return true; }, 8, 64});
  return run_props(ps, "at least four argument tuples in the case (scalar: compared one by one, array: length four or more)");
}
