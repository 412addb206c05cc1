// Numeric properties P01-P08, P11, P12, P14, P16, P17: generated arguments against high precision
// references, relations between calls and floating point flags.
#include "engine.h"
#include <quadmath.h>
#include <time.h>
Options opt;
typedef long double ld;
typedef __float128 qd;

// ---------------------------------------------------------------- references
#define OP(N, D, L, Q) struct N { static double d(double x) { return D; } static ld l(ld x) { return L; } static qd q(qd x) { return Q; } };
OP(OExp, std::exp(x), expl(x), expq(x))
OP(OLog, std::log(x), logl(x), logq(x))
OP(OSin, std::sin(x), sinl(x), sinq(x))
OP(OCos, std::cos(x), cosl(x), cosq(x))
OP(OTan, std::tan(x), tanl(x), tanq(x))
OP(OTanh, std::tanh(x), tanhl(x), tanhq(x))
OP(OAsin, std::asin(x), asinl(x), asinq(x))
OP(OAcos, std::acos(x), acosl(x), acosq(x))
OP(OAtan, std::atan(x), atanl(x), atanq(x))
OP(OIsqrt, 1 / std::sqrt(x), 1 / sqrtl(x), 1 / sqrtq(x))
OP(OInv, 1 / x, 1 / x, 1 / x)

// |result - exact| <= B*ulp(exact) + R*|exact| + A + K*|x|*(tan? 1+y^2 : 1) [+ L*|exact| where linear(x)]
struct Bound { double B = 0, R = 0, A = 0, K = 0, refB = 0.6; bool tan = false; double L = 0, Lz = 0; };

template <class T, class O> struct Acc {
  Bound b;
  bool quick(T x, T r, double y0) const {
    double u = ulp_at<T>(y0), m = sizeof(T) == 8 ? b.refB : 1e-6;
    double tol = (b.B - (b.B > 0 ? m : 0)) * u + b.R * std::fabs(y0) + b.A;
    if (b.B == 0) tol -= m * u;
    (void)x;
    return std::fabs((double)r - y0) <= tol;
  }
  template <class W> W tol(T x, W y, ld yl) const {
    W ay = y < 0 ? -y : y; W ax = x < 0 ? -(W)x : (W)x;
    W t = (W)b.B * (W)ulp_exact<T>(yl) + (W)b.R * ay + (W)b.A;
    if (b.K > 0) t += (W)b.K * ax * (b.tan ? 1 + y * y : (W)1);
    if (b.L > 0) { // distance to the next multiple of pi/2
      qd p = M_PI_2q, k = rintq((qd)x / p), z = (qd)x - k * p; if (z < 0) z = -z;
      if (z < (qd)b.Lz) t += (W)b.L * ay;
    }
    return t;
  }
  // true if the result is acceptable
  bool confirm(T x, T r, ld *errulp = nullptr) const {
    ld y = O::l((ld)x);
    ld e = fabsl((ld)r - y);
    if (errulp) { ld t = tol<ld>(x, y, y); *errulp = e / t; }
    if (e <= tol<ld>(x, y, y) * (1 - 1e-9L)) return true;
    if (!(r == r) || std::isinf(r)) return false;
    qd yq = O::q((qd)x), eq = (qd)r - yq; if (eq < 0) eq = -eq;
    return eq <= tol<qd>(x, yq, (ld)yq) * (qd)(1 + 1e-9);
  }
  str describe(T x, T r) const {
    qd y = O::q((qd)x), e = (qd)r - y; if (e < 0) e = -e;
    char buf[300]; snprintf(buf, sizeof buf, "argument %a (%.17g) returns %a (%.17g), exact value %.21Lg, error %.4Lg = %.4Lg ulp, allowed %.4Lg", (double)x, (double)x, (double)r, (double)r, (ld)y, (ld)e, (ld)(e / (qd)ulp_exact<T>((ld)y)), (ld)tol<qd>(x, y, (ld)y));
    return buf;
  }
};

// output selector: -1 single output, 0/1 first/second of a two-output function
template <class T> struct Caller {
  const SutFn *f; bool arr; int outsel;
  void operator()(const T *a, T *o, size_t n) const {
    T o2[BUF];
    if (outsel == 1) f->scal(a, nullptr, o2, o, n);
    else (arr ? f->arr : f->scal)(a, nullptr, o, o2, n);
  }
  T single(T x) const { // an array call uses several elements, to reach the vector code
    if (!arr) { T o; (*this)(&x, &o, 1); return o; }
    T in[35], o[35]; for (T &v : in) v = x; (*this)(in, o, 35); return o[3];
  }
};

template <class T, class O> struct AccTask : Point1<T> {
  Caller<T> call; Acc<T, O> acc; std::atomic<double> worst{0}; std::atomic<double> worstx{0}; const SutFn *base = nullptr; // base: reference build, bitwise equality
  int test(const T *a, size_t n) override {
    T o[BUF]; call(a, o, n);
    if (opt.measure) {
      for (size_t i = 0; i < n; ++i) { ld e; acc.confirm(a[i], o[i], &e); if ((double)e > worst) { worst = (double)e; worstx = (double)a[i]; } }
      return -1;
    }
    if (base) { T q[BUF], q2[BUF]; base->scal(a, nullptr, q, q2, n); for (size_t i = 0; i < n; ++i) if (!same(o[i], q[i])) return (int)i; return -1; }
    for (size_t i = 0; i < n; ++i) if (__builtin_expect(!acc.quick(a[i], o[i], O::d((double)a[i])), 0)) if (!acc.confirm(a[i], o[i])) return (int)i;
    return -1;
  }
  bool fails(T x, str &desc) override {
    T r = call.single(x);
    if (base) { T q, q2; base->scal(&x, nullptr, &q, &q2, 1); desc = "argument " + hexfp(x) + " returns " + hexfp(r) + ", the default build " + hexfp(q); return !same(r, q); }
    desc = acc.describe(x, r);
    return !acc.confirm(x, r);
  }
  void measured() override { printf("MEASURE %s worst=%.4f of tolerance at %.17g\n", this->name.c_str(), worst.load(), worstx.load()); }
};

struct O2Atan2 { static double d(double y, double x) { return std::atan2(y, x); } static ld l(ld y, ld x) { return atan2l(y, x); } static qd q(qd y, qd x) { return atan2q(y, x); } };
template <class T> struct Acc2Task : Point2<T> {
  const SutFn *f; bool arr = false; double B, refB; std::atomic<double> worst{0}, wy{0}, wx{0}; const SutFn *base = nullptr;
  static T z(T v) { return v == 0 ? (T)0 : v; } // zeros count as +0
  void call(const T *a, const T *b, T *o, size_t n) { (arr ? f->arr : f->scal)(a, b, o, nullptr, n); }
  bool confirm(T y, T x, T r, ld *eu = nullptr) {
    ld e0 = atan2l((ld)z(y), (ld)z(x)), e = fabsl((ld)r - e0);
    if (eu) *eu = e / ulp_exact<T>(e0);
    if (e <= B * ulp_exact<T>(e0) * (1 - 1e-9L)) return true;
    if (!(r == r) || std::isinf(r)) return false;
    qd q = atan2q((qd)z(y), (qd)z(x)), d = (qd)r - q; if (d < 0) d = -d;
    return d <= (qd)B * (qd)ulp_exact<T>((ld)q) * (qd)(1 + 1e-9);
  }
  int test(const T *a, const T *b, size_t n) override {
    T o[BUF]; call(a, b, o, n);
    if (opt.measure) { for (size_t i = 0; i < n; ++i) { ld e; confirm(a[i], b[i], o[i], &e); if ((double)e > worst) { worst = (double)e; wy = a[i]; wx = b[i]; } } return -1; }
    if (base) { T q[BUF]; base->scal(a, b, q, nullptr, n); for (size_t i = 0; i < n; ++i) if (!same(o[i], q[i])) return (int)i; return -1; }
    double m = sizeof(T) == 8 ? refB : 1e-6;
    for (size_t i = 0; i < n; ++i) {
      double y0 = std::atan2((double)z(a[i]), (double)z(b[i]));
      if (__builtin_expect(!(std::fabs((double)o[i] - y0) <= (B - m) * ulp_at<T>(y0)), 0)) if (!confirm(a[i], b[i], o[i])) return (int)i;
    }
    return -1;
  }
  bool fails(T y, T x, str &desc) override {
    T r; if (arr) { T a[35], b[35], o[35]; for (int i = 0; i < 35; ++i) a[i] = y, b[i] = x; call(a, b, o, 35); r = o[3]; } else call(&y, &x, &r, 1);
    if (base) { T q; base->scal(&y, &x, &q, nullptr, 1); desc = "arguments " + hexfp(y) + ", " + hexfp(x) + " return " + hexfp(r) + ", the default build " + hexfp(q); return !same(r, q); }
    ld e = atan2l((ld)z(y), (ld)z(x));
    char buf[200]; snprintf(buf, sizeof buf, " returns %a (%.17g), exact %.21Lg, error %.4Lg ulp, allowed %g ulp", (double)r, (double)r, e, fabsl((ld)r - e) / ulp_exact<T>(e), B);
    desc = "(" + hexfp(y) + ", " + hexfp(x) + ")" + buf;
    return !confirm(y, x, r);
  }
  void measured() override { printf("MEASURE %s worst=%.4f ulp at %.17g, %.17g\n", this->name.c_str(), worst.load(), wy.load(), wx.load()); }
};

// ---------------------------------------------------------------- domains and bounds
typedef std::vector<std::unique_ptr<Task>> Tasks;
static std::vector<Sut> suts;

template <class T> Domain<T> domain(const str &fn) {
  Domain<T> D; const bool dbl = sizeof(T) == 8; const T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
  D.lo = -mx; D.hi = mx;
  if (fn == "exp") { D.lo = dbl ? -708 : -88; D.hi = dbl ? 708 : (T)88.722; D.emin_op = dbl ? -35 : -20;
    D.special = [](Rng &r) { double k = (double)(int)r.below(1024); return (k + ((r.next() & 1) ? 0.5 : 0.)) * M_LN2; }; }
  if (fn == "log") { D.lo = mn; D.hi = dbl ? (T)1e307 : mx; D.emin_op = -80; D.pts = {1, M_SQRT1_2, M_SQRT2};
    D.special = [](Rng &r) { double c[] = {1, M_SQRT1_2, 0.75, 1.25}; return std::ldexp(c[r.below(4)], (int)r.below(2044) - 1021); }; }
  if (fn == "sin" || fn == "cos" || fn == "tan") { D.hi = dbl ? (T)0x1p28 : (T)8192; D.lo = -D.hi; D.emin_op = -30;
    double lim = dbl ? 0x1p28 : 8192;
    D.special = [lim](Rng &r) { double h = lim / M_PI_4; double k = std::floor(std::exp(r.unit() * std::log(h))); return (double)((ld)k * 0.785398163397448309615660845819875721L); };
    D.pts = {M_PI_4, M_PI_2, 3 * M_PI_4, M_PI, 5 * M_PI_4, 1e-7, 1e-8, 2e-7, 0.0625}; }
  if (fn == "asin" || fn == "acos") { D.lo = -1; D.hi = 1; D.emin_op = -30; D.pts = {1, 0.625, 0.5, M_SQRT1_2, 1e-8, 1e-4};
    D.special = [](Rng &r) { return 1 - std::ldexp(r.unit(), -(int)r.below(50)); }; }
  if (fn == "atan") { D.emin_op = -30; D.pts = {0.66, 0.41421356237309503, 2.414213562373095, 1};
    D.special = [](Rng &r) { return std::tan(M_PI / 64 * (double)(1 + r.below(31))); }; }
  if (fn == "tanh") { D.emin_op = -30; D.pts = {20, 9.1, 0.625, 1, 22, 19, 9, 10};
    D.special = [](Rng &r) { return r.unit() * 25; }; }
  if (fn == "isqrt" || fn == "approx_isqrt") { D.lo = mn; D.emin_op = -40; D.special = [](Rng &r) { return std::ldexp(1. + (double)r.below(4) / 4, (int)r.below(2044) - 1022); }; }
  if (fn == "inv" || fn == "approx_inv") { D.hi = dbl ? (T)0x1p1022 : (T)0x1p126f; D.lo = -D.hi; D.emin_op = -40; D.special = [](Rng &r) { return std::ldexp(1. + (double)r.below(4) / 4, (int)r.below(2044) - 1022); }; }
  return D;
}
template <class T> Bound bound(const str &fn) {
  Bound b; const bool dbl = sizeof(T) == 8;
  if (fn == "exp") b.B = dbl ? 2.5 : 2;
  if (fn == "log") b.B = 1.5;
  if (fn == "sin" || fn == "cos") { b.B = 2; b.K = dbl ? 1e-31 : 6e-15; }
  if (fn == "tan") { b.B = 4; b.K = dbl ? 1e-31 : 6e-15; b.tan = true; b.refB = 1; if (dbl) { b.L = 4e-15; b.Lz = 1.5e-7; } }
  if (fn == "asin") b.B = dbl ? 1.7 : 3;
  if (fn == "acos") b.A = dbl ? 6e-16 : 4.5e-7;
  if (fn == "atan") b.B = dbl ? 1.6 : 3.5;
  if (fn == "tanh") { b.B = dbl ? 9 : 8; b.refB = 3; }
  if (fn == "isqrt") b.R = dbl ? 5e-16 : 5e-6;
  if (fn == "approx_isqrt") b.R = dbl ? 4e-11 : 2e-3;
  if (fn == "inv") b.R = dbl ? 1e-15 : 1e-5;
  if (fn == "approx_inv") b.R = dbl ? 8e-11 : 4e-3;
  if (fn == "isqrt" || fn == "approx_isqrt") b.refB = 1.6;
  return b;
}
// smallest magnitude at which the value is not trivial (linear or constant approximation suffices)
template <class T> double trivial(const str &fn) { if (fn == "log" || fn == "isqrt" || fn == "approx_isqrt" || fn == "inv" || fn == "approx_inv") return 0; return sizeof(T) == 8 ? 0x1p-27 : 0x1p-13; }

template <class T> bool special_in(const str &fn, T x) { // additional restrictions: normal arguments only
  if (fn == "inv" || fn == "approx_inv") return std::fabs(x) >= std::numeric_limits<T>::min();
  return true;
}
template <class T, class O> struct AccTaskN : AccTask<T, O> { // restricted to normal arguments
  int test(const T *a, size_t n) override { T b[BUF]; size_t m = 0; int idx[BUF]; for (size_t i = 0; i < n; ++i) if (std::fabs(a[i]) >= std::numeric_limits<T>::min()) { idx[m] = (int)i; b[m++] = a[i]; }
    if (!m) return -1; int f = AccTask<T, O>::test(b, m); return f < 0 ? f : idx[f]; }
  bool fails(T x, str &d) override { return std::fabs(x) >= std::numeric_limits<T>::min() && AccTask<T, O>::fails(x, d); }
};

template <class T, class O> void add_acc(Tasks &ts, const Sut &s, const str &fn, uint64_t n, bool exhaustive, bool arr, const str &label = "", const Sut *base = nullptr, const str &sutname = "", int outsel = -1) {
  AccTask<T, O> *t = (fn == "inv" || fn == "approx_inv") ? new AccTaskN<T, O> : new AccTask<T, O>;
  str sn = sutname.empty() ? "fast_" + fn + FT<T>::suf() : sutname;
  t->name = label + sn + (outsel == 0 ? ".sin" : outsel == 1 ? ".cos" : "") + (arr ? " (array)" : "") + (base ? " same bits" : "");
  t->D = domain<T>(fn); t->acc.b = bound<T>(fn); t->call = Caller<T>{&s.get(sn), arr, outsel}; t->exhaustive = exhaustive; t->trivial_below = trivial<T>(fn);
  if (base) t->base = &base->get(sn);
  if (opt.tier != "thorough" && (PROP == 3 || PROP == 6)) t->sparse = 4;
  t->setup(n); ts.emplace_back(t);
}
template <class T> void add_acc2(Tasks &ts, const Sut &s, uint64_t n, bool arr, const str &label = "", const Sut *base = nullptr) {
  Acc2Task<T> *t = new Acc2Task<T>; str sn = str("fast_atan2") + FT<T>::suf();
  t->name = label + sn + (arr ? " (array)" : "") + (base ? " same bits" : ""); t->f = &s.get(sn); t->arr = arr; t->B = sizeof(T) == 8 ? 2.2 : 4; t->refB = 1.;
  if (base) t->base = &base->get(sn);
  t->setup(n); ts.emplace_back(t);
}

// ---------------------------------------------------------------- P03: combined = separate
template <class T> struct SinCosSame : Point1<T> {
  const SutFn *s, *c, *sc; bool s0 = true;
  int test(const T *a, size_t n) override { T x[BUF], y[BUF], p[BUF], q[BUF]; s->scal(a, 0, x, 0, n); c->scal(a, 0, y, 0, n); sc->scal(a, 0, p, q, n);
    for (size_t i = 0; i < n; ++i) if (!same(x[i], p[i]) || !same(y[i], q[i])) return (int)i; return -1; }
  bool fails(T a, str &d) override { T x, y, p, q; s->scal(&a, 0, &x, 0, 1); c->scal(&a, 0, &y, 0, 1); sc->scal(&a, 0, &p, &q, 1);
    d = "argument " + hexfp(a) + ": separate " + hexfp(x) + ", " + hexfp(y) + " combined " + hexfp(p) + ", " + hexfp(q); return !same(x, p) || !same(y, q); }
};
template <class T> void add_same(Tasks &ts, const Sut &S, uint64_t n, bool ex) { auto *t = new SinCosSame<T>; str f = FT<T>::suf(); t->name = "sincos" + f + " equals sin, cos"; t->s = &S.get("fast_sin" + f); t->c = &S.get("fast_cos" + f); t->sc = &S.get("fast_sincos" + f);
  t->D = domain<T>("sin"); t->exhaustive = ex; t->sparse = opt.tier == "thorough" ? 1 : 8; t->trivial_below = trivial<T>("sin"); t->setup(n); ts.emplace_back(t); }

// ---------------------------------------------------------------- predicates on (x, f(x), f(-x))
template <class T> struct PredTask : Point1<T> {
  const SutFn *f; bool arr = false, neg = false; std::function<bool(T, T, T)> good; std::function<T(Rng &)> own; str what;
  std::vector<T> always;
  int test(const T *a, size_t n) override {
    T o[BUF], m[BUF], p[BUF]; sut_scal_t fn = arr ? f->arr : f->scal; fn(a, 0, o, 0, n);
    if (neg) { for (size_t i = 0; i < n; ++i) m[i] = -a[i]; fn(m, 0, p, 0, n); } else memset(p, 0, sizeof p);
    for (size_t i = 0; i < n; ++i) if (!good(a[i], o[i], p[i])) return (int)i; return -1;
  }
  bool fails(T x, str &d) override {
    Caller<T> c{f, arr, -1}; T o = c.single(x), p = neg ? c.single(-x) : 0;
    d = what + ": argument " + hexfp(x) + " returns " + hexfp(o); if (neg) d += ", the negative argument " + hexfp(p);
    return !good(x, o, p);
  }
  bool chunk(uint64_t i, Rng &r, Stats &st, Case &c) override {
    if (!own) return Point1<T>::chunk(i, r, st, c);
    T a[BUF];
    for (uint64_t k = 0; k < CHUNK / BUF; ++k) { for (T &x : a) do x = own(r); while (!this->D.in(x) && x == x); st.n += BUF; st.nontrivial += BUF; int fl = test(a, BUF); if (fl >= 0) { c.arg = {bits(a[fl])}; return true; } }
    return false;
  }
  void samples(Rng &r, std::vector<str> &o) override { if (own) for (int i = 0; i < 3; ++i) o.push_back(this->name + ": " + hexfp((double)own(r))); else Point1<T>::samples(r, o); }
};
template <class T> T gen_wild(Rng &r, double lo) { // any magnitude above lo (log-uniform or close to it), infinities and NaNs
  uint64_t k = r.next(); T x;
  if ((k & 15) == 0) { static const T inf = std::numeric_limits<T>::infinity(); x = inf; }
  else if ((k & 15) == 1) { typedef typename FT<T>::U U; U b = ((U)(FT<T>::emax + 1) << FT<T>::mant) | ((U)r.next() & (((U)1 << FT<T>::mant) - 1)); x = frombits<T>(b); }
  else if ((k & 15) < 4) x = nudge((T)lo, r);
  else if ((k & 15) < 6) x = (T)(lo * (1 + r.unit()));
  else if ((k & 15) < 8) { const Dict &d = dict(); x = nudge((T)d.v[r.below(d.v.size())], r); }
  else if ((k & 15) < 9) x = gen_short<T>(r);
  else if ((k & 15) < 10) x = gen_bits<T>(r, gen_log<T>(r, -(int)FT<T>::ebias, FT<T>::ebias, false));
  else if ((k & 15) < 13 && lo > 0) x = gen_log<T>(r, std::ilogb(lo), FT<T>::ebias, false);
  else x = gen_log<T>(r, -(int)FT<T>::ebias, FT<T>::ebias, false);
  if ((k >> 8) & 1) x = -x;
  return x;
}

// what the special value table of P11 demands: kind of value demanded at x, and whether r is it
enum Fid { F_OTHER, F_EXP, F_LOG, F_ASIN, F_TANH, F_ATAN, F_INV };
inline Fid fid(const str &fn) { if (fn == "exp") return F_EXP; if (fn == "log") return F_LOG; if (fn == "asin" || fn == "acos") return F_ASIN; if (fn == "tanh") return F_TANH; if (fn == "atan") return F_ATAN; if (fn == "inv") return F_INV; return F_OTHER; }
enum Want { W_NONE, W_NAN, W_PINF, W_ZERO, W_ONE, W_MONE, W_PI2, W_SINF };
template <class T, Fid F> inline Want want(T x) {
  const bool dbl = sizeof(T) == 8; const T inf = std::numeric_limits<T>::infinity();
  if (x != x) return W_NAN;
  if (F == F_EXP) { if (x > (dbl ? (T)708 : (T)88.7229)) return W_PINF; if (x < (dbl ? (T)-708 : (T)-88)) return W_ZERO; return W_NONE; }
  if (F == F_LOG) { if (x < 0) return W_NAN; if (x == inf || (dbl && x > (T)1e307)) return W_PINF; return W_NONE; }
  if (F == F_ASIN) return std::fabs(x) > 1 ? W_NAN : W_NONE;
  if (F == F_TANH) { T l = dbl ? (T)20 : (T)9.1; return x > l ? W_ONE : x < -l ? W_MONE : W_NONE; }
  if (F == F_ATAN) return std::isinf(x) ? W_PI2 : W_NONE;
  if (F == F_INV) return x == 0 ? W_SINF : W_NONE;
  return W_NONE;
}
template <class T> inline bool is_wanted(Want w, T x, T r) {
  const T inf = std::numeric_limits<T>::infinity();
  switch (w) {
  case W_NONE: return true; case W_NAN: return r != r; case W_PINF: return r == inf; case W_ZERO: return r == 0; case W_ONE: return r == 1; case W_MONE: return r == -1;
  case W_PI2: return std::fabs(r - std::copysign((T)M_PI_2, x)) <= (sizeof(T) == 8 ? 0x1p-52 : 0x1p-23);
  case W_SINF: return bits(r) == bits(std::copysign(inf, x));
  }
  return false;
}
template <class T, Fid F> struct SpecialTask : PredTask<T> {
  double edge; bool all = false;
  int test(const T *a, size_t n) override { T o[BUF]; (this->arr ? this->f->arr : this->f->scal)(a, 0, o, 0, n); for (size_t i = 0; i < n; ++i) if (!is_wanted(want<T, F>(a[i]), a[i], o[i])) return (int)i; return -1; }
  bool fails(T x, str &d) override { Caller<T> c{this->f, this->arr, -1}; T o = c.single(x); d = "special value: argument " + hexfp(x) + " returns " + hexfp(o); return !is_wanted(want<T, F>(x), x, o); }
  T gen(Rng &r) {
    if (F == F_OTHER) { typedef typename FT<T>::U U; return frombits<T>(((U)(FT<T>::emax + 1) << FT<T>::mant) | ((U)(r.next() & 1) << (sizeof(U) * 8 - 1)) | (1 + (U)r.below((((U)1 << FT<T>::mant) - 1)))); }
    for (int k = 0; k < 20; ++k) { T x = gen_wild<T>(r, edge); if (want<T, F>(x) != W_NONE) return x; }
    return (r.next() & 1) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
  }
  bool chunk(uint64_t i, Rng &r, Stats &st, Case &c) override {
    T a[BUF];
    for (uint64_t k = 0; k < CHUNK; k += BUF) {
      size_t n = 0;
      for (size_t j = 0; j < BUF; ++j) { T x = all ? frombits<T>(i * CHUNK + k + j) : gen(r); if (want<T, F>(x) != W_NONE) a[n++] = x; }
      if (!n) continue;
      st.n += n; st.nontrivial += n; int fl = test(a, n); if (fl >= 0) { c.arg = {bits(a[fl])}; return true; }
    }
    return false;
  }
  void shrink(Case &c) override { str d; double cand[] = {INFINITY, -INFINITY, NAN, 1, -1, 2, -2, 100, -100, 1000, -1000, 0}; for (double x : cand) if (fails((T)x, d)) { c.arg = {bits((T)x)}; return; } PredTask<T>::shrink(c); }
  void samples(Rng &r, std::vector<str> &o) override { if (all) o.push_back(this->name + ": all 2^32 float bit patterns"); else for (int i = 0; i < 3; ++i) o.push_back(this->name + ": " + hexfp((double)gen(r))); }
};
template <class T, Fid F> void add_special1(Tasks &ts, const Sut &S, const str &fn, uint64_t n, bool arr) {
  static const double edge[] = {0, 708, 1e307, 1, 20, 1e10, 0}, edgef[] = {0, 88.7229, 1e38, 1, 9.1, 1e10, 0};
  auto *t = new SpecialTask<T, F>; str sn = "fast_" + fn + FT<T>::suf(); t->name = sn + (arr ? " (array)" : ""); t->f = &S.get(sn); t->arr = arr; t->edge = sizeof(T) == 8 ? edge[F] : edgef[F];
  t->D.lo = -std::numeric_limits<T>::infinity(); t->D.hi = -t->D.lo;
  if (sizeof(T) == 4 && !arr) { t->all = true; t->nchunks = (1ull << 32) / CHUNK; } else t->setup(F == F_OTHER || F == F_ATAN || F == F_INV ? n / 8 : n);
  ts.emplace_back(t);
}
template <class T> void add_special(Tasks &ts, const Sut &S, const str &fn, uint64_t n, bool arr) {
  switch (fid(fn)) {
  case F_EXP: add_special1<T, F_EXP>(ts, S, fn, n, arr); break; case F_LOG: add_special1<T, F_LOG>(ts, S, fn, n, arr); break; case F_ASIN: add_special1<T, F_ASIN>(ts, S, fn, n, arr); break;
  case F_TANH: add_special1<T, F_TANH>(ts, S, fn, n, arr); break; case F_ATAN: add_special1<T, F_ATAN>(ts, S, fn, n, arr); break; case F_INV: add_special1<T, F_INV>(ts, S, fn, n, arr); break;
  default: add_special1<T, F_OTHER>(ts, S, fn, n, arr);
  }
}
// atan2 with exactly one infinite argument
template <class T> struct Atan2Inf : Point2<T> {
  const SutFn *f; bool arr = false;
  bool in(T, T) override { return true; }
  static void mk(T &a, T &b, uint64_t k) { T inf = std::numeric_limits<T>::infinity(); T s = (k & 2) ? -inf : inf; if (k & 1) a = s; else b = s; }
  bool bad(T y, T x, T r) { bool iy = std::isinf(y), ix = std::isinf(x); if (iy == ix || y != y || x != x) return false; ld e = atan2l(y == 0 ? 0.L : (ld)y, (ld)x); return !(fabsl((ld)r - e) <= (e == 0 ? 0 : ulp_exact<T>(e))); }
  int test(const T *a0, const T *b0, size_t n) override { T a[BUF], b[BUF], o[BUF]; for (size_t i = 0; i < n; ++i) { a[i] = a0[i]; b[i] = b0[i]; if (!std::isinf(a[i]) && !std::isinf(b[i])) mk(a[i], b[i], bits(a0[i]) ^ (bits(b0[i]) << 1)); }
    (arr ? f->arr : f->scal)(a, b, o, 0, n); for (size_t i = 0; i < n; ++i) if (bad(a[i], b[i], o[i])) return (int)i; return -1; }
  bool fails(T y, T x, str &d) override { if (!std::isinf(y) && !std::isinf(x)) mk(y, x, bits(y) ^ (bits(x) << 1)); T a[35], b[35], o[35]; for (int i = 0; i < 35; ++i) a[i] = y, b[i] = x; (arr ? f->arr : f->scal)(a, b, o, 0, 35); d = "(" + hexfp(y) + ", " + hexfp(x) + ") returns " + hexfp(o[3]); return bad(y, x, o[3]); }
  void shrink(Case &c) override { T y = frombits<T>(c.arg[0]), x = frombits<T>(c.arg[1]); if (!std::isinf(y) && !std::isinf(x)) mk(y, x, bits(y) ^ (bits(x) << 1)); c.arg = {bits(y), bits(x)}; Point2<T>::shrink(c); }
};
template <class T> void add_atan2inf(Tasks &ts, const Sut &S, uint64_t n, bool arr) { auto *t = new Atan2Inf<T>; t->f = &S.get(str("fast_atan2") + FT<T>::suf()); t->arr = arr; t->name = str("fast_atan2") + FT<T>::suf() + " one infinite argument" + (arr ? " (array)" : ""); t->setup(n); ts.emplace_back(t); }

// ---------------------------------------------------------------- P12
template <class T> void add_sym(Tasks &ts, const Sut &S, const str &fn, uint64_t n, bool ex) {
  auto *t = new PredTask<T>; str sn = "fast_" + fn + FT<T>::suf(); t->name = sn + " symmetry and range"; t->f = &S.get(sn); t->what = "symmetry or range";
  t->D = domain<T>(fn); t->exhaustive = ex; t->trivial_below = 0; t->sparse = opt.tier == "thorough" ? 1 : 8;
  const T pi2 = (T)M_PI_2, pi = (T)M_PI, eps = std::numeric_limits<T>::epsilon(); // (T)M_PI rounds to nearest, above pi for float
  const T mn = std::numeric_limits<T>::min();
  if (fn == "exp" || fn == "isqrt" || fn == "approx_isqrt") t->good = [](T, T r, T) { return r >= 0; };
  else if (fn == "acos") t->good = [=](T, T r, T) { return r >= 0 - eps && r <= pi + eps; };
  else {
    t->neg = true; bool even = fn == "cos";
    T lim = (fn == "sin" || fn == "cos") ? 1 + eps : fn == "tanh" ? (T)1 : (fn == "asin" || fn == "atan") ? pi2 : std::numeric_limits<T>::infinity();
    bool inv = fn == "inv" || fn == "approx_inv";
    t->good = [=](T x, T r, T m) { if (inv && std::fabs(x) < mn) return true; return (even ? r == m : r == -m) && std::fabs(r) <= lim; };
    if (!even && t->D.lo < 0 && ex) t->D.lo = 0; // the negative half is visited through the relation
  }
  t->setup(n); ts.emplace_back(t);
}
template <class T> struct Atan2Rel : Point2<T> {
  const SutFn *f;
  bool bad(T y, T x, T r, T rn, T rs) {
    const T pi = (T)M_PI; const T eps = std::numeric_limits<T>::epsilon();
    if (!(std::fabs(r) <= pi)) return true;
    if (y != 0 && r != -rn) return true;
    if (x > 0 && y > 0 && !(std::fabs((double)r + (double)rs - M_PI_2) <= 3 * (double)eps)) return true;
    return false;
  }
  int test(const T *a, const T *b, size_t n) override { T m[BUF], o[BUF], p[BUF], q[BUF]; for (size_t i = 0; i < n; ++i) m[i] = -a[i]; f->scal(a, b, o, 0, n); f->scal(m, b, p, 0, n); f->scal(b, a, q, 0, n);
    for (size_t i = 0; i < n; ++i) if (bad(a[i], b[i], o[i], p[i], q[i])) return (int)i; return -1; }
  bool fails(T y, T x, str &d) override { T m = -y, o, p, q; f->scal(&y, &x, &o, 0, 1); f->scal(&m, &x, &p, 0, 1); f->scal(&x, &y, &q, 0, 1);
    d = "(" + hexfp(y) + ", " + hexfp(x) + ") returns " + hexfp(o) + ", with negated first argument " + hexfp(p) + ", with exchanged arguments " + hexfp(q); return bad(y, x, o, p, q); }
};
template <class T> void add_atan2rel(Tasks &ts, const Sut &S, uint64_t n) { auto *t = new Atan2Rel<T>; t->f = &S.get(str("fast_atan2") + FT<T>::suf()); t->name = str("fast_atan2") + FT<T>::suf() + " symmetry and range"; t->setup(n); ts.emplace_back(t); }

// ---------------------------------------------------------------- P14
static const int EXC = FE_INVALID | FE_DIVBYZERO;
template <class T> struct FlagTask : Point1<T> {
  const SutFn *f; bool arr; bool normal_only = false;
  bool raised(const T *a, size_t n) { T o[BUF], o2[BUF]; feclearexcept(FE_ALL_EXCEPT); (arr ? f->arr : f->scal)(a, 0, o, o2, n); return fetestexcept(EXC) != 0; }
  int test(const T *a0, size_t n0) override {
    T a[BUF]; int idx[BUF]; size_t n = 0; for (size_t i = 0; i < n0; ++i) if (!normal_only || std::fabs(a0[i]) >= std::numeric_limits<T>::min()) { idx[n] = (int)i; a[n++] = a0[i]; }
    if (!n || !raised(a, n)) return -1;
    str d; for (size_t i = 0; i < n; ++i) if (fails(a[i], d)) return idx[i];
    return 0; // only in combination
  }
  bool fails(T x, str &d) override {
    if (normal_only && std::fabs(x) < std::numeric_limits<T>::min()) return false;
    T in[35]; for (T &v : in) v = x; bool r = raised(in, arr ? 35 : 1); int e = fetestexcept(EXC);
    d = "argument " + hexfp(x) + " raises" + (e & FE_INVALID ? " invalid" : "") + (e & FE_DIVBYZERO ? " divide-by-zero" : "") + (e ? "" : " nothing"); return r;
  }
};
template <class T> void add_flag(Tasks &ts, const Sut &S, const str &fn, uint64_t n, bool arr, bool ex) {
  auto *t = new FlagTask<T>; str sn = "fast_" + fn + FT<T>::suf(); t->f = &S.get(sn); t->arr = arr; t->name = sn + (arr ? " (array)" : "") + (&S == &suts[0] ? "" : " [" + S.label + "]"); t->D = domain<T>(fn == "sincos" ? "sin" : fn); t->normal_only = fn == "inv" || fn == "approx_inv"; t->exhaustive = ex; t->sparse = opt.tier == "thorough" ? 1 : 8; t->setup(n); ts.emplace_back(t);
}
template <class T> struct Flag2Task : Point2<T> {
  const SutFn *f; bool arr;
  bool raised(const T *a, const T *b, size_t n) { T o[BUF]; feclearexcept(FE_ALL_EXCEPT); (arr ? f->arr : f->scal)(a, b, o, 0, n); return fetestexcept(EXC) != 0; }
  int test(const T *a, const T *b, size_t n) override { if (!raised(a, b, n)) return -1; str d; for (size_t i = 0; i < n; ++i) if (fails(a[i], b[i], d)) return (int)i; return 0; }
  bool fails(T y, T x, str &d) override { T a[35], b[35]; for (int i = 0; i < 35; ++i) a[i] = y, b[i] = x; bool r = raised(a, b, arr ? 35 : 1); int e = fetestexcept(EXC);
    d = "(" + hexfp(y) + ", " + hexfp(x) + ") raises" + (e & FE_INVALID ? " invalid" : "") + (e & FE_DIVBYZERO ? " divide-by-zero" : "") + (e ? "" : " nothing"); return r; }
};
template <class T> void add_flag2(Tasks &ts, const Sut &S, uint64_t n, bool arr) { auto *t = new Flag2Task<T>; t->f = &S.get(str("fast_atan2") + FT<T>::suf()); t->arr = arr; t->name = str("fast_atan2") + FT<T>::suf() + (arr ? " (array)" : "") + (&S == &suts[0] ? "" : " [" + S.label + "]"); t->setup(n); ts.emplace_back(t); }

// ---------------------------------------------------------------- P17
template <class T, class O> struct AvgTask : Task {
  const SutFn *f; double lo, hi, limit; uint64_t npc = CHUNK; std::mutex mu; std::vector<double> sums;
  // one chunk adds its mean; the verdict is on the sum of all of them, made when the last one arrives
  double chunk_mean(Rng &r) {
    T a[BUF], o[BUF]; uint64_t tot = 0;
    for (uint64_t k = 0; k < npc / BUF; ++k) {
      for (T &x : a) { do { double u = r.unit(); x = (T)(lo * (1 - u) + hi * u); } while (lo == 0 && !(x > 0)); }
      f->scal(a, 0, o, 0, BUF);
      for (size_t i = 0; i < BUF; ++i) { T y = (T)(sizeof(T) == 8 ? O::l((ld)a[i]) : (ld)O::d((double)a[i])); uint64_t u = bits(o[i]), v = bits(y); uint64_t d = u > v ? u - v : v - u; tot += d ? 64 - __builtin_clzll(d) : 0; }
    }
    return (double)tot / (double)npc;
  }
  bool chunk(uint64_t i, Rng &r, Stats &st, Case &c) override {
    double m = chunk_mean(r); st.n += npc; st.nontrivial += npc;
    std::lock_guard<std::mutex> l(mu); if (sums.size() < nchunks) sums.resize(nchunks, -1); sums[i] = m;
    for (double s : sums) if (s < 0) return false;
    double t = 0; for (double s : sums) t += s;
    t /= (double)nchunks; if (opt.measure) printf("MEASURE %s %.4f (limit %.2f)\n", name.c_str(), t, limit);
    if (t > limit) { c.arg = {opt.seed, nchunks}; return true; }
    return false;
  }
  bool one(const Case &c, str &d) override {
    if (c.arg.size() < 2) return false;
    uint64_t n = c.arg[1], h = mix(c.arg[0], hashstr(name)); std::vector<double> s(n); std::vector<std::thread> th; std::atomic<uint64_t> nx(0);
    for (int k = 0; k < opt.threads; ++k) th.emplace_back([&] { for (uint64_t i; (i = nx++) < n;) { Rng r(mix(h, i)); s[i] = chunk_mean(r); } });
    for (auto &x : th) x.join();
    double t = 0; for (double v : s) t += v; t /= (double)n;
    char b[200]; snprintf(b, sizeof b, "mean of differing bits over %llu uniform arguments in [%g,%g] is %.4f, allowed %.4f", (unsigned long long)(n * npc), lo, hi, t, limit); d = b; return t > limit;
  }
  void shrink(Case &c) override { str d; for (uint64_t n = 16; n < c.arg[1]; n *= 2) { Case k = c; k.arg[1] = n; if (one(k, d)) { c = k; return; } } }
  void samples(Rng &r, std::vector<str> &o) override { double u = r.unit(); o.push_back(name + ": uniform, e.g. " + hexfp((T)(lo * (1 - u) + hi * u))); }
};
template <class T, class O> void add_avg(Tasks &ts, const Sut &S, const str &fn, double lo, double hi, double limit, uint64_t n) { auto *t = new AvgTask<T, O>; str sn = "fast_" + fn + FT<T>::suf(); t->f = &S.get(sn); t->name = sn + " average"; t->lo = lo; t->hi = hi; t->limit = limit; t->nchunks = std::max<uint64_t>(16, n / CHUNK); ts.emplace_back(t); }

// ---------------------------------------------------------------- exact points stated together with the accuracy
template <class T> struct ExactTask : Task {
  struct E { const SutFn *f; T a, b, want; bool two; }; std::vector<E> es;
  bool bad(const E &e, str &d) { T r, r2; e.f->scal(&e.a, &e.b, &r, &r2, 1); d = str(e.f->name) + "(" + hexfp(e.a) + (e.two ? ", " + hexfp(e.b) : str()) + ") returns " + hexfp(r) + ", expected exactly " + hexfp(e.want); return !(r == e.want); }
  bool chunk(uint64_t i, Rng &, Stats &st, Case &c) override { str d; st.n++; if (bad(es[i], d)) { c.arg = {i}; return true; } return false; }
  bool one(const Case &c, str &d) override { return bad(es.at(c.arg.at(0)), d); }
};

#define FLT1(X) X("exp", OExp) X("log", OLog) X("sin", OSin) X("cos", OCos) X("tan", OTan) X("tanh", OTanh) X("asin", OAsin) X("acos", OAcos) X("atan", OAtan) X("isqrt", OIsqrt) X("approx_isqrt", OIsqrt) X("inv", OInv) X("approx_inv", OInv)

template <class T> void exact(Tasks &ts, const Sut &S, std::vector<std::tuple<str, double, double, double>> v) {
  auto *t = new ExactTask<T>; t->name = str("exact points ") + (sizeof(T) == 8 ? "double" : "float");
  for (auto &e : v) { const SutFn &f = S.get(std::get<0>(e) + FT<T>::suf()); t->es.push_back({&f, (T)std::get<1>(e), (T)std::get<2>(e), (T)std::get<3>(e), f.nin == 2}); }
  t->nchunks = t->es.size(); ts.emplace_back(t);
}

int main(int argc, char **argv) {
  parse_options(argc, argv);
  for (auto &s : opt.sut) suts.emplace_back(s);
  const Sut &S = suts.at(0);
  const bool thorough = opt.tier == "thorough";
  const uint64_t M = 1000000, N = thorough ? 30000 * M : 1200 * M, NA = thorough ? 2000 * M : 100 * M; // samples per double task, per array task
  Tasks ts; str rule = "arguments inside the stated interval, drawn from the continuous strata (so practically all distinct) or enumerated, of magnitude above which the function is not trivially linear or constant";
#define FULL(FN, O, ND) add_acc<double, O>(ts, S, FN, ND, false, false); add_acc<float, O>(ts, S, FN, 0, true, false); add_acc<double, O>(ts, S, FN, NA, false, true); add_acc<float, O>(ts, S, FN, NA, false, true);
  typedef std::vector<std::tuple<str, double, double, double>> EV;
#define EXACT(...) { EV ev = __VA_ARGS__; exact<double>(ts, S, ev); exact<float>(ts, S, ev); }
#if PROP == 1
  EXACT({{"fast_exp", 0., 0, 1.}, {"fast_exp", -0., 0, 1.}})
  FULL("exp", OExp, N)
#elif PROP == 2
  EXACT({{"fast_log", 1., 0, 0.}})
  FULL("log", OLog, N)
#elif PROP == 3
  EXACT({{"fast_sin", 0., 0, 0.}, {"fast_cos", 0., 0, 1.}, {"fast_sin", -0., 0, 0.}, {"fast_cos", -0., 0, 1.}})
  FULL("sin", OSin, N / 2) FULL("cos", OCos, N / 2)
  add_same<double>(ts, S, N / 4, false); add_same<float>(ts, S, 0, true);
#elif PROP == 4
  EXACT({{"fast_tan", 0., 0, 0.}, {"fast_tan", -0., 0, 0.}})
  FULL("tan", OTan, N)
#elif PROP == 5
  EXACT({{"fast_asin", 0., 0, 0.}, {"fast_asin", 1., 0, M_PI_2}, {"fast_asin", -1., 0, -M_PI_2}, {"fast_acos", 1., 0, 0.}})
  FULL("asin", OAsin, N / 2) FULL("acos", OAcos, N / 2)
#elif PROP == 6
  EXACT({{"fast_atan2", 0., 0., 0.}, {"fast_atan2", -0., 0., 0.}, {"fast_atan2", 0., -0., 0.}, {"fast_atan2", -0., -0., 0.}, {"fast_atan2", 0., -1., M_PI}, {"fast_atan2", 1., 0., M_PI_2}, {"fast_atan2", -1., 0., -M_PI_2}})
  FULL("atan", OAtan, N / 2)
  add_acc2<double>(ts, S, N / 2, false); add_acc2<float>(ts, S, N / 2, false); add_acc2<double>(ts, S, NA / 2, true); add_acc2<float>(ts, S, NA / 2, true);
#elif PROP == 7
  EXACT({{"fast_tanh", 0., 0, 0.}})
  FULL("tanh", OTanh, N)
#elif PROP == 8
  FULL("isqrt", OIsqrt, N / 4) FULL("approx_isqrt", OIsqrt, N / 4) FULL("inv", OInv, N / 4) FULL("approx_inv", OInv, N / 4)
  { // the plain versions: within one ulp
    size_t k = ts.size();
    add_acc<double, OIsqrt>(ts, S, "isqrt", NA, false, false, "", nullptr, "isqrt"); add_acc<float, OIsqrt>(ts, S, "isqrt", NA, false, false, "", nullptr, "isqrtf");
    add_acc<double, OInv>(ts, S, "inv", NA, false, false, "", nullptr, "inv"); add_acc<float, OInv>(ts, S, "inv", NA, false, false, "", nullptr, "invf");
    Bound b; b.refB = 0.6; // 1/x needs no reserve: the reference is correctly rounded

    auto setb = [&](Task *t) { if (auto *p = dynamic_cast<AccTask<double, OIsqrt> *>(t)) p->acc.b = b; else if (auto *p = dynamic_cast<AccTask<float, OIsqrt> *>(t)) p->acc.b = b; else if (auto *p = dynamic_cast<AccTask<double, OInv> *>(t)) p->acc.b = b; else if (auto *p = dynamic_cast<AccTask<float, OInv> *>(t)) p->acc.b = b; };
    for (; k < ts.size(); ++k) { b.B = ts[k]->name.find("isqrt") != str::npos ? 2 : 1; setb(ts[k].get()); } }
#elif PROP == 11
  rule = "arguments for which the special value table demands a result (NaN, infinity, beyond a limit, invalid)";
  for (const char *fn : {"exp", "log", "sin", "cos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "approx_isqrt", "inv", "approx_inv"}) {
    add_special<double>(ts, S, fn, N / 8, false); add_special<float>(ts, S, fn, 0, false); add_special<double>(ts, S, fn, NA / 4, true); add_special<float>(ts, S, fn, NA / 4, true);
  }
  for (bool arr : {false, true}) { add_atan2inf<double>(ts, S, NA, arr); add_atan2inf<float>(ts, S, NA, arr); }
#elif PROP == 12
  rule = "arguments (pairs) of the accuracy intervals from continuous strata or enumerated; every one is evaluated together with its negative";
  for (const char *fn : {"exp", "sin", "cos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "approx_isqrt", "inv", "approx_inv"}) { add_sym<double>(ts, S, fn, N / 6, false); add_sym<float>(ts, S, fn, 0, true); }
  add_atan2rel<double>(ts, S, N / 4); add_atan2rel<float>(ts, S, N / 4);
#elif PROP == 14
  rule = "arguments (pairs) of the accuracy intervals from continuous strata or enumerated, evaluated with the exception flags cleared before and read after";
  for (const char *fn : {"exp", "log", "sin", "cos", "sincos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "approx_isqrt", "inv", "approx_inv"}) {
    bool sc = str(fn) == "sincos";
    add_flag<double>(ts, S, fn, N / 8, false, false); add_flag<float>(ts, S, fn, 0, false, true);
    if (!sc) { add_flag<double>(ts, S, fn, N / 8, true, false); add_flag<float>(ts, S, fn, 0, true, true); }
  }
  for (bool arr : {false, true}) { add_flag2<double>(ts, S, N / 6, arr); add_flag2<float>(ts, S, N / 6, arr); }
  for (size_t k = 1; k < suts.size(); ++k) for (bool arr : {false, true}) { // builds in which other operations survive the optimiser
    const uint64_t n = thorough ? 400 * M : 16 * M;
    for (const char *fn : {"exp", "log", "sin", "cos", "sincos", "tan", "tanh", "asin", "acos", "atan", "isqrt", "approx_isqrt", "inv", "approx_inv"}) if (!arr || str(fn) != "sincos") { add_flag<double>(ts, suts[k], fn, n, arr, false); add_flag<float>(ts, suts[k], fn, n, arr, false); }
    add_flag2<double>(ts, suts[k], n, arr); add_flag2<float>(ts, suts[k], n, arr);
  }
#elif PROP == 16
  { uint64_t n16 = thorough ? 300 * M : 6 * M;
    for (size_t k = 0; k < suts.size(); ++k) {
      const Sut &V = suts[k]; str L = V.label + ": "; bool fma = V.label.find("fma") != str::npos;
      const Sut *base = fma || k == 0 ? nullptr : &S;
#define CFG(FN, O) for (bool arr : {false, true}) { add_acc<double, O>(ts, V, FN, n16, false, arr, L, base); add_acc<float, O>(ts, V, FN, n16, false, arr, L, base); }
      FLT1(CFG)
      add_acc<double, OSin>(ts, V, "sin", n16, false, false, L, base, "fast_sincos", 0); add_acc<float, OSin>(ts, V, "sin", n16, false, false, L, base, "fast_sincosf", 0);
      if (!base) { add_acc<double, OCos>(ts, V, "cos", n16, false, false, L, nullptr, "fast_sincos", 1); add_acc<float, OCos>(ts, V, "cos", n16, false, false, L, nullptr, "fast_sincosf", 1); }
      for (bool arr : {false, true}) { add_acc2<double>(ts, V, n16, arr, L, base); add_acc2<float>(ts, V, n16, arr, L, base); }
    } }
  rule += "; every build is compared bit for bit with the default build (which is compared with the reference), builds with fused multiply-add with the reference";
#elif PROP == 17
  rule = "uniformly distributed arguments of the operative interval; all count";
  { uint64_t n = thorough ? 1000 * M : 60 * M; const double e = 0.05;
    add_avg<double, OAcos>(ts, S, "acos", -1, 1, 0.39 + e, n); add_avg<double, OAsin>(ts, S, "asin", -1, 1, 0.32 + e, n); add_avg<double, OAtan>(ts, S, "atan", -5000, 5000, 0.33 + e, n);
    add_avg<double, OCos>(ts, S, "cos", -5000, 5000, 0.25 + e, n); add_avg<double, OExp>(ts, S, "exp", -705, 705, 0.14 + e, n); add_avg<double, OIsqrt>(ts, S, "isqrt", 0, 5000, 0.45 + e, n);
    add_avg<double, OLog>(ts, S, "log", 0, 5000, 0.42 + e, n); add_avg<double, OSin>(ts, S, "sin", -5000, 5000, 0.25 + e, n); add_avg<double, OTan>(ts, S, "tan", -5000, 5000, 0.35 + e, n);
    add_avg<float, OAcos>(ts, S, "acos", -1, 1, 0.45, n); add_avg<float, OAsin>(ts, S, "asin", -1, 1, 0.38, n); add_avg<float, OAtan>(ts, S, "atan", -5000, 5000, 0.42, n);
    add_avg<float, OCos>(ts, S, "cos", -5000, 5000, 0.21, n); add_avg<float, OExp>(ts, S, "exp", -85, 85, 0.32, n); add_avg<float, OLog>(ts, S, "log", 0, 5000, 0.06, n);
    add_avg<float, OSin>(ts, S, "sin", -5000, 5000, 0.21, n); add_avg<float, OTan>(ts, S, "tan", -5000, 5000, 0.42, n); }
#endif
  return run_all(ts, rule);
}
