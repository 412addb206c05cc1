// P30: the generated Vc wrapper, built against a stand-in of the Vc library (harness/vc), and the
// entries of the benchmark catalogue bound to it.
#define _VC_AVAILABLE_
#include "rcase.h"
#include "vdtdiag_fcnTuples.h"
#define VC_WIDTH_D 1
#define VC_WIDTH_F 1
#include "vc/Vc/Vc"
#include <sys/mman.h>

// name of the wrapper function, name in the catalogue, operation of the library (0: none), pool
struct Row { const char *name, *cat; unsigned op; char pool; };
static const Row rows[] = {{"asin", "Asin", 1, 'm'}, {"atan", "Atan", 2, 's'}, {"cos", "Cos", 3, 's'}, {"log", "Log", 4, 'p'}, {"sin", "Sin", 5, 's'}, {"inv", "Inverse", 6, 's'}, {"isqrt", "Isqrt", 7, 'p'}, {"identity", "Identity", 0, 's'}};
static const size_t NROW = sizeof rows / sizeof *rows;
template <class T> T ref(const Row &r, T x) { return r.op ? Vc::standin(x, r.op) : x; }
template <class T> struct Typed { typedef T (*S)(T); typedef void (*A)(uint32_t, T *, T *); S s[NROW]; A a[NROW]; };
template <class T> const Typed<T> &typed();
template <> const Typed<double> &typed<double>() { static const Typed<double> t = {{vc_asin, vc_atan, vc_cos, vc_log, vc_sin, vc_inv, vc_isqrt, vc_identity}, {vc_asinv, vc_atanv, vc_cosv, vc_logv, vc_sinv, vc_invv, vc_isqrtv, vc_identityv}}; return t; }
template <> const Typed<float> &typed<float>() { static const Typed<float> t = {{vc_asinf, vc_atanf, vc_cosf, vc_logf, vc_sinf, vc_invf, vc_isqrtf, vc_identityf}, {vc_asinfv, vc_atanfv, vc_cosfv, vc_logfv, vc_sinfv, vc_invfv, vc_isqrtfv, vc_identityfv}}; return t; }
template <class T> str show(T x) { char b[64]; snprintf(b, sizeof b, "%.17g(%0*llx)", (double)x, (int)sizeof(T) * 2, (unsigned long long)g::bits(x)); return b; }
template <class T> str fname(const Row &r, bool arr) { return str("vc_") + r.name + (sizeof(T) == 4 ? "f" : "") + (arr ? "v" : ""); }
static bool misused(unsigned long before, str &d, const str &n) { if (vc_misuse == before) return false; d = n + ": aligned access to an unaligned address or element number out of range"; return true; }

struct Guard { // memory of n numbers ending or beginning at an inaccessible page
  char *base; size_t len; char *p; size_t n; unsigned char can = 0xa7;
  Guard(size_t bytes, bool at_end, size_t off) { n = bytes; len = (bytes + off + 8191) / 4096 * 4096; base = (char *)mmap(0, len + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) exit(3);
    mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + len, 4096, PROT_NONE); p = at_end ? base + 4096 + len - bytes - off : base + 4096 + off; memset(base + 4096, can, len); }
  bool touched() { for (char *q = base + 4096; q < base + 4096 + len; ++q) if ((q < p || q >= p + n) && (unsigned char)*q != can) return true; return false; }
  ~Guard() { munmap(base, len + 8192); }
};
template <class T> bool bad_scalar(const Case &c, str &d) {
  size_t k = c.n.at("entry")[0] % NROW; unsigned long m = vc_misuse;
  for (uint64_t b : c.n.at("args")) { T x = g::real<T>(b), o = typed<T>().s[k](x); if (g::bits(o) != g::bits(ref(rows[k], x))) { d = fname<T>(rows[k], false) + "(" + show(x) + ") is " + show(o) + " instead of the library's " + show(ref(rows[k], x)); return true; } }
  return misused(m, d, fname<T>(rows[k], false));
}
template <class T> bool bad_array(const Case &c, str &d) {
  size_t k = c.n.at("entry")[0] % NROW; const u64v &a = c.n.at("args"), &pl = c.n.at("place"); size_t n = a.size(); if (n) n += c.n.at("more")[0]; unsigned long m = vc_misuse;
  Guard I(n * sizeof(T), pl[0] & 1, (pl[0] >> 1) % 9 * sizeof(T)), O(n * sizeof(T), pl[1] & 1, (pl[1] >> 1) % 9 * sizeof(T)); T *in = (T *)I.p, *out = (T *)O.p;
  auto arg = [&](size_t i) { return g::real<T>(i < a.size() ? a[i] : mix(a[i % a.size()], i)); };
  for (size_t i = 0; i < n; ++i) in[i] = arg(i);
  typed<T>().a[k]((uint32_t)n, in, out);
  str nm = fname<T>(rows[k], true) + ", length " + std::to_string(n);
  for (size_t i = 0; i < n; ++i) { if (g::bits(in[i]) != g::bits(arg(i))) { d = nm + ": the input was changed"; return true; } T w = ref(rows[k], in[i]); if (g::bits(out[i]) != g::bits(w)) { d = nm + ": element " + std::to_string(i) + " is " + show(out[i]) + " instead of the library's " + show(w) + " at " + show(in[i]); return true; } }
  if (I.touched() || O.touched()) { d = nm + ": memory around the " + (O.touched() ? "output" : "input") + " was changed"; return true; }
  return misused(m, d, nm);
}
// the catalogue: names, functions, pools
template <class T> bool bad_cat(const Case &c, str &d) {
  const u64v &p = c.n.at("pools"); const str suf = sizeof(T) == 4 ? "f" : ""; auto sz = [&](int k) { return 1 + p[(size_t)k] % 24; }; auto sd = [&](int k) { return (int32_t)(p[(size_t)k] >> 8); };
  randomPool<T> sym(-5000, 5000, sz(0), sd(0)), pos((T)1e-4, 5000, sz(1), sd(1)), one(-1, 1, sz(2), sd(2)), ex(-80, 80, sz(3), sd(3));
  auto pool = [&](char k) { return k == 's' ? sym.getNumbers() : k == 'p' ? pos.getNumbers() : one.getNumbers(); };
  std::map<str, int> seen; std::vector<T> extra; for (uint64_t b : c.n.at("args")) extra.push_back(g::real<T>(b));
  auto row = [&](const str &n, const str &s) -> const Row * { for (auto &r : rows) if (n == "VC_" + (r.cat + s)) return &r; return nullptr; };
  auto wrong = [&](const str &n, const Row &r, const std::vector<T> &at, const std::vector<T> &x, const std::vector<T> &o) { auto w = pool(r.pool); if (at.size() != w.size()) { d = n + ": wrong pool"; return true; } for (size_t i = 0; i < w.size(); ++i) if (g::bits(at[i]) != g::bits(w[i])) { d = n + ": wrong pool"; return true; }
    for (size_t i = 0; i < x.size(); ++i) if (g::bits(o[i]) != g::bits(ref(r, x[i]))) { d = n + " at " + show(x[i]) + ": " + show(o[i]) + " instead of " + show(ref(r, x[i])); return true; } return false; };
  { std::vector<genfpfcn_tuple<T>> t; getFunctionTuples(&t, sym, pos, one, ex);
    for (auto &e : t) { const str &n = std::get<0>(e); const Row *r = row(n, suf); if (!r) continue; seen[n]++; std::vector<T> x(std::get<2>(e)), o; x.insert(x.end(), extra.begin(), extra.end()); for (T v : x) o.push_back(std::get<1>(e)(v)); if (wrong(n, *r, std::get<2>(e), x, o)) return true; } }
  { std::vector<genfpfcnv_tuple<T>> t; getFunctionTuplesvect(&t, sym, pos, one, ex);
    for (auto &e : t) { const str &n = std::get<0>(e); const Row *r = row(n, suf + "v"); if (!r) continue; seen[n]++; std::vector<T> x(std::get<2>(e)); x.insert(x.end(), extra.begin(), extra.end()); std::vector<T> o(x.size() + 1), y(x); std::get<1>(e)((uint32_t)x.size(), y.data(), o.data()); if (wrong(n, *r, std::get<2>(e), x, o)) return true; } }
  for (auto &r : rows) for (str s : {suf, suf + "v"}) if (seen["VC_" + (r.cat + s)] != 1) { d = "VC_" + (r.cat + s) + " occurs " + std::to_string(seen["VC_" + (r.cat + s)]) + " times in the catalogue"; return true; }
  return false;
}
static rc::Gen<Case> gen(bool arr) {
  return rc::gen::exec([arr] { Case c; c.n["entry"] = {*g::upto(NROW - 1)}; c.n["args"] = *g::rows({g::pattern()});
    if (arr) { c.n["place"] = {*g::upto(17), *g::upto(17)}; c.n["more"] = {*rc::gen::shrink(rc::gen::weightedOneOf<uint64_t>({{6, rc::gen::just((uint64_t)0)}, {2, g::upto(1000)}, {1, g::upto(9000)}, {1, rc::gen::map(g::upto(40), [](uint64_t k) -> uint64_t { return 65500 + k; })}}), [](uint64_t x) { return rc::shrink::towards<uint64_t>(x, 0); })}; }
    return c; });
}
int main(int argc, char **argv) {
  parse_roptions(argc, argv); std::vector<Prop> ps; auto nt = [](const Case &c) { return c.n.at("args").size() >= 3; };
  auto cat = rc::gen::exec([] { Case c; c.n["pools"] = *rc::gen::container<u64v>(5, g::any64()); c.n["args"] = *g::rows({g::pattern()}, 1, 2); return c; });
  ps.push_back({"scalar double", gen(false), bad_scalar<double>, nt, 20000, 1000000}); ps.push_back({"scalar float", gen(false), bad_scalar<float>, nt, 20000, 1000000});
  ps.push_back({"array double", gen(true), bad_array<double>, nt, 20000, 600000}); ps.push_back({"array float", gen(true), bad_array<float>, nt, 20000, 600000});
  ps.push_back({"catalogue double", cat, bad_cat<double>, nt, 8000, 200000}); ps.push_back({"catalogue float", cat, bad_cat<float>, nt, 8000, 200000});
  return run_props(ps, "at least three arguments in the case");
}
