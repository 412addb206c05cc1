// Structured cases for rapidcheck: serialisable, shrunk by rapidcheck, run in forked workers.
#ifndef RCASE_H
#define RCASE_H
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <rapidcheck.h>

typedef std::string str;
typedef std::vector<uint64_t> u64v;
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xD1B54A32D192ED03ull); x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; return x; }
inline uint64_t hashstr(const str &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline str jsonesc(const str &s) { str o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o; }

struct Case {
  std::map<str, u64v> n; std::map<str, std::vector<str>> s;
  str text() const {
    std::ostringstream o; char b[20];
    for (auto &p : n) { o << "n " << p.first; for (uint64_t v : p.second) { snprintf(b, sizeof b, " %llx", (unsigned long long)v); o << b; } o << "\n"; }
    for (auto &p : s) { o << "s " << p.first; for (auto &v : p.second) { o << " x"; for (unsigned char c : v) { snprintf(b, sizeof b, "%02x", c); o << b; } } o << "\n"; }
    return o.str();
  }
  static Case parse(std::istream &in) {
    Case c; str line;
    while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; std::istringstream is(line); str t, k, w; is >> t >> k;
      if (t == "n") { auto &v = c.n[k]; while (is >> w) v.push_back(strtoull(w.c_str(), 0, 16)); }
      else if (t == "s") { auto &v = c.s[k]; while (is >> w) { str x; for (size_t i = 1; i + 1 < w.size(); i += 2) x += (char)strtoul(w.substr(i, 2).c_str(), 0, 16); v.push_back(x); } } }
    return c;
  }
  str brief() const { str t = text(); for (char &c : t) if (c == '\n') c = ';'; if (t.size() > 300) t = t.substr(0, 300) + "..."; return t; }
};
inline void showValue(const Case &c, std::ostream &o) { o << c.brief(); }

struct Prop {
  str name; rc::Gen<Case> gen; std::function<bool(const Case &, str &)> bad; std::function<bool(const Case &)> nontrivial; uint64_t quick, thorough; int size = 100;
};
struct ROptions { str prop, tier = "quick", out, replay, dir = "."; uint64_t seed = 1; int workers = 8; double scale = 1; str only; };
inline ROptions &ropt() { static ROptions o; return o; }
inline void parse_roptions(int argc, char **argv) {
  auto &o = ropt();
  for (int i = 1; i < argc; ++i) { str a = argv[i]; auto val = [&]() -> str { return ++i < argc ? argv[i] : ""; };
    if (a == "--prop") o.prop = val(); else if (a == "--tier") o.tier = val(); else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10); else if (a == "--out") o.out = val(); else if (a == "--replay") o.replay = val();
    else if (a == "--threads") o.workers = atoi(val().c_str()); else if (a == "--scale") o.scale = atof(val().c_str()); else if (a == "--only") o.only = val(); else if (a == "--dir") o.dir = val(); }
}
static const unsigned CASE_SECONDS = 120;
static char journal_path[4096]; static char hang_path[4096];
inline void on_alarm(int) { _exit(77); }

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
// everything printed by f
inline str captured(const std::function<void()> &f) { std::ostringstream o; auto *old = std::cout.rdbuf(o.rdbuf()); f(); std::cout.rdbuf(old); return o.str(); }

inline void enter_dir(int k) { str d = ropt().dir + "/w" + std::to_string(k); mkdir(d.c_str(), 0700); if (chdir(d.c_str())) { perror("chdir"); _exit(3); } }

inline int worker(std::vector<Prop> &props, int w) {
  auto &o = ropt(); enter_dir(w); static NullBuf nb; std::cout.rdbuf(&nb); signal(SIGALRM, on_alarm);
  snprintf(journal_path, sizeof journal_path, "%s.w%d.journal", o.out.c_str(), w);
  std::ofstream res(o.out + ".w" + std::to_string(w));
  for (size_t pi = 0; pi < props.size(); ++pi) {
    Prop &p = props[pi]; uint64_t n = 0; std::set<uint64_t> nt; bool failed = false; Case last; str why; uint64_t after = 0; time_t t_fail = 0; std::vector<str> samples;
    rc::detail::TestParams tp; tp.seed = mix(mix(o.seed, hashstr(p.name)), (uint64_t)w); tp.maxSize = p.size; tp.maxSuccess = std::max(1, (int)((o.tier == "thorough" ? p.thorough : p.quick) * o.scale / o.workers));
    auto result = rc::detail::checkTestable([&] {
      const Case c = *p.gen; alarm(CASE_SECONDS);
      { std::ofstream j(journal_path); j << "# journal\n# task " << p.name << "\n" << c.text(); }
      if (failed && (++after > 4000 || time(nullptr) - t_fail > 40)) { alarm(0); return; } // end of shrinking
      ++n; if (!failed) { if (p.nontrivial(c)) nt.insert(hashstr(c.text())); if (samples.size() < 3 && n % 37 == 5) samples.push_back(p.name + ": " + c.brief()); }
      str d; bool b;
      try { b = p.bad(c, d); } catch (const std::exception &e) { b = true; d = str("exception ") + e.what(); }
      alarm(0);
      if (b) { if (!failed) t_fail = time(nullptr); failed = true; last = c; why = d; RC_FAIL("property violated"); }
    }, rc::detail::TestMetadata(), tp);
    if (result.is<rc::detail::GaveUpResult>() || result.is<rc::detail::Error>()) { fprintf(stderr, "generator of %s gives up\n", p.name.c_str()); return 3; }
    res << "T " << pi << " " << n << " " << nt.size() << "\n"; for (auto &s : samples) res << "S " << s << "\n";
    if (failed) { str rp = o.out + ".w" + std::to_string(w) + ".replay"; std::ofstream r(rp); for (char &c : why) if (c == '\n') c = ' '; r << "# " << why << "\n# task " << p.name << "\n" << last.text(); res << "F " << pi << " " << why << "\n"; break; }
  }
  res << "E\n"; unlink(journal_path); return 0;
}
inline str task_of(const str &path) { std::ifstream i(path); str l; while (std::getline(i, l)) if (l.compare(0, 7, "# task ") == 0) return l.substr(7); return ""; }

inline int run_props(std::vector<Prop> &props, const str &rule) {
  auto &o = ropt();
  if (!o.replay.empty()) {
    str task = task_of(o.replay); std::ifstream in(o.replay); Case c = Case::parse(in);
    for (auto &p : props) if (p.name == task) { enter_dir(99); static NullBuf nb; auto *old = std::cout.rdbuf(&nb); alarm(CASE_SECONDS); str d; bool b; try { b = p.bad(c, d); } catch (const std::exception &e) { b = true; d = e.what(); } std::cout.rdbuf(old); printf("%s %s: %s\n", b ? "FAILS" : "ok", task.c_str(), d.c_str()); return b ? 1 : 0; }
    fprintf(stderr, "no task %s\n", task.c_str()); return 3;
  }
  if (!o.only.empty()) { std::vector<Prop> q; for (auto &p : props) if (p.name.find(o.only) != str::npos) q.push_back(p); props = q; }
  std::vector<pid_t> pid; for (int w = 0; w < o.workers; ++w) { fflush(stdout); pid_t k = fork(); if (!k) _exit(worker(props, w)); pid.push_back(k); }
  struct F { size_t pi = ~(size_t)0; int w = 0; str why, replay; }; F best; uint64_t n = 0, nt = 0; std::vector<str> samples; std::map<str, uint64_t> per;
  for (int w = 0; w < o.workers; ++w) {
    int st; waitpid(pid[(size_t)w], &st, 0); str base = o.out + ".w" + std::to_string(w); std::ifstream r(base); str line; 
    while (std::getline(r, line)) { std::istringstream is(line.substr(line.size() > 1 ? 2 : 1)); if (line[0] == 'T') { size_t pi; uint64_t a, b; is >> pi >> a >> b; n += a; nt += b; per[props[pi].name] += a; } else if (line[0] == 'S') { if (samples.size() < 60) samples.push_back(line.substr(2)); }
      else if (line[0] == 'F') { size_t pi; is >> pi; str why; std::getline(is, why); if (pi < best.pi) { best.pi = pi; best.w = w; best.why = props[pi].name + ":" + why; best.replay = base + ".replay"; } } }
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) == 77)) { str j = base + ".journal", t = task_of(j); for (size_t pi = 0; pi < props.size(); ++pi) if (props[pi].name == t && pi < best.pi) { best.pi = pi; best.w = w; best.replay = j; best.why = t + ": " + (WIFSIGNALED(st) ? "crash, signal " + std::to_string(WTERMSIG(st)) : str("does not return")); ++n; } }
    else if (WEXITSTATUS(st) != 0) return 3;
  }
  std::ofstream out(o.out);
  out << "{\"evaluations\": " << n << ", \"distinct_nontrivial\": " << nt << ", \"rule\": \"" << jsonesc(rule) << "\", \"samples\": ["; for (size_t i = 0; i < samples.size(); ++i) out << (i ? ", " : "") << "\"" << jsonesc(samples[i]) << "\"";
  out << "], \"per_task\": {"; bool f = true; for (auto &p : per) { out << (f ? "" : ", ") << "\"" << jsonesc(p.first) << "\": " << p.second; f = false; } out << "}, \"failures\": [";
  if (best.pi != ~(size_t)0) out << "{\"replay\": \"" << jsonesc(best.replay) << "\", \"what\": \"" << jsonesc(best.why) << "\"}";
  out << "]}\n"; return best.pi != ~(size_t)0 ? 1 : 0;
}

// ---------------------------------------------------------------- generators
namespace g {
inline rc::Gen<uint64_t> upto(uint64_t n) { return rc::gen::resize(100, rc::gen::inRange<uint64_t>(0, n + 1)); } // 0..n
inline rc::Gen<uint64_t> any64() { return rc::gen::resize(100, rc::gen::arbitrary<uint64_t>()); }
template <class T> T real(uint64_t b);
template <> inline double real<double>(uint64_t b) { if ((b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (b & 0xfffffffffffffull)) b |= 0x8000000000000ull; double x; memcpy(&x, &b, 8); return x; }  // NaNs are quiet
template <> inline float real<float>(uint64_t b) { uint32_t u = (uint32_t)(b ^ (b >> 32)); if ((u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffffu)) u |= 0x400000u; float x; memcpy(&x, &u, 4); return x; }
inline uint64_t bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
inline uint64_t bits(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
// bit patterns of which both real<double> and real<float> make interesting numbers
inline rc::Gen<uint64_t> pattern() {
  static const u64v sp = {0, 0x8000000000000000ull, 0x80000000ull, 1, 0x8000000000000001ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7f800000ull, 0xff800000ull, 0x7ff8000000000000ull, 0xfff8000000000000ull, 0x7fc00000ull, 0xffc00000ull, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x7f7fffffull, 0xff7fffffull,
    0x0010000000000000ull, 0x00800000ull, 0x000fffffffffffffull, 0x007fffffull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x3f800000ull, 0xbf800000ull, 0xffffffffffffffffull, 0x7fffffffffffffffull, 0xffffffffull, 0x7fffffffull, 0x4024000000000000ull, 0x41200000ull, 0x3ff0000000000001ull, 0x3f800001ull};
  return rc::gen::weightedOneOf<uint64_t>({{4, rc::gen::elementOf(sp)}, {6, any64()}, {3, rc::gen::map(any64(), [](uint64_t x) { return bits((double)(int64_t)(x % 20001) / 8 - 1000); })}, {3, rc::gen::map(any64(), [](uint64_t x) { return bits((float)((double)(int64_t)(x % 20001) / 8 - 1000)); })}, {2, upto(300)}, {2, rc::gen::map(upto(300), [](uint64_t k) -> uint64_t { return 0x3ff0000000000000ull + k; })}, {2, rc::gen::map(upto(300), [](uint64_t k) -> uint64_t { return 0x3f800000ull + k; })}});
}
// a finite number
template <class T> T finite(uint64_t b) { T x = real<T>(b); return std::isfinite(x) ? x : (T)((double)(int64_t)(b % 2001) - 1000); }
// a vector of fixed length tuples, flattened
inline rc::Gen<u64v> rows(std::vector<rc::Gen<uint64_t>> col, int scale_num = 1, int scale_den = 1) {
  auto row = rc::gen::exec([col] { u64v r; for (auto &c : col) r.push_back(*c); return r; });
  return rc::gen::map(rc::gen::scale((double)scale_num / scale_den, rc::gen::container<std::vector<u64v>>(row)), [](const std::vector<u64v> &v) { u64v f; for (auto &r : v) f.insert(f.end(), r.begin(), r.end()); return f; });
}
}
#endif
