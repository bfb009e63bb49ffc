// Shared helpers of the replay harnesses.  FAIL lines name a concrete failing input on the real code.
#pragma once
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

static char g_case[1 << 16];
static long g_cases = 0;
static int g_fails = 0;
static std::mt19937_64 g_rng(1);
static bool g_thorough = false;

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define HAVE_SAN 1
#endif
static void dump_case() {
  const char* p = "\nCASE ";
  (void)!write(1, p, 6);
  (void)!write(1, g_case, strlen(g_case));
  (void)!write(1, "\n", 1);
}
static void on_signal(int s) { dump_case(); signal(s, SIG_DFL); raise(s); }

static void CASE(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(g_case, sizeof g_case, fmt, ap); va_end(ap);
  ++g_cases;
}
static void FAIL(const char* key, const char* fmt, ...) {
  char buf[8192];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (++g_fails <= 20) printf("FAIL key=%s %s | case: %.3000s\n", key, buf, g_case);
  fflush(stdout);
  if (g_fails > 200) _exit(1);
}
static uint64_t rnd() { return g_rng(); }
static int rint_(int lo, int hi) { return lo + (int)(g_rng() % (uint64_t)(hi - lo + 1)); }
static double runit() { return (g_rng() >> 11) * (1.0 / 9007199254740992.0); }
static bool chance(double p) { return runit() < p; }
template <class T> static const T& pick(const std::vector<T>& v) { return v[g_rng() % v.size()]; }

static void INIT(int argc, char** argv) {
  if (argc > 1) g_rng.seed(strtoull(argv[1], 0, 10) * 7919 + 13);
  if (argc > 2) g_thorough = std::string(argv[2]) == "thorough";
  setvbuf(stdout, 0, _IOLBF, 0);
#ifdef HAVE_SAN
  __sanitizer_set_death_callback(dump_case);
#endif
#ifndef __SANITIZE_THREAD__
  signal(SIGABRT, on_signal); signal(SIGFPE, on_signal);
#endif
#ifndef HAVE_SAN
  signal(SIGSEGV, on_signal);
#endif
}
static long ITER(long quick, long thorough) { return g_thorough ? thorough : quick; }
static int DONE() {
  if (g_cases) printf("SAMPLE %.280s\n", g_case);
  printf("OK n=%ld\n", g_cases);
  fflush(stdout);
  _exit(g_fails ? 1 : 0);
}
static bool close_(double a, double b, double rel = 1e-9, double abs_ = 1e-12) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
