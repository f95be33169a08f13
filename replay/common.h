#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <random>
#include <functional>
#include <vector>
#include <cstdarg>
static std::mt19937_64 vg_eng;
static double U() { return std::uniform_real_distribution<double>(0., 1.)(vg_eng); }
static double U(double a, double b) { return a + (b - a) * U(); }
static int N(int a, int b) { return (int)std::uniform_int_distribution<int>(a, b)(vg_eng); }
static int vg_fail = 0; static long vg_cases = 0;
static bool close_(double a, double b, double rel = 1e-9, double abs_ = 1e-10) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= abs_ + rel * std::fmax(std::fabs(a), std::fabs(b));
}
static void fail(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); printf("FAIL "); vprintf(fmt, ap); printf("\n"); va_end(ap); fflush(stdout);
  if (++vg_fail > 5) { printf("DONE cases=%ld\n", vg_cases); exit(1); }
}
static int done() { printf("DONE cases=%ld\n", vg_cases); fflush(stdout); return vg_fail ? 1 : 0; }
#endif
