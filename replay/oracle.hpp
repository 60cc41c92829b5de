// common part of the native oracles: a seeded generator, failure reporting, a time budget
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

static std::mt19937_64 rng;
static int nfail = 0;
static long ncase = 0;
static std::chrono::steady_clock::time_point t_end;

static std::uint64_t rnd(std::uint64_t n) { return n ? rng() % n : rng(); }
// a value with an interesting bit length
static std::uint64_t rval(int bits = 64) {
  int b = static_cast<int>(rnd(static_cast<std::uint64_t>(bits) + 1));
  std::uint64_t m = bits == 64 ? ~0ULL : (1ULL << bits) - 1;
  switch (rnd(4)) {
    case 0: return (b == 64 ? ~0ULL : (1ULL << b) - 1) & m;
    case 1: return (b == 64 ? 0 : 1ULL << b) & m;
    case 2: return (b == 0 ? 0 : rng() >> (64 - b)) & m;
    default: return rng() & m;
  }
}
static void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  std::printf("FAIL ");
  std::vprintf(fmt, ap);
  std::printf("\n");
  va_end(ap);
  std::fflush(stdout);
  if (++nfail >= 5) std::exit(1);
}
#define CHECK(c, ...) \
  do {                \
    if (!(c)) fail(__VA_ARGS__); \
  } while (0)
static bool more() { return std::chrono::steady_clock::now() < t_end && nfail == 0; }
static void init(int argc, char** argv) {
  std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
  int secs = argc > 2 ? std::atoi(argv[2]) : 20;
  rng.seed(seed * 7919 + 13);
  t_end = std::chrono::steady_clock::now() + std::chrono::seconds(secs);
  std::setvbuf(stdout, nullptr, _IOLBF, 0);
}
static int finish() {
  if (nfail) return 1;
  std::printf("DONE %ld\n", ncase);
  return 0;
}
static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r.size() > 400 ? r.substr(0, 400) + "..." : r;
}
