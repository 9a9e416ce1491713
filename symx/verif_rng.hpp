// Replay build of the isolation forest: the random draws come from the counterexample instead of the engine.
#pragma once
#include <Python.h>
#ifndef NPY_NO_DEPRECATED_API
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#endif
#include "numpy/arrayobject.h"
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <string>
#include <thread>
#include <vector>

// "key=v0,v1,...;" in the environment variable VERIF_DRAWS
static inline bool verif_lookup(const std::string &key, std::vector<size_t> &v) {
  const char *t = getenv("VERIF_DRAWS");
  if (!t) return false;
  std::string s(t);
  auto p = s.find(";" + key + "=");
  if (p == std::string::npos) return false;
  p += key.size() + 2;
  while (p < s.size() && s[p] != ';') {
    size_t x = 0;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') x = x * 10 + (s[p++] - '0');
    v.push_back(x);
    if (p < s.size() && s[p] == ',') p++;
  }
  return true;
}

namespace std {
struct verif_engine {
  typedef unsigned long result_type;
  unsigned long s, n = 0;
  explicit verif_engine(unsigned long x = 5489) : s(x) {}
  void seed(unsigned long x = 5489) { s = x; n = 0; }
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~0ul; }
  result_type operator()() { std::abort(); }
};
template <class T = int> struct verif_uniform {
  typedef T result_type;
  struct param_type {
    T lo, hi;
    explicit param_type(T a = 0, T b = 0) : lo(a), hi(b) {}
    T a() const { return lo; }
    T b() const { return hi; }
  } p;
  explicit verif_uniform(T a = 0, T b = 0) : p(a, b) {}
  explicit verif_uniform(const param_type &q) : p(q) {}
  T a() const { return p.lo; }
  T b() const { return p.hi; }
  void reset() {}
  param_type param() const { return p; }
  void param(const param_type &q) { p = q; }
  T operator()(verif_engine &g) { return (*this)(g, p); }
  T operator()(verif_engine &g, const param_type &q) {
    std::vector<size_t> v;
    std::string k = "d:" + std::to_string(g.s) + ":" + std::to_string(g.n) + ":" + std::to_string(q.lo) + ":" + std::to_string(q.hi);
    g.n++;
    return verif_lookup(k, v) && v.size() ? (T)v[0] : q.lo;
  }
};
template <class It, class Out, class N> Out verif_sample(It first, It last, Out out, N n, verif_engine &g) {
  size_t total = last - first, k = (size_t)n < total ? (size_t)n : total;
  std::vector<size_t> v;
  std::string key = "s:" + std::to_string(g.s) + ":" + std::to_string(g.n) + ":" + std::to_string(total) + ":" + std::to_string(k);
  g.n++;
  if (!verif_lookup(key, v)) for (size_t i = 0; i < k; i++) v.push_back(i);
  for (auto i : v) *out++ = first[i];
  return out;
}
}  // namespace std

// the number of processors reported to the extension
extern "C" unsigned verif_processors() __asm__("_ZNSt6thread20hardware_concurrencyEv");
extern "C" __attribute__((used)) unsigned verif_processors() {
  const char *t = getenv("VERIF_THREADS");
  return t ? (unsigned)atoi(t) : 2;
}
#define mt19937_64 verif_engine
#define mt19937 verif_engine
#define uniform_int_distribution verif_uniform
#define sample verif_sample
