// Shared by the harnesses.
#pragma once
#include <cmath>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
#include <map>
#include <set>
#include <iostream>
#include "ksym.h"
inline std::string nm(const char *a, size_t i) { return std::string(a) + std::to_string(i); }
inline std::string nm(const char *a, size_t i, const char *b) { return std::string(a) + std::to_string(i) + b; }
// string of exactly n arbitrary characters in lo..hi
inline std::string sym_strn(const std::string &name, size_t n, char lo = 0, char hi = 0) {
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    char c = (lo || hi) ? (char)ksym_sym((name + "." + std::to_string(i)).c_str(), 8, (unsigned char)lo, (unsigned char)hi, 0) : sym_char((name + "." + std::to_string(i)).c_str());
    s += c;
  }
  return s;
}
// every length 0..max
inline std::string sym_str(const std::string &name, size_t max, char lo = 0, char hi = 0, size_t min = 0) {
  size_t n = pick((name + ".len").c_str(), min, max);
  return sym_strn(name, n, lo, hi);
}
inline std::string catn(const std::string &a, const char *b) { return a + b; }
