// Reference models, independent of the library: plain definitions, no cleverness.
#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace ref {

enum Alg { STD = 0, TRN = 1, MAS = 2 };
inline const char *alg_name(int a) { return a == STD ? "standard" : a == TRN ? "transposition" : "merge-and-split"; }

// Least cost of turning v into w when no character takes part in two operations.
inline std::size_t dist(int alg, const std::string &v, const std::string &w) {
  std::size_t n = v.size(), m = w.size();
  std::vector<std::vector<std::size_t>> d(n + 1, std::vector<std::size_t>(m + 1, 0));
  for (std::size_t i = 0; i <= n; i++)
    for (std::size_t j = 0; j <= m; j++) {
      if (i == 0 && j == 0) continue;
      std::size_t b = SIZE_MAX;
      if (i) b = std::min(b, d[i - 1][j] + 1);
      if (j) b = std::min(b, d[i][j - 1] + 1);
      if (i && j) b = std::min(b, d[i - 1][j - 1] + (v[i - 1] == w[j - 1] ? 0 : 1));
      if (alg == TRN && i > 1 && j > 1 && v[i - 1] == w[j - 2] && v[i - 2] == w[j - 1]) b = std::min(b, d[i - 2][j - 2] + 1);
      if (alg == MAS && i > 1 && j) b = std::min(b, d[i - 2][j - 1] + 1);
      if (alg == MAS && i && j > 1) b = std::min(b, d[i - 1][j - 2] + 1);
      d[i][j] = b;
    }
  return d[n][m];
}

// All strings over `alphabet` of length 0..maxlen, shortest first.
inline std::vector<std::string> words(const std::string &alphabet, std::size_t maxlen, std::size_t minlen = 0) {
  std::vector<std::string> all, layer{""};
  for (std::size_t l = 0;; l++) {
    if (l >= minlen) all.insert(all.end(), layer.begin(), layer.end());
    if (l == maxlen) break;
    std::vector<std::string> next;
    for (auto &s : layer) for (char c : alphabet) next.push_back(s + c);
    layer.swap(next);
  }
  return all;
}

inline std::map<std::string, std::size_t> expect(int alg, const std::vector<std::string> &dict, const std::string &query, std::size_t n) {
  std::map<std::string, std::size_t> r;
  for (auto &t : dict) {
    std::size_t d = dist(alg, t, query);
    if (d <= n) r[t] = d;
  }
  return r;
}

// Subset of `u` selected by the bits of `mask`.
template <class T> std::vector<T> subset(const std::vector<T> &u, std::uint64_t mask) {
  std::vector<T> r;
  for (std::size_t i = 0; i < u.size(); i++) if (mask >> i & 1) r.push_back(u[i]);
  return r;
}

// All subsets of {0..n-1} with at most k members, as sorted index lists, small ones first.
inline std::vector<std::vector<int>> subsets_upto(int n, int k) {
  std::vector<std::vector<int>> all{{}}, layer{{}};
  for (int s = 1; s <= k; s++) {
    std::vector<std::vector<int>> next;
    for (auto &b : layer) for (int i = b.empty() ? 0 : b.back() + 1; i < n; i++) { auto c = b; c.push_back(i); next.push_back(c); }
    all.insert(all.end(), next.begin(), next.end());
    layer.swap(next);
  }
  return all;
}

}  // namespace ref
