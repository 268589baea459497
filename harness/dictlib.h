// Observation of dictionaries through the public interface, and reference
// models of them (a set of strings; a hash-consed trie).
#pragma once
#include "mc.h"
#include "ref.h"
#include <list>
#include <memory>
#include <unordered_map>
#include "liblevenshtein/collection/dawg.h"
#include "liblevenshtein/collection/dawg_node.h"
#include "liblevenshtein/collection/sorted_dawg.h"

namespace dl {
namespace ll = liblevenshtein;
using Terms = std::vector<std::string>;
using mc::u64;

inline std::string show(const Terms &t) { return mc::qs(t.begin(), t.end()); }
inline Terms sorted(Terms t) {
  std::sort(t.begin(), t.end());
  t.erase(std::unique(t.begin(), t.end()), t.end());
  return t;
}

using DawgPtr = std::unique_ptr<ll::Dawg>;
inline DawgPtr build(Terms t) {
  DawgPtr p(ll::sorted_dawg(t.begin(), t.end()));
  MC_CHECK(p != nullptr, "sorted terms were refused: " << show(t));
  return p;
}

// What iterating yields, in order; cut off when it exceeds `limit`.
inline Terms iterate(const ll::Dawg &d, std::size_t limit) {
  Terms r;
  auto it = d.begin();
  auto end = d.end();
  while (!(it == end)) {
    r.push_back(*it);
    if (r.size() > limit) break;
    ++it;
  }
  return r;
}

// Checks that `d` holds exactly `terms` (sorted, distinct) as far as its users
// can tell: size, iteration, membership of the terms and of `probes`.
inline u64 check_holds(const ll::Dawg &d, const Terms &terms, const Terms &probes, const std::string &what) {
  MC_CHECK(d.size() == terms.size(), what << ": size() is " << d.size() << " for the " << terms.size() << " terms " << show(terms));
  Terms it = iterate(d, terms.size() + 4), s = it;
  std::sort(s.begin(), s.end());
  MC_CHECK(s == terms, what << ": iterating yields " << show(it) << " instead of " << show(terms));
  for (auto &t : terms) MC_CHECK(d.contains(t), what << ": contains(" << mc::q(t) << ") is false; terms " << show(terms));
  for (auto &p : probes) {
    bool want = std::binary_search(terms.begin(), terms.end(), p);
    MC_CHECK(d.contains(p) == want, what << ": contains(" << mc::q(p) << ") is " << (want ? "false" : "true") << "; terms " << show(terms));
  }
  mc::transitions(it.size() + terms.size() + probes.size() + 2);
  u64 h = 7;
  for (auto &t : terms) h = mc::hash_str(t, h);
  return h;
}

// ---- graph of nodes ---------------------------------------------------------
struct Graph {
  std::vector<ll::DawgNode *> nodes;                       // reachable, breadth first
  std::unordered_map<ll::DawgNode *, int> index;
  std::vector<std::vector<std::pair<unsigned char, int>>> edges;
  std::vector<bool> final;
};
inline Graph graph_of(ll::DawgNode *root, std::size_t limit = 1000000) {
  Graph g;
  g.nodes.push_back(root);
  g.index[root] = 0;
  for (std::size_t i = 0; i < g.nodes.size(); i++) {
    std::vector<std::pair<unsigned char, int>> es;
    g.nodes[i]->for_each_edge([&](char label, ll::DawgNode *t) {
      MC_CHECK(t != nullptr, "an edge leads to a null node");
      auto [it, fresh] = g.index.emplace(t, (int)g.nodes.size());
      if (fresh) g.nodes.push_back(t);
      es.emplace_back((unsigned char)label, it->second);
    });
    MC_CHECK(g.nodes.size() <= limit, "the graph has more than " << limit << " nodes");
    std::sort(es.begin(), es.end());
    g.edges.push_back(es);
    g.final.push_back(g.nodes[i]->is_final());
  }
  return g;
}
// Class of each node by what it accepts; -1 classes never occur (fails on a cycle).
inline std::vector<int> classes_of(const Graph &g, std::map<std::pair<bool, std::vector<std::pair<unsigned char, int>>>, int> &ids) {
  std::size_t n = g.nodes.size();
  std::vector<int> cls(n, -1);
  std::vector<char> color(n, 0);
  std::vector<std::pair<int, std::size_t>> st;
  for (std::size_t r = 0; r < n; r++) {
    if (color[r]) continue;
    st.push_back({(int)r, 0});
    color[r] = 1;
    while (!st.empty()) {
      auto &[u, k] = st.back();
      if (k < g.edges[u].size()) {
        int v = g.edges[u][k++].second;
        MC_CHECK(color[v] != 1, "the graph of nodes has a cycle");
        if (!color[v]) { color[v] = 1; st.push_back({v, 0}); }
      } else {
        std::vector<std::pair<unsigned char, int>> key;
        for (auto &[c, v] : g.edges[u]) if (cls[v] != 0 || true) key.emplace_back(c, cls[v]);
        cls[u] = ids.emplace(std::make_pair((bool)g.final[u], key), (int)ids.size()).first->second;
        color[u] = 2;
        st.pop_back();
      }
    }
  }
  return cls;
}

// Number of states of the minimal automaton for a set of terms: distinct sets of
// remaining suffixes over all prefixes of terms (and the empty prefix).
inline std::size_t minimal_states(const Terms &terms) {
  struct N { bool f = false; std::map<unsigned char, int> e; };
  std::vector<N> t(1);
  for (auto &s : terms) {
    int u = 0;
    for (unsigned char c : s) {
      auto it = t[u].e.find(c);
      if (it == t[u].e.end()) { int v = t.size(); t.emplace_back(); t[u].e[c] = v; u = v; }
      else u = it->second;
    }
    t[u].f = true;
  }
  std::map<std::pair<bool, std::vector<std::pair<unsigned char, int>>>, int> ids;
  std::vector<int> cls(t.size());
  for (int u = (int)t.size() - 1; u >= 0; u--) {      // children have larger numbers
    std::vector<std::pair<unsigned char, int>> key;
    for (auto &[c, v] : t[u].e) key.emplace_back(c, cls[v]);
    cls[u] = ids.emplace(std::make_pair(t[u].f, key), (int)ids.size()).first->second;
  }
  return ids.size();
}

}  // namespace dl
