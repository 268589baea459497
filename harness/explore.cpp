// C25: a query looks only where its answer can be, and only when asked. The
// dictionary's nodes that an operation has no reason to look at are poisoned
// (AddressSanitizer traps whoever reads them) while the operation runs.
#include <climits>
#include <sanitizer/asan_interface.h>
#include "alloc.h"
#include "dictlib.h"
#include "liblevenshtein/transducer/algorithm.h"
#include "liblevenshtein/transducer/transducer.h"

using namespace dl;

// Least distance between `p` and any beginning of `q`.
static std::size_t begins(int alg, const std::string &p, const std::string &q) {
  std::size_t n = p.size(), m = q.size();
  std::vector<std::size_t> d[3];
  for (auto &r : d) r.assign(m + 1, 0);
  for (std::size_t i = 0; i <= n; i++) {
    auto &r = d[i % 3], &r1 = d[(i + 2) % 3], &r2 = d[(i + 1) % 3];
    for (std::size_t j = 0; j <= m; j++) {
      std::size_t b = i == 0 && j == 0 ? 0 : SIZE_MAX;
      if (i) b = std::min(b, r1[j] + 1);
      if (j) b = std::min(b, r[j - 1] + 1);
      if (i && j) b = std::min(b, r1[j - 1] + (p[i - 1] == q[j - 1] ? 0 : 1));
      if (alg == ref::TRN && i > 1 && j > 1 && p[i - 1] == q[j - 2] && p[i - 2] == q[j - 1]) b = std::min(b, r2[j - 2] + 1);
      if (alg == ref::MAS && i > 1 && j) b = std::min(b, r2[j - 1] + 1);
      if (alg == ref::MAS && i && j > 1) b = std::min(b, r1[j - 2] + 1);
      r[j] = b;
    }
  }
  return *std::min_element(d[n % 3].begin(), d[n % 3].end());
}
// Whether some string that begins with `p` is within `n` of `q`.
static bool viable(int alg, const std::string &p, const std::string &q, std::size_t n) {
  if (begins(alg, p, q) <= n) return true;
  if (alg == ref::STD) return false;
  std::set<char> next(q.begin(), q.end());
  next.insert('\x01');
  for (char c : next) if (begins(alg, p + c, q) <= n) return true;
  return false;
}

// ---- a dictionary whose storage is known, node by node ---------------------------
using Block = std::pair<void *, std::size_t>;
static std::array<Block, 64> caught;
static std::size_t n_caught;
static void note_get(void *p, std::size_t n) { if (n_caught < caught.size()) caught[n_caught++] = {p, n}; }
static void note_put(void *p) { for (std::size_t i = 0; i < n_caught; i++) if (caught[i].first == p) { caught[i] = caught[--n_caught]; return; } }

struct Store {
  ll::DawgNode *node = nullptr;
  std::vector<std::string> prefixes;        // every way to reach it
  std::vector<int> children;
  std::vector<Block> edges;                 // where its edges are kept, when known
};
enum Guard { OPEN, EDGES_SHUT, SHUT };
struct Dict {
  std::vector<Store> s;
  DawgPtr dawg;
  Terms terms;
  std::map<std::string, int> at;            // prefix -> node
  bool is_trie = false;
  void shut(std::size_t i, Guard g) {
    if (g != OPEN) for (auto &[p, n] : s[i].edges) __asan_poison_memory_region(p, n);
    if (g == SHUT) __asan_poison_memory_region(s[i].node, sizeof(ll::DawgNode));
  }
  void open_all() {
    for (auto &x : s) {
      __asan_unpoison_memory_region(x.node, sizeof(ll::DawgNode));
      for (auto &[p, n] : x.edges) __asan_unpoison_memory_region(p, n);
    }
  }
  ~Dict() { open_all(); }
};
// An unshared trie, its edges' storage attributed to its nodes.
static std::unique_ptr<Dict> trie(const Terms &terms) {
  auto d = std::make_unique<Dict>();
  d->terms = sorted(terms);
  d->is_trie = true;
  d->s.push_back({new ll::DawgNode(), {""}, {}, {}});
  d->at[""] = 0;
  for (auto &t : d->terms) {
    int u = 0;
    for (std::size_t i = 0; i < t.size(); i++) {
      std::string p = t.substr(0, i + 1);
      auto it = d->at.find(p);
      if (it == d->at.end()) {
        int v = d->s.size();
        auto *n = new ll::DawgNode();
        d->s.push_back({n, {p}, {}, {}});
        d->at[p] = v;
        auto &st = d->s[u];
        n_caught = 0;
        for (auto &b : st.edges) caught[n_caught++] = b;
        MC_CHECK(n_caught < 60, "too many blocks");
        alloc::on_get = note_get; alloc::on_put = note_put;
        st.node->add_edge(t[i], n);
        alloc::on_get = nullptr; alloc::on_put = nullptr;
        st.edges.assign(caught.begin(), caught.begin() + n_caught);
        st.children.push_back(v);
        u = v;
      } else u = it->second;
    }
    d->s[u].node->is_final(true);
  }
  d->dawg = std::make_unique<ll::SortedDawg>(d->s[0].node, d->terms.size());
  return d;
}
// The dictionary the library builds: nodes with several prefixes.
static std::unique_ptr<Dict> minimal(const Terms &terms) {
  auto d = std::make_unique<Dict>();
  d->terms = sorted(terms);
  d->dawg = build(d->terms);
  std::map<ll::DawgNode *, int> index;
  std::vector<std::pair<ll::DawgNode *, std::string>> todo{{d->dawg->root(), ""}};
  while (!todo.empty()) {
    auto [n, p] = todo.back();
    todo.pop_back();
    auto [it, fresh] = index.emplace(n, (int)d->s.size());
    if (fresh) { d->s.push_back({n, {}, {}, {}}); }
    d->s[it->second].prefixes.push_back(p);
    d->at[p] = it->second;
    n->for_each_edge([&, p = p](char c, ll::DawgNode *t) { todo.push_back({t, p + c}); });
  }
  for (auto &[p, v] : d->at) if (!p.empty()) d->s[d->at[p.substr(0, p.size() - 1)]].children.push_back(v);
  return d;
}

struct Ask { int alg; std::string q; std::size_t n; };
static std::string show(const Ask &a) { return std::string(ref::alg_name(a.alg)) + " query for " + mc::q(a.q) + " within " + std::to_string(a.n); }
// The same verdicts as viable(), computed down a trie: the rows of a node follow from those of its parent.
using Row = std::vector<int>;
static int row_after(int alg, const Row *r2, const Row &r1, char c2, char c, const std::string &q, Row &r) {
  std::size_t m = q.size();
  r.resize(m + 1);
  int least = INT_MAX;
  for (std::size_t j = 0; j <= m; j++) {
    int b = r1[j] + 1;
    if (j) b = std::min(b, r[j - 1] + 1);
    if (j) b = std::min(b, r1[j - 1] + (c != q[j - 1]));
    if (alg == ref::TRN && r2 && j > 1 && c == q[j - 2] && c2 == q[j - 1]) b = std::min(b, (*r2)[j - 2] + 1);
    if (alg == ref::MAS && r2 && j) b = std::min(b, (*r2)[j - 1] + 1);
    if (alg == ref::MAS && j > 1) b = std::min(b, r1[j - 2] + 1);
    r[j] = b;
    least = std::min(least, b);
  }
  return least;
}
static void open_trie(const Dict &d, const Ask &a, std::vector<Guard> &g) {
  std::set<char> next(a.q.begin(), a.q.end());
  next.insert('\x01');
  struct At { int node; Row r2, r1; char c; bool has2; };
  Row first(a.q.size() + 1), r, x;
  for (std::size_t j = 0; j < first.size(); j++) first[j] = j;
  std::vector<At> todo;
  todo.push_back({0, {}, first, 0, false});
  g[0] = OPEN;
  while (!todo.empty()) {
    At t = std::move(todo.back());
    todo.pop_back();
    for (int v : d.s[t.node].children) {
      char c = d.s[v].prefixes[0].back();
      std::size_t least = row_after(a.alg, t.has2 ? &t.r2 : nullptr, t.r1, t.c, c, a.q, r);
      if (least > a.n && a.alg != ref::STD)
        for (char n : next) { least = std::min<std::size_t>(least, row_after(a.alg, &t.r1, r, c, n, a.q, x)); if (least <= a.n) break; }
      if (least > a.n) continue;                     // nor is anything below it
      g[v] = OPEN;
      todo.push_back({v, t.r1, r, c, true});
    }
  }
}
// Shuts everything no query of `asks` has reason to look at. Returns how many nodes.
static std::size_t shut(Dict &d, const std::vector<Ask> &asks) {
  std::vector<Guard> g(d.s.size(), SHUT);
  if (d.is_trie) { for (auto &a : asks) open_trie(d, a, g); }
  else for (auto &a : asks)
    for (std::size_t i = 0; i < d.s.size(); i++)
      for (auto &p : d.s[i].prefixes)
        if (g[i] != OPEN && viable(a.alg, p, a.q, a.n)) g[i] = OPEN;
  for (std::size_t i = 0; i < d.s.size(); i++)
    if (g[i] == OPEN) for (int c : d.s[i].children) if (g[c] == SHUT) g[c] = EDGES_SHUT;
  std::size_t n = 0;
  for (std::size_t i = 0; i < d.s.size(); i++) { d.shut(i, g[i]); n += g[i] == SHUT || (g[i] == EDGES_SHUT && !d.s[i].edges.empty()); }
  return n;
}
static std::string term_of(const std::string &c) { return c; }
static std::string term_of(const ll::Candidate &c) { return c.first; }

template <ll::Algorithm A, class R> static Terms run_t(ll::DawgNode *root, const Ask &a) {
  ll::Transducer<A, R> t(root);
  Terms r;
  for (const R &c : t(a.q, a.n)) r.push_back(term_of(c));
  return r;
}
static Terms run(ll::DawgNode *root, const Ask &a, bool distances) {
  switch (a.alg) {
    case 0: return distances ? run_t<ll::Algorithm::STANDARD, ll::Candidate>(root, a) : run_t<ll::Algorithm::STANDARD, std::string>(root, a);
    case 1: return distances ? run_t<ll::Algorithm::TRANSPOSITION, ll::Candidate>(root, a) : run_t<ll::Algorithm::TRANSPOSITION, std::string>(root, a);
    default: return distances ? run_t<ll::Algorithm::MERGE_AND_SPLIT, ll::Candidate>(root, a) : run_t<ll::Algorithm::MERGE_AND_SPLIT, std::string>(root, a);
  }
}
static void guarded(Dict &d, const Ask &a, bool distances) {
  ll::DawgNode *root = d.dawg->root();
  std::size_t shut_nodes = shut(d, {a});
  Terms got = run(root, a, distances);
  d.open_all();
  Terms want;
  for (auto &[t, x] : ref::expect(a.alg, d.terms, a.q, a.n)) want.push_back(t);
  std::sort(got.begin(), got.end());
  MC_CHECK(got == want, show(a) << " yields " << show(got) << " instead of " << show(want));
  mc::transitions(got.size() + 1);
  mc::state(mc::mix(mc::mix(mc::hash_str(a.q, a.n), a.alg), mc::mix(d.s.size(), shut_nodes)));
  if (shut_nodes) mc::nontrivial();
  mc::count(0, shut_nodes);
}

// ---- families --------------------------------------------------------------------
static Terms complete(const std::string &alphabet, std::size_t depth, int pattern) {
  Terms r;
  for (auto &w : ref::words(alphabet, depth))
    if (pattern == 0 || (pattern == 1 && w.size() == depth) || (pattern == 2 && w.size() % 2 == 1)) r.push_back(w);
  return r;
}
// Many queries against one dictionary per process.
static Dict &kept(const std::string &key, const std::function<std::unique_ptr<Dict>()> &make) {
  static std::map<std::string, std::unique_ptr<Dict>> all;
  auto &p = all[key];
  if (!p) p = make();
  return *p;
}
struct Deep { std::string name; Terms terms; std::string query; };
static std::vector<Deep> deep_spaces(bool thorough) {
  std::vector<Deep> r;
  std::vector<std::size_t> lens = {12, 31, 32, 33, 64, 100, 200};
  if (thorough) lens.insert(lens.end(), {63, 65, 127, 128, 129, 255, 256, 257, 400});
  for (std::size_t n : lens)
    for (int period : {1, 2, 3, 7}) {
      std::string q;
      for (std::size_t i = 0; i < n; i++) q += (char)('a' + i % period);
      Terms t{q};
      for (std::size_t i = 0; i <= n; i++) {                    // branches off at every place, with long tails
        t.push_back(q.substr(0, i) + std::string(9, 'z'));
        t.push_back(q.substr(0, i) + "z" + q.substr(std::min(i + 1, n)) + "zzzz");
        t.push_back(q.substr(0, i) + q.substr(std::min(i + 1, n)));
        t.push_back(q.substr(0, i) + "yy" + q.substr(i));
      }
      t = sorted(t);
      // keep the trie moderate: with long queries the full copies are too many
      if (n > 64) { Terms u; for (std::size_t i = 0; i < t.size(); i += n / 32) u.push_back(t[i]); t = u; }
      r.push_back({std::to_string(n) + " characters of period " + std::to_string(period), t, q});
    }
  return r;
}

// Shares of the work.
template <ll::Algorithm A> static void shares_t(ll::Dawg &d, std::size_t total, std::size_t branches, const std::string &q, std::size_t n, const std::string &what) {
  auto work = [&](std::size_t stop, std::size_t &got) {
    ll::Transducer<A, std::string> t(d.root());
    long before = alloc::total;
    got = 0;
    auto query = t(q, n);
    auto it = query.begin();
    auto end = query.end();
    if (stop) for (; !(it == end); ++it) if (++got == stop) break;
    return (double)(alloc::total - before);
  };
  std::size_t all = 0, got = 0;
  double full = work(SIZE_MAX, all);
  MC_CHECK(all == total, what << ": yields " << all << " of " << total << " terms");
  for (double share : {0.0, 0.0001, 0.01, 0.1, 0.2, 0.34, 0.36, 0.5, 0.67, 0.7}) {
    std::size_t k = share == 0 ? 0 : std::max<std::size_t>(1, share * total);
    double w = work(k, got);
    MC_CHECK(w <= full * ((branches + 1.0) * k / total + 0.1), what << ": the first " << k << " of " << total << " results took " << w << " allocations of the " << full << " all results take");
    mc::transitions(k);
    mc::state(mc::mix(mc::hash_str(what), k));
  }
  mc::nontrivial();
}

static std::vector<mc::Family> make(const mc::Options &o) {
  std::vector<mc::Family> fs;
  static const std::vector<std::string> Q = ref::words("abc", 4), QT = ref::words("abc", 5);
  static const std::vector<std::string> &QQ = o.thorough ? QT : Q;
  static const std::size_t bounds = o.thorough ? 5 : 4;
  // complete tries
  static const std::size_t depth = o.thorough ? 9 : 7;
  auto ask_of = [](u64 i) {
    Ask a;
    a.alg = i % 3; i /= 3;
    a.n = i % bounds; i /= bounds;
    a.q = QQ[i];
    return a;
  };
  u64 per = QQ.size() * bounds * 3;
  fs.push_back({"complete", "the complete trie over {a,b} of depth " + std::to_string(depth) + " (all nodes final; the deepest; every second level) x every query over {a,b,c} of up to " + std::to_string(o.thorough ? 5 : 4) +
                " characters x bounds below " + std::to_string(bounds) + " x algorithms x result formats, with every node shut that no string within the bound passes through",
                per * 6,
                [=](u64 i) {
                  int pattern = i / per / 2;
                  Dict &d = kept("complete" + std::to_string(pattern), [&] { return trie(complete("ab", depth, pattern)); });
                  guarded(d, ask_of(i % per), i / per % 2);
                },
                [=](u64 i) { return "pattern " + std::to_string(i / per / 2) + ": " + show(ask_of(i % per)); }, 16});
  // small dictionaries with long tails, as tries and as built
  static const Terms heads = {"", "a", "b", "aa", "ab", "ba", "bb"};
  static const std::vector<std::string> Q3 = ref::words("ab", 3);
  auto tailed = [](u64 mask) {
    Terms t;
    for (auto &h : ref::subset(heads, mask)) { t.push_back(h); t.push_back(h + "babab"); t.push_back(h + "ccccc"); }
    return sorted(t);
  };
  u64 per2 = Q3.size() * 3 * 3;
  auto ask2 = [](u64 i) {
    Ask a;
    a.alg = i % 3; i /= 3;
    a.n = i % 3; i /= 3;
    a.q = Q3[i];
    return a;
  };
  for (int shared : {0, 1})
    fs.push_back({shared ? "shared" : "tailed", std::string("every set of strings of up to two characters of {a,b}, each also continued by babab and by ccccc, ") +
                  (shared ? "as the library builds it (a node may be looked at when one of its prefixes may)" : "as a trie") + " x every query of up to three characters x bounds 0 to 2 x algorithms",
                  (1 << heads.size()) * per2,
                  [=](u64 i) {
                    Terms t = tailed(i / per2);
                    Dict &d = kept((shared ? "shared" : "tailed") + std::to_string(i / per2), [&] { return shared ? minimal(t) : trie(t); });
                    guarded(d, ask2(i % per2), i % 2);
                  },
                  [=](u64 i) { return show(tailed(i / per2)) + ": " + show(ask2(i % per2)); }, 189});
  // long queries
  static const std::vector<Deep> deep = deep_spaces(o.thorough);
  fs.push_back({"long-queries", "queries of 12 to " + std::string(o.thorough ? "400" : "200") + " characters, the dictionary branching off at every place with long tails x bounds 0 to 3 x algorithms", deep.size() * 12,
                [](u64 i) {
                  const Deep &s = deep[i / 12];
                  auto d = trie(s.terms);
                  guarded(*d, {(int)(i % 3), s.query, i / 3 % 4}, i % 2);
                },
                [](u64 i) { return deep[i / 12].name + ", bound " + std::to_string(i / 3 % 4) + ", " + ref::alg_name(i % 3); }, 1, 120});
  // what an earlier or still open query left behind
  static const std::vector<std::string> Q2 = ref::words("ab", 2);
  static const u64 one = Q2.size() * 3;                          // query x bound
  auto pick = [](u64 k, int alg) { return Ask{alg, Q2[k / 3], k % 3}; };
  // the two ways to decide what may be looked at agree
  static const std::vector<std::string> Q5 = ref::words("abc", 5);
  fs.push_back({"oracle", "what may be looked at, decided prefix by prefix and down the trie: every query over {a,b,c} of up to five characters x bounds 0 to 3 x algorithms on a trie of 364 nodes", Q5.size() * 12,
                [](u64 i) {
                  Dict &d = kept("oracle", [] { return trie(complete("abc", 5, 0)); });
                  Ask a{(int)(i % 3), Q5[i / 12], i / 3 % 4};
                  std::vector<Guard> g(d.s.size(), SHUT);
                  open_trie(d, a, g);
                  for (std::size_t k = 0; k < d.s.size(); k++)
                    MC_CHECK((g[k] == OPEN) == viable(a.alg, d.s[k].prefixes[0], a.q, a.n), "the oracles of the check disagree on " << mc::q(d.s[k].prefixes[0]) << ", " << show(a));
                },
                [](u64 i) { return show(Ask{(int)(i % 3), Q5[i / 12], i / 3 % 4}); }, 32});
  fs.push_back({"after-others", "two queries of one transducer (every pair over {a,b} of up to two characters and bounds 0 to 2, 3 algorithms): the first is left after none, one or all of its results, the second sees everything shut that it has no reason to look at; then the first goes on and sees all else shut",
                one * one * 9,
                [=](u64 i) {
                  int alg = i % 3, left = i / 3 % 3;
                  Ask a = pick(i / 9 % one, alg), b = pick(i / 9 / one, alg);
                  Dict &d = kept("after", [&] { return trie(complete("ab", 6, 0)); });
                  ll::DawgNode *root = d.dawg->root();
                  auto go = [&](auto &t) {
                    Terms got_a, got_b;
                    auto qa = t(a.q, a.n);
                    auto end_a = qa.end();
                    shut(d, {a});
                    auto ia = qa.begin();
                    if (left == 1 && !(ia == end_a)) { got_a.push_back(*ia); ++ia; }
                    if (left == 2) for (; !(ia == end_a); ++ia) got_a.push_back(*ia);
                    d.open_all();
                    shut(d, {b});
                    for (const std::string &c : t(b.q, b.n)) got_b.push_back(c);
                    d.open_all();
                    shut(d, {a});
                    for (; !(ia == end_a); ++ia) got_a.push_back(*ia);
                    d.open_all();
                    for (auto *x : {&got_a, &got_b}) {
                      const Ask &k = x == &got_a ? a : b;
                      auto want = ref::expect(alg, d.terms, k.q, k.n);
                      MC_CHECK(x->size() == want.size(), show(k) << " yields " << x->size() << " of " << want.size() << " terms");
                    }
                    mc::transitions(got_a.size() + got_b.size());
                  };
                  if (alg == 0) { ll::Transducer<ll::Algorithm::STANDARD, std::string> t(root); go(t); }
                  else if (alg == 1) { ll::Transducer<ll::Algorithm::TRANSPOSITION, std::string> t(root); go(t); }
                  else { ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, std::string> t(root); go(t); }
                  mc::nontrivial();
                  mc::state(mc::mix(i, 77));
                },
                [=](u64 i) { return show(pick(i / 9 % one, i % 3)) + " left after " + std::to_string(i / 3 % 3) + ", then " + show(pick(i / 9 / one, i % 3)); }, 27});
  // membership and size
  static const std::vector<std::string> M = ref::words("abc", 7);
  fs.push_back({"membership", "whether each string over {a,b,c} of up to seven characters is contained, in the complete trie over {a,b} of depth 6 and in one of single long branches, all nodes shut but those along it; and the size with all nodes shut",
                M.size() * 2,
                [](u64 i) {
                  const std::string &m = M[i / 2];
                  Dict &d = i % 2 ? kept("m1", [] { return trie(complete("ab", 6, 2)); })
                                  : kept("m0", [] { return trie(Terms{"", "abcabca", "acbacb", "bbbbbbb", "caaaaa", "cabcab"}); });
                  ll::Dawg *dawg = d.dawg.get();
                  for (std::size_t k = 0; k < d.s.size(); k++) d.shut(k, SHUT);
                  MC_CHECK(dawg->size() == d.terms.size(), "size() is wrong");
                  for (std::size_t l = 0; l <= m.size(); l++) {
                    auto it = d.at.find(m.substr(0, l));
                    if (it == d.at.end()) break;
                    Store &s = d.s[it->second];
                    __asan_unpoison_memory_region(s.node, sizeof(ll::DawgNode));
                    for (auto &[p, n] : s.edges) if (l < m.size()) __asan_unpoison_memory_region(p, n);
                  }
                  bool got = dawg->contains(m);
                  d.open_all();
                  MC_CHECK(got == std::binary_search(d.terms.begin(), d.terms.end(), m), "contains(" << mc::q(m) << ") is wrong");
                  mc::transitions(m.size());
                  mc::state(mc::hash_str(m, i % 2));
                  mc::nontrivial();
                },
                [](u64 i) { return mc::q(M[i / 2]); }, 64});
  // the work for some of the results
  static const std::vector<std::tuple<std::string, std::size_t, std::string, std::size_t>> W = {
    {"ab", 8, "", 8}, {"ab", 8, "abababab", 8}, {"ab", 8, "abba", 20}, {"abc", 6, "", 6}, {"abc", 6, "abcabc", 6}, {"abc", 6, "ccc", 100}, {"abcdefgh", 3, "abc", 3}, {"abcdefgh", 4, "", 4}};
  fs.push_back({"shares", "complete dictionaries (255 to 4681 terms) and a bound that admits every term x algorithms, tries and as built: the work done for the first k results, k from none to 70%, is at most their share of the work for all, times one more than the letters (a node is looked at with its children), plus a tenth",
                W.size() * 6,
                [](u64 i) {
                  auto &[al, dep, q, n] = W[i / 6];
                  Terms t = complete(al, dep, 0);
                  auto d = i / 3 % 2 ? minimal(t) : trie(t);
                  std::string what = std::string(ref::alg_name(i % 3)) + " query for " + mc::q(q) + " within " + std::to_string(n);
                  if (i % 3 == 0) shares_t<ll::Algorithm::STANDARD>(*d->dawg, t.size(), al.size(), q, n, what);
                  else if (i % 3 == 1) shares_t<ll::Algorithm::TRANSPOSITION>(*d->dawg, t.size(), al.size(), q, n, what);
                  else shares_t<ll::Algorithm::MERGE_AND_SPLIT>(*d->dawg, t.size(), al.size(), q, n, what);
                },
                [](u64 i) { auto &[al, dep, q, n] = W[i / 6]; return std::string(ref::alg_name(i % 3)) + ", depth " + std::to_string(dep) + " over " + al + ", query " + mc::q(q) + ", bound " + std::to_string(n) + (i / 3 % 2 ? ", minimal" : ", trie"); }, 1, 120});
  fs.push_back({"iteration-shares", "iterating over complete dictionaries (255 to 4681 terms): the work for the first k terms is at most as much",
                W.size() * 2,
                [](u64 i) {
                  auto &[al, dep, q, n] = W[i / 2];
                  Terms t = complete(al, dep, 0);
                  auto d = i % 2 ? minimal(t) : trie(t);
                  auto work = [&](std::size_t stop) {
                    long before = alloc::total;
                    std::size_t got = 0;
                    auto it = d->dawg->begin();
                    auto end = d->dawg->end();
                    if (stop) for (; !(it == end); ++it) { std::string s = *it; if (++got == stop) break; }
                    return (double)(alloc::total - before);
                  };
                  double full = work(SIZE_MAX);
                  for (double share : {0.0, 0.0001, 0.01, 0.1, 0.2, 0.34, 0.36, 0.5, 0.67, 0.7}) {
                    std::size_t k = share == 0 ? 0 : std::max<std::size_t>(1, share * t.size());
                    double w = work(k);
                    MC_CHECK(w <= full * ((al.size() + 1.0) * k / t.size() + 0.1), "the first " << k << " of " << t.size() << " terms took " << w << " allocations of the " << full << " all terms take");
                    mc::transitions(k);
                    mc::state(mc::mix(i, k));
                  }
                  mc::nontrivial();
                },
                [](u64 i) { auto &[al, dep, q, n] = W[i / 2]; return "depth " + std::to_string(dep) + " over " + al + (i % 2 ? ", minimal" : ", trie"); }, 1, 120});
  return fs;
}

int main(int argc, char **argv) {
  return mc::drive(argc, argv, make, {"nodes_shut"});
}
