// C04: bounds only filter, formats agree. C05: interleaved lazy iterations.
// C17: lifetimes.
#include "alloc.h"
#include "dictlib.h"
#include <sstream>
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/transducer.h"

using namespace dl;
using Result = std::vector<std::pair<std::string, std::size_t>>;

static Result sorted_result(Result r) { std::sort(r.begin(), r.end()); return r; }
static std::string show(const Result &r) {
  std::string s = "{";
  std::size_t n = 0;
  for (auto &[t, d] : r) { if (n++ == 30) { s += ", ..."; break; } s += (n > 1 ? ", " : "") + mc::q(t) + ":" + std::to_string(d); }
  return s + "}";
}
using dl::show;

// A query of either format, hidden behind strings.
struct Stream {
  virtual ~Stream() {}
  virtual bool at_end() = 0;
  virtual std::string get() = 0;
  virtual void step() = 0;
  virtual bool passable() { return true; }     // may be advanced at its end, where it stays
};
struct AnyTransducer {
  virtual ~AnyTransducer() {}
  virtual Result all(const std::string &q, std::size_t n, bool use_default, std::size_t limit) = 0;
  virtual std::unique_ptr<Stream> open(const std::string &q, std::size_t n) = 0;
  // two iterations begun from one and the same result object
  virtual std::pair<std::unique_ptr<Stream>, std::unique_ptr<Stream>> open_twice(const std::string &q, std::size_t n) = 0;
};
static std::string text(const std::string &s) { return s; }
static std::string text(const ll::Candidate &c) { return c.first + "=" + std::to_string(c.second); }
static std::pair<std::string, std::size_t> pair_of(const std::string &s) { return {s, 0}; }
static std::pair<std::string, std::size_t> pair_of(const ll::Candidate &c) { return c; }

template <ll::Algorithm A, class R> struct T : AnyTransducer {
  ll::Transducer<A, R> tr;
  explicit T(ll::DawgNode *root) : tr(root) {}
  struct S : Stream {
    std::shared_ptr<ll::LazyIterator<R>> range;
    std::unique_ptr<ll::LazyQuery<R>> it, end;
    explicit S(std::shared_ptr<ll::LazyIterator<R>> r) : range(std::move(r)), it(new ll::LazyQuery<R>(range->begin())), end(new ll::LazyQuery<R>(range->end())) {}
    bool at_end() override { return *it == *end; }
    std::string get() override { return text(**it); }
    void step() override { ++*it; }
  };
  // The query is made from a string that is overwritten and gone before it is run.
  ll::LazyIterator<R> ask(const std::string &q, std::size_t n, bool use_default = false) {
    std::unique_ptr<std::string> s(new std::string(q));
    ll::LazyIterator<R> range = use_default ? tr(*s) : tr(*s, n);
    for (char &c : *s) c = '#';
    return range;
  }
  Result all(const std::string &q, std::size_t n, bool use_default, std::size_t limit) override {
    Result r;
    auto range = ask(q, n, use_default);
    for (const auto &c : range) { r.push_back(pair_of(c)); MC_CHECK(r.size() <= limit, "the query " << mc::q(q) << " within " << n << " yields more than " << limit << " results"); }
    return r;
  }
  std::unique_ptr<Stream> open(const std::string &q, std::size_t n) override {
    return std::unique_ptr<Stream>(new S(std::shared_ptr<ll::LazyIterator<R>>(new ll::LazyIterator<R>(ask(q, n)))));
  }
  std::pair<std::unique_ptr<Stream>, std::unique_ptr<Stream>> open_twice(const std::string &q, std::size_t n) override {
    std::shared_ptr<ll::LazyIterator<R>> range(new ll::LazyIterator<R>(ask(q, n)));
    std::unique_ptr<Stream> a(new S(range));
    return {std::move(a), std::unique_ptr<Stream>(new S(range))};
  }
};
struct DictStream : Stream {
  std::unique_ptr<ll::DawgIterator> it, end;
  explicit DictStream(const ll::Dawg &d) : it(new ll::DawgIterator(d.begin())), end(new ll::DawgIterator(d.end())) {}
  bool at_end() override { return *it == *end; }
  std::string get() override { return **it; }
  void step() override { ++*it; }
  bool passable() override { return false; }
};
static std::unique_ptr<AnyTransducer> transducer(int alg, bool plain, ll::DawgNode *root) {
  using A = ll::Algorithm;
  using C = ll::Candidate;
  using P = std::unique_ptr<AnyTransducer>;
  if (alg == 0) return plain ? P(new T<A::STANDARD, std::string>(root)) : P(new T<A::STANDARD, C>(root));
  if (alg == 1) return plain ? P(new T<A::TRANSPOSITION, std::string>(root)) : P(new T<A::TRANSPOSITION, C>(root));
  return plain ? P(new T<A::MERGE_AND_SPLIT, std::string>(root)) : P(new T<A::MERGE_AND_SPLIT, C>(root));
}

// ---- C04 ----------------------------------------------------------------------
static std::vector<std::size_t> bound_list(bool all_powers) {
  std::set<std::size_t> s;
  for (std::size_t n = 0; n <= 9; n++) s.insert(n);
  for (int b = 4; b <= 64; b++) {
    if (!all_powers && b != 8 && b != 16 && b != 31 && b != 32 && b != 33 && b < 61) continue;
    std::size_t p = b == 64 ? 0 : (std::size_t)1 << b;
    for (std::size_t d : {(std::size_t)-2, (std::size_t)-1, (std::size_t)0, (std::size_t)1, (std::size_t)2}) if (b != 64 || d + 8 < 8) s.insert(p + d);
  }
  s.insert(SIZE_MAX); s.insert(SIZE_MAX - 1); s.insert(SIZE_MAX / 2); s.insert(SIZE_MAX / 2 - 1); s.insert(SIZE_MAX / 2 + 1); s.insert(SIZE_MAX / 2 + 2);
  s.insert(SIZE_MAX / 3); s.insert(SIZE_MAX / 4);
  return {s.begin(), s.end()};
}

static void check_bounds(const ll::Dawg &d, const Terms &terms, const std::string &q, const std::vector<std::size_t> &ns, std::size_t small_upto) {
  for (int alg = 0; alg < 3; alg++) {
    auto cand = transducer(alg, false, d.root()), plain = transducer(alg, true, d.root());
    auto what = [&](std::size_t n) { return std::string(ref::alg_name(alg)) + " query " + mc::q(q) + " within " + std::to_string(n) + " over " + show(terms); };
    Result all = sorted_result(cand->all(q, SIZE_MAX, false, terms.size() + 2));
    {
      Terms got;
      for (auto &[t, k] : all) got.push_back(t);
      MC_CHECK(got == terms, what(SIZE_MAX) << " yields " << show(all) << " instead of every term");
    }
    const u64 h = mc::hash_str(show(terms));
    std::vector<std::size_t> bs = ns;
    for (std::size_t n = 10; n <= small_upto; n++) bs.push_back(n);
    for (std::size_t n : bs) {
      Result got = sorted_result(cand->all(q, n, false, terms.size() + 2)), want;
      for (auto &c : all) if (c.second <= n) want.push_back(c);
      MC_CHECK(got == want, what(n) << " yields " << show(got) << ", but the results of the largest bound within " << n << " are " << show(want));
      Result p = sorted_result(plain->all(q, n, false, terms.size() + 2)), wp;
      for (auto &c : want) wp.push_back({c.first, 0});
      MC_CHECK(p == wp, what(n) << ": plain results are " << show(p) << " instead of " << show(wp));
      mc::transitions(got.size() + p.size() + 2);
      mc::state(mc::mix(mc::hash_str(q), mc::mix(n, h) + alg));
      if (!got.empty() && got.size() < terms.size()) mc::nontrivial();
      mc::trace(2);
      if (n == 2) {
        MC_CHECK(sorted_result(cand->all(q, 0, true, terms.size() + 2)) == got, what(n) << " and without a bound differ");
        MC_CHECK(sorted_result(plain->all(q, 0, true, terms.size() + 2)) == p, what(n) << " and without a bound differ (plain)");
      }
      if (n < 4) MC_CHECK(sorted_result(cand->all(q, n, false, terms.size() + 2)) == got, what(n) << ": asking again gives another answer");
    }
  }
}

static std::string padded(u64 v, int w) { std::string s = std::to_string(v); return std::string(w > (int)s.size() ? w - s.size() : 0, '0') + s; }

static void c04_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  auto add = [&](const std::string &name, const Terms &u, Terms queries, std::vector<std::size_t> ns, const std::string &btext) {
    mc::Family f;
    f.name = name;
    f.rule = "all subsets of " + show(u) + " x " + std::to_string(queries.size()) + " queries x the three algorithms x bounds " + btext;
    f.count = 1ULL << u.size();
    f.chunk = 2;
    f.run = [=](u64 i) { Terms t = ref::subset(u, i); DawgPtr d = build(t); for (auto &q : queries) check_bounds(*d, t, q, ns, 0); };
    f.describe = [=](u64 i) { return show(ref::subset(u, i)); };
    fs.push_back(f);
  };
  std::vector<std::size_t> small{0, 1, 2, 3, 4, 5, 6, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1};
  add("dictionaries", sorted(ref::words("ab", 2)), ref::words("ab", 3), bound_list(o.thorough), "0..9 and around powers of two and the maximum");
  add("longer", sorted({"", "abab", "baba", "aabb", "abba", "ababab", "aaaaaaa", "b"}), {"abab", "baab", "ababababab", "bbbbbbb", "", "aabbaabb"}, bound_list(o.thorough),
      "0..9 and around powers of two and the maximum");
  if (o.thorough) add("dictionaries-abc", sorted(ref::words("abc", 2)), ref::words("abc", 2), small, "0..6 and four large ones");
  {
    mc::Family f;
    f.name = "complete";
    auto q = std::make_shared<Terms>(ref::words("ab", o.thorough ? 7 : 6));
    auto terms = std::make_shared<Terms>(sorted(ref::words("ab", 6)));
    auto d = std::make_shared<DawgPtr>();
    f.rule = "all strings over {a, b} up to length 6 as dictionary; every query over {a, b} up to length " + std::to_string(o.thorough ? 7 : 6) + "; bounds 0..6 and large ones";
    f.count = q->size();
    f.chunk = 2;
    f.run = [=](u64 i) { if (!*d) *d = build(*terms); check_bounds(**d, *terms, (*q)[i], small, 8); };
    f.describe = [=](u64 i) { return mc::q((*q)[i]); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "long-queries";
    u64 max = o.thorough ? 80 : 34;
    f.rule = "for every length l up to " + std::to_string(max) + ": queries of that length against strings of length l-2..l+2 with edits at the ends and in the middle; every bound up to l+4";
    f.count = max + 1;
    f.chunk = 1;
    f.case_limit = 120;
    f.run = [](u64 l) {
      std::string q;
      for (u64 k = 0; k < l; k++) q += (char)('a' + (k * k) % 3);
      Terms t = {q, q + "a", q + "zz", "z" + q, "", q.substr(0, l / 2), q.substr(l / 2), std::string(l, 'z')};
      for (u64 p : {(u64)0, l / 2, l ? l - 1 : 0}) if (p < l) { std::string x = q; x[p] = 'z'; t.push_back(x); x = q; x.erase(p, 1); t.push_back(x); x = q; x.insert(p, "z"); t.push_back(x); if (p + 1 < l) { x = q; std::swap(x[p], x[p + 1]); t.push_back(x); } }
      t = sorted(t);
      DawgPtr d = build(t);
      check_bounds(*d, t, q, {0, 1, 2, 3, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1, 1000, 1 << 16}, l + 4);
    };
    f.describe = [](u64 l) { return "query of length " + std::to_string(l); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "far-apart";
    static const std::vector<int> lens = [] { std::vector<int> v; for (int p = 8; p <= 256; p *= 2) for (int d = -1; d <= 1; d++) v.push_back(p + d); for (int x : {40, 72, 100, 200, 300, 512, 600, 1024, 1025, 2000, 4096, 4097}) v.push_back(x); return v; }();
    f.rule = "lengths around powers of two up to " + std::string(o.thorough ? "4097" : "1025") + ": terms of that length (one letter, runs, with and without the query's letters), of half of it and short ones against queries of up to 3 characters, and short terms against queries of that length; bounds around the length, its half and double and every power of two";
    f.count = lens.size() * 7;
    f.chunk = 1;
    f.case_limit = 120;
    bool thorough = o.thorough;
    f.run = [=](u64 i) {
      std::size_t l = lens[i / 7];
      if (l > 1025 && !thorough) return;
      static const char *Q[] = {"", "a", "ab", "abc"};
      Terms t = {"", "a", "ab", "ba", "bcd"};
      std::string q;
      if (i % 7 < 4) {
        q = Q[i % 7];
        for (const std::string &x : l > 300 ? Terms{std::string(l, 'z'), std::string(l / 2, 'z')} : Terms{std::string(l, 'b'), std::string(l, 'z'), std::string(l / 2, 'z'), "a" + std::string(l, 'z'), std::string(l, 'z') + "ab", std::string(l / 2, 'z') + "a" + std::string(l / 2, 'z')}) t.push_back(x);
      } else {
        q = std::string(l, 'z');
        if (i % 7 == 5) q[l / 2] = 'a';
        if (i % 7 == 6) for (std::size_t k = 0; k < l; k++) q[k] = (char)('a' + k % 7);
      }
      t = sorted(t);
      DawgPtr d = build(t);
      std::vector<std::size_t> n = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, 2 * l, l / 2 - 1, l / 2, l / 2 + 1, l / 2 + 2};
      for (std::size_t k = l - 4; k <= l + 4; k++) n.push_back(k);
      if (l > 300) n = {SIZE_MAX, l / 2, l - 1, l, l + 1, 2 * l};
      else for (std::size_t k = 4; k <= 2 * l; k *= 2) { n.push_back(k - 1); n.push_back(k); n.push_back(k + 1); }
      check_bounds(*d, t, q, n, 2);
    };
    f.describe = [](u64 i) { return "length " + std::to_string(lens[i / 7]) + (i % 7 < 4 ? " terms" : " query"); };
    fs.push_back(f);
  }
}

// ---- C05 ----------------------------------------------------------------------
struct Desc { int alg; bool plain; std::string q; std::size_t n; };    // alg 3: iteration over the dictionary
static std::string show(const Desc &d) {
  if (d.alg == 3) return "iteration over the dictionary";
  return std::string(ref::alg_name(d.alg)) + (d.plain ? " plain" : "") + " query " + mc::q(d.q) + " within " + std::to_string(d.n);
}

// Dictionary plus one shared transducer per (algorithm, format).
struct World {
  Terms terms;
  DawgPtr dawg;
  std::unique_ptr<AnyTransducer> shared[6];
  explicit World(const Terms &t) : terms(t), dawg(build(t)) {}
  AnyTransducer &tr(const Desc &d) {
    auto &p = shared[d.alg * 2 + d.plain];
    if (!p) p = transducer(d.alg, d.plain, dawg->root());
    return *p;
  }
  std::unique_ptr<Stream> open(const Desc &d) {
    if (d.alg == 3) return std::unique_ptr<Stream>(new DictStream(*dawg));
    return tr(d).open(d.q, d.n);
  }
};
static std::vector<std::string> drain(Stream &s, std::size_t limit) {
  std::vector<std::string> r;
  while (!s.at_end()) { r.push_back(s.get()); MC_CHECK(r.size() <= limit, "an iteration run alone does not end"); s.step(); }
  return r;
}

// What each description yields when run alone, in a world of its own. The exact
// order is not prescribed, only that it is the same in company.
static std::vector<std::string> alone(const Terms &t, const Desc &d) {
  World w(t);
  auto s = w.open(d);
  return drain(*s, t.size() + 2);
}

// Runs k iterations under every interleaving of their events. Iteration i has
// events: open, then (check current, step) x steps[i], then drop. Depth first
// over schedules; every schedule is executed from the start in a fresh world.
static void interleave(const Terms &terms, const std::vector<Desc> &ds, const std::vector<std::vector<std::string>> &want,
                       const std::vector<int> &steps, bool own_transducers, bool twice) {
  int k = (int)ds.size();
  std::vector<int> todo(k);
  u64 total = 0;
  for (int i = 0; i < k; i++) todo[i] = steps[i] + 2;
  std::vector<int> sched;
  auto execute = [&] {
    World w(terms);
    std::vector<std::unique_ptr<AnyTransducer>> own(k);
    std::vector<std::unique_ptr<Stream>> st(k);
    std::vector<int> at(k, 0), ev(k, 0);
    std::unique_ptr<Stream> second;
    auto what = [&] { std::string s; for (int i = 0; i < k; i++) s += (i ? " | " : "") + show(ds[i]); s += " over " + show(terms) + ", schedule"; for (int x : sched) s += " " + std::to_string(x); return s; };
    auto look = [&](int i) {
      bool end = at[i] >= (int)want[i].size();
      MC_CHECK(st[i]->at_end() == end, what() << ": iteration " << i << (end ? " goes on after its last result" : " ends early") << " (after " << at[i] << " results)");
      if (!end) { std::string g = st[i]->get(); MC_CHECK(g == want[i][at[i]], what() << ": iteration " << i << " yields " << mc::q(g) << " as result " << at[i] << " instead of " << mc::q(want[i][at[i]])); }
    };
    u64 h = 3;
    for (int i : sched) {
      int e = ev[i]++;
      if (e == 0) {
        if (twice && i == 1 && second) st[i] = std::move(second);
        else if (twice && i == 0) { auto p = w.tr(ds[0]).open_twice(ds[0].q, ds[0].n); st[0] = std::move(p.first); second = std::move(p.second); }
        else if (own_transducers && ds[i].alg != 3) { own[i] = transducer(ds[i].alg, ds[i].plain, w.dawg->root()); st[i] = own[i]->open(ds[i].q, ds[i].n); }
        else st[i] = w.open(ds[i]);
        look(i);
      } else if (e <= steps[i]) {
        if (!st[i]->at_end() || st[i]->passable()) { st[i]->step(); at[i]++; }
        look(i);
      } else {
        st[i].reset();
      }
      for (int j = 0; j < k; j++) if (st[j]) look(j);      // nobody else was disturbed
      h = mc::mix(h, at[i] * 8 + i);
      mc::transitions();
    }
    // everyone has stopped; the dictionary answers as before
    for (int i = 0; i < k; i++) { auto s = w.open(ds[i]); auto r = drain(*s, terms.size() + 2); MC_CHECK(r == want[i], what() << ": asking again afterwards, query " << i << " gives another answer"); }
    mc::state(mc::mix(h, mc::hash_str(show(terms))));
    mc::trace();
    total++;
  };
  std::function<void()> dfs = [&] {
    bool any = false;
    for (int i = 0; i < k; i++) if (todo[i]) {
      if (twice && i == 1 && sched.empty()) continue;
      any = true;
      todo[i]--; sched.push_back(i);
      dfs();
      sched.pop_back(); todo[i]++;
    }
    if (!any) execute();
  };
  dfs();
  mc::count(0, total);
}

static void c05_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  static const Terms dict = sorted({"", "a", "ab", "ba", "abb"});
  auto descs = std::make_shared<std::vector<Desc>>();
  for (int alg = 0; alg < 3; alg++) for (bool plain : {false, true}) descs->push_back({alg, plain, "ab", (std::size_t)(plain ? 2 : 1)});
  descs->push_back({0, false, "ba", 1});
  descs->push_back({1, false, "ba", 1});
  descs->push_back({2, true, "b", 3});
  descs->push_back({0, true, "", 0});
  descs->push_back({0, false, "zzzz", 1});
  descs->push_back({3, false, "", 0});
  int n = (int)descs->size();
  {
    auto pairs = std::make_shared<std::vector<std::array<int, 3>>>();
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) for (int own = 0; own < 2; own++) pairs->push_back({i, j, own});
    mc::Family f;
    f.name = "pairs";
    f.rule = "all pairs of " + std::to_string(n) + " iterations (queries of each algorithm and format, iteration over the dictionary), sharing a transducer or not; all points at which either is dropped; all interleavings of their steps";
    f.count = pairs->size();
    f.chunk = 1;
    f.case_limit = 120;
    int cap = o.thorough ? 5 : 4;
    f.run = [=](u64 i) {
      auto [x, y, own] = (*pairs)[i];
      std::vector<Desc> ds{(*descs)[x], (*descs)[y]};
      std::vector<std::vector<std::string>> want{alone(dict, ds[0]), alone(dict, ds[1])};
      // one step more than there are results: the end is left alone
      int a = std::min<int>(cap, (int)want[0].size() + 1), b = std::min<int>(cap, (int)want[1].size() + 1);
      if (o.thorough) { for (int s = 0; s <= a; s++) for (int t = 0; t <= b; t++) interleave(dict, ds, want, {s, t}, own, false); }
      else for (auto [s, t] : std::set<std::pair<int, int>>{{a, b}, {a, b / 2}, {a / 2, b}, {0, b}, {a, 0}, {std::min(a, 1), std::min(b, 1)}}) interleave(dict, ds, want, {s, t}, own, false);
      mc::nontrivial();
    };
    f.describe = [=](u64 i) { auto [x, y, own] = (*pairs)[i]; return show((*descs)[x]) + " | " + show((*descs)[y]) + (own ? ", own transducers" : ", shared transducer"); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "same-range";
    f.rule = "two iterations begun from one result object, every interleaving, each algorithm and format";
    f.count = descs->size() - 1;
    f.chunk = 1;
    f.case_limit = 120;
    f.run = [=](u64 i) {
      std::vector<Desc> ds{(*descs)[i], (*descs)[i]};
      auto r = alone(dict, ds[0]);
      int a = std::min<int>(5, (int)r.size());
      interleave(dict, ds, {r, r}, {a, a}, false, true);
      interleave(dict, ds, {r, r}, {a / 2, a}, false, true);
      mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show((*descs)[i]) + " twice"; };
    fs.push_back(f);
  }
  {
    auto triples = std::make_shared<std::vector<std::array<int, 3>>>();
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) for (int k = j; k < n; k++) if (o.thorough || (i * 7 + j * 3 + k) % 4 == 0 || i == j || j == k) triples->push_back({i, j, k});
    mc::Family f;
    f.name = "triples";
    f.rule = std::string(o.thorough ? "all" : "those that repeat a member, and a fixed quarter of the other") + " triples of the iterations on shared transducers, all interleavings of up to two steps each";
    f.count = triples->size();
    f.chunk = 1;
    f.case_limit = 120;
    f.run = [=](u64 i) {
      std::vector<Desc> ds;
      std::vector<std::vector<std::string>> want;
      std::vector<int> st;
      for (int x : (*triples)[i]) { ds.push_back((*descs)[x]); want.push_back(alone(dict, ds.back())); st.push_back(std::min<int>(ds.size() == 1 ? 2 : o.thorough ? 2 : 1, (int)want.back().size())); }
      interleave(dict, ds, want, st, false, false);
      mc::nontrivial();
    };
    f.describe = [=](u64 i) { std::string s; for (int x : (*triples)[i]) s += (s.empty() ? "" : " | ") + show((*descs)[x]); return s; };
    fs.push_back(f);
  }
  {
    // a larger dictionary, one excursion at every point of an iteration
    auto big = std::make_shared<Terms>(sorted(ref::words("ab", 5)));
    for (const char *s : {"abcabcabc", "bcd", "cccccccc", "aabbaabbaabbaabbaabb"}) big->push_back(s);
    *big = sorted(*big);
    auto ds = std::make_shared<std::vector<Desc>>();
    for (int alg = 0; alg < 3; alg++) { ds->push_back({alg, false, "abba", 2}); ds->push_back({alg, true, "babab", SIZE_MAX}); ds->push_back({alg, false, "abcabcabcabc", 4}); }
    ds->push_back({3, false, "", 0});
    int nd = (int)ds->size(), acts = 2 * nd + 4;
    mc::Family f;
    f.name = "excursions";
    f.rule = "each of " + std::to_string(nd) + " iterations over " + std::to_string(big->size()) + " terms, interrupted once at every point by each of " + std::to_string(acts) +
             " actions: another iteration run to its end and beyond on the shared or on an own transducer; the same over another dictionary; saving, loading and destroying the copy; building and destroying other dictionaries; comparing, hashing, printing; membership";
    f.count = (u64)nd * acts;
    f.chunk = 1;
    f.case_limit = 120;
    auto atext = [=](int a) { return a < 2 * nd ? show((*ds)[a / 2]) + (a & 1 ? " (own transducer)" : "") : std::string(a == 2 * nd ? "queries over another dictionary" : a == 2 * nd + 1 ? "saving, loading, destroying the copy" : a == 2 * nd + 2 ? "building and destroying" : "comparing, hashing, printing, membership"); };
    f.run = [=](u64 i) {
      const Desc &a = (*ds)[i / acts];
      int act = (int)(i % acts);
      auto want = alone(*big, a);
      auto wact = act < 2 * nd ? alone(*big, (*ds)[act / 2]) : std::vector<std::string>();
      World w(*big);
      for (std::size_t at = 0; at <= want.size(); at++) {
        auto what = [&] { return show(a) + " over " + std::to_string(big->size()) + " terms, after " + std::to_string(at) + " results: " + atext(act); };
        auto st = w.open(a);
        std::vector<std::string> got;
        for (std::size_t k = 0; k < at; k++) { MC_CHECK(!st->at_end(), what() << ": ends early"); got.push_back(st->get()); st->step(); }
        if (act < 2 * nd) {
          std::unique_ptr<AnyTransducer> own;
          const Desc &b = (*ds)[act / 2];
          std::unique_ptr<Stream> s;
          if (act & 1 && b.alg != 3) { own = transducer(b.alg, b.plain, w.dawg->root()); s = own->open(b.q, b.n); }
          else s = w.open(b);
          auto r = drain(*s, big->size() + 2);
          MC_CHECK(r == wact, what() << " gives another answer than alone");
          if (s->passable()) for (int k = 0; k < 3; k++) { s->step(); MC_CHECK(s->at_end(), what() << ": advanced at its end, it goes on"); }
        } else if (act == 2 * nd) {
          World v({"ab", "abba", "abbb", "c"});
          for (auto &b : *ds) { auto s = v.open(b); auto r = drain(*s, 6); mc::transitions(r.size()); }
        } else if (act == 2 * nd + 1) {
          std::stringstream ss;
          MC_CHECK(ll::serialize_protobuf(w.dawg.get(), ss), what() << ": saving fails");
          DawgPtr c(ll::deserialize_protobuf(ss));
          MC_CHECK(c && *c == *w.dawg, what() << ": the copy differs");
        } else if (act == 2 * nd + 2) {
          DawgPtr x = build({"abba", "babab", "z"}), y = build({});
          Terms bad = {"b", "a"};
          DawgPtr z(ll::sorted_dawg(bad.begin(), bad.end()));
        } else {
          DawgPtr x = build({"abba"});
          std::ostringstream os;
          os << *w.dawg;
          MC_CHECK(!(*w.dawg == *x) && *w.dawg == *w.dawg, what() << ": comparison is wrong");
          (void)std::hash<ll::Dawg>()(*w.dawg);
          for (auto &t : *big) MC_CHECK(w.dawg->contains(t), what() << ": membership is wrong");
        }
        while (!st->at_end()) { got.push_back(st->get()); MC_CHECK(got.size() <= want.size(), what() << ": the iteration does not end"); st->step(); }
        MC_CHECK(got == want, what() << ": the interrupted iteration gives another answer than alone");
        mc::transitions(got.size() + 1);
        mc::trace();
        mc::state(mc::mix(mc::mix(i, at), 41));
      }
      mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show((*ds)[i / acts]) + " interrupted by " + atext((int)(i % acts)); };
    fs.push_back(f);
  }
  {
    // histories: many queries one after another on one transducer, earlier ones abandoned
    static const std::vector<std::pair<std::string, std::size_t>> Q = {{"", 0}, {"ab", 1}, {"ab", 0}, {"ba", 2}, {"abbab", 3}, {"zz", 1}, {"b", SIZE_MAX}};
    int L = o.thorough ? 5 : 4, nq = (int)Q.size() * 3;
    mc::Family f;
    f.name = "query-histories";
    u64 cnt = 6;
    for (int l = 0; l < L; l++) cnt *= nq;
    f.rule = "all sequences of " + std::to_string(L) + " queries on one transducer, each read fully, abandoned after one result or not started, for each algorithm and format; every answer read is compared with the answer alone";
    f.count = cnt;
    f.chunk = 128;
    auto want = std::make_shared<std::map<int, std::vector<std::string>>>();
    f.run = [=](u64 i) {
      int kind = (int)(i % 6);
      u64 k = i / 6;
      int alg = kind / 2; bool plain = kind % 2;
      static std::map<int, std::unique_ptr<World>> worlds;
      auto &w = worlds[0];
      if (!w) w.reset(new World(dict));
      auto tr = transducer(alg, plain, w->dawg->root());
      std::string done;
      for (int l = 0; l < L; l++) {
        int q = (int)(k % nq); k /= nq;
        auto &[s, n] = Q[q / 3];
        int mode = q % 3, key = kind * 100 + q / 3;
        auto it = want->find(key);
        if (it == want->end()) it = want->emplace(key, alone(dict, {alg, plain, s, n})).first;
        std::vector<std::string> got;
        done += " " + mc::q(s) + "/" + std::to_string(n) + (mode == 0 ? "" : mode == 1 ? " (abandoned)" : " (not started)");
        if (mode == 2) { auto t = transducer(alg, plain, w->dawg->root()); continue; }
        auto st = tr->open(s, n);
        if (mode == 1) { if (!st->at_end()) { MC_CHECK(!it->second.empty() && st->get() == it->second[0], ref::alg_name(alg) << " queries" << done << ": the first result differs"); st->step(); } continue; }
        got = drain(*st, dict.size() + 2);
        MC_CHECK(got == it->second, ref::alg_name(alg) << (plain ? " plain" : "") << " queries" << done << ": the last answer has " << got.size() << " results, other than alone");
        mc::transitions(got.size() + 1);
      }
      mc::trace(); mc::nontrivial();
    };
    f.describe = [=](u64 i) { u64 k = i / 6; std::string s = ref::alg_name((int)(i % 6) / 2); for (int l = 0; l < L; l++) { int q = (int)(k % nq); k /= nq; s += " " + mc::q(Q[q / 3].first) + "/" + std::to_string(Q[q / 3].second) + (q % 3 == 1 ? "(abandoned)" : q % 3 == 2 ? "(not started)" : ""); } return s; };
    fs.push_back(f);
  }
  {
    // a dictionary, its transducer and its iterations in the place of earlier ones
    static const Terms U = sorted({"", "a", "ab", "ba", "abb"});
    mc::Family f;
    f.name = "successors";
    f.rule = "all pairs of subsets of " + show(U) + ": each of " + std::to_string(n) + " iterations over the first one, read not at all, once or to its end, all of it destroyed, then the same iteration over the second one, compared with the reference";
    f.count = 32 * 32;
    f.chunk = 4;
    f.run = [=](u64 i) {
      Terms t[2] = {ref::subset(U, i / 32), ref::subset(U, i % 32)};
      for (auto &d : *descs)
        for (int mode = 0; mode < 3; mode++) {
          { World w(t[0]); auto s = w.open(d); if (mode) while (!s->at_end()) { s->get(); s->step(); if (mode == 1) break; } }
          World w(t[1]);
          auto s = w.open(d);
          auto got = drain(*s, 7);
          std::sort(got.begin(), got.end());
          std::vector<std::string> want;
          for (auto &x : t[1]) {
            std::size_t k = d.alg == 3 ? 0 : ref::dist(d.alg, x, d.q);
            if (k <= d.n) want.push_back(d.alg == 3 || d.plain ? x : x + "=" + std::to_string(k));
          }
          std::sort(want.begin(), want.end());
          MC_CHECK(got == want, show(d) << " over " << show(t[1]) << ", after the same over " << show(t[0]) << (mode == 0 ? " (not read)" : mode == 1 ? " (abandoned)" : "") << ", yields " << show(got) << " instead of " << show(want));
          mc::transitions(got.size() + 1); mc::trace();
        }
      mc::state(mc::mix(i, 43)); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show(ref::subset(U, i / 32)) + " then " + show(ref::subset(U, i % 32)); };
    fs.push_back(f);
  }
  {
    // very many open iterations, and very many queries one after another
    static const Terms big = [] { Terms t = ref::words("ab", 4); t.push_back("abcabc"); return sorted(t); }();
    auto ds = std::make_shared<std::vector<Desc>>();
    for (int alg = 0; alg < 3; alg++) { ds->push_back({alg, false, "abba", 2}); ds->push_back({alg, true, "bab", 1}); }
    ds->push_back({3, false, "", 0});
    mc::Family f;
    f.name = "many-open";
    std::vector<int> counts = {2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500};
    if (o.thorough) for (int c : {1000, 1024, 1025, 4097}) counts.push_back(c);
    f.rule = "2 to " + std::to_string(counts.back()) + " iterations open at once over one dictionary, of one kind or of all 7 kinds in turn, advanced round and round, one after another forwards, or one after another backwards, every third one abandoned half-way; each compared with what it yields alone";
    f.count = counts.size() * (ds->size() + 1) * 3;
    f.chunk = 1;
    f.case_limit = 120;
    auto text = [=](u64 i) { return std::to_string(counts[i / 3 / (ds->size() + 1)]) + " open iterations (" + (i / 3 % (ds->size() + 1) == ds->size() ? std::string("all kinds") : show((*ds)[i / 3 % (ds->size() + 1)])) + "), " + (i % 3 == 0 ? "round and round" : i % 3 == 1 ? "forwards" : "backwards"); };
    f.run = [=](u64 i) {
      int order = (int)(i % 3), kind = (int)(i / 3 % (ds->size() + 1)), c = counts[i / 3 / (ds->size() + 1)];
      World w(big);
      std::vector<std::vector<std::string>> want;
      for (auto &d : *ds) want.push_back(alone(big, d));
      auto k_of = [&](int j) { return kind == (int)ds->size() ? j % (int)ds->size() : kind; };
      std::vector<std::unique_ptr<Stream>> st(c);
      std::vector<std::size_t> at(c, 0);
      for (int j = 0; j < c; j++) st[j] = w.open((*ds)[k_of(j)]);
      auto look = [&](int j) {
        auto &wj = want[k_of(j)];
        bool end = at[j] >= wj.size();
        MC_CHECK(st[j]->at_end() == end, text(i) << ": iteration " << j << (end ? " goes on after its last result" : " ends early") << " (after " << at[j] << " results)");
        if (!end) { std::string g = st[j]->get(); MC_CHECK(g == wj[at[j]], text(i) << ": iteration " << j << " yields " << mc::q(g) << " as result " << at[j] << " instead of " << mc::q(wj[at[j]])); }
      };
      auto advance = [&](int j) {          // false when it is over
        if (!st[j]) return false;
        auto &wj = want[k_of(j)];
        look(j);
        if (at[j] >= wj.size() || (j % 3 == 1 && at[j] >= wj.size() / 2)) { st[j].reset(); return false; }
        st[j]->step(); at[j]++;
        mc::transitions();
        return true;
      };
      if (order == 0) { bool any = true; while (any) { any = false; for (int j = 0; j < c; j++) if (advance(j)) any = true; } }
      else for (int j = 0; j < c; j++) while (advance(order == 1 ? j : c - 1 - j)) {}
      mc::state(mc::mix(i, 47)); mc::trace(c); mc::nontrivial();
    };
    f.describe = text;
    fs.push_back(f);
  }
  {
    static const Terms few = sorted({"", "a", "ab", "ba", "abb"});
    auto ds = std::make_shared<std::vector<Desc>>();
    for (int alg = 0; alg < 3; alg++) { ds->push_back({alg, false, "ab", 1}); ds->push_back({alg, true, "ba", 1}); }
    ds->push_back({3, false, "", 0});
    mc::Family f;
    f.name = "many-queries";
    int total = o.thorough ? 300000 : 70000;
    f.rule = "one iteration of each of 7 kinds left open after one result while " + std::to_string(total) + " queries of each kind in turn are run on the same transducer (read fully, abandoned or not read, in turn) and another one of it is begun and read now and then; the open one then goes on";
    f.count = ds->size() * 2;
    f.chunk = 1;
    f.case_limit = 600;
    f.run = [=](u64 i) {
      const Desc &a = (*ds)[i / 2];
      World w(few);
      std::vector<std::vector<std::string>> want;
      for (auto &d : *ds) want.push_back(alone(few, d));
      auto &wa = want[i / 2];
      auto st = w.open(a);
      std::vector<std::string> got;
      got.push_back(st->get()); st->step();
      for (int k = 0; k < total; k++) {
        int kind = i & 1 ? (int)(i / 2) : k % (int)ds->size();
        auto s = w.open((*ds)[kind]);
        if (k % 3 == 0) { auto r = drain(*s, 7); MC_CHECK(r == want[kind], show((*ds)[kind]) << " as query number " << k + 1 << " gives another answer than as the first one"); }
        else if (k % 3 == 1 && !s->at_end()) { MC_CHECK(s->get() == want[kind][0], show((*ds)[kind]) << " as query number " << k + 1 << " begins with another result"); s->step(); }
        if ((k & (k - 1)) == 0) { auto x = w.open(a); MC_CHECK(drain(*x, 7) == wa, show(a) << " gives another answer after " << k + 1 << " queries"); }
        if (k % 1000 == 0) mc::heartbeat();
        mc::transitions();
      }
      while (!st->at_end()) { got.push_back(st->get()); MC_CHECK(got.size() <= wa.size(), show(a) << ": an iteration left open during " << total << " queries does not end"); st->step(); }
      MC_CHECK(got == wa, show(a) << ": an iteration left open during " << total << " queries gives another answer than alone");
      mc::state(mc::mix(i, 53)); mc::trace(total); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show((*ds)[i / 2]) + " left open during many queries" + (i & 1 ? " of its kind" : ""); };
    fs.push_back(f);
  }
}

// ---- C17 ----------------------------------------------------------------------
// Histories over at most one dictionary, two transducers, two iterations. The
// objects are destroyed in every order that keeps an iteration's transducer and
// dictionary alive.
enum { BUILD, BUILD2, EMPTY, REJECT, UNFINISHED, RELOAD, SAVE, TRANS0, TRANS1, OPEN0, OPEN1, WALK, STEP0, STEP1, DROPI0, DROPI1, DROPT0, DROPT1, DROPD, COMPARE, NOPS };
static const char *OPN[] = {"build {a,ab,abb,b,bb}", "build {\"\"}", "build {}", "rejected build", "unfinished build", "save and load", "save", "transducer 0", "transducer 1",
                            "query 0", "query 1", "walk the dictionary", "advance 0", "advance 1", "drop iteration 0", "drop iteration 1", "drop transducer 0", "drop transducer 1", "drop the dictionary", "compare and hash"};

struct Hist {
  int alg;
  DawgPtr d;
  std::unique_ptr<AnyTransducer> t[2];
  std::unique_ptr<Stream> it[2];
  int owner[2] = {-1, -1};       // transducer of the iteration, 2: the dictionary itself
  bool legal(int op) {
    switch (op) {
    case BUILD: case BUILD2: case EMPTY: return !d;
    case REJECT: case UNFINISHED: return true;
    case RELOAD: return d && !t[0] && !t[1] && !it[0] && !it[1];
    case SAVE: case COMPARE: return (bool)d;
    case TRANS0: return d && !t[0];
    case TRANS1: return d && t[0] && !t[1];
    case OPEN0: return t[0] && !it[0];
    case OPEN1: return t[1] && it[0] && !it[1];
    case WALK: return d && !it[1] && it[0];
    case STEP0: return it[0] && !it[0]->at_end();
    case STEP1: return it[1] && !it[1]->at_end();
    case DROPI0: return (bool)it[0];
    case DROPI1: return (bool)it[1];
    case DROPT0: return t[0] && owner[0] != 0 && owner[1] != 0;
    case DROPT1: return t[1] && owner[0] != 1 && owner[1] != 1;
    case DROPD: return d && !t[0] && !t[1] && !it[0] && !it[1];
    }
    return false;
  }
  void apply(int op) {
    switch (op) {
    case BUILD: d = build({"a", "ab", "abb", "b", "bb"}); break;
    case BUILD2: d = build({""}); break;
    case EMPTY: d = build({}); break;
    case REJECT: { Terms bad = {"a", "ab", "b", "abb", "c"}; DawgPtr x(ll::sorted_dawg(bad.begin(), bad.end())); MC_CHECK(!x, "a descending sequence is accepted"); break; }
    case UNFINISHED: { ll::SortedDawg x; x.init(); for (const char *s : {"", "a", "abc", "bbc", "cbc"}) x.add(s); x.add("a"); break; }
    case RELOAD: { std::stringstream s; MC_CHECK(ll::serialize_protobuf(d.get(), s), "saving fails"); d.reset(ll::deserialize_protobuf(s)); MC_CHECK(d != nullptr, "loading fails"); break; }
    case SAVE: { std::stringstream s; MC_CHECK(ll::serialize_protobuf(d.get(), s), "saving fails"); break; }
    case TRANS0: t[0] = transducer(alg, false, d->root()); break;
    case TRANS1: t[1] = transducer((alg + 1) % 3, true, d->root()); break;
    case OPEN0: it[0] = t[0]->open("ab", 1); owner[0] = 0; break;
    case OPEN1: it[1] = t[1]->open("ba", 2); owner[1] = 1; break;
    case WALK: it[1].reset(new DictStream(*d)); owner[1] = 2; break;
    case STEP0: it[0]->get(); it[0]->step(); break;
    case STEP1: it[1]->get(); it[1]->step(); break;
    case DROPI0: it[0].reset(); owner[0] = -1; break;
    case DROPI1: it[1].reset(); owner[1] = -1; break;
    case DROPT0: t[0].reset(); break;
    case DROPT1: t[1].reset(); break;
    case DROPD: d.reset(); break;
    case COMPARE: { DawgPtr e = build({"a", "b"}); (void)(*d == *e); (void)std::hash<ll::Dawg>()(*d); std::ostringstream os; os << *d; d->contains("ab"); break; }
    }
  }
  // what is left, in one of the legal orders
  void finish(int order) {
    if (order & 1) { it[1].reset(); it[0].reset(); } else { it[0].reset(); it[1].reset(); }
    if (order & 2) { t[1].reset(); t[0].reset(); } else { t[0].reset(); t[1].reset(); }
    d.reset();
  }
};

// ---- copies: what the compiler lets a user copy or move must survive it ----------
// Steps over up to three objects of one type; `Model` is what each should hold.
template <class It, class End, class Get> static void copies_of(const std::function<std::unique_ptr<It>()> &make, const End &at_end, const Get &get,
                                                                const std::vector<std::string> &want, std::size_t depth, const std::string &what) {
  enum { COPY, ASSIGN, MOVE, MOVE_ASSIGN, STEP, DROP, KINDS };
  static const char *name[] = {"copy", "assign", "move", "move-assign", "advance", "drop"};
  struct S { std::unique_ptr<It> it; std::size_t pos = 0; bool hollow = false; };   // hollow: moved from
  std::vector<std::array<int, 3>> seq;
  auto text = [&] { std::string r = what + ":"; for (auto &o : seq) r += std::string(" ") + name[o[0]] + "(" + std::to_string(o[1]) + "," + std::to_string(o[2]) + ")"; return r; };
  auto run = [&](bool &legal, std::size_t &held) {
    S s[3];
    s[0].it = make();
    legal = true;
    for (auto &[k, a, b] : seq) {
      S &x = s[a], &y = s[b];
      bool ok = x.it && !x.hollow;
      if (k == COPY || k == MOVE) ok = ok && !y.it && a != b;
      else if (k == ASSIGN) ok = ok && y.it;                        // also to itself
      else if (k == MOVE_ASSIGN) ok = ok && y.it && a != b;
      else if (k == STEP) ok = ok && b == 0 && x.pos < want.size();
      else ok = x.it && b == 0;
      if (!ok) { legal = false; return; }
      if (k == COPY) { if constexpr (std::is_copy_constructible_v<It>) { y.it = std::make_unique<It>(*x.it); y.pos = x.pos; y.hollow = false; } else { legal = false; return; } }
      if (k == ASSIGN) { if constexpr (std::is_copy_assignable_v<It>) { *y.it = *x.it; y.pos = x.pos; y.hollow = false; } else { legal = false; return; } }
      if (k == MOVE) { if constexpr (std::is_move_constructible_v<It>) { y.it = std::make_unique<It>(std::move(*x.it)); y.pos = x.pos; y.hollow = false; x.hollow = true; } else { legal = false; return; } }
      if (k == MOVE_ASSIGN) { if constexpr (std::is_move_assignable_v<It>) { *y.it = std::move(*x.it); y.pos = x.pos; y.hollow = false; x.hollow = true; } else { legal = false; return; } }
      if (k == STEP) { ++*x.it; x.pos++; }
      if (k == DROP) x.it.reset();
    }
    held = 0;
    for (auto &x : s)                                              // what each yields from here on
      if (x.it && !x.hollow) {
        held++;
        for (std::size_t p = x.pos;; p++) {
          bool end = at_end(*x.it);
          MC_CHECK(end == (p == want.size()), text() << ": one of them " << (end ? "ends after " : "goes on after ") << p << " of " << want.size() << " results");
          if (end) break;
          MC_CHECK(get(*x.it) == want[p], text() << ": result " << p << " of one of them is " << mc::q(get(*x.it)) << " instead of " << mc::q(want[p]));
          ++*x.it;
        }
      }
  };
  std::function<void()> dfs = [&] {
    bool legal = false;
    std::size_t held = 0;
    long before = alloc::live;
    run(legal, held);
    if (!legal) return;
    long after = alloc::live;
    if (after != before) { before = alloc::live; run(legal, held); after = alloc::live; }
    MC_CHECK(after == before, text() << ": " << after - before << " blocks are left allocated");
    mc::trace(); mc::transitions(seq.size()); mc::state(mc::hash_str(text()));
    if (held > 1) mc::nontrivial();
    if (seq.size() == depth) return;
    for (int k = 0; k < KINDS; k++)
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) {
          if (k >= STEP && b) continue;
          seq.push_back({k, a, b});
          dfs();
          seq.pop_back();
        }
  };
  dfs();
}
// A range of results as an iterator over its own positions: begun afresh for each look.
template <class R> struct Ranged {
  ll::LazyIterator<R> range;
  std::size_t pos = 0;
  Ranged &operator++() { pos++; return *this; }
};
template <ll::Algorithm A, class R> static void copies_with(ll::Dawg *d, const std::string &q, std::size_t n, std::size_t depth, const std::string &what) {
  ll::Transducer<A, R> t(d->root());
  std::vector<std::string> want;
  for (const R &c : t(q, n)) want.push_back(text(c));
  auto range = t(q, n);
  auto end = range.end();
  using Q = ll::LazyQuery<R>;
  if constexpr (std::is_copy_constructible_v<Q> || std::is_move_constructible_v<Q>)
    copies_of<Q>([&] { return std::unique_ptr<Q>(new Q(range.begin())); }, [&](Q &x) { return x == end; }, [](Q &x) { return text(*x); }, want, depth, what + ", iterators");
  using I = Ranged<R>;
  auto at = [&](I &x, bool want_end) {
    auto it = x.range.begin();
    auto e = x.range.end();
    for (std::size_t k = 0; k < x.pos; k++) ++it;
    bool over = it == e;
    return want_end ? std::string(over ? "end" : "") : text(*it);
  };
  copies_of<I>([&] { return std::unique_ptr<I>(new I{t(q, n)}); }, [&](I &x) { return at(x, true) == "end"; }, [&](I &x) { return at(x, false); }, want, depth, what + ", results");
  using X = ll::Transducer<A, R>;
  if constexpr (std::is_copy_constructible_v<X>) {
    struct TX { X t; std::size_t pos = 0; TX &operator++() { pos++; return *this; } };
    auto look = [&](TX &x) { std::vector<std::string> r; for (const R &c : x.t(q, n)) r.push_back(text(c)); return r; };
    copies_of<TX>([&] { return std::unique_ptr<TX>(new TX{X(d->root())}); }, [&](TX &x) { return x.pos >= look(x).size(); }, [&](TX &x) { return look(x)[x.pos]; }, want, depth, what + ", transducers");
  }
}
template <class I> static void copies_of_iterators(ll::Dawg *d, const Terms &terms, std::size_t depth, const std::string &what) {
  if constexpr (std::is_copy_constructible_v<I> || std::is_move_constructible_v<I>) {
    auto end = d->end();
    copies_of<I>([&] { return std::unique_ptr<I>(new I(d->begin())); }, [&](I &x) { return x == end; }, [](I &x) { return *x; }, iterate(*d, terms.size()), depth, what + ", iterators of the dictionary");
  }
}
template <class D> static void copies_of_dictionaries(ll::Dawg *d, const Terms &terms, std::size_t depth, const std::string &what) {
  if constexpr (std::is_copy_constructible_v<D>) {
    struct DX { D d; std::size_t pos = 0; DX &operator++() { pos++; return *this; } };
    copies_of<DX>([&] { return std::unique_ptr<DX>(new DX{D(*dynamic_cast<D *>(d))}); },
                  [&](DX &x) { return x.pos >= iterate(x.d, 99).size(); }, [&](DX &x) { return iterate(x.d, 99)[x.pos]; }, iterate(*d, terms.size()), depth, what + ", dictionaries");
  }
}
static void copies(const Terms &terms, int alg, bool plain, const std::string &q, std::size_t n, std::size_t depth) {
  DawgPtr d = build(terms);
  std::string what = std::string("copies over ") + show(terms);
  if (alg == 3) {
    copies_of_iterators<ll::DawgIterator>(d.get(), terms, depth, what);
    copies_of_dictionaries<ll::SortedDawg>(d.get(), terms, 3, what);
    return;
  }
  using A = ll::Algorithm;
  using C = ll::Candidate;
  if (alg == 0) plain ? copies_with<A::STANDARD, std::string>(d.get(), q, n, depth, what) : copies_with<A::STANDARD, C>(d.get(), q, n, depth, what);
  if (alg == 1) plain ? copies_with<A::TRANSPOSITION, std::string>(d.get(), q, n, depth, what) : copies_with<A::TRANSPOSITION, C>(d.get(), q, n, depth, what);
  if (alg == 2) plain ? copies_with<A::MERGE_AND_SPLIT, std::string>(d.get(), q, n, depth, what) : copies_with<A::MERGE_AND_SPLIT, C>(d.get(), q, n, depth, what);
}

static void c17_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  int depth = o.thorough ? 8 : 6;
  // sequences are enumerated by depth first search over the legal operations; the
  // index selects the first three operations and the algorithm
  mc::Family f;
  f.name = "histories";
  f.rule = "all legal sequences of up to " + std::to_string(depth) + " of " + std::to_string((int)NOPS) + " operations (build, reject, save, load, query, advance, abandon, destroy), each algorithm first; what is left at the end destroyed in every legal order";
  f.count = (u64)3 * NOPS * NOPS * NOPS;
  f.chunk = 4;
  f.case_limit = 300;
  f.run = [=](u64 i) {
    int alg = (int)(i % 3);
    std::vector<int> seq{(int)(i / 3 % NOPS), (int)(i / 3 / NOPS % NOPS), (int)(i / 3 / NOPS / NOPS % NOPS)};
    auto text = [&](int order) { std::string s = std::string(ref::alg_name(alg)) + ":"; for (int op : seq) s += std::string(" ") + OPN[op] + ";"; return s + " then destroy in order " + std::to_string(order); };
    // returns false when some operation of the sequence is not legal
    auto execute = [&](int order) {
      Hist h;
      h.alg = alg;
      for (int op : seq) { if (!h.legal(op)) return false; h.apply(op); }
      h.finish(order);
      return true;
    };
    // the operations legal after seq
    auto enabled = [&](std::vector<int> &next) {
      Hist h;
      h.alg = alg;
      for (int op : seq) { if (!h.legal(op)) return false; h.apply(op); }
      for (int op = 0; op < NOPS; op++) if (h.legal(op)) next.push_back(op);
      u64 k = (u64)(bool)h.d * 64 + (bool)h.t[0] * 32 + (bool)h.t[1] * 16 + (bool)h.it[0] * 8 + (bool)h.it[1] * 4 + alg;
      k = mc::mix(k, h.d ? h.d->size() : 99); k = mc::mix(k, h.it[0] ? h.it[0]->at_end() : 9); k = mc::mix(k, h.it[1] ? h.it[1]->at_end() : 9); k = mc::mix(k, (h.owner[0] + 1) * 4 + h.owner[1] + 1);
      mc::state(k);
      return true;
    };
    std::function<void()> dfs = [&] {
      std::vector<int> next;
      if (!enabled(next)) return;
      int orders = 4;
      for (int order = 0; order < orders; order++) {
        long before = alloc::live;
        execute(order);
        long after = alloc::live;
        if (after != before) {       // one-time set-up of the libraries is not a leak: again
          before = alloc::live;
          execute(order);
          after = alloc::live;
          MC_CHECK(after == before, text(order) << ": " << after - before << " blocks are left allocated");
        }
        mc::trace();
        // destroying in another order makes no difference when at most one of each is left
        if (order == 0) { Hist h; h.alg = alg; for (int op : seq) h.apply(op); if (!(h.it[0] && h.it[1]) && !(h.t[0] && h.t[1])) orders = 1; }
      }
      mc::nontrivial();
      mc::transitions(seq.size());
      if ((int)seq.size() >= depth) return;
      for (int op : next) { seq.push_back(op); dfs(); seq.pop_back(); }
    };
    dfs();
  };
  f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + ": " + OPN[i / 3 % NOPS] + "; " + OPN[i / 3 / NOPS % NOPS] + "; " + OPN[i / 3 / NOPS / NOPS % NOPS] + "; and all continuations"; };
  fs.push_back(f);
  {
    // every way to fail or finish a build, every query abandoned at every point
    Terms u = sorted(ref::words("ab", 2));
    mc::Family g;
    g.name = "abandon";
    g.rule = "all subsets of the strings over {a, b} up to length 2; every algorithm, four queries, bounds 0..3 abandoned after every number of results; iteration abandoned at every point";
    g.count = 128;
    g.chunk = 1;
    g.run = [=](u64 i) {
      Terms t = ref::subset(u, i);
      for (int alg = 0; alg < 3; alg++)
        for (const char *q : {"", "a", "ba", "abab"})
          for (std::size_t n = 0; n < 4; n++)
            for (std::size_t stop = 0;; stop++) {
              long before = alloc::live;
              bool ended = false;
              auto run = [&] {
                DawgPtr d = build(t);
                auto tr = transducer(alg, stop & 1, d->root());
                auto s = tr->open(q, n);
                std::size_t k = 0;
                while (!s->at_end() && k < stop) { s->get(); s->step(); k++; }
                ended = s->at_end();
                DictStream ds(*d);
                for (k = 0; k < stop && !ds.at_end(); k++) ds.step();
              };
              run();
              long after = alloc::live;
              if (after != before) { before = alloc::live; run(); after = alloc::live; }
              MC_CHECK(after == before, ref::alg_name(alg) << " query " << mc::q(q) << " within " << n << " over " << show(t) << " abandoned after " << stop << " results leaves " << after - before << " blocks allocated");
              mc::transitions(stop + 1); mc::trace();
              if (ended) break;
              MC_CHECK(stop < 20, "the query does not end");
            }
      mc::state(mc::mix(i, 77)); mc::nontrivial();
    };
    g.describe = [=](u64 i) { return show(ref::subset(u, i)); };
    fs.push_back(g);
  }
  {
    static const std::vector<std::pair<std::string, std::size_t>> Q = {{"", 1}, {"ab", 1}, {"ba", 2}, {std::string(40, 'a'), 40}};
    static const std::vector<Terms> D = {{"", "a", "ab", "bb"}, {"a", "abb", std::string(30, 'a'), std::string(30, 'a') + "b"}, {}};
    std::size_t depth = o.thorough ? 4 : 3;
    mc::Family g;
    g.name = "copies";
    g.rule = "every sequence of up to " + std::to_string(depth) + " copies, assignments, moves, advances and drops among three results of one query (and three iterators, transducers, dictionaries, as far as the compiler lets them be copied), 3 dictionaries x 4 queries x algorithms x formats; each must go on as if alone";
    g.count = D.size() * (Q.size() * 6 + 1);
    g.chunk = 1;
    g.case_limit = 300;
    g.run = [=](u64 i) {
      const Terms t = sorted(D[i % D.size()]);
      u64 k = i / D.size();
      if (k == Q.size() * 6) copies(t, 3, false, "", 0, depth);
      else copies(t, (int)(k % 3), k / 3 % 2, Q[k / 6].first, Q[k / 6].second, depth);
    };
    g.describe = [=](u64 i) { u64 k = i / D.size(); return show(D[i % D.size()]) + (k == Q.size() * 6 ? std::string(": the dictionary") : ": " + mc::q(Q[k / 6].first) + " " + ref::alg_name((int)(k % 3))); };
    fs.push_back(g);
  }
  {
    // much of everything: more results, longer terms, wider nodes, longer histories
    mc::Family g;
    g.name = "large";
    static const std::vector<std::pair<std::string, std::size_t>> Q = {{"", 0}, {"", 5}, {"0500", 1}, {"aaaa", 2}, {std::string(300, 'a'), 3}, {std::string(700, 'x'), 1}, {"\x80", 2}, {"abcab", 9}};
    g.rule = "five larger dictionaries (1500 numbers, prefixes of a term of 300 characters, all pairs of 60 bytes, wide shared nodes, 40 terms of 300 characters with common ends), each algorithm and format, " + std::to_string(Q.size()) +
             " queries; abandoned before the first, after the first, second, 100th, 1000th result or read to the end; the dictionary itself likewise; loaded, and with one of the queries also built and refused halfway";
    g.count = 5 * 6 * Q.size() * 6;
    g.chunk = 2;
    g.case_limit = 200;
    g.run = [=](u64 i) {
      static const std::size_t stops[] = {0, 1, 2, 100, 1000, SIZE_MAX};
      u64 k = i;
      std::size_t stop = stops[k % 6]; k /= 6;
      auto &[q, n] = Q[k % Q.size()]; k /= Q.size();
      int alg = (int)(k % 3); k /= 3;
      bool plain = k % 2; k /= 2;
      Terms t;
      if (k == 0) for (int v = 0; v < 1500; v++) t.push_back(padded(v * 3, 4));
      if (k == 1) { std::string s; for (int v = 0; v < 300; v++) { s += (char)('a' + v % 3); t.push_back(s); } }
      if (k == 2) for (int x = 0; x < 60; x++) for (int y = 0; y < 60; y++) t.push_back(std::string{(char)(x * 4), (char)(y * 4)});
      if (k == 3) for (char p : {'p', 'q', 'r', 's'}) for (int c = 0; c < 256; c++) t.push_back(std::string(1, p) + (char)c + "yz");
      if (k == 4) { std::string tail; for (int v = 0; v < 300; v++) tail += (char)('a' + v * v % 13); for (int v = 0; v < 40; v++) t.push_back(padded(v, 2) + tail); }
      t = sorted(t);
      auto run = [&](bool loaded) {
        static std::map<u64, std::string> saves;
        DawgPtr d;
        if (!loaded || !saves.count(k)) {
          d = build(t);
          std::stringstream ss;
          MC_CHECK(ll::serialize_protobuf(d.get(), ss), "saving fails");
          if (!saves.count(k)) saves[k] = ss.str();
        }
        if (loaded) {
          std::stringstream ss(saves[k]);
          d.reset(ll::deserialize_protobuf(ss));
          MC_CHECK(d != nullptr, "loading fails");
        }
        auto tr = transducer(alg, plain, d->root());
        auto s = tr->open(q, n);
        for (std::size_t r = 0; r < stop && !s->at_end(); r++) s->step();
        mc::heartbeat();
        DictStream ds(*d);
        for (std::size_t r = 0; r < stop && !ds.at_end(); r++) ds.step();
        if (&q != &Q[0].first) return;
        Terms bad = t;
        std::size_t at = std::min(stop, t.size() - 1);
        bad[at] = at ? std::string() : "\xff\xff";
        DawgPtr none(ll::sorted_dawg(bad.begin(), bad.end()));
        MC_CHECK(!none, "a descending sequence is accepted");
        mc::heartbeat();
      };
      for (bool loaded : {true, false}) {
        if (!loaded && &q != &Q[0].first) continue;      // built ones: with one of the queries
        long before = alloc::live;
        run(loaded);
        long after = alloc::live;
        if (after != before) { before = alloc::live; run(loaded); after = alloc::live; }
        MC_CHECK(after == before, ref::alg_name(alg) << " query " << mc::q(q) << " within " << n << " over " << (loaded ? "loaded " : "") << "dictionary " << k << " abandoned after " << stop << " results leaves " << after - before << " blocks allocated");
        mc::transitions(4); mc::trace();
      }
      mc::state(mc::mix(i, 78)); mc::nontrivial();
    };
    g.describe = [=](u64 i) { return "larger dictionary " + std::to_string(i / 6 / Q.size() / 6) + ", case " + std::to_string(i); };
    fs.push_back(g);
  }
}

int main(int argc, char **argv) {
  std::vector<std::string> names;
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop") && !strcmp(argv[i + 1], "C05")) names = {"n_schedules"};
  return mc::drive(argc, argv, [](const mc::Options &o) {
    std::vector<mc::Family> fs;
    if (o.prop == "C04") { c04_families(fs, o); mc::add_reused(fs, {"dictionaries"}); }
    if (o.prop == "C05") { c05_families(fs, o); mc::add_reused(fs, {"successors", "query-histories"}); }
    if (o.prop == "C17") { c17_families(fs, o); mc::add_reused(fs, {"histories"}); }
    return fs;
  }, names);
}
