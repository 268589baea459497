// C10, C11, C12, C13, C18, C22: dictionaries, their graphs, equality, hash codes.
#include "alloc.h"
#include "dictlib.h"
#include <limits.h>
#include "MurmurHash2.h"
#include "liblevenshtein/collection/transition.h"
#include "liblevenshtein/distance/symmetric_pair.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/transducer.h"

using namespace dl;
namespace lld = liblevenshtein::distance;

static const Terms U_AB3 = sorted(ref::words("ab", 3));
static const Terms U_ABC2 = sorted(ref::words("abc", 2));
static const std::string Z1(1, '\0');
static const Terms U_BYTES = sorted({"", Z1, Z1 + Z1, "\x7f", "\x80", "\xff", std::string("\xff") + Z1, "\x7f\x80", "\x80\x7f", "\xff\xff", "a\xff", "\xff""a",
                                     Z1 + "\xff"});
static const Terms U_SMALL = sorted({"", "a", "b", "ab", "ba", "aab", "bab", "\xff", "\x7f"});

// Chains and shared tails: term shapes that force sharing at several depths.
static const Terms U_TAILS = sorted({"axyz", "bxyz", "cxyz", "ayz", "byz", "axy", "bxy", "xyz", "yz", "z", "axyzz", "dxyz"});

// ---- ways to obtain the same dictionary --------------------------------------
enum Route { VECTOR, LIST, SET, ADD, ROUTES };
static const char *route_name(int r) { return r == VECTOR ? "vector" : r == LIST ? "list" : r == SET ? "set" : "add"; }
static DawgPtr build_via(int route, Terms seq) {
  ll::SortedDawg *d = nullptr;
  if (route == VECTOR) d = ll::sorted_dawg(seq.begin(), seq.end());
  else if (route == LIST) { std::list<std::string> l(seq.begin(), seq.end()); d = ll::sorted_dawg(l.begin(), l.end()); }
  else if (route == SET) { std::set<std::string> s(seq.begin(), seq.end()); d = ll::sorted_dawg(s.begin(), s.end()); }
  else {
    d = new ll::SortedDawg();
    DawgPtr own(d);
    d->init();
    for (auto &t : seq) MC_CHECK(d->add(t), "add(" << mc::q(t) << ") of ascending terms " << show(seq) << " is refused");
    d->finish();
    d->clean_up();
    own.release();
  }
  MC_CHECK(d != nullptr, "ascending terms from a " << route_name(route) << " were refused: " << show(seq));
  return DawgPtr(d);
}

// A dictionary built one term at a time and looked at in between: after each step of
// `mask` the observers are called, whose answers are not judged (the last terms are not
// attached yet) but which must not disturb what is built.
static DawgPtr build_observed(const Terms &terms, unsigned mask) {
  auto *d = new ll::SortedDawg();
  DawgPtr own(d);
  auto look = [&] {
    volatile std::size_t sink = std::hash<ll::Dawg>()(*d) + std::hash<ll::DawgNode>()(*d->root()) + (*d == *d) + d->contains("a") + d->size();
    sink = iterate(*d, terms.size() + 1).size();
    sink = graph_of(d->root()).nodes.size();
    std::ostringstream os;
    ll::serialize_protobuf(d, os);
    (void)sink;
  };
  d->init();
  for (std::size_t k = 0; k < terms.size(); k++) {
    if (mask >> k & 1) look();
    MC_CHECK(d->add(terms[k]), "add(" << mc::q(terms[k]) << ") of ascending terms " << show(terms) << " is refused");
  }
  if (mask >> terms.size() & 1) look();
  d->finish();
  if (mask >> (terms.size() + 1) & 1) look();
  d->clean_up();
  if (mask >> (terms.size() + 2) & 1) look();
  return own;
}

using Checker = std::function<void(const ll::Dawg &, const Terms &, const Terms &probes, const std::string &)>;

static void check_c10(const ll::Dawg &d, const Terms &terms, const Terms &probes, const std::string &what) {
  mc::state(check_holds(d, terms, probes, what));
  mc::trace();
  if (terms.size() > 1) mc::nontrivial();
}

static void check_c12(const ll::Dawg &d, const Terms &terms, const Terms &, const std::string &what) {
  Graph g = graph_of(d.root());
  std::map<std::pair<bool, std::vector<std::pair<unsigned char, int>>>, int> ids;
  auto cls = classes_of(g, ids);
  auto label = [&](int i) {   // some path to node i
    std::vector<std::pair<int, unsigned char>> from(g.nodes.size(), {-1, 0});
    std::vector<int> q{0};
    for (std::size_t k = 0; k < q.size(); k++)
      for (auto &[c, v] : g.edges[q[k]]) if (v && from[v].first < 0) { from[v] = {q[k], c}; q.push_back(v); }
    std::string s;
    for (int u = i; u > 0; u = from[u].first) s.insert(s.begin(), (char)from[u].second);
    return mc::q(s);
  };
  std::map<int, int> first;
  for (std::size_t i = 0; i < g.nodes.size(); i++) {
    auto [it, fresh] = first.emplace(cls[i], (int)i);
    MC_CHECK(fresh, what << ": the nodes reached by " << label(it->second) << " and " << label((int)i) << " accept the same suffixes; terms " << show(terms));
    MC_CHECK(i == 0 || g.final[i] || !g.edges[i].empty(), what << ": the node reached by " << label((int)i) << " leads to no term; terms " << show(terms));
  }
  std::size_t want = minimal_states(terms);
  MC_CHECK(g.nodes.size() == want, what << ": " << g.nodes.size() << " nodes instead of " << want << " for " << show(terms));
  mc::state(mc::mix(first.size(), mc::hash_str(show(terms))));
  mc::transitions(g.nodes.size() + terms.size());
  mc::trace();
  if (want > 2) mc::nontrivial();
}

static void add_subsets(std::vector<mc::Family> &fs, const std::string &name, const Terms &u, Terms probes, int route, Checker chk) {
  mc::Family f;
  f.name = name;
  f.rule = "all subsets of " + show(u) + ", added through " + route_name(route);
  f.count = 1ULL << u.size();
  f.chunk = 64;
  f.run = [=](u64 i) {
    Terms t = ref::subset(u, i);
    DawgPtr d = build_via(route, t);
    chk(*d, t, probes, "dictionary built through " + std::string(route_name(route)));
  };
  f.describe = [=](u64 i) { return show(ref::subset(u, i)); };
  fs.push_back(f);
}

// Non-descending sequences over u of exactly the lengths up to L, via an index.
static std::shared_ptr<std::vector<std::vector<int>>> multisets(int n, int L) {
  auto r = std::make_shared<std::vector<std::vector<int>>>();
  std::vector<std::vector<int>> layer{{}};
  r->push_back({});
  for (int l = 1; l <= L; l++) {
    std::vector<std::vector<int>> next;
    for (auto &b : layer) for (int i = b.empty() ? 0 : b.back(); i < n; i++) { auto c = b; c.push_back(i); next.push_back(c); }
    r->insert(r->end(), next.begin(), next.end());
    layer.swap(next);
  }
  return r;
}

static std::string padded(u64 v, int w) { std::string s = std::to_string(v); return std::string(w > (int)s.size() ? w - s.size() : 0, '0') + s; }

static void content_families(std::vector<mc::Family> &fs, const mc::Options &o, Checker chk, bool with_repeats) {
  Terms p_ab = ref::words("ab", 4), p_abc = ref::words("abc", 3);
  Terms p_bytes = U_BYTES;
  for (auto &a : U_BYTES) for (auto &b : U_BYTES) p_bytes.push_back(a + b);
  p_bytes = sorted(p_bytes);
  add_subsets(fs, "subsets-bytes", U_BYTES, p_bytes, VECTOR, chk);
  add_subsets(fs, "subsets-tails", U_TAILS, U_TAILS, LIST, chk);
  add_subsets(fs, "subsets-abc2", U_ABC2, p_abc, SET, chk);
  add_subsets(fs, "subsets-ab3", U_AB3, p_ab, ADD, chk);
  if (o.thorough) add_subsets(fs, "subsets-ab3-vector", U_AB3, p_ab, VECTOR, chk);
  {
    // dictionaries that are looked at while they are built
    Terms u = {"", "a", "ab", "abb", "b", "bb", "cb", "cbb"};
    int most = o.thorough ? 6 : 4;
    auto sets = std::make_shared<std::vector<Terms>>();
    for (auto &x : ref::subsets_upto((int)u.size(), most)) { Terms t; for (int k : x) t.push_back(u[k]); sets->push_back(sorted(t)); }
    mc::Family f;
    f.name = "observed-growth";
    f.rule = "every set of up to " + std::to_string(most) + " of 8 terms with common prefixes and tails, added one by one, with every choice of the moments (before each addition, before and after finishing, at the end) at which the unfinished dictionary is hashed, compared, iterated, walked and saved";
    f.count = sets->size();
    f.chunk = 2;
    f.run = [=](u64 i) {
      const Terms &t = (*sets)[i];
      for (unsigned mask = 0; mask < 8u << t.size(); mask++) {
        DawgPtr d = build_observed(t, mask);
        chk(*d, t, u, "built while observed at steps " + std::to_string(mask));
        mc::transitions(t.size());
      }
    };
    f.describe = [=](u64 i) { return show((*sets)[i]) + " observed while built"; };
    fs.push_back(f);
  }
  {
    int L = o.thorough ? 7 : 5;
    auto ms = multisets((int)U_SMALL.size(), L);
    mc::Family f;
    f.name = "sequences";
    f.rule = "all non-descending sequences of up to " + std::to_string(L) + " of the terms " + show(U_SMALL) + " (repeats included), through vector, list, set and add";
    f.count = ms->size();
    f.run = [=](u64 i) {
      Terms seq;
      for (int k : (*ms)[i]) seq.push_back(U_SMALL[k]);
      Terms t = sorted(seq);
      if (!with_repeats && t.size() != seq.size()) return;
      for (int r = 0; r < ROUTES; r++) {
        DawgPtr d = build_via(r, seq);
        chk(*d, t, U_SMALL, std::string("sequence ") + show(seq) + " through " + route_name(r));
      }
    };
    f.describe = [=](u64 i) { Terms s; for (int k : (*ms)[i]) s.push_back(U_SMALL[k]); return show(s); };
    f.chunk = 16;
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "byte-labels";
    f.rule = "for every pair of byte values x, y: the dictionaries {x, y} and {x, xy, yx, yy}";
    f.count = 256;
    f.run = [=](u64 i) {
      for (int j = 0; j < 256; j++) {
        std::string x(1, (char)i), y(1, (char)j);
        for (Terms t : {Terms{x, y}, Terms{x, x + y, y + x, y + y}}) {
          t = sorted(t);
          Terms probes = {"", x, y, x + x, x + y, y + x, y + y, std::string(1, (char)(i ^ 0x80)), std::string(1, (char)(i + 1)), std::string(1, (char)(j - 1))};
          DawgPtr d = build(t);
          chk(*d, t, probes, "two-byte dictionary");
        }
      }
    };
    f.describe = [](u64 i) { return "byte " + std::to_string(i); };
    f.chunk = 2;
    fs.push_back(f);
  }
  {
    u64 max = o.thorough ? 2200 : 1100;
    mc::Family f;
    f.name = "sizes";
    f.rule = "for every k up to " + std::to_string(max) + ": the first k five-digit numbers";
    f.count = max + 1;
    f.run = [=](u64 k) {
      Terms t;
      for (u64 v = 0; v < k; v++) t.push_back(padded(v, 5));
      DawgPtr d = build(t);
      chk(*d, t, {padded(k, 5), "", "0000", "000000", padded(k ? k - 1 : 0, 4)}, "numbers below " + std::to_string(k));
    };
    f.describe = [](u64 k) { return std::to_string(k) + " numbers"; };
    f.chunk = 4;
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "lengths";
    f.rule = "for every length l up to 260: one term of that length; and two terms of that length that differ in the first byte only";
    f.count = 522;
    f.run = [=](u64 i) {
      std::size_t l = i / 2;
      Terms t;
      std::string s;
      for (std::size_t k = 0; k < l; k++) s += (char)('a' + (k * k + k / 3) % 5);
      t.push_back(s);
      if (i & 1) {
        if (!l) return;
        std::string z = s; z[0] = 'z';
        t.push_back(z);
        z.pop_back();
        t.push_back(z);
      }
      t = sorted(t);
      DawgPtr d = build(t);
      chk(*d, t, {s + "a", s.substr(0, l / 2), l ? s.substr(0, l - 1) : "", l ? s.substr(1) : ""}, "length " + std::to_string(l));
    };
    f.describe = [](u64 i) { return "length " + std::to_string(i / 2) + (i & 1 ? ", shared tail" : ""); };
    f.chunk = 4;
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "wide-nodes";
    f.rule = "for every w up to 256: three prefixes with the same w continuations (labels in steps of 1 and of 167), the middle node final or not, and one prefix with one continuation less";
    f.count = 256 * 2;
    f.chunk = 4;
    f.run = [=](u64 i) {
      int w = (int)(i / 2) + 1, step = i & 1 ? 167 : 1;
      for (int fin = 0; fin < 2; fin++) {
        Terms t;
        for (char p : {'p', 'q', '\xf0', 'r'}) {
          if (fin) t.push_back(std::string(1, p));
          for (int k = 0; k < w - (p == 'r'); k++) t.push_back(std::string(1, p) + (char)((k * step) & 255));
        }
        t = sorted(t);
        DawgPtr d = build(t);
        chk(*d, t, {"p", "q", "", std::string("r") + (char)(((w - 1) * step) & 255), std::string("p") + (char)((w * step) & 255), "rr"}, std::to_string(w) + " continuations");
      }
    };
    f.describe = [](u64 i) { return std::to_string(i / 2 + 1) + " continuations"; };
    fs.push_back(f);
  }
  {
    bool T = o.thorough;
    mc::Family f;
    f.name = "long-terms";
    f.rule = "one, two and three terms of lengths 300 to " + std::string(T ? "16385" : "4098") + " around powers of two and tens: alone, with a shared tail, with a shared head, as prefixes of one another";
    std::vector<int> lens = {300, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 4095, 4096, 4097};
    if (T) lens.insert(lens.end(), {8191, 8192, 8193, 8194, 10000, 10001, 16384, 16385});
    f.count = lens.size() * 4;
    f.chunk = 1;
    f.case_limit = 300;
    f.run = [=](u64 i) {
      std::size_t l = lens[i / 4];
      std::string s;
      unsigned r = 1;           // above 2000 without long repetitions, on which building takes very long
      for (std::size_t k = 0; k < l; k++) { r = r * 1664525u + 1013904223u; s += (char)('a' + (l > 2000 ? (r >> 16) % 7 : (k * k + k / 3) % 5)); }
      Terms t{s};
      if (i % 4 == 1) { t.push_back("z" + s.substr(1)); t.push_back("y" + s.substr(2)); }
      if (i % 4 == 2) { t.back().back() = '0'; t.push_back(s.substr(0, l - 1) + "1"); t.push_back(s.substr(0, l - 2) + "2"); }
      if (i % 4 == 3) { t.push_back(s.substr(0, l - 1)); t.push_back(s.substr(0, l / 2)); }
      t = sorted(t);
      DawgPtr d = build(t);
      chk(*d, t, {s + "a", s.substr(0, l - 1), s.substr(0, l / 2), s.substr(1), s.substr(0, 256), s.substr(0, l - 2)}, "length " + std::to_string(l));
    };
    f.describe = [=](u64 i) { return "length " + std::to_string(lens[i / 4]) + " shape " + std::to_string(i % 4); };
    fs.push_back(f);
  }
  {
    // what is shared lies behind many nodes that are not
    mc::Family f;
    f.name = "many-nodes";
    f.rule = "k terms that share no node (k = 1, 10, 100, 1000, 5000, 20000), then three heads with the same continuations, then terms that share with the first ones";
    static const std::vector<int> ks = {1, 10, 100, 1000, 5000, 20000};
    f.count = ks.size() * 2;
    f.chunk = 1;
    f.case_limit = 200;
    f.run = [=](u64 i) {
      Terms t;
      int k = ks[i / 2];
      for (int v = 0; v < k; v++) {
        // the set of last labels spells v: all nodes before them differ
        std::string head = "a" + padded(v, 5);
        for (int b = 0; b < 15; b++) if ((v + 1) >> b & 1) t.push_back(head + (char)('a' + b) + (i & 1 ? "!" : ""));
      }
      for (char h : {'b', 'c', 'd'}) for (char e = 'a'; e <= 'h'; e++) t.push_back(std::string(1, h) + e + e + "x");
      for (int v = 0; v < std::min(k, 50); v++)
        for (int b = 0; b < 15; b++) if ((v + 1) >> b & 1) t.push_back("e" + padded(v, 5) + (char)('a' + b) + (i & 1 ? "!" : ""));
      t = sorted(t);
      DawgPtr d = build(t);
      chk(*d, t, {"a00000", "baax", "bbax", "b", "e00000a", "e00000a!"}, std::to_string(k) + " unshared terms");
    };
    f.describe = [](u64 i) { return std::to_string(ks[i / 2]) + " unshared terms"; };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "large";
    f.rule = "all strings over {a, b} up to length 12; all over {a, b, c} up to length 8; all single bytes and all pairs of bytes; 66000 numbers; the strings over {a, b} up to length 10 with even number of b";
    f.count = 5;
    f.case_limit = 200;
    f.chunk = 1;
    f.run = [=](u64 i) {
      Terms t;
      if (i == 0) t = ref::words("ab", 12);
      else if (i == 1) t = ref::words("abc", 8);
      else if (i == 2) { for (int a = 0; a < 256; a++) { t.push_back(std::string(1, (char)a)); for (int b = 0; b < 256; b++) t.push_back(std::string(1, (char)a) + (char)b); } }
      else if (i == 3) { for (int v = 0; v < 66000; v++) t.push_back(padded(v, 5)); }
      else { for (auto &w : ref::words("ab", 10)) if (std::count(w.begin(), w.end(), 'b') % 2 == 0) t.push_back(w); }
      t = sorted(t);
      DawgPtr d = build(t);
      chk(*d, t, {"", "aaaaaaaaaaaaa", "bbbbbbbbbbbbb", "66000", "ccccccccc", "x", "ab"}, "large dictionary " + std::to_string(i));
    };
    f.describe = [](u64 i) { return "large dictionary " + std::to_string(i); };
    fs.push_back(f);
  }
}

// ---- C11 ----------------------------------------------------------------------
static void c11_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  const Terms W = sorted({"", "a", "ab", "b", "ba", "\x7f", "\x80", "\xff", Z1});
  int L = o.thorough ? 5 : 4;
  auto add = [&](const std::string &name, const Terms &W, int L) {
    mc::Family f;
    f.name = name;
    u64 n = 0, p = 1;
    std::vector<u64> starts;
    for (int l = 0; l <= L; l++) { starts.push_back(n); n += p; p *= W.size(); }
    f.count = n;
    f.rule = "all sequences of up to " + std::to_string(L) + " of the terms " + show(W) + ": the factory from vector and list, and adding one by one, finished or dropped";
    auto decode = [=](u64 i) {
      int l = L;
      while (l && i < starts[l]) l--;
      i -= starts[l];
      Terms s;
      for (int k = 0; k < l; k++) { s.push_back(W[i % W.size()]); i /= W.size(); }
      return s;
    };
    f.run = [=](u64 i) {
      Terms s = decode(i);
      bool ok = std::is_sorted(s.begin(), s.end());
      Terms accepted;
      std::vector<bool> verdict;
      std::string last;
      for (auto &t : s) {
        bool acc = !(t < last);
        verdict.push_back(acc);
        if (acc) { accepted.push_back(t); last = t; }
      }
      accepted = sorted(accepted);
      std::list<std::string> l(s.begin(), s.end());
      for (int rep = 0; rep < 2; rep++) {
        long before = alloc::live;
        {
          std::unique_ptr<ll::SortedDawg> d(ll::sorted_dawg(s.begin(), s.end()));
          MC_CHECK((d != nullptr) == ok, "building from the vector " << show(s) << (ok ? " fails" : " succeeds although it descends"));
          std::unique_ptr<ll::SortedDawg> e(ll::sorted_dawg(l.begin(), l.end()));
          MC_CHECK((e != nullptr) == ok, "building from the list " << show(s) << (ok ? " fails" : " succeeds although it descends"));
        }
        for (int fin = 0; fin < 2; fin++) {
          std::unique_ptr<ll::SortedDawg> d(new ll::SortedDawg());
          d->init();
          for (std::size_t k = 0; k < s.size(); k++) {
            bool r = d->add(s[k]);
            MC_CHECK(r == verdict[k], "add(" << mc::q(s[k]) << ") as number " << k + 1 << " of " << show(s) << " returns " << (r ? "true" : "false"));
          }
          if (fin) {
            d->finish();
            d->clean_up();
            if (rep) mc::state(check_holds(*d, accepted, W, "after adding " + show(s) + " one by one"));
          }
        }
        long after = alloc::live;
        MC_CHECK(!rep || after == before, "building from " << show(s) << " leaves " << after - before << " blocks allocated");
      }
      mc::transitions(s.size() * 8);
      mc::trace(8);
      if (!ok) mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show(decode(i)); };
    f.chunk = 32;
    fs.push_back(f);
  };
  add("sequences", W, L);
  add("deep-sequences", sorted({"a", "aa", "ab", "abb", "b", "bab"}), o.thorough ? 7 : 5);
  {
    mc::Family f;
    f.name = "long-prefixes";
    f.rule = "for every length l up to 300 and around 512 and 1024 (the longer, the fewer endings): pairs that share l bytes and then ascend, descend, are equal, or end, in both orders, through the factory and one by one, followed by a term between and a term behind them";
    f.count = 301 + 6;
    f.chunk = 4;
    f.run = [](u64 i) {
      static const int more[] = {511, 512, 513, 1023, 1024, 1025};
      std::size_t l = i <= 300 ? i : more[i - 301];
      std::string p;
      for (std::size_t k = 0; k < l; k++) p += (char)(k % 3 ? 'a' + k % 7 : '\xe0' + k % 5);
      const std::vector<std::string> ends = {"", std::string(1, '\0'), "b", "bb", "c", "\x7f", "\x80", "\xff"};
      for (auto &x : ends) for (auto &y : ends) {
        Terms s = {p + x, p + y};
        // building a chain takes time cubic in its length: few of the ascending pairs of long terms
        if (l > 70 && &x - &ends[0] > 1 && y >= x && (l > 260 || l % 16 > 1)) continue;
        if (l > 260 && (&x - &ends[0]) + (&y - &ends[0]) > 3 && y >= x) continue;
        bool ok = std::lexicographical_compare((const unsigned char *)x.data(), (const unsigned char *)x.data() + x.size(), (const unsigned char *)y.data(), (const unsigned char *)y.data() + y.size()) || x == y;
        std::unique_ptr<ll::SortedDawg> d(ll::sorted_dawg(s.begin(), s.end()));
        MC_CHECK((d != nullptr) == ok, "building from two terms with " << l << " bytes in common and the ends " << mc::q(x) << ", " << mc::q(y) << (ok ? " fails" : " succeeds although they descend"));
        if (d) check_holds(*d, sorted(s), {p, p + "a"}, "two long terms");
        if (l <= 16 || (l % 16 < 2 && l < 300 && &x - &ends[0] < 4 && &y - &ends[0] < 4)) {
          // one by one, with a term behind the accepted ones, and with one before them
          ll::SortedDawg e;
          e.init();
          Terms acc;
          std::string last;
          for (const std::string &t : {p + x, p + y, p + "\xff\xff", p + x, p + "\xff\xff" + "a", p + y}) {
            bool want = !(t < last);
            MC_CHECK(e.add(t) == want, "adding a term with " << l << " bytes in common with its predecessor is " << (want ? "refused" : "accepted") << "; ends " << mc::q(x) << ", " << mc::q(y));
            if (want) { acc.push_back(t); last = t; }
          }
          e.finish();
          e.clean_up();
          mc::state(check_holds(e, sorted(acc), {p, p + "a", p + y}, "long terms added one by one"));
        }
        mc::transitions(8);
        mc::trace();
        if (!ok) mc::nontrivial();
      }
      mc::state(mc::mix(l, 77));
    };
    f.describe = [](u64 i) { return "common prefix number " + std::to_string(i); };
    fs.push_back(f);
  }
  {   // the same with far longer common prefixes: the second term decides before anything long is put together
    static const std::size_t ls[] = {1, 2047, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 131072, 1000000};
    mc::Family f;
    f.name = "late-differences";
    f.rule = "terms added one by one that have up to 1000000 bytes in common, for lengths around powers of two, and then descend, end, repeat or ascend, for all pairs of 8 ends; every verdict and the size, and the blocks that stay allocated once the dictionary is dropped";
    f.count = sizeof ls / sizeof *ls;
    f.chunk = 1;
    f.case_limit = 120;
    f.run = [](u64 i) {
      std::size_t l = ls[i];
      std::string p;
      for (std::size_t k = 0; k < l; k++) p += (char)(k % 3 ? 'a' + k % 7 : '\xe0' + k % 5);
      const std::vector<std::string> ends = {"", std::string(1, '\0'), "b", "bb", "c", "\x7f", "\x80", "\xff"};
      for (auto &x : ends) {
        long before = alloc::live;
        {
          ll::SortedDawg e;
          e.init();
          std::size_t size = 0;
          std::string last;
          auto add = [&](const std::string &t) {
            bool want = !(t < last);
            bool fresh = t != last;
            MC_CHECK(e.add(t) == want, "adding a term with " << l << " bytes in common with its predecessor is " << (want ? "refused" : "accepted") << "; ends " << mc::q(last.substr(std::min(l, last.size()))) << ", " << mc::q(t.substr(std::min(l, t.size()))));
            if (want) { last = t; if (fresh) size++; }
            MC_CHECK(e.size() == size, "the size is " << e.size() << " after " << size << " terms were accepted");
            mc::transitions(2);
          };
          add(p + x);
          for (auto &y : ends) if (y < x) add(p + y);
          add(p.substr(0, l - 1));
          add(p + x);
          for (auto &y : ends) if (!(y < x)) add(p + y);
          add(p + "b");
          e.clean_up();
        }
        MC_CHECK(alloc::live == before, alloc::live - before << " blocks stay allocated");
      }
      mc::state(mc::mix(l, 78)); mc::trace(ends.size()); mc::nontrivial();
    };
    f.describe = [](u64 i) { return "common prefix of " + std::to_string(ls[i]); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "many-refusals";
    f.rule = "for every k up to 300: k terms refused in a row (below, far below, empty, a prefix), after 1 and after 40 accepted terms, followed by ascending terms, with further refusals between them";
    f.count = 301 * 2;
    f.chunk = 8;
    f.run = [](u64 i) {
      u64 k = i / 2, n = i & 1 ? 40 : 1;
      for (int rep = 0; rep < 2; rep++) {
        long before = alloc::live;
        {
          ll::SortedDawg d;
          d.init();
          Terms acc;
          auto put = [&](const std::string &t, bool want) {
            MC_CHECK(d.add(t) == want, "after " << k << " refusals, add(" << mc::q(t) << ") returns " << !want);
            if (want) acc.push_back(t);
          };
          for (u64 v = 0; v < n; v++) put("m" + padded(v, 4), true);
          for (u64 r = 0; r < k; r++) put(r % 4 == 0 ? "m" : r % 4 == 1 ? "a" + padded(r, 4) : r % 4 == 2 ? "" : "l~~~~~~~~~", false);
          for (u64 v = n; v < n + 5; v++) { put("m" + padded(v, 4), true); put("m" + padded(v - 1, 4), false); put("m" + padded(v, 4).substr(0, 3), false); }
          d.finish();
          d.clean_up();
          if (rep) mc::state(check_holds(d, sorted(acc), {"m", "", "a0001", "m000", "l~~~~~~~~~"}, "after " + std::to_string(k) + " refusals"));
        }
        long after = alloc::live;
        MC_CHECK(!rep || after == before, k << " refusals leave " << after - before << " blocks allocated");
      }
      mc::transitions(k + n + 15); mc::trace(2); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::to_string(i / 2) + " refusals"; };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "byte-order";
    f.rule = "for every pair of byte values x, y: sequences {x, y}, {ax, ay}, {x, xy}, {xy, x}, {x, y, x}";
    f.count = 256;
    f.chunk = 2;
    f.run = [](u64 i) {
      for (int j = 0; j < 256; j++) {
        std::string x(1, (char)i), y(1, (char)j);
        for (Terms s : {Terms{x, y}, Terms{"a" + x, "a" + y}, Terms{x, x + y}, Terms{x + y, x}, Terms{x, y, x}}) {
          bool ok = true;
          for (std::size_t k = 1; k < s.size(); k++) {      // byte order, spelled out
            const std::string &a = s[k - 1], &b = s[k];
            std::size_t m = std::min(a.size(), b.size());
            int c = memcmp(a.data(), b.data(), m);
            if (c > 0 || (c == 0 && a.size() > b.size())) ok = false;
          }
          DawgPtr d(ll::sorted_dawg(s.begin(), s.end()));
          MC_CHECK((d != nullptr) == ok, "building from " << show(s) << (ok ? " fails" : " succeeds although it descends"));
          mc::transitions(s.size());
          mc::trace();
          if (!ok) mc::nontrivial();
        }
      }
      mc::state(i + 1);
    };
    f.describe = [](u64 i) { return "byte " + std::to_string(i); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "late-descents";
    f.rule = "for every position p below 300: 300 ascending numbers with the term at p lowered below its predecessor";
    f.count = 300;
    f.chunk = 4;
    f.run = [](u64 p) {
      if (p == 0) return;
      for (const std::string &low : {padded(p - 1, 5).substr(0, 4), std::string(), padded(p - 1, 5).substr(0, 4) + "/"}) {
        Terms s;
        for (u64 v = 0; v < 300; v++) s.push_back(padded(v, 5));
        s[p] = low;
        for (int rep = 0; rep < 2; rep++) {
          long before = alloc::live;
          ll::SortedDawg *d = ll::sorted_dawg(s.begin(), s.end());
          bool null = d == nullptr;
          delete d;
          long after = alloc::live;
          MC_CHECK(null, "the term " << mc::q(low) << " at position " << p << " of 300 ascending numbers is accepted");
          MC_CHECK(!rep || after == before, "refusing " << mc::q(low) << " at position " << p << " leaves " << after - before << " blocks allocated");
        }
        Terms acc;
        ll::SortedDawg d;
        d.init();
        for (u64 v = 0; v < 300; v++) {
          bool r = d.add(s[v]);
          MC_CHECK(r == (v != p), "add(" << mc::q(s[v]) << ") returns " << r << " after " << (v ? mc::q(s[v - 1]) : ""));
          if (r) acc.push_back(s[v]);
        }
        d.finish();
        d.clean_up();
        mc::state(check_holds(d, acc, {low}, "300 numbers with a refused term at " + std::to_string(p)));
        mc::trace(3); mc::transitions(900); mc::nontrivial();
      }
    };
    f.describe = [](u64 p) { return "descent at " + std::to_string(p); };
    fs.push_back(f);
  }
  {   // a descent behind very many terms
    static const u64 N[] = {1000, 32768, 65535, 65536, 65537, 100001, 131073, 262145};
    mc::Family f;
    f.name = "far-descents";
    f.rule = "1000 to 262145 ascending numbers, the last of them lowered below its predecessor, or below all: refused when built at once, and, when added one by one, refused with the size unchanged, and the next one accepted" + std::string(o.thorough ? "" : "; up to 131073");
    f.count = sizeof N / sizeof *N;
    f.chunk = 1;
    f.case_limit = 200;
    f.run = [=](u64 i) {
      u64 n = N[i];
      if (!o.thorough && n > 131073) return;
      Terms s;
      for (u64 v = 0; v < n; v++) s.push_back(padded(v, 7));
      std::string last = s.back();
      for (const std::string &low : {padded(n - 3, 7), std::string("0")}) {
        s.back() = low;
        DawgPtr d(ll::sorted_dawg(s.begin(), s.end()));
        MC_CHECK(d == nullptr, "the term " << mc::q(low) << " behind " << n - 1 << " ascending numbers is accepted");
        mc::heartbeat();
        ll::SortedDawg e;
        e.init();
        for (u64 v = 0; v + 1 < n; v++) MC_CHECK(e.add(s[v]), "the ascending term " << mc::q(s[v]) << " is refused");
        MC_CHECK(!e.add(low) && e.size() == n - 1, "add(" << mc::q(low) << ") behind " << n - 1 << " ascending numbers is accepted");
        MC_CHECK(e.add(last) && e.size() == n, "the ascending term " << mc::q(last) << " is refused after " << mc::q(low));
        e.finish();
        e.clean_up();
        MC_CHECK(e.size() == n && e.contains(last) && e.contains(s[0]) && e.contains(s[n - 2]) && !e.contains("0"), "membership is wrong after a refused term behind " << n - 1 << " others");
        mc::heartbeat();
        mc::transitions(2 * n); mc::trace(2);
      }
      mc::state(mc::mix(i, 91)); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::to_string(N[i]) + " terms"; };
    fs.push_back(f);
  }
}

// ---- C13 ----------------------------------------------------------------------
struct Perturb {   // changes heap placement of what is built next
  std::vector<void *> p;
  explicit Perturb(int k) { for (int i = 0; i < k * 3; i++) { p.push_back(malloc(16 + (i * 40 + k * 24) % 200)); memset(p.back(), 0xA5 + k, 16); } for (int i = 0; i < (int)p.size(); i += 2) { free(p[i]); p[i] = nullptr; } }
  ~Perturb() { for (auto *x : p) free(x); }
};

static DawgPtr variant(const Terms &t, int v) {
  Perturb pt(v * 5 + 1);
  if (v == 0) return build_via(VECTOR, t);
  if (v == 1) return build_via(ADD, t);
  if (v == 2) { DawgPtr d = build(t); std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d.get())); return DawgPtr(ll::from_protobuf(*m)); }
  // a tree: equal content, different sharing
  auto *root = new ll::DawgNode();
  for (auto it = t.rbegin(); it != t.rend(); ++it) {
    ll::DawgNode *n = root;
    for (char c : *it) {
      ll::DawgNode *m = n->transition(c);
      if (!m) { m = new ll::DawgNode(); n->add_edge(c, m); }
      n = m;
    }
    n->is_final(true);
  }
  return DawgPtr(new ll::SortedDawg(root, t.size()));
}

static void c13_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  auto pairs = [&](const std::string &name, const Terms &u) {
    mc::Family f;
    f.name = name;
    f.rule = "all pairs of subsets of " + show(u) + ", the second one built through the factory, incrementally, loaded, and as an unshared tree";
    f.count = 1ULL << u.size();
    f.chunk = 4;
    auto pool = std::make_shared<std::vector<std::vector<DawgPtr>>>();
    f.prepare = [=] {};
    f.run = [=](u64 i) {
      if (pool->empty())
        for (u64 k = 0; k < 1ULL << u.size(); k++) {
          pool->emplace_back();
          for (int v = 0; v < 4; v++) pool->back().push_back(variant(ref::subset(u, k), v));
        }
      std::hash<ll::Dawg> hd;
      std::hash<ll::DawgNode> hn;
      Terms t = ref::subset(u, i);
      DawgPtr a = variant(t, (int)(i & 3));
      std::size_t ha = hd(*a), hna = hn(*a->root());
      for (u64 j = 0; j < pool->size(); j++)
        for (int v = 0; v < 4; v++) {
          const ll::Dawg &b = *(*pool)[j][v];
          bool same = i == j;
          auto what = [&] { return show(t) + " and " + show(ref::subset(u, j)) + " (built " + (v == 0 ? "by factory" : v == 1 ? "incrementally" : v == 2 ? "by loading" : "as a tree") + ")"; };
          MC_CHECK((*a == b) == same, "dictionaries " << what() << " compare " << (same ? "different" : "equal"));
          MC_CHECK((b == *a) == same, "dictionaries " << what() << " compare " << (same ? "different" : "equal") << " from the other side");
          MC_CHECK((*a != b) == !same, "operator!= of dictionaries " << what() << " is wrong");
          MC_CHECK((*a->root() == *b.root()) == same, "root nodes of " << what() << " compare " << (same ? "different" : "equal"));
          if (same) {
            MC_CHECK(ha == hd(b), "equal dictionaries " << what() << " have different hash codes");
            MC_CHECK(hna == hn(*b.root()), "equal root nodes of " << what() << " have different hash codes");
          }
          mc::transitions(4);
        }
      mc::state(mc::mix(i + 1, ha)); mc::trace(pool->size() * 4); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show(ref::subset(u, i)) + " against all others"; };
    fs.push_back(f);
  };
  pairs("pairs-ab2", sorted(ref::words("ab", 2)));
  pairs("pairs-tails", sorted({"ax", "bx", "x", "axx", "bxx", "ay", "by"}));
  pairs("pairs-bytes", sorted({"", Z1, "\x80", "\xff", "\xff\xff", Z1 + "\xff"}));
  {
    // a dictionary in the place of an earlier one
    const Terms u = sorted(ref::words("ab", 2));
    mc::Family f;
    f.name = "successors";
    f.rule = "all pairs of subsets of " + show(u) + ": the first one is compared and hashed and destroyed, the second one built in its place, compared with and hashed as copies of both";
    f.count = 128;
    f.chunk = 8;
    auto pool = std::make_shared<std::vector<DawgPtr>>();
    f.run = [=](u64 i) {
      std::hash<ll::Dawg> hd;
      std::hash<ll::DawgNode> hn;
      if (pool->empty()) for (u64 k = 0; k < 128; k++) pool->push_back(build(ref::subset(u, k)));
      const ll::Dawg &pa = *(*pool)[i];
      for (u64 j = 0; j < 128; j++) {
        const ll::Dawg &pb = *(*pool)[j];
        auto what = [&] { return "dictionary " + show(ref::subset(u, j)) + ", built where " + show(ref::subset(u, i)) + " was before,"; };
        std::size_t ha, na;
        { DawgPtr a = build(ref::subset(u, i)); ha = hd(*a); na = hn(*a->root()); MC_CHECK(*a == pa && pa == *a, "dictionary " << show(ref::subset(u, i)) << " does not equal its copy"); }
        DawgPtr b = build(ref::subset(u, j));
        MC_CHECK(hd(*b) == hd(pb) && hn(*b->root()) == hn(*pb.root()), what() << " hashes other than its copy");
        MC_CHECK(*b == pb && pb == *b && *b->root() == *pb.root(), what() << " does not equal its copy");
        MC_CHECK((*b == pa) == (i == j) && (pa == *b) == (i == j), what() << " compares wrongly with a copy of the earlier one");
        MC_CHECK(i != j || (ha == hd(*b) && na == hn(*b->root())), what() << " hashes other than before");
        mc::transitions(6); mc::trace();
      }
      mc::state(mc::mix(i, 37)); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show(ref::subset(u, i)) + " and all successors"; };
    fs.push_back(f);
  }
  if (o.thorough) pairs("pairs-ab3", sorted({"", "a", "b", "aa", "ab", "ba", "bb", "aab", "abb", "bab"}));
  {
    // one label at a time through all bytes, near-equal chains
    mc::Family f;
    f.name = "near-equal";
    f.rule = "for every length l up to 40 and every position p: a chain of l labels against the chain that differs at p only (label, final flag, or one more edge)";
    f.count = 41;
    f.chunk = 1;
    f.run = [](u64 l) {
      std::string s;
      for (u64 k = 0; k < l; k++) s += (char)('a' + (k * 7) % 3);
      std::hash<ll::Dawg> hd;
      DawgPtr a = build({s});
      for (u64 p = 0; p < l; p++) {
        std::vector<Terms> others;
        std::string t = s; t[p] ^= 0x80; others.push_back({t});
        t = s; t[p] = 'z'; others.push_back({t});
        others.push_back(sorted({s, s.substr(0, p)}));
        t = s.substr(0, p) + "z"; others.push_back(sorted({s, t}));
        others.push_back({s.substr(0, p)});
        others.push_back({s + s.substr(0, p + 1)});
        for (auto &o : others) {
          DawgPtr b = build(o);
          MC_CHECK(!(*a == *b) && !(*b == *a) && *a != *b, "the dictionaries {" << mc::q(s) << "} and " << show(o) << " compare equal");
          MC_CHECK(!(*a->root() == *b->root()), "the root nodes of {" << mc::q(s) << "} and " << show(o) << " compare equal");
          DawgPtr c = build(o);
          MC_CHECK(*b == *c && hd(*b) == hd(*c), "two dictionaries of " << show(o) << " differ in comparison or hash code");
          mc::transitions(6); mc::trace(); mc::nontrivial();
          mc::state(mc::mix(hd(*b), 1));
        }
      }
    };
    f.describe = [](u64 l) { return "chains of " + std::to_string(l); };
    fs.push_back(f);
  }
  {
    // nodes of all dictionaries over a universe: equal exactly when they accept the same
    mc::Family f;
    f.name = "nodes";
    f.rule = "all nodes of all subsets of the strings over {a, b} up to length 2, compared pairwise within and across dictionaries; transitions over them";
    f.count = 128;
    f.chunk = 2;
    Terms u = sorted(ref::words("ab", 2));
    auto pool = std::make_shared<std::vector<DawgPtr>>();
    f.run = [=](u64 i) {
      if (pool->empty()) for (u64 k = 0; k < 128; k++) pool->push_back(build(ref::subset(u, k)));
      std::hash<ll::DawgNode> hn;
      std::map<std::pair<bool, std::vector<std::pair<unsigned char, int>>>, int> ids;
      Graph g = graph_of((*pool)[i]->root());
      auto ca = classes_of(g, ids);
      for (u64 j = 0; j < 128; j++) {
        Graph h = graph_of((*pool)[j]->root());
        auto cb = classes_of(h, ids);
        for (std::size_t x = 0; x < g.nodes.size(); x++)
          for (std::size_t y = 0; y < h.nodes.size(); y++) {
            bool same = ca[x] == cb[y];
            MC_CHECK((*g.nodes[x] == *h.nodes[y]) == same, "nodes of " << show(ref::subset(u, i)) << " and " << show(ref::subset(u, j)) << " compare " << (same ? "different" : "equal"));
            MC_CHECK((*g.nodes[x] != *h.nodes[y]) == !same, "operator!= of nodes is wrong");
            if (same) MC_CHECK(hn(*g.nodes[x]) == hn(*h.nodes[y]), "equal nodes of " << show(ref::subset(u, i)) << " and " << show(ref::subset(u, j)) << " have different hash codes");
            ll::Transition t('a', g.nodes[0], g.nodes[x]), t2('a', h.nodes[0], h.nodes[y]), t3('b', h.nodes[0], h.nodes[y]);
            bool tsame = same && ca[0] == cb[0];
            MC_CHECK((t == t2) == tsame && !(t == t3), "transitions compare wrongly");
            MC_CHECK(t.label() == 'a' && t.source() == g.nodes[0] && t.target() == g.nodes[x], "a transition does not keep its parts");
            ll::Transition t4(t), t5(std::move(t2));
            MC_CHECK(t4 == t && t5.target() == h.nodes[y] && t5.source() == h.nodes[0] && t5.label() == 'a', "a copied or moved transition differs");
            mc::transitions(4);
          }
      }
      mc::trace(128); mc::nontrivial(); mc::state(i + 1);
    };
    f.describe = [=](u64 i) { return "nodes of " + show(ref::subset(u, i)); };
    fs.push_back(f);
  }
  {
    Terms u = {"", "a", "ab", "abb", "b", "bb", "cb", "cbb"};
    int most = o.thorough ? 6 : 4;
    auto sets = std::make_shared<std::vector<Terms>>();
    for (auto &x : ref::subsets_upto((int)u.size(), most)) { Terms t; for (int k : x) t.push_back(u[k]); sets->push_back(sorted(t)); }
    mc::Family f;
    f.name = "observed-growth";
    f.rule = "every set of up to " + std::to_string(most) + " of 8 terms, added one by one, with every choice of the moments at which the unfinished dictionary is hashed, compared, iterated, walked and saved, against one built without interruption and one with another last term";
    f.count = sets->size();
    f.chunk = 2;
    f.run = [=](u64 i) {
      const Terms &t = (*sets)[i];
      std::hash<ll::Dawg> hd;
      std::hash<ll::DawgNode> hn;
      DawgPtr want = build(t), other;
      if (!t.empty()) { Terms t2 = t; t2.back() += "x"; other = build(t2); }
      for (unsigned mask = 0; mask < 8u << t.size(); mask++) {
        DawgPtr d = build_observed(t, mask);
        auto what = [&] { return show(t) + " observed while built (steps " + std::to_string(mask) + ")"; };
        MC_CHECK(*d == *want && *want == *d && *d->root() == *want->root(), what() << " is not equal to the same terms built without interruption");
        MC_CHECK(hd(*d) == hd(*want) && hn(*d->root()) == hn(*want->root()), what() << " hashes differently");
        if (other) MC_CHECK(!(*d == *other) && !(*other == *d), what() << " equals a dictionary with another last term");
        mc::transitions(6); mc::trace();
      }
      mc::state(mc::mix(i, 31)); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show((*sets)[i]) + " observed while built"; };
    fs.push_back(f);
  }
  {
    // nodes that change between questions, against nodes made afresh
    mc::Family f;
    f.name = "changing-nodes";
    const int NN = 4;                  // root, two inner nodes, a leaf shared by them
    const int OPS = 2 * NN + 5;
    int L = o.thorough ? 5 : 4;
    u64 n = 1;
    for (int l = 0; l < L; l++) n *= OPS;
    f.count = n;
    f.chunk = 64;
    f.rule = "all sequences of " + std::to_string(L) + " operations on a graph of four nodes (set or clear each final flag, add one of five edges), the node hashes and comparisons taken after every operation and compared with those of an unshared copy made afresh and of copies that differ in one flag or edge";
    auto decode = [=](u64 i) { std::vector<int> v; for (int l = 0; l < L; l++) { v.push_back((int)(i % OPS)); i /= OPS; } return v; };
    struct E { int s; char c; int t; };
    static const E edges[5] = {{0, 'a', 1}, {0, 'b', 2}, {1, 'c', 3}, {2, 'c', 3}, {2, '\xff', 3}};
    f.run = [=](u64 i) {
      std::hash<ll::DawgNode> hn;
      bool fin[NN] = {}, has[5] = {};
      ll::DawgNode node[NN];
      auto copy = [&](int flip) {      // a tree with the same content, but for flag or edge `flip`
        auto keep = std::make_shared<std::vector<std::unique_ptr<ll::DawgNode>>>();
        std::function<ll::DawgNode *(int)> make = [&](int k) {
          keep->emplace_back(new ll::DawgNode(fin[k] != (flip == k)));
          ll::DawgNode *m = keep->back().get();
          for (int e = 4; e >= 0; e--) if (edges[e].s == k && has[e] != (flip == NN + e)) m->add_edge(edges[e].c, make(edges[e].t));
          return m;
        };
        ll::DawgNode *r = make(0);
        return std::make_pair(r, keep);
      };
      // what the root accepts, spelled out
      auto content = [&](int flip) {
        std::string s;
        std::function<void(int)> go = [&](int k) {
          s += fin[k] != (flip == k) ? '1' : '0';
          for (int e = 0; e < 5; e++) if (edges[e].s == k && has[e] != (flip == NN + e)) { s += edges[e].c; go(edges[e].t); s += ')'; }
        };
        go(0);
        return s;
      };
      std::string done;
      auto check = [&] {
        std::string c0 = content(-1);
        for (int flip = -1; flip < NN + 5; flip++) {
          auto [r, keep] = copy(flip);
          bool same = content(flip) == c0;
          MC_CHECK((node[0] == *r) == same && (*r == node[0]) == same, "after" << done << ": a node and a copy" << (same ? "" : " with other content") << " compare " << (same ? "different" : "equal"));
          if (same) MC_CHECK(hn(node[0]) == hn(*r), "after" << done << ": a node and its copy have different hash codes");
          mc::transitions(3);
        }
        mc::state(mc::hash_str(c0));
      };
      check();
      for (int op : decode(i)) {
        if (op < 2 * NN) { fin[op / 2] = op & 1; node[op / 2].is_final(op & 1); done += " final(" + std::to_string(op / 2) + ")=" + (op & 1 ? "1" : "0"); }
        else { const E &e = edges[op - 2 * NN]; has[op - 2 * NN] = true; node[e.s].add_edge(e.c, &node[e.t]); done += " edge(" + std::to_string(e.s) + "," + std::to_string(e.t) + ")"; }
        check();
      }
      mc::trace(); mc::nontrivial();
    };
    f.describe = [=](u64 i) { std::string s; for (int op : decode(i)) s += " " + (op < 2 * NN ? "final(" + std::to_string(op / 2) + ")=" + std::to_string(op & 1) : "edge " + std::to_string(op - 2 * NN)); return s; };
    fs.push_back(f);
  }
  {
    // nodes that share targets: a common target must not end the comparison
    mc::Family f;
    f.name = "shared-targets";
    f.rule = "two nodes with up to four labels each (absent, to one of two common targets, or to an own target equal to one of them): all pairs";
    f.count = 1 << 8;
    f.chunk = 2;
    f.run = [](u64 i) {
      ll::DawgNode leaf(true), empty;
      const char labels[4] = {'a', 'b', '\0', '\xff'};
      std::hash<ll::DawgNode> hn;
      auto make = [&](u64 m, std::vector<std::unique_ptr<ll::DawgNode>> &own, bool fresh) {
        own.emplace_back(new ll::DawgNode());
        ll::DawgNode *r = own.back().get();
        for (int k = 0; k < 4; k++) {
          int v = m >> (2 * k) & 3;
          if (!v) continue;
          if (v == 3 || (fresh && k & 1)) { own.emplace_back(new ll::DawgNode(v != 2)); r->add_edge(labels[k], own.back().get()); }
          else r->add_edge(labels[k], v == 1 ? &leaf : &empty);
        }
        return r;
      };
      auto norm = [](u64 m) { u64 r = 0; for (int k = 0; k < 4; k++) { u64 v = m >> (2 * k) & 3; r |= (v == 3 ? 1 : v) << (2 * k); } return r; };
      for (u64 j = 0; j < 256; j++)
        for (bool fresh : {false, true}) {
          std::vector<std::unique_ptr<ll::DawgNode>> own;
          ll::DawgNode *x = make(i, own, false), *y = make(j, own, fresh);
          bool same = norm(i) == norm(j);
          MC_CHECK((*x == *y) == same && (*y == *x) == same && (*x != *y) == !same, "nodes " << i << " and " << j << " compare " << (same ? "different" : "equal"));
          if (same) MC_CHECK(hn(*x) == hn(*y), "equal nodes " << i << " and " << j << " have different hash codes");
          mc::transitions(4);
        }
      mc::state(norm(i) + 1); mc::trace(512); mc::nontrivial();
    };
    f.describe = [](u64 i) { return "node " + std::to_string(i); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "wide-and-large";
    f.rule = "for every w up to 256: the dictionary of w bytes against those that lack one of them, have another final flag below one of them, or another label; and 2000 numbers against those that lack or lengthen one of them";
    f.count = 256 + 40;
    f.chunk = 2;
    f.run = [](u64 i) {
      std::hash<ll::Dawg> hd;
      auto differ = [&](const Terms &t, const Terms &u) {
        DawgPtr a = build(t), b = build(u), c = variant(t, 2);
        MC_CHECK(!(*a == *b) && !(*b == *a) && !(*a->root() == *b->root()), "dictionaries of " << t.size() << " and " << u.size() << " terms compare equal: " << show(t) << " and " << show(u));
        MC_CHECK(*a == *c && hd(*a) == hd(*c), "a loaded dictionary of " << t.size() << " terms differs from the one saved, or in its hash code: " << show(t));
        mc::transitions(5); mc::trace();
      };
      if (i < 256) {
        int w = (int)i + 1;
        Terms t;
        for (int k = 0; k < w; k++) t.push_back(std::string(1, (char)(k * 167)) + "x");
        for (int k : {0, 1, w / 2, w - 2, w - 1, 127, 128}) {
          if (k < 0 || k >= w) continue;
          Terms u = t; u.erase(u.begin() + k); differ(sorted(t), sorted(u));
          u = t; u[k] += "y"; differ(sorted(t), sorted(u));
          u = t; u[k].pop_back(); differ(sorted(t), sorted(u));
          if (w < 256) { u = t; u[k] = std::string(1, (char)(w * 167)) + "x"; differ(sorted(t), sorted(u)); }
        }
      } else {
        Terms t;
        for (int v = 0; v < 2000; v++) t.push_back(padded(v * 7, 5));
        std::size_t k = (i - 256) * 51;
        Terms u = t; u.erase(u.begin() + k); differ(t, u);
        u = t; u[k] += "0"; differ(t, sorted(u));
        u = t; u[k][4] = '/'; differ(t, sorted(u));
      }
      mc::state(i + 1); mc::nontrivial();
    };
    f.describe = [](u64 i) { return "case " + std::to_string(i); };
    fs.push_back(f);
  }
  {   // differences behind very many nodes, in graphs made by hand
    static const int ls[] = {1, 255, 256, 1023, 1024, 4096, 32768, 65535, 65536, 65537, 70000, 140000};
    mc::Family f;
    f.name = "far-differences";
    f.rule = "graphs of up to 140000 nodes in a row (with one edge each; with a second edge to the end; with two edges to the next node; with a second edge to the node after next), against one that is the same and against ones that differ in the last label, the last final flag, or by one more edge, at the end only";
    f.count = sizeof ls / sizeof *ls * 4;
    f.chunk = 1;
    f.case_limit = 120;
    f.run = [](u64 i) {
      int l = ls[i / 4], kind = (int)(i % 4);
      std::size_t size = kind == 2 ? 17 : l;      // too many terms to count; the same for all, so that the nodes decide
      auto make = [&](int variant) {
        auto *end = new ll::DawgNode(true), *n = new ll::DawgNode(variant == 2);
        n->add_edge(variant == 1 ? 'y' : 'x', end);
        if (variant == 3) n->add_edge('z', end);
        ll::DawgNode *next = end;
        for (int k = 0; k < l; k++) {
          auto *m = new ll::DawgNode(false);
          m->add_edge('a', n);
          if (kind == 1) m->add_edge('b', end);
          if (kind == 2) m->add_edge('b', n);
          if (kind == 3) m->add_edge('b', next);
          next = n;
          n = m;
        }
        return DawgPtr(new ll::SortedDawg(n, size));
      };
      std::hash<ll::Dawg> hd;
      std::hash<ll::DawgNode> hn;
      DawgPtr a = make(0), b = make(0);
      MC_CHECK(*a == *b && *b == *a && *a->root() == *b->root(), "two graphs of " << l << " nodes made in the same way compare different");
      MC_CHECK(hd(*a) == hd(*b) && hn(*a->root()) == hn(*b->root()), "two graphs of " << l << " nodes made in the same way have different hash codes");
      for (int v = 1; v < 4; v++) {
        DawgPtr c = make(v);
        MC_CHECK(!(*a == *c) && !(*c == *a) && *a->root() != *c->root(), "two graphs of " << l << " nodes that differ behind all of them (way " << v << ") compare equal");
        mc::heartbeat();
      }
      mc::state(i + 1); mc::transitions(10); mc::trace(4); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::to_string(ls[i / 4]) + " nodes, kind " + std::to_string(i % 4); };
    fs.push_back(f);
  }
  {
    Terms w = ref::words("ab", 2);
    for (auto &x : {Z1, Z1 + Z1, std::string("\x80"), std::string("\xff"), std::string("a") + Z1, Z1 + "a", std::string(8, 'a'), std::string(9, 'a'), std::string(17, 'b'), std::string(40, 'c')}) w.push_back(x);
    mc::Family f;
    f.name = "symmetric-pairs";
    f.rule = "all pairs of unordered pairs over " + std::to_string(w.size()) + " terms, in both argument orders";
    f.count = w.size();
    f.chunk = 1;
    f.run = [=](u64 i) {
      std::hash<lld::SymmetricPair> h;
      for (auto &b : w) {
        lld::SymmetricPair p(w[i], b), p2(b, w[i]);
        MC_CHECK(p == p2 && p2 == p && !(p != p2), "the pair " << mc::q(w[i]) << ", " << mc::q(b) << " differs from itself in the other order");
        MC_CHECK(h(p) == h(p2), "the pair " << mc::q(w[i]) << ", " << mc::q(b) << " hashes differently in the other order");
        for (auto &c : w) for (auto &d : w) {
          lld::SymmetricPair r(c, d);
          bool same = (w[i] == c && b == d) || (w[i] == d && b == c);
          MC_CHECK((p == r) == same, "the pairs " << mc::q(w[i]) << ", " << mc::q(b) << " and " << mc::q(c) << ", " << mc::q(d) << " compare " << (same ? "different" : "equal"));
          if (same) MC_CHECK(h(p) == h(r), "equal pairs hash differently");
          mc::transitions(2);
        }
        mc::state(h(p));
      }
      mc::trace(w.size() * w.size()); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return "pairs with " + mc::q(w[i]); };
    fs.push_back(f);
  }
  {
    static const std::size_t ls[] = {1, 15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 200000};
    mc::Family f;
    f.name = "long-pairs";
    f.rule = "pairs of terms that have 1 to 200000 characters in common, for lengths around powers of two, in front of or behind up to two characters that may differ: all pairs of such pairs, in both argument orders";
    f.count = sizeof ls / sizeof *ls * 2;
    f.chunk = 1;
    f.run = [](u64 i) {
      std::string p(ls[i / 2], 'a');
      for (std::size_t k = 0; k < p.size(); k++) p[k] = (char)(k % 251);
      std::vector<std::string> w;
      for (const std::string &x : {std::string(), std::string(1, '\0'), std::string("x"), std::string("y"), std::string("yx"), std::string("\x80")}) w.push_back(i % 2 ? x + p : p + x);
      w.push_back("");
      w.push_back("x");
      std::hash<lld::SymmetricPair> h;
      std::vector<lld::SymmetricPair> ps;
      for (auto &a : w) for (auto &b : w) ps.emplace_back(a, b);
      for (std::size_t x = 0; x < ps.size(); x++)
        for (std::size_t y = 0; y < ps.size(); y++) {
          std::size_t a = x / w.size(), b = x % w.size(), c = y / w.size(), d = y % w.size();
          bool same = (a == c && b == d) || (a == d && b == c);
          MC_CHECK((ps[x] == ps[y]) == same, "two pairs of terms with " << p.size() << " characters in common (kind " << i % 2 << ", " << a << " and " << b << ", " << c << " and " << d << ") compare " << (same ? "different" : "equal"));
          if (same) MC_CHECK(h(ps[x]) == h(ps[y]), "equal pairs of terms with " << p.size() << " characters in common hash differently");
          mc::transitions();
        }
      mc::state(mc::mix(i, 51)); mc::trace(ps.size()); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::to_string(ls[i / 2]) + " characters in common, kind " + std::to_string(i % 2); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "hash-placement";
    f.rule = "for every key length up to 80: all eight alignments and different bytes around the key; pairs of terms of that length in strings of different capacity";
    f.count = 81;
    f.chunk = 1;
    f.run = [](u64 l) {
      std::string key;
      for (u64 k = 0; k < l; k++) key += (char)(k * 37 + 11);
      bool have = false;
      u64 first = 0;
      for (int al = 0; al < 8; al++)
        for (int fill : {0x00, 0xff, 0x5a}) {
          // ends exactly at the end of a heap block in one variant: reading on is an error
          char *buf = (char *)malloc(al + l + (fill ? 16 : 0) + (al + l + (fill ? 16 : 0) == 0));
          memset(buf, fill, al + l + (fill ? 16 : 0));
          memcpy(buf + al, key.data(), l);
          u64 h = MurmurHash64A(buf + al, (int)l, 0xDEADBEEF);
          free(buf);
          MC_CHECK(!have || h == first, "the hash of a " << l << "-byte key depends on its alignment (" << al << ") or on the bytes around it");
          first = h; have = true;
          mc::transitions();
        }
      std::hash<lld::SymmetricPair> hp;
      std::string big = key; big.reserve(1000); big += "garbage beyond"; big.resize(l);
      lld::SymmetricPair p(key, "q"), p2(big, "q");
      MC_CHECK(p == p2 && hp(p) == hp(p2), "equal pairs of terms of length " << l << " differ");
      // terms that agree up to their last byte only
      if (l) { std::string o = key; o[l - 1] ^= 1; MC_CHECK(!(lld::SymmetricPair(o, "q") == p), "pairs that differ in byte " << l - 1 << " compare equal"); }
      mc::state(first); mc::trace(24); mc::nontrivial();
    };
    f.describe = [](u64 l) { return "keys of " + std::to_string(l) + " bytes"; };
    fs.push_back(f);
  }
}

// ---- C18 ----------------------------------------------------------------------
template <ll::Algorithm A> static void append_answers(std::string &r, ll::DawgNode *root) {
  ll::Transducer<A, ll::Candidate> tr(root);
  for (const char *q : {"", "a", "ab", "bb"})
    for (std::size_t n : {0, 1, 3}) {
      std::map<std::string, std::size_t> m;
      for (const ll::Candidate &c : tr(q, n)) { m[c.first] = c.second; if (m.size() > 100) mc::fail("a query does not end"); }
      for (auto &[t, k] : m) r += t + "=" + std::to_string(k) + ",";
      r += ";";
    }
}
static std::string observe(const ll::Dawg &d, const Terms &probes) {
  std::string r = std::to_string(d.size()) + "|";
  for (auto &t : iterate(d, 100)) r += t + ",";
  r += "|";
  for (auto &p : probes) r += d.contains(p) ? '1' : '0';
  r += "|" + std::to_string(std::hash<ll::Dawg>()(d)) + "|";
  append_answers<ll::Algorithm::STANDARD>(r, d.root());
  append_answers<ll::Algorithm::TRANSPOSITION>(r, d.root());
  append_answers<ll::Algorithm::MERGE_AND_SPLIT>(r, d.root());
  return r;
}

static void c18_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  const Terms U = sorted({"", "a", "ab", "b", "bb", "abb"});
  const Terms X = o.thorough ? sorted({"", "a", "ab", "bb", "c"}) : sorted({"", "ab", "bb", "c"});
  const Terms probes = sorted([&] { Terms p = ref::words("abc", 2); for (auto &u : U) p.push_back(u); return p; }());
  int L = o.thorough ? 4 : 3;
  auto name_op = [=](int op) { return std::string(op & 1 ? "remove(" : "add(") + mc::q(X[op / 2]) + ")"; };
  for (int kind = 0; kind < 3; kind++) {
    mc::Family f;
    f.name = kind == 0 ? "built" : kind == 1 ? "loaded" : "under-construction";
    int ops = (int)X.size() * 2;
    u64 seqs = 0, p = 1;
    for (int l = 0; l < L; l++) p *= ops;
    seqs = p;      // sequences of exactly L operations; every prefix is observed on the way
    f.count = 64 * seqs;
    f.chunk = 32;
    f.rule = "all subsets of " + show(U) + ", all sequences of " + std::to_string(L) + " add and remove calls over " + show(X) +
             (kind == 2 ? " where only remove is called while the dictionary is still being built" : "");
    auto decode = [=](u64 i) { std::vector<int> v; u64 k = i % seqs; for (int l = 0; l < L; l++) { v.push_back((int)(k % ops)); k /= ops; } return v; };
    f.run = [=](u64 i) {
      Terms t = ref::subset(U, i / seqs);
      auto seq = decode(i);
      if (kind == 2) {
        for (int op : seq) if (!(op & 1)) return;
        for (std::size_t at = 0; at <= t.size(); at++) {     // removals at every point of the build
          ll::SortedDawg d;
          d.init();
          auto removals = [&] { for (int op : seq) MC_CHECK(!d.remove(X[op / 2]), name_op(op) << " while building " << show(t) << " returns true"); };
          for (std::size_t k = 0; k < t.size(); k++) { if (k == at) removals(); MC_CHECK(d.add(t[k]), "add(" << mc::q(t[k]) << ") is refused after removals"); }
          if (at == t.size()) removals();
          d.finish();
          d.clean_up();
          mc::state(check_holds(d, t, probes, "built with refused removals"));
          mc::trace(); mc::nontrivial();
        }
        return;
      }
      DawgPtr d = build(t), pristine = build(t);
      if (kind == 1) { std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d.get())); d.reset(ll::from_protobuf(*m)); MC_CHECK(d != nullptr, "a saved dictionary does not load: " << show(t)); }
      std::string before = observe(*d, probes);
      std::string done;
      for (int op : seq) {
        const std::string &w = X[op / 2];
        bool r = op & 1 ? d->remove(w) : d->add(w);
        done += " " + name_op(op);
        MC_CHECK(!r, (kind ? "loaded" : "built") << " dictionary " << show(t) << ":" << done << " returns true");
        std::string after = observe(*d, probes);
        MC_CHECK(after == before, (kind ? "loaded" : "built") << " dictionary " << show(t) << " has changed after" << done);
        MC_CHECK(*d == *pristine && *pristine == *d, (kind ? "loaded" : "built") << " dictionary " << show(t) << " no longer equals its like after" << done);
        mc::transitions();
      }
      mc::state(mc::hash_str(before)); mc::trace(); mc::nontrivial();
    };
    f.describe = [=](u64 i) { std::string s = show(ref::subset(U, i / seqs)) + ":"; for (int op : decode(i)) s += " " + name_op(op); return s; };
    fs.push_back(f);
  }
}

static void c18_large(std::vector<mc::Family> &fs, const mc::Options &o) {
  mc::Family f;
  f.name = "large";
  f.rule = "built and loaded dictionaries (300 numbers with and without the empty term; all bytes; a long chain; wide shared nodes): add and remove, twice each, of every member, every proper prefix, every member with each of 5 endings, terms before and behind all others, everything observed after each group of calls";
  f.count = 5 * 2;
  f.chunk = 1;
  f.case_limit = 200;
  f.run = [](u64 i) {
    Terms t;
    u64 k = i / 2;
    if (k < 2) { for (int v = 0; v < 300; v++) t.push_back(padded(v * 3, 4)); if (k) t.push_back(""); }
    else if (k == 2) { for (int c = 0; c < 256; c++) t.push_back(std::string(1, (char)c)); }
    else if (k == 3) { std::string s; for (int c = 0; c < 200; c++) { s += (char)('a' + c % 3); if (c % 4 == 0) t.push_back(s); } }
    else { for (char p : {'p', 'q', 'r'}) for (int c = 0; c < 100; c++) t.push_back(std::string(1, p) + (char)(c * 5)); }
    t = sorted(t);
    DawgPtr d = build(t), pristine = build(t);
    if (i & 1) { std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d.get())); d.reset(ll::from_protobuf(*m)); MC_CHECK(d != nullptr, "a saved dictionary does not load: " << show(t)); }
    std::size_t h = std::hash<ll::Dawg>()(*d);
    std::set<std::string> set;
    set.insert(t.begin(), t.end());
    for (auto &s : t) {
      for (std::size_t l = 0; l < s.size(); l += (s.size() > 20 ? 13 : 1)) set.insert(s.substr(0, l));
      for (const char *e : {"a", "0", "\xff", "zz", "~"}) set.insert(s + e);
    }
    for (const char *e : {"", "\x01", "\xff\xff\xff", "zzzz", "/"}) set.insert(e);
    Terms w(set.begin(), set.end());
    std::size_t n = 0;
    for (auto &s : w) {
      std::unique_ptr<std::string> gone(new std::string(s));
      for (int rep = 0; rep < 2; rep++) {
        MC_CHECK(!d->add(*gone), "add(" << mc::q(s) << ") on a finished dictionary returns true");
        MC_CHECK(!d->remove(*gone), "remove(" << mc::q(s) << ") on a finished dictionary returns true");
      }
      gone.reset();
      MC_CHECK(d->contains(s) == std::binary_search(t.begin(), t.end(), s) && d->size() == t.size(), "membership of " << mc::q(s) << " or the size has changed after add and remove of it");
      if (n++ % 100 == 0 || n == w.size()) {
        check_holds(*d, t, w, "after refused changes up to " + mc::q(s));
        MC_CHECK(*d == *pristine && *pristine == *d && std::hash<ll::Dawg>()(*d) == h, "equality or hash code have changed after refused changes up to " << mc::q(s));
      }
      mc::transitions(4);
    }
    mc::state(mc::mix(i, h)); mc::trace(w.size()); mc::nontrivial();
  };
  f.describe = [](u64 i) { return std::string(i & 1 ? "loaded" : "built") + " dictionary " + std::to_string(i / 2); };
  fs.push_back(f);
}

// ---- C22 ----------------------------------------------------------------------
static void c22_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  // Operations: add an edge for one of the labels to a new node, the same again to
  // the node it already leads to, and setting the final flag.
  const std::string labels("a\x00\x80\xff", 4);
  const int NL = 4, OPS = NL * 2 + 2;
  int L = o.thorough ? 6 : 5;
  auto text = [=](int op) {
    if (op < NL) return "edge " + mc::q(std::string(1, labels[op])) + " to a new node";
    if (op < 2 * NL) return "edge " + mc::q(std::string(1, labels[op - NL])) + " to its present target";
    return std::string(op == 2 * NL ? "final" : "not final");
  };
  mc::Family f;
  f.name = "edge-histories";
  u64 n = 1;
  for (int l = 0; l < L; l++) n *= OPS;
  f.count = n * 3;
  f.rule = "all sequences of " + std::to_string(L) + " operations (edge for one of 4 labels to a new or to its present target, final flag), from an empty node, a final node, a node constructed with two edges";
  f.chunk = 64;
  auto decode = [=](u64 i) { std::vector<int> v; u64 k = i / 3; for (int l = 0; l < L; l++) { v.push_back((int)(k % OPS)); k /= OPS; } return v; };
  f.run = [=](u64 i) {
    std::map<char, ll::DawgNode *> model;
    std::map<ll::DawgNode *, bool> flag;     // contents of the targets
    bool fin = false;
    ll::DawgNode *node;
    int serial = 0;
    auto fresh = [&] { bool b = serial++ & 1; auto *t = new ll::DawgNode(b); flag[t] = b; return t; };
    if (i % 3 == 0) node = new ll::DawgNode();
    else if (i % 3 == 1) { node = new ll::DawgNode(true); fin = true; }
    else { model['a'] = fresh(); model['\x80'] = fresh(); auto arg = model; node = new ll::DawgNode(arg, true); fin = true; arg.clear(); }
    std::string done;
    auto check = [&] {
      MC_CHECK(node->is_final() == fin, "final flag is wrong after" << done);
      std::map<char, ll::DawgNode *> seen;
      std::size_t visits = 0;
      node->for_each_edge([&](char c, ll::DawgNode *t) { seen[c] = t; visits++; });
      MC_CHECK(visits == model.size() && seen == model, "visiting the edges reports " << visits << " edges, other than the " << model.size() << " present, after" << done);
      for (char c : {'a', '\0', '\x80', '\xff', 'b', '\x7f', '\x01'}) {
        auto it = model.find(c);
        ll::DawgNode *want = it == model.end() ? nullptr : it->second;
        MC_CHECK(node->transition(c) == want, "the transition for " << mc::q(std::string(1, c)) << " is " << (want ? "not the target added last" : "not null") << " after" << done);
        if (want) MC_CHECK(want->is_final() == flag[want], "the target's final flag has changed after" << done);
      }
      mc::transitions();
    };
    check();
    for (int op : decode(i)) {
      done += "; " + text(op);
      if (op < 2 * NL) {
        char c = labels[op % NL];
        ll::DawgNode *t = op < NL ? fresh() : nullptr;
        if (op >= NL) { auto it = model.find(c); t = it == model.end() ? fresh() : it->second; }
        ll::DawgNode *r = node->add_edge(c, t);
        MC_CHECK(r == node, "add_edge does not return its node after" << done);
        model[c] = t;
      } else {
        fin = op == 2 * NL;
        node->is_final(fin);
      }
      check();
    }
    u64 h = fin;
    for (auto &[c, t] : model) h = mc::mix(h, (unsigned char)c * 2 + flag[t]);
    mc::state(h); mc::trace(); if (model.size()) mc::nontrivial();
    for (auto &[c, t] : model) delete t;
    delete node;
  };
  f.describe = [=](u64 i) { std::string s = i % 3 == 0 ? "empty node" : i % 3 == 1 ? "final node" : "node with two edges"; for (int op : decode(i)) s += "; " + text(op); return s; };
  fs.push_back(f);
  {
    // Nothing but the operations of the history itself looks at the node before its end.
    static const std::string L3("a\x80\xff", 3);
    int L = o.thorough ? 7 : 6;
    enum { OPS = 10 };
    auto text = [](int op) {
      if (op < 3) return "edge " + mc::q(std::string(1, L3[op])) + " to a new node";
      if (op < 6) return "ask for " + mc::q(std::string(1, L3[op - 3]));
      if (op == 6) return std::string("ask for \"b\"");
      return std::string(op == 7 ? "visit" : op == 8 ? "toggle final" : "another node in its place");
    };
    mc::Family f;
    f.name = "asked-histories";
    f.rule = "all sequences of " + std::to_string(L) + " operations (edge for one of 3 labels to a new node, asking for one of 4 labels, visiting, toggling the final flag, replacing the node by a new one at the same address); every answer and, at the end, everything checked";
    f.count = 1;
    for (int l = 0; l < L; l++) f.count *= OPS;
    f.chunk = 1024;
    auto decode = [=](u64 i) { std::vector<int> v; for (int l = 0; l < L; l++) { v.push_back((int)(i % OPS)); i /= OPS; } return v; };
    f.run = [=](u64 i) {
      static std::aligned_storage_t<sizeof(ll::DawgNode), alignof(ll::DawgNode)> room;
      auto *node = new (&room) ll::DawgNode();
      bool fin = false;
      int done = 0;
      std::map<char, ll::DawgNode *> model;
      auto ops = decode(i);
      auto after = [&] { std::string r; for (int k = 0; k < done; k++) r += "; " + text(ops[k]); return r; };
      auto ask = [&](char c) {
        auto it = model.find(c);
        ll::DawgNode *want = it == model.end() ? nullptr : it->second;
        MC_CHECK(node->transition(c) == want, "the transition for " << mc::q(std::string(1, c)) << " is " << (want ? "not the target added last" : "not null") << " after" << after());
        mc::transitions();
      };
      auto visit = [&] {
        std::map<char, ll::DawgNode *> seen;
        std::size_t visits = 0;
        node->for_each_edge([&](char c, ll::DawgNode *t) { seen[c] = t; visits++; });
        MC_CHECK(visits == model.size() && seen == model, "visiting the edges reports other than those added after" << after());
        mc::transitions();
      };
      for (int op : ops) {
        if (op < 3) { auto *t = new ll::DawgNode(); node->add_edge(L3[op], t); model[L3[op]] = t; }
        else if (op < 6) ask(L3[op - 3]);
        else if (op == 6) ask('b');
        else if (op == 7) visit();
        else if (op == 8) { fin = !fin; node->is_final(fin); }
        else { node->~DawgNode(); for (auto &[c, t] : model) delete t; model.clear(); node = new (&room) ll::DawgNode(); fin = false; }
        done++;
      }
      MC_CHECK(node->is_final() == fin, "the final flag is wrong after" << after());
      ask('b'); ask(L3[2]); ask(L3[0]); visit(); ask(L3[1]);
      u64 h = fin;
      for (auto &[c, t] : model) h = mc::mix(h, (unsigned char)c);
      mc::state(mc::mix(h, i % 10000)); mc::trace(); if (model.size()) mc::nontrivial();
      node->~DawgNode();
      for (auto &[c, t] : model) delete t;
    };
    f.describe = [=](u64 i) { std::string s; for (int op : decode(i)) s += (s.empty() ? "" : "; ") + text(op); return s; };
    fs.push_back(f);
  }
  mc::Family g;
  g.name = "all-labels";
  g.rule = "nodes with every number of edges up to 256, labels added in ascending, descending and interleaved order";
  g.count = 257 * 3;
  g.chunk = 8;
  g.run = [](u64 i) {
    int n = (int)(i / 3), order = (int)(i % 3);
    ll::DawgNode node;
    std::map<char, ll::DawgNode *> model;
    for (int k = 0; k < n; k++) {
      int v = order == 0 ? k : order == 1 ? 255 - k : (k * 167) % 256;
      auto *t = new ll::DawgNode();
      model[(char)v] = t;
      node.add_edge((char)v, t);
    }
    std::map<char, ll::DawgNode *> seen;
    std::size_t visits = 0;
    node.for_each_edge([&](char c, ll::DawgNode *t) { seen[c] = t; visits++; });
    MC_CHECK(visits == model.size() && seen == model, "visiting " << n << " edges reports " << visits << ", or wrong targets");
    for (int v = 0; v < 256; v++) {
      auto it = model.find((char)v);
      MC_CHECK(node.transition((char)v) == (it == model.end() ? nullptr : it->second), "transition for byte " << v << " of a node with " << n << " edges is wrong");
    }
    for (auto &[c, t] : model) delete t;
    mc::state(mc::mix(n, order)); mc::trace(); mc::transitions(n + 256); if (n) mc::nontrivial();
  };
  g.describe = [](u64 i) { return std::to_string(i / 3) + " edges, order " + std::to_string(i % 3); };
  fs.push_back(g);
}

// One dictionary is asked something, destroyed, and another one built in its place.
static void c10_successors(std::vector<mc::Family> &fs, const mc::Options &o) {
  static const Terms U = sorted({"", "a", "ab", "b", "ba", "bb"}), W = sorted({"", "a", "ab", "b", "ba", "bb", "aa"});
  mc::Family f;
  f.name = "successors";
  f.rule = "all pairs of subsets of " + show(U) + ", all ordered pairs of " + std::to_string(W.size()) + " terms and iterating: the first dictionary is asked the one and destroyed, the second one built in its place and asked the other, then examined";
  f.count = 64 * 64;
  f.chunk = 16;
  f.run = [](u64 i) {
    Terms a = ref::subset(U, i / 64), b = ref::subset(U, i % 64);
    int n = (int)W.size() + 1;
    for (int x = 0; x < n; x++)
      for (int y = 0; y < n; y++) {
        auto ask = [&](const ll::Dawg &d, const Terms &t, int k, const char *which) {
          auto what = [&] { return std::string(which) + " (" + show(a) + ", asked for " + (x == n - 1 ? "all terms" : mc::q(W[x])) + ", then " + show(b) + " in its place)"; };
          if (k == n - 1) { Terms r = iterate(d, t.size() + 2); MC_CHECK(sorted(r) == t && r.size() == t.size(), what() << " iterates over " << show(r)); return; }
          bool want = std::binary_search(t.begin(), t.end(), W[k]);
          MC_CHECK(d.contains(W[k]) == want, what() << (want ? " lacks " : " contains ") << mc::q(W[k]));
          mc::transitions();
        };
        { DawgPtr d = build(a); ask(*d, a, x, "the first dictionary"); }
        DawgPtr e = build(b);
        ask(*e, b, y, "the second dictionary");
        MC_CHECK(e->size() == b.size(), "the second dictionary " << show(b) << " has size " << e->size());
        if (y == x) for (int k = n - 1; k >= 0; k--) ask(*e, b, k, "the second dictionary");
        mc::trace();
      }
    mc::state(mc::mix(i, 71)); mc::nontrivial();
  };
  f.describe = [](u64 i) { return show(ref::subset(U, i / 64)) + ", then " + show(ref::subset(U, i % 64)); };
  fs.push_back(f);
  fs.push_back(mc::reused(f));
}

int main(int argc, char **argv) {
  return mc::drive(argc, argv, [](const mc::Options &o) {
    std::vector<mc::Family> fs;
    if (o.prop == "C10") { content_families(fs, o, check_c10, true); c10_successors(fs, o); mc::add_reused(fs, {"subsets-ab3", "sequences"}); }
    if (o.prop == "C11") { c11_families(fs, o); mc::add_reused(fs, {"sequences"}); }
    if (o.prop == "C12") { content_families(fs, o, check_c12, true); mc::add_reused(fs, {"subsets-ab3", "subsets-tails"}); }
    if (o.prop == "C13") { c13_families(fs, o); mc::add_reused(fs, {"pairs-ab2", "pairs-tails", "successors"}); }
    if (o.prop == "C18") { c18_families(fs, o); c18_large(fs, o); mc::add_reused(fs, {"built", "loaded"}); }
    if (o.prop == "C22") { c22_families(fs, o); mc::add_reused(fs, {"edge-histories"}); }
    return fs;
  });
}
