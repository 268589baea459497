// C01, C02, C03: a query returns exactly the terms within the bound, once each,
// with their exact distances. Argument: the algorithm (0, 1, 2).
#include "alloc.h"
#include "mc.h"
#include "ref.h"
#include <list>
#include "liblevenshtein/collection/sorted_dawg.h"
#include "liblevenshtein/transducer/transducer.h"

namespace ll = liblevenshtein;
using mc::u64;
using Terms = std::vector<std::string>;

static int ALG;

struct Dict {
  Terms terms;             // sorted, distinct
  ll::Dawg *dawg = nullptr;
  std::vector<ll::DawgNode *> trie;   // when built by hand
  ll::DawgNode *root() const { return dawg ? dawg->root() : trie.front(); }
  explicit Dict(Terms t, bool by_hand = false) : terms(std::move(t)) {
    std::sort(terms.begin(), terms.end());
    terms.erase(std::unique(terms.begin(), terms.end()), terms.end());
    if (by_hand) {   // a plain tree of nodes: building long terms is cubic in the library
      trie.push_back(new ll::DawgNode());
      for (auto &s : terms) {
        ll::DawgNode *n = trie.front();
        for (char c : s) {
          ll::DawgNode *m = n->transition(c);
          if (!m) { m = new ll::DawgNode(); trie.push_back(m); n->add_edge(c, m); }
          n = m;
        }
        n->is_final(true);
      }
      return;
    }
    dawg = ll::sorted_dawg(terms.begin(), terms.end());
    MC_CHECK(dawg != nullptr, "sorted terms were refused: " << mc::qs(terms.begin(), terms.end()));
  }
  ~Dict() { delete dawg; for (auto *n : trie) delete n; }
  Dict(const Dict &) = delete;
};

template <ll::Algorithm A>
void check_query_as(const Dict &d, const std::string &query, std::size_t n, const std::vector<std::size_t> *dists) {
  // expectation
  std::vector<int> seen(d.terms.size(), 0), seen2(d.terms.size(), 0);
  std::vector<std::size_t> dist(d.terms.size());
  std::size_t want = 0;
  for (std::size_t i = 0; i < d.terms.size(); i++) {
    dist[i] = dists ? (*dists)[i] : ref::dist(ALG, d.terms[i], query);
    if (dist[i] <= n) want++;
  }
  auto find = [&](const std::string &t) -> std::size_t {
    auto it = std::lower_bound(d.terms.begin(), d.terms.end(), t);
    if (it == d.terms.end() || *it != t) return SIZE_MAX;
    return it - d.terms.begin();
  };
  auto ctx = [&] {
    return std::string(ref::alg_name(ALG)) + " query " + mc::q(query) + " within " + std::to_string(n) + " over " +
           std::to_string(d.terms.size()) + " terms " + mc::qs(d.terms.begin(), d.terms.end());
  };
  u64 h = mc::mix(mc::hash_str(query), n), steps = 0;
  {
    ll::Transducer<A, ll::Candidate> transduce(d.root());
    std::size_t got = 0;
    for (const ll::Candidate &c : transduce(query, n)) {
      steps++;
      std::size_t k = find(c.first);
      MC_CHECK(k != SIZE_MAX, ctx() << ": yields " << mc::q(c.first) << ", which is not in the dictionary");
      MC_CHECK(dist[k] <= n, ctx() << ": yields " << mc::q(c.first) << ", whose distance is " << dist[k]);
      MC_CHECK(c.second == dist[k], ctx() << ": reports distance " << c.second << " for " << mc::q(c.first) << ", which is at distance " << dist[k]);
      MC_CHECK(!seen[k]++, ctx() << ": yields " << mc::q(c.first) << " twice");
      got++;
      h = mc::mix(h, mc::mix(k, c.second));
      MC_CHECK(got <= d.terms.size(), ctx() << ": does not end");
    }
    if (got != want)
      for (std::size_t i = 0; i < d.terms.size(); i++)
        MC_CHECK(dist[i] > n || seen[i], ctx() << ": misses " << mc::q(d.terms[i]) << ", which is at distance " << dist[i]);
  }
  {
    ll::Transducer<A, std::string> transduce(d.root());
    std::size_t got = 0;
    for (const std::string &t : transduce(query, n)) {
      steps++;
      std::size_t k = find(t);
      MC_CHECK(k != SIZE_MAX, ctx() << " (plain results): yields " << mc::q(t) << ", which is not in the dictionary");
      MC_CHECK(dist[k] <= n, ctx() << " (plain results): yields " << mc::q(t) << ", whose distance is " << dist[k]);
      MC_CHECK(!seen2[k]++, ctx() << " (plain results): yields " << mc::q(t) << " twice");
      got++;
      MC_CHECK(got <= d.terms.size(), ctx() << " (plain results): does not end");
    }
    MC_CHECK(got == want, ctx() << " (plain results): " << got << " terms instead of " << want);
  }
  mc::state(h);
  mc::transitions(steps + 2);
  mc::trace(2);
  if (want && want < d.terms.size()) mc::nontrivial();
}

void check_query(const Dict &d, const std::string &query, std::size_t n, const std::vector<std::size_t> *dists = nullptr) {
  switch (ALG) {
  case 0: check_query_as<ll::Algorithm::STANDARD>(d, query, n, dists); break;
  case 1: check_query_as<ll::Algorithm::TRANSPOSITION>(d, query, n, dists); break;
  default: check_query_as<ll::Algorithm::MERGE_AND_SPLIT>(d, query, n, dists); break;
  }
}

static std::vector<std::size_t> distances(const Dict &d, const std::string &query) {
  std::vector<std::size_t> r(d.terms.size());
  for (std::size_t i = 0; i < r.size(); i++) r[i] = ref::dist(ALG, d.terms[i], query);
  return r;
}

// The distances from `query` to every string of a complete dictionary (all
// strings up to a length), by extending columns along the trie: same recurrence
// as ref::dist, one column per prefix.
static std::string show(const std::string &q, const std::vector<std::size_t> &ns) {
  std::string s = mc::q(q) + " within";
  for (auto n : ns) s += " " + std::to_string(n);
  return s;
}

static std::shared_ptr<Dict> cached;
static std::string cached_key;
static Dict &complete_dict(const std::string &alphabet, std::size_t len) {
  std::string key = alphabet + "/" + std::to_string(len);
  if (key != cached_key) { cached.reset(); cached = std::make_shared<Dict>(ref::words(alphabet, len)); cached_key = key; }
  return *cached;
}

static void add_complete(std::vector<mc::Family> &fs, const std::string &name, const std::string &da, std::size_t dl,
                         const std::string &qa, std::size_t qmin, std::size_t qmax, std::vector<std::size_t> ns, int chunk = 4) {
  auto queries = std::make_shared<Terms>(ref::words(qa, qmax, qmin));
  mc::Family f;
  f.name = name;
  f.count = queries->size();
  f.chunk = chunk;
  f.rule = "dictionary of all strings over {" + da + "} up to length " + std::to_string(dl) + "; every query over {" + qa + "} of length " +
           std::to_string(qmin) + ".." + std::to_string(qmax) + show("", ns).substr(2);
  f.prepare = [=] { complete_dict(da, dl); };
  f.run = [=](u64 i) {
    Dict &d = complete_dict(da, dl);
    auto dd = distances(d, (*queries)[i]);
    for (auto n : ns) check_query(d, (*queries)[i], n, &dd);
  };
  f.describe = [=](u64 i) { return show((*queries)[i], ns) + " over all strings of {" + da + "} up to length " + std::to_string(dl); };
  fs.push_back(f);
}

// All results of one or two edits of w, over `alphabet`, at every place.
static void edits(const std::string &w, const std::string &alphabet, std::set<std::string> &out) {
  for (std::size_t i = 0; i <= w.size(); i++) {
    for (char c : alphabet) out.insert(w.substr(0, i) + c + w.substr(i));
    if (i < w.size()) {
      out.insert(w.substr(0, i) + w.substr(i + 1));
      for (char c : alphabet) out.insert(w.substr(0, i) + c + w.substr(i + 1));
      for (char c : alphabet) for (char e : alphabet) out.insert(w.substr(0, i) + c + e + w.substr(i + 1));
    }
    if (i + 1 < w.size()) {
      out.insert(w.substr(0, i) + w[i + 1] + w[i] + w.substr(i + 2));
      for (char c : alphabet) out.insert(w.substr(0, i) + c + w.substr(i + 2));
    }
  }
}

int main(int argc, char **argv) {
  return mc::drive(argc, argv, [](const mc::Options &o) {
    ALG = o.args.empty() ? 0 : std::stoi(o.args[0]);
    bool T = o.thorough;
    std::vector<mc::Family> fs;

    {  // every small dictionary
      auto u = std::make_shared<Terms>(ref::words("ab", 2));
      auto queries = std::make_shared<Terms>(ref::words("abc", T ? 4 : 3));
      std::vector<std::size_t> ns{0, 1, 2, 3, 4, SIZE_MAX};
      mc::Family f;
      f.name = "all-dictionaries";
      f.rule = "every one of the 128 sets of strings over {a,b} up to length 2; every query over {a,b,c} up to length " + std::to_string(T ? 4 : 3) +
               " within 0,1,2,3,4 and the largest bound";
      f.count = 1u << u->size();
      f.chunk = 1;
      f.run = [=](u64 i) {
        Dict d(ref::subset(*u, i));
        mc::state(mc::mix(77, i));
        for (auto &q : *queries) for (auto n : ns) check_query(d, q, n);
      };
      f.describe = [=](u64 i) { auto s = ref::subset(*u, i); return "dictionary " + mc::qs(s.begin(), s.end()) + ", all queries"; };
      fs.push_back(f);
    }
    {
      auto u = std::make_shared<Terms>(ref::words("ab", 3));
      auto subs = std::make_shared<std::vector<std::vector<int>>>(ref::subsets_upto(u->size(), T ? 5 : 4));
      auto queries = std::make_shared<Terms>(ref::words("ab", T ? 5 : 4));
      mc::Family f;
      f.name = "small-dictionaries";
      f.rule = "every set of at most " + std::to_string(T ? 5 : 4) + " strings over {a,b} up to length 3; every query over {a,b} up to length " +
               std::to_string(T ? 5 : 4) + " within 0..4";
      f.count = subs->size();
      f.run = [=](u64 i) {
        Terms t;
        for (int k : (*subs)[i]) t.push_back((*u)[k]);
        Dict d(t);
        mc::state(mc::mix(78, i));
        for (auto &q : *queries) for (std::size_t n = 0; n <= 4; n++) check_query(d, q, n);
      };
      f.describe = [=](u64 i) { Terms t; for (int k : (*subs)[i]) t.push_back((*u)[k]); return "dictionary " + mc::qs(t.begin(), t.end()) + ", all queries"; };
      fs.push_back(f);
    }
    // complete dictionaries: every pair of strings, so every path of the automaton those lengths allow
    add_complete(fs, "pairs-4", "abcd", T ? 6 : 4, "abcd", 0, T ? 6 : 5, {0, 1, 2, 3, 4, 5}, 4);
    add_complete(fs, "pairs-3", "abc", T ? 7 : 5, "abc", 0, T ? 7 : 6, {0, 1, 2, 3, 4, 5}, 4);
    add_complete(fs, "pairs-2", "ab", T ? 10 : 8, "ab", 0, T ? 10 : 8, {0, 1, 2, 3, 4, 5, 6}, 2);
    add_complete(fs, "pairs-5", "abcde", T ? 5 : 3, "abcde", 0, T ? 5 : 4, {0, 1, 2, 3, 4}, 4);
    add_complete(fs, "window-1", "ab", T ? 13 : 10, "ab", T ? 11 : 9, T ? 12 : 9, {0, 1}, 8);
    add_complete(fs, "window-3", "ab", T ? 12 : 9, "ab", T ? 11 : 9, T ? 11 : 9, {2, 3}, 4);

    {  // long queries for larger bounds: window truncation with many errors
      struct Q { std::string w; };
      auto qs = std::make_shared<Terms>();
      std::vector<int> lens = T ? std::vector<int>{8, 10, 12, 14, 16} : std::vector<int>{9, 11, 13};
      for (int L : lens) {
        // all strings with at most two blocks boundaries, and periodic ones
        for (int i = 0; i <= L; i += (T ? 1 : 2)) for (int j = i; j <= L; j += (T ? 2 : 5))
          qs->push_back(std::string(i, 'a') + std::string(j - i, 'b') + std::string(L - j, 'a'));
        for (const char *p : {"ab", "abc", "aab", "abb", "abcd", "abac"}) {
          std::string w;
          while ((int)w.size() < L) w += p;
          qs->push_back(w.substr(0, L));
        }
        std::string all = "abcdefghijklmnop";
        qs->push_back(all.substr(0, L));
      }
      std::sort(qs->begin(), qs->end());
      qs->erase(std::unique(qs->begin(), qs->end()), qs->end());
      std::stable_sort(qs->begin(), qs->end(), [](auto &a, auto &b) { return a.size() < b.size(); });
      mc::Family f;
      f.name = "edit-neighbourhoods";
      f.rule = "block, periodic and all-distinct queries of length " + std::to_string(lens.front()) + ".." + std::to_string(lens.back()) +
               "; dictionary of every string one edit away, every second one of those edited again at each end and in the middle; bounds 0..6";
      f.count = qs->size();
      f.chunk = 1;
      f.run = [=](u64 i) {
        const std::string &w = (*qs)[i];
        std::set<std::string> one, all;
        edits(w, "ab", one);
        all = one;
        all.insert(w);
        int k = 0;
        for (auto &s : one) {
          if (k++ % 2) continue;
          std::set<std::string> x;
          std::size_t m = s.size() / 2;
          std::string head = s.substr(0, 3), tail = s.substr(s.size() - 3), mid = s.substr(m, 3);
          x.clear(); edits(head, "ab", x); int c = 0;
          for (auto &y : x) if (c++ % 4 == k % 4) all.insert(y + s.substr(3));
          x.clear(); edits(tail, "ab", x); c = 0;
          for (auto &y : x) if (c++ % 4 == k % 4) all.insert(s.substr(0, s.size() - 3) + y);
          x.clear(); edits(mid, "ab", x); c = 0;
          for (auto &y : x) if (c++ % 4 == k % 4) all.insert(s.substr(0, m) + y + s.substr(m + 3));
        }
        Dict d(Terms(all.begin(), all.end()));
        auto dd = distances(d, w);
        for (std::size_t n = 0; n <= 6; n++) check_query(d, w, n, &dd);
      };
      f.describe = [=](u64 i) { return "neighbourhood of " + mc::q((*qs)[i]) + " within 0..6"; };
      fs.push_back(f);
    }
    {  // every byte value, every pair of byte values
      mc::Family f;
      f.name = "byte-pairs";
      f.rule = "for every byte x and every byte y of a class list: dictionary of all strings over {x,y} up to length 2 plus xyx, yxy; queries x, xy, yx, xyx, xxyy within 0..2 and the largest bound";
      auto ys = std::make_shared<std::string>();
      if (T) for (int y = 0; y < 256; y++) *ys += (char)y;
      else *ys = std::string("\x00\x01\x09\x0a\x20\x2f\x41\x61\x7a\x7e\x7f\x80\x81\xbf\xc3\xfe\xff", 17);
      f.count = 256 * ys->size();
      f.chunk = 64;
      f.run = [=](u64 i) {
        char x = (char)(i % 256), y = (*ys)[i / 256];
        std::string a(1, x), b(1, y);
        Dict d({"", a, b, a + b, b + a, a + a, b + b, a + b + a, b + a + b});
        for (auto &q : {a, a + b, b + a, a + b + a, a + a + b + b}) for (std::size_t n : {(std::size_t)0, (std::size_t)1, (std::size_t)2, SIZE_MAX}) check_query(d, q, n);
      };
      f.describe = [=](u64 i) { return "bytes " + mc::q(std::string(1, (char)(i % 256))) + " and " + mc::q(std::string(1, (*ys)[i / 256])); };
      fs.push_back(f);
    }
    {  // bounds at and around every power of two
      auto ns = std::make_shared<std::vector<std::size_t>>();
      for (std::size_t n = 0; n <= 40; n++) ns->push_back(n);
      for (int k = 5; k < 64; k++) for (int dlt = -2; dlt <= 2; dlt++) ns->push_back((((std::size_t)1) << k) + dlt);
      for (std::size_t n = SIZE_MAX - 4; n != 0; n++) ns->push_back(n);
      for (std::size_t n = (SIZE_MAX >> 1) - 4; n <= (SIZE_MAX >> 1) + 4; n++) ns->push_back(n);
      auto terms = std::make_shared<Terms>(Terms{"", "a", "ab", "abc", "b", "ba", "bab", "abab", "abcabcabc", "cccccccccccc", "abababababababababababababababababab"});
      auto queries = std::make_shared<Terms>(Terms{"", "a", "ba", "abc", "acb", "abcd", "bababa", "abababababababababababababababababab", std::string(45, 'b')});
      mc::Family f;
      f.name = "bounds";
      f.rule = "bounds 0..40, every power of two +-2 and the values next to the maximum and half the maximum of size_t; 11 terms x 9 queries of length 0..45";
      f.count = ns->size();
      f.chunk = 4;
      f.run = [=](u64 i) { Dict d(*terms); for (auto &q : *queries) check_query(d, q, (*ns)[i]); };
      f.describe = [=](u64 i) { return "bound " + std::to_string((*ns)[i]); };
      fs.push_back(f);
    }
    {  // lengths
      auto ls = std::make_shared<std::vector<int>>();
      int dense = T ? 300 : 70;
      for (int l = 0; l <= dense; l++) ls->push_back(l);
      for (int c : {127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}) for (int dlt = -1; dlt <= 1; dlt++) if (c + dlt > dense) ls->push_back(c + dlt);
      std::sort(ls->begin(), ls->end());
      ls->erase(std::unique(ls->begin(), ls->end()), ls->end());
      mc::Family f;
      f.name = "lengths";
      f.rule = "queries of every length 0.." + std::to_string(dense) + " and around 128, 256, 512, 1024 (one letter repeated, and all-distinct runs); terms shorter, longer and differing at the start, middle and end by up to 3; bounds 0..3";
      f.count = ls->size();
      f.chunk = 1;
      f.run = [=](u64 i) {
        int L = (*ls)[i];
        for (int kind = 0; kind < 2; kind++) {
          if (kind && L > 300) continue;
          std::string w;
          for (int k = 0; k < L; k++) w += kind ? (char)('a' + (k * 7 + k / 23) % 23) : 'a';
          Terms t;
          for (int cut = 0; cut <= 3; cut++) {
            if (L >= cut) { t.push_back(w.substr(cut)); t.push_back(w.substr(0, L - cut)); }
            t.push_back(w + std::string(cut, 'a'));
            t.push_back(std::string(cut, 'z') + w);
            std::string m = w;
            for (int k = 0; k < cut && k < L; k++) m[(L - 1) * k / 3] = 'z';
            t.push_back(m);
          }
          if (L >= 2) {
            std::string m = w; std::swap(m[L / 2], m[L / 2 - 1]); t.push_back(m);
            m = w; m[L - 1] = 'y'; m[L - 2] = 'z'; t.push_back(m);
            t.push_back(w.substr(0, L / 2) + w.substr(std::min(L, L / 2 + 2)));
            t.push_back(w.substr(0, L - 2) + "q");
          }
          Dict d(t, L > 100);
          auto dd = distances(d, w);
          for (std::size_t n = 0; n <= 3; n++) check_query(d, w, n, &dd);
        }
      };
      f.describe = [=](u64 i) { return "length " + std::to_string((*ls)[i]); };
      f.case_limit = 120;
      fs.push_back(f);
    }
    {  // distances and indices around the limits of narrow integers
      static const std::vector<int> L = {126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538};
      mc::Family f;
      f.name = "far-apart";
      f.rule = "lengths around powers of two up to 65538: terms of that length against queries of length 0..3 and the other way round, and (up to 300; not for merge-and-split, whose states grow too large) terms against queries with nothing in common; bounds next to the distance and the largest; above 5000 one term, one query and two bounds" + std::string(T ? "" : ", at 32768, 65536 and 65537 only");
      f.count = L.size() * 3;
      f.chunk = 1;
      f.case_limit = 200;
      f.run = [=](u64 i) {
        int l = L[i / 3];
        auto with = [&](const Dict &d, const std::string &q) {
          auto dd = distances(d, q);
          std::set<std::size_t> ns{SIZE_MAX, (std::size_t)l, (std::size_t)l - 1, (std::size_t)l + 1};
          for (auto x : dd) if (x > 100) { ns.insert(x); ns.insert(x - 1); }
          if (l > 5000) ns = {SIZE_MAX, *std::max_element(dd.begin(), dd.end()) - 1};
          for (auto n : ns) check_query(d, q, n, &dd);
        };
        std::string a(l, 'a'), b(l - 1, 'b'), m(l, 'c');
        b += 'a'; m[l / 2] = 'a';
        if (l > 5000) {
          if (!T && l != 65536 && l != 65537 && l != 32768) return;
          if (i % 3 == 0) { Dict d({m, "ab"}, true); with(d, "ab"); }
          if (i % 3 == 1) { Dict d({"", "ab"}, true); with(d, m); }
          return;
        }
        if (i % 3 == 0) { Dict d({a, b, m, "", "ab"}, true); for (const char *q : {"", "a", "ab", "bca"}) with(d, q); }
        if (i % 3 == 1) { Dict d({"", "a", "ab", "bca", "cc"}, true); for (auto &q : {a, b, m}) with(d, q); }
        if (i % 3 == 2 && l <= (ALG == 2 ? 0 : 300)) { Dict d({a, std::string(l, 'z'), a + "zz"}, true); with(d, std::string(l, 'q')); with(d, std::string(l - 1, 'q') + 'a'); }
      };
      f.describe = [](u64 i) { return "length " + std::to_string(L[i / 3]) + (i % 3 == 0 ? " terms" : i % 3 == 1 ? " queries" : " both"); };
      fs.push_back(f);
    }
    {  // positions far into the query
      static const std::vector<int> L = {4096, 16384, 32767, 32768, 65535, 65536, 65537, 140000, 262145};
      mc::Family f;
      f.name = "long-matches";
      f.rule = "queries of lengths around powers of two up to 262145 over a dictionary of terms next to them: equal, and differing at the first or last characters by a substitution, insertion, deletion, swap or merge; bounds 0, 1 and 2" + std::string(T ? "" : "; not at 16384, 65535 and 262145");
      f.count = L.size();
      f.chunk = 1;
      f.case_limit = 300;
      f.run = [=](u64 i) {
        int l = L[i];
        if (!T && (l == 16384 || l == 65535 || l == 262145)) return;
        std::string w;
        for (int k = 0; k < l; k++) w += (char)('a' + (k * 7 + k / 23) % 23);
        MC_CHECK(w[l - 1] != w[l - 2] && w[0] != w[1], "the letters at the ends must differ");
        auto swapped = w;
        std::swap(swapped[l - 1], swapped[l - 2]);
        auto at_start = w;
        std::swap(at_start[0], at_start[1]);
        std::size_t sw = ALG == 1 ? 1 : 2, mg = ALG == 2 ? 1 : 2;
        std::map<std::string, std::size_t> known = {
          {w, 0}, {w.substr(0, l - 1) + 'z', 1}, {w.substr(0, l - 1), 1}, {w + "z", 1}, {w + "zy", 2}, {w.substr(0, l - 2), 2}, {w.substr(0, l - 2) + 'z', mg}, {w.substr(0, l - 1) + "zy", mg},
          {swapped, sw}, {w.substr(1), 1}, {'z' + w, 1}, {'z' + w.substr(1), 1}, {'z' + w.substr(2), mg}, {at_start, sw}, {"zyx" + w, 3}, {w.substr(0, l / 2), (std::size_t)(l - l / 2)}};
        Terms t;
        std::vector<std::size_t> dd;
        for (auto &[s, k] : known) { t.push_back(s); dd.push_back(k); }
        Dict d(t, true);
        for (std::size_t n = 0; n <= 2; n++) check_query(d, w, n, &dd);
      };
      f.describe = [](u64 i) { return "length " + std::to_string(L[i]); };
      fs.push_back(f);
    }
    {  // what matches lies far ahead in the query
      static const std::vector<int> L = {60, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513};
      mc::Family f;
      f.name = "far-matches";
      f.rule = "queries that begin with 60 to 513 equal characters no term has, or have them in the middle, over terms that continue with, repeat or vary the rest; bounds from one less than that number to two more" + std::string(T || ALG != 2 ? "" : "; up to 258");
      f.count = L.size() * 2;
      f.chunk = 1;
      f.case_limit = 200;
      f.run = [=](u64 i) {
        std::size_t l = L[i / 2];
        if (!T && l > (ALG == 2 ? 258 : 513)) return;
        std::string gap(l, 'a');
        Terms t = {"cdefgh", "cdefg", "xcdefgh", "cdefhg", "cdefyh", "cgh", "dcefgh", "qhh", ""};
        if (ALG != 2) t.push_back(std::string(l / 2, 'b') + "cdefgh");   // merge-and-split: its states grow too large
        Dict d(t);
        std::string q = i & 1 ? "cd" + gap + "efgh" : gap + "cdefgh";
        auto dd = distances(d, q);
        for (std::size_t n = l - 1; n <= l + 2; n++) check_query(d, q, n, &dd);
      };
      f.describe = [](u64 i) { return std::to_string(L[i / 2]) + " characters " + (i & 1 ? "in the middle" : "at the start"); };
      fs.push_back(f);
    }
    {  // more answers, and more prefixes of one length, than fit narrow numbers or any limit one might set
      mc::Family f;
      f.name = "many-answers";
      f.rule = std::string("all strings of length ") + (T ? "6 over 10" : "4 over 19 (merge-and-split: 17)") + " characters, followed by one more character, on a hand-made graph, queried within the whole length by the empty string and by one of other characters: every one exactly once, at that distance";
      f.count = 2;
      f.chunk = 1;
      f.case_limit = 300;
      f.run = [=](u64 i) {
        int len = T ? 6 : 4, alpha = T ? 10 : ALG == 2 ? 17 : 19;
        std::vector<std::unique_ptr<ll::DawgNode>> nodes;
        nodes.emplace_back(new ll::DawgNode(true));
        nodes.emplace_back(new ll::DawgNode(false));
        nodes[1]->add_edge('x', nodes[0].get());
        std::size_t all = 1;
        for (int l = 0; l < len; l++) {
          auto *m = new ll::DawgNode(false);
          for (int c = 0; c < alpha; c++) m->add_edge((char)('a' + c), nodes.back().get());
          nodes.emplace_back(m);
          all *= alpha;
        }
        std::vector<bool> seen(all);
        std::size_t n = 0;
        std::string q(i ? len : 0, 'Z');
        std::size_t want = ref::dist(ALG, q, std::string(len, 'a') + 'x');
        auto take = [&](const ll::Candidate &c) {
          std::size_t k = 0;
          MC_CHECK(c.first.size() == (std::size_t)len + 1 && c.first.back() == 'x', "the query " << mc::q(q) << " yields " << mc::q(c.first) << ", which is no term");
          for (int j = 0; j < len; j++) { char x = c.first[j]; MC_CHECK(x >= 'a' && x < 'a' + alpha, "the query " << mc::q(q) << " yields " << mc::q(c.first) << ", which is no term"); k = k * alpha + (x - 'a'); }
          MC_CHECK(!seen[k], "the query " << mc::q(q) << " yields " << mc::q(c.first) << " twice");
          MC_CHECK(c.second == want, "the query " << mc::q(q) << " yields " << mc::q(c.first) << " at distance " << c.second);
          seen[k] = true;
          if (++n % 4096 == 0) mc::heartbeat();
        };
        if (ALG == 0) { ll::Transducer<ll::Algorithm::STANDARD, ll::Candidate> t(nodes.back().get()); for (auto &c : t(q, len + 1)) take(c); }
        if (ALG == 1) { ll::Transducer<ll::Algorithm::TRANSPOSITION, ll::Candidate> t(nodes.back().get()); for (auto &c : t(q, len + 1)) take(c); }
        if (ALG == 2) { ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, ll::Candidate> t(nodes.back().get()); for (auto &c : t(q, len + 1)) take(c); }
        MC_CHECK(n == all, "the query " << mc::q(q) << " within " << len + 1 << " yields " << n << " of " << all << " terms");
        mc::state(mc::mix(i, 77)); mc::trace(); mc::transitions(all); mc::nontrivial();
      };
      f.describe = [](u64 i) { return i ? "other characters" : "the empty query"; };
      fs.push_back(f);
    }
    {  // more than 2^16 terms, more than 2^8 edges on a node
      auto big = [](int kind) {
        Terms t;
        if (kind == 0) for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) t.push_back(std::string{(char)i, (char)j});
        else for (int i = 0; i < 66000; i++) { char b[16]; snprintf(b, sizeof b, "%05d", i); t.push_back(b); }
        return t;
      };
      mc::Family f;
      f.name = "large-dictionaries";
      f.rule = "all 65536 two-byte strings; the numbers 00000..65999; one query each within 0 and 1";
      f.count = 2;
      f.chunk = 1;
      f.case_limit = 200;
      f.run = [=](u64 i) { Dict d(big(i)); for (std::size_t n = 0; n <= 1; n++) check_query(d, i == 0 ? std::string("\xff\x00", 2) : "65536", n); };
      f.describe = [](u64 i) { return i == 0 ? "all two-byte strings" : "00000..65999"; };
      fs.push_back(f);
    }
    mc::add_reused(fs, {"all-dictionaries"});
    return fs;
  });
}
