// C23: running out of memory. Every allocation of every operation fails in turn.
#include "alloc.h"
#include "dictlib.h"
#include <sstream>
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/transducer/transducer.h"

using namespace dl;
namespace lld = liblevenshtein::distance;

// Runs `op` with its k-th allocation failing, for k = 0, 1, ... until none fails.
// `stay`: memory stays exhausted for the rest of the operation. After each run
// `after(failed)` looks at what is left.
struct Sweep {
  bool stay;
  u64 runs = 0, failures = 0;
  template <class Setup, class Op, class After> void operator()(const std::string &what, Setup setup, Op op, After after) {
    for (long k = 0;; k++) {
      auto w = setup();
      bool threw = false;
      alloc::seen = 0; alloc::fail_at = k; alloc::stay = stay; alloc::delivered = false;
      alloc::armed = true;
      try { op(*w); }
      catch (std::bad_alloc &) { threw = true; }
      catch (...) { alloc::armed = false; throw; }
      alloc::armed = false;
      bool delivered = alloc::delivered;
      auto ctx = [&] { return what + ", allocation " + std::to_string(k + 1) + (stay ? " and all later ones fail" : " fails"); };
      MC_CHECK(!threw || delivered, what << ": reports that memory ran out, which it did not");
      after(*w, threw, delivered, ctx);
      runs++;
      failures += delivered;
      mc::transitions(); mc::trace();
      mc::state(mc::mix(mc::hash_str(what), k * 4 + stay * 2 + threw));
      if (delivered) mc::nontrivial();
      if (!delivered) break;
      MC_CHECK(k < 200000, what << ": does not end");
    }
  }
};

using Answer = std::vector<std::string>;
static std::string text(const std::string &s) { return s; }
static std::string text(const ll::Candidate &c) { return c.first + "=" + std::to_string(c.second); }
static Answer expected(int alg, bool plain, const Terms &t, const std::string &q, std::size_t n) {
  Answer r;
  for (auto &x : t) { std::size_t d = ref::dist(alg, x, q); if (d <= n) r.push_back(plain ? x : x + "=" + std::to_string(d)); }
  std::sort(r.begin(), r.end());
  return r;
}
static std::string show_answer(Answer a) { return mc::qs(a.begin(), a.end()); }
template <class Tr> static Answer all_of(Tr &tr, const std::string &q, std::size_t n, std::size_t limit) {
  Answer r;
  for (const auto &c : tr(q, n)) { r.push_back(text(c)); MC_CHECK(r.size() <= limit, "a query does not end"); }
  std::sort(r.begin(), r.end());
  return r;
}

template <ll::Algorithm A, class R> static void queries(int alg, bool plain, const Terms &terms, const std::string &q, std::size_t n, bool stay) {
  struct World {
    DawgPtr d;
    ll::Transducer<A, R> tr;
    std::unique_ptr<ll::LazyIterator<R>> range;
    std::unique_ptr<ll::LazyQuery<R>> other;      // begun before, read on afterwards
    Answer got, rest;
    bool ended = false;
    explicit World(const Terms &t) : d(build(t)), tr(d->root()) {}
  };
  std::string what = std::string(ref::alg_name(alg)) + (plain ? " plain" : "") + " query " + mc::q(q) + " within " + std::to_string(n) + " over " + show(terms);
  Answer want = expected(alg, plain, terms, q, n);
  Sweep sweep{stay};
  // asked afresh, begun again from a result object made before, or asked of a transducer made for it
  for (int shared = 0; shared < 3; shared++)
    sweep(what + (shared == 1 ? " (begun again)" : shared == 2 ? " (transducer included)" : ""),
      [&] {
        auto w = std::make_unique<World>(terms);
        w->range.reset(new ll::LazyIterator<R>(w->tr(q, n)));
        w->other.reset(new ll::LazyQuery<R>(w->range->begin()));
        w->got.reserve(64);
        return w;
      },
      [&](World &w) {
        // strings kept by the harness are made outside of the budget
        auto keep = [&](const R &c) { alloc::armed = false; w.got.push_back(text(c)); if (w.got.size() > terms.size() + 2) mc::fail(what + ": does not end"); alloc::armed = true; };
        if (shared == 1) { for (auto it = w.range->begin(), end = w.range->end(); it != end; ++it) keep(*it); }
        else if (shared == 2) { ll::Transducer<A, R> tr(w.d->root()); for (const R &c : tr(q, n)) keep(c); }
        else { for (const R &c : w.tr(q, n)) keep(c); }
        w.ended = true;
      },
      [&](World &w, bool threw, bool delivered, auto ctx) {
        std::sort(w.got.begin(), w.got.end());
        if (w.ended) MC_CHECK(w.got == want, ctx() << ": nothing is reported, but it yields " << show_answer(w.got) << " instead of " << show_answer(want));
        else MC_CHECK(std::includes(want.begin(), want.end(), w.got.begin(), w.got.end()), ctx() << ": before that is reported, it yields " << show_answer(w.got) << ", which are not among " << show_answer(want));
        Answer rest;
        auto end = w.range->end();
        while (*w.other != end) { rest.push_back(text(**w.other)); MC_CHECK(rest.size() <= want.size(), ctx() << ": an iteration begun before does not end"); ++*w.other; }
        std::sort(rest.begin(), rest.end());
        MC_CHECK(rest == want, ctx() << ": an iteration begun before then yields " << show_answer(rest) << " instead of " << show_answer(want));
        MC_CHECK(all_of(w.tr, q, n, terms.size() + 2) == want, ctx() << ": asked again, it gives another answer");
        check_holds(*w.d, terms, {"", "a", "zz", "ab"}, ctx() + ": the dictionary afterwards");
      });
}
static void queries(int alg, bool plain, const Terms &t, const std::string &q, std::size_t n, bool stay) {
  using A = ll::Algorithm;
  if (plain) {
    if (alg == 0) queries<A::STANDARD, std::string>(alg, plain, t, q, n, stay);
    if (alg == 1) queries<A::TRANSPOSITION, std::string>(alg, plain, t, q, n, stay);
    if (alg == 2) queries<A::MERGE_AND_SPLIT, std::string>(alg, plain, t, q, n, stay);
  } else {
    if (alg == 0) queries<A::STANDARD, ll::Candidate>(alg, plain, t, q, n, stay);
    if (alg == 1) queries<A::TRANSPOSITION, ll::Candidate>(alg, plain, t, q, n, stay);
    if (alg == 2) queries<A::MERGE_AND_SPLIT, ll::Candidate>(alg, plain, t, q, n, stay);
  }
}

static std::unique_ptr<lld::Distance> distance(int alg) {
  if (alg == 0) return std::make_unique<lld::StandardDistance>();
  if (alg == 1) return std::make_unique<lld::TranspositionDistance>();
  return std::make_unique<lld::MergeAndSplitDistance>();
}

static std::vector<mc::Family> make(const mc::Options &o) {
  std::vector<mc::Family> fs;
  bool T = o.thorough;
  {
    const Terms U = sorted({"", "a", "ab", "ba", "abb"});
    const Terms Q = T ? ref::words("ab", 3) : Terms{"", "ab", "bba"};
    const std::vector<std::size_t> N = T ? std::vector<std::size_t>{0, 1, 2, 3, SIZE_MAX} : std::vector<std::size_t>{1, 2};
    u64 per = Q.size() * N.size() * 12;
    mc::Family f;
    f.name = "queries";
    f.rule = "all subsets of " + show(U) + ", each algorithm and format, " + std::to_string(Q.size()) + " queries, " + std::to_string(N.size()) + " bounds, asked afresh, begun again from an earlier result object, and asked of a transducer made within the budget: every allocation fails in turn, alone or with all later ones; afterwards an iteration begun before is read on, the query asked again, the dictionary examined";
    f.count = 32 * per;
    f.chunk = 8;
    auto dec = [=](u64 i) { u64 k = i % per; return std::make_tuple(ref::subset(U, i / per), (int)(k % 3), (bool)(k / 3 % 2), (bool)(k / 6 % 2), Q[k / 12 % Q.size()], N[k / 12 / Q.size()]); };
    f.run = [=](u64 i) { auto [t, alg, plain, stay, q, n] = dec(i); queries(alg, plain, t, q, n, stay); };
    f.describe = [=](u64 i) { auto [t, alg, plain, stay, q, n] = dec(i); return std::string(ref::alg_name(alg)) + " query " + mc::q(q) + " within " + std::to_string(n) + " over " + show(t); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "long-queries";
    f.rule = "terms and queries of 10, 16, 33 and " + std::string(T ? "130" : "70") + " characters (past the short-string limit and its doublings), each algorithm and format, bounds 0 to 2, likewise";
    f.count = 4 * 12 * 3;
    f.chunk = 1;
    f.case_limit = 200;
    f.run = [=](u64 i) {
      static const std::size_t L[] = {10, 16, 33, std::size_t(T ? 130 : 70)};
      std::size_t l = L[i / 36], n = i / 12 % 3;
      if (!T && (n > 1 || (l > 16 && n > 0))) return;
      if (l > 40 && n > (T ? 1 : 0)) return;
      std::string q;
      for (std::size_t k = 0; k < l; k++) q += (char)('a' + k * k % 5);
      queries((int)(i % 3), i / 3 % 2, sorted({q, q + "x", q.substr(1), q.substr(0, l / 2) + "y" + q.substr(l / 2), q.substr(0, l - 1) + "z"}), q, n, i / 6 % 2);
    };
    f.describe = [](u64 i) { return "long query, case " + std::to_string(i); };
    fs.push_back(f);
  }
  {
    const Terms W = sorted(ref::words("ab", T ? 4 : 3));
    mc::Family f;
    f.name = "distances";
    f.rule = "every pair of strings over {a, b} up to length " + std::to_string(T ? 4 : 3) + ", the three distance objects, new ones and ones that already hold results: every allocation of the call fails in turn, alone or with all later ones; afterwards the same pair, the swapped pair and all pairs of suffixes are asked";
    f.count = W.size() * 6;
    f.chunk = 1;
    f.run = [=](u64 i) {
      int alg = (int)(i % 3); bool stay = i / 3 % 2;
      const std::string &u = W[i / 6];
      for (auto &v : W)
        for (int warm = 0; warm < 2; warm++) {
          struct World { std::unique_ptr<lld::Distance> d; std::size_t got = 0; bool ended = false; };
          std::string what = std::string(ref::alg_name(alg)) + " distance of " + mc::q(u) + " and " + mc::q(v) + (warm ? " (some results held)" : "");
          Sweep sweep{stay};
          sweep(what,
            [&] {
              auto w = std::make_unique<World>();
              w->d = distance(alg);
              if (warm && u.size() > 1) (*w->d)(u.substr(1), v);
              if (warm && v.size() > 1) (*w->d)(u, v.substr(1));
              return w;
            },
            [&](World &w) { w.got = (*w.d)(u, v); w.ended = true; },
            [&](World &w, bool threw, bool delivered, auto ctx) {
              if (w.ended) MC_CHECK(w.got == ref::dist(alg, u, v), ctx() << ": nothing is reported, but it is " << w.got << " instead of " << ref::dist(alg, u, v));
              auto same = [&](const std::string &a, const std::string &b) { std::size_t g = (*w.d)(a, b), x = ref::dist(alg, a, b); MC_CHECK(g == x, ctx() << ": afterwards the distance of " << mc::q(a) << " and " << mc::q(b) << " is " << g << " instead of " << x); };
              same(u, v); same(v, u); same(u, v);
              for (std::size_t x = 0; x <= u.size(); x++) for (std::size_t y = 0; y <= v.size(); y++) same(u.substr(x), v.substr(y));
            });
        }
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " distances from " + mc::q(W[i / 6]); };
    fs.push_back(f);
  }
  for (int lng = 0; lng < 2; lng++) {
    Terms U = sorted(ref::words("ab", 2));
    if (lng) {
      const std::size_t L[] = {15, 16, 31, std::size_t(T ? 130 : 40)};
      U.clear();
      for (auto l : L) { std::string q; for (std::size_t k = 0; k < l; k++) q += (char)('a' + (k * k + l) % 5); U.push_back(q); }
      U = sorted(U);
    }
    mc::Family f;
    f.name = lng ? "long-reading" : "reading";
    f.rule = "all subsets of " + (lng ? "terms of 15, 16, 31 and " + std::string(T ? "130" : "40") + " characters" : show(U)) + ": iteration, membership, comparison, hashing and printing of the dictionary while every allocation fails in turn, alone or with all later ones; afterwards everything is examined";
    f.count = (u64(1) << U.size()) * 2;
    f.chunk = 2;
    f.run = [=](u64 i) {
      Terms t = ref::subset(U, i / 2);
      bool stay = i % 2;
      struct World { DawgPtr d, e; Answer got; bool ended = false; int verdict = -1; std::size_t h = 0; std::ostringstream os; };
      for (int op = 0; op < 5; op++) {
        static const char *names[] = {"iteration over", "membership in", "comparison of", "hashing of", "printing of"};
        Sweep sweep{stay};
        std::string what = std::string(names[op]) + " the dictionary " + show(t);
        sweep(what,
          [&] { auto w = std::make_unique<World>(); w->d = build(t); w->e = build(t); w->got.reserve(64); return w; },
          [&](World &w) {
            if (op == 0)
              for (auto it = w.d->begin(), end = w.d->end(); !(it == end); ++it) {
                std::string s = *it;
                alloc::armed = false; w.got.push_back(s); if (w.got.size() > t.size()) mc::fail(what + ": does not end"); alloc::armed = true;
              }
            if (op == 1) { bool all = true; for (auto &x : t) all &= w.d->contains(x); w.verdict = all; }
            if (op == 2) w.verdict = *w.d == *w.e && *w.d->root() == *w.e->root();
            if (op == 3) w.h = std::hash<ll::Dawg>()(*w.d);
            if (op == 4) w.os << *w.d;
            w.ended = true;
          },
          [&](World &w, bool threw, bool delivered, auto ctx) {
            std::sort(w.got.begin(), w.got.end());
            if (op == 0 && w.ended) MC_CHECK(w.got == t, ctx() << ": nothing is reported, but it yields " << show_answer(w.got));
            if (op == 0) MC_CHECK(std::includes(t.begin(), t.end(), w.got.begin(), w.got.end()), ctx() << ": before that is reported, it yields " << show_answer(w.got));
            if ((op == 1 || op == 2) && w.ended) MC_CHECK(w.verdict == 1, ctx() << ": nothing is reported, but the answer is wrong");
            if (op == 3 && w.ended) MC_CHECK(w.h == std::hash<ll::Dawg>()(*w.e), ctx() << ": nothing is reported, but the hash code is another one");
            check_holds(*w.d, t, U, ctx() + ": the dictionary afterwards");
            MC_CHECK(*w.d == *w.e && *w.e == *w.d && std::hash<ll::Dawg>()(*w.d) == std::hash<ll::Dawg>()(*w.e), ctx() << ": afterwards it no longer equals its copy");
          });
      }
    };
    f.describe = [=](u64 i) { return "reading " + show(ref::subset(U, i / 2)); };
    fs.push_back(f);
  }
  {
    const Terms U = sorted(ref::words("ab", 2));
    mc::Family f;
    f.name = "building";
    f.rule = "all subsets of " + show(U) + ": building through the factory, and term by term, while every allocation fails in turn, alone or with all later ones (the unfinished dictionary is then destroyed); another dictionary and its iteration stay as they were, and building again succeeds";
    f.count = 128 * 4;
    f.chunk = 2;
    f.run = [=](u64 i) {
      Terms t = ref::subset(U, i / 4);
      bool stay = i % 2, single = i / 2 % 2;
      const Terms ot = {"a", "ab", "bb"};
      struct World { DawgPtr other, made; std::unique_ptr<ll::SortedDawg> part; bool ended = false; Terms terms; };
      Sweep sweep{stay};
      sweep(std::string("building ") + show(t) + (single ? " term by term" : ""),
        [&] { auto w = std::make_unique<World>(); w->other = build(ot); w->terms = t; return w; },
        [&](World &w) {
          if (single) {
            w.part.reset(new ll::SortedDawg());
            w.part->init();
            for (auto &x : w.terms) if (!w.part->add(x)) mc::fail("add(" + mc::q(x) + ") is refused");
            w.part->finish();
            w.part->clean_up();
          } else w.made.reset(ll::sorted_dawg(w.terms.begin(), w.terms.end()));
          w.ended = true;
        },
        [&](World &w, bool threw, bool delivered, auto ctx) {
          if (w.ended) {
            ll::Dawg *d = single ? w.part.get() : w.made.get();
            MC_CHECK(d != nullptr, ctx() << ": nothing is reported, but there is no dictionary");
            check_holds(*d, t, U, ctx() + ": the dictionary");
          }
          w.part.reset();
          check_holds(*w.other, ot, U, ctx() + ": another dictionary afterwards");
          DawgPtr again = build(t);
          check_holds(*again, t, U, ctx() + ": the dictionary built afterwards");
        });
    };
    f.describe = [=](u64 i) { return "building " + show(ref::subset(U, i / 4)); };
    fs.push_back(f);
  }
  return fs;
}

int main(int argc, char **argv) { return mc::drive(argc, argv, make); }
