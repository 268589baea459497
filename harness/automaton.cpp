// C19: the position list. C20: subsumption.
#include "alloc.h"
#include "mc.h"
#include "ref.h"
#include <array>
#include <memory>
#include <set>
#include <unordered_set>
#include "liblevenshtein/transducer/comparator.h"
#include "liblevenshtein/transducer/merge.h"
#include "liblevenshtein/transducer/position.h"
#include "liblevenshtein/transducer/position_transition.h"
#include "liblevenshtein/transducer/state.h"
#include "liblevenshtein/transducer/state_iterator.h"
#include "liblevenshtein/transducer/subsumes.h"
#include "liblevenshtein/transducer/unsubsume.h"

namespace ll = liblevenshtein;
using mc::u64;

struct Pos {
  std::size_t i, e;
  bool s;
  bool operator<(const Pos &o) const { return std::tie(i, e, s) < std::tie(o.i, o.e, o.s); }
  bool operator==(const Pos &o) const { return i == o.i && e == o.e && s == o.s; }
};
static std::string show(const Pos &p) { return "(" + std::to_string(p.i) + "," + std::to_string(p.e) + (p.s ? ",special" : "") + ")"; }
static std::string show(const std::vector<Pos> &v) { std::string r = "["; for (auto &p : v) r += (r.size() > 1 ? " " : "") + show(p); return r + "]"; }
static Pos read(const ll::Position *p) { return {p->term_index(), p->num_errors(), p->is_special()}; }
static ll::Position *make(const Pos &p) { return new ll::Position(p.i, p.e, p.s); }

static std::vector<Pos> contents(const ll::State &s, std::size_t limit, std::vector<ll::Position *> *ptr = nullptr) {
  std::vector<Pos> r;
  for (ll::Position *p = s.head(); p; p = p->next()) { r.push_back(read(p)); if (ptr) ptr->push_back(p); if (r.size() > limit) break; }
  return r;
}
static std::vector<Pos> iterated(ll::State &s, std::size_t limit) {
  std::vector<Pos> r;
  for (ll::Position *p : s) { MC_CHECK(p != nullptr, "iterating a state yields a null position"); r.push_back(read(p)); if (r.size() > limit) break; }
  return r;
}

static int compare_as(int alg, ll::Position *a, ll::Position *b) {
  return alg == 0 ? ll::compare<ll::Algorithm::STANDARD>(a, b) : alg == 1 ? ll::compare<ll::Algorithm::TRANSPOSITION>(a, b) : ll::compare<ll::Algorithm::MERGE_AND_SPLIT>(a, b);
}
static void merge_as(int alg, ll::State *s, const std::vector<ll::Position *> &v) {
  if (alg == 0) ll::merge<ll::Algorithm::STANDARD>(s, v); else if (alg == 1) ll::merge<ll::Algorithm::TRANSPOSITION>(s, v); else ll::merge<ll::Algorithm::MERGE_AND_SPLIT>(s, v);
}
static bool subsumes_as(int alg, ll::Position *a, ll::Position *b, std::size_t n) {
  return alg == 0 ? ll::subsumes<ll::Algorithm::STANDARD>(a, b, n) : alg == 1 ? ll::subsumes<ll::Algorithm::TRANSPOSITION>(a, b, n) : ll::subsumes<ll::Algorithm::MERGE_AND_SPLIT>(a, b, n);
}
static bool key_less(int alg, const Pos &a, const Pos &b) { return alg ? a < b : std::tie(a.i, a.e) < std::tie(b.i, b.e); }

// ---- C19: operation histories ---------------------------------------------------
// Model: a vector of positions, and a cursor: `cur` index of the current element
// (-1: none, it was removed or the end is reached), `nxt` index of the next one.
struct Model {
  std::vector<Pos> v;
  bool walking = false, removed = false;
  int cur = -1, nxt = -1;       // indices, or size when past the end
};
struct Op { int kind; int a, b; };
enum { HEAD, ADD, AFTER, AFTER_NONE, REMOVE, SORT, BEGIN, NEXT, CUT, PUT, END_WALK };
static const std::vector<Pos> KINDS = {{1, 1, false}, {0, 1, true}, {2, 0, false}};

static std::string show(const Op &o) {
  switch (o.kind) {
  case HEAD: return "head" + show(KINDS[o.b]);
  case ADD: return "add" + show(KINDS[o.b]);
  case AFTER: return "insert" + show(KINDS[o.b]) + " after element " + std::to_string(o.a);
  case AFTER_NONE: return "insert" + show(KINDS[o.b]) + " after none";
  case REMOVE: return "remove element " + std::to_string(o.a);
  case SORT: return std::string("sort ") + ref::alg_name(o.a);
  case BEGIN: return "begin";
  case NEXT: return "advance";
  case CUT: return "remove at cursor";
  case PUT: return "insert" + show(KINDS[o.b]) + " at cursor";
  }
  return "stop walking";
}
static void moves(const Model &m, std::size_t maxlen, std::vector<Op> &out) {
  int n = (int)m.v.size(), K = (int)KINDS.size();
  if (m.walking) {
    // the cursor stands on an element, or on a gap left by a removal
    bool at_end = m.cur < 0 && !m.removed;
    if (!at_end) out.push_back({NEXT, 0, 0});
    if (m.cur >= 0) { out.push_back({CUT, 0, 0}); if ((std::size_t)n < maxlen) for (int k = 0; k < K; k++) out.push_back({PUT, 0, k}); }
    else if (n == 0 && !m.removed && (std::size_t)n < maxlen) for (int k = 0; k < K; k++) out.push_back({PUT, 0, k});
    out.push_back({END_WALK, 0, 0});
    return;
  }
  if ((std::size_t)n < maxlen) {
    for (int k = 0; k < K; k++) { out.push_back({HEAD, 0, k}); out.push_back({ADD, 0, k}); out.push_back({AFTER_NONE, 0, k}); }
    for (int i = 0; i < n; i++) for (int k = 0; k < K; k++) out.push_back({AFTER, i, k});
  }
  for (int i = 0; i < n; i++) out.push_back({REMOVE, i, 0});
  for (int a = 0; a < 3; a++) out.push_back({SORT, a, 0});
  out.push_back({BEGIN, 0, 0});
}

struct Real {
  std::unique_ptr<ll::State> s{new ll::State()};
  std::unique_ptr<ll::StateIterator> it;
};

static void step(Model &m, const Op &o) {
  switch (o.kind) {
  case HEAD: m.v.insert(m.v.begin(), KINDS[o.b]); break;
  case ADD: case AFTER_NONE: m.v.push_back(KINDS[o.b]); break;
  case AFTER: m.v.insert(m.v.begin() + o.a + 1, KINDS[o.b]); break;
  case REMOVE: m.v.erase(m.v.begin() + o.a); break;
  case SORT: std::stable_sort(m.v.begin(), m.v.end(), [&](const Pos &x, const Pos &y) { return key_less(o.a, x, y); }); break;
  case BEGIN: m.walking = true; m.removed = false; m.cur = m.v.empty() ? -1 : 0; m.nxt = m.v.empty() ? 0 : 1; break;
  case NEXT: m.cur = m.nxt < (int)m.v.size() ? m.nxt : -1; m.nxt = m.nxt < (int)m.v.size() ? m.nxt + 1 : m.nxt; m.removed = false; break;
  case CUT: m.v.erase(m.v.begin() + m.cur); m.nxt = m.cur; m.cur = -1; m.removed = true; break;
  case PUT: if (m.cur >= 0) { m.v.insert(m.v.begin() + m.cur + 1, KINDS[o.b]); m.nxt = m.cur + 1; } else { m.v.insert(m.v.begin(), KINDS[o.b]); m.nxt = 0; m.removed = true; } break;
  case END_WALK: m.walking = false; m.cur = m.nxt = -1; m.removed = false; break;
  }
}
static void step(Real &r, const Op &o) {
  auto nth = [&](int i) { ll::Position *p = r.s->head(); while (i-- && p) p = p->next(); MC_CHECK(p, "an element is missing"); return p; };
  switch (o.kind) {
  case HEAD: r.s->head(make(KINDS[o.b])); break;
  case ADD: r.s->add(make(KINDS[o.b])); break;
  case AFTER_NONE: r.s->insert_after(nullptr, make(KINDS[o.b])); break;
  case AFTER: r.s->insert_after(nth(o.a), make(KINDS[o.b])); break;
  case REMOVE: { ll::Position *c = nth(o.a); r.s->remove(o.a ? nth(o.a - 1) : nullptr, c); break; }
  case SORT: { int a = o.a; r.s->sort([a](ll::Position *x, ll::Position *y) { return compare_as(a, x, y); }); break; }
  case BEGIN: r.it.reset(new ll::StateIterator(r.s->begin())); break;
  case NEXT: ++*r.it; break;
  case CUT: r.it->remove(); break;
  case PUT: r.it->insert(make(KINDS[o.b])); break;
  case END_WALK: r.it.reset(); break;
  }
}
static u64 key(const Model &m) {
  u64 h = 5;
  for (auto &p : m.v) h = mc::mix(h, p.i * 16 + p.e * 2 + p.s);
  return mc::mix(h, (u64)(m.cur + 2) * 64 + (u64)(m.nxt + 2) * 4 + m.walking * 2 + m.removed);
}

// Runs a history on the real list, comparing with the model after every step.
static void run_history(const std::vector<Op> &h, bool every_step) {
  auto go = [&] {
    Model m;
    Real r;
    for (std::size_t k = 0; k < h.size(); k++) {
      step(m, h[k]);
      step(r, h[k]);
      if (!every_step && k + 1 < h.size()) continue;
      auto text = [&] { std::string s; for (std::size_t x = 0; x <= k; x++) s += (x ? "; " : "") + show(h[x]); return s; };
      auto got = contents(*r.s, m.v.size() + 3);
      bool sort = h[k].kind == SORT;
      if (sort && h[k].a == 0) {      // equal by the comparison but different: any order of those will do
        auto a = got, b = m.v;
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        MC_CHECK(a == b, "after " << text() << " the state holds " << show(got) << " instead of " << show(m.v));
        for (std::size_t x = 1; x < got.size(); x++) MC_CHECK(!key_less(0, got[x], got[x - 1]), "after " << text() << " the order is " << show(got));
        m.v = got;
      }
      MC_CHECK(got == m.v, "after " << text() << " the state holds " << show(got) << " instead of " << show(m.v));
      if (m.walking) {
        ll::Position *c = **r.it;
        if (m.cur >= 0) MC_CHECK(c && read(c) == m.v[m.cur], "after " << text() << " the cursor is on " << (c ? show(read(c)) : "nothing") << " instead of " << show(m.v[m.cur]));
        else if (!m.removed) MC_CHECK(*r.it == r.s->end(), "after " << text() << " the cursor is not at the end");
      } else {
        auto it = iterated(*r.s, m.v.size() + 3);
        MC_CHECK(it == m.v, "after " << text() << " iterating yields " << show(it) << " instead of " << show(m.v));
      }
    }
  };
  long before = alloc::live;
  go();
  long after = alloc::live;
  if (after != before) { before = alloc::live; go(); after = alloc::live; }
  if (after != before) { std::string s; for (auto &o : h) s += (s.empty() ? "" : "; ") + show(o); mc::fail("after " + s + " and destroying the state " + std::to_string(after - before) + " blocks stay allocated (negative: freed more than once)"); }
  mc::trace();
}

static void c19_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  {
    // every history to a depth, no merging of states
    int depth = o.thorough ? 6 : 5;
    std::vector<Op> first;
    Model m0;
    moves(m0, 6, first);
    auto starts = std::make_shared<std::vector<std::vector<Op>>>();
    for (auto &a : first) { Model m; step(m, a); std::vector<Op> nx; moves(m, 6, nx); for (auto &b : nx) { Model m2 = m; step(m2, b); std::vector<Op> n3; moves(m2, 6, n3); for (auto &c : n3) starts->push_back({a, b, c}); } }
    mc::Family f;
    f.name = "histories";
    f.rule = "all sequences of up to " + std::to_string(depth) + " list, sort and cursor operations over 3 different positions, from an empty state";
    f.count = starts->size();
    f.chunk = 4;
    f.case_limit = 300;
    f.run = [=](u64 i) {
      std::vector<Op> h = (*starts)[i];
      std::function<void(const Model &)> dfs = [&](const Model &m) {
        if ((int)h.size() >= depth) { run_history(h, true); mc::transitions(h.size()); mc::nontrivial(); mc::state(key(m)); return; }
        std::vector<Op> nx;
        moves(m, 6, nx);
        for (auto &op : nx) {
          Model m2 = m;
          step(m2, op);
          h.push_back(op);
          dfs(m2);
          h.pop_back();
        }
      };
      Model m;
      for (auto &op : h) step(m, op);
      dfs(m);
    };
    f.describe = [=](u64 i) { std::string s; for (auto &op : (*starts)[i]) s += show(op) + "; "; return s + "and all continuations"; };
    fs.push_back(f);
  }
  {
    // all reachable model states with up to L elements, every operation from each
    std::size_t L = o.thorough ? 7 : 5;
    auto hist = std::make_shared<std::vector<std::vector<Op>>>();
    {
      std::unordered_set<u64> seen;
      std::vector<Model> q{Model()};
      std::vector<std::vector<Op>> hq{{}};
      seen.insert(key(q[0]));
      for (std::size_t k = 0; k < q.size(); k++) {
        std::vector<Op> nx;
        moves(q[k], L, nx);
        for (auto &op : nx) {
          Model m = q[k];
          step(m, op);
          if (seen.insert(key(m)).second) { auto h = hq[k]; h.push_back(op); q.push_back(m); hq.push_back(h); }
        }
      }
      *hist = hq;
    }
    mc::Family f;
    f.name = "closure";
    f.rule = "every reachable configuration (list of up to " + std::to_string(L) + " positions, cursor) by a shortest history, and every operation from it";
    f.count = hist->size();
    f.chunk = 16;
    f.run = [=](u64 i) {
      std::vector<Op> h = (*hist)[i];
      Model m;
      for (auto &op : h) step(m, op);
      std::vector<Op> nx;
      moves(m, L, nx);
      for (auto &op : nx) { h.push_back(op); run_history(h, false); h.pop_back(); mc::transitions(); }
      mc::state(key(m)); mc::nontrivial();
    };
    f.describe = [=](u64 i) { std::string s; for (auto &op : (*hist)[i]) s += show(op) + "; "; return s + "then every operation"; };
    fs.push_back(f);
  }
  {
    // long lists: four ways to build, eight things done to them, three ways to go on
    std::vector<int> lens;
    for (int n = 0; n <= 70; n++) lens.push_back(n);
    for (int n : {96, 100, 127, 128, 129, 200, 255, 256, 257, 258}) lens.push_back(n);
    if (o.thorough) for (int n : {511, 512, 513, 1023, 1024, 1025}) lens.push_back(n);
    mc::Family f;
    f.name = "long-lists";
    f.rule = "lists of 0 to 70, and around 100, 128, 200 and 256 positions, built in 4 ways, then one of 8 series of removals, insertions and sorts over the whole list, then one of 3 series of further edits, checked after each of the three";
    f.count = lens.size() * 4 * 8 * 3;
    f.chunk = 4;
    auto decode = [=](u64 i) {
      int third = (int)(i % 3), second = (int)(i / 3 % 8), how = (int)(i / 24 % 4), n = lens[i / 96];
      std::vector<std::vector<Op>> st(3);
      auto kind = [](int k) { return (k * k + k / 3) % 3; };
      for (int k = 0; k < n; k++)
        st[0].push_back(how == 0 ? Op{ADD, 0, kind(k)} : how == 1 ? Op{HEAD, 0, kind(k)} : how == 2 ? (k % 2 ? Op{HEAD, 0, kind(k)} : Op{AFTER_NONE, 0, kind(k)}) : (k ? Op{AFTER, k / 2, kind(k)} : Op{ADD, 0, 0}));
      Model m;
      for (auto &op : st[0]) step(m, op);
      auto put = [&](int s, Op op) { st[s].push_back(op); step(m, op); };
      switch (second) {
      case 0: for (int k = 0; k < n; k++) put(1, {REMOVE, 0, 0}); break;                       // all from the front
      case 1: for (int k = n; k-- > 0;) put(1, {REMOVE, k, 0}); break;                         // all from the back
      case 2: for (int k = 0; k < n / 2; k++) put(1, {REMOVE, k, 0}); break;                   // every other one
      case 3: put(1, {SORT, 1, 0}); for (int k = 0; k < n / 3; k++) put(1, {REMOVE, (int)m.v.size() - 1, 0}); break;
      case 4: case 5:                                                                          // walk and remove
        put(1, {BEGIN, 0, 0});
        for (int k = 0; m.cur >= 0; k++) { if (second == 4 ? k % 3 == 1 : k % 3 != 1) put(1, {CUT, 0, 0}); put(1, {NEXT, 0, 0}); }
        put(1, {END_WALK, 0, 0});
        break;
      case 6:                                                                                  // walk and insert
        put(1, {BEGIN, 0, 0});
        for (int k = 0; m.cur >= 0 && k < 2 * n; k++) { if (k % 4 == 1) put(1, {PUT, 0, kind(k + 1)}); put(1, {NEXT, 0, 0}); }
        put(1, {END_WALK, 0, 0});
        break;
      case 7: put(1, {SORT, 2, 0}); break;
      }
      switch (third) {
      case 0: for (int k = 0; k < 4; k++) put(2, {k % 2 ? ADD : HEAD, 0, k % 3}); break;
      case 1: put(2, {ADD, 0, 1}); put(2, {SORT, 1, 0}); put(2, {ADD, 0, 2}); put(2, {REMOVE, (int)m.v.size() - 1, 0}); put(2, {ADD, 0, 0}); break;
      case 2: put(2, {BEGIN, 0, 0}); while (m.cur >= 0) { put(2, {CUT, 0, 0}); put(2, {NEXT, 0, 0}); } put(2, {END_WALK, 0, 0}); put(2, {ADD, 0, 1}); put(2, {ADD, 0, 2}); break;
      }
      return st;
    };
    f.run = [=](u64 i) {
      auto st = decode(i);
      std::vector<Op> h;
      for (auto &part : st) { h.insert(h.end(), part.begin(), part.end()); if (!h.empty()) run_history(h, false); }
      mc::transitions(h.size()); mc::state(mc::mix(i, 21)); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return "list of " + std::to_string(lens[i / 96]) + " built in way " + std::to_string(i / 24 % 4) + ", then series " + std::to_string(i / 3 % 8) + " and " + std::to_string(i % 3); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "nested";
    f.rule = "all lists of up to 7 positions, every place of an outer cursor, every subset of the later positions removed through an inner cursor";
    f.count = 8 * 8 * 128;
    f.chunk = 64;
    f.run = [](u64 i) {
      int n = (int)(i / 1024), at = (int)(i / 128 % 8), mask = (int)(i % 128);
      if (n > 7 || at >= n || mask >> n || (mask & ((2 << at) - 1))) return;
      long before = alloc::live;
      {
        ll::State s;
        for (int k = 0; k < n; k++) s.add(new ll::Position(k, 0));
        std::vector<Pos> want, tail;
        for (int k = 0; k < n; k++) if (!(mask >> k & 1)) { want.push_back({(std::size_t)k, 0, false}); if (k > at) tail.push_back(want.back()); }
        ll::StateIterator outer = s.begin(), end = s.end();
        for (int k = 0; k < at; k++) ++outer;
        ll::StateIterator inner(&s, *outer, &outer);
        ++inner;
        while (inner != end) {
          ll::Position *p = *inner;
          if (p && (mask >> p->term_index() & 1)) inner.remove();
          ++inner;
        }
        auto what = [&] { return "list of " + std::to_string(n) + ", outer cursor at " + std::to_string(at) + ", removal mask " + std::to_string(mask); };
        MC_CHECK(contents(s, 10) == want, what() << ": left " << show(contents(s, 10)) << " instead of " << show(want));
        std::vector<Pos> rest;
        MC_CHECK(*outer && (*outer)->term_index() == (std::size_t)at, what() << ": the outer cursor has moved");
        for (++outer; outer != end; ++outer) { rest.push_back(read(*outer)); if (rest.size() > 10) break; }
        MC_CHECK(rest == tail, what() << ": the outer cursor then sees " << show(rest) << " instead of " << show(tail));
      }
      MC_CHECK(alloc::live == before, "blocks leaked or freed twice by nested removal");
      mc::state(i + 1); mc::trace(); mc::transitions(n); if (mask) mc::nontrivial();
    };
    f.describe = [](u64 i) { return "list of " + std::to_string(i / 1024) + ", outer at " + std::to_string(i / 128 % 8) + ", removal mask " + std::to_string(i % 128); };
    fs.push_back(f);
  }
  {
    // sorting: all sequences over a set with equal keys
    std::vector<Pos> P = {{0, 0, false}, {0, 1, false}, {0, 1, true}, {1, 0, false}, {1, 0, true}, {SIZE_MAX, 0, false}};
    int L = o.thorough ? 7 : 6;
    mc::Family f;
    f.name = "sorting";
    u64 n = 0, p = 1;
    for (int l = 0; l <= L; l++) { n += p; p *= P.size(); }
    f.count = n * 3;
    f.chunk = 256;
    f.rule = "all sequences of up to " + std::to_string(L) + " of 6 positions, constructed from a vector, sorted by each algorithm's comparison";
    auto decode = [=](u64 i) { i /= 3; u64 pw = 1; int l = 0; while (i >= pw) { i -= pw; pw *= P.size(); l++; } std::vector<Pos> v; for (int k = 0; k < l; k++) { v.push_back(P[i % P.size()]); i /= P.size(); } return v; };
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      auto v = decode(i);
      long before = alloc::live;
      {
        std::vector<ll::Position *> ps;
        for (auto &x : v) ps.push_back(make(x));
        std::multiset<ll::Position *> in(ps.begin(), ps.end());
        ll::State s(ps);
        MC_CHECK(contents(s, v.size() + 2) == v, "a state constructed from " << show(v) << " holds " << show(contents(s, v.size() + 2)));
        s.sort([&](ll::Position *a, ll::Position *b) { return compare_as(alg, a, b); });
        std::vector<ll::Position *> out;
        auto got = contents(s, v.size() + 2, &out);
        MC_CHECK(std::multiset<ll::Position *>(out.begin(), out.end()) == in, "sorting " << show(v) << " gives " << show(got));
        for (std::size_t k = 1; k < got.size(); k++) MC_CHECK(!key_less(alg, got[k], got[k - 1]), "sorting " << show(v) << " for " << ref::alg_name(alg) << " gives " << show(got));
      }
      MC_CHECK(alloc::live == before, "sorting " << show(v) << " leaks or frees twice");
      mc::transitions(v.size()); mc::trace(); if (v.size() > 1) mc::nontrivial();
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " sort of " + show(decode(i)); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "long-sort";
    f.rule = "lists of every length up to 300 in ascending, descending, constant and shuffled order";
    f.count = 301 * 4;
    f.chunk = 8;
    f.run = [](u64 i) {
      u64 n = i / 4, mode = i % 4;
      ll::State s;
      std::vector<Pos> v;
      ll::Position *last = nullptr;
      for (u64 k = 0; k < n; k++) {
        Pos p{mode == 0 ? k : mode == 1 ? n - k : mode == 2 ? 7 : (k * 7919) % 311, mode == 3 ? k % 3 : 0, (k & 4) != 0};
        v.push_back(p);
        ll::Position *x = make(p);
        s.insert_after(last, x);
        last = x;
      }
      s.sort([&](ll::Position *a, ll::Position *b) { return compare_as(1, a, b); });
      std::stable_sort(v.begin(), v.end(), [](const Pos &a, const Pos &b) { return key_less(1, a, b); });
      MC_CHECK(contents(s, n + 2) == v, "sorting " << n << " positions (order " << mode << ") is wrong");
      mc::state(mc::mix(i, 9)); mc::transitions(n); mc::trace(); if (n > 1) mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::to_string(i / 4) + " positions, order " + std::to_string(i % 4); };
    fs.push_back(f);
  }
  {
    auto V = std::make_shared<std::vector<Pos>>();
    for (std::size_t i : {(std::size_t)0, (std::size_t)127, (std::size_t)128, (std::size_t)255, (std::size_t)256, (std::size_t)32768, (std::size_t)65535, (std::size_t)65536, (std::size_t)100000, (std::size_t)100001, (std::size_t)1 << 31, ((std::size_t)1 << 32) - 1, (std::size_t)1 << 32, SIZE_MAX})
      V->push_back({i, 0, false});
    for (std::size_t e : {(std::size_t)1, (std::size_t)127, (std::size_t)128, (std::size_t)256, (std::size_t)65536, (std::size_t)1 << 31, (std::size_t)1 << 32, SIZE_MAX}) { V->push_back({0, e, false}); V->push_back({100000, e, true}); }
    mc::Family f;
    f.name = "far-sort";
    f.rule = "all triples of " + std::to_string(V->size()) + " positions whose members are small, extreme or around powers of two, sorted by each algorithm's comparison";
    f.count = V->size() * V->size();
    f.chunk = 8;
    f.run = [=](u64 i) {
      for (std::size_t k = 0; k <= V->size(); k++)
        for (int alg = 0; alg < 3; alg++) {
          std::vector<Pos> v = {(*V)[i / V->size()], (*V)[i % V->size()]};
          if (k < V->size()) v.push_back((*V)[k]);
          std::vector<ll::Position *> ps;
          for (auto &x : v) ps.push_back(make(x));
          std::multiset<ll::Position *> in(ps.begin(), ps.end());
          ll::State s(ps);
          s.sort([&](ll::Position *a, ll::Position *b) { return compare_as(alg, a, b); });
          std::vector<ll::Position *> out;
          auto got = contents(s, v.size() + 2, &out);
          MC_CHECK(std::multiset<ll::Position *>(out.begin(), out.end()) == in, "sorting " << show(v) << " gives " << show(got));
          for (std::size_t x = 1; x < got.size(); x++) MC_CHECK(!key_less(alg, got[x], got[x - 1]), "sorting " << show(v) << " for " << ref::alg_name(alg) << " gives " << show(got));
          mc::transitions();
        }
      mc::state(mc::mix(i, 13)); mc::trace(); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show((*V)[i / V->size()]) + ", " + show((*V)[i % V->size()]) + " and each other"; };
    fs.push_back(f);
  }
  {
    // merging
    std::vector<Pos> P;
    for (std::size_t i = 0; i < 2; i++) for (std::size_t e = 0; e < 3; e++) { P.push_back({i, e, false}); if (e) P.push_back({i, e, true}); }
    P.push_back({5, 1, false});
    int L = o.thorough ? 6 : 5, K = (int)P.size();
    mc::Family f;
    f.name = "merging";
    u64 n = 3;
    for (int l = 0; l < L; l++) n *= K;
    f.count = n;
    f.chunk = 512;
    f.rule = "all sequences of " + std::to_string(L) + " of 11 positions merged one batch at a time (batches of one, and the whole as one batch), each algorithm";
    auto decode = [=](u64 i) { i /= 3; std::vector<Pos> v; for (int k = 0; k < L; k++) { v.push_back(P[i % K]); i /= K; } return v; };
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      auto v = decode(i);
      if (alg == 0) for (auto &p : v) if (p.s) return;
      for (int whole = 0; whole < 2; whole++) {
        long before = alloc::live;
        {
          ll::State s;
          std::vector<ll::Position *> all;
          for (auto &p : v) { ll::Position *x = make(p); if (whole) all.push_back(x); else merge_as(alg, &s, {x}); }
          if (whole) merge_as(alg, &s, all);
          auto got = contents(s, v.size() + 2);
          auto a = got;
          std::sort(a.begin(), a.end());
          std::set<Pos> want(v.begin(), v.end());
          MC_CHECK(a == std::vector<Pos>(want.begin(), want.end()), ref::alg_name(alg) << " merge of " << show(v) << " gives " << show(got));
        }
        MC_CHECK(alloc::live == before, ref::alg_name(alg) << " merge of " << show(v) << " leaks or frees twice");
        mc::transitions(v.size()); mc::trace();
      }
      mc::nontrivial();
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " merge of " + show(decode(i)); };
    fs.push_back(f);
  }
  {
    std::vector<std::size_t> vals = {0, 1, 2, 255, (std::size_t)1 << 31, (std::size_t)1 << 32, ((std::size_t)1 << 63) - 1, (std::size_t)1 << 63, SIZE_MAX};
    auto P = std::make_shared<std::vector<Pos>>();
    for (auto i : vals) for (auto e : vals) for (bool s : {false, true}) P->push_back({i, e, s});
    mc::Family f;
    f.name = "comparison";
    f.rule = "all pairs of " + std::to_string(P->size()) + " positions with small and extreme members, each algorithm's comparison against (index, errors, special)";
    f.count = P->size();
    f.chunk = 8;
    f.run = [=](u64 i) {
      auto &a = (*P)[i];
      ll::Position pa(a.i, a.e, a.s);
      for (auto &b : *P) {
        ll::Position pb(b.i, b.e, b.s);
        for (int alg = 0; alg < 3; alg++) {
          int c = compare_as(alg, &pa, &pb), want = key_less(alg, a, b) ? -1 : key_less(alg, b, a) ? 1 : 0;
          MC_CHECK((c > 0) - (c < 0) == want, ref::alg_name(alg) << " comparison of " << show(a) << " and " << show(b) << " is " << c);
          mc::transitions();
        }
      }
      mc::state(mc::mix(i, 3)); mc::trace(P->size() * 3); mc::nontrivial();
    };
    f.describe = [=](u64 i) { return show((*P)[i]) + " against all"; };
    fs.push_back(f);
  }
}

// ---- C20 ------------------------------------------------------------------------
// Least total distance of accepting continuation c from position p of query w;
// SIZE_MAX when it is not accepted. Straight from the definition of positions:
// (i, e): w[i..] is still to be matched, e errors spent; special: half-way through
// a transposition of w[i], w[i+1] (w[i+1] has been read), or through a split of w[i].
static std::size_t accept_from(int alg, const Pos &p, const std::string &w, const std::string &c) {
  if (!p.s) return p.e + ref::dist(alg, w.substr(p.i), c);
  if (c.empty()) return SIZE_MAX;
  if (alg == 1) {
    if (p.i + 2 > w.size() || c[0] != w[p.i]) return SIZE_MAX;
    return p.e + ref::dist(alg, w.substr(p.i + 2), c.substr(1));
  }
  if (p.i + 1 > w.size()) return SIZE_MAX;
  return p.e + ref::dist(alg, w.substr(p.i + 1), c.substr(1));
}

static std::vector<Pos> positions_of(int alg, std::size_t len, std::size_t n) {
  std::vector<Pos> r;
  for (std::size_t e = 0; e <= n; e++)
    for (std::size_t i = 0; i <= len; i++) {
      r.push_back({i, e, false});
      if (e && alg == 1 && i + 2 <= len) r.push_back({i, e, true});
      if (e && alg == 2 && i + 1 <= len) r.push_back({i, e, true});
    }
  return r;
}

static void c20_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  {
    // binary and ternary queries, every continuation
    std::size_t QL = o.thorough ? 7 : 6;
    std::size_t N = o.thorough ? 5 : 4;
    auto Q = std::make_shared<std::vector<std::string>>(ref::words("ab", QL));
    for (auto &w : ref::words("abc", 3)) if (w.find('c') != std::string::npos) Q->push_back(w);
    mc::Family f;
    f.name = "pairs";
    f.rule = "every query over {a, b} up to length " + std::to_string(QL) + " and over {a, b, c} up to length 3, every bound n up to " + std::to_string(N) +
             ", every pair of positions with e < f <= n, every continuation over {a, b, c} up to one longer than the rest allows, each algorithm";
    f.count = Q->size() * 3;
    f.chunk = 1;
    f.case_limit = 300;
    f.run = [=](u64 k) {
      int alg = (int)(k % 3);
      const std::string &w = (*Q)[k / 3];
      auto conts = ref::words(w.size() >= 4 ? "ab" : "abc", w.size() + (w.size() >= 4 ? 3 : 2));
      auto P = positions_of(alg, w.size(), N);
      std::vector<std::vector<std::size_t>> acc(P.size(), std::vector<std::size_t>(conts.size()));
      for (std::size_t a = 0; a < P.size(); a++) for (std::size_t c = 0; c < conts.size(); c++) acc[a][c] = accept_from(alg, P[a], w, conts[c]);
      for (std::size_t n = 1; n <= N; n++)
        for (std::size_t a = 0; a < P.size(); a++)
          for (std::size_t b = 0; b < P.size(); b++) {
            if (P[a].e >= P[b].e || P[b].e > n) continue;
            ll::Position x(P[a].i, P[a].e, P[a].s), y(P[b].i, P[b].e, P[b].s);
            mc::transitions();
            if (!subsumes_as(alg, &x, &y, n)) continue;
            mc::nontrivial();
            for (std::size_t c = 0; c < conts.size(); c++)
              if (acc[b][c] <= n && acc[a][c] > acc[b][c])
                mc::fail(std::string(ref::alg_name(alg)) + ", n=" + std::to_string(n) + ", query " + mc::q(w) + ": position " + show(P[a]) + " is said to subsume " + show(P[b]) + ", but the continuation " +
                         mc::q(conts[c]) + " is accepted from the second at " + std::to_string(acc[b][c]) + " and from the first " +
                         (acc[a][c] == SIZE_MAX ? "not at all" : "at " + std::to_string(acc[a][c])));
          }
      mc::state(k + 1); mc::trace(P.size() * P.size());
    };
    f.describe = [=](u64 k) { return std::string(ref::alg_name((int)(k % 3))) + " positions of query " + mc::q((*Q)[k / 3]); };
    fs.push_back(f);
  }
  {
    // the same far into a query and with many errors spent: what is accepted from
    // (i + K, e + E) of a query with K more characters in front is what is accepted from
    // (i, e), E errors later
    auto Q = std::make_shared<std::vector<std::string>>(ref::words("ab", o.thorough ? 5 : 4));
    std::size_t N = 3;
    std::vector<std::pair<std::size_t, std::size_t>> shifts;
    std::vector<std::size_t> at = {0, 1, 126, 127, 128, 253, 254, 255, 256, 32766, 32767, 65534, 65535, ((std::size_t)1 << 31) - 1, (std::size_t)1 << 31, ((std::size_t)1 << 32) - 1, (std::size_t)1 << 32};
    for (auto K : at) for (auto E : at) if (K || E) shifts.push_back({K, E});
    mc::Family f;
    f.name = "shifted";
    f.rule = "every query over {a, b} up to length " + std::to_string(o.thorough ? 5 : 4) + " behind up to 2^32 further characters, with up to 2^32 errors spent before (" + std::to_string(shifts.size()) + " shifts around the limits of the integer types), every pair of positions with e < f <= n <= 3 beyond that, each algorithm";
    f.count = Q->size() * 3;
    f.chunk = 1;
    f.case_limit = 300;
    f.run = [=](u64 k) {
      int alg = (int)(k % 3);
      const std::string &w = (*Q)[k / 3];
      auto conts = ref::words("abc", w.size() + 1);
      auto P = positions_of(alg, w.size(), N);
      std::vector<std::vector<std::size_t>> acc(P.size(), std::vector<std::size_t>(conts.size()));
      for (std::size_t a = 0; a < P.size(); a++) for (std::size_t c = 0; c < conts.size(); c++) acc[a][c] = accept_from(alg, P[a], w, conts[c]);
      for (std::size_t n = 1; n <= N; n++)
        for (std::size_t a = 0; a < P.size(); a++)
          for (std::size_t b = 0; b < P.size(); b++) {
            if (P[a].e >= P[b].e || P[b].e > n) continue;
            std::size_t lost = conts.size();
            for (std::size_t c = 0; c < conts.size() && lost == conts.size(); c++) if (acc[b][c] <= n && acc[a][c] > acc[b][c]) lost = c;
            for (auto &sh : shifts) {
              ll::Position x(P[a].i + sh.first, P[a].e + sh.second, P[a].s), y(P[b].i + sh.first, P[b].e + sh.second, P[b].s);
              mc::transitions();
              if (!subsumes_as(alg, &x, &y, n + sh.second)) continue;
              mc::nontrivial();
              if (lost < conts.size())
                mc::fail(std::string(ref::alg_name(alg)) + ", query " + mc::q(w) + " behind " + std::to_string(sh.first) + " further characters, n=" + std::to_string(n + sh.second) + ": position (" + std::to_string(x.term_index()) + ", " +
                         std::to_string(x.num_errors()) + (P[a].s ? ", special" : "") + ") is said to subsume (" + std::to_string(y.term_index()) + ", " + std::to_string(y.num_errors()) + (P[b].s ? ", special" : "") +
                         "), but the continuation " + mc::q(conts[lost]) + " is accepted from the second at a smaller distance");
            }
          }
      mc::state(mc::mix(k, 11)); mc::trace(P.size() * P.size());
    };
    f.describe = [=](u64 k) { return std::string(ref::alg_name((int)(k % 3))) + " shifted positions of query " + mc::q((*Q)[k / 3]); };
    fs.push_back(f);
  }
  {
    // positions far apart: what is left to read differs in length by more than the errors allow
    auto V = std::make_shared<std::vector<std::size_t>>();
    for (std::size_t c : {(std::size_t)0, (std::size_t)64, (std::size_t)128, (std::size_t)256, (std::size_t)512, (std::size_t)1024, (std::size_t)4096, (std::size_t)1 << 15, (std::size_t)1 << 16, (std::size_t)1 << 31, (std::size_t)1 << 32, (std::size_t)1 << 48})
      for (long d = -3; d <= 3; d++) if (c || d >= 0) V->push_back(c + d);
    auto E = std::make_shared<std::vector<std::size_t>>();
    for (std::size_t c : {(std::size_t)0, (std::size_t)128, (std::size_t)256, (std::size_t)1 << 16, (std::size_t)1 << 32}) for (long d = -1; d <= 2; d++) if (c || d >= 0) E->push_back(c + d);
    mc::Family f;
    f.name = "apart";
    f.rule = "every pair of positions whose index and errors are among " + std::to_string(V->size()) + " and " + std::to_string(E->size()) + " values around powers of two up to 2^48 and 2^32, plain and special, each algorithm, the bound being the errors of the second, one more, or far more: none is declared to subsume one whose rest differs in length by more than the errors between them";
    f.count = V->size() * 3;
    f.chunk = 4;
    f.run = [=](u64 k) {
      int alg = (int)(k % 3);
      std::size_t i = (*V)[k / 3];
      for (auto j : *V) for (auto e : *E) for (auto g : *E) {
        if (e >= g) continue;
        for (int s = 0; s < (alg ? 4 : 1); s++) {
          Pos a{i, e, (s & 1) != 0}, b{j, g, (s & 2) != 0};
          // what is left to read after index i of a query: one character less half-way through a swap
          std::size_t ra = i + (alg == 1 && a.s), rb = j + (alg == 1 && b.s), apart = ra < rb ? rb - ra : ra - rb;
          ll::Position x(a.i, a.e, a.s), y(b.i, b.e, b.s);
          for (std::size_t n : {g, g + 1, (std::size_t)1 << 50}) {
            mc::transitions();
            if (!subsumes_as(alg, &x, &y, n)) continue;
            mc::nontrivial();
            MC_CHECK(apart <= g - e, ref::alg_name(alg) << ", n=" << n << ": position " << show(a) << " is said to subsume " << show(b) << ", but the rests of the query differ in length by " << apart);
          }
        }
      }
      mc::state(mc::mix(k, 12)); mc::trace(V->size());
    };
    f.describe = [=](u64 k) { return std::string(ref::alg_name((int)(k % 3))) + " position " + std::to_string((*V)[k / 3]) + " against all"; };
    fs.push_back(f);
  }
  {
    // pruning whole states with the library's subsumption: nothing is lost
    std::size_t QL = o.thorough ? 4 : 3, N = o.thorough ? 3 : 2;
    auto Q = std::make_shared<std::vector<std::string>>(ref::words("ab", QL, 1));
    mc::Family f;
    f.name = "pruning";
    int S = o.thorough ? 4 : 3;
    f.rule = "every set of up to " + std::to_string(S) + " positions (in ascending and descending order of errors) of every query over {a, b} of length 1 to " + std::to_string(QL) + ", n = " + std::to_string(N) + ": the pruned state accepts the same continuations at the same distance";
    f.count = Q->size() * 3;
    f.chunk = 1;
    f.case_limit = 300;
    f.run = [=](u64 k) {
      int alg = (int)(k % 3);
      const std::string &w = (*Q)[k / 3];
      auto conts = ref::words("abc", w.size() + 2);
      auto P = positions_of(alg, w.size(), N);
      std::map<Pos, std::vector<std::size_t>> acc;
      for (auto &p : P) for (auto &c : conts) acc[p].push_back(accept_from(alg, p, w, c));
      ll::UnsubsumeFn prune([alg](ll::Position *a, ll::Position *b, std::size_t n) { return subsumes_as(alg, a, b, n); });
      for (auto &set : ref::subsets_upto((int)P.size(), S)) {
        std::vector<Pos> v;
        for (int x : set) v.push_back(P[x]);
        for (int order = 0; order < 2; order++) {
          if (order) std::reverse(v.begin(), v.end());      // P is in ascending order of errors
          long before = alloc::live;
          {
            std::vector<ll::Position *> ps;
            for (auto &p : v) ps.push_back(make(p));
            ll::State s(ps);
            prune(&s, N);
            auto got = contents(s, v.size() + 1);
            std::size_t at = 0;
            for (auto &g : got) { while (at < v.size() && !(v[at] == g)) at++; MC_CHECK(at < v.size(), "pruning " << show(v) << " gives " << show(got)); at++; }
            for (std::size_t c = 0; c < conts.size(); c++) {
              std::size_t m1 = SIZE_MAX, m2 = SIZE_MAX;
              for (auto &p : v) m1 = std::min(m1, acc[p][c]);
              for (auto &p : got) m2 = std::min(m2, acc[p][c]);
              if (m1 > N) continue;
              MC_CHECK(m1 == m2, ref::alg_name(alg) << ", n=" << N << ", query " << mc::q(w) << ": pruning " << show(v) << " to " << show(got) << " changes the distance of continuation " << mc::q(conts[c]) << " from " << m1 << " to " << (m2 == SIZE_MAX ? std::string("none") : std::to_string(m2)));
            }
            if (got.size() < v.size()) mc::nontrivial();
          }
          MC_CHECK(alloc::live == before, "pruning " << show(v) << " leaks or frees twice");
          mc::transitions(); mc::trace();
        }
      }
      mc::state(mc::mix(k, 5));
    };
    f.describe = [=](u64 k) { return std::string(ref::alg_name((int)(k % 3))) + " states of query " + mc::q((*Q)[k / 3]); };
    fs.push_back(f);
  }
  {
    // pruning with arbitrary relations: only positions declared redundant by one with fewer errors go
    mc::Family f;
    f.name = "relations";
    int n = o.thorough ? 5 : 4;
    f.rule = "every relation over a state of " + std::to_string(n) + " positions with all non-descending error counts up to 2: what pruning removes was declared redundant by a position with fewer errors, and nothing else changes";
    int bits = n * (n - 1) / 2;
    u64 es = 1;
    for (int k = 0; k < n; k++) es *= 3;
    f.count = es << bits;
    f.chunk = 256;
    f.run = [=](u64 i) {
      u64 rel = i & ((1ULL << bits) - 1), e = i >> bits;
      std::vector<Pos> v;
      for (int k = 0; k < n; k++) { v.push_back({(std::size_t)k, e % 3, false}); e /= 3; if (k && v[k].e < v[k - 1].e) return; }
      auto related = [=](std::size_t a, std::size_t b) { if (a >= b) return false; std::size_t bit = b * (b - 1) / 2 + a; return (bool)(rel >> bit & 1); };
      std::vector<ll::Position *> ps;
      for (auto &p : v) ps.push_back(make(p));
      ll::State s(ps);
      ll::UnsubsumeFn prune([&](ll::Position *a, ll::Position *b, std::size_t) { return related(a->term_index(), b->term_index()); });
      prune(&s, 2);
      auto got = contents(s, n + 1);
      std::set<std::size_t> left;
      for (auto &g : got) MC_CHECK(g.i < (std::size_t)n && left.insert(g.i).second, "pruning duplicates or invents positions");
      for (std::size_t y = 0; y < (std::size_t)n; y++) {
        if (left.count(y)) continue;
        bool why = false;
        for (std::size_t x = 0; x < (std::size_t)n; x++) if (v[x].e < v[y].e && related(x, y)) why = true;
        MC_CHECK(why, "pruning " << show(v) << " with relation " << rel << " removes " << show(v[y]) << ", which no position with fewer errors makes redundant");
      }
      mc::transitions(); mc::trace(); if ((int)got.size() < n) mc::nontrivial();
    };
    f.describe = [=](u64 i) { return "relation " + std::to_string(i & ((1ULL << bits) - 1)) + ", errors code " + std::to_string(i >> bits); };
    fs.push_back(f);
  }
}

int main(int argc, char **argv) {
  return mc::drive(argc, argv, [](const mc::Options &o) {
    std::vector<mc::Family> fs;
    if (o.prop == "C19") { c19_families(fs, o); mc::add_reused(fs, {"histories", "closure", "nested", "merging"}); }
    if (o.prop == "C20") { c20_families(fs, o); mc::add_reused(fs, {"pruning"}); }
    return fs;
  });
}
