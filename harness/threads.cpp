// C06: concurrent readers of one dictionary. C07: one distance object, many threads.
#include "dictlib.h"
#include "../rt/rt.h"
#include <sys/prctl.h>
#include <sched.h>
#include <sstream>
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/transducer.h"

using namespace dl;
namespace lld = liblevenshtein::distance;

// Runs `f` in a process of its own (nothing has been called in it before) and
// returns its verdict: what static data the code keeps is cold in every case.
static void cold(const std::function<void()> &f) {
  int fd[2];
  if (pipe(fd)) mc::fail("internal: pipe");
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(fd[0]);
    std::string m;
    try { f(); }
    catch (rt::Problem &e) { m = e.what; }
    catch (mc::Failure &e) { m = e.msg; }
    catch (std::exception &e) { m = std::string("unexpected exception: ") + e.what(); }
    for (std::size_t k = 0; k < m.size();) { ssize_t n = ::write(fd[1], m.data() + k, m.size() - k); if (n <= 0) break; k += n; }
    _exit(m.empty() ? 0 : 1);
  }
  close(fd[1]);
  std::string m;
  char b[4096];
  ssize_t n;
  while ((n = ::read(fd[0], b, sizeof b)) > 0) m.append(b, n);
  close(fd[0]);
  int st;
  waitpid(p, &st, 0);
  if (!m.empty()) mc::fail(m);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) mc::fail("the code under test crashed: " + mc::status_text(st));
}

static double g_seconds = 20;          // per scenario; what is not done by then is counted

static void account(const rt::Stats &s) {
  mc::count(0, s.schedules); mc::count(1, s.sync_ops); mc::count(2, s.accesses); mc::count(3, s.preempted);
  if (!s.complete) mc::count(4);
  mc::transitions(s.sync_ops + s.schedules);
  mc::trace(s.schedules);
  mc::nontrivial(s.schedules);
}

// ---- C06 ------------------------------------------------------------------------
// One read operation of a thread; its answer as text.
struct Op { const char *name; std::function<std::string(ll::Dawg &, ll::Dawg &, struct Shared &)> run; };
struct Shared {
  ll::Transducer<ll::Algorithm::STANDARD, ll::Candidate> s;
  ll::Transducer<ll::Algorithm::TRANSPOSITION, ll::Candidate> t;
  ll::Transducer<ll::Algorithm::MERGE_AND_SPLIT, std::string> m;
  explicit Shared(ll::DawgNode *r) : s(r), t(r), m(r) {}
};
static std::string text(const std::string &s) { return s; }
static std::string text(const ll::Candidate &c) { return c.first + "=" + std::to_string(c.second); }
template <class T> static std::string ask(T &t, const std::string &q, std::size_t n) {
  std::vector<std::string> r;
  for (const auto &c : t(q, n)) r.push_back(text(c));
  std::sort(r.begin(), r.end());
  std::string s;
  for (auto &x : r) s += x + ";";
  return s;
}
template <ll::Algorithm A, class R> static std::string own(ll::Dawg &d, const std::string &q, std::size_t n) {
  ll::Transducer<A, R> t(d.root());
  return ask(t, q, n);
}
// A stream on which another thread may take over whenever it is read or written.
struct Pausing : std::streambuf {
  std::string data;
  std::size_t at = 0;
  char one = 0;
  std::streamsize xsputn(const char *s, std::streamsize n) override { sched_yield(); data.append(s, (std::size_t)n); return n; }
  int overflow(int c) override { sched_yield(); if (c != EOF) data += (char)c; return c == EOF ? 0 : (unsigned char)c; }
  std::streamsize xsgetn(char *s, std::streamsize n) override {
    sched_yield();
    std::size_t k = std::min((std::size_t)n, data.size() - at);
    std::memcpy(s, data.data() + at, k);
    at += k;
    return (std::streamsize)k;
  }
  int underflow() override { sched_yield(); if (at == data.size()) return EOF; one = data[at++]; setg(&one, &one, &one + 1); return (unsigned char)one; }
};
static std::string round_trip(ll::Dawg &d) {
  Pausing b;
  std::ostream os(&b);
  bool ok = ll::serialize_protobuf(&d, os);
  std::istream is(&b);
  DawgPtr e(ll::deserialize_protobuf(is));
  return std::string(ok ? "saved " : "failed ") + (e && *e == d && e->size() == d.size() ? "equal" : "different");
}
static std::vector<Op> ops() {
  using A = ll::Algorithm;
  return {
      {"query standard (shared transducer)", [](ll::Dawg &, ll::Dawg &, Shared &s) { return ask(s.s, "ab", 2); }},
      {"query transposition (shared transducer)", [](ll::Dawg &, ll::Dawg &, Shared &s) { return ask(s.t, "ba", 1); }},
      {"query merge-and-split (shared transducer)", [](ll::Dawg &, ll::Dawg &, Shared &s) { return ask(s.m, "aba", 2); }},
      {"query standard (own transducer)", [](ll::Dawg &d, ll::Dawg &, Shared &) { return own<A::STANDARD, std::string>(d, "aab", 1); }},
      {"query transposition (own transducer)", [](ll::Dawg &d, ll::Dawg &, Shared &) { return own<A::TRANSPOSITION, ll::Candidate>(d, "bab", 2); }},
      {"query merge-and-split (own transducer)", [](ll::Dawg &d, ll::Dawg &, Shared &) { return own<A::MERGE_AND_SPLIT, ll::Candidate>(d, "b", 1); }},
      {"contains", [](ll::Dawg &d, ll::Dawg &, Shared &) { std::string r; for (std::string w : {"", "a", "ab", "ba", "abba", "zz"}) r += d.contains(w) ? '1' : '0'; return r; }},
      {"iterate", [](ll::Dawg &d, ll::Dawg &, Shared &) { auto v = iterate(d, 2000); std::sort(v.begin(), v.end()); std::string s; for (auto &x : v) s += x + ";"; return s; }},
      {"size and ==", [](ll::Dawg &d, ll::Dawg &o, Shared &) { return std::to_string(d.size()) + (d == o ? "=" : "!") + (o == d ? "=" : "!"); }},
      {"hash", [](ll::Dawg &d, ll::Dawg &o, Shared &) { return std::to_string(std::hash<ll::Dawg>()(d)) + (std::hash<ll::Dawg>()(o) == std::hash<ll::Dawg>()(d) ? "=" : "!"); }},
      {"save", [](ll::Dawg &d, ll::Dawg &, Shared &) { return round_trip(d); }},
      {"partial query", [](ll::Dawg &, ll::Dawg &, Shared &s) {
         // only the first result is taken; which one comes first is not specified, that there is one is
         auto r = s.s("a", 5);
         auto it = r.begin();
         return std::string(it == r.end() ? "none" : "some");
       }},
      {"walk nodes", [](ll::Dawg &d, ll::Dawg &, Shared &) {
         Graph g = graph_of(d.root());
         std::size_t e = 0, f = 0;
         for (auto &x : g.edges) e += x.size();
         for (bool b : g.final) f += b;
         return std::to_string(g.nodes.size()) + "/" + std::to_string(e) + "/" + std::to_string(f);
       }},
      {"print", [](ll::Dawg &d, ll::Dawg &, Shared &) {
         // what is printed is not specified (it contains addresses), that it stays the same is
         std::ostringstream a, b;
         a << d;
         b << d;
         return std::string(a.str() == b.str() && !a.str().empty() ? "steady" : "changing");
       }},
      {"nodes ==, hash", [](ll::Dawg &d, ll::Dawg &o, Shared &) {
         std::hash<ll::DawgNode> h;
         std::string r = *d.root() == *o.root() ? "=" : "!";
         d.root()->for_each_edge([&](char c, ll::DawgNode *t) {
           ll::DawgNode *u = o.root()->transition(c);
           r += u && *u == *t && h(*u) == h(*t) ? "=" : "!";
           r += d.root()->transition(c) == t ? "" : "?";
         });
         return r;
       }},
      {"build and load others", [](ll::Dawg &, ll::Dawg &, Shared &) {
         DawgPtr x = build({"a", "ab", "abb", "b", "xb"});
         std::vector<std::string> bad = {"b", "ab"};
         DawgPtr z(ll::sorted_dawg(bad.begin(), bad.end()));
         std::string r = round_trip(*x);
         return r + (z ? " badly " : " well ") + own<A::STANDARD, ll::Candidate>(*x, "ab", 1);
       }},
  };
}
static std::vector<Terms> dicts06() {
  return {{"a", "ab", "abb", "abba", "b", "ba"}, {}, {"", "aa", "ab", "ba", "bb"}, {"aba", "abab", "baba", "bbbb", "cab", "xaby"}};
}

static void readers(const Terms &terms, const std::vector<int> &which, int preemptions) {
  auto all = ops();
  cold([&] {
    DawgPtr d, o;
    std::unique_ptr<Shared> sh;
    std::vector<std::vector<std::string>> got(which.size());
    auto setup = [&] {
      mc::heartbeat();
      sh.reset();
      d = build(terms);
      o = build(terms);
      sh.reset(new Shared(d->root()));
      for (auto &g : got) g.clear();
    };
    std::vector<std::string> want;
    auto check = [&] {
      if (want.empty()) {
        // what the operations answer alone, on a dictionary nobody else uses
        DawgPtr x = build(terms), y = build(terms);
        Shared z(x->root());
        for (int w : which) want.push_back(all[w].run(*x, *y, z));
      }
      for (std::size_t k = 0; k < which.size(); k++)
        for (auto &g : got[k])
          if (g != want[k]) throw rt::Problem{std::string(all[which[k]].name) + " answered " + g + " instead of " + want[k]};
      check_holds(*d, sorted(terms), {"", "zz"}, "the dictionary afterwards");
    };
    auto s = rt::explore((int)which.size(), preemptions, g_seconds, true, setup, [&](int k) {
      for (int round = 0; round < 2; round++) got[k].push_back(all[which[k]].run(*d, *o, *sh));
    }, check);
    account(s);
    u64 h = mc::hash_str(show(terms));
    for (int w : which) h = mc::mix(h, w + 1);
    mc::state(h);
  });
}

static std::vector<mc::Family> make_c06(const mc::Options &o) {
  std::vector<mc::Family> fams;
  auto all = ops();
  auto ds = dicts06();
  u64 N = all.size();
  int pb = o.thorough ? 4 : 2;
  std::vector<std::vector<int>> pairs, triples;
  for (int a = 0; a < (int)N; a++) for (int b = a; b < (int)N; b++) {
    pairs.push_back({a, b});
    for (int c = b; c < (int)N; c++) triples.push_back({a, b, c});
  }
  auto add = [&](const std::string &name, const std::vector<std::vector<int>> &sets, const std::vector<Terms> &dd, const std::string &rule) {
    fams.push_back({name, rule + ", all schedules with at most " + std::to_string(pb) + " preemptions at synchronisation operations, all memory accesses judged", sets.size() * dd.size(),
                    [=](u64 i) { readers(dd[i % dd.size()], sets[i / dd.size()], pb); },
                    [=](u64 i) { std::string s; for (int w : sets[i / dd.size()]) s += (s.empty() ? "" : " | ") + std::string(all[w].name); return s + " over " + show(dd[i % dd.size()]); }, 1, 60});
  };
  add("pairs", pairs, ds, "every two of " + std::to_string(N) + " operations, each done twice, in two threads over 4 dictionaries");
  add("triples", triples, o.thorough ? ds : std::vector<Terms>{ds[0]}, "every three of " + std::to_string(N) + " operations in three threads");
  {
    // dictionaries of some size: caches that only large ones would have
    std::vector<Terms> big(2);
    for (int v = 0; v < 400; v++) { char b[8]; snprintf(b, sizeof b, "%03d", v * 2); big[0].push_back(b); }
    for (int c = 0; c < 256; c++) { big[1].push_back(std::string(1, (char)c)); if (c % 3 == 0) big[1].push_back(std::string(1, (char)c) + "a"); }
    for (auto &t : big) t = sorted(t);
    fams.push_back({"large", "every two of " + std::to_string(N) + " operations in two threads over 400 numbers, and over all bytes, some with a common tail, all schedules with at most 1 preemption at synchronisation operations, all memory accesses judged",
                    pairs.size() * 2, [=](u64 i) { readers(big[i % 2], pairs[i / 2], 1); },
                    [=](u64 i) { std::string s; for (int w : pairs[i / 2]) s += (s.empty() ? "" : " | ") + std::string(all[w].name); return s + " over large dictionary " + std::to_string(i % 2); }, 1, 60});
  }
  return fams;
}

// ---- C07 ------------------------------------------------------------------------
using Pair = std::pair<std::string, std::string>;
static std::unique_ptr<lld::Distance, void (*)(lld::Distance *)> make_distance(int alg) {
  using P = std::unique_ptr<lld::Distance, void (*)(lld::Distance *)>;
  if (alg == 0) return P(new lld::StandardDistance, [](lld::Distance *d) { delete static_cast<lld::StandardDistance *>(d); });
  if (alg == 1) return P(new lld::TranspositionDistance, [](lld::Distance *d) { delete static_cast<lld::TranspositionDistance *>(d); });
  return P(new lld::MergeAndSplitDistance, [](lld::Distance *d) { delete static_cast<lld::MergeAndSplitDistance *>(d); });
}
static void callers(int alg, const std::vector<std::vector<Pair>> &calls, const std::vector<Pair> &before, int preemptions, bool apart = false) {
  cold([&] {
    auto d = make_distance(alg);
    std::vector<std::vector<std::size_t>> got(calls.size());
    auto setup = [&] {
      mc::heartbeat();
      d = make_distance(alg);
      for (auto &p : before) d->between(p.first, p.second);
      for (auto &g : got) g.clear();
    };
    auto ask = [&](const Pair &p, std::size_t g, const char *when) {
      std::size_t w = ref::dist(alg, p.first, p.second);
      if (g != w) throw rt::Problem{std::string(ref::alg_name(alg)) + " distance of " + mc::q(p.first) + " and " + mc::q(p.second) + " is " + std::to_string(g) + " instead of " + std::to_string(w) + when};
    };
    auto check = [&] {
      for (std::size_t k = 0; k < calls.size(); k++) {
        if (got[k].size() != calls[k].size()) throw rt::Problem{"a call did not return"};
        for (std::size_t j = 0; j < calls[k].size(); j++) ask(calls[k][j], got[k][j], " in a concurrent call");
      }
      for (auto &c : calls) for (auto &p : c) {
        ask(p, d->between(p.second, p.first), " in a later call");
        if (!p.first.empty() && !p.second.empty()) ask({p.first.substr(1), p.second}, d->between(p.first.substr(1), p.second), " in a later call");
      }
    };
    auto s = rt::explore((int)calls.size(), preemptions, g_seconds, apart, setup, [&](int k) {
      for (std::size_t j = 0; j < calls[k].size(); j++) {
        auto &p = calls[k][j];
        got[k].push_back(j % 2 ? (*d)(p.first, p.second) : d->between(p.first, p.second));
      }
    }, check);
    account(s);
    u64 h = alg + 3;
    for (auto &c : calls) for (auto &p : c) h = mc::hash_str(p.second, mc::hash_str(p.first, mc::mix(h, 5)));
    mc::state(h);
  });
}
static std::string show_calls(int alg, const std::vector<std::vector<Pair>> &calls) {
  std::string s = ref::alg_name(alg);
  for (auto &c : calls) { s += " |"; for (auto &p : c) s += " " + mc::q(p.first) + "~" + mc::q(p.second); }
  return s;
}

static std::vector<mc::Family> make_c07(const mc::Options &o) {
  std::vector<mc::Family> fams;
  bool th = o.thorough;
  int pb = th ? 4 : 3;
  std::vector<Pair> pool = {{"", "a"}, {"a", "a"}, {"a", "b"}, {"ab", "b"}, {"ab", "ba"}, {"ab", "cd"}, {"abc", "b"}, {"ba", "ab"}, {"aab", "ab"}};
  {
    u64 n = pool.size(), np = n * (n + 1) / 2;
    auto pick = [pool, n](u64 i) { u64 a = 0; while (i >= n - a) { i -= n - a; a++; } return std::make_pair(pool[a], pool[a + i]); };
    fams.push_back({"cold", "the same two calls, every schedule with at most 1 preemption, each in a process in which nothing was called before", 3 * np,
                    [=](u64 i) { auto [a, b] = pick(i / 3); callers((int)(i % 3), {{a}, {b}}, {}, 1, true); },
                    [=](u64 i) { auto [a, b] = pick(i / 3); return show_calls((int)(i % 3), {{a}, {b}}); }, 1, 60});
    fams.push_back({"two-threads", "every two of " + std::to_string(n) + " calls in two threads on one fresh object of each kind, every schedule with at most " + std::to_string(pb) + " preemptions", 3 * np,
                    [=](u64 i) { auto [a, b] = pick(i / 3); callers((int)(i % 3), {{a}, {b}}, {}, pb); },
                    [=](u64 i) { auto [a, b] = pick(i / 3); return show_calls((int)(i % 3), {{a}, {b}}); }, 1, 60});
  }
  {
    std::vector<Pair> small = {{"", "a"}, {"a", "b"}, {"ab", "b"}, {"ab", "ba"}};
    u64 n = small.size();
    auto pick = [small, n](u64 i) { std::vector<std::vector<Pair>> c(2); c[0] = {small[i % n], small[i / n % n]}; c[1] = {small[i / n / n % n], small[i / n / n / n % n]}; return c; };
    fams.push_back({"two-calls", "every two sequences of two of 4 calls in two threads, every schedule with at most " + std::to_string(pb) + " preemptions", 3 * n * n * n * n,
                    [=](u64 i) { callers((int)(i % 3), pick(i / 3), {}, pb); },
                    [=](u64 i) { return show_calls((int)(i % 3), pick(i / 3)); }, 1, 60});
    u64 m = th ? 4 : 3;
    auto pick3 = [small, m](u64 i) { std::vector<std::vector<Pair>> c(3); c[0] = {small[i % m]}; c[1] = {small[i / m % m]}; c[2] = {small[i / m / m % m]}; return c; };
    fams.push_back({"three-threads", "every three of " + std::to_string(m) + " calls in three threads, every schedule with at most " + std::to_string(th ? 3 : 2) + " preemptions", 3 * m * m * m,
                    [=](u64 i) { callers((int)(i % 3), pick3(i / 3), {}, th ? 3 : 2); },
                    [=](u64 i) { return show_calls((int)(i % 3), pick3(i / 3)); }, 1, 60});
    fams.push_back({"warm", "every two of 4 calls in two threads on an object that has answered every one of 4 calls before", 3 * n * n * n,
                    [=](u64 i) { u64 k = i / 3; callers((int)(i % 3), {{small[k % n]}, {small[k / n % n]}}, {small[k / n / n % n]}, pb); },
                    [=](u64 i) { u64 k = i / 3; return show_calls((int)(i % 3), {{small[k % n]}, {small[k / n % n]}}) + " after " + mc::q(small[k / n / n % n].first); }, 1, 60});
  }
  // longer calls, so that the table grows while others read it
  {
    std::vector<std::pair<Pair, Pair>> big = {{{"abc", "cab"}, {"abc", "cab"}}, {{"abc", "def"}, {"abd", "dec"}}, {{"abcd", "dcba"}, {"a", "b"}}};
    if (th) big.push_back({{"abcde", "edcba"}, {"abcde", "fghij"}});
    fams.push_back({"growth", "longer terms, so that the memo table is enlarged several times, two threads, every schedule with at most 1 preemption", 3 * big.size(),
                    [=](u64 i) { callers((int)(i % 3), {{big[i / 3].first}, {big[i / 3].second}}, {}, 1); },
                    [=](u64 i) { return show_calls((int)(i % 3), {{big[i / 3].first}, {big[i / 3].second}}); }, 1, 60});
  }
  {
    // an object that remembers much already
    std::vector<std::size_t> sizes = {60, 300, 1100, 2100, 4200};
    if (th) { sizes.push_back(10000); sizes.push_back(70000); }
    std::vector<std::pair<Pair, Pair>> calls = {{{"zy", "yz"}, {"zy", "yz"}}, {{"zy", "x"}, {"wv", "y"}}, {{"", "a"}, {"zy", "yz"}}};
    auto fill = [sizes](u64 k) {
      std::vector<Pair> p;
      for (std::size_t v = 0; v < sizes[k]; v++) p.push_back({"", "k" + std::to_string(v)});
      return p;
    };
    fams.push_back({"large-memo", "three pairs of calls in two threads on an object that remembers up to " + std::to_string(sizes.back()) + " results, every schedule with at most 1 preemption", 3 * sizes.size() * calls.size(),
                    [=](u64 i) { auto &c = calls[i / 3 / sizes.size()]; callers((int)(i % 3), {{c.first}, {c.second}}, fill(i / 3 % sizes.size()), 1); },
                    [=](u64 i) { auto &c = calls[i / 3 / sizes.size()]; return show_calls((int)(i % 3), {{c.first}, {c.second}}) + " after " + std::to_string(sizes[i / 3 % sizes.size()]) + " others"; }, 1, 60});
  }
  {
    // calls that take the object past any number of remembered results
    std::size_t limit = th ? 20000 : 8400, every = 20;
    Pair a{"zyx", "wvu"}, b{"tsr", "qpo"};
    auto fill = [](std::size_t k) {
      std::vector<Pair> p;
      for (std::size_t v = 0; v < k; v++) p.push_back({"", "k" + std::to_string(v)});
      return p;
    };
    fams.push_back({"memo-sizes", "two calls that add 16 results or more each, in two threads, on an object that remembers 0, 20, 40 ... " + std::to_string(limit) + " results, every schedule with at most 1 preemption", limit / every + 1,
                    [=](u64 i) { callers(0, {{a}, {b}}, fill(i * every), 1); },
                    [=](u64 i) { return show_calls(0, {{a}, {b}}) + " after " + std::to_string(i * every) + " others"; }, 1, 60});
  }
  return fams;
}

int main(int argc, char **argv) {
  return mc::drive(argc, argv, [](const mc::Options &o) {
    g_seconds = o.thorough ? 600 : 20;
    if (o.prop == "C06") return make_c06(o);
    if (o.prop == "C07") return make_c07(o);
    fprintf(stderr, "unknown property %s\n", o.prop.c_str());
    exit(2);
  }, {"n_schedules", "n_synchronisation_operations", "n_memory_accesses_judged", "n_preemptions", "n_scenarios_cut_off"});
}
