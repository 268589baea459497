// C08, C09: the distance functions against the definition, and the metric laws.
#include "mc.h"
#include "ref.h"
#include <memory>
#include "liblevenshtein/distance/merge_and_split_distance.h"
#include "liblevenshtein/distance/standard_distance.h"
#include "liblevenshtein/distance/transposition_distance.h"

namespace lld = liblevenshtein::distance;
using mc::u64;
using Terms = std::vector<std::string>;

struct Any {     // one distance object of either kind, called through either syntax
  lld::StandardDistance s;
  lld::TranspositionDistance t;
  lld::MergeAndSplitDistance m;
  std::size_t call(int alg, const std::string &v, const std::string &w, int syntax = 0) {
    lld::Distance &d = alg == 0 ? (lld::Distance &)s : alg == 1 ? (lld::Distance &)t : (lld::Distance &)m;
    return syntax ? d(v, w) : d.between(v, w);
  }
};

static void expect(Any &a, int alg, const std::string &v, const std::string &w, int syntax, const std::string &before) {
  std::size_t got = a.call(alg, v, w, syntax), want = ref::dist(alg, v, w);
  MC_CHECK(got == want, ref::alg_name(alg) << " distance between " << mc::q(v) << " and " << mc::q(w) << " is " << got << " instead of " << want << before);
  mc::transitions();
}

static const std::string Z1(1, '\0');

static void c08_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  auto all_pairs = [&](const std::string &name, const std::string &alphabet, int len) {
    auto w = std::make_shared<Terms>(ref::words(alphabet, len));
    mc::Family f;
    f.name = name;
    f.rule = "all pairs of strings over {" + alphabet + "} up to length " + std::to_string(len) +
             ", both orders and syntaxes: on a new object each, and on one object that keeps all earlier results";
    f.count = w->size() * 3;
    f.chunk = 3;
    auto keep = std::make_shared<Any>();
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      const std::string &v = (*w)[i / 3];
      Any row;
      for (auto &x : *w) {
        { Any one; expect(one, alg, v, x, 0, " on a new object"); }
        expect(row, alg, v, x, 1, " after other pairs with the same first term");
        expect(row, alg, x, v, 0, " after the other order was asked");
        expect(*keep, alg, x, v, 0, " on an object used before");
        expect(*keep, alg, v, x, 1, " on an object used before");
        std::size_t d = ref::dist(alg, v, x);
        if (d && d < std::max(v.size(), x.size())) mc::nontrivial();
        mc::state(mc::mix(mc::hash_str(v), mc::mix(mc::hash_str(x), alg)));
      }
      mc::trace(w->size() * 5);
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " distances from " + mc::q((*w)[i / 3]); };
    fs.push_back(f);
  };
  all_pairs("pairs-ab", "ab", o.thorough ? 8 : 6);
  all_pairs("pairs-abc", "abc", o.thorough ? 5 : 4);
  all_pairs("pairs-abcd", "abcd", o.thorough ? 4 : 3);
  all_pairs("pairs-bytes", std::string("\x00\x7f\x80\xff", 4), 2);
  {
    // one object follows another of the same or another kind at the same address
    static const Terms W = {"", "a", "ab", "ba", "acb", "bab"};
    std::vector<std::pair<int, int>> P;
    for (int i = 0; i < (int)W.size(); i++) for (int j = 0; j < (int)W.size(); j++) P.push_back({i, j});
    u64 np = P.size(), n = np * 3;
    int L = o.thorough ? 3 : 2;
    mc::Family f;
    f.name = "successors";
    f.rule = "all sequences of " + std::to_string(L) + " objects at one address, each of any of the three kinds and asked an ordered pair of 6 terms twice, then the pair asked of the one before; every answer checked; also with an object beside them that lives on";
    f.count = 1;
    for (int l = 0; l < L; l++) f.count *= n;
    f.chunk = 256;
    auto letter = [=](u64 i, int l) { for (; l > 0; l--) i /= n; i %= n; return std::make_pair((int)(i % 3), P[i / 3]); };
    f.run = [=](u64 i) {
      static std::aligned_storage_t<sizeof(Any), alignof(Any)> room;
      std::pair<int, int> before{0, 0};
      Any other;
      for (int l = 0; l < L; l++) {
        auto [alg, p] = letter(i, l);
        lld::Distance *d = alg == 0 ? (lld::Distance *)new (&room) lld::StandardDistance : alg == 1 ? (lld::Distance *)new (&room) lld::TranspositionDistance : (lld::Distance *)new (&room) lld::MergeAndSplitDistance;
        auto ask = [&](std::pair<int, int> q) {
          const std::string &v = W[q.first], &w = W[q.second];
          std::size_t got = (*d)(v, w), want = ref::dist(alg, v, w);
          MC_CHECK(got == want, ref::alg_name(alg) << " distance between " << mc::q(v) << " and " << mc::q(w) << " is " << got << " instead of " << want << " on an object at the address of an earlier one");
          mc::transitions();
        };
        if (l) ask(before);
        ask(p); ask(p);
        expect(other, (alg + 1) % 3, W[p.first], W[p.second], l & 1, " on another object");
        ask(p);
        before = p;
        d->~Distance();
        mc::state(mc::mix(i, l * 4 + 3));
      }
      mc::trace(); mc::nontrivial();
    };
    f.describe = [=](u64 i) {
      std::string r;
      for (int l = 0; l < L; l++) { auto [alg, p] = letter(i, l); r += (l ? ", then " : "") + std::string(ref::alg_name(alg)) + " " + mc::q(W[p.first]) + " " + mc::q(W[p.second]); }
      return r;
    };
    fs.push_back(f);
  }
  {
    // call histories on one object
    static const Terms W = {"", "a", "ab", "ba", "abb", "bab", "cab"};
    std::vector<std::pair<int, int>> P;
    for (int i = 0; i < (int)W.size(); i++) for (int j = 0; j < (int)W.size(); j++) P.push_back({i, j});
    int L = 3, np = (int)P.size();
    mc::Family f;
    f.name = "histories";
    u64 n = 3;
    for (int l = 0; l < L; l++) n *= np;
    if (o.thorough) { L = 4; n *= np; }
    f.rule = "all sequences of " + std::to_string(L) + " calls over the ordered pairs of 7 terms on a new object; every answer checked";
    f.count = n;
    f.chunk = 256;
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      u64 k = i / 3;
      Any a;
      std::string done;
      u64 h = alg;
      for (int l = 0; l < L; l++) {
        auto [x, y] = P[k % np];
        k /= np;
        expect(a, alg, W[x], W[y], l & 1, done.empty() ? "" : " after" + done);
        done += " (" + mc::q(W[x]) + "," + mc::q(W[y]) + ")";
        h = mc::mix(h, x * 16 + y);
      }
      mc::trace(); mc::nontrivial();
    };
    f.describe = [=](u64 i) { u64 k = i / 3; std::string s = ref::alg_name((int)(i % 3)); for (int l = 0; l < L; l++) { auto [x, y] = P[k % np]; k /= np; s += " (" + mc::q(W[x]) + "," + mc::q(W[y]) + ")"; } return s; };
    fs.push_back(f);
  }
  {
    u64 max = o.thorough ? 140 : 72;
    mc::Family f;
    f.name = "lengths";
    f.rule = "for every length l up to " + std::to_string(max) + ": periodic strings of that length against their edits at every fifth position, reversals, rotations and unrelated strings";
    f.count = (max + 1) * 3;
    f.chunk = 1;
    f.case_limit = 120;
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      std::size_t l = i / 3;
      for (int period : {1, 2, 3, 5}) {
        std::string v;
        for (std::size_t k = 0; k < l; k++) v += (char)('a' + (period == 5 ? (k * k) % 5 : k % period));
        Terms ws = {std::string(v.rbegin(), v.rend()), std::string(l, 'z'), std::string(l / 2, 'a'), ""};
        if (l > 1) ws.push_back(v.substr(1) + v[0]);
        for (std::size_t p = 0; p < l; p += 5) {
          std::string x = v; x[p] = 'z'; ws.push_back(x);
          x = v; x.erase(p, 1); ws.push_back(x);
          x = v; x.insert(p, "zz"); ws.push_back(x);
          if (p + 1 < l) { x = v; std::swap(x[p], x[p + 1]); ws.push_back(x); }
          if (p + 3 < l) { x = v; x.replace(p, 2, "z"); x.replace(p + 2, 1, "yx"); ws.push_back(x); }
        }
        // fresh objects: the memo of long strings is large
        for (std::size_t k = 0; k < ws.size(); k++) {
          if (k > 5 && (k + l) % 4 && !o.thorough) continue;
          Any a;
          expect(a, alg, v, ws[k], (int)(k & 1), " on a new object");
          expect(a, alg, v, ws[k], (int)(k & 1), " asked again");
          expect(a, alg, ws[k], v, 0, " asked again the other way round");
          mc::state(mc::mix(mc::hash_str(v), mc::mix(mc::hash_str(ws[k]), alg)));
          mc::trace(); mc::nontrivial();
        }
      }
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " length " + std::to_string(i / 3); };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "long-affix";
    f.rule = "common prefixes of every length up to 600 before differing parts, and equal strings of those lengths";
    f.count = 3 * 601;
    f.chunk = 12;
    f.run = [](u64 i) {
      int alg = (int)(i % 3);
      std::string p(i / 3, 'q');
      Any a;
      for (auto [x, y] : std::vector<std::pair<std::string, std::string>>{{"", ""}, {"a", ""}, {"ab", "ba"}, {"abc", "c"}, {"a", "bc"}, {"", "abc"}})
        expect(a, alg, p + x, p + y, 0, " after other pairs with the same prefix");
      mc::state(i + 1); mc::trace(6); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " prefix of " + std::to_string(i / 3); };
    fs.push_back(f);
  }
}

static void c08_large(std::vector<mc::Family> &fs, const mc::Options &o) {
  {
    // distances and lengths around the limits of narrow integers
    static const std::vector<std::size_t> L = {126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 100000};
    mc::Family f;
    f.name = "far-apart";
    f.rule = "lengths around powers of two up to 100000: strings of that length against the empty string, against themselves and, up to length 300, against unrelated strings of that length and of one character; asked three times, both ways, on one object";
    f.count = 3 * L.size();
    f.chunk = 1;
    f.case_limit = 200;
    f.run = [](u64 i) {
      int alg = (int)(i % 3);
      std::size_t l = L[i / 3];
      std::string u(l, 'a');
      Any a;
      for (int round = 0; round < 3; round++) {
        std::string again = round ? " asked again" : " asked first";
        for (auto [x, y, want] : std::vector<std::tuple<std::string, std::string, std::size_t>>{{u, "", l}, {"", u, l}, {u, u, 0}, {u, u.substr(1), 1}, {u.substr(l / 2), u, l / 2}}) {
          std::size_t got = a.call(alg, x, y, round & 1);
          MC_CHECK(got == want, ref::alg_name(alg) << " distance between strings of " << x.size() << " and " << y.size() << " equal characters is " << got << " instead of " << want << again);
          mc::transitions();
        }
        if (l <= (alg == 0 ? 300 : 257)) {
          std::string z(l, 'z');
          expect(a, alg, u, z, round & 1, again); expect(a, alg, z, u, 0, again); expect(a, alg, z.substr(0, l - 1), u, 0, again); expect(a, alg, u, "z", 0, again);
        }
      }
      mc::state(mc::mix(i, 5)); mc::trace(15); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " length " + std::to_string(L[i / 3]); };
    fs.push_back(f);
  }
  {
    // long terms that differ in one place only, on one object
    static const std::vector<std::size_t> L = {9, 17, 24, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300};
    mc::Family f;
    f.name = "long-near";
    f.rule = "for lengths from 9 to 300: one object is asked for all ordered pairs of a string of that length and its variants (another first character, one changed, dropped, doubled or swapped character at each end, in the middle and around bytes 8, 16, 32, 64, 128 and 256)";
    f.count = 3 * L.size();
    f.chunk = 1;
    f.case_limit = 300;
    f.run = [](u64 i) {
      int alg = (int)(i % 3);
      std::size_t l = L[i / 3];
      std::string v;
      for (std::size_t k = 0; k < l; k++) v += (char)('a' + (k * k + k / 5) % 7);
      std::set<std::string> ws = {v};
      std::string head = v; head[0] = 'z'; ws.insert(head);
      for (std::size_t p : {(std::size_t)1, (std::size_t)7, (std::size_t)8, (std::size_t)16, (std::size_t)31, (std::size_t)63, (std::size_t)64, (std::size_t)127, (std::size_t)128, (std::size_t)255, (std::size_t)256, l / 2, l - 2, l - 1}) {
        if (p >= l || (l > 130 && p < 64 && p != 8)) continue;
        std::string x = v; x[p] = 'y'; ws.insert(x);
        if (l > 130) continue;
        x = v; x[p] = 'x'; ws.insert(x);
        x = v; x.erase(p, 1); ws.insert(x);
        x = v; x.insert(p, 1, x[p]); ws.insert(x);
        if (p + 1 < l) { x = v; std::swap(x[p], x[p + 1]); ws.insert(x); }
      }
      Any a;
      for (auto &x : ws) for (auto &y : ws) if (l <= 130 || x == v || x == head || y == v) {
        expect(a, alg, x, y, 0, " after other long pairs");
        mc::heartbeat();
      }
      mc::state(mc::mix(i, 15)); mc::trace(ws.size()); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " length " + std::to_string(L[i / 3]); };
    fs.push_back(f);
  }
  {
    // long terms against very short ones
    std::vector<std::size_t> L = {4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 200, 255, 256, 257, 300};
    if (o.thorough) { L.clear(); for (std::size_t l = 1; l <= 300; l++) L.push_back(l); }
    Terms S = {"x", "q", "xy", "yx", "xx", "xq", "qx", "yq", "xyx", "yxq", "qxy"};
    mc::Family f;
    f.name = "long-against-short";
    f.rule = std::string("for ") + (o.thorough ? "every length up to 300" : "22 lengths from 4 to 300") + ": a term of equal characters with each of 'x', 'xy', 'yx', 'xzy' in no place, at the start, next to it, in the middle, before the end and at the end, against 11 terms of one to three characters, both ways, on new objects and one that is kept; and the same with distinct characters around it";
    f.count = 3 * L.size();
    f.chunk = 1;
    f.case_limit = 200;
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      std::size_t l = L[i / 3];
      Any kept;
      for (int kind = 0; kind < 2; kind++) {
        std::string v;
        for (std::size_t k = 0; k < l; k++) v += kind ? (char)('a' + (k * k + k / 5) % 7) : 'q';
        std::set<std::string> vs = {v};
        for (std::string in : {"x", "xy", "yx", "xzy"})
          for (std::size_t p : {(std::size_t)0, (std::size_t)1, l / 2, l > in.size() ? l - in.size() - 1 : 0, l > in.size() ? l - in.size() : 0})
            if (p + in.size() <= l) { std::string u = v; u.replace(p, in.size(), in); vs.insert(u); }
        for (auto &u : vs) {
          for (auto &x : S) { Any one; expect(one, alg, u, x, 0, " on a new object"); expect(kept, alg, x, u, 1, " on an object that is kept"); }
          Any one;
          for (auto &x : S) expect(one, alg, x, u, 1, " after other short terms");
          mc::state(mc::mix(mc::hash_str(u), alg));
          mc::trace(3 * S.size()); mc::nontrivial();
        }
      }
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " length " + std::to_string(L[i / 3]); };
    fs.push_back(f);
  }
  {
    // an object that remembers very much
    auto w = std::make_shared<Terms>(ref::words("ab", o.thorough ? 9 : 7));
    mc::Family f;
    f.name = "large-memo";
    f.rule = "one object is asked for all ordered pairs of strings over {a, b} up to length " + std::to_string(o.thorough ? 9 : 7) + " (and so remembers " + std::to_string(w->size() * (w->size() + 1) / 2) + " of them), then for all of them again in the opposite order";
    f.count = 3;
    f.chunk = 1;
    f.case_limit = 500;
    f.run = [=](u64 i) {
      int alg = (int)i;
      Any a;
      std::size_t n = w->size(), k = 0;
      std::vector<std::uint8_t> want(n * n);
      for (auto &u : *w) for (auto &v : *w) { std::size_t d = ref::dist(alg, u, v); want[k++] = (std::uint8_t)d; std::size_t got = a.call(alg, u, v); MC_CHECK(got == d, ref::alg_name(alg) << " distance between " << mc::q(u) << " and " << mc::q(v) << " is " << got << " instead of " << d << " on an object that answered " << k - 1 << " calls"); }
      for (std::size_t j = n * n; j-- > 0;) { std::size_t got = a.call(alg, (*w)[j / n], (*w)[j % n], 1); MC_CHECK(got == want[j], ref::alg_name(alg) << " distance between " << mc::q((*w)[j / n]) << " and " << mc::q((*w)[j % n]) << " is " << got << " instead of " << (int)want[j] << " when asked again after " << n * n << " calls"); }
      mc::transitions(2 * n * n); mc::state(mc::mix(i, 9)); mc::trace(2); mc::nontrivial();
    };
    f.describe = [](u64 i) { return std::string(ref::alg_name((int)i)) + " all pairs on one object"; };
    fs.push_back(f);
  }
}

// ---- C09 ------------------------------------------------------------------------
static std::vector<std::string> known;      // findings listed for C09

static std::string canon(const std::string &u, const std::string &v, const std::string &w, std::size_t a, std::size_t b, std::size_t c) {
  auto ren = [](const std::string &x, const std::string &y, const std::string &z) {
    std::map<char, char> m;
    std::vector<std::string> r;
    for (auto *s : {&x, &y, &z}) {
      std::string t;
      for (char ch : *s) { if (!m.count(ch)) { char nx = (char)('a' + m.size()); m[ch] = nx; } t += m[ch]; }
      r.push_back(t);
    }
    return r;
  };
  auto r1 = ren(u, v, w), r2 = ren(w, v, u);
  bool rev = r2 < r1;
  auto &r = rev ? r2 : r1;
  return "u=" + r[0] + " v=" + r[1] + " w=" + r[2] + " d=" + std::to_string(rev ? b : a) + "," + std::to_string(rev ? a : b) + "," + std::to_string(c);
}

static void c09_families(std::vector<mc::Family> &fs, const mc::Options &o) {
  auto triples = [&](const std::string &name, const std::string &alphabet, int len) {
    auto w = std::make_shared<Terms>(ref::words(alphabet, len));
    auto table = std::make_shared<std::vector<std::uint16_t>[3]>();
    auto t3 = std::make_shared<std::array<std::vector<std::uint16_t>, 3>>();
    mc::Family f;
    f.name = name;
    f.rule = "all triples of strings over {" + alphabet + "} up to length " + std::to_string(len) + ", the three distances";
    f.count = w->size() * 3;
    f.chunk = 3;
    f.case_limit = 120;
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      std::size_t n = w->size();
      auto &d = (*t3)[alg];
      if (d.empty()) {       // distances as the library gives them, each on an object of its own row
        d.resize(n * n);
        for (std::size_t a = 0; a < n; a++) { Any obj; for (std::size_t b = 0; b < n; b++) d[a * n + b] = (std::uint16_t)obj.call(alg, (*w)[a], (*w)[b]); }
      }
      std::size_t u = i / 3;
      const std::string &us = (*w)[u];
      for (std::size_t x = 0; x < n; x++) {
        const std::string &xs = (*w)[x];
        std::size_t ux = d[u * n + x];
        auto what = [&] { return std::string(ref::alg_name(alg)) + " distance of " + mc::q(us) + " and " + mc::q(xs); };
        MC_CHECK((ux == 0) == (u == x), what() << " is " << ux);
        MC_CHECK(ux == d[x * n + u], what() << " is " << ux << " one way and " << d[x * n + u] << " the other");
        MC_CHECK(ux <= std::max(us.size(), xs.size()), what() << " exceeds the longer length: " << ux);
        std::size_t diff = us.size() > xs.size() ? us.size() - xs.size() : xs.size() - us.size();
        MC_CHECK(ux >= diff, what() << " is less than the difference in length: " << ux);
        for (std::size_t v = 0; v < n; v++) {
          std::size_t uv = d[u * n + v], vx = d[v * n + x];
          if (ux <= uv + vx) continue;
          if (alg == 1) {
            std::string c = canon(us, (*w)[v], xs, uv, vx, ux);
            bool listed = false;
            for (std::size_t k = 0; k < known.size(); k++)
              if (known[k].size() >= c.size() && known[k].compare(known[k].size() - c.size(), c.size(), c) == 0) { listed = true; mc::count((int)k); }
            if (listed) continue;
          }
          mc::fail(std::string(ref::alg_name(alg)) + " distance breaks the triangle inequality: d(" + mc::q(us) + "," + mc::q(xs) + ")=" + std::to_string(ux) +
                   " > d(" + mc::q(us) + "," + mc::q((*w)[v]) + ")=" + std::to_string(uv) + " + d(" + mc::q((*w)[v]) + "," + mc::q(xs) + ")=" + std::to_string(vx));
        }
        mc::transitions(n);
        mc::state(mc::mix(mc::mix(u, x), alg * 8 + len));
        if (ux > 1) mc::nontrivial();
      }
      mc::trace(n * n);
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " triples with " + mc::q((*w)[i / 3]); };
    fs.push_back(f);
  };
  triples("triples-ab", "ab", o.thorough ? 7 : 6);
  triples("triples-abc", "abc", 4);
  triples("triples-abcd", "abcd", 3);
  triples("triples-bytes", std::string("\x00\x80\xff", 3), 3);
  {
    // short ends around a long common middle
    static const std::vector<std::size_t> L = {6, 14, 30, 62, 126};
    auto e = std::make_shared<Terms>(ref::words("ab", 2));
    mc::Family f;
    f.name = "long-triples";
    f.rule = "all triples of strings pXs where p and s are strings over {a, b} up to length 2 and X is one of 5 lengths up to 126 (the triangle inequality not for transpositions): every ordered distance, asked of an object per pair of ends, and their affix invariance";
    f.count = 3 * L.size();
    f.chunk = 1;
    f.case_limit = 300;
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      std::size_t l = L[i / 3], m = e->size(), n = m * m;
      std::string x;
      for (std::size_t k = 0; k < l; k++) x += (char)('c' + (k * k + k / 4) % 5);
      Terms w;
      for (auto &s : *e) for (auto &p : *e) w.push_back(p + x + s);
      std::vector<std::size_t> d(n * n);
      for (std::size_t s = 0; s < m; s++) for (std::size_t t = 0; t < m; t++) {
        Any a;
        for (std::size_t p = 0; p < m; p++) for (std::size_t q = 0; q < m; q++) d[(s * m + p) * n + t * m + q] = a.call(alg, w[s * m + p], w[t * m + q], (int)(p & 1));
        mc::heartbeat();
      }
      for (std::size_t u = 0; u < n; u++) for (std::size_t v = 0; v < n; v++) {
        std::size_t uv = d[u * n + v];
        auto what = [&] { return std::string(ref::alg_name(alg)) + " distance of " + mc::q(w[u]) + " and " + mc::q(w[v]); };
        MC_CHECK((uv == 0) == (w[u] == w[v]), what() << " is " << uv);
        MC_CHECK(uv == d[v * n + u], what() << " is " << uv << " one way and " << d[v * n + u] << " the other");
        MC_CHECK(uv <= std::max(w[u].size(), w[v].size()), what() << " exceeds the longer length: " << uv);
        std::size_t diff = w[u].size() > w[v].size() ? w[u].size() - w[v].size() : w[v].size() - w[u].size();
        MC_CHECK(uv >= diff, what() << " is less than the difference in length: " << uv);
        // equal ends may be dropped
        std::size_t us = u / m, up = u % m, vs = v / m, vp = v % m;
        if (us == vs) MC_CHECK(uv == d[up * n + vp], what() << " is " << uv << ", but " << d[up * n + vp] << " without the common suffix");
        if (up == vp) MC_CHECK(uv == d[(us * m) * n + vs * m], what() << " is " << uv << ", but " << d[(us * m) * n + vs * m] << " without the common prefix");
        if (alg != 1) for (std::size_t k = 0; k < n; k++)
          MC_CHECK(uv <= d[u * n + k] + d[k * n + v], ref::alg_name(alg) << " distance breaks the triangle inequality: d(" << w[u] << "," << w[v] << ")=" << uv << " > d(" << w[u] << "," << w[k] << ")=" << d[u * n + k] << " + d(" << w[k] << "," << w[v] << ")=" << d[k * n + v]);
        mc::transitions(n);
        if (uv > 1) mc::nontrivial();
        mc::state(mc::mix(mc::mix(u, v), i + 100));
      }
      mc::trace(n * n);
    };
    f.describe = [](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " around " + std::to_string(L[i / 3]) + " characters"; };
    fs.push_back(f);
  }
  {
    mc::Family f;
    f.name = "long-affixes";
    f.rule = "pairs of strings over {a, b} up to length 2 with common prefixes, with common suffixes, and with both, of every length up to 80 and around 128 and 256";
    static const std::vector<std::size_t> more = {127, 128, 129, 255, 256, 257};
    f.count = 3 * (81 + more.size());
    f.chunk = 2;
    f.case_limit = 200;
    auto e = std::make_shared<Terms>(ref::words("ab", 2));
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      std::size_t k = i / 3, l = k <= 80 ? k : more[k - 81];
      std::string x;
      for (std::size_t j = 0; j < l; j++) x += (char)('a' + (j * j + j / 4) % 5);
      for (auto &u : *e) for (auto &v : *e) {
        if (l > 100 && (u.size() > 1 || v.size() > 1)) continue;
        Any fresh;
        std::size_t d = fresh.call(alg, u, v), dp, ds, db;
        { Any a; dp = a.call(alg, x + u, x + v); }
        { Any a; ds = a.call(alg, u + x, v + x); }
        { Any a; db = a.call(alg, x + u + x, x + v + x); }
        MC_CHECK(dp == d && ds == d && db == d, ref::alg_name(alg) << " distance of " << mc::q(u) << " and " << mc::q(v) << " is " << d << ", but with a common prefix of " << l << " characters " << dp << ", with the suffix " << ds << ", with both " << db);
        mc::transitions(4);
        if (d) mc::nontrivial();
      }
      mc::state(mc::mix(i, 55)); mc::trace(e->size() * e->size());
    };
    f.describe = [](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " affix number " + std::to_string(i / 3); };
    fs.push_back(f);
  }
  {
    auto w = std::make_shared<Terms>(ref::words("abc", o.thorough ? 4 : 3));
    auto x = std::make_shared<Terms>(ref::words("abc", 3, 1));
    mc::Family f;
    f.name = "affixes";
    f.rule = "all pairs of strings over {a, b, c} up to length " + std::to_string(o.thorough ? 4 : 3) + " with every common prefix and every common suffix of length 1 to 3";
    f.count = w->size() * 3;
    f.chunk = 1;
    f.case_limit = 120;
    f.run = [=](u64 i) {
      int alg = (int)(i % 3);
      const std::string &u = (*w)[i / 3];
      for (auto &v : *w) {
        Any a;
        std::size_t d = a.call(alg, u, v);
        for (auto &p : *x) {
          std::size_t dp = a.call(alg, p + u, p + v), ds = a.call(alg, u + p, v + p);
          MC_CHECK(dp == d, ref::alg_name(alg) << " distance of " << mc::q(u) << " and " << mc::q(v) << " is " << d << ", but " << dp << " with the prefix " << mc::q(p));
          MC_CHECK(ds == d, ref::alg_name(alg) << " distance of " << mc::q(u) << " and " << mc::q(v) << " is " << d << ", but " << ds << " with the suffix " << mc::q(p));
          mc::transitions(2);
        }
        if (d) mc::nontrivial();
        mc::state(mc::mix(mc::hash_str(u), mc::mix(mc::hash_str(v), alg)));
        mc::trace(x->size() * 2);
      }
    };
    f.describe = [=](u64 i) { return std::string(ref::alg_name((int)(i % 3))) + " affixes of pairs with " + mc::q((*w)[i / 3]); };
    fs.push_back(f);
  }
}

int main(int argc, char **argv) {
  if (const char *k = getenv("VERIF_KNOWN")) {
    std::ifstream in(k);
    std::string line, key = "finding: property=C09 ";
    while (std::getline(in, line)) if (line.compare(0, key.size(), key) == 0) known.push_back(line.substr(key.size()));
  }
  std::vector<std::string> names;
  for (std::size_t k = 0; k < known.size() && k < 100; k++) names.push_back("known_" + std::to_string(k));
  return mc::drive(argc, argv, [](const mc::Options &o) {
    std::vector<mc::Family> fs;
    if (o.prop == "C08") { c08_families(fs, o); c08_large(fs, o); }
    if (o.prop == "C09") c09_families(fs, o);
    return fs;
  }, names);
}
