// C24: saves are messages of the published schema (proto/liblevenshtein.proto),
// and whatever encodes a dictionary under it loads as that dictionary. The wire
// format is written and read here by hand, not by the generated classes.
#include "dictlib.h"
#include <array>
#include <numeric>
#include "liblevenshtein/distance/distance.h"
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/algorithm.h"
#include "liblevenshtein/transducer/transducer.h"

using namespace dl;

// ---- the wire format ----------------------------------------------------------
namespace wire {
static std::string varint(u64 v, int pad = 0) {               // pad: superfluous bytes (not minimal, but legal)
  std::string r;
  do { r += (char)((v & 127) | 128); v >>= 7; } while (v);
  if (r.size() + pad > 10) pad = 10 - r.size();
  while (pad-- > 0) r += (char)128;
  r.back() = (char)(r.back() & 127);
  return r;
}
static std::string tag(u64 field, int type, int pad = 0) { return varint(field << 3 | type, pad > 3 ? 3 : pad); }
static std::string bytes(u64 field, const std::string &s, int pad = 0) { return tag(field, 2) + varint(s.size(), pad > 2 ? 2 : pad) + s; }

struct Field { u64 number; int type; u64 value; std::string data; };
static u64 get(const std::string &s, std::size_t &i) {
  u64 v = 0;
  for (int k = 0; k < 10; k++) {
    MC_CHECK(i < s.size(), "the save ends inside a number");
    unsigned char c = s[i++];
    v |= (u64)(c & 127) << (7 * k);
    if (!(c & 128)) return v;
  }
  mc::fail("the save holds a number of more than ten bytes");
}
static std::vector<Field> read(const std::string &s) {
  std::vector<Field> r;
  for (std::size_t i = 0; i < s.size();) {
    u64 t = get(s, i);
    Field f{t >> 3, (int)(t & 7), 0, ""};
    if (f.type == 0) f.value = get(s, i);
    else if (f.type == 2) {
      u64 n = get(s, i);
      MC_CHECK(n <= s.size() - i, "the save ends inside a field");
      f.data = s.substr(i, n);
      i += n;
    } else mc::fail("the save holds a field of wire type " + std::to_string(f.type) + ", of which the schema has none");
    r.push_back(f);
  }
  return r;
}
static void numbers(const Field &f, std::vector<u64> &to) {
  if (f.type == 0) to.push_back(f.value);
  else for (std::size_t i = 0; i < f.data.size();) to.push_back(get(f.data, i));
}
}  // namespace wire

// ---- a dictionary as the schema sees it ------------------------------------------
struct Automaton {
  struct Edge { int from; unsigned char label; int to; };
  std::vector<bool> final{false};
  std::vector<Edge> edges;
};
static Automaton tree_of(const Terms &terms) {
  Automaton a;
  std::map<std::pair<int, unsigned char>, int> next;
  for (auto &t : terms) {
    int u = 0;
    for (unsigned char c : t) {
      auto [it, fresh] = next.emplace(std::make_pair(u, c), (int)a.final.size());
      if (fresh) { a.edges.push_back({u, c, it->second}); a.final.push_back(false); }
      u = it->second;
    }
    a.final[u] = true;
  }
  return a;
}
static Automaton shared_of(const Terms &terms) {             // equal subtrees made one
  Automaton t = tree_of(terms), a;
  std::vector<std::vector<std::pair<unsigned char, int>>> out(t.final.size());
  for (auto &e : t.edges) out[e.from].emplace_back(e.label, e.to);
  std::map<std::pair<bool, std::vector<std::pair<unsigned char, int>>>, int> ids;
  std::vector<int> cls(t.final.size());
  for (int u = (int)t.final.size() - 1; u >= 0; u--) {
    for (auto &e : out[u]) e.second = cls[e.second];
    std::sort(out[u].begin(), out[u].end());
    cls[u] = ids.emplace(std::make_pair((bool)t.final[u], out[u]), (int)ids.size()).first->second;
  }
  int root = cls[0], n = ids.size();
  auto name = [&](int c) { return c == root ? 0 : c == 0 ? root : c; };
  a.final.assign(n, false);
  for (auto &[key, c] : ids) {
    a.final[name(c)] = key.first;
    for (auto &e : key.second) a.edges.push_back({name(c), e.first, name(e.second)});
  }
  return a;
}

// Ways to name the nodes.
static const char *scheme_name[] = {"from 0", "from 1", "downwards to 0", "up to 2^64-1", "multiples of 2^32", "like addresses", "root is 2^64-1, rest from 0"};
constexpr int SCHEMES = 7;
static u64 id_of(int scheme, u64 i, u64 n) {
  switch (scheme) {
    case 0: return i;
    case 1: return i + 1;
    case 2: return n - 1 - i;
    case 3: return ~0ULL - (n - 1 - i);
    case 4: return i << 32;
    case 5: return 0x7fffabcd0000ULL + 48 * i;
    default: return i == 0 ? ~0ULL : i - 1;
  }
}
// Ways to write the label of an edge: a byte, or a char converted to 32 bits with its sign (what this library does), or with
// the sign carried on to 64 bits (what encoders of int32 do).
static const char *label_name[] = {"byte", "sign-extended to 32 bits", "sign-extended to 64 bits"};
static u64 label_of(int how, unsigned char c) {
  if (how == 0) return c;
  if (how == 1) return (u64)(std::uint32_t)(std::int32_t)(signed char)c;
  return (u64)(std::int64_t)(signed char)c;
}
struct Style {
  int scheme = 0, label = 0, packing = 0;    // packing: 0 one block, 1 one by one, 2 a block and the rest one by one, 3 empty blocks and blocks of two
  int nodes = 0, edges = 0;                  // order: 0 as built, 1 reversed, 2 odd ones first
  int fields = 0;                            // permutation of the five fields; 120: all interleaved
  int edge_fields = 0;                       // permutation of the three fields of an edge
  bool zeros = false;                        // write fields that hold their default
  int pad = 0;
  std::string str() const {
    std::ostringstream o;
    o << "ids " << scheme_name[scheme] << ", labels " << label_name[label] << ", packing " << packing << ", orders " << nodes << edges << ", fields " << fields << "/"
      << edge_fields << (zeros ? ", zeros written" : "") << (pad ? ", padded" : "");
    return o.str();
  }
};
template <class T> static std::vector<T> reorder(const std::vector<T> &v, int how) {
  std::vector<T> r;
  if (how == 0) return v;
  if (how == 1) return std::vector<T>(v.rbegin(), v.rend());
  for (std::size_t i = 1; i < v.size(); i += 2) r.push_back(v[i]);
  for (std::size_t i = 0; i < v.size(); i += 2) r.push_back(v[i]);
  return r;
}
static std::vector<std::string> numbers_field(u64 field, const std::vector<u64> &v, int packing, int pad) {
  std::vector<std::string> r;
  auto block = [&](std::size_t a, std::size_t b) {
    std::string s;
    for (; a < b; a++) s += wire::varint(v[a], pad);
    r.push_back(wire::bytes(field, s, pad));
  };
  auto single = [&](std::size_t i) { r.push_back(wire::tag(field, 0, pad) + wire::varint(v[i], pad)); };
  if (packing == 0) { if (!v.empty()) block(0, v.size()); }
  else if (packing == 1) for (std::size_t i = 0; i < v.size(); i++) single(i);
  else if (packing == 2) { block(0, v.size() / 2); for (std::size_t i = v.size() / 2; i < v.size(); i++) single(i); }
  else { block(0, 0); for (std::size_t i = 0; i < v.size(); i += 2) block(i, std::min(v.size(), i + 2)); block(0, 0); }
  return r;
}
// The message in pieces, each a whole field.
static std::vector<std::string> encode(const Automaton &a, u64 size, const std::vector<u64> &id, const Style &s) {
  std::vector<u64> nodes, finals;
  for (std::size_t i = 0; i < a.final.size(); i++) { nodes.push_back(id[i]); if (a.final[i]) finals.push_back(id[i]); }
  std::array<std::vector<std::string>, 5> part;
  part[0] = numbers_field(1, reorder(nodes, s.nodes), s.packing, s.pad);
  part[1] = numbers_field(2, reorder(finals, s.nodes), s.packing, s.pad);
  static const int P3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (auto &e : reorder(a.edges, s.edges)) {
    std::string f[3], m;
    u64 v[3] = {id[e.from], label_of(s.label, e.label), id[e.to]};
    for (int k = 0; k < 3; k++) if (v[k] || s.zeros) f[k] = wire::tag(k + 1, 0, s.pad) + wire::varint(v[k], s.pad);
    for (int k = 0; k < 3; k++) m += f[P3[s.edge_fields][k]];
    part[2].push_back(wire::bytes(3, m, s.pad));
  }
  if (id[0] || s.zeros) part[3].push_back(wire::tag(4, 0, s.pad) + wire::varint(id[0], s.pad));
  if (size || s.zeros) part[4].push_back(wire::tag(5, 0, s.pad) + wire::varint(size, s.pad));
  std::vector<std::string> out;
  if (s.fields == 120) {
    for (std::size_t i = 0, more = 1; more; i++) { more = 0; for (auto &p : part) if (i < p.size()) { out.push_back(p[i]); more = 1; } }
    return out;
  }
  std::vector<int> order{0, 1, 2, 3, 4};
  for (int k = s.fields; k > 0; k--) std::next_permutation(order.begin(), order.end());
  for (int k : order) out.insert(out.end(), part[k].begin(), part[k].end());
  return out;
}
static std::string join(const std::vector<std::string> &v) { return std::accumulate(v.begin(), v.end(), std::string()); }
static std::vector<u64> ids_of(const Automaton &a, int scheme) {
  std::vector<u64> id;
  for (std::size_t i = 0; i < a.final.size(); i++) id.push_back(id_of(scheme, i, a.final.size()));
  return id;
}

// ---- judging ---------------------------------------------------------------------
template <ll::Algorithm A> static void queries(ll::Dawg *d, const Terms &terms, const Terms &qs, const std::string &what) {
  ll::Transducer<A, ll::Candidate> t(d->root());
  for (auto &q : qs) {
    std::map<std::string, std::size_t> got;
    for (const ll::Candidate &c : t(q, 1)) MC_CHECK(got.emplace(c.first, c.second).second, what << ": " << mc::q(c.first) << " is yielded twice");
    auto want = ref::expect((int)A, terms, q, 1);
    MC_CHECK(got == want, what << ": a query for " << mc::q(q) << " within 1 yields " << got.size() << " results instead of " << want.size());
  }
}
static void judge_loaded(const std::string &message, const Terms &terms, const Terms &probes, const std::function<std::string()> &what, bool ask = true) {
  std::istringstream in(message);
  std::unique_ptr<ll::Dawg> d(ll::deserialize_protobuf(in));
  MC_CHECK(d != nullptr, what() << ": the dictionary " << show(terms) << " is refused");
  u64 h = check_holds(*d, terms, probes, what());
  if (ask) {
    Terms qs{""};
    if (!terms.empty()) { qs.push_back(terms[0] + "x"); qs.push_back(terms.back()); }
    queries<ll::Algorithm::STANDARD>(d.get(), terms, qs, what());
    queries<ll::Algorithm::TRANSPOSITION>(d.get(), terms, qs, what());
    queries<ll::Algorithm::MERGE_AND_SPLIT>(d.get(), terms, qs, what());
  }
  mc::state(mc::mix(h, mc::hash_str(message)));
  mc::transitions(1);
  mc::trace();
  if (terms.size() > 1) mc::nontrivial();
}
// Reads a save as a stranger would and says which terms it spells.
static void judge_saved(const std::string &bytes, const Terms &terms, const std::string &what) {
  std::vector<u64> nodes, finals, root{0}, size{0};
  struct E { u64 v[3] = {0, 0, 0}; };
  std::vector<E> edges;
  for (auto &f : wire::read(bytes)) {
    auto number = [&](std::vector<u64> &to) { MC_CHECK(f.type == 0, what << ": field " << f.number << " is not a number"); to.push_back(f.value); };
    switch (f.number) {
      case 1: wire::numbers(f, nodes); break;
      case 2: wire::numbers(f, finals); break;
      case 3: {
        MC_CHECK(f.type == 2, what << ": an edge is not a message");
        E e;
        for (auto &g : wire::read(f.data)) {
          MC_CHECK(g.number >= 1 && g.number <= 3 && g.type == 0, what << ": an edge has a field " << g.number << " of wire type " << g.type);
          e.v[g.number - 1] = g.value;
        }
        edges.push_back(e);
        break;
      }
      case 4: number(root); break;
      case 5: number(size); break;
      default: break;                                         // later fields are no concern of a reader of this schema
    }
  }
  std::map<u64, int> index;
  for (u64 id : nodes) MC_CHECK(index.emplace(id, (int)index.size()).second, what << ": node " << id << " is listed twice; terms " << show(terms));
  MC_CHECK(index.contains(root.back()), what << ": the root " << root.back() << " is not among the " << nodes.size() << " nodes; terms " << show(terms));
  MC_CHECK(size.back() == terms.size(), what << ": the size is given as " << size.back() << " for the " << terms.size() << " terms " << show(terms));
  std::vector<bool> final(nodes.size());
  for (u64 id : finals) {
    MC_CHECK(index.contains(id), what << ": final node " << id << " is not among the nodes; terms " << show(terms));
    MC_CHECK(!final[index[id]], what << ": final node " << id << " is listed twice; terms " << show(terms));
    final[index[id]] = true;
  }
  std::vector<std::map<unsigned char, int>> out(nodes.size());
  for (auto &e : edges) {
    MC_CHECK(index.contains(e.v[0]) && index.contains(e.v[2]), what << ": an edge joins nodes that are not listed; terms " << show(terms));
    std::int64_t l = (std::int64_t)(std::int32_t)(std::uint32_t)e.v[1];
    MC_CHECK(l >= -128 && l <= 255, what << ": a label is " << e.v[1] << ", no character; terms " << show(terms));
    MC_CHECK(out[index[e.v[0]]].emplace((unsigned char)l, index[e.v[2]]).second, what << ": a node has two edges of one label; terms " << show(terms));
  }
  Terms got;
  std::vector<std::pair<int, std::string>> todo{{index[root.back()], ""}};
  std::set<int> reached;
  std::size_t longest = 0;
  for (auto &t : terms) longest = std::max(longest, t.size());
  while (!todo.empty()) {
    auto [u, s] = todo.back();
    todo.pop_back();
    reached.insert(u);
    if (final[u]) got.push_back(s);
    MC_CHECK(got.size() <= terms.size() && s.size() <= longest, what << ": the save spells more than the terms " << show(terms));
    for (auto &[c, v] : out[u]) todo.push_back({v, s + (char)c});
  }
  std::sort(got.begin(), got.end());
  MC_CHECK(got == terms, what << ": the save spells " << show(got) << " instead of " << show(terms));
  MC_CHECK(reached.size() == nodes.size(), what << ": " << nodes.size() - reached.size() << " nodes are out of reach of the root; terms " << show(terms));
  mc::state(mc::mix(mc::hash_str(what), [&] { u64 h = 3; for (auto &t : terms) h = mc::hash_str(t, h); return h; }()));
  mc::transitions(edges.size() + nodes.size());
  mc::trace();
  if (terms.size() > 1) mc::nontrivial();
}
static std::string save(ll::Dawg *d) {
  std::ostringstream o;
  MC_CHECK(ll::serialize_protobuf(d, o), "a save to a string stream failed");
  return o.str();
}
static void saves(const Terms &terms) {
  auto d = build(terms);
  std::string first = save(d.get());
  judge_saved(first, terms, "the save of a built dictionary");
  ll::SortedDawg grown;
  grown.init();
  for (auto &t : terms) MC_CHECK(grown.add(t), "add refused " << mc::q(t));
  judge_saved([&] { grown.finish(); return save(&grown); }(), terms, "the save of a dictionary filled by add");
  std::istringstream in(first);
  std::unique_ptr<ll::Dawg> again(ll::deserialize_protobuf(in));
  MC_CHECK(again != nullptr, "a save was refused; terms " << show(terms));
  judge_saved(save(again.get()), terms, "the save of a loaded dictionary");
}

static const Terms AB2 = {"", "a", "aa", "ab", "b", "ba", "bb"};
static std::vector<mc::Family> make(const mc::Options &o) {
  std::vector<mc::Family> fs;
  static const Terms U = [] {
    Terms t = ref::words(std::string("a\xff\0", 3), 2);
    std::sort(t.begin(), t.end());
    return t;
  }();
  fs.push_back({"saves", "every set of strings of up to two characters of {a, 0xff, 0}: built, filled by add, loaded and saved again; each save is decoded field by field and must spell exactly the set",
                1ULL << U.size(), [](u64 i) { saves(ref::subset(U, i)); }, [](u64 i) { return show(ref::subset(U, i)); }, 64});
  static const std::vector<Terms> big = [] {
    std::vector<Terms> r;
    Terms all, wide, deep, num;
    for (int c = 0; c < 256; c++) { all.push_back(std::string(1, (char)c)); for (int k = 0; k < 256; k += 17) wide.push_back({(char)c, (char)k}); }
    for (int n = 0; n < 600; n++) deep.push_back(std::string(n, 'a' + n % 2));
    for (int n = 0; n < 6000; n++) num.push_back(std::to_string(n));
    r = {sorted(all), sorted(wide), sorted(deep), sorted(num), {std::string(1000, 'x')}, {std::string(300, '\xff') + "a", std::string(300, '\xff') + "b"}};
    return r;
  }();
  fs.push_back({"large-saves", "dictionaries with every byte as a label, 600 nested terms, 6000 numbers, one term of 1000 characters: saved by each route and decoded", big.size(),
                [](u64 i) { saves(big[i]); }, [](u64 i) { return std::to_string(big[i].size()) + " terms"; }, 1, 120});
  // scheme x graph x packing x node order x edge order x label coding
  static const u64 R = SCHEMES * 2 * 4 * 3 * 3 * 3;
  auto style_of = [](u64 k) {
    Style s;
    s.scheme = k % SCHEMES; k /= SCHEMES; k /= 2;
    s.packing = k % 4; k /= 4;
    s.nodes = k % 3; k /= 3;
    s.edges = k % 3; k /= 3;
    s.label = k % 3;
    return s;
  };
  static const Terms V = o.thorough ? U : Terms{"", "a", std::string("\0", 1), "\xe9", "a\xe9", std::string("\xe9\0", 2), "\xe9\xe9"};
  fs.push_back({"encodings", "every set of " + std::to_string(V.size()) + " strings of up to two characters of {a, a byte over 0x7f, 0} x 7 ways to number the nodes x graph shared or tree x 4 packings x orders of nodes and edges x 3 codings of labels: the message must load as the set",
                (1ULL << V.size()) * R,
                [=](u64 i) {
                  Terms t = sorted(ref::subset(V, i / R));
                  Style s = style_of(i % R);
                  Automaton a = (i % R) / SCHEMES % 2 ? tree_of(t) : shared_of(t);
                  judge_loaded(join(encode(a, t.size(), ids_of(a, s.scheme), s)), t, V, [&] { return s.str(); }, i % 7 == 0);
                },
                [=](u64 i) { return show(sorted(ref::subset(V, i / R))) + ": " + style_of(i % R).str(); }, 256});
  // every field order
  static const std::vector<Terms> D = {{}, {""}, {"a"}, {"", "a"}, {"ab", "b"}, {"", "aa", "ab", "ba", "bb"}, sorted(Terms{"\xe9", std::string("\0", 1), "a\xe9"})};
  auto order_of = [](u64 i) {
    Style s;
    s.edge_fields = i % 6; i /= 6;
    s.zeros = i % 2; i /= 2;
    s.scheme = (i % 2) ? 2 : 0; i /= 2;
    s.packing = i % 2; i /= 2;
    s.pad = (i % 2) * 2; i /= 2;
    s.fields = i % 121;
    return s;
  };
  static const u64 Q = 6 * 2 * 2 * 2 * 2 * 121;
  fs.push_back({"field-orders", "7 dictionaries x the 120 orders of the fields and their interleaving x the 6 orders of the fields of an edge x defaults written or left out x root numbered 0 or not x packed or not x numbers padded or minimal", D.size() * Q,
                [=](u64 i) {
                  const Terms &t = D[i / Q];
                  Style s = order_of(i % Q);
                  Automaton a = shared_of(t);
                  judge_loaded(join(encode(a, t.size(), ids_of(a, s.scheme), s)), t, AB2, [&] { return s.str(); }, false);
                },
                [=](u64 i) { return show(D[i / Q]) + ": " + order_of(i % Q).str(); }, 256});
  // every byte as a label
  fs.push_back({"labels", "every byte as a label, alone, second, doubled and beside its neighbours x 3 codings x 7 ways to number the nodes", 256 * 3 * SCHEMES,
                [](u64 i) {
                  char c = (char)(i / (3 * SCHEMES));
                  Terms t = sorted({std::string(1, c), std::string(1, (char)(c + 1)), std::string("a") + c, std::string(2, c), std::string(1, (char)(c ^ 0x80))});
                  Style s;
                  s.label = i % 3; s.scheme = i / 3 % SCHEMES;
                  Automaton a = shared_of(t);
                  judge_loaded(join(encode(a, t.size(), ids_of(a, s.scheme), s)), t, AB2, [&] { return s.str(); });
                },
                [](u64 i) { return "byte " + std::to_string(i / (3 * SCHEMES)) + ", coding " + std::to_string(i % 3) + ", ids " + scheme_name[i / 3 % SCHEMES]; }, 32});
  // every assignment of telling ids to the nodes of small graphs
  static const std::vector<u64> ids = {0, 1, 255, 256, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000001ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL, ~0ULL};
  static const std::vector<std::pair<Terms, int>> G = {{{"a"}, 2}, {{"", "a"}, 2}, {{"a", "ab"}, 3}, {{"ab", "b"}, 3}, {{"", "ab", "b"}, 3}, {{"aa", "b", "ba"}, 0}, {{"abcd"}, 0}};
  struct Pick { std::size_t g; std::vector<u64> id; };
  static std::vector<Pick> picks;
  picks.clear();
  std::size_t n_ids = o.thorough ? ids.size() : 10;
  for (std::size_t g = 0; g < G.size(); g++) {
    std::size_t n = shared_of(G[g].first).final.size();
    std::vector<u64> cur;
    std::function<void()> go = [&] {
      if (cur.size() == n) { picks.push_back({g, cur}); return; }
      for (std::size_t k = 0; k < n_ids; k++) {
        u64 id = ids[o.thorough ? k : (k < 9 ? k : 11)];
        if (std::find(cur.begin(), cur.end(), id) == cur.end()) { cur.push_back(id); go(); cur.pop_back(); }
      }
    };
    go();
  }
  fs.push_back({"numberings", "every assignment of distinct numbers from {0, 1, 255, 256, 2^31-1, 2^31, 2^32-1, 2^32, 2^32+1, 2^64-1" + std::string(o.thorough ? ", 2^63-1, 2^63" : "") + "} to the nodes of 7 graphs of up to five nodes", picks.size(),
                [](u64 i) {
                  const Terms &t = G[picks[i].g].first;
                  judge_loaded(join(encode(shared_of(t), t.size(), picks[i].id, Style{})), t, AB2, [] { return std::string("numbered"); }, i % 5 == 0);
                },
                [](u64 i) { std::ostringstream s; s << show(G[picks[i].g].first) << " numbered"; for (u64 v : picks[i].id) s << " " << v; return s.str(); }, 64});
  // unknown fields, repeated scalars: at every place of the message
  static const std::vector<std::string> odd = [] {
    std::vector<std::string> r;
    for (u64 f : {6, 7, 15, 16, 2047, 100000}) {
      r.push_back(wire::tag(f, 0) + wire::varint(77));
      r.push_back(wire::bytes(f, "later"));
      r.push_back(wire::tag(f, 1) + "12345678");
      r.push_back(wire::tag(f, 5) + "1234");
      r.push_back(wire::tag(f, 3) + wire::tag(1, 0) + wire::varint(5) + wire::tag(f, 4));
    }
    r.push_back(wire::tag(4, 0) + wire::varint(123456));       // root and size given before: the last one counts
    r.push_back(wire::tag(5, 0) + wire::varint(123456));
    return r;
  }();
  struct Spot { std::size_t d, at, what; bool inner; };
  static std::vector<Spot> spots;
  spots.clear();
  auto odd_style = [] { Style s; s.scheme = 1; s.packing = 1; s.zeros = true; return s; };
  for (std::size_t d = 0; d < D.size(); d++) {
    Automaton a = shared_of(D[d]);
    auto parts = encode(a, D[d].size(), ids_of(a, 1), odd_style());
    for (std::size_t at = 0; at <= parts.size(); at++)
      for (std::size_t w = 0; w < odd.size(); w++) {
        if (w + 2 >= odd.size() && at + 2 > parts.size()) continue;          // must come before the true value
        spots.push_back({d, at, w, false});
      }
    for (std::size_t e = 0; e < a.edges.size(); e++) for (std::size_t w = 0; w + 2 < odd.size(); w++) spots.push_back({d, e, w, true});
  }
  fs.push_back({"later-fields", "7 dictionaries x 6 field numbers the schema does not use x 5 wire types, at every place of the message and in every edge; and a root and a size that are given again later (the last counts)", spots.size(),
                [=](u64 i) {
                  const Spot &p = spots[i];
                  Automaton a = shared_of(D[p.d]);
                  auto ids = ids_of(a, 1);
                  auto parts = encode(a, D[p.d].size(), ids, odd_style());
                  if (!p.inner) {
                    parts.insert(parts.begin() + p.at, odd[p.what]);
                    // the two scalars are the last two pieces: a repeated one stands before both
                  } else {
                    auto &e = a.edges[p.at];
                    std::string f = wire::tag(1, 0) + wire::varint(ids[e.from]) + odd[p.what] + wire::tag(2, 0) + wire::varint(e.label) + wire::tag(3, 0) + wire::varint(ids[e.to]);
                    std::size_t first = 0;
                    while ((unsigned char)parts[first][0] != (3 << 3 | 2)) first++;
                    parts[first + p.at] = wire::bytes(3, f);
                  }
                  judge_loaded(join(parts), D[p.d], AB2, [] { return std::string("with fields of a later schema"); });
                },
                [](u64 i) { return show(D[spots[i].d]) + (spots[i].inner ? " in edge " : " at ") + std::to_string(spots[i].at) + " piece " + std::to_string(spots[i].what); }, 64});
  fs.push_back({"large-encodings", "dictionaries with every byte as a label, 600 nested terms, 6000 numbers, one term of 1000 characters x 7 ways to number the nodes x shared or tree (where that is not too large) x 3 orders", big.size() * SCHEMES * 2 * 3,
                [](u64 i) {
                  const Terms &t = big[i / (SCHEMES * 6)];
                  Style s;
                  s.scheme = i % SCHEMES; s.edges = s.nodes = i / SCHEMES % 3; s.label = i % 3; s.packing = i % 2;
                  bool tree = i / (SCHEMES * 3) % 2 && t.size() != 600;
                  Automaton a = tree ? tree_of(t) : shared_of(t);
                  judge_loaded(join(encode(a, t.size(), ids_of(a, s.scheme), s)), t, AB2, [&] { return s.str(); }, false);
                },
                [](u64 i) { return std::to_string(big[i / (SCHEMES * 6)].size()) + " terms, variant " + std::to_string(i % (SCHEMES * 6)); }, 1, 120});
  return fs;
}

int main(int argc, char **argv) {
  return mc::drive(argc, argv, make);
}
