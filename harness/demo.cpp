// C21: sessions with the demo program. The program's own sources are compiled in
// with main renamed; every run is a process of its own with its files in a
// scratch directory.
#include "dictlib.h"
#include <sys/prctl.h>
#include <sys/wait.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "liblevenshtein/serialization/serializer.h"

auto demo_main(int argc, char *argv[]) -> int;

using namespace dl;
namespace fs = std::filesystem;
static std::string g_dir;

static std::string slurp(const std::string &p) {
  std::ifstream in(p, std::ios::binary);
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}
static void spill(const std::string &p, const std::string &b) {
  std::ofstream out(p, std::ios::binary | std::ios::trunc);
  out << b;
}

struct Run { int status; std::string out; };
static Run run_demo(const std::string &cwd, const std::vector<std::string> &args, const std::string &input, rlim_t most = 20000000) {
  std::string in = cwd + "/.in", out = cwd + "/.out";
  spill(in, input);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (chdir(cwd.c_str())) _exit(120);
    int a = open(".in", O_RDONLY), b = open(".out", O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(a, 0); dup2(b, 1);
    close(a); close(b);
    rlimit lim{most, most};                              // a session that never ends fills its output
    setrlimit(RLIMIT_FSIZE, &lim);
    std::vector<std::string> v{"liblevenshtein-demo"};
    v.insert(v.end(), args.begin(), args.end());
    std::vector<char *> av;
    for (auto &s : v) av.push_back(&s[0]);
    av.push_back(nullptr);
    exit(demo_main((int)v.size(), av.data()));
  }
  int st = 0;
  waitpid(p, &st, 0);
  mc::transitions();
  return {st, slurp(out)};
}

static std::string cmd(const std::vector<std::string> &args) {
  std::string s = "demo";
  for (auto &a : args) s += " " + a;
  return s;
}

static std::vector<std::string> sections(const std::string &out) {
  std::vector<std::string> sect;
  std::size_t pos = 0;
  const std::string mark = "query> ";
  for (;;) {
    std::size_t e = out.find(mark, pos);
    sect.push_back(out.substr(pos, e == std::string::npos ? e : e - pos));
    if (e == std::string::npos) return sect;
    pos = e + mark.size();
  }
}

// The one listed finding: the last query, not ended by a newline, is answered again and
// again. True if that and nothing else is what has happened.
static bool repeats_last_query(const Run &r, const Terms &terms, int alg, std::size_t bound, const Terms &queries) {
  if (!WIFSIGNALED(r.status) || WTERMSIG(r.status) != SIGXFSZ) return false;
  auto sect = sections(r.out);
  if (sect.size() < queries.size() + 10) return false;
  for (std::size_t k = 1; k + 1 < sect.size(); k++) {      // the last one is cut off
    const std::string &q = queries[std::min(k, queries.size()) - 1];
    std::vector<std::string> got, want;
    std::istringstream is(sect[k]);
    std::string line;
    while (std::getline(is, line)) if (line.compare(0, 3, "d(\"") == 0) got.push_back(line);
    for (auto &[t, d] : ref::expect(alg, terms, q, bound)) want.push_back("d(\"" + q + "\", \"" + t + "\") = " + std::to_string(d));
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (got != want) return false;
  }
  return true;
}
static const char *unterminated = "the last query is not followed by a newline: it is answered again and again and the session does not end";
static bool is_listed = false;

// What a user sees after each query, and whether the session ended well.
static void check_session(const Run &r, const Terms &terms, int alg, std::size_t bound, const Terms &queries, const std::string &what) {
  MC_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, what << ": the session ended with " << mc::status_text(r.status) << "; output " << mc::q(r.out.substr(0, 60)));
  std::vector<std::string> sect = sections(r.out);
  MC_CHECK(sect.size() == queries.size() + 2, what << ": " << sect.size() - 1 << " prompts for " << queries.size() << " queries");
  for (std::size_t k = 0; k <= queries.size() + 1; k++) {
    std::vector<std::string> got, want;
    std::istringstream is(sect[k]);
    std::string line;
    while (std::getline(is, line)) if (line.compare(0, 3, "d(\"") == 0) got.push_back(line);
    if (k >= 1 && k <= queries.size())
      for (auto &[t, d] : ref::expect(alg, terms, queries[k - 1], bound)) want.push_back("d(\"" + queries[k - 1] + "\", \"" + t + "\") = " + std::to_string(d));
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    MC_CHECK(got == want, what << ": query " << (k ? mc::q(k <= queries.size() ? queries[k - 1] : "") : "(none yet)") << " printed " << mc::qs(got.begin(), got.end()) << " instead of " << mc::qs(want.begin(), want.end()));
    if (!got.empty()) mc::nontrivial();
  }
  mc::trace();
}
static void check_saved(const std::string &file, const Terms &terms, const std::string &what) {
  DawgPtr d(ll::deserialize_protobuf(file));
  MC_CHECK(d != nullptr, what << ": no dictionary was saved");
  check_holds(*d, terms, {"", "zz"}, what + ": the saved dictionary");
}

static std::string fresh_dir() {
  std::string d = g_dir + "/s" + std::to_string(getpid());
  fs::remove_all(d);
  fs::create_directories(d);
  return d;
}

struct DictFile { std::string text; Terms terms; };
static DictFile dict_file(const std::string &text) {
  DictFile f{text, {}};
  std::istringstream is(text);
  std::string l;
  while (std::getline(is, l)) f.terms.push_back(l);
  f.terms = sorted(f.terms);
  return f;
}

static std::vector<mc::Family> make(const mc::Options &o) {
  bool th = o.thorough;
  std::vector<DictFile> dicts;
  for (std::string t : {"", "ab\n", "\n", "ab", "b\na\n", "ab\nba\nab\n", "\nabc\nacb\n", "abc\nab\na\n\n", "foo\nbar\nfoobar\n", "a\\b\n\"q\"\nxyz\n", "\xc3\xa9t\xc3\xa9\n\xff\n",
                        "aaaa\naab\nabab\nbaba\nbbb\nabba\n"}) dicts.push_back(dict_file(t));
  struct Opt { std::vector<std::string> args; int alg; };
  static const std::vector<Opt> algs = {{{}, 1}, {{"--standard"}, 0}, {{"--transposition"}, 1}, {{"--merge-and-split"}, 2}};
  struct Bnd { std::vector<std::string> args; std::size_t n; };
  static const std::vector<Bnd> bounds = {{{}, 2}, {{"--max-distance", "0"}, 0}, {{"--max-distance", "1"}, 1}, {{"--max-distance", "3"}, 3}, {{"--max-distance", "1000000"}, 1000000}};
  Terms pool = {"ab", "ba", "abcd", "\xff", " "};
  if (th) { pool.push_back("foobra"); pool.push_back("aabb"); }
  std::vector<Terms> sessions{{}};
  for (auto &a : pool) sessions.push_back({a});
  for (auto &a : pool) for (auto &b : pool) sessions.push_back({a, b});
  sessions.push_back({"ab", "ba", "ab", "xyz", "abab", "bar"});
  static const char *endings[] = {"an empty line", "end of input"};

  std::vector<mc::Family> fams;
  u64 NS = sessions.size(), NB = bounds.size(), ND = dicts.size();
  u64 count = ND * 4 * NB * NS * 2;
  auto input_of = [](const Terms &q, int ending) {
    std::string s;
    for (auto &x : q) s += x + "\n";
    if (ending == 0) s += "\nignored after the end\n";
    else if (ending == 2) s.pop_back();
    return s;
  };
  auto decode = [=](u64 i) { struct X { u64 d, a, b, s; int e; } x; x.e = (int)(i % 2); i /= 2; x.b = i % NB; i /= NB; x.a = i % 4; i /= 4; x.d = i % ND; x.s = i / ND; return x; };
  auto describe = [=](u64 i) {
    auto x = decode(i);
    return "dictionary file " + mc::q(dicts[x.d].text) + " " + cmd(algs[x.a].args) + " bound " + std::to_string(bounds[x.b].n) + " queries " + show(sessions[x.s]) + " ended by " + endings[x.e];
  };
  fams.push_back({"sessions", "every dictionary file of 12 x 4 algorithm options x 5 bound options x every session of up to two of " + std::to_string(pool.size()) + " queries (and one of six) x 2 ways to end; then the same session once more from the save alone", count,
                  [=](u64 i) {
                    auto x = decode(i);
                    std::string dir = fresh_dir();
                    spill(dir + "/words.txt", dicts[x.d].text);
                    std::vector<std::string> opts = algs[x.a].args;
                    opts.insert(opts.end(), bounds[x.b].args.begin(), bounds[x.b].args.end());
                    std::vector<std::string> first{"--dictionary-path", "words.txt", "--serialization-path", "save.pb"};
                    first.insert(first.end(), opts.begin(), opts.end());
                    std::string in = input_of(sessions[x.s], x.e);
                    check_session(run_demo(dir, first, in), dicts[x.d].terms, algs[x.a].alg, bounds[x.b].n, sessions[x.s], "first run");
                    check_saved(dir + "/save.pb", dicts[x.d].terms, "first run");
                    fs::remove(dir + "/words.txt");
                    std::vector<std::string> second{"--serialization-path", "save.pb"};
                    second.insert(second.end(), opts.begin(), opts.end());
                    check_session(run_demo(dir, second, in), dicts[x.d].terms, algs[x.a].alg, bounds[x.b].n, sessions[x.s], "run from the save");
                    check_saved(dir + "/save.pb", dicts[x.d].terms, "run from the save");
                    mc::state(mc::mix(i, 5));
                  }, describe, 16});
  // the end of the input right after the last query, without a newline
  {
    std::vector<u64> ds = {1, 5, 7, 11};
    u64 N = NS - 1;
    fams.push_back({"unterminated", "4 dictionary files x 4 algorithm options x every session as above but the empty one, its last query not followed by a newline", ds.size() * 4 * N,
                    [=](u64 i) {
                      auto &df = dicts[ds[i % 4]];
                      auto &al = algs[i / 4 % 4];
                      auto &q = sessions[i / 16 + 1];
                      std::string dir = fresh_dir();
                      spill(dir + "/words.txt", df.text);
                      std::vector<std::string> args{"--dictionary-path", "words.txt", "--serialization-path", "save.pb"};
                      args.insert(args.end(), al.args.begin(), al.args.end());
                      Run r = run_demo(dir, args, input_of(q, 2), 40000);
                      mc::state(mc::mix(i, 9));
                      if (is_listed && repeats_last_query(r, df.terms, al.alg, 2, q)) { mc::count(0); mc::trace(); return; }
                      check_session(r, df.terms, al.alg, 2, q, "run without a final newline");
                      check_saved(dir + "/save.pb", df.terms, "run without a final newline");
                    },
                    [=](u64 i) { return "dictionary file " + mc::q(dicts[ds[i % 4]].text) + " " + cmd(algs[i / 4 % 4].args) + " queries " + show(sessions[i / 16 + 1]) + " without a final newline"; }, 4});
  }
  // every order of the options
  fams.push_back({"option-order", "every order of the four options, for every algorithm and two bounds", 24 * 4 * 2,
                  [=](u64 i) {
                    std::vector<std::vector<std::string>> parts = {{"--dictionary-path", "words.txt"}, {"--serialization-path", "save.pb"}, algs[i / 2 % 4].args, bounds[i % 2 ? 2 : 3].args};
                    std::vector<int> perm{0, 1, 2, 3};
                    for (u64 k = 0; k < i / 8; k++) std::next_permutation(perm.begin(), perm.end());
                    std::vector<std::string> args;
                    for (int k : perm) args.insert(args.end(), parts[k].begin(), parts[k].end());
                    std::string dir = fresh_dir();
                    spill(dir + "/words.txt", dicts[11].text);
                    check_session(run_demo(dir, args, "abab\n\n"), dicts[11].terms, algs[i / 2 % 4].alg, bounds[i % 2 ? 2 : 3].n, {"abab"}, cmd(args));
                    check_saved(dir + "/save.pb", dicts[11].terms, cmd(args));
                    mc::state(mc::mix(i, 6));
                  },
                  [](u64 i) { return "order " + std::to_string(i / 8); }, 4});
  // exit codes: a bad argument list put together from a good beginning and a bad end
  {
    std::vector<std::vector<std::string>> good = {{}, {"--dictionary-path", "words.txt"}, {"--standard"}, {"--max-distance", "1"}, {"--serialization-path", "save.pb"},
                                                  {"--dictionary-path", "words.txt", "--merge-and-split"}, {"--serialization-path", "save.pb", "--transposition", "--max-distance", "2"}};
    struct Bad { std::vector<std::string> args; int code; };
    std::vector<Bad> bad = {{{"-h"}, 0}, {{"--help"}, 0}, {{"-h", "--nonsense"}, 0}, {{"--dictionary-path"}, 2}, {{"--serialization-path"}, 2}, {{"--max-distance"}, 2},
                            {{"--dictionary-path", "missing.txt"}, 3}, {{"--dictionary-path", "missing.txt", "--nonsense"}, 3}, {{"--nonsense"}, 4}, {{"words.txt"}, 4}, {{""}, 4}, {{"--standard="}, 4}, {{"-hh"}, 4}, {{"--nonsense", "-h"}, 4}};
    fams.push_back({"exit-codes", "every combination of 7 good beginnings and 14 ends: help, missing values, missing files, unknown arguments; and no dictionary at all", good.size() * bad.size() + 3,
                    [=](u64 i) {
                      std::string dir = fresh_dir();
                      std::vector<std::string> args;
                      int code;
                      if (i < good.size() * bad.size()) {
                        spill(dir + "/words.txt", dicts[5].text);
                        args = good[i / bad.size()];
                        auto &b = bad[i % bad.size()];
                        args.insert(args.end(), b.args.begin(), b.args.end());
                        code = b.code;
                      } else {
                        u64 k = i - good.size() * bad.size();
                        if (k == 1) args = {"--serialization-path", "missing.pb"};
                        if (k == 2) args = {"--standard", "--max-distance", "1"};
                        code = 3;
                      }
                      Run r = run_demo(dir, args, "ab\n\n");
                      MC_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == code, cmd(args) << ": ended with " << mc::status_text(r.status) << " instead of exit code " << code);
                      mc::state(mc::mix(i, 7)); mc::trace(); mc::nontrivial();
                    },
                    [=](u64 i) { return i < good.size() * bad.size() ? cmd(good[i / bad.size()]) + cmd(bad[i % bad.size()].args).substr(4) : "no dictionary"; }, 2});
  }
  // damaged saves beside a sound dictionary
  {
    std::vector<u64> ds = {1, 5, 7, 11};
    const u64 S = 64;
    fams.push_back({"damaged-saves", "4 dictionaries with a save cut short at every byte, and with every byte set to 0 or 255: the session is answered from a sound dictionary", ds.size() * S,
                    [=](u64 i) {
                      auto &df = dicts[ds[i / S]];
                      std::string dir = fresh_dir();
                      spill(dir + "/words.txt", df.text);
                      Terms t = df.terms;
                      std::string b;
                      { DawgPtr d = build(t); std::ostringstream os; ll::serialize_protobuf(d.get(), os); b = os.str(); }
                      for (std::size_t n = i % S; n < b.size(); n += S) {
                        spill(dir + "/save.pb", b.substr(0, n));
                        std::string what = "save cut to " + std::to_string(n) + " of " + std::to_string(b.size()) + " bytes";
                        check_session(run_demo(dir, {"--dictionary-path", "words.txt", "--serialization-path", "save.pb"}, "ab\n"), t, 1, 2, {"ab"}, what);
                        check_saved(dir + "/save.pb", t, what);
                        for (int v : {0, 255}) {
                          std::string c = b;
                          c[n] = (char)v;
                          spill(dir + "/save.pb", c);
                          Terms now = t;
                          { DawgPtr d(ll::deserialize_protobuf(dir + "/save.pb")); if (d) now = sorted(iterate(*d, 1000)); }
                          what = "byte " + std::to_string(n) + " of the save set to " + std::to_string(v);
                          check_session(run_demo(dir, {"--dictionary-path", "words.txt", "--serialization-path", "save.pb"}, "ab\n"), now, 1, 2, {"ab"}, what);
                          check_saved(dir + "/save.pb", now, what);
                        }
                      }
                      mc::state(mc::mix(i, 8));
                    },
                    [=](u64 i) { return "save of " + mc::q(dicts[ds[i / S]].text) + ", positions " + std::to_string(i % S) + " mod 64"; }, 1});
  }
  return fams;
}

int main(int argc, char **argv) {
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--rundir") g_dir = argv[i + 1];
  if (g_dir.empty()) g_dir = ".";
  std::vector<std::string> names;
  if (const char *k = getenv("VERIF_KNOWN")) {
    std::ifstream in(k);
    std::string line, key = "finding: property=C21 ";
    while (std::getline(in, line)) if (line.compare(0, key.size(), key) == 0) { is_listed |= line.substr(key.size()) == unterminated; names.push_back("known_" + std::to_string(names.size())); }
  }
  return mc::drive(argc, argv, make, names);
}
