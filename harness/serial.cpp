// C14: saving and loading preserve a dictionary. C15: damaged saves.
// C16: failures while saving.
#include "alloc.h"
#include "dictlib.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/fsuid.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "liblevenshtein/serialization/serializer.h"
#include "liblevenshtein/transducer/transducer.h"

using namespace dl;
namespace fs = std::filesystem;
namespace llp = liblevenshtein::proto;

// ---- injected failures of file operations ---------------------------------------
// Every operation that can carry a failure to the saving code goes through here
// while `on`; the `k`-th of them (in the order they happen) gets the fault `plan[k]`.
namespace inject {
enum Kind { NONE, FAIL, SHORT1, HALF, INTR, FAIL_AFTER };
struct Op { const char *name; char cls; };             // cls: o open, w write, c close/flush
static bool on = false;
static std::vector<Op> seen;
static std::map<std::size_t, std::pair<Kind, int>> plan;
static bool failed = false;                              // a fault that is a real failure was delivered
static bool disk_full = false;                           // after FAIL with `sticky`, every later write fails as well
static bool sticky = false;
static std::string lost_file;                            // emptied when a close fails: what it held did not arrive

static std::pair<Kind, int> next(const char *name, char cls) {
  std::size_t k = seen.size();
  seen.push_back({name, cls});
  if (sticky && disk_full && cls == 'w') { failed = true; return {FAIL, ENOSPC}; }
  auto it = plan.find(k);
  if (it == plan.end()) return {NONE, 0};
  auto f = it->second;
  if (f.first == FAIL || f.first == FAIL_AFTER) { failed = true; disk_full = true; }
  return f;
}
template <class F> F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
static void lose() {
  if (!lost_file.empty()) { int r = ::truncate(lost_file.c_str(), 0); (void)r; }
}
}  // namespace inject

extern "C" {
ssize_t write(int fd, const void *b, size_t n) {
  static auto f = inject::real<ssize_t (*)(int, const void *, size_t)>("write");
  if (!inject::on || fd <= 2) return f(fd, b, n);
  auto [k, e] = inject::next("write", 'w');
  switch (k) {
  case inject::FAIL: errno = e; return -1;
  case inject::INTR: errno = EINTR; return -1;
  case inject::SHORT1: return f(fd, b, n ? 1 : 0);
  case inject::HALF: return f(fd, b, (n + 1) / 2);
  default: return f(fd, b, n);
  }
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  static auto f = inject::real<ssize_t (*)(int, const struct iovec *, int)>("writev");
  static auto w = inject::real<ssize_t (*)(int, const void *, size_t)>("write");
  if (!inject::on || fd <= 2) return f(fd, v, c);
  auto [k, e] = inject::next("writev", 'w');
  size_t total = 0;
  for (int i = 0; i < c; i++) total += v[i].iov_len;
  if (k == inject::FAIL) { errno = e; return -1; }
  if (k == inject::INTR) { errno = EINTR; return -1; }
  if (k == inject::SHORT1 || k == inject::HALF) {
    size_t left = k == inject::SHORT1 ? (total ? 1 : 0) : (total + 1) / 2, done = 0;
    for (int i = 0; i < c && left; i++) {
      size_t m = std::min(left, v[i].iov_len);
      ssize_t r = m ? w(fd, v[i].iov_base, m) : 0;
      if (r < 0) return done ? (ssize_t)done : -1;
      done += r; left -= m;
    }
    return done;
  }
  return f(fd, v, c);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  static auto f = inject::real<ssize_t (*)(int, const void *, size_t, off_t)>("pwrite");
  if (!inject::on) return f(fd, b, n, o);
  auto [k, e] = inject::next("pwrite", 'w');
  if (k == inject::FAIL) { errno = e; return -1; }
  return f(fd, b, n, o);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *p) {
  static auto f = inject::real<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
  if (!inject::on || p == stderr || p == stdout) return f(b, s, n, p);
  auto [k, e] = inject::next("fwrite", 'w');
  if (k == inject::FAIL) { errno = e; return 0; }
  return f(b, s, n, p);
}
int fflush(FILE *p) {
  static auto f = inject::real<int (*)(FILE *)>("fflush");
  if (!inject::on || p == stderr || p == stdout || p == nullptr) return f(p);
  auto [k, e] = inject::next("fflush", 'c');
  if (k == inject::FAIL) { f(p); inject::lose(); errno = e; return EOF; }
  return f(p);
}
FILE *fopen(const char *p, const char *m) {
  static auto f = inject::real<FILE *(*)(const char *, const char *)>("fopen");
  if (!inject::on) return f(p, m);
  auto [k, e] = inject::next("fopen", 'o');
  if (k == inject::FAIL) { errno = e; return nullptr; }
  return f(p, m);
}
FILE *fopen64(const char *p, const char *m) {
  static auto f = inject::real<FILE *(*)(const char *, const char *)>("fopen64");
  if (!inject::on) return f(p, m);
  auto [k, e] = inject::next("fopen", 'o');
  if (k == inject::FAIL) { errno = e; return nullptr; }
  return f(p, m);
}
int fclose(FILE *p) {
  static auto f = inject::real<int (*)(FILE *)>("fclose");
  if (!inject::on) return f(p);
  auto [k, e] = inject::next("fclose", 'c');
  int r = f(p);
  if (k == inject::FAIL) { inject::lose(); errno = e; return EOF; }
  return r;
}
int close(int fd) {
  static auto f = inject::real<int (*)(int)>("close");
  if (!inject::on) return f(fd);
  auto [k, e] = inject::next("close", 'c');
  int r = f(fd);
  if (k == inject::FAIL) { inject::lose(); errno = e; return -1; }
  return r;
}
static int open_any(const char *name, const char *p, int fl, mode_t m) {
  auto f = inject::real<int (*)(const char *, int, ...)>(name);
  if (!inject::on) return f(p, fl, m);
  auto [k, e] = inject::next("open", 'o');
  if (k == inject::FAIL) { errno = e; return -1; }
  return f(p, fl, m);
}
int open(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
  return open_any("open", p, fl, m);
}
int open64(const char *p, int fl, ...) {
  va_list a; va_start(a, fl); mode_t m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a);
  return open_any("open64", p, fl, m);
}
int fsync(int fd) {
  static auto f = inject::real<int (*)(int)>("fsync");
  if (!inject::on) return f(fd);
  auto [k, e] = inject::next("fsync", 'c');
  if (k == inject::FAIL) { inject::lose(); errno = e; return -1; }
  return f(fd);
}
int rename(const char *a, const char *b) {
  static auto f = inject::real<int (*)(const char *, const char *)>("rename");
  if (!inject::on) return f(a, b);
  auto [k, e] = inject::next("rename", 'o');
  if (k == inject::FAIL) { errno = e; return -1; }
  return f(a, b);
}
}

// ---- helpers --------------------------------------------------------------------
static std::string g_dir;                                 // scratch directory
static std::string scratch(const std::string &name) {
  std::string d = g_dir + "/p" + std::to_string(getpid());
  mkdir(d.c_str(), 0755);
  return d + "/" + name;
}
static std::string slurp(const std::string &p) {
  std::ifstream in(p, std::ios::binary);
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}
static void spill(const std::string &p, const std::string &bytes) {
  std::ofstream out(p, std::ios::binary | std::ios::trunc);
  out << bytes;
}
static std::string save_bytes(ll::Dawg *d) {
  std::ostringstream os(std::ios::binary);
  MC_CHECK(ll::serialize_protobuf(d, os), "saving to a string stream returned false");
  return os.str();
}
static ll::Dawg *load_bytes(const std::string &b) {
  std::istringstream is(b, std::ios::binary);
  return ll::deserialize_protobuf(is);
}

static Terms numbered(std::size_t n) {
  Terms t;
  char b[16];
  for (std::size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%05zu", i * 7919 % 100000); t.push_back(b); }
  return sorted(t);
}
// Terms whose graph is exactly a chain with branches: one node per position.
static Terms ladder(std::size_t n) {
  Terms t;
  for (std::size_t i = 1; i <= n; i++) t.push_back(std::string(i, (char)('a' + i % 3)));
  return sorted(t);
}

template <ll::Algorithm A> static void collect(ll::DawgNode *root, const std::string &q, std::size_t n, std::size_t limit, std::vector<std::pair<std::string, std::size_t>> &r) {
  ll::Transducer<A, ll::Candidate> t(root);
  for (const auto &c : t(q, n)) {
    r.push_back(c);
    MC_CHECK(r.size() <= limit, "the query " << mc::q(q) << " yields more than " << limit << " results");
  }
  std::sort(r.begin(), r.end());
}
static std::vector<std::pair<std::string, std::size_t>> ask(int alg, ll::DawgNode *root, const std::string &q, std::size_t n, std::size_t limit) {
  std::vector<std::pair<std::string, std::size_t>> r;
  if (alg == 0) collect<ll::Algorithm::STANDARD>(root, q, n, limit, r);
  else if (alg == 1) collect<ll::Algorithm::TRANSPOSITION>(root, q, n, limit, r);
  else collect<ll::Algorithm::MERGE_AND_SPLIT>(root, q, n, limit, r);
  return r;
}

// Structure of a dictionary, independent of where its nodes are: numbered breadth first over sorted labels.
static std::vector<int> shape(ll::DawgNode *root) {
  std::unordered_map<ll::DawgNode *, int> id{{root, 0}};
  std::vector<ll::DawgNode *> order{root};
  std::vector<int> r;
  for (std::size_t i = 0; i < order.size(); i++) {
    std::map<unsigned char, ll::DawgNode *> es;
    order[i]->for_each_edge([&](char c, ll::DawgNode *t) { es[(unsigned char)c] = t; });
    r.push_back(order[i]->is_final() ? -2 : -1);
    for (auto &[c, t] : es) {
      auto [it, fresh] = id.emplace(t, (int)order.size());
      if (fresh) order.push_back(t);
      r.push_back(c); r.push_back(it->second);
    }
    MC_CHECK(order.size() < 2000000, "the graph does not end");
  }
  return r;
}

struct Probe { Terms members, queries; std::size_t bound = 2; };

static void check_same(ll::Dawg *orig, ll::Dawg *copy, const Terms &terms, const Probe &p, const std::string &what) {
  MC_CHECK(copy != nullptr, what << ": loading returned null; terms " << show(terms));
  MC_CHECK(copy != orig, what << ": the same object came back");
  u64 h = check_holds(*copy, terms, p.members, what);
  MC_CHECK(*orig == *copy && *copy == *orig, what << ": the loaded dictionary is not equal to the original; terms " << show(terms));
  MC_CHECK(std::hash<ll::Dawg>()(*orig) == std::hash<ll::Dawg>()(*copy), what << ": hash codes differ; terms " << show(terms));
  MC_CHECK(shape(orig->root()) == shape(copy->root()), what << ": the loaded graph is not the graph that was saved; terms " << show(terms));
  for (auto &q : p.queries)
    for (int a = 0; a < 3; a++) {
      auto x = ask(a, orig->root(), q, p.bound, terms.size() + 2), y = ask(a, copy->root(), q, p.bound, terms.size() + 2);
      MC_CHECK(x == y, what << ": " << ref::alg_name(a) << " query " << mc::q(q) << " gives other answers; terms " << show(terms));
      mc::transitions(x.size() + y.size() + 2);
    }
  mc::state(h);
  mc::trace();
}

// A source of bytes that hands out at most `step` bytes per refill.
struct Dribble : std::streambuf {
  std::string data; std::size_t pos = 0, step;
  Dribble(std::string d, std::size_t s) : data(std::move(d)), step(s) {}
  int underflow() override {
    if (pos >= data.size()) return traits_type::eof();
    std::size_t n = std::min(step, data.size() - pos);
    setg(&data[pos], &data[pos], &data[pos] + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
  std::streamsize xsgetn(char *s, std::streamsize n) override {   // short reads, as from a pipe
    std::streamsize got = 0;
    while (got < n) {
      if (gptr() == egptr() && underflow() == traits_type::eof()) break;
      std::streamsize m = std::min<std::streamsize>(n - got, egptr() - gptr());
      memcpy(s + got, gptr(), m);
      gbump((int)m);
      got += m;
    }
    return got;
  }
};
// A destination that takes `limit` bytes and then refuses.
struct Limited : std::streambuf {
  std::string got; std::size_t limit; int mode;       // mode 0: short count, 1: one at a time, 2: throws
  bool hit = false;
  Limited(std::size_t l, int m) : limit(l), mode(m) {}
  int overflow(int c) override {
    if (c == traits_type::eof()) return 0;
    if (got.size() >= limit) { hit = true; if (mode == 2) throw std::runtime_error("sink full"); return traits_type::eof(); }
    got.push_back((char)c);
    return c;
  }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    if (mode == 1) return std::streambuf::xsputn(s, n);
    std::size_t m = std::min<std::size_t>(n, limit - std::min(limit, got.size()));
    got.append(s, m);
    if ((std::streamsize)m < n) { hit = true; if (mode == 2) throw std::runtime_error("sink full"); }
    return m;
  }
};

static void warm_up() {
  static int done = 0;
  if (done == (int)getpid()) return;
  done = (int)getpid();
  for (int k = 0; k < 3; k++) {
    DawgPtr d = build({"a", "ab"});
    std::string b = save_bytes(d.get());
    delete load_bytes(b);
    delete load_bytes(b.substr(0, 3));
    delete load_bytes("\xff\xff");
    std::string f = scratch("warm");
    ll::serialize_protobuf(d.get(), f);
    delete ll::deserialize_protobuf(f);
    delete ll::deserialize_protobuf(scratch("none"));
    Limited l(2, 0);
    std::ostream o(&l);
    ll::serialize_protobuf(d.get(), o);
    std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d.get()));
    (void)m->ShortDebugString();
  }
}
struct LeakCheck {
  long before;
  LeakCheck() { warm_up(); before = alloc::live; }
};
#define LEAK_CHECK(leak, what)                                                                                 \
  do {                                                                                                         \
    long now_ = alloc::live;                                                                                   \
    MC_CHECK(now_ == (leak).before, what << ": " << (now_ - (leak).before) << " blocks are still allocated afterwards"); \
  } while (0)

// ---- C14 ------------------------------------------------------------------------
static const char *save_name[] = {"char*", "string", "fs::path", "stream"};
static bool save_by(int how, ll::Dawg *d, const std::string &file) {
  switch (how) {
  case 0: return ll::serialize_protobuf(d, file.c_str());
  case 1: return ll::serialize_protobuf(d, file);
  case 2: return ll::serialize_protobuf(d, fs::path(file));
  default: {
    std::ofstream out(file, std::ios::binary | std::ios::trunc);
    bool r = ll::serialize_protobuf(d, out);
    out.close();
    return r && !out.fail();
  }
  }
}
static ll::Dawg *load_by(int how, const std::string &file) {
  switch (how) {
  case 0: return ll::deserialize_protobuf(file.c_str());
  case 1: return ll::deserialize_protobuf(file);
  case 2: return ll::deserialize_protobuf(fs::path(file));
  default: {
    std::ifstream in(file, std::ios::binary);
    return ll::deserialize_protobuf(in);
  }
  }
}

static void round_trip(const Terms &terms, const Probe &p) {
  LeakCheck leak;
  {
    DawgPtr d = build(terms);
    auto s0 = shape(d->root());
    std::string b1 = save_bytes(d.get());
    check_holds(*d, terms, p.members, "the original after saving");
    MC_CHECK(shape(d->root()) == s0, "saving changed the graph; terms " << show(terms));
    DawgPtr e(load_bytes(b1));
    check_same(d.get(), e.get(), terms, p, "loaded");
    std::string b2 = save_bytes(e.get());
    DawgPtr f(load_bytes(b2));
    check_same(d.get(), f.get(), terms, p, "loaded, saved and loaded again");
    check_holds(*d, terms, p.members, "the original after loading its copy");
    // without bytes in between
    std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d.get()));
    DawgPtr g(ll::from_protobuf(*m));
    check_same(d.get(), g.get(), terms, p, "converted to a message and back");
    e.reset();
    check_same(d.get(), f.get(), terms, p, "the second copy once the first is gone");
    d.reset();
    check_holds(*f, terms, p.members, "the copy once the original is gone");
  }
  LEAK_CHECK(leak, "saving and loading " << show(terms));
  if (terms.size() > 1) mc::nontrivial();
}

// Every shape of destination that is sound: names of every length and byte, links,
// a file that may be written in a directory that may not.
static mc::Family names_family() {
  mc::Family f;
  f.name = "names";
  f.rule = "file names of every length from 1 to 255, with every byte but '/' and NUL, hidden, relative and deep paths, symbolic, dangling and hard links, a writable file in a directory that is not, a name with the parts of other names; each missing, empty, shorter and longer before; 3 ways to save x 4 ways to load";
  enum { LEN = 255, BYTES = 255, SHAPES = 10 };
  f.count = LEN + BYTES + SHAPES * 12;
  f.chunk = 8;
  f.run = [](u64 i) {
    const Terms t = {"", "ab", "abc", "b"};
    LeakCheck leak;
    {
      DawgPtr d = build(t), big = build(sorted(ref::words("abc", 5)));
      std::string base = scratch("names");
      mkdir(base.c_str(), 0755);
      auto save_load = [&](int s, int l, const std::string &file, const std::string &what) {
        MC_CHECK(save_by(s, d.get(), file), "saving to " << what << " by " << save_name[s] << " returned false");
        DawgPtr e(load_by(l, file));
        check_same(d.get(), e.get(), t, {{"", "a", "zz"}, {}, 1}, "saved to " + what + " by " + save_name[s] + ", loaded by " + save_name[l]);
        mc::transitions(2);
      };
      auto all = [&](const std::string &file, const std::string &what) {
        for (int before = 0; before < 4; before++)
          for (int s = 0; s < 3; s++) {
            ::unlink(file.c_str());
            if (before == 1) { std::ofstream(file, std::ios::binary); }
            if (before == 2) { std::ofstream(file, std::ios::binary) << "x"; }
            if (before == 3) MC_CHECK(save_by(3, big.get(), file), "cannot prepare " << what);
            save_load(s, (s + before) % 4, file, what);
          }
        ::unlink(file.c_str());
      };
      if (i < LEN) all(base + "/" + std::string(i + 1, 'n'), "a name of " + std::to_string(i + 1) + " characters");
      else if (i < LEN + BYTES) {
        char c = (char)(i - LEN + 1);
        if (c != '/') { all(base + "/" + c + "x", "a name beginning with byte " + std::to_string((unsigned char)c)); all(base + "/x" + c, "a name ending in byte " + std::to_string((unsigned char)c)); }
      } else {
        u64 k = i - LEN - BYTES;
        int shape = (int)(k % SHAPES), s = (int)(k / SHAPES % 3), l = (int)(k / SHAPES / 3);
        std::string a = base + "/target", b = base + "/link";
        ::unlink(a.c_str()); ::unlink(b.c_str());
        if (shape < 2) { MC_CHECK(save_by(3, big.get(), a), "cannot prepare"); MC_CHECK(::symlink(shape ? "target" : a.c_str(), b.c_str()) == 0, "cannot link"); save_load(s, l, b, "a symbolic link"); }
        else if (shape == 2) { MC_CHECK(::symlink("target", b.c_str()) == 0, "cannot link"); save_load(s, l, b, "a dangling symbolic link"); }
        else if (shape == 3) { MC_CHECK(save_by(3, big.get(), a) && ::link(a.c_str(), b.c_str()) == 0, "cannot link"); save_load(s, l, b, "a hard link"); }
        else if (shape == 4) save_load(s, l, base + "/../names/./" + "target", "a path with dots");
        else if (shape == 5) { std::string cwd = fs::current_path(); fs::current_path(base); save_load(s, l, "target", "a relative path"); fs::current_path(cwd); }
        else if (shape == 6) { std::string p = base; std::vector<std::string> made; for (int n = 0; n < 60; n++) { p += "/" + std::string(50, 'd'); mkdir(p.c_str(), 0755); made.push_back(p); } save_load(s, l, p + "/target", "a deep path"); ::unlink((p + "/target").c_str()); for (; !made.empty(); made.pop_back()) rmdir(made.back().c_str()); }
        else if (shape == 7) { for (const char *x : {".part", ".tmp", "~", ".bak", ".new", ".old"}) { std::string n = a + x; mkdir(n.c_str(), 0755); } save_load(s, l, a, "a name with directories beside it"); for (const char *x : {".part", ".tmp", "~", ".bak", ".new", ".old"}) rmdir((a + x).c_str()); }
        else if (shape == 8 || shape == 9) {      // the file may be written, its directory may not (shape 9: nor be listed)
          std::string dir = base + "/closed", file = dir + "/target";
          chmod(dir.c_str(), 0755);
          mkdir(dir.c_str(), 0755);
          MC_CHECK(save_by(3, big.get(), file) && chmod(file.c_str(), 0666) == 0 && chmod(dir.c_str(), shape == 8 ? 0555 : 0111) == 0, "cannot prepare");
          setfsuid(65534);
          int fd = ::open(file.c_str(), O_RDWR);
          if (fd >= 0) { close(fd); save_load(s, l, file, "a writable file in a directory that is not"); }
          setfsuid(geteuid());
          chmod(dir.c_str(), 0755);
          ::unlink(file.c_str());
          rmdir(dir.c_str());
        }
        ::unlink(a.c_str()); ::unlink(b.c_str());
      }
    }
    LEAK_CHECK(leak, "saving and loading");
    mc::state(mc::mix(i, 0x6e616d65)); mc::trace(); mc::nontrivial();
  };
  f.describe = [](u64 i) { return "destination " + std::to_string(i); };
  return f;
}

static std::vector<mc::Family> make_c14(const mc::Options &o) {
  using namespace ref;
  std::vector<mc::Family> fams;
  auto subsets = [&](const std::string &name, const std::string &ab, std::size_t len, int most, Probe p) {
    Terms w = words(ab, len);
    auto sets = subsets_upto((int)w.size(), most);
    auto pick = [w, sets](u64 i) { Terms t; for (int k : sets[i]) t.push_back(w[k]); return sorted(t); };
    p.members = w;
    for (auto &x : w) p.members.push_back(x + "z");
    fams.push_back({name, "every set of at most " + std::to_string(most) + " of the " + std::to_string(w.size()) + " strings of length <= " + std::to_string(len) + " over " + mc::q(ab) +
                          ": saved to bytes, loaded, saved and loaded again, converted to a message and back", sets.size(),
                    [pick, p](u64 i) { round_trip(pick(i), p); }, [pick](u64 i) { return show(pick(i)); }, 16});
  };
  bool th = o.thorough;
  subsets("all-sets", "ab", 2, 7, {{}, {"", "ab", "c"}, 1});
  subsets("small-sets", "ab", 3, th ? 5 : 4, {{}, {"ab"}, 2});
  subsets("bytes", std::string("\x00\x7f\x80\xff", 4), 2, th ? 3 : 2, {{}, {std::string("\x00", 1), "\xff\x80"}, 1});
  subsets("abc", "abc", th ? 4 : 3, 2, {{}, {"bc"}, 2});

  {   // every label alone and in pairs with every other
    fams.push_back({"labels", "every byte value as the only term, as second letter, and with each other byte value", 256,
                    [](u64 i) {
                      std::string c(1, (char)i);
                      round_trip({c}, {{"", c, c + c, "x"}, {c}, 1});
                      round_trip(sorted({"x" + c, c + "y"}), {{"x", "y", c}, {"x"}, 1});
                      for (int j = 0; j < 256; j += 5) round_trip(sorted({c, std::string(1, (char)j)}), {{"", "xx"}, {}, 1});
                    },
                    [](u64 i) { return "byte " + std::to_string(i); }, 4});
  }
  {   // sizes, up to several stream buffers
    std::vector<std::pair<std::string, std::function<Terms()>>> big;
    for (std::size_t n : {5, 50, 200, 400, 410, 420, 430, 440, 600, 1000, 3000}) big.push_back({"numbers-" + std::to_string(n), [n] { return numbered(n); }});
    for (std::size_t n : {20, 40, 60, 80}) big.push_back({"ladder-" + std::to_string(n), [n] { return ladder(n); }});
    for (std::size_t n : {100, 250, 400}) big.push_back({"long-" + std::to_string(n), [n] { return sorted({std::string(n, 'a'), std::string(n - 1, 'a') + "b", "b" + std::string(n / 2, 'a')}); }});
    big.push_back({"all-binary-10", [] { return sorted(words("ab", 10)); }});
    big.push_back({"all-bytes", [] { Terms t; for (int i = 0; i < 256; i++) { t.push_back(std::string(1, (char)i)); t.push_back(std::string(2, (char)i)); } return sorted(t); }});
    big.push_back({"empty-set", [] { return Terms{}; }});
    big.push_back({"empty-term", [] { return Terms{""}; }});
    for (int bits : th ? std::vector<int>{9, 11, 13, 16} : std::vector<int>{9, 11, 13})
      for (int mode = 0; mode < 3; mode++)      // the last labels after head v spell v, so that no two heads share a node
        big.push_back({"nodes-" + std::to_string(1 << bits) + "-" + std::to_string(mode), [bits, mode] {
          Terms t;
          for (int v = 0; v < 1 << bits; v++) {
            char head[16];
            snprintf(head, sizeof head, "%05d", v);
            if (mode != 1 || v == 0) t.push_back(head);      // the head is a term
            for (int b = 0; b < bits; b++) if ((v + 1) >> b & 1) { t.push_back(std::string(head) + (char)('a' + b)); if (mode == 2) t.push_back(t.back() + "!"); }
          }
          return sorted(t);
        }});
    fams.push_back({"sizes", "dictionaries of increasing size, past every buffer involved, each through every pair of overloads and in 4 block sizes of the source stream", big.size() * 20,
                    [big](u64 i) {
                      Terms t = big[i / 20].second();
                      Probe p{{"", "00000", "zz"}, {t.empty() ? "a" : t[t.size() / 2].substr(0, 20)}, 1};
                      LeakCheck leak;
                      u64 k = i % 20;
                      {
                        DawgPtr d = build(t);
                        if (k < 16) {
                          std::string f = scratch("sizes.pb");
                          MC_CHECK(save_by((int)k / 4, d.get(), f), "saving by " << save_name[k / 4] << " returned false");
                          DawgPtr e(load_by((int)k % 4, f));
                          check_same(d.get(), e.get(), t, p, std::string("saved by ") + save_name[k / 4] + ", loaded by " + save_name[k % 4]);
                        } else {
                          std::size_t steps[] = {1, 7, 4096, 8192};
                          Dribble b(save_bytes(d.get()), steps[k - 16]);
                          std::istream in(&b);
                          DawgPtr e(ll::deserialize_protobuf(in));
                          check_same(d.get(), e.get(), t, p, "loaded from a stream in blocks of " + std::to_string(steps[k - 16]));
                        }
                      }
                      LEAK_CHECK(leak, "saving and loading");
                      mc::nontrivial();
                    },
                    [big](u64 i) { return big[i / 20].first + " way " + std::to_string(i % 20); }, 1, 240});
  }
  {   // streams that hold something else, too
    std::vector<Terms> dicts = {{}, {""}, {"a"}, {"a", "ab", "b"}, numbered(30), numbered(3000)};
    std::vector<std::size_t> before = {0, 1, 2, 100, 4095, 4096, 8191, 8192, 10000};
    fams.push_back({"stream-positions", "6 dictionaries saved to streams that already hold 0 to 10000 bytes (in memory, to a file opened for writing, appending, updating at its end, and updating in its middle) and loaded from streams from which these were read before, or that were put to that place: what was there before stays, the stream is good, and the save loads back equal", dicts.size() * before.size() * 6,
                    [=](u64 i) {
                      const Terms &t = dicts[i / 6 % dicts.size()];
                      std::size_t n = before[i / 6 / dicts.size()];
                      int kind = (int)(i % 6);
                      std::string head;
                      for (std::size_t k = 0; k < n; k++) head += (char)(k * 31 + 7);
                      std::string f = scratch("positions.pb");
                      LeakCheck leak;
                      {
                        DawgPtr d = build(t);
                        std::string alone = save_bytes(d.get()), got;
                        auto what = "a stream that holds " + std::to_string(n) + " bytes (kind " + std::to_string(kind) + ")";
                        bool saved = false, good = false;
                        auto put = [&](std::ostream &out) { saved = ll::serialize_protobuf(d.get(), out); good = out.good(); };
                        if (kind == 0) { std::ostringstream o; o << head; put(o); got = o.str(); }
                        else if (kind == 1) { std::stringstream o; o.write(head.data(), n); put(o); got = o.str(); }
                        else {
                          { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << head; if (kind == 2) put(o); else if (kind == 5) o << std::string(alone.size() + 50, '~'); }
                          if (kind == 3) { std::ofstream o(f, std::ios::binary | std::ios::app); put(o); }
                          if (kind == 4) { std::fstream o(f, std::ios::binary | std::ios::in | std::ios::out | std::ios::ate); put(o); }
                          if (kind == 5) { std::fstream o(f, std::ios::binary | std::ios::in | std::ios::out); o.seekp(n); put(o); }
                          std::ifstream in(f, std::ios::binary);
                          got.assign(std::istreambuf_iterator<char>(in), {});
                          if (kind == 5) { MC_CHECK(got.size() == n + alone.size() + 50 && got.substr(n + alone.size()) == std::string(50, '~'), "saving to the middle of a file changes what comes behind the save"); got.resize(n + alone.size()); }
                        }
                        MC_CHECK(saved && good, "saving " << show(t) << " to " << what << " fails");
                        MC_CHECK(got.substr(0, n) == head, "saving to " << what << " changes them");
                        auto take = [&](std::istream &in, const std::string &how) {
                          DawgPtr e(ll::deserialize_protobuf(in));
                          check_same(d.get(), e.get(), t, {{"", "a", "zz"}, {}, 1}, "saved to " + what + ", loaded " + how);
                          mc::transitions(2);
                        };
                        { std::istringstream in(got); std::string h(n, 0); in.read(h.data(), n); MC_CHECK(h == head, "cannot read the head"); take(in, "from memory after reading the rest"); }
                        { std::istringstream in(got); in.seekg(n); take(in, "from its place in memory"); }
                        { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << got; }
                        { std::ifstream in(f, std::ios::binary); std::string h(n, 0); in.read(h.data(), n); take(in, "from a file after reading the rest"); }
                        { std::fstream in(f, std::ios::binary | std::ios::in | std::ios::out); in.seekg(n); take(in, "from its place in a file"); }
                      }
                      LEAK_CHECK(leak, "saving and loading");
                      mc::state(mc::mix(i, 45)); mc::trace(); mc::nontrivial();
                    },
                    [=](u64 i) { return show(dicts[i / 6 % dicts.size()]).substr(0, 60) + " behind " + std::to_string(before[i / 6 / dicts.size()]) + " bytes, kind " + std::to_string(i % 6); }, 4});
  }
  {   // more nodes and edges than fit narrow numbers
    static const int ls[] = {32767, 32768, 65534, 65535, 65536, 65537, 140000};
    fams.push_back({"large-graphs", "graphs of 32767 to 140000 nodes in a row, around powers of two (with one edge each; with a second edge to an end; every node final), through bytes and through a file, compared node by node", sizeof ls / sizeof *ls * 3,
                    [](u64 i) {
                      int l = ls[i / 3], kind = (int)(i % 3);
                      LeakCheck leak;
                      {
                        auto *end = new ll::DawgNode(true), *n = end;
                        std::string t;
                        for (int k = 0; k < l; k++) {
                          auto *m = new ll::DawgNode(kind == 2);
                          t += (char)(k % 256);
                          m->add_edge((char)(k % 256), n);
                          if (kind == 1 && n != end) m->add_edge((char)(k % 256 + 1), end);
                          n = m;
                        }
                        std::reverse(t.begin(), t.end());
                        std::size_t size = kind == 0 ? 1 : kind == 1 ? l : l + 1;
                        DawgPtr d(new ll::SortedDawg(n, size));
                        auto what = "a dictionary of " + std::to_string(l + 1) + " nodes (kind " + std::to_string(kind) + ")";
                        std::string f = scratch("large.pb");
                        MC_CHECK(save_by((int)(i % 4), d.get(), f), "saving " << what << " returns false");
                        mc::heartbeat();
                        for (int way = 0; way < 2; way++) {
                          DawgPtr e(way ? load_by((int)(i % 4), f) : load_bytes(save_bytes(d.get())));
                          MC_CHECK(e != nullptr, what << " is refused when it is loaded");
                          MC_CHECK(e->size() == size, what << " has size " << e->size() << " after loading");
                          MC_CHECK(shape(d->root()) == shape(e->root()), what << ": the loaded graph is not the graph that was saved");
                          MC_CHECK(*d == *e && *e == *d && std::hash<ll::Dawg>()(*d) == std::hash<ll::Dawg>()(*e), what << " does not equal what is loaded, or in its hash code");
                          MC_CHECK(e->contains(t) && !e->contains(t + "a") && e->contains(t.substr(0, l / 2)) == (kind == 2) && (kind != 1 || e->contains(t.substr(0, l - 2) + (char)(t[l - 2] + 1))), what << ": membership after loading is wrong");
                          mc::heartbeat();
                          mc::transitions(8);
                        }
                      }
                      LEAK_CHECK(leak, "saving and loading");
                      mc::state(mc::mix(i, 44)); mc::trace(2); mc::nontrivial();
                    },
                    [](u64 i) { return std::to_string(ls[i / 3]) + " nodes, kind " + std::to_string(i % 3); }, 1, 240});
  }
  {   // overloads and file histories: every sequence of saves into one file
    Terms w = {"", "a", "ab", "b", "\xff"};
    std::vector<Terms> dicts;
    for (u64 m = 0; m < 32; m++) dicts.push_back(sorted(subset(w, m)));
    auto pick = [dicts](u64 i) { return dicts[i % 32]; };
    fams.push_back({"overloads", "every subset of {\"\", a, ab, b, \\xff} x 4 ways to save x 4 ways to load", 32 * 16,
                    [pick](u64 i) {
                      Terms t = pick(i);
                      int s = (int)(i / 32) / 4, l = (int)(i / 32) % 4;
                      LeakCheck leak;
                      {
                        DawgPtr d = build(t);
                        std::string f = scratch("some file.pb");
                        MC_CHECK(save_by(s, d.get(), f), "saving " << show(t) << " by " << save_name[s] << " returned false");
                        DawgPtr e(load_by(l, f));
                        check_same(d.get(), e.get(), t, {{"", "a", "b", "c"}, {"a"}, 1}, std::string("saved by ") + save_name[s] + ", loaded by " + save_name[l]);
                        DawgPtr e2(load_by(l, f));
                        check_same(d.get(), e2.get(), t, {{"", "a", "b", "c"}, {"a"}, 1}, "loaded a second time");
                      }
                      LEAK_CHECK(leak, "saving and loading " << show(t));
                      mc::nontrivial();
                    },
                    [pick](u64 i) { return show(pick(i)) + " saved by " + save_name[(i / 32) / 4] + " loaded by " + save_name[(i / 32) % 4]; }, 8});
    std::vector<Terms> hist = {{}, {"a"}, {"a", "ab", "b"}, numbered(30), numbered(500), sorted(words("ab", 6))};
    int depth = th ? 4 : 3;
    u64 total = 1;
    for (int k = 0; k < depth; k++) total *= hist.size();
    fams.push_back({"file-histories", "every sequence of " + std::to_string(depth) + " saves of 6 dictionaries of different sizes into one file, loaded after each save and saved on from the loaded copy", total,
                    [hist, depth](u64 i) {
                      LeakCheck leak;
                      {
                        std::string f = scratch("history.pb");
                        ::unlink(f.c_str());
                        for (int k = 0; k < depth; k++, i /= hist.size()) {
                          const Terms &t = hist[i % hist.size()];
                          DawgPtr d = build(t);
                          MC_CHECK(save_by(k % 3, d.get(), f), "save " << k + 1 << " into one file returned false");
                          DawgPtr e(load_by((k + 1) % 4, f));
                          check_same(d.get(), e.get(), t, {{"", "a", "zz"}, {}, 1}, "after save " + std::to_string(k + 1) + " into one file");
                          MC_CHECK(save_by((k + 1) % 3, e.get(), f), "saving the loaded copy over its own file returned false");
                          DawgPtr g(load_by(k % 4, f));
                          check_same(d.get(), g.get(), t, {{"", "a", "zz"}, {}, 1}, "the copy saved over its own file, save " + std::to_string(k + 1));
                        }
                      }
                      LEAK_CHECK(leak, "a history of saves");
                      mc::nontrivial();
                    },
                    [hist, depth](u64 i) {
                      std::string s = "sizes";
                      for (int k = 0; k < depth; k++, i /= hist.size()) s += " " + std::to_string(hist[i % hist.size()].size());
                      return s;
                    }, 4});
  }
  {   // very many saves and loads in one process, also of damaged data
    u64 total = th ? 300000 : 70000;
    fams.push_back({"many-saves", std::to_string(total) + " saves and loads one after another in one process, of 8 dictionaries in turn (every fourth time over, damaged data is loaded in between), to bytes and now and then to a file", 8,
                    [total](u64 i) {
                      std::vector<Terms> ts = {{}, {""}, {"a"}, {"a", "ab"}, {"ab", "ba"}, {"", "b"}, {"aa", "ab", "ba", "bb"}, {"\xff"}};
                      std::vector<DawgPtr> ds;
                      for (auto &t : ts) ds.push_back(build(t));
                      std::string f = scratch("many.pb");
                      warm_up();
                      long before = 0;
                      for (u64 k = 0; k < total; k++) {
                        auto &d = ds[(k + i) % ds.size()];
                        auto &t = ts[(k + i) % ds.size()];
                        std::string b = save_bytes(d.get());
                        if (k / 8 % 4 == 3) { DawgPtr x(load_bytes(b.substr(0, b.size() / 2))); DawgPtr y(load_bytes("\xff" + b)); }
                        DawgPtr e(load_bytes(b));
                        MC_CHECK(e != nullptr && *e == *d && *d == *e && e->size() == t.size(), "save and load number " << k + 1 << " of " << show(t) << " do not give it back");
                        if (k % 997 == 0) {
                          MC_CHECK(ll::serialize_protobuf(d.get(), f), "save number " << k + 1 << " to a file returns false");
                          DawgPtr g(ll::deserialize_protobuf(f));
                          check_same(d.get(), g.get(), t, {{"", "a", "zz"}, {"a"}, 1}, "save number " + std::to_string(k + 1));
                          mc::heartbeat();
                        }
                        if (k == 1024) before = alloc::live;
                        if (k == 1024 + 8 * 4096) MC_CHECK(alloc::live <= before + 8, alloc::live - before << " blocks stay allocated after 32768 saves and loads");
                        mc::transitions(2);
                      }
                      mc::state(mc::mix(i, 99)); mc::trace(total); mc::nontrivial();
                    },
                    [](u64 i) { return "many saves, beginning with dictionary " + std::to_string(i); }, 1, 240});
  }
  fams.push_back(names_family());
  mc::add_reused(fams, {"all-sets", "overloads"});
  return fams;
}

// ---- C15 ------------------------------------------------------------------------
static u64 g_loaded = 0;
// `bytes` are loaded; whatever comes back must be null or a sound dictionary.
// When `saved` is given the bytes are a proper prefix of a save of those terms.
static void judge(ll::Dawg *raw, const Terms *saved, const std::string &what) {
  if (raw == nullptr) { mc::count(1); return; }
  DawgPtr d(raw);
  mc::count(0);
  Graph g = graph_of(d->root());
  std::map<std::pair<bool, std::vector<std::pair<unsigned char, int>>>, int> ids;
  classes_of(g, ids);                                   // fails on a cycle
  for (auto &es : g.edges)
    for (std::size_t k = 1; k < es.size(); k++) MC_CHECK(es[k].first != es[k - 1].first, what << ": a node has two edges with one label");
  // number of terms, saturating, over the acyclic graph
  std::vector<unsigned __int128> cnt(g.nodes.size(), 0);
  std::vector<char> done(g.nodes.size(), 0);
  std::function<unsigned __int128(int)> rec = [&](int u) -> unsigned __int128 {
    if (done[u]) return cnt[u];
    unsigned __int128 c = g.final[u] ? 1 : 0;
    for (auto &[l, v] : g.edges[u]) c += rec(v);
    done[u] = 1;
    return cnt[u] = c;
  };
  unsigned __int128 n = rec(0);
  MC_CHECK(n == (unsigned __int128)d->size(), what << ": loaded with size " << d->size() << " but it spells " << (unsigned long long)n << " terms");
  MC_CHECK(n <= 200000, what << ": loaded with " << (unsigned long long)n << " terms");
  Terms it = iterate(*d, (std::size_t)n + 4), terms = sorted(it);
  MC_CHECK(it.size() == (std::size_t)n && terms.size() == it.size(), what << ": loaded with size " << d->size() << " but iterates over " << it.size() << " terms, " << terms.size() << " of them different");
  check_holds(*d, terms, {"", "a", "ab", "zz"}, what + ": loaded");
  for (int a = 0; a < 3; a++) {
    auto r = ask(a, d->root(), "ab", 1, terms.size() + 2);
    auto want = ref::expect(a, terms, "ab", 1);
    MC_CHECK(r.size() == want.size(), what << ": loaded, but the " << ref::alg_name(a) << " query \"ab\" finds " << r.size() << " of " << want.size() << " terms");
  }
  MC_CHECK(*d == *d, what << ": loaded, but it is not equal to itself");
  (void)std::hash<ll::Dawg>()(*d);
  if (saved != nullptr) MC_CHECK(terms == *saved, what << ": loaded as " << show(terms) << " instead of " << show(*saved));
  std::string again = save_bytes(d.get());
  DawgPtr e(load_bytes(again));
  MC_CHECK(e != nullptr && *e == *d, what << ": loaded, but saving it and loading that does not give it back");
  u64 h = 11;
  for (auto &t : terms) h = mc::hash_str(t, h);
  mc::state(h);
  mc::nontrivial();
}
static void load_and_judge(const std::string &bytes, const Terms *saved, const std::function<std::string()> &what) {
  long before = alloc::live;
  ll::Dawg *d = nullptr;
  {
    std::istringstream is(bytes, std::ios::binary);
    before = alloc::live;
    d = ll::deserialize_protobuf(is);
    mc::transitions();
    mc::trace();
    if (d == nullptr) {
      mc::count(1);
      if (alloc::live != before) mc::fail(what() + ": refused, but " + std::to_string(alloc::live - before) + " blocks stay allocated");
      return;
    }
    judge(d, saved, what());
  }
  // judge destroyed it; the stream's own blocks are gone as well
  long now = alloc::live;
  static thread_local int reentry = 0;
  if (reentry == 0) {
    reentry = 1;
    std::istringstream is(bytes, std::ios::binary);
    long b = alloc::live;
    delete ll::deserialize_protobuf(is);
    reentry = 0;
    if (alloc::live != b) mc::fail(what() + ": loaded and destroyed, but " + std::to_string(alloc::live - b) + " blocks stay allocated");
  }
  (void)now;
}

// The message of a dictionary with the node ids 1, 2, 3, ... in breadth-first order.
static llp::Dictionary compact(ll::Dawg *d) {
  std::unique_ptr<llp::Dictionary> m(ll::to_protobuf(d));
  std::map<u64, u64> id;
  std::multimap<u64, std::pair<unsigned, u64>> out;
  for (auto &e : m->edge()) out.emplace(e.source_id(), std::make_pair((unsigned)(unsigned char)e.label(), e.target_id()));
  std::vector<u64> order{m->root_id()};
  id[m->root_id()] = 1;
  for (std::size_t k = 0; k < order.size(); k++) {
    auto [a, b] = out.equal_range(order[k]);
    std::vector<std::pair<unsigned, u64>> es;
    for (auto it = a; it != b; ++it) es.push_back(it->second);
    std::sort(es.begin(), es.end());
    for (auto &[l, t] : es) if (!id.count(t)) { u64 n = id.size() + 1; id[t] = n; order.push_back(t); }
  }
  llp::Dictionary r;
  for (u64 n : order) r.add_node_id(id[n]);
  std::set<u64> fin;
  for (auto f : m->final_node_id()) if (id.count(f)) fin.insert(id[f]);
  for (u64 f : fin) r.add_final_node_id(f);
  for (u64 n : order) {
    auto [a, b] = out.equal_range(n);
    std::map<unsigned, u64> es;
    for (auto it = a; it != b; ++it) es.insert(it->second);
    for (auto &[l, t] : es) { auto *e = r.add_edge(); e->set_source_id(id[n]); e->set_label(l); e->set_target_id(id[t]); }
  }
  r.set_root_id(1);
  r.set_size(m->size());
  return r;
}
static std::string compact_bytes(ll::Dawg *d) { return compact(d).SerializeAsString(); }

static std::vector<Terms> damage_bases() {
  return {{}, {""}, {"a"}, {"", "a"}, {"a", "b"}, {"ab"}, {"a", "ab"}, {"ab", "ba"}, {"a", "ab", "b"}, {"aa", "ab", "ba", "bb"},
          {"abc", "abd", "xbc", "xbd"}, {"\x80", "\xff"}, {"a", "aa", "aaa", "aaaa"}, {"", "a", "ab", "abc", "b", "bc", "c"}};
}

static std::vector<mc::Family> make_c15(const mc::Options &o) {
  using namespace ref;
  std::vector<mc::Family> fams;
  bool th = o.thorough;
  auto bases = damage_bases();
  auto bytes_of = [bases](u64 b, bool real) {
    DawgPtr d = build(bases[b]);
    return real ? save_bytes(d.get()) : compact_bytes(d.get());
  };
  const u64 NB = bases.size();
  {   // prefixes
    std::vector<Terms> more = bases;
    for (auto &s : subsets_upto(7, 7)) { Terms w = words("ab", 2), t; for (int k : s) t.push_back(w[k]); more.push_back(sorted(t)); }
    for (auto &s : subsets_upto(15, th ? 4 : 3)) { Terms w = words("ab", 3), t; for (int k : s) t.push_back(w[k]); more.push_back(sorted(t)); }
    more.push_back(numbered(200));
    more.push_back(ladder(40));
    fams.push_back({"prefixes", "every proper prefix of the save (as written, and with small node numbers) of every set of strings of length <= 2 over ab, of up to " + std::string(th ? "4" : "3") + " of length <= 3, and of larger ones, read from a stream", more.size() * 2,
                    [more](u64 i) {
                      const Terms &t = more[i / 2];
                      warm_up();
                      std::string b;
                      { DawgPtr d = build(t); b = i % 2 ? compact_bytes(d.get()) : save_bytes(d.get()); }
                      for (std::size_t n = 0; n < b.size(); n++)
                        load_and_judge(b.substr(0, n), &t, [&] { return "the first " + std::to_string(n) + " of " + std::to_string(b.size()) + " bytes of the save of " + show(t); });
                      load_and_judge(b, &t, [&] { return "the whole save of " + show(t); });
                    },
                    [more](u64 i) { return "prefixes of the save of " + show(more[i / 2]); }, 2});
    fams.push_back({"prefix-files", "every proper prefix of the saves of 14 dictionaries as a file, through every path overload; missing file, directory, empty name", NB + 1,
                    [bases, bytes_of, NB](u64 i) {
                      warm_up();
                      std::string f = scratch("cut.pb");
                      if (i == NB) {
                        ::unlink(f.c_str());
                        std::string long_name(5000, 'x');
                        for (int how = 0; how < 4; how++)
                          for (std::string p : {f, g_dir, std::string(), std::string("/proc/self/nothing"), f + "/x", long_name}) {
                            long b0 = alloc::live;
                            std::unique_ptr<ll::Dawg> d(load_by(how, p));
                            MC_CHECK(d == nullptr, "loading " << mc::q(p) << " by " << save_name[how] << " gave a dictionary");
                            MC_CHECK(alloc::live == b0, "loading " << mc::q(p) << " by " << save_name[how] << " leaks");
                            mc::trace();
                          }
                        return;
                      }
                      std::string b = bytes_of(i, true);
                      for (std::size_t n = 0; n < b.size(); n++) {
                        spill(f, b.substr(0, n));
                        for (int how = 0; how < 4; how++) {
                          long b0 = alloc::live;
                          judge(load_by(how, f), &bases[i], "a file of the first " + std::to_string(n) + " of " + std::to_string(b.size()) + " bytes of the save of " + show(bases[i]) + ", by " + save_name[how]);
                          MC_CHECK(alloc::live == b0, "a file cut at " << n << " leaks " << (alloc::live - b0) << " blocks");
                          mc::trace();
                        }
                      }
                    },
                    [bases, NB](u64 i) { return i == NB ? std::string("no file") : "files cut short, of " + show(bases[i]); }, 1});
  }
  const u64 S = 32;
  fams.push_back({"one-byte", "every byte of the saves of 14 dictionaries (as written, and with small node numbers) replaced by every other value", NB * 2 * S,
                  [bases, bytes_of, S](u64 i) {
                    warm_up();
                    u64 b = i / (2 * S); bool real = i / S % 2;
                    std::string s = bytes_of(b, real);
                    for (std::size_t p = i % S; p < s.size(); p += S) {
                      std::string t = s;
                      for (int v = 0; v < 256; v++) {
                        if (v == (unsigned char)s[p]) continue;
                        t[p] = (char)v;
                        load_and_judge(t, nullptr, [&] { return "byte " + std::to_string(p) + " of " + mc::q(s) + " set to " + std::to_string(v) + " (save of " + show(bases[b]) + ")"; });
                      }
                    }
                  },
                  [bases, S](u64 i) { return "single bytes replaced in the save of " + show(bases[i / (2 * S)]) + ", positions " + std::to_string(i % S) + " mod 32"; }, 1});
  fams.push_back({"edits", "in the saves of 14 dictionaries, every range of bytes deleted, every range of up to 12 bytes repeated, every two ranges of 2 to 8 bytes exchanged, every byte value inserted everywhere", NB * S,
                  [bases, bytes_of, S](u64 i) {
                    warm_up();
                    u64 b = i / S;
                    std::string s = bytes_of(b, false);
                    auto go = [&](const std::string &t, std::size_t x, std::size_t y, const char *how) {
                      load_and_judge(t, nullptr, [&] { return std::string(how) + " at " + std::to_string(x) + "," + std::to_string(y) + " of " + mc::q(s) + " (save of " + show(bases[b]) + ")"; });
                    };
                    std::size_t n = s.size();
                    for (std::size_t p = i % S; p <= n; p += S) {
                      for (std::size_t e = p + 1; e <= n; e++) go(s.substr(0, p) + s.substr(e), p, e, "deleted");
                      for (std::size_t l = 1; l <= 12 && p + l <= n; l++)
                        for (std::size_t to = 0; to <= n; to += (l > 6 ? 2 : 1)) go(s.substr(0, to) + s.substr(p, l) + s.substr(to), p, to, "copied");
                      for (std::size_t l = 2; l <= 8 && p + l <= n; l++)
                        for (std::size_t r = p + l; r + l <= n; r++) {
                          std::string t = s;
                          for (std::size_t k = 0; k < l; k++) std::swap(t[p + k], t[r + k]);
                          go(t, p, r, "exchanged");
                        }
                      for (int v = 0; v < 256; v++) go(s.substr(0, p) + (char)v + s.substr(p), p, v, "inserted");
                    }
                  },
                  [bases, S](u64 i) { return "edits of the save of " + show(bases[i / S]) + ", positions " + std::to_string(i % S) + " mod 32"; }, 1});
  {
    const std::vector<u64> two = {2, 5, 6};       // {a}, {ab}, {a, ab}
    fams.push_back({"two-bytes", "every two bytes of the save of {a}" + std::string(th ? ", {ab} and {a, ab}" : "") + " replaced by every pair of small values (0 to 15, 32 to 42, 97, 98, 127, 128, 255)", (th ? two.size() : 1) * 64,
                    [bases, bytes_of, two](u64 i) {
                      warm_up();
                      std::string s = bytes_of(two[i / 64], false);
                      std::vector<int> vals;
                      for (int v = 0; v < 16; v++) vals.push_back(v);
                      for (int v = 32; v <= 42; v++) vals.push_back(v);
                      for (int v : {97, 98, 127, 128, 255}) vals.push_back(v);
                      u64 k = 0;
                      for (std::size_t p = 0; p < s.size(); p++)
                        for (std::size_t r = p + 1; r < s.size(); r++) {
                          if (k++ % 64 != i % 64) continue;
                          std::string t = s;
                          for (int v : vals)
                            for (int w : vals) {
                              t[p] = (char)v; t[r] = (char)w;
                              load_and_judge(t, nullptr, [&] { return "bytes " + std::to_string(p) + "," + std::to_string(r) + " of " + mc::q(s) + " set to " + std::to_string(v) + "," + std::to_string(w); });
                            }
                        }
                    },
                    [bases, two](u64 i) { return "two bytes replaced in the save of " + show(bases[two[i / 64]]); }, 1});
  }
  {
    u64 n = th ? 256 * 256 : 257;
    fams.push_back({"short-inputs", std::string("every byte string of length ") + (th ? "3" : "0, 1 and 2"), n,
                    [th](u64 i) {
                      warm_up();
                      std::string s;
                      if (th) s = {(char)(i / 256), (char)i, 0};
                      else if (i == 256) { load_and_judge("", nullptr, [] { return std::string("the empty input"); }); return; }
                      else s = {(char)i, 0};
                      if (!th) load_and_judge(s.substr(0, 1), nullptr, [&] { return "input " + mc::q(s.substr(0, 1)); });
                      for (int v = 0; v < 256; v++) { s.back() = (char)v; load_and_judge(s, nullptr, [&] { return "input " + mc::q(s); }); }
                    },
                    [](u64 i) { return "inputs beginning with number " + std::to_string(i); }, 4});
  }
  {   // messages
    // nodes: every sequence of length 0..3 over ids 0..2; finals: every subset of ids 0..2 and an unknown id;
    // edges: every sequence of up to E edges over sources 0..2, labels a, b and 353 (a + 256), targets 0..2 and an unknown id;
    // root 0..2 and unknown; size 0..4
    const u64 big = 9;
    std::vector<std::vector<u64>> nodes{{}};
    std::size_t from = 0;
    for (int l = 0; l < 3; l++) { std::size_t to = nodes.size(); for (std::size_t k = from; k < to; k++) for (u64 x = 0; x < 3; x++) { auto v = nodes[k]; v.push_back(x); nodes.push_back(v); } from = to; }
    struct E { u64 s; unsigned l; u64 t; };
    std::vector<E> es;
    for (u64 s : {0, 1, 2}) for (unsigned l : {97u, 98u, 353u}) for (u64 t : {(u64)0, (u64)1, (u64)2, big}) { if (l == 353 && t == big) continue; es.push_back({s, l, t}); }
    es.push_back({big, 97, 1});
    int maxe = th ? 3 : 2;
    std::vector<u64> start{0};
    u64 pw = 1, tot = 0;
    for (int l = 0; l <= maxe; l++) { tot += pw; start.push_back(tot); pw *= es.size(); }
    u64 count = nodes.size() * tot;
    fams.push_back({"messages", "every message of up to 3 node ids (sequences over 0, 1, 2), any set of final ids (one unknown), up to " + std::to_string(maxe) + " edges (sequences over 3 sources, 3 labels of which two coincide as bytes, 4 targets, one unknown), any root, sizes 0 to 4", count,
                    [=](u64 i) {
                      warm_up();
                      const auto &ns = nodes[i / tot];
                      u64 k = i % tot;
                      int l = 0;
                      while (k >= start[l + 1]) l++;
                      k -= start[l];
                      llp::Dictionary m;
                      for (u64 n : ns) m.add_node_id(n);
                      for (int j = 0; j < l; j++, k /= es.size()) { auto &e = es[k % es.size()]; auto *p = m.add_edge(); p->set_source_id(e.s); p->set_label(e.l); p->set_target_id(e.t); }
                      for (int fin = 0; fin < 16; fin++) {
                        m.clear_final_node_id();
                        for (int b = 0; b < 4; b++) if (fin >> b & 1) m.add_final_node_id(b == 3 ? big : b);
                        for (u64 root : {(u64)0, (u64)1, (u64)2, big}) {
                          m.set_root_id(root);
                          for (u64 size = 0; size < 5; size++) {
                            m.set_size(size);
                            mc::transitions();
                            long b0 = alloc::live;
                            ll::Dawg *d = ll::from_protobuf(m);
                            if (d != nullptr) judge(d, nullptr, "the message " + m.ShortDebugString());
                            else mc::count(1);
                            if (alloc::live != b0) mc::fail("the message " + m.ShortDebugString() + ": " + std::to_string(alloc::live - b0) + " blocks stay allocated");
                          }
                        }
                      }
                      mc::trace(16 * 20);
                    },
                    [=](u64 i) { return std::to_string(nodes[i / tot].size()) + " nodes, edge sequence " + std::to_string(i % tot); }, 8});
  }
  {   // long terms: nothing may depend on there being stack for every character
    std::vector<u64> depths = {100, 5000, 40000, 300000};
    if (th) depths.push_back(2000000);
    fams.push_back({"deep", "messages of chains of 100 to " + std::to_string(depths.back()) + " nodes, labelled all alike, with all bytes in turn or pseudo-randomly, final at the end, at the end and the root, or at the end and half-way: membership, iteration, queries, equality, hash code, saving and loading again, with a stack of 8 MB", depths.size() * 9,
                    [depths](u64 i) {
                      warm_up();
                      struct Stack {      // the stack a program usually has
                        rlimit old;
                        Stack() { getrlimit(RLIMIT_STACK, &old); rlimit r = old; r.rlim_cur = std::min<rlim_t>(r.rlim_cur, 8 << 20); setrlimit(RLIMIT_STACK, &r); }
                        ~Stack() { setrlimit(RLIMIT_STACK, &old); }
                      } stack;
                      u64 depth = depths[i / 9];
                      int label = (int)(i % 3), fin = (int)(i / 3 % 3);
                      std::string t;
                      unsigned x = 5;
                      for (u64 k = 0; k < depth; k++) { x = x * 1103515245 + 12345; t += (char)(label == 0 ? 'a' : label == 1 ? k % 256 : 'a' + (x >> 16) % 26); }
                      Terms terms{t};
                      std::string bytes;
                      {
                        llp::Dictionary m;
                        for (u64 n = 1; n <= depth + 1; n++) m.add_node_id(n);
                        m.add_final_node_id(depth + 1);
                        if (fin == 1) { m.add_final_node_id(1); terms = sorted({t, ""}); }
                        if (fin == 2) { m.add_final_node_id(depth / 2 + 1); terms = sorted({t, t.substr(0, depth / 2)}); }
                        for (u64 n = 1; n <= depth; n++) { auto *e = m.add_edge(); e->set_source_id(n); e->set_label((unsigned char)t[n - 1]); e->set_target_id(n + 1); }
                        m.set_root_id(1);
                        m.set_size(terms.size());
                        bytes = m.SerializeAsString();
                      }
                      auto what = [&] { return "a dictionary with a term of " + std::to_string(depth) + " characters"; };
                      LeakCheck leak;
                      {
                        DawgPtr d(load_bytes(bytes));
                        MC_CHECK(d != nullptr, what() << " is refused");
                        MC_CHECK(d->contains(t) && !d->contains(t + "a") && !d->contains(t.substr(0, depth - 1)), what() << ": membership is wrong");
                        mc::heartbeat();
                        Terms it = iterate(*d, 4);
                        MC_CHECK(d->size() == terms.size() && sorted(it) == terms, what() << ": iterating does not yield its terms");
                        mc::heartbeat();
                        for (int alg = 0; alg < 3; alg++)
                          for (std::size_t n = 0; n < 2; n++) {
                            auto r = ask(alg, d->root(), t, n, 4);
                            MC_CHECK(r.size() == 1 && r[0].first == t && r[0].second == 0, what() << ": a " << ref::alg_name(alg) << " query does not find that term alone within " << n);
                            mc::heartbeat();
                          }
                        DawgPtr e(load_bytes(bytes));
                        MC_CHECK(*d == *e, what() << " loaded twice is not equal");
                        MC_CHECK(std::hash<ll::Dawg>()(*d) == std::hash<ll::Dawg>()(*e), what() << " loaded twice has different hash codes");
                        mc::heartbeat();
                        DawgPtr f(load_bytes(save_bytes(d.get())));
                        MC_CHECK(f != nullptr && *f == *d && f->size() == d->size() && sorted(iterate(*f, 4)) == terms, what() << ": saving it and loading that does not give it back");
                      }
                      LEAK_CHECK(leak, what());
                      mc::state(mc::mix(i, 77)); mc::trace(); mc::transitions(14); mc::nontrivial();
                    },
                    [depths](u64 i) { return "depth " + std::to_string(depths[i / 9]) + ", labels " + std::to_string(i % 3) + ", final nodes " + std::to_string(i / 3 % 3); }, 1, 240});
  }
  {   // depth: chains in which every node has two edges to the next, so paths are exponential in number
    fams.push_back({"lattices", "lattices of depth 1 to 60 in which two edges lead from every node to the next, final at the end, with the right size (where it fits), a wrong one, or the chain closed into a cycle at every node", 60 * 3,
                    [](u64 i) {
                      warm_up();
                      u64 depth = i / 3 + 1;
                      llp::Dictionary m;
                      for (u64 n = 1; n <= depth + 1; n++) m.add_node_id(n);
                      m.add_final_node_id(depth + 1);
                      for (u64 n = 1; n <= depth; n++) for (unsigned l : {97u, 98u}) { auto *e = m.add_edge(); e->set_source_id(n); e->set_label(l); e->set_target_id(n + 1); }
                      m.set_root_id(1);
                      u64 right = depth < 64 ? (u64)1 << depth : 0;
                      auto go = [&](const std::string &what) {
                        long b0 = alloc::live;
                        { DawgPtr d(ll::from_protobuf(m));
                          if (d != nullptr) {
                            MC_CHECK(d->size() == right, what << " of depth " << depth << " is loaded with size " << d->size() << " instead of " << right);
                            MC_CHECK(d->contains(std::string(depth, 'a')) && !d->contains(std::string(depth + 1, 'a')), what << ": membership is wrong");
                            DawgPtr e(ll::from_protobuf(m));
                            MC_CHECK(e != nullptr && *d == *e && std::hash<ll::Dawg>()(*d) == std::hash<ll::Dawg>()(*e), what << " of depth " << depth << " loaded twice: not equal, or different hash codes");
                            DawgPtr f(load_bytes(save_bytes(d.get())));
                            MC_CHECK(f != nullptr && *d == *f, what << " of depth " << depth << " is not equal to its copy");
                            for (int alg = 0; alg < 3; alg++) {
                              std::size_t n0 = ask(alg, d->root(), std::string(depth, 'b'), 0, 3).size(), n1 = ask(alg, d->root(), std::string(depth, 'b'), 1, depth + 3).size();
                              MC_CHECK(n0 == 1 && n1 == depth + 1, what << " of depth " << depth << ": a " << ref::alg_name(alg) << " query finds " << n0 << " terms within 0 and " << n1 << " within 1");
                            }
                          } }
                        MC_CHECK(alloc::live == b0, what << " of depth " << depth << ": " << (alloc::live - b0) << " blocks stay allocated");
                        mc::trace();
                      };
                      if (i % 3 == 0) { m.set_size(right); go("the lattice"); mc::nontrivial(); }
                      else if (i % 3 == 1) for (u64 s : {(u64)0, (u64)1, depth, right - 1, right + 1, ~(u64)0}) { if (s == right) continue; m.set_size(s); go("the lattice with size " + std::to_string(s)); }
                      else {
                        m.set_size(right);
                        for (u64 to = 1; to <= depth + 1; to++) {
                          auto *e = m.add_edge(); e->set_source_id(depth + 1); e->set_label(99); e->set_target_id(to);
                          long b0 = alloc::live;
                          { DawgPtr d(ll::from_protobuf(m)); MC_CHECK(d == nullptr, "a cyclic message of depth " << depth << " was loaded"); }
                          MC_CHECK(alloc::live == b0, "a cyclic message: " << (alloc::live - b0) << " blocks stay allocated");
                          m.mutable_edge()->RemoveLast();
                          mc::trace();
                        }
                      }
                    },
                    [](u64 i) { return "depth " + std::to_string(i / 3 + 1) + " variant " + std::to_string(i % 3); }, 2, 20});
  }
  {   // more terms than any size can say
    fams.push_back({"overflow", "lattices in which w edges (2, 3, 4, 16, 255, 256) lead from every node to the next, of every depth at which the number of terms is near or beyond 2^64, with 0 to 3 further terms, and with sizes that are the number of terms modulo 2^64 or 2^32, or small: none is loaded unless its size is the number of terms", 6 * 24 * 4,
                    [](u64 i) {
                      warm_up();
                      static const u64 widths[] = {2, 3, 4, 16, 255, 256}, from[] = {56, 34, 24, 8, 2, 2};
                      u64 w = widths[i / 96], depth = from[i / 96] + i / 4 % 24, extra = i % 4;
                      llp::Dictionary m;
                      for (u64 n = 1; n <= depth + 1; n++) m.add_node_id(n);
                      auto edge = [&](u64 a, unsigned l, u64 b) { auto *e = m.add_edge(); e->set_source_id(a); e->set_label(l); e->set_target_id(b); };
                      m.add_final_node_id(depth + 1);
                      for (u64 n = 1; n <= depth; n++) for (u64 l = 0; l < w; l++) edge(n, (unsigned)l, n + 1);
                      m.set_root_id(1);
                      unsigned __int128 count = 1;
                      u64 wrapped = 1;
                      bool huge = false;
                      for (u64 k = 0; k < depth; k++) { wrapped *= w; if (!huge) { count *= w; huge = count >> 64; } }
                      if (extra & 1) { m.add_final_node_id(1); count++; wrapped++; }                    // the empty term
                      if (extra & 2) {      // one character less: the last node but one
                        m.add_final_node_id(depth);
                        unsigned __int128 more = 1;
                        u64 wr = 1;
                        for (u64 k = 0; k + 1 < depth; k++) { wr *= w; if (!(more >> 64)) more *= w; }
                        count += more; wrapped += wr;
                      }
                      if (depth == 1 && extra == 3) return;
                      huge = huge || count >> 64;
                      for (u64 s : {wrapped, wrapped & 0xffffffffu, (u64)0, (u64)1, (u64)2, (u64)3, (u64)4, wrapped + 1, wrapped - 1, ~(u64)0}) {
                        m.set_size(s);
                        bool right = !huge && s == (u64)count;
                        long b0 = alloc::live;
                        { DawgPtr d(ll::from_protobuf(m));
                          MC_CHECK((d != nullptr) <= right, "a lattice of depth " << depth << " and width " << w << " is loaded with size " << s << ", which is not the number of its terms");
                          MC_CHECK(d == nullptr || d->size() == s, "a lattice is loaded with size " << d->size() << " instead of " << s);
                          if (d) mc::nontrivial(); }
                        MC_CHECK(alloc::live == b0, "a lattice of depth " << depth << ": " << (alloc::live - b0) << " blocks stay allocated");
                        mc::transitions(); mc::trace();
                      }
                      mc::state(mc::mix(i, 80));
                    },
                    [](u64 i) { return "overflow " + std::to_string(i / 96) + " depth " + std::to_string(i / 4 % 24) + " extra " + std::to_string(i % 4); }, 4, 60});
  }
  {   // damage far down in large messages
    std::vector<u64> depths = {100, 1000, 4097, 10000, 40000, 70000};
    if (th) for (u64 d : {1023, 1024, 4095, 4096, 32768, 65535, 65536, 65537, 300000}) depths.push_back(d);
    fams.push_back({"deep-damage", "messages of chains of 100 to " + std::to_string(depths.back()) + " nodes, final at the end, near the end, or everywhere, with one or two edges from node to node: a further edge from one of the last three nodes back to the root, to the middle, or to one of the last three; a number of terms that is off by one or by a power of two; a tail without a final node; nodes that the root does not lead to (beyond 20000 nodes a third of these)", depths.size() * 6,
                    [depths](u64 i) {
                      warm_up();
                      u64 depth = depths[i / 6];
                      int fin = (int)(i % 3), twice = (int)(i / 3 % 2);
                      bool far = depth > 20000;
                      llp::Dictionary m;
                      for (u64 n = 1; n <= depth + 1; n++) m.add_node_id(n);
                      if (fin == 2) for (u64 n = 1; n <= depth; n++) m.add_final_node_id(n);
                      if (fin == 1) for (u64 n = depth - 3; n <= depth; n++) m.add_final_node_id(n);
                      m.add_final_node_id(depth + 1);
                      auto edge = [&](u64 a, unsigned l, u64 b) { auto *e = m.add_edge(); e->set_source_id(a); e->set_label(l); e->set_target_id(b); };
                      for (u64 n = 1; n <= depth; n++) edge(n, 97, n + 1);
                      if (twice) for (u64 n = 1; n + 2 <= depth; n += 2) edge(n, 98, depth + 1);
                      u64 right = (fin == 2 ? depth + 1 : fin == 1 ? 5 : 1) + (twice ? (depth - 1) / 2 : 0);
                      m.set_root_id(1);
                      m.set_size(right);
                      auto at = [&] { return "a message of " + std::to_string(depth + 1) + " nodes in a row (kind " + std::to_string(i % 6) + ")"; };
                      auto load = [&](bool may_load, const std::string &what) {
                        long b0 = alloc::live;
                        { DawgPtr d(ll::from_protobuf(m));
                          MC_CHECK(d == nullptr || may_load, at() << " is loaded with " << what);
                          if (d != nullptr) {      // as many terms as it says, in a graph without cycles
                            Graph g = graph_of(d->root());
                            std::vector<u64> in(g.nodes.size(), 0), order, ways(g.nodes.size(), 0);
                            for (auto &es : g.edges) for (auto &[l, v] : es) in[v]++;
                            if (in[0] == 0) { order.push_back(0); ways[0] = 1; }
                            u64 terms = 0;
                            for (std::size_t k = 0; k < order.size(); k++) {
                              u64 u = order[k];
                              if (g.final[u]) terms += ways[u];
                              for (auto &[l, v] : g.edges[u]) { ways[v] += ways[u]; if (--in[v] == 0) order.push_back(v); }
                            }
                            MC_CHECK(order.size() == g.nodes.size(), at() << " is loaded with " << what << " and contains a cycle");
                            MC_CHECK(terms == d->size(), at() << " is loaded with " << what << " with size " << d->size() << " for " << terms << " terms");
                            mc::nontrivial();
                          } }
                        MC_CHECK(alloc::live == b0, at() << " with " << what << ": " << alloc::live - b0 << " blocks stay allocated");
                        mc::transitions(); mc::trace(); mc::heartbeat();
                      };
                      load(true, "no damage");
                      { std::unique_ptr<ll::Dawg> d(ll::from_protobuf(m)); MC_CHECK(d != nullptr && d->size() == right, at() << " is refused"); }
                      for (u64 from : {depth + 1, depth, depth - 1})
                        for (u64 to : {(u64)1, (u64)2, depth / 2, depth - 1, depth, depth + 1}) {
                          if (to > from) continue;
                          if (far && (from == depth || (to != depth / 2 && to != depth - 1))) continue;
                          edge(from, 120, to);
                          load(false, "an edge from node " + std::to_string(from) + " back to node " + std::to_string(to));
                          if (far) { m.mutable_edge()->RemoveLast(); continue; }
                          m.set_size(right + 1);
                          load(false, "an edge from node " + std::to_string(from) + " back to node " + std::to_string(to) + " and one term more");
                          m.set_size(right);
                          m.mutable_edge()->RemoveLast();
                        }
                      for (u64 s : {right - 1, right + 1, (u64)0, right + 256, right + 65536, right + ((u64)1 << 32)}) { if (far && s != right + 1 && s != right + 65536) continue; m.set_size(s); load(false, "a wrong number of terms"); }
                      m.set_size(right);
                      for (int dead : {1, 2, 3}) {      // a tail that leads to no term
                        if (far && dead != 2) continue;
                        for (int k = 0; k < dead; k++) { m.add_node_id(depth + 2 + k); edge(depth + 1 + k, 97, depth + 2 + k); }
                        load(true, "a tail without a term");
                        for (int k = 0; k < dead; k++) { m.mutable_edge()->RemoveLast(); }
                        load(true, "nodes that lead nowhere");
                        edge(depth + 1 + dead, 97, depth + 2);      // to itself or in a cycle
                        if (dead > 1) edge(depth + 2, 97, depth + 1 + dead);
                        load(true, "a cycle that the root does not lead to");
                        m.mutable_edge()->RemoveLast();
                        if (dead > 1) m.mutable_edge()->RemoveLast();
                        m.mutable_node_id()->Truncate(depth + 1);
                      }
                      mc::state(mc::mix(i, 79));
                    },
                    [depths](u64 i) { return "depth " + std::to_string(depths[i / 6]) + ", kind " + std::to_string(i % 6); }, 1, 240});
  }
  {   // damage to larger saves, one structural change at every place
    std::vector<std::pair<std::string, std::function<Terms()>>> big;
    big.push_back({th ? "300 numbers" : "120 numbers", [th] { return numbered(th ? 300 : 120); }});
    big.push_back({"all bytes, twice", [] { Terms t; for (int c = 0; c < 256; c++) { t.push_back(std::string(1, (char)c)); t.push_back(std::string(2, (char)c)); } return sorted(t); }});
    big.push_back({"ladder of 25", [] { return ladder(25); }});
    big.push_back({"a long term", [th] { std::string s; for (int k = 0; k < (th ? 1500 : 400); k++) s += (char)('a' + k * k % 11); return sorted({s, s.substr(0, 300), ""}); }});
    const u64 S = 32;
    fams.push_back({"large-damage", "saves of 4 larger dictionaries (of " + std::string(th ? "300" : "120") + " numbers, all bytes once and twice, strings of each length up to 25, a term of " + (th ? "1500" : "400") + " characters), one change at every place of the message: a node dropped, repeated, renumbered; a final mark dropped, repeated, added, unknown; an edge dropped, repeated, led to the root, to its source, to a leaf, to an unknown node, away from an unknown one, labelled like its neighbour, labelled beyond a byte; every node as root; sizes off by one and by a power of two", big.size() * S,
                    [big, S](u64 i) {
                      warm_up();
                      Terms t = big[i / S].second();
                      llp::Dictionary m;
                      { DawgPtr d = build(t); m = compact(d.get()); }
                      std::size_t n = m.node_id_size(), e = m.edge_size(), fin = m.final_node_id_size(), k = 0;
                      u64 unknown = 1000000, leaf = 0;
                      { std::set<u64> src; for (auto &x : m.edge()) src.insert(x.source_id()); for (u64 x : m.node_id()) if (!src.count(x)) leaf = x; }
                      auto go = [&](const std::function<void(llp::Dictionary &)> &change, const std::function<std::string()> &how) {
                        if (k++ % S != i % S) return;
                        llp::Dictionary c = m;
                        change(c);
                        std::string b = c.SerializeAsString();
                        load_and_judge(b, nullptr, [&] { return how() + " in the save of " + big[i / S].first; });
                        mc::heartbeat();
                      };
                      for (std::size_t x = 0; x < n; x++) {
                        auto at = [&](const char *w) { return std::string("node ") + std::to_string(x) + " " + w; };
                        go([&](auto &c) { c.mutable_node_id()->erase(c.mutable_node_id()->begin() + x); }, [&] { return at("dropped"); });
                        go([&](auto &c) { c.add_node_id(c.node_id(x)); }, [&] { return at("repeated"); });
                        go([&](auto &c) { c.set_node_id(x, unknown); }, [&] { return at("renumbered"); });
                        go([&](auto &c) { c.set_root_id(c.node_id(x)); }, [&] { return at("made the root"); });
                        go([&](auto &c) { c.add_final_node_id(c.node_id(x)); }, [&] { return at("marked final"); });
                      }
                      for (std::size_t x = 0; x < fin; x++) {
                        auto at = [&](const char *w) { return std::string("final mark ") + std::to_string(x) + " " + w; };
                        go([&](auto &c) { c.mutable_final_node_id()->erase(c.mutable_final_node_id()->begin() + x); }, [&] { return at("dropped"); });
                        go([&](auto &c) { c.set_final_node_id(x, unknown); }, [&] { return at("moved to an unknown node"); });
                      }
                      for (std::size_t x = 0; x < e; x++) {
                        auto at = [&](const char *w) { return std::string("edge ") + std::to_string(x) + " " + w; };
                        go([&](auto &c) { c.mutable_edge()->DeleteSubrange(x, 1); }, [&] { return at("dropped"); });
                        go([&](auto &c) { *c.add_edge() = c.edge(x); }, [&] { return at("repeated"); });
                        go([&](auto &c) { c.mutable_edge(x)->set_target_id(c.root_id()); }, [&] { return at("led to the root"); });
                        go([&](auto &c) { c.mutable_edge(x)->set_target_id(c.edge(x).source_id()); }, [&] { return at("led to its source"); });
                        go([&](auto &c) { c.mutable_edge(x)->set_target_id(leaf); }, [&] { return at("led to a leaf"); });
                        go([&](auto &c) { c.mutable_edge(x)->set_target_id(unknown); }, [&] { return at("led to an unknown node"); });
                        go([&](auto &c) { c.mutable_edge(x)->set_source_id(unknown); }, [&] { return at("moved to an unknown node"); });
                        go([&](auto &c) { c.mutable_edge(x)->set_label(c.edge((x + 1) % e).label()); }, [&] { return at("labelled like the next one"); });
                        go([&](auto &c) { c.mutable_edge(x)->set_label(c.edge(x).label() + 256); }, [&] { return at("labelled beyond a byte"); });
                      }
                      for (int b = 0; b < 64; b++)
                        for (int sgn = 0; sgn < 2; sgn++)
                          go([&](auto &c) { c.set_size(sgn ? c.size() - ((u64)1 << b) : c.size() + ((u64)1 << b)); }, [&] { return "size changed by 2 to the power " + std::to_string(b); });
                    },
                    [big, S](u64 i) { return "structural damage to the save of " + big[i / S].first + ", places " + std::to_string(i % S) + " mod 32"; }, 1, 120});
    fams.push_back({"large-prefixes", "the saves of 3000 numbers and of a long term cut off at the ends of all powers of two and their multiples of 1024, at every 97th byte, and at each of the last 300 bytes", 2 * S,
                    [big, S](u64 i) {
                      warm_up();
                      Terms t = i / S ? big[3].second() : numbered(3000);
                      std::string b;
                      { DawgPtr d = build(t); b = save_bytes(d.get()); }
                      std::set<std::size_t> cuts;
                      for (std::size_t n = 1; n < b.size(); n *= 2) for (std::size_t x : {n - 1, n, n + 1}) cuts.insert(x);
                      for (std::size_t n = 1024; n < b.size(); n += 1024) for (std::size_t x : {n - 1, n, n + 1}) cuts.insert(x);
                      for (std::size_t n = 0; n < b.size(); n += 97) cuts.insert(n);
                      for (std::size_t n = b.size() - 300; n < b.size(); n++) cuts.insert(n);
                      std::size_t k = 0;
                      for (std::size_t n : cuts) {
                        if (n >= b.size() || k++ % S != i % S) continue;
                        load_and_judge(b.substr(0, n), &t, [&] { return "the first " + std::to_string(n) + " of " + std::to_string(b.size()) + " bytes of the save of " + std::to_string(t.size()) + " terms"; });
                        mc::heartbeat();
                      }
                    },
                    [S](u64 i) { return std::string(i / S ? "a long term" : "3000 numbers") + ", cuts " + std::to_string(i % S) + " mod 32"; }, 1, 120});
  }
  mc::add_reused(fams, {"prefixes", "messages"});
  return fams;
}

// ---- C16 ------------------------------------------------------------------------
static void sound_again(ll::Dawg *d, const Terms &t, const std::string &what) {
  check_holds(*d, t, {"", "zz"}, "the dictionary after a failed save");
  std::string f = scratch("again.pb");
  MC_CHECK(ll::serialize_protobuf(d, f), what << ": saving again to a sound file returned false");
  DawgPtr e(ll::deserialize_protobuf(f));
  MC_CHECK(e != nullptr && *e == *d && e->size() == d->size(), what << ": the file saved again does not load back equal");
  ::unlink(f.c_str());
}
static bool loads_back(const std::string &file, ll::Dawg *d) {
  DawgPtr e(ll::deserialize_protobuf(file));
  return e != nullptr && e->size() == d->size() && *e == *d;
}

static std::vector<mc::Family> make_c16(const mc::Options &o) {
  std::vector<mc::Family> fams;
  bool th = o.thorough;
  std::vector<std::pair<std::string, Terms>> dicts = {{"empty", {}}, {"one", {"a"}}, {"five", {"", "a", "ab", "b", "bc"}}, {"forty", numbered(40)},
                                                      {"five hundred", numbered(500)}, {"two thousand", numbered(2000)}};
  auto terms = [dicts](u64 k) -> Terms { return dicts[k].second; };
  {   // streams that stop taking bytes
    const u64 S = 64;
    u64 nd = 5;
    fams.push_back({"streams", "for 5 dictionaries, a stream that takes every number of bytes from none to all and then refuses (short count, one at a time, by exception), and streams that had already failed", nd * 3 * S,
                    [terms, S, th](u64 i) {
                      Terms t = terms(i / (3 * S));
                      int mode = (int)(i / S % 3);
                      LeakCheck leak;
                      {
                        DawgPtr d = build(t);
                        std::string full = save_bytes(d.get());
                        std::size_t step = full.size() > 4000 && !th ? 5 : 1;
                        for (std::size_t n = (i % S) * step; n <= full.size() + 2; n += S * step) {
                          Limited sink(n, mode);
                          std::ostream out(&sink);
                          bool r = ll::serialize_protobuf(d.get(), out);
                          mc::transitions(); mc::trace();
                          if (n >= full.size()) {
                            MC_CHECK(r, "a stream that takes all " << full.size() << " bytes: false was returned");
                            MC_CHECK(sink.got.size() == full.size(), "a stream that takes all bytes was given " << sink.got.size() << " of " << full.size());
                          }
                          if (r) {
                            DawgPtr e(load_bytes(sink.got));
                            MC_CHECK(e != nullptr && e->size() == d->size() && *e == *d, "a stream that took only " << sink.got.size() << " of " << full.size() << " bytes: true was returned");
                          } else mc::nontrivial();
                          mc::state(mc::mix(mc::mix(n, mode), i / (3 * S)));
                        }
                        if (i % S == 0) {
                          for (auto bits : {std::ios::badbit, std::ios::failbit, std::ios::eofbit}) {
                            std::ostringstream out;
                            out.setstate(bits);
                            bool r = ll::serialize_protobuf(d.get(), out);
                            if (r) { DawgPtr e(load_bytes(out.str())); MC_CHECK(e != nullptr && *e == *d, "a stream that had already failed: true was returned"); }
                          }
                          { std::ostream none(nullptr); MC_CHECK(!ll::serialize_protobuf(d.get(), none), "a stream without a buffer: true was returned"); }
                          { std::ofstream shut; MC_CHECK(!ll::serialize_protobuf(d.get(), shut), "a file stream that is not open: true was returned"); }
                        }
                        sound_again(d.get(), t, "after streams that refused");
                      }
                      LEAK_CHECK(leak, "saving to streams that fail");
                    },
                    [dicts, S](u64 i) { return "dictionary " + dicts[i / (3 * S)].first + ", mode " + std::to_string(i / S % 3) + ", limits " + std::to_string(i % S) + " mod 64"; }, 1});
  }
  {   // files that stop taking bytes (real limit on the file size)
    const u64 S = 64;
    u64 nd = 5;
    fams.push_back({"file-limit", "for 5 dictionaries and every overload, a file that can take every number of bytes from none to all (the process's file size limit)", nd * 3 * S,
                    [terms, S, th](u64 i) {
                      Terms t = terms(i / (3 * S));
                      int how = (int)(i / S % 3);
                      signal(SIGXFSZ, SIG_IGN);
                      LeakCheck leak;
                      {
                        DawgPtr d = build(t);
                        std::size_t full = save_bytes(d.get()).size();
                        std::string f = scratch("limit.pb");
                        rlimit old;
                        getrlimit(RLIMIT_FSIZE, &old);
                        std::size_t step = full > 4000 && !th ? 5 : 1;
                        for (std::size_t n = (i % S) * step; n <= full + 1; n += S * step) {
                          rlimit lim{n, old.rlim_max};
                          setrlimit(RLIMIT_FSIZE, &lim);
                          bool r = save_by(how, d.get(), f);
                          setrlimit(RLIMIT_FSIZE, &old);
                          mc::transitions(); mc::trace();
                          mc::state(mc::mix(mc::mix(n, how + 100), i / (3 * S)));
                          if (n >= full) MC_CHECK(r, "a file that can take all " << full << " bytes: false was returned");
                          if (r) MC_CHECK(loads_back(f, d.get()), "a file that can take only " << n << " of " << full << " bytes: saving by " << save_name[how] << " returned true");
                          else mc::nontrivial();
                        }
                        ::unlink(f.c_str());
                        sound_again(d.get(), t, "after files that were too small");
                      }
                      LEAK_CHECK(leak, "saving to files that are too small");
                    },
                    [dicts, S](u64 i) { return "dictionary " + dicts[i / (3 * S)].first + " by " + save_name[i / S % 3] + ", limits " + std::to_string(i % S) + " mod 64"; }, 1});
  }
  {   // single and double faults at every file operation of a save
    // fault kinds: 0-4 failures (ENOSPC, EIO, EDQUOT for writes; EACCES, EMFILE for opens), then short writes and interruptions
    struct F { inject::Kind k; int e; const char *n; };
    static const std::vector<F> kinds = {{inject::FAIL, ENOSPC, "ENOSPC"}, {inject::FAIL, EIO, "EIO"}, {inject::FAIL, EACCES, "EACCES"},
                                         {inject::SHORT1, 0, "one byte taken"}, {inject::HALF, 0, "half taken"}, {inject::INTR, EINTR, "interrupted"}};
    const u64 NK = kinds.size();
    u64 nd = dicts.size();
    // cases: dictionary x overload x kind of first fault x (no second fault | kind of second fault) x sticky
    fams.push_back({"operations", "for 6 dictionaries, every overload and every one or two file operations of the save (open, each write, close; as the implementation makes them): an error, a short write or an interruption at the first and at the second, with the device staying full or recovering; what a failing close held is lost", nd * 4 * NK * (NK + 1) * 2,
                    [terms, NK](u64 i) {
                      u64 x = i;
                      bool sticky = x % 2; x /= 2;
                      u64 second = x % (NK + 1); x /= NK + 1;
                      u64 first = x % NK; x /= NK;
                      int how = (int)(x % 4); x /= 4;
                      Terms t = terms(x);
                      LeakCheck leak;
                      {
                        DawgPtr d = build(t);
                        std::string f = scratch("ops.pb");
                        auto attempt = [&](bool &r) {
                          inject::seen.clear(); inject::failed = inject::disk_full = false;
                          inject::sticky = sticky; inject::lost_file = f;
                          inject::on = true;
                          try { r = save_by(how, d.get(), f); } catch (...) { inject::on = false; throw; }
                          inject::on = false;
                        };
                        inject::seen.reserve(4096);
                        bool r = false;
                        inject::plan.clear();
                        attempt(r);
                        MC_CHECK(r && loads_back(f, d.get()), "saving by " << save_name[how] << " with nothing failing " << (r ? "wrote an incomplete file" : "returned false"));
                        std::size_t ops = inject::seen.size();
                        MC_CHECK(ops >= 2, "internal: the file operations of a save were not seen");
                        auto describe = [&] {
                          std::string s;
                          for (auto &[k, fl] : inject::plan) { s += s.empty() ? "" : ", then "; s += "operation " + std::to_string(k + 1) + " (" + (k < inject::seen.size() ? inject::seen[k].name : "?") + "): "; for (auto &q : kinds) if (q.k == fl.first && q.e == fl.second) s += q.n; }
                          return s;
                        };
                        // with short writes there are more operations than in the clean run
                        std::size_t reach = ops + 2;
                        for (std::size_t a = 0; a < reach; a++)
                          for (std::size_t b = a + 1; b <= (second == NK ? a + 1 : reach); b++) {
                            inject::plan.clear();
                            inject::plan[a] = {kinds[first].k, kinds[first].e};
                            if (second != NK) inject::plan[b] = {kinds[second].k, kinds[second].e};
                            attempt(r);
                            mc::transitions(inject::seen.size()); mc::trace();
                            mc::state(mc::mix(mc::mix(i, a), b));
                            if (!inject::failed) MC_CHECK(r, "nothing failed (" << describe() << "), but saving by " << save_name[how] << " returned false");
                            if (r) MC_CHECK(loads_back(f, d.get()), describe() << ": saving by " << save_name[how] << " returned true, but the file does not load back equal");
                            if (inject::failed) mc::nontrivial();
                          }
                        inject::plan.clear();
                        sound_again(d.get(), t, "after failing file operations");
                        ::unlink(f.c_str());
                        std::vector<inject::Op>().swap(inject::seen);
                        std::string().swap(inject::lost_file);
                      }
                      LEAK_CHECK(leak, "saving with failing file operations");
                    },
                    [dicts, NK](u64 i) {
                      u64 x = i; bool sticky = x % 2; x /= 2; u64 s = x % (NK + 1); x /= NK + 1; u64 f = x % NK; x /= NK;
                      return "dictionary " + dicts[x / 4].first + " by " + save_name[x % 4] + ": " + kinds[f].n + (s == NK ? std::string(" once") : std::string(" then ") + kinds[s].n) + (sticky ? ", staying full" : "");
                    }, 1});
  }
  fams.push_back({"places", "destinations that cannot hold a file or are full: /dev/full, a directory, a missing directory, an empty name, a name too long, a dangling link; each overload, 6 dictionaries; and sound ones: a link, an existing file, /dev/null excepted", dicts.size() * 3,
                  [terms](u64 i) {
                    Terms t = terms(i / 3);
                    int how = (int)(i % 3);
                    LeakCheck leak;
                    {
                      DawgPtr d = build(t);
                      std::string base = scratch("places"), sub = base + "/sub";
                      fs::remove_all(base);
                      fs::create_directories(sub);
                      ::symlink("/dev/full", (base + "/full").c_str());
                      ::symlink((base + "/no/such").c_str(), (base + "/dangling").c_str());
                      ::symlink((base + "/target").c_str(), (base + "/link").c_str());
                      bool empty = save_bytes(d.get()).empty();
                      for (std::string p : {std::string("/dev/full"), base + "/full", sub, base + "/no/such", std::string(), base + "/" + std::string(400, 'n'), base + "/dangling", base + "/full/x"}) {
                        bool r = save_by(how, d.get(), p);
                        MC_CHECK(!r || empty, "saving by " << save_name[how] << " to " << mc::q(p.size() > base.size() ? p.substr(base.size()) : p) << " returned true");
                        mc::trace(); mc::nontrivial();
                        sound_again(d.get(), t, "after a destination that cannot hold it");
                      }
                      spill(base + "/old", std::string(100000, 'x'));
                      for (std::string p : {base + "/link", base + "/old", base + "/new", base + "/./sub/../sub/x", base + "/ with space", base + "/\xc3\xa9"}) {
                        MC_CHECK(save_by(how, d.get(), p), "saving by " << save_name[how] << " to " << mc::q(p.substr(base.size())) << " returned false");
                        MC_CHECK(loads_back(p, d.get()), "saving by " << save_name[how] << " to " << mc::q(p.substr(base.size())) << " returned true but does not load back");
                        mc::trace();
                      }
                      mc::state(mc::mix(i, 77));
                      fs::remove_all(base);
                    }
                    LEAK_CHECK(leak, "saving to various places");
                  },
                  [dicts](u64 i) { return "dictionary " + dicts[i / 3].first + " by " + save_name[i % 3]; }, 1});
  fams.push_back(names_family());
  return fams;
}

int main(int argc, char **argv) {
  google::protobuf::SetLogHandler(nullptr);
  for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--rundir") g_dir = argv[i + 1];
  if (g_dir.empty()) g_dir = ".";
  return mc::drive(argc, argv, [](const mc::Options &o) {
    if (o.prop == "C14") return make_c14(o);
    if (o.prop == "C15") return make_c15(o);
    if (o.prop == "C16") return make_c16(o);
    fprintf(stderr, "unknown property %s\n", o.prop.c_str());
    exit(2);
  }, {"n_loaded_as_dictionary", "n_refused"});
}
