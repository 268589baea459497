// Bounded-exhaustive exploration driver.
//
// A harness declares families of cases. A family is a finite, indexed space:
// every index below `count` is one case (a dictionary x query, an operation
// sequence, a fault point, ...), decoded from the index by the harness, simplest
// first. The driver runs every index of every family exactly once, spread over
// forked worker processes, so that a crash, a sanitizer abort or a hang of the
// code under test is attributed to the case that caused it. A failing case is
// run again in a fresh process before it is reported; if it only fails after
// the cases its worker ran before it (state kept in the process), that history
// is what is replayed and reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

namespace mc {

using u64 = std::uint64_t;

inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ULL;
  h ^= h >> 27; h *= 0x94d049bb133111ebULL;
  return h ^ (h >> 31);
}
inline u64 hash_str(const std::string &s, u64 h = 1469598103934665603ULL) {
  for (unsigned char c : s) h = mix(h, c + 1);
  return mix(h, s.size());
}

// Printable form of a byte string.
inline std::string q(const std::string &s) {
  std::string r = "\"";
  char b[8];
  if (s.size() > 80) {
    return "\"" + s.substr(0, 24) + "...(" + std::to_string(s.size()) + " bytes)\"";
  }
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c >= 32 && c < 127) r += (char)c;
    else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r + "\"";
}
template <class It> std::string qs(It a, It b, std::size_t max = 40) {
  std::string r = "{";
  std::size_t n = 0;
  for (; a != b; ++a, ++n) {
    if (n == max) { r += ", ..."; break; }
    if (n) r += ", ";
    r += q(*a);
  }
  return r + "}";
}

struct Failure { std::string msg; };
[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
#define MC_CHECK(cond, expr)                                                   \
  do { if (!(cond)) { std::ostringstream mc_os_; mc_os_ << expr; mc::fail(mc_os_.str()); } } while (0)

constexpr std::size_t MAXW = 64, MSG = 6000, HIST = 1 << 16, TABLE = 1 << 22;

struct WorkerSlot {
  std::atomic<u64> cur, beat;
  std::atomic<u64> failed_at;      // index + 1, 0 when none
  std::atomic<u64> nhist;
  u64 hist[HIST];
  char msg[MSG];
};
struct Shared {
  std::atomic<u64> next, stop_at, done;
  std::atomic<u64> states, transitions, evals, nontrivial, traces, saturated;
  std::atomic<u64> extra[128];
  WorkerSlot w[MAXW];
  std::atomic<u64> table[TABLE];
};
inline Shared *sh = nullptr;
inline WorkerSlot *my_slot = nullptr;
// A long case is still alive.
inline void heartbeat() { if (my_slot) my_slot->beat++; }

// ---- what a case reports ---------------------------------------------------
// A distinct canonical state of the system under test has been reached.
inline void state(u64 h) {
  if (!h) h = 1;
  if (sh->saturated.load(std::memory_order_relaxed)) return;
  u64 i = (h * 0x9E3779B97F4A7C15ULL) & (TABLE - 1);
  for (int probe = 0; probe < 256; probe++, i = (i + 1) & (TABLE - 1)) {
    u64 cur = sh->table[i].load(std::memory_order_relaxed);
    if (cur == h) return;
    if (cur == 0) {
      if (sh->table[i].compare_exchange_strong(cur, h)) { sh->states++; return; }
      if (cur == h) return;
    }
  }
  sh->saturated = 1;
}
inline void transitions(u64 n = 1) { sh->transitions.fetch_add(n, std::memory_order_relaxed); }
inline void trace(u64 n = 1) { sh->traces.fetch_add(n, std::memory_order_relaxed); }
inline void nontrivial(u64 n = 1) { sh->nontrivial.fetch_add(n, std::memory_order_relaxed); }
inline void count(int slot, u64 n = 1) { sh->extra[slot].fetch_add(n, std::memory_order_relaxed); }

struct Family {
  std::string name;                 // stable: part of the replay
  std::string rule;                 // what the space is
  u64 count;
  std::function<void(u64)> run;
  std::function<std::string(u64)> describe;
  u64 chunk = 8;
  double case_limit = 60;
  std::function<void()> prepare;    // run once in the parent, before the workers fork
};

struct Options {
  std::string prop, tier = "quick", out, replay, rundir = ".";
  bool thorough = false;
  int workers = 8;
  double budget = 700;              // seconds for everything
  std::vector<std::string> args;
};

inline std::string json_str(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

inline bool run_one(const Family &f, u64 idx, std::string &msg) {
  try {
    f.run(idx);
    sh->evals.fetch_add(1, std::memory_order_relaxed);
    return true;
  } catch (Failure &e) { msg = e.msg; }
  catch (std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); }
  catch (...) { msg = "unexpected exception"; }
  return false;
}

inline std::string tail_of(const std::string &path) {
  std::ifstream in(path);
  std::string line, r;
  int n = 0;
  while (std::getline(in, line) && n < 14) {
    if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("Assertion") != std::string::npos ||
        line.find("    #") == 0 || line.find("hard rss") != std::string::npos || line.find("DATA RACE") != std::string::npos ||
        line.find("WRITE of") == 0 || line.find("READ of") == 0 || line.find("freed by") == 0) { r += "\n  " + line.substr(0, 300); n++; }
  }
  return r;
}

inline std::string status_text(int st) {
  if (WIFSIGNALED(st)) return std::string("killed by signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  if (WIFEXITED(st)) return "process ended with status " + std::to_string(WEXITSTATUS(st));
  return "process ended";
}

constexpr int EXIT_CASE_FAILED = 77;

// Runs the given indices in one fresh child. Returns 0 ok, 1 failed (msg set), 2 no verdict.
inline int run_alone(const Family &f, const std::vector<u64> &idx, double limit, const std::string &log, std::string &msg) {
  fflush(stdout); fflush(stderr);
  WorkerSlot &slot = sh->w[MAXW - 1];
  slot.msg[0] = 0;
  slot.failed_at = 0;
  pid_t p = fork();
  if (p == 0) {
    my_slot = &slot;
    int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    std::string m;
    for (u64 i : idx) {
      slot.cur = i; slot.beat++;
      if (!run_one(f, i, m)) {
        strncpy(slot.msg, m.c_str(), MSG - 1);
        slot.failed_at = i + 1;
        _exit(EXIT_CASE_FAILED);
      }
    }
    _exit(0);
  }
  double t0 = now();
  u64 beat = slot.beat;
  for (;;) {
    int st;
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
      if (slot.failed_at) { msg = slot.msg; return 1; }
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { msg = "killed"; return 2; }
      msg = "the code under test crashed: " + status_text(st) + tail_of(log);
      return 1;
    }
    if (slot.beat != beat) { beat = slot.beat; t0 = now(); }
    if (now() - t0 > limit) {
      kill(p, SIGKILL); waitpid(p, &st, 0);
      msg = "the code under test did not finish within " + std::to_string((int)limit) + " s";
      return 1;
    }
    usleep(2000);
  }
}

struct Result { bool violation = false, capped = false; std::string msg, replay, family, desc; u64 idx = 0; };

inline void write_replay(const std::string &path, const Options &o, const Family &f, const std::vector<u64> &idx,
                         const std::string &msg, const std::string &desc) {
  std::ofstream out(path);
  out << "property " << o.prop << "\ntier " << o.tier << "\nfamily " << f.name << "\nargs";
  for (auto &a : o.args) out << " " << a;
  out << "\ncases";
  for (u64 i : idx) out << " " << i;
  out << "\n# last case: " << desc << "\n# observed: ";
  for (char c : msg) { out << c; if (c == '\n') out << "# "; }
  out << "\n";
}

inline bool run_family(const Family &f, const Options &o, double deadline, Result &res) {
  if (f.count == 0) return true;
  if (f.prepare) f.prepare();
  sh->next = 0; sh->stop_at = f.count; sh->done = 0;
  int W = std::min<u64>(o.workers, (f.count + f.chunk - 1) / f.chunk);
  std::vector<pid_t> pid(W);
  std::vector<u64> beat(W, 0);
  std::vector<double> last(W, now());
  std::vector<bool> alive(W, true);
  auto logname = [&](int w) { return o.rundir + "/worker" + std::to_string(w) + ".log"; };
  fflush(stdout); fflush(stderr);
  for (int w = 0; w < W; w++) {
    WorkerSlot &s = sh->w[w];
    s.cur = ~0ULL; s.beat = 0; s.failed_at = 0; s.nhist = 0; s.msg[0] = 0;
    pid[w] = fork();
    if (pid[w] == 0) {
      my_slot = &s;
      int fd = open(logname(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
      std::string m;
      for (;;) {
        u64 a = sh->next.fetch_add(f.chunk);
        if (a >= sh->stop_at) _exit(0);
        u64 h = s.nhist;
        if (h < HIST) { s.hist[h] = a; s.nhist = h + 1; }
        for (u64 i = a; i < a + f.chunk && i < sh->stop_at; i++) {
          s.cur = i; s.beat++;
          if (!run_one(f, i, m)) {
            strncpy(s.msg, m.c_str(), MSG - 1);
            s.failed_at = i + 1;
            u64 cur = sh->stop_at;
            while (i < cur && !sh->stop_at.compare_exchange_weak(cur, i)) {}
            _exit(EXIT_CASE_FAILED);
          }
          sh->done++;
        }
      }
    }
  }
  struct Bad { u64 idx; int w; std::string msg; bool hang; };
  std::vector<Bad> bads;
  int left = W;
  bool capped = false;
  while (left) {
    bool any = false;
    for (int w = 0; w < W; w++) {
      if (!alive[w]) continue;
      WorkerSlot &s = sh->w[w];
      int st;
      pid_t r = waitpid(pid[w], &st, WNOHANG);
      if (r == pid[w]) {
        alive[w] = false; left--; any = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (s.failed_at) bads.push_back({s.failed_at - 1, w, s.msg, false});
        else {
          u64 i = s.cur;
          u64 cur = sh->stop_at;
          while (i < cur && !sh->stop_at.compare_exchange_weak(cur, i)) {}
          bads.push_back({i, w, "the code under test crashed: " + status_text(st) + tail_of(logname(w)),
                          WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL});
        }
        continue;
      }
      if (s.beat != beat[w]) { beat[w] = s.beat; last[w] = now(); }
      else if (now() - last[w] > f.case_limit && s.cur != ~0ULL) {
        kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0);
        alive[w] = false; left--; any = true;
        u64 i = s.cur, cur = sh->stop_at;
        while (i < cur && !sh->stop_at.compare_exchange_weak(cur, i)) {}
        bads.push_back({i, w, "no progress", true});
      }
    }
    if (now() > deadline && !capped) {
      capped = true;
      if (bads.empty()) sh->stop_at = 0;   // stop handing out; report what was covered
    }
    if (capped && now() > deadline + 90) {
      for (int w = 0; w < W; w++) if (alive[w]) { int st; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); alive[w] = false; }
      left = 0;
    }
    if (!any) usleep(1000);
  }
  if (bads.empty()) {
    if (capped) res.capped = true;
    return true;
  }
  std::size_t best = 0;
  for (std::size_t k = 1; k < bads.size(); k++) if (bads[k].idx < bads[best].idx) best = k;
  Bad &b = bads[best];
  std::string log = o.rundir + "/replay.log", msg;
  std::vector<u64> seq{b.idx};
  int v = run_alone(f, seq, f.case_limit * 3, log, msg);
  if (v != 1) {
    std::vector<u64> hist;
    WorkerSlot &s = sh->w[b.w];
    for (u64 k = 0; k < s.nhist; k++)
      for (u64 i = s.hist[k]; i < s.hist[k] + f.chunk && i < f.count; i++) {
        hist.push_back(i);
        if (i == b.idx && k + 1 == s.nhist) break;
      }
    std::string msg2;
    int v2 = run_alone(f, hist, f.case_limit * 3, log, msg2);
    if (v2 == 1) { seq = hist; msg = msg2; v = 1; }
  }
  if (v != 1) {
    if (b.hang) {   // slow machine or memory pressure, not a verdict
      fprintf(stderr, "note: case %llu of %s was slow or killed (%s) but completes alone; not reported\n",
              (unsigned long long)b.idx, f.name.c_str(), b.msg.c_str());
      res.capped = true;
      return true;
    }
    msg = b.msg + "\n(observed once in the exploration; the case passed when run again alone)";
  }
  res.violation = true;
  res.family = f.name; res.idx = seq.back();
  res.desc = f.describe ? f.describe(seq.back()) : std::to_string(seq.back());
  res.msg = msg;
  res.replay = o.replay;
  write_replay(o.replay, o, f, seq, msg, res.desc);
  return false;
}

// Parses the command line, runs everything, writes the JSON report.
//   --prop ID --tier quick|thorough --out FILE --replay-out FILE --rundir DIR [--workers N] [--budget S]
//   --replay FILE      run one recorded case (or history) and exit 1 if it fails again
inline int drive(int argc, char **argv, const std::function<std::vector<Family>(const Options &)> &make,
                 const std::vector<std::string> &extra_names = {}) {
  Options o;
  std::string replay_in, only;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") o.prop = val();
    else if (a == "--tier") o.tier = val();
    else if (a == "--out") o.out = val();
    else if (a == "--replay-out") o.replay = val();
    else if (a == "--rundir") o.rundir = val();
    else if (a == "--workers") o.workers = std::stoi(val());
    else if (a == "--budget") o.budget = std::stod(val());
    else if (a == "--replay") replay_in = val();
    else if (a == "--only") only = val();
    else o.args.push_back(a);
  }
  o.thorough = o.tier == "thorough";
  if (o.workers > (int)MAXW - 1) o.workers = MAXW - 1;
  void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); return 2; }
  sh = new (m) Shared;

  if (!replay_in.empty()) {
    std::ifstream in(replay_in);
    std::string line, fam;
    std::vector<u64> cases;
    while (std::getline(in, line)) {
      std::istringstream is(line);
      std::string k; is >> k;
      if (k == "family") is >> fam;
      else if (k == "tier") { is >> o.tier; o.thorough = o.tier == "thorough"; }
      else if (k == "cases") { u64 v; while (is >> v) cases.push_back(v); }
    }
    for (auto &f : make(o)) if (f.name == fam) {
      if (f.prepare) f.prepare();
      std::string msg;
      int v = run_alone(f, cases, f.case_limit * 3, o.rundir + "/replay.log", msg);
      printf("%s: %s\n", v == 1 ? "FAILS" : "passes", (f.describe ? f.describe(cases.back()) : "").c_str());
      if (v == 1) printf("%s\n", msg.c_str());
      return v == 1 ? 1 : 0;
    }
    fprintf(stderr, "no such family: %s\n", fam.c_str());
    return 2;
  }

  double t0 = now(), deadline = t0 + o.budget;
  std::vector<Family> fams = make(o);
  Result res;
  std::ostringstream fj, sj;
  bool first = true, sfirst = true;
  for (auto &f : fams) {
    if (!only.empty() && f.name != only) continue;
    if (now() > deadline) { res.capped = true; break; }
    double f0 = now();
    u64 e0 = sh->evals, s0 = sh->states, tr0 = sh->transitions;
    bool ok = run_family(f, o, deadline, res);
    fj << (first ? "" : ",\n   ") << "{\"name\":" << json_str(f.name) << ",\"space\":" << json_str(f.rule) << ",\"cases\":" << f.count
       << ",\"run\":" << (sh->evals - e0) << ",\"new_states\":" << (sh->states - s0)
       << ",\"transitions\":" << (sh->transitions - tr0) << ",\"wall_s\":" << (now() - f0) << "}";
    first = false;
    if (f.describe && f.count) {
      for (u64 i : {f.count / 2, f.count - 1}) {
        sj << (sfirst ? "" : ",\n   ") << json_str(f.name + ": " + f.describe(i));
        sfirst = false;
        if (f.count == 1) break;
      }
    }
    fprintf(stderr, "[%s] %-22s cases=%llu/%llu %.1fs%s\n", o.prop.c_str(), f.name.c_str(), (unsigned long long)(sh->evals - e0),
            (unsigned long long)f.count, now() - f0, ok ? "" : "  FAILED");
    if (!ok) break;
  }
  if (!o.out.empty()) {
    std::ofstream out(o.out);
    out << "{\"evaluations\":" << sh->evals << ",\"states\":" << sh->states << ",\"transitions\":" << sh->transitions
        << ",\"nontrivial\":" << sh->nontrivial << ",\"traces\":" << sh->traces << ",\"states_saturated\":" << sh->saturated
        << ",\"capped\":" << (res.capped ? "true" : "false") << ",\"wall_s\":" << (now() - t0);
    for (std::size_t k = 0; k < extra_names.size(); k++) out << ",\n " << json_str(extra_names[k]) << ":" << sh->extra[k];
    out << ",\n \"families\":[" << fj.str() << "],\n \"samples\":[" << sj.str() << "]";
    out << ",\n \"violation\":" << (res.violation ? "true" : "false");
    if (res.violation)
      out << ",\n \"message\":" << json_str(res.msg) << ",\n \"case\":" << json_str(res.desc) << ",\n \"family\":" << json_str(res.family);
    out << "}\n";
  }
  if (res.violation) {
    fprintf(stderr, "[%s] failing case: %s %llu: %s\n%s\n", o.prop.c_str(), res.family.c_str(), (unsigned long long)res.idx, res.desc.c_str(), res.msg.c_str());
    return 1;
  }
  return 0;
}

}  // namespace mc
