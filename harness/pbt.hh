// A small property-based testing engine.
//
// * A test case is a sequence of bounded integer choices ("choice sequence"). Generators draw from a Source.
//   The same sequence always gives the same case, so a recorded sequence is a replay file, and shrinking
//   the sequence shrinks the case whatever the generator looks like (integrated shrinking).
// * Cases run in forked workers. Every choice, counter and rendering lives in shared memory, so a failed
//   assert, a segmentation fault, an exception or a CPU-time overrun is attributed to the case that caused it.
// * A failing case is replayed three times in fresh processes, shrunk (every candidate in a fresh process),
//   replayed three times again, and only then reported.
#pragma once

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

struct Discard {};

struct Failure {
  std::string msg;
};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL);
  return splitmix(s);
}

inline uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c: s) {
    h = (h ^ c) * 1099511628211ULL;
  }
  return h;
}

constexpr std::size_t kMaxChoices = 1 << 15;
constexpr std::size_t kMaxNote = 1 << 15;
constexpr std::size_t kMaxLabels = 96;
constexpr std::size_t kLabelLen = 56;
constexpr std::size_t kMaxHashes = 1 << 20;
constexpr std::size_t kMaxSamples = 6;

enum Kind : int { kNone = 0, kFailed = 1, kSkipped = 2, kPassed = 3 };

//! Everything a worker reports; lives in shared memory.
struct Shared {
  volatile uint64_t caseIndex;
  volatile uint64_t choiceCount;
  volatile int kind;
  uint32_t choices[kMaxChoices];
  char note[kMaxNote];
  char message[kMaxNote];
  uint64_t evaluations, discards, nontrivial;
  char labels[kMaxLabels][kLabelLen];
  uint64_t labelCounts[kMaxLabels];
  uint64_t hashCount;
  uint64_t hashes[kMaxHashes];
  char samples[kMaxSamples][4096];
  int sampleCount;
  double slowest;
  uint64_t slowestCase;
};

inline Shared *mapShared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared *>(p);
}

//! Source of the choices of one case
class Source {
  Shared *sh;
  const std::vector<uint32_t> *replay;
  uint64_t state;
  std::size_t pos = 0;
public:
  Source(Shared *sh, uint64_t seed) : sh(sh), replay(nullptr), state(seed) { sh->choiceCount = 0; }

  Source(Shared *sh, const std::vector<uint32_t> *replay) : sh(sh), replay(replay), state(0) { sh->choiceCount = 0; }

  //! A choice in [0, n); 0 is the simplest value
  uint32_t draw(uint32_t n) {
    if (n <= 1) {
      return 0;
    }
    uint32_t v;
    if (replay) {
      v = pos < replay->size() ? (*replay)[pos] % n : 0;
    } else {
      v = static_cast<uint32_t>(splitmix(state) % n);
    }
    ++pos;
    if (pos > kMaxChoices) {
      throw Discard{};
    }
    sh->choices[pos - 1] = v;
    sh->choiceCount = pos;
    return v;
  }

  //! v in generation, the recorded choice in a replay; for walking through a fixed list case by case
  uint32_t forced(uint32_t n, uint64_t v) {
    if (replay) {
      return draw(n);
    }
    ++pos;
    sh->choices[pos - 1] = static_cast<uint32_t>(v % n);
    sh->choiceCount = pos;
    return static_cast<uint32_t>(v % n);
  }

  int range(int lo, int hi) { return lo + static_cast<int>(draw(static_cast<uint32_t>(hi - lo + 1))); }

  bool coin() { return draw(2) == 1; }

  //! true with probability num/den; false is the simpler value
  bool chance(int num, int den) { return static_cast<int>(draw(den)) >= den - num; }

  template<class T>
  const T &pick(const std::vector<T> &v) { return v.at(draw(v.size())); }

  //! Geometric-ish size in [lo, hi]
  int size(int lo, int hi) {
    int n = lo;
    while (n < hi && chance(2, 3)) {
      ++n;
    }
    return n;
  }
};

struct Config {
  std::string property;     // the check's id
  uint64_t maxCases = 1000; // number of cases to generate
  double caseCpu = 10;      // CPU seconds after which a case is ended
  bool timeoutFails = true; // whether the overrun counts as a failure
  bool isolate = false;     // one process per case
  double memGB = 2.5;
  double wallBudget = 600;  // stop generating after this
};

class Ctx {
  Shared *sh;
public:
  Source src;
  bool verbose = false;
  bool thorough = false;
  uint64_t caseIndex = 0;
private:
  bool counted = false;
public:

  Ctx(Shared *sh, uint64_t seed) : sh(sh), src(sh, seed) { begin(); }

  Ctx(Shared *sh, const std::vector<uint32_t> *replay) : sh(sh), src(sh, replay) { begin(); }

  void begin() {
    sh->note[0] = 0;
    sh->message[0] = 0;
    sh->kind = kNone;
  }

  //! Human-readable rendering of the case
  void note(const std::string &s) {
    std::size_t have = strlen(sh->note);
    if (have + 2 < kMaxNote) {
      std::size_t n = std::min(s.size(), kMaxNote - have - 2);
      memcpy(sh->note + have, s.data(), n);
      sh->note[have + n] = '\n';
      sh->note[have + n + 1] = 0;
    }
  }

  void label(const std::string &l, uint64_t add = 1) {
    for (std::size_t i = 0; i < kMaxLabels; ++i) {
      if (sh->labels[i][0] == 0) {
        strncpy(sh->labels[i], l.c_str(), kLabelLen - 1);
      }
      if (strncmp(sh->labels[i], l.c_str(), kLabelLen - 1) == 0) {
        sh->labelCounts[i] += add;
        return;
      }
    }
  }

  //! The case is non-trivial by the check's rule; key identifies it for counting distinct cases
  void nontrivial(uint64_t key) {
    if (counted) {
      return; // once per case
    }
    counted = true;
    sh->nontrivial++;
    if (sh->hashCount < kMaxHashes) {
      sh->hashes[sh->hashCount++] = key;
    }
    if (sh->sampleCount < static_cast<int>(kMaxSamples)) {
      strncpy(sh->samples[sh->sampleCount++], sh->note, 4095);
    }
  }

  void nontrivialNote() { nontrivial(hashStr(sh->note)); }

  [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }

  void check(bool ok, const std::string &m) {
    if (!ok) {
      fail(m);
    }
  }

  [[noreturn]] void discard() { throw Discard{}; }
};

using Property = std::function<void(Ctx &)>;

struct Outcome {
  int kind = kNone; // kFailed, kSkipped, kPassed
  std::string message;
  std::string note;
  std::vector<uint32_t> choices;
};

inline void setCpuTimer(double seconds) {
  struct itimerval t{};
  t.it_value.tv_sec = static_cast<long>(seconds);
  t.it_value.tv_usec = static_cast<long>((seconds - static_cast<long>(seconds)) * 1e6);
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline double cpuNow() {
  struct timespec ts{};
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

inline void setMessage(Shared *sh, const std::string &m) {
  strncpy(sh->message, m.c_str(), kMaxNote - 1);
  sh->message[kMaxNote - 1] = 0;
}

//! Run one case in this process; the outcome is left in *sh
inline void runCase(Shared *sh, Ctx &ctx, const Property &prop) {
  try {
    prop(ctx);
    sh->kind = kPassed;
  } catch (const Discard &) {
    sh->kind = kSkipped;
  } catch (const Failure &f) {
    setMessage(sh, f.msg);
    sh->kind = kFailed;
  } catch (const std::bad_alloc &) {
    setMessage(sh, "memory limit exceeded (std::bad_alloc)");
    sh->kind = kFailed;
  } catch (const std::exception &e) {
    setMessage(sh, std::string("uncaught exception: ") + e.what());
    sh->kind = kFailed;
  }
}

inline std::string tailOf(const std::string &path) {
  std::ifstream in(path);
  std::string line, all;
  std::vector<std::string> lines;
  while (std::getline(in, line)) {
    lines.push_back(line);
    if (lines.size() > 400) {
      lines.erase(lines.begin(), lines.begin() + 200);
    }
  }
  // Prefer the line of a failed assertion or a sanitizer report
  for (auto it = lines.rbegin(); it != lines.rend(); ++it) {
    if (it->find("Assertion") != std::string::npos || it->find("ERROR: AddressSanitizer") != std::string::npos ||
        it->find("runtime error") != std::string::npos || it->find("terminate called") != std::string::npos) {
      return *it;
    }
  }
  while (!lines.empty() && lines.back().empty()) {
    lines.pop_back();
  }
  return lines.empty() ? "(no message)" : lines.back();
}

class Runner {
  Config cfg;
  Property prop;
  uint64_t seed;
  bool thorough;
  std::string dir; // scratch directory of this run
  Shared *probe;   // used for replays

  void limits() const {
#if !defined(__SANITIZE_ADDRESS__)
    struct rlimit r{};
    r.rlim_cur = r.rlim_max = static_cast<rlim_t>(cfg.memGB * (1ULL << 30));
    setrlimit(RLIMIT_AS, &r);
#endif
    struct rlimit c{};
    c.rlim_cur = c.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &c);
  }

  static void redirect(const std::string &path) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) {
      dup2(fd, 2);
      close(fd);
    }
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) {
      dup2(nul, 1);
      close(nul);
    }
  }

  std::string describeDeath(int status, const std::string &errFile) const {
    if (WIFSIGNALED(status)) {
      const int sig = WTERMSIG(status);
      if (sig == SIGPROF) {
        return "timeout: the case used more than " + std::to_string(cfg.caseCpu) + " CPU seconds";
      }
      if (sig == SIGKILL) {
        return "killed";
      }
      return std::string("crash: signal ") + strsignal(sig) + ": " + tailOf(errFile);
    }
    return "crash: exit status " + std::to_string(WEXITSTATUS(status)) + ": " + tailOf(errFile);
  }

public:
  Runner(Config cfg, Property prop, uint64_t seed, bool thorough, std::string dir)
          : cfg(std::move(cfg)), prop(std::move(prop)), seed(seed), thorough(thorough), dir(std::move(dir)),
            probe(mapShared()) {}

  //! Run one case given by its choices in a fresh process
  Outcome runOnce(const std::vector<uint32_t> &choices, bool verbose = false) {
    const std::string err = dir + "/probe.err";
    probe->kind = kNone;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      limits();
      if (!verbose) {
        redirect(err);
      }
      Ctx ctx(probe, &choices);
      ctx.verbose = verbose;
      ctx.thorough = thorough;
      setCpuTimer(cfg.caseCpu);
      runCase(probe, ctx, prop);
      _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.note = probe->note;
    o.choices.assign(probe->choices, probe->choices + probe->choiceCount);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
      o.kind = probe->kind;
      o.message = probe->message;
    } else {
      o.kind = kFailed;
      o.message = describeDeath(status, err);
      if (o.message == "killed" || (!cfg.timeoutFails && o.message.rfind("timeout", 0) == 0)) {
        o.kind = kSkipped;
      }
    }
    return o;
  }

  static std::string categoryOf(const std::string &m) {
    // Compare the first words only: numbers in the message change while shrinking
    return m.substr(0, std::min(m.find(':') == std::string::npos ? m.size() : m.find(':'), static_cast<std::size_t>(24)));
  }

  Outcome shrink(Outcome best, double wall) {
    const auto start = std::chrono::steady_clock::now();
    const auto over = [&] {
      return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > wall;
    };
    const std::string category = categoryOf(best.message);
    const auto attempt = [&](const std::vector<uint32_t> &cand) {
      Outcome o = runOnce(cand);
      if (o.kind == kFailed && categoryOf(o.message) == category) {
        // The choices really drawn may be fewer than the candidate
        if (o.choices.size() < best.choices.size() ||
            (o.choices.size() == best.choices.size() && o.choices < best.choices)) {
          best = o;
          return true;
        }
      }
      return false;
    };
    bool progress = true;
    while (progress && !over()) {
      progress = false;
      // Delete chunks
      for (std::size_t len: {64, 32, 16, 8, 4, 3, 2, 1}) {
        for (std::size_t i = 0; i + len <= best.choices.size() && !over();) {
          auto cand = best.choices;
          cand.erase(cand.begin() + static_cast<long>(i), cand.begin() + static_cast<long>(i + len));
          if (attempt(cand)) {
            progress = true;
          } else {
            i += std::max<std::size_t>(1, len / 2);
          }
        }
      }
      // Zero chunks, then decrease single choices
      for (std::size_t len: {8, 4, 2, 1}) {
        for (std::size_t i = 0; i + len <= best.choices.size() && !over(); ++i) {
          auto cand = best.choices;
          bool any = false;
          for (std::size_t k = i; k < i + len; ++k) {
            any = any || cand[k] != 0;
            cand[k] = 0;
          }
          if (any && attempt(cand)) {
            progress = true;
          }
        }
      }
      for (std::size_t i = 0; i < best.choices.size() && !over(); ++i) {
        for (int guard = 0; guard < 12 && i < best.choices.size() && best.choices[i] > 0 && !over(); ++guard) {
          auto cand = best.choices;
          cand[i] = cand[i] > 4 ? cand[i] / 2 : cand[i] - 1;
          if (!attempt(cand)) {
            break;
          }
          progress = true;
        }
      }
    }
    return best;
  }

  static std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c: s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += static_cast<char>(c);
      } else if (c == '\n') {
        r += "\\n";
      } else if (c < 0x20 || c >= 0x7f) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += static_cast<char>(c);
      }
    }
    return r;
  }

  std::string writeReplay(const Outcome &o, uint64_t caseIndex, const std::string &replayDir) const {
    std::ostringstream name;
    name << replayDir << "/" << cfg.property << "-seed" << seed << "-case" << caseIndex << ".json";
    std::ofstream f(name.str());
    f << "{\"property\": \"" << cfg.property << "\", \"seed\": " << seed << ", \"case\": " << caseIndex
      << ",\n \"message\": \"" << esc(o.message) << "\",\n \"input\": \"" << esc(o.note) << "\",\n \"choices\": [";
    for (std::size_t i = 0; i < o.choices.size(); ++i) {
      f << (i ? "," : "") << o.choices[i];
    }
    f << "]}\n";
    return name.str();
  }

  struct Result {
    uint64_t evaluations = 0, discards = 0, nontrivial = 0, distinct = 0, unreproduced = 0, timeouts = 0, known = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::vector<std::pair<Outcome, uint64_t>> violations;
    double wall = 0, slowest = 0;
    uint64_t slowestCase = 0;
  };

  //! collect > 1: keep going after failures (development only)
  Result run(int workers, int collect = 1, const std::vector<std::string> &knownMessages = {}) {
    Result res;
    const auto start = std::chrono::steady_clock::now();
    const auto elapsed = [&] {
      return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
    };
    struct Worker {
      pid_t pid = -1;
      Shared *sh = nullptr;
      uint64_t next = 0;
    };
    std::vector<Worker> ws(workers);
    const uint64_t W = workers;
    const auto startWorker = [&](int w) {
      auto &wk = ws[w];
      if (wk.next >= cfg.maxCases || elapsed() > cfg.wallBudget) {
        wk.pid = -1;
        return;
      }
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        limits();
        redirect(dir + "/w" + std::to_string(w) + ".err");
        for (uint64_t i = wk.next; i < cfg.maxCases; i += W) {
          if (elapsed() > cfg.wallBudget) {
            break;
          }
          if (cfg.isolate && i != wk.next) {
            _exit(7); // the parent goes on with the next case in a fresh process
          }
          wk.sh->caseIndex = i;
          Ctx ctx(wk.sh, mix(mix(seed, hashStr(cfg.property)), i));
          ctx.thorough = thorough;
          ctx.caseIndex = i;
          const double t0 = cpuNow();
          setCpuTimer(cfg.caseCpu);
          runCase(wk.sh, ctx, prop);
          setCpuTimer(0);
          const double dt = cpuNow() - t0;
          if (dt > wk.sh->slowest) {
            wk.sh->slowest = dt;
            wk.sh->slowestCase = i;
          }
          wk.sh->evaluations++;
          if (wk.sh->kind == kSkipped) {
            wk.sh->discards++;
          }
          if (wk.sh->kind == kFailed) {
            _exit(9);
          }
        }
        _exit(0);
      }
      wk.pid = pid;
    };
    for (int w = 0; w < workers; ++w) {
      ws[w].sh = mapShared();
      ws[w].next = w;
      startWorker(w);
    }
    bool stop = false;
    while (true) {
      int status = 0;
      pid_t pid = waitpid(-1, &status, 0);
      if (pid < 0) {
        if (errno == EINTR) {
          continue;
        }
        break;
      }
      int w = -1;
      for (int k = 0; k < workers; ++k) {
        if (ws[k].pid == pid) {
          w = k;
        }
      }
      if (w < 0) {
        continue;
      }
      auto &wk = ws[w];
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        wk.pid = -1;
        continue;
      }
      const uint64_t index = wk.sh->caseIndex;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 7) {
        wk.next = index + W;
        startWorker(w);
        continue;
      }
      // The case failed or the process died in it
      Outcome o;
      o.kind = kFailed;
      o.note = wk.sh->note;
      o.choices.assign(wk.sh->choices, wk.sh->choices + wk.sh->choiceCount);
      if (WIFEXITED(status) && WEXITSTATUS(status) == 9) {
        o.message = wk.sh->message;
      } else {
        wk.sh->evaluations++;
        o.message = describeDeath(status, dir + "/w" + std::to_string(w) + ".err");
      }
      wk.next = index + W;
      const bool isTimeout = o.message.rfind("timeout", 0) == 0;
      if (o.message == "killed" || (isTimeout && !cfg.timeoutFails)) {
        res.timeouts++;
      } else if (std::any_of(knownMessages.begin(), knownMessages.end(), [&](const std::string &m) {
        return o.message.find(m) != std::string::npos;
      })) {
        res.known++;
      } else if (!stop) {
        // Replay three times in fresh processes
        int again = 0;
        Outcome last;
        for (int k = 0; k < 3; ++k) {
          Outcome r = runOnce(o.choices);
          if (r.kind == kFailed) {
            ++again;
            last = r;
          }
        }
        if (again == 3) {
          res.violations.emplace_back(last, index);
          if (static_cast<int>(res.violations.size()) >= collect) {
            stop = true;
            for (auto &k: ws) {
              if (k.pid > 0) {
                kill(k.pid, SIGKILL);
              }
            }
          }
        } else {
          res.unreproduced++;
          fprintf(stderr, "note: case %lu failed (%s) but its replay failed only %d of 3 times\n",
                  static_cast<unsigned long>(index), o.message.c_str(), again);
        }
      }
      if (!stop) {
        startWorker(w);
      } else {
        wk.pid = -1;
      }
    }
    std::set<uint64_t> hashes;
    for (auto &wk: ws) {
      res.evaluations += wk.sh->evaluations;
      res.discards += wk.sh->discards;
      res.nontrivial += wk.sh->nontrivial;
      hashes.insert(wk.sh->hashes, wk.sh->hashes + wk.sh->hashCount);
      for (std::size_t i = 0; i < kMaxLabels && wk.sh->labels[i][0]; ++i) {
        res.labels[wk.sh->labels[i]] += wk.sh->labelCounts[i];
      }
      for (int i = 0; i < wk.sh->sampleCount && res.samples.size() < 5; ++i) {
        if (i == 0 || &wk == &ws.back()) {
          res.samples.emplace_back(wk.sh->samples[i]);
        }
      }
      if (wk.sh->slowest > res.slowest) {
        res.slowest = wk.sh->slowest;
        res.slowestCase = wk.sh->slowestCase;
      }
      munmap(wk.sh, sizeof(Shared));
    }
    res.distinct = hashes.size();
    res.wall = elapsed();
    return res;
  }
};

//! A sub-check of a property: several of them may make up one check
struct SubCheck {
  std::string name;
  Config quick, thorough;
  Property prop;
};

//! A listed finding: a message of a sub-check, and a recorded case that shows it
struct Known {
  std::string sub, message, replay, text;
};

/*
 * Lines of the form
 *   finding: property=ID sub=NAME replay=FILE message="TEXT" description
 * Other lines (comments, fixed:) suppress nothing.
 */
inline std::vector<Known> readKnown(const std::string &path, const std::string &property) {
  std::vector<Known> result;
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string tag, prop, sub, replay;
    is >> tag >> prop >> sub >> replay;
    const auto a = line.find("message=\""), b = a == std::string::npos ? a : line.find('"', a + 9);
    if (tag != "finding:" || prop != "property=" + property || b == std::string::npos) {
      continue;
    }
    result.push_back({sub.substr(4), line.substr(a + 9, b - a - 9), replay.substr(7),
                      line.substr(std::min(line.size(), b + 2))});
  }
  return result;
}

struct CheckInfo {
  std::string property;
  std::string rule;                     // when a case counts as non-trivial
  std::vector<std::string> assumptions;
  std::string level = "exploration";
  std::vector<SubCheck> subs;
};

inline std::vector<uint32_t> readChoices(const std::string &path) {
  std::ifstream in(path);
  std::stringstream ss;
  ss << in.rdbuf();
  const std::string s = ss.str();
  std::vector<uint32_t> result;
  auto p = s.rfind("\"choices\"");
  if (p == std::string::npos) {
    return result;
  }
  p = s.find('[', p);
  std::string rest = s.substr(p + 1);
  std::stringstream nums(rest);
  std::string tok;
  while (std::getline(nums, tok, ',')) {
    result.push_back(static_cast<uint32_t>(strtoul(tok.c_str(), nullptr, 10)));
  }
  return result;
}

inline std::string replaySub(const std::string &path) {
  std::ifstream in(path);
  std::stringstream ss;
  ss << in.rdbuf();
  const std::string s = ss.str();
  auto p = s.find("\"property\": \"");
  p += strlen("\"property\": \"");
  return s.substr(p, s.find('"', p) - p);
}

/*
 * main of a check binary.
 *   check TIER --evidence FILE --replays DIR --scratch DIR [--known FILE] [--workers N] [--cases N] [--only SUB] [--collect N]
 *   check replay FILE
 */
inline int checkMain(int argc, char **argv, const CheckInfo &info) {
  // The same addresses in every run, as far as the sandbox allows it: orders of pointer-keyed containers repeat
  if (!getenv("PBT_REEXEC")) {
    setenv("PBT_REEXEC", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  std::string tier = argc > 1 ? argv[1] : "quick";
  std::string evidence, replays = ".", scratch = "/tmp", only, known;
  int workers = 8, collect = 1;
  uint64_t cases = 0;
  double budget = 0;
  for (int i = 2; i + 1 < argc; ++i) {
    const std::string a = argv[i];
    if (a == "--evidence") evidence = argv[++i];
    else if (a == "--replays") replays = argv[++i];
    else if (a == "--scratch") scratch = argv[++i];
    else if (a == "--known") known = argv[++i];
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--cases") cases = strtoull(argv[++i], nullptr, 10);
    else if (a == "--only") only = argv[++i];
    else if (a == "--collect") collect = atoi(argv[++i]);
    else if (a == "--budget") budget = atof(argv[++i]);
  }
  const bool thorough = tier == "thorough";
  uint64_t seed = 1;
  if (const char *s = getenv("VERIF_SEED")) {
    seed = strtoull(s, nullptr, 10);
  }
  if (tier == "replay") {
    const std::string file = argv[2];
    const std::string sub = replaySub(file);
    for (const auto &s: info.subs) {
      if (info.property + "." + s.name == sub || s.name == sub) {
        Config c = s.quick;
        c.property = info.property + "." + s.name;
        Runner r(c, s.prop, seed, false, scratch);
        Outcome o = r.runOnce(readChoices(file), true);
        std::cout << o.note << "\n" << (o.kind == kFailed ? "FAILS: " : o.kind == kPassed ? "passes" : "skipped ")
                  << o.message << std::endl;
        return o.kind == kFailed ? 1 : 0;
      }
    }
    std::cerr << "no such sub-check: " << sub << "\n";
    return 2;
  }

  const auto t0 = std::chrono::steady_clock::now();
  const auto findings = known.empty() ? std::vector<Known>{} : readKnown(known, info.property);
  for (const auto &k: findings) {
    for (const auto &s: info.subs) {
      if (s.name == k.sub) {
        Config c = s.quick;
        c.property = info.property + "." + s.name;
        c.timeoutFails = true;
        const auto o = Runner(c, s.prop, seed, false, scratch).runOnce(readChoices(k.replay));
        if (o.kind == kFailed && o.message.find(k.message) != std::string::npos) {
          printf("KNOWN-FINDING: property=%s %s (%s)\n", info.property.c_str(), k.text.c_str(), k.replay.c_str());
        }
      }
    }
  }
  Runner::Result total;
  std::vector<std::string> violations;
  std::ostringstream subJson;
  bool firstSub = true;
  bool tooFew = false;
  std::vector<std::string> samples;
  for (const auto &s: info.subs) {
    if (!only.empty() && only != s.name) {
      continue;
    }
    Config c = thorough ? s.thorough : s.quick;
    c.property = info.property + "." + s.name;
    if (cases) {
      c.maxCases = cases;
    }
    if (budget > 0) {
      c.wallBudget = budget;
    }
    Runner r(c, s.prop, seed, thorough, scratch);
    std::vector<std::string> knownMessages;
    for (const auto &k: findings) {
      if (k.sub == s.name) {
        knownMessages.push_back(k.message);
      }
    }
    auto res = r.run(workers, collect, knownMessages);
    printf("%s: %lu cases, %lu discarded, %lu non-trivial (%lu distinct), %lu timeouts, %lu listed findings, %lu unreproduced, %.1f s, slowest %.2f s (case %lu)\n",
           c.property.c_str(), res.evaluations, res.discards, res.nontrivial, res.distinct, res.timeouts,
           res.known, res.unreproduced, res.wall, res.slowest, res.slowestCase);
    for (const auto &[l, n]: res.labels) {
      printf("    %-50s %lu\n", l.c_str(), n);
    }
    fflush(stdout);
    subJson << (firstSub ? "" : ", ") << "{\"name\": \"" << s.name << "\", \"evaluations\": " << res.evaluations
            << ", \"discarded\": " << res.discards << ", \"nontrivial\": " << res.nontrivial
            << ", \"distinct_nontrivial\": " << res.distinct << ", \"timeouts\": " << res.timeouts
            << ", \"listed_findings\": " << res.known << ", \"unreproduced\": " << res.unreproduced << ", \"planned\": " << c.maxCases << ", \"labels\": {";
    bool fl = true;
    for (const auto &[l, n]: res.labels) {
      subJson << (fl ? "" : ", ") << "\"" << Runner::esc(l) << "\": " << n;
      fl = false;
    }
    subJson << "}}";
    firstSub = false;
    total.evaluations += res.evaluations;
    total.discards += res.discards;
    total.nontrivial += res.nontrivial;
    total.distinct += res.distinct;
    for (std::size_t i = 0; i < res.samples.size() && i < 2; ++i) {
      samples.push_back("[" + s.name + "] " + res.samples[i]);
    }
    if (res.evaluations < 20 && res.violations.empty()) {
      tooFew = true;
    }
    for (const auto &[o, index]: res.violations) {
      Outcome small = collect > 1 ? o : r.shrink(o, 45);
      // Replay the shrunk case three times as well; fall back to the original one
      int again = 0;
      for (int k = 0; k < 3; ++k) {
        again += r.runOnce(small.choices).kind == kFailed;
      }
      if (again < 3) {
        small = o;
      }
      const std::string path = r.writeReplay(small, index, replays);
      printf("--- %s case %lu\n%s%s\n", c.property.c_str(), index, small.note.c_str(), small.message.c_str());
      printf("VIOLATION property=%s replay=%s\n", info.property.c_str(), path.c_str());
      fflush(stdout);
      violations.push_back(path);
    }
    if (!violations.empty() && collect == 1) {
      break;
    }
  }
  const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\"property\": \"" << info.property << "\", \"tier\": \"" << (thorough ? "thorough" : "quick")
      << "\", \"seed\": " << seed << ", \"level\": \"" << info.level << "\",\n \"coverage\": {\"evaluations\": "
      << total.evaluations << ", \"distinct_nontrivial\": " << total.distinct << ", \"nontrivial\": "
      << total.nontrivial << ", \"discarded\": " << total.discards << ",\n  \"rule\": \"" << Runner::esc(info.rule)
      << "\",\n  \"samples\": [";
    for (std::size_t i = 0; i < samples.size(); ++i) {
      f << (i ? ", " : "") << "\"" << Runner::esc(samples[i].substr(0, 1500)) << "\"";
    }
    f << "],\n  \"subchecks\": [" << subJson.str() << "]},\n \"assumptions\": [";
    for (std::size_t i = 0; i < info.assumptions.size(); ++i) {
      f << (i ? ", " : "") << "\"" << Runner::esc(info.assumptions[i]) << "\"";
    }
    f << "],\n \"wall_s\": " << wall << ", \"violations\": " << violations.size() << "}\n";
  }
  if (!violations.empty()) {
    return 1;
  }
  if (tooFew) {
    printf("too few cases were run: no verdict\n");
    return 2;
  }
  return 0;
}

} // namespace pbt
