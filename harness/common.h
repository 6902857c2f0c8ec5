// Replay harness infrastructure: numbered deterministic cases, a description of
// the running case that survives crashes, hang detection and coverage counters.
#ifndef VERIF_HARNESS_COMMON_H_
#define VERIF_HARNESS_COMMON_H_

#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=3";
}
extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

namespace hv {

struct Rng {
  uint64_t s;
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // Uniform in [lo, hi].
  int in(int lo, int hi) {
    return lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
  bool chance(int percent) { return in(0, 99) < percent; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[in(0, static_cast<int>(v.size()) - 1)];
  }
};

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

inline std::string& Desc() {
  static std::string d;
  return d;
}
inline uint64_t& CaseIndex() {
  static uint64_t i = 0;
  return i;
}
inline void Emit(const char* what) {
  // Async-signal-tolerant enough: the process is about to die.
  auto w = [](const char* p, size_t n) {
    ssize_t r = write(1, p, n);
    (void)r;
  };
  char buf[96];
  int n = snprintf(buf, sizeof buf, "\nHARNESS-FAIL case=%llu\n",
                   static_cast<unsigned long long>(CaseIndex()));
  w(buf, n);
  w(what, strlen(what));
  w("\n", 1);
  w(Desc().data(), Desc().size());
  w("\nHARNESS-END\n", 13);
}
inline void OnAlarm(int) {
  Emit("the call did not return (hang)");
  _exit(3);
}
inline void OnCrash(int sig) {
  Emit(sig == SIGFPE ? "crash: arithmetic trap (SIGFPE)"
                     : sig == SIGABRT ? "crash: abort" : "crash: bad memory access");
  _exit(3);
}
inline void OnDeath() { Emit("crash: memory error or undefined behaviour reported by the sanitizer (see stderr)"); }

struct H {
  Rng rng{0};
  uint64_t index = 0;
  uint64_t evals = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;

  // Appends to the description of the running case.
  void log(const std::string& s) {
    Desc() += s;
    Desc() += '\n';
  }
  // Marks the running case as non-trivial, identified by `key`.
  void nontrivial(const std::string& key) {
    if (distinct.insert(std::hash<std::string>{}(key)).second &&
        samples.size() < 3)
      samples.push_back(Desc().substr(0, 1200));
  }
  void req(bool ok, const std::string& msg) {
    evals++;
    if (!ok) throw Failure(msg);
  }
};

inline std::string JsonStr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c == '\t') {
      o += "\\t";
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o + "\"";
}

// usage: prog --seed S --seconds T [--case N] --stats FILE
inline int Main(int argc, char** argv, const std::function<void(H&)>& run,
                int hang_s = 20) {
  uint64_t seed = 1;
  double seconds = 2;
  long long only = -1;
  std::string stats;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
    if (a == "--seconds") seconds = atof(argv[i + 1]);
    if (a == "--case") only = atoll(argv[i + 1]);
    if (a == "--stats") stats = argv[i + 1];
  }
  signal(SIGALRM, OnAlarm);
  if (__sanitizer_set_death_callback) {
    __sanitizer_set_death_callback(OnDeath);
  } else {
    signal(SIGSEGV, OnCrash);
    signal(SIGBUS, OnCrash);
  }
  signal(SIGFPE, OnCrash);
  signal(SIGABRT, OnCrash);
  H h;
  const auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
        .count();
  };
  uint64_t n = 0;
  for (uint64_t i = only >= 0 ? only : 0;; i++) {
    if (only >= 0 && n > 0) break;
    if (only < 0 && elapsed() > seconds) break;
    n++;
    CaseIndex() = i;
    h.index = i;
    h.rng.s = seed * 0x9e3779b97f4a7c15ull + i * 0xd1b54a32d192ed03ull;
    h.rng.next();
    Desc().clear();
    alarm(hang_s);
    try {
      run(h);
    } catch (const Failure& e) {
      Emit(e.what());
      return 3;
    } catch (const std::exception& e) {
      Emit((std::string("unexpected exception: ") + e.what()).c_str());
      return 3;
    }
    alarm(0);
  }
  if (!stats.empty()) {
    std::ofstream f(stats);
    f << "{\"cases\": " << n << ", \"evaluations\": " << h.evals
      << ", \"distinct_nontrivial\": " << h.distinct.size()
      << ", \"samples\": [";
    for (size_t i = 0; i < h.samples.size(); i++)
      f << (i ? ", " : "") << JsonStr(h.samples[i]);
    f << "]}\n";
  }
  return 0;
}

}  // namespace hv

#endif  // VERIF_HARNESS_COMMON_H_
