// Deterministic simulation core: choice source, event log, violations,
// counters, allocation ledger.  Everything a run does is a pure function of
// the choice sequence (seeded PRNG, or a recorded/minimised list on replay).
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct Violation {
  std::string cls;
  std::string msg;
};

// ---------------------------------------------------------------- choices --
class Choices {
public:
  void seed(uint64_t s)
  {
    replay_ = false;
    state_ = s;
    rec_.clear();
    pos_ = 0;
  }

  void replay(std::vector<uint64_t> values)
  {
    replay_ = true;
    rec_ = std::move(values);
    pos_ = 0;
  }

  uint64_t pick(uint64_t n)
  {
    if (n <= 1) {
      return 0;
    }
    if (replay_) {
      uint64_t v = pos_ < rec_.size() ? rec_[pos_] : 0;
      pos_++;
      return v % n;
    }
    uint64_t v = next() % n;
    rec_.push_back(v);
    pos_++;
    if (sink_ >= 0) {
      sink(v);
    }
    return v;
  }

  // Also stream every recorded choice to a file, so that it survives a crash.
  void stream_to(int fd) { sink_ = fd; }

  const std::vector<uint64_t> &recorded() const { return rec_; }
  size_t used() const { return pos_; }

private:
  uint64_t next()
  {
    state_ += 0x9e3779b97f4a7c15ULL;
    uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }

  void sink(uint64_t v);

  int sink_ = -1;
  bool replay_ = false;
  uint64_t state_ = 0;
  std::vector<uint64_t> rec_;
  size_t pos_ = 0;
};

// --------------------------------------------------------------- counters --
int
counter_id(const char *name);
extern std::vector<uint64_t> counters;
extern std::vector<std::string> counter_names;

#define SIM_COUNT_N(name, n)                                                   \
  do {                                                                         \
    static const int sim_counter_ = ::sim::counter_id(name);                   \
    ::sim::counters[static_cast<size_t>(sim_counter_)] +=                      \
      static_cast<uint64_t>(n);                                                \
  } while (0)
#define SIM_COUNT(name) SIM_COUNT_N(name, 1)

// -------------------------------------------------------------------- ctx --
class Ctx {
public:
  Choices choices;

  bool verbose = false;
  std::vector<std::string> log;

  uint64_t hash = 0xcbf29ce484222325ULL;       // full trace (determinism)
  uint64_t schedule = 0xcbf29ce484222325ULL;   // schedule + faults only
  uint64_t steps = 0;
  uint64_t sim_us = 0;
  bool nontrivial = false;
  int tier = 0; // 0 quick, 1 thorough

  uint64_t pick(uint64_t n) { return choices.pick(n); }

  // Inclusive range.
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + pick(hi - lo + 1); }

  // True with probability permille/1000; choice value 0 means false.
  bool chance(unsigned permille)
  {
    if (permille == 0) {
      return false;
    }
    return pick(1000) >= 1000 - permille;
  }

  void mix(uint64_t v)
  {
    hash ^= v;
    hash *= 0x100000001b3ULL;
    hash ^= hash >> 29;
  }

  void mix_schedule(uint64_t v)
  {
    schedule ^= v;
    schedule *= 0x100000001b3ULL;
    schedule ^= schedule >> 29;
  }

  void mix_bytes(const void *data, size_t size)
  {
    const uint8_t *p = static_cast<const uint8_t *>(data);
    for (size_t i = 0; i < size; i++) {
      hash ^= p[i];
      hash *= 0x100000001b3ULL;
    }
    hash ^= hash >> 29;
  }

  // One event: always hashed, formatted only when verbose.
  void ev(const char *tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0)
  {
    for (const char *t = tag; *t != 0; t++) {
      hash = (hash ^ static_cast<uint8_t>(*t)) * 0x100000001b3ULL;
    }
    mix(a);
    mix(b);
    mix(c);
    if (verbose) {
      char line[256];
      snprintf(line,
               sizeof(line),
               "[%llu t=%lluus] %s %llu %llu %llu",
               static_cast<unsigned long long>(steps),
               static_cast<unsigned long long>(sim_us),
               tag,
               static_cast<unsigned long long>(a),
               static_cast<unsigned long long>(b),
               static_cast<unsigned long long>(c));
      log.emplace_back(line);
    }
  }

  // Verbose-only note; never affects the run.
  void note(const char *format, ...) __attribute__((format(printf, 2, 3)));
};

[[noreturn]] void
fail(const char *cls, const char *format, ...)
  __attribute__((format(printf, 2, 3)));

#define SIM_CHECK(cond, cls, ...)                                              \
  do {                                                                         \
    if (!(cond)) {                                                             \
      ::sim::fail(cls, __VA_ARGS__);                                           \
    }                                                                          \
  } while (0)

// --------------------------------------------------------- allocation ledger
// Allocations made while a LibScope is alive belong to the code under test.
struct Alloc {
  bool in_lib = false;
  bool armed = false;     // fail one allocation made in a LibScope
  uint64_t countdown = 0; // ... after this many successful ones
  bool fired = false;
  uint64_t live = 0;       // live code-under-test blocks
  uint64_t live_bytes = 0; // ... and bytes
  uint64_t made = 0;       // allocations made in LibScopes so far
  uint64_t peak = 0;       // highest live_bytes so far
};
extern Alloc alloc;

struct LibScope {
  bool previous;
  LibScope()
    : previous(alloc.in_lib)
  {
    alloc.in_lib = true;
  }
  ~LibScope() { alloc.in_lib = previous; }
};

// Forget every live block (start of a run).
void
alloc_reset();

// ---------------------------------------------------------------- registry --
using WorldFn = void (*)(Ctx &);
struct World {
  const char *property;
  const char *description;
  WorldFn run;
};
const std::vector<World> &
worlds();

}
