// Runner: seeded batches, replay, minimisation.
#include "core.hpp"

#include <bnl/base/log.hpp>
#include <fmt/format.h>

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
namespace {

struct Options {
  std::string mode;
  std::string property;
  uint64_t seed = 1;
  uint64_t start = 0;
  uint64_t stride = 1;
  uint64_t count = 100;
  double seconds = 1e9;
  int tier = 0;
  std::string progress;
  std::string out;
  std::string file;
  std::string cls;
  uint64_t budget = 400;
  bool quiet = false;
};

uint64_t
fnv(const std::string &s)
{
  uint64_t h = 0xcbf29ce484222325ULL;
  for (char c : s) {
    h = (h ^ static_cast<uint8_t>(c)) * 0x100000001b3ULL;
  }
  return h;
}

uint64_t
run_seed(const std::string &property, uint64_t seed, uint64_t index)
{
  uint64_t z = fnv(property) ^ (seed * 0x9e3779b97f4a7c15ULL) ^
               (index * 0xd1b54a32d192ed03ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

void
on_timeout(int)
{
  static const char text[] = "SIM-CRASH hang: run exceeded its CPU budget\n";
  ssize_t r = write(2, text, sizeof(text) - 1);
  (void) r;
  _exit(78);
}

void
arm_timer(int seconds)
{
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

const World *
find_world(const std::string &property)
{
  for (const World &w : worlds()) {
    if (property == w.property) {
      return &w;
    }
  }
  return nullptr;
}

// A run may use this much CPU time: several times what the slowest one needs.
constexpr int RUN_SECONDS = 25;

// The longest run so far, in seconds of CPU time.
double slowest = 0;
uint64_t slowest_index = 0;
uint64_t current_index = 0;

struct Outcome {
  bool violated = false;
  std::string cls;
  std::string msg;
};

// A logger that formats everything the code under test has to say.
class Logger : public bnl::base::log::api {
public:
  explicit Logger(Ctx &ctx)
    : ctx_(ctx)
  {}

protected:
  void log(bnl::base::log::level level,
           const char *file,
           const char *function,
           int line,
           const char *format,
           const fmt::format_args &args) const override
  {
    bool in = alloc.in_lib;
    alloc.in_lib = false;
    (void) file;
    (void) function;
    (void) line;
    std::string text = fmt::vformat(format, args);
    SIM_COUNT("env.log_message");
    ctx_.mix_bytes(text.data(), text.size());
    ctx_.note("log(%d): %.120s", static_cast<int>(level), text.c_str());
    alloc.in_lib = in;
  }

private:
  Ctx &ctx_;
};

void
execute_raw(const World &world, Ctx &ctx, Outcome &outcome)
{
  alloc_reset();
  arm_timer(RUN_SECONDS);
  Logger logger(ctx);
  bnl::base::logger = ctx.chance(150) ? &logger : nullptr;
  try {
    world.run(ctx);
  } catch (const Violation &v) {
    outcome.violated = true;
    outcome.cls = v.cls;
    outcome.msg = v.msg;
  } catch (const std::exception &e) {
    outcome.violated = true;
    outcome.cls = "exception";
    outcome.msg = e.what();
  }
  alloc.in_lib = false;
  alloc.armed = false;
  itimerval left{};
  getitimer(ITIMER_PROF, &left);
  arm_timer(0);
  double used = RUN_SECONDS - static_cast<double>(left.it_value.tv_sec) - static_cast<double>(left.it_value.tv_usec) / 1e6;
  if (used > slowest) {
    slowest = used;
    slowest_index = current_index;
  }
}

// One simulated run.
Outcome
execute(const World &world, Ctx &ctx)
{
  Outcome outcome;
  execute_raw(world, ctx, outcome);
  if (!outcome.violated && alloc.live != 0) {
    // One-time caches are no leak: only what a second identical run leaves
    // behind again counts.
    Ctx again;
    again.tier = ctx.tier;
    again.choices.replay(ctx.choices.recorded());
    Outcome second;
    execute_raw(world, again, second);
    if (!second.violated && alloc.live != 0) {
      outcome.violated = true;
      outcome.cls = "leak";
      char line[160];
      snprintf(line,
               sizeof(line),
               "%llu blocks (%llu bytes) still allocated after everything was "
               "destroyed",
               static_cast<unsigned long long>(alloc.live),
               static_cast<unsigned long long>(alloc.live_bytes));
      outcome.msg = line;
    }
  }
  if (outcome.violated) {
    ctx.mix(fnv(outcome.cls));
  }
  return outcome;
}

std::string
json_escape(const std::string &s)
{
  std::string out;
  for (char c : s) {
    uint8_t b = static_cast<uint8_t>(c);
    if (c == '"' || c == '\\') {
      out.push_back('\\');
      out.push_back(c);
    } else if (b < 32 || b > 126) {
      char t[8];
      snprintf(t, sizeof(t), "\\u%04x", b);
      out += t;
    } else {
      out.push_back(c);
    }
  }
  return out;
}

std::vector<uint64_t>
read_choices(const std::string &file)
{
  std::ifstream in(file);
  std::vector<uint64_t> out;
  uint64_t v = 0;
  while (in >> v) {
    out.push_back(v);
  }
  return out;
}

void
write_choices(const std::string &file, const std::vector<uint64_t> &choices)
{
  std::ofstream out(file, std::ios::trunc);
  for (size_t i = 0; i < choices.size(); i++) {
    out << choices[i] << (i % 16 == 15 ? '\n' : ' ');
  }
  out << '\n';
}

int
mode_run(const Options &o)
{
  const World *world = find_world(o.property);
  if (world == nullptr) {
    return 2;
  }
  int progress = -1;
  if (!o.progress.empty()) {
    progress = open(o.progress.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  }
  auto begin = std::chrono::steady_clock::now();
  uint64_t runs = 0;
  uint64_t nontrivial = 0;
  uint64_t steps = 0;
  uint64_t sim_us = 0;
  uint64_t checked_twice = 0;
  std::set<uint64_t> schedules;
  std::set<uint64_t> traces;
  std::vector<uint64_t> samples;
  std::string violations;
  size_t violation_count = 0;
  uint64_t differing = 0;
  uint64_t first_differing = 0;

  for (uint64_t k = 0; k < o.count; k++) {
    uint64_t index = o.start + k * o.stride;
    current_index = index;
    if (progress >= 0) {
      ssize_t r = pwrite(progress, &index, sizeof(index), 0);
      (void) r;
    }
    if ((k & 15) == 0) {
      std::chrono::duration<double> d = std::chrono::steady_clock::now() - begin;
      if (d.count() > o.seconds) {
        break;
      }
    }
    Ctx ctx;
    ctx.tier = o.tier;
    ctx.choices.seed(run_seed(o.property, o.seed, index));
    Outcome outcome = execute(*world, ctx);
    runs++;
    steps += ctx.steps;
    sim_us += ctx.sim_us;
    if (ctx.nontrivial) {
      nontrivial++;
      schedules.insert(ctx.schedule);
      traces.insert(ctx.hash);
      if (samples.size() < 2) {
        samples.push_back(index);
      }
    }
    if (outcome.violated) {
      violation_count++;
      std::ostringstream line;
      line << (violations.empty() ? "" : ",") << "{\"index\":" << index
           << ",\"class\":\"" << json_escape(outcome.cls) << "\",\"msg\":\""
           << json_escape(outcome.msg) << "\"}";
      violations += line.str();
      if (violation_count >= 5) {
        break;
      }
    } else if (k % 50 == 7) {
      // Determinism gate: the recorded choices must reproduce the trace.
      std::vector<uint64_t> saved = counters;
      Ctx again;
      again.tier = o.tier;
      again.choices.replay(ctx.choices.recorded());
      Outcome second = execute(*world, again);
      counters = saved;
      counters.resize(counter_names.size());
      checked_twice++;
      if (again.hash != ctx.hash || second.violated ||
          again.choices.used() != ctx.choices.used()) {
        differing++;
        if (differing == 1) {
          first_differing = index;
        }
      }
    }
  }

  std::chrono::duration<double> d = std::chrono::steady_clock::now() - begin;
  std::ostringstream json;
  json << "{\"runs\":" << runs << ",\"nontrivial\":" << nontrivial
       << ",\"steps\":" << steps << ",\"sim_us\":" << sim_us
       << ",\"replayed_identically\":" << checked_twice - differing
       << ",\"differing\":" << differing
       << ",\"first_differing\":" << first_differing
       << ",\"seconds\":" << d.count() << ",\"slowest\":" << slowest << ",\"slowest_index\":" << slowest_index << ",\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) {
    json << (i != 0 ? "," : "") << samples[i];
  }
  json << "],\"violations\":[" << violations << "],\"counters\":{";
  for (size_t i = 0; i < counter_names.size(); i++) {
    json << (i != 0 ? "," : "") << '"' << json_escape(counter_names[i])
         << "\":" << counters[i];
  }
  json << "}}\n";
  if (!o.out.empty()) {
    std::ofstream(o.out, std::ios::trunc) << json.str();
    std::ofstream bin(o.out + ".hashes", std::ios::trunc | std::ios::binary);
    for (uint64_t h : schedules) {
      bin.write(reinterpret_cast<const char *>(&h), sizeof(h));
    }
    std::ofstream bin2(o.out + ".traces", std::ios::trunc | std::ios::binary);
    for (uint64_t h : traces) {
      bin2.write(reinterpret_cast<const char *>(&h), sizeof(h));
    }
  } else {
    std::cout << json.str();
  }
  return 0;
}

// Carry out several seeded runs one after another in this process; the outcome
// is that of the last one.
int
mode_sequence(const Options &o)
{
  const World *world = find_world(o.property);
  std::vector<uint64_t> indices = read_choices(o.file);
  for (size_t i = 0; i < indices.size(); i++) {
    bool last = i + 1 == indices.size();
    Ctx ctx;
    ctx.tier = o.tier;
    ctx.verbose = last && !o.quiet;
    ctx.choices.seed(run_seed(o.property, o.seed, indices[i]));
    if (last) {
      std::cout << "SIM-LAST" << std::endl;
    }
    Outcome outcome = execute(*world, ctx);
    if (!last) {
      continue;
    }
    for (const std::string &line : ctx.log) {
      std::cout << line << '\n';
    }
    std::cout << "SIM-HASH " << std::hex << ctx.hash << std::dec << " steps "
              << ctx.steps << " choices " << ctx.choices.used() << '\n';
    if (outcome.violated) {
      std::cout << "SIM-VIOLATION class=" << outcome.cls << " " << outcome.msg
                << std::endl;
      return 3;
    }
  }
  std::cout << "SIM-OK" << std::endl;
  return 0;
}

// Replay a choice file (or a seed index) verbosely; exit 3 on a violation.
int
mode_replay(const Options &o)
{
  const World *world = find_world(o.property);
  if (world == nullptr) {
    return 2;
  }
  Ctx ctx;
  ctx.tier = o.tier;
  ctx.verbose = !o.quiet;
  if (!o.file.empty()) {
    ctx.choices.replay(read_choices(o.file));
  } else {
    ctx.choices.seed(run_seed(o.property, o.seed, o.start));
  }
  Outcome outcome = execute(*world, ctx);
  if (!o.out.empty()) {
    write_choices(o.out, ctx.choices.recorded());
  }
  for (const std::string &line : ctx.log) {
    std::cout << line << '\n';
  }
  std::cout << "SIM-HASH " << std::hex << ctx.hash << std::dec << " steps "
            << ctx.steps << " choices " << ctx.choices.used() << '\n';
  if (outcome.violated) {
    std::cout << "SIM-VIOLATION class=" << outcome.cls << " " << outcome.msg
              << std::endl;
    return 3;
  }
  std::cout << "SIM-OK" << std::endl;
  return 0;
}

std::string
classify(int status, const std::string &err)
{
  auto has = [&](const char *t) { return err.find(t) != std::string::npos; };
  if (has("SIM-CRASH hang")) {
    return "hang";
  }
  if (has("SIM-CRASH memory-explosion")) {
    return "memory-explosion";
  }
  size_t asan = err.find("ERROR: AddressSanitizer: ");
  if (asan != std::string::npos) {
    size_t from = asan + strlen("ERROR: AddressSanitizer: ");
    size_t to = err.find_first_of(" \n:", from);
    return "asan-" + err.substr(from, to - from);
  }
  if (has("runtime error:")) {
    return "undefined-behaviour";
  }
  if (has("Assertion")) {
    return "assertion";
  }
  if (has("terminate called")) {
    return "terminate";
  }
  if (WIFSIGNALED(status)) {
    return "signal-" + std::to_string(WTERMSIG(status));
  }
  return "exit-" + std::to_string(WEXITSTATUS(status));
}

struct Child {
  std::string cls; // empty: no violation
  std::vector<uint64_t> recorded;
  std::string err;
};

// Run one candidate in a forked child.
Child
attempt(const World &world, const std::vector<uint64_t> &choices, int tier)
{
  int out[2];
  int err[2];
  if (pipe(out) != 0 || pipe(err) != 0) {
    abort();
  }
  std::cout.flush();
  pid_t pid = fork();
  if (pid == 0) {
    dup2(err[1], 2);
    close(out[0]);
    close(err[0]);
    close(err[1]);
    Ctx ctx;
    ctx.tier = tier;
    ctx.choices.replay(choices);
    Outcome outcome = execute(world, ctx);
    std::string cls = outcome.violated ? outcome.cls : "";
    std::string payload = cls + "\n" + std::to_string(ctx.choices.used()) + "\n";
    ssize_t r = write(out[1], payload.data(), payload.size());
    (void) r;
    _exit(outcome.violated ? 3 : 0);
  }
  close(out[1]);
  close(err[1]);
  Child child;
  std::string text;
  pollfd fds[2] = { { out[0], POLLIN, 0 }, { err[0], POLLIN, 0 } };
  int open_fds = 2;
  char buf[4096];
  while (open_fds > 0) {
    if (poll(fds, 2, -1) < 0 && errno != EINTR) {
      break;
    }
    for (auto &f : fds) {
      if (f.fd >= 0 && (f.revents & (POLLIN | POLLHUP | POLLERR)) != 0) {
        ssize_t n = read(f.fd, buf, sizeof(buf));
        if (n <= 0) {
          close(f.fd);
          f.fd = -1;
          open_fds--;
          continue;
        }
        (f.fd == out[0] ? text : child.err).append(buf, static_cast<size_t>(n));
      }
    }
  }
  int status = 0;
  waitpid(pid, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    return child;
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 3) {
    size_t nl = text.find('\n');
    child.cls = text.substr(0, nl);
    uint64_t used = strtoull(text.c_str() + nl + 1, nullptr, 10);
    child.recorded = choices;
    if (used < child.recorded.size()) {
      child.recorded.resize(used);
    }
    return child;
  }
  child.cls = classify(status, child.err);
  child.recorded = choices;
  return child;
}

// Write the choices of one seeded run to a file, even if the run crashes.
int
mode_record(const Options &o)
{
  const World *world = find_world(o.property);
  std::string bin = o.out + ".bin";
  int fd = open(bin.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
  if (fd < 0) {
    return 2;
  }
  pid_t pid = fork();
  if (pid == 0) {
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    Ctx ctx;
    ctx.tier = o.tier;
    ctx.choices.seed(run_seed(o.property, o.seed, o.start));
    ctx.choices.stream_to(fd);
    execute(*world, ctx);
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  std::vector<uint64_t> choices;
  lseek(fd, 0, SEEK_SET);
  uint64_t v = 0;
  FILE *in = fdopen(fd, "rb");
  while (fread(&v, sizeof(v), 1, in) == 1) {
    choices.push_back(v);
  }
  fclose(in);
  unlink(bin.c_str());
  write_choices(o.out, choices);
  return 0;
}

int
mode_classify(const Options &o)
{
  const World *world = find_world(o.property);
  Child c = attempt(*world, read_choices(o.file), o.tier);
  std::cout << "SIM-CLASS " << (c.cls.empty() ? "none" : c.cls) << '\n';
  size_t from = 0;
  int lines = 0;
  while (from < c.err.size() && lines < 12) {
    size_t to = c.err.find('\n', from);
    if (to == std::string::npos) {
      to = c.err.size();
    }
    std::cout << "SIM-ERR " << c.err.substr(from, to - from) << '\n';
    from = to + 1;
    lines++;
  }
  return 0;
}

// Minimise the choice sequence while the violation class stays the same.
int
mode_shrink(const Options &o)
{
  const World *world = find_world(o.property);
  std::vector<uint64_t> best = read_choices(o.file);
  uint64_t budget = o.budget;
  auto begin = std::chrono::steady_clock::now();
  auto try_it = [&](std::vector<uint64_t> candidate) {
    if (budget == 0) {
      return false;
    }
    std::chrono::duration<double> d = std::chrono::steady_clock::now() - begin;
    if (d.count() > o.seconds) {
      budget = 0;
      return false;
    }
    budget--;
    Child c = attempt(*world, candidate, o.tier);
    if (c.cls != o.cls) {
      return false;
    }
    while (!c.recorded.empty() && c.recorded.back() == 0) {
      c.recorded.pop_back();
    }
    best = std::move(c.recorded);
    return true;
  };
  Child first = attempt(*world, best, o.tier);
  if (first.cls != o.cls) {
    std::cout << "SIM-SHRINK not-reproduced " << first.cls << '\n';
    return 5;
  }
  size_t initial = best.size();
  if (!first.recorded.empty()) {
    best = first.recorded;
  }
  bool improved = true;
  while (improved && budget > 0) {
    improved = false;
    // Cut the tail.
    for (size_t keep = best.size() / 2; keep > 0 && budget > 0; keep /= 2) {
      if (best.size() > keep) {
        std::vector<uint64_t> c(best.begin(),
                                best.end() - static_cast<std::ptrdiff_t>(keep));
        improved = try_it(c) || improved;
      }
    }
    // Delete chunks.
    for (size_t size = std::max<size_t>(1, best.size() / 4); size >= 1; size /= 2) {
      for (size_t i = 0; i + size <= best.size() && budget > 0;) {
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + static_cast<std::ptrdiff_t>(i),
                c.begin() + static_cast<std::ptrdiff_t>(i + size));
        if (try_it(c)) {
          improved = true;
        } else {
          i += size;
        }
      }
      if (size == 1) {
        break;
      }
    }
    // Zero chunks, then lower single values.
    for (size_t size = std::max<size_t>(1, best.size() / 4); size >= 1; size /= 2) {
      for (size_t i = 0; i + size <= best.size() && budget > 0; i += size) {
        bool zero = true;
        for (size_t k = i; k < i + size; k++) {
          zero = zero && best[k] == 0;
        }
        if (zero) {
          continue;
        }
        std::vector<uint64_t> c = best;
        std::fill(c.begin() + static_cast<std::ptrdiff_t>(i),
                  c.begin() + static_cast<std::ptrdiff_t>(i + size),
                  0);
        improved = try_it(c) || improved;
      }
      if (size == 1) {
        break;
      }
    }
    for (size_t i = 0; i < best.size() && budget > 0; i++) {
      if (best[i] > 1) {
        std::vector<uint64_t> c = best;
        c[i] /= 2;
        improved = try_it(c) || improved;
      }
    }
  }
  write_choices(o.out, best);
  std::cout << "SIM-SHRINK " << initial << " -> " << best.size() << '\n';
  return 0;
}

}

int
sim_main(int argc, char **argv)
{
  Options o;
  if (argc < 2) {
    return 2;
  }
  o.mode = argv[1];
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto value = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
    if (a == "--property") {
      o.property = value();
    } else if (a == "--seed") {
      o.seed = strtoull(value().c_str(), nullptr, 10);
    } else if (a == "--start" || a == "--index") {
      o.start = strtoull(value().c_str(), nullptr, 10);
    } else if (a == "--stride") {
      o.stride = strtoull(value().c_str(), nullptr, 10);
    } else if (a == "--count") {
      o.count = strtoull(value().c_str(), nullptr, 10);
    } else if (a == "--seconds") {
      o.seconds = strtod(value().c_str(), nullptr);
    } else if (a == "--tier") {
      o.tier = value() == "thorough" ? 1 : 0;
    } else if (a == "--progress") {
      o.progress = value();
    } else if (a == "--out") {
      o.out = value();
    } else if (a == "--file") {
      o.file = value();
    } else if (a == "--class") {
      o.cls = value();
    } else if (a == "--budget") {
      o.budget = strtoull(value().c_str(), nullptr, 10);
    } else if (a == "--quiet") {
      o.quiet = true;
    } else {
      return 2;
    }
  }
  signal(SIGPROF, on_timeout);
  if (o.mode == "list") {
    for (const World &w : worlds()) {
      std::cout << w.property << '\t' << w.description << '\n';
    }
    return 0;
  }
  if (find_world(o.property) == nullptr) {
    std::cerr << "unknown property " << o.property << '\n';
    return 2;
  }
  if (o.mode == "run") {
    return mode_run(o);
  }
  if (o.mode == "replay") {
    return mode_replay(o);
  }
  if (o.mode == "sequence") {
    return mode_sequence(o);
  }
  if (o.mode == "record") {
    return mode_record(o);
  }
  if (o.mode == "classify") {
    return mode_classify(o);
  }
  if (o.mode == "shrink") {
    return mode_shrink(o);
  }
  return 2;
}

}

int
main(int argc, char **argv)
{
  return sim::sim_main(argc, argv);
}
