#include "logging.hpp"

#include <bnl/base/log.hpp>
#include <bnl/log/console.hpp>

#include <fmt/core.h>

#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <stdio_ext.h>
#include <sys/time.h>

namespace sim {

namespace {

// What the clock shows while a run is under way.
struct Clock {
  bool on = false;
  int64_t seconds = 0;
};
Clock the_clock;

struct Scope {
  bool in;
  Scope()
    : in(alloc.in_lib)
  {
    alloc.in_lib = false;
  }
  ~Scope() { alloc.in_lib = in; }
};

// One output: what was accepted, and how it fails.
class Output {
public:
  Output(Ctx &ctx, const char *name)
    : ctx_(ctx)
    , name_(name)
  {}

  ~Output()
  {
    if (file_ != nullptr) {
      // What a failed output left in the buffer goes nowhere.
      broken_ = 0;
      closed_ = true;
      fclose(file_);
    }
  }

  Output(const Output &) = delete;
  Output &operator=(const Output &) = delete;

  void open()
  {
    cookie_io_functions_t io{};
    io.write = &Output::write;
    file_ = fopencookie(this, "w", io);
    switch (ctx_.pick(4)) {
      case 0:
        setvbuf(file_, nullptr, _IONBF, 0);
        break;
      case 1:
        setvbuf(file_, buffer_, _IOLBF, sizeof(buffer_));
        break;
      case 2:
        setvbuf(file_, buffer_, _IOFBF, sizeof(buffer_));
        break;
      case 3:
        setvbuf(file_, buffer_, _IOFBF, 16 + ctx_.pick(100));
        break;
    }
  }

  FILE *file() { return file_; }

  std::string text;

  // Fail the next calls: 0 error at once, 1 full after some bytes.
  void fail(int kind, size_t room, int error)
  {
    broken_ = 1 + kind;
    room_ = room;
    error_ = error;
  }

  void recover()
  {
    broken_ = 0;
  }

  bool broken() const { return broken_ != 0; }
  bool lost = false; // a call failed since this was last cleared

private:
  static ssize_t write(void *cookie, const char *data, size_t size)
  {
    return static_cast<Output *>(cookie)->take(data, size);
  }

  ssize_t take(const char *data, size_t size)
  {
    Scope scope;
    if (closed_) {
      return static_cast<ssize_t>(size);
    }
    size_t n = size;
    if (broken_ == 1) {
      n = 0;
    } else if (broken_ == 2) {
      n = std::min(room_, size);
      room_ -= n;
    }
    text.append(data, n);
    ctx_.ev("output", static_cast<uint64_t>(name_[0]), n, size);
    ctx_.mix_bytes(data, n);
    if (n < size) {
      lost = true;
      ctx_.mix_schedule(n);
      if (broken_ == 1) {
        SIM_COUNT("fault.log_write_error");
      } else {
        SIM_COUNT("fault.log_disk_full");
      }
      if (n == 0) {
        errno = error_;
        return -1;
      }
    }
    return static_cast<ssize_t>(n);
  }

  Ctx &ctx_;
  const char *name_;
  FILE *file_ = nullptr;
  char buffer_[512];
  int broken_ = 0;
  size_t room_ = 0;
  int error_ = EIO;
  bool closed_ = false;
};

// Both outputs in the place of the process's own.
class Terminal {
public:
  explicit Terminal(Ctx &ctx)
    : out(ctx, "out")
    , err(ctx, "err")
    , previous_out_(stdout)
    , previous_err_(stderr)
  {
    out.open();
    err.open();
    stdout = out.file();
    stderr = err.file();
  }

  ~Terminal()
  {
    stdout = previous_out_;
    stderr = previous_err_;
  }

  Terminal(const Terminal &) = delete;
  Terminal &operator=(const Terminal &) = delete;

  Output out;
  Output err;

private:
  FILE *previous_out_;
  FILE *previous_err_;
};

// What logging allocates is not what the connection allocates.
class Forward : public bnl::base::log::api {
public:
  explicit Forward(bool place)
    : console_(place)
  {}

protected:
  void log(bnl::base::log::level level,
           const char *file,
           const char *function,
           int line,
           const char *format,
           const fmt::format_args &args) const override
  {
    Scope scope;
    console_.log(level, file, function, line, format, args);
  }

private:
  bnl::log::console console_;
};

// The text without its colours.
std::string
plain(const std::string &text)
{
  std::string result;
  for (size_t i = 0; i < text.size(); i++) {
    if (text[i] == '\x1b' && i + 1 < text.size() && text[i + 1] == '[') {
      i += 2;
      while (i < text.size() && (text[i] < '@' || text[i] > '~')) {
        i++;
      }
      continue;
    }
    result.push_back(text[i]);
  }
  return result;
}

const char *const LEVELS[] = { "TRACE", "DEBUG", "INFO", "WARN", "ERROR" };

// Time zones without daylight saving, and what they add to UTC.
struct Zone {
  const char *name;
  int64_t offset;
};
const Zone ZONES[] = { { "UTC0", 0 },
                       { "AAA-05:30", 19800 },
                       { "BBB+09", -32400 },
                       { "CCC-14", 50400 },
                       { "DDD+00:20", -1200 } };

class Logging {
public:
  explicit Logging(Ctx &ctx)
    : ctx(ctx)
    , terminal_(ctx)
  {}

  ~Logging()
  {
    the_clock.on = false;
    bnl::base::logger = nullptr;
  }

  Logging(const Logging &) = delete;
  Logging &operator=(const Logging &) = delete;

  void run();

private:
  struct Item {
    LogLine line;
    bool lost = false; // the output failed meanwhile
  };

  std::string random_text(size_t max)
  {
    std::string s;
    size_t n = ctx.pick(8) == 0 ? ctx.pick(max + 1) : ctx.pick(30);
    for (size_t i = 0; i < n; i++) {
      static const char some[] = "abc {}{{}}%s%n:/\\\"'\t ,;0123456789";
      uint64_t v = ctx.pick(40);
      char c = v < sizeof(some) - 1 ? some[v] : static_cast<char>(128 + ctx.pick(128));
      s.push_back(c);
    }
    return s;
  }

  void
  message(const bnl::base::log::api &to, bool place);
  void
  judge(Output &output, bool errors, size_t from, const Item *item);

  Ctx &ctx;
  Terminal terminal_;
  int64_t offset_ = 0;
  std::vector<Item> items_;
  uint64_t serial_ = 0;
};

bool
take(const std::string &text, size_t &pos, const std::string &part)
{
  size_t found = text.find(part, pos);
  if (found == std::string::npos) {
    return false;
  }
  pos = found + part.size();
  return true;
}

// What one call added to an output.
void
Logging::judge(Output &output, bool errors, size_t from, const Item *item)
{
  const char *name = errors ? "error" : "output";
  std::string added = plain(output.text.substr(from));
  if (item == nullptr) {
    SIM_CHECK(added.empty(),
              "wrong-stream",
              "a message for the other stream wrote %zu bytes to standard %s",
              added.size(),
              name);
    return;
  }
  const LogLine &line = item->line;
  SIM_CHECK(!added.empty() && added.back() == '\n',
            "unfinished-line",
            "the call returned before its line was complete on standard %s",
            name);
  added.pop_back();
  SIM_CHECK(added.size() >= line.message.size() &&
              added.compare(added.size() - line.message.size(), std::string::npos, line.message) == 0,
            "wrong-message",
            "the line does not end with the message");
  added.resize(added.size() - line.message.size());
  SIM_CHECK(added.find('\n') == std::string::npos, "wrong-message", "one message became several lines");
  int64_t second = (static_cast<int64_t>(line.time) + offset_) % 86400;
  if (second < 0) {
    second += 86400;
  }
  char clock[16];
  snprintf(clock,
           sizeof(clock),
           "%02d:%02d:%02d",
           static_cast<int>(second / 3600),
           static_cast<int>(second / 60 % 60),
           static_cast<int>(second % 60));
  size_t pos = 0;
  SIM_CHECK(take(added, pos, clock), "wrong-time", "the line does not carry the time of the call (%s): %s", clock, added.c_str());
  SIM_CHECK(take(added, pos, LEVELS[line.level]), "wrong-level", "the line does not carry the level of the call");
  for (int l = 0; l < 5; l++) {
    size_t from_start = 0;
    SIM_CHECK(l == line.level || !take(added, from_start, LEVELS[l]), "wrong-level", "the line carries another level");
  }
  if (line.place.empty()) {
    SIM_CHECK(added.find("source.cpp") == std::string::npos, "wrong-place", "the line names a place nobody asked for");
  } else {
    SIM_CHECK(take(added, pos, line.place), "wrong-place", "the line does not name the place of the call");
  }
}

void
Logging::message(const bnl::base::log::api &to, bool place)
{
  Item item;
  int level = static_cast<int>(ctx.pick(5));
  int where = static_cast<int>(1 + ctx.pick(ctx.pick(3) == 0 ? 100000 : 300));
  std::string id = "#" + std::to_string(serial_++) + "#";
  item.line.level = level;
  item.line.time = static_cast<uint64_t>(the_clock.seconds);
  if (place) {
    item.line.place = "dir/source.cpp:" + std::to_string(where);
  }
  bool errors = level >= 3;
  Output &mine = errors ? terminal_.err : terminal_.out;
  Output &other = errors ? terminal_.out : terminal_.err;
  bool clean = !mine.broken() && !mine.lost && !ferror(mine.file());
  bool other_clean = !other.broken() && !other.lost;
  size_t from = mine.text.size();
  size_t other_from = other.text.size();
  auto call = [&](const char *format, const auto &... args) {
    item.line.message = fmt::format(fmt::runtime(format), args...);
    ctx.ev("message", static_cast<uint64_t>(level), item.line.message.size(), clean);
    std::string failed;
    {
      LibScope lib;
      try {
        to(static_cast<bnl::base::log::level>(level), "dir/source.cpp", "function", where, format, args...);
      } catch (const std::exception &e) {
        alloc.in_lib = false;
        failed = e.what();
      }
    }
    SIM_CHECK(failed.empty(), "exception", "logging threw: %s", failed.c_str());
  };
  switch (ctx.pick(5)) {
    case 0:
      call("{}", id);
      break;
    case 1:
      call("{} text {}", id, random_text(3000));
      break;
    case 2:
      call("{} {{}} {} of {}", id, ctx.pick(1000), static_cast<int64_t>(ctx.pick(100)) - 50);
      break;
    case 3:
      call("{}: {:>20} {}", id, random_text(20), true);
      break;
    case 4: {
      std::string s = random_text(600);
      call("{} {} {} {}", id, s.c_str(), 'x', s.size());
      break;
    }
  }
  SIM_COUNT("probe.logged");
  if (clean && !mine.lost) {
    judge(mine, errors, from, &item);
  } else {
    item.lost = true;
    SIM_COUNT("probe.message_lost");
  }
  if (other_clean) {
    judge(other, !errors, other_from, nullptr);
  }
  items_.push_back(item);
}

void
Logging::run()
{
  const Zone &zone = ZONES[ctx.pick(sizeof(ZONES) / sizeof(*ZONES))];
  offset_ = zone.offset;
  setenv("TZ", zone.name, 1);
  tzset();
  the_clock.seconds = static_cast<int64_t>(1500000000 + ctx.pick(1000000000));
  {
    time_t t = the_clock.seconds;
    tm parts;
    localtime_r(&t, &parts);
  }
  the_clock.on = true;
  bool place = ctx.pick(3) != 0;
  unsigned faults = ctx.pick(3) == 0 ? 0 : 120;
  unsigned jumps = ctx.pick(2) == 0 ? 0 : 100;
  bnl::log::console console(place);
  bool through = ctx.pick(2) == 0;
  if (through) {
    bnl::base::logger = &console;
  }
  size_t count = 2 + ctx.pick(ctx.pick(30) == 0 ? 400 : 40);
  for (size_t i = 0; i < count; i++) {
    ctx.steps++;
    if (ctx.chance(jumps)) {
      SIM_COUNT("fault.clock_jump");
      the_clock.seconds = static_cast<int64_t>(ctx.pick(4000000000ULL));
    } else {
      uint64_t d = ctx.pick(3) == 0 ? ctx.pick(100000) : ctx.pick(3);
      the_clock.seconds += static_cast<int64_t>(d);
      ctx.sim_us += d * 1000000;
    }
    for (Output *o : { &terminal_.out, &terminal_.err }) {
      if (o->broken()) {
        if (ctx.chance(300)) {
          o->recover();
          ctx.mix_schedule(i);
          // Whatever the failure left in the stream is not ours to judge.
          fflush(o->file());
          __fpurge(o->file());
          clearerr(o->file());
          o->lost = false;
          SIM_COUNT("probe.log_recovered");
          ctx.ev("recover");
        }
      } else if (ctx.chance(faults)) {
        static const int errors[] = { EIO, ENOSPC, EPIPE, EBADF, EINTR, EAGAIN };
        o->fail(static_cast<int>(ctx.pick(2)), ctx.pick(200), errors[ctx.pick(6)]);
        ctx.mix_schedule(i + 1000);
      }
    }
    message(through ? *bnl::base::logger : console, place);
  }
  ctx.nontrivial = true;
  // Never more than once, whatever failed.
  std::string all = plain(terminal_.out.text) + "\n" + plain(terminal_.err.text);
  for (size_t i = 0; i < items_.size(); i++) {
    std::string id = "#" + std::to_string(i) + "#";
    size_t first = all.find(id);
    if (first == std::string::npos) {
      SIM_CHECK(items_[i].lost, "lost-message", "a message disappeared");
    } else {
      SIM_CHECK(all.find(id, first + 1) == std::string::npos, "repeated-message", "a message was written twice");
    }
  }
}

struct Result {
  std::string outcome;
  uint64_t hash = 0;
};

}

void
run_logging(Ctx &ctx)
{
  Logging l(ctx);
  l.run();
}

void
run_logged(Ctx &ctx, void (*world)(Ctx &))
{
  // Once without a logger, recording the choices ...
  Ctx plain_ctx;
  plain_ctx.tier = ctx.tier;
  plain_ctx.choices.seed((ctx.pick(1ULL << 32) << 16) | ctx.pick(1ULL << 16));
  bnl::base::logger = nullptr;
  auto run = [&](Ctx &c) {
    std::string outcome;
    alloc_reset();
    try {
      world(c);
    } catch (const Violation &v) {
      outcome = v.cls + ": " + v.msg;
    }
    alloc.in_lib = false;
    alloc.armed = false;
    return outcome;
  };
  std::string without = run(plain_ctx);
  // ... and again with it, on outputs that may fail.
  Ctx logged_ctx;
  logged_ctx.tier = ctx.tier;
  logged_ctx.choices.replay(plain_ctx.choices.recorded());
  std::string with;
  size_t written = 0;
  {
    Terminal terminal(ctx);
    the_clock.on = true;
    the_clock.seconds = 1600000000;
    Forward console(ctx.pick(2) == 0);
    if (ctx.pick(2) == 0) {
      terminal.out.fail(static_cast<int>(ctx.pick(2)), ctx.pick(500), EIO);
    }
    if (ctx.pick(2) == 0) {
      terminal.err.fail(static_cast<int>(ctx.pick(2)), ctx.pick(500), ENOSPC);
    }
    bnl::base::logger = &console;
    try {
      with = run(logged_ctx);
    } catch (...) {
      bnl::base::logger = nullptr;
      the_clock.on = false;
      throw;
    }
    bnl::base::logger = nullptr;
    the_clock.on = false;
    written = terminal.out.text.size() + terminal.err.text.size();
  }
  ctx.steps += plain_ctx.steps + logged_ctx.steps;
  ctx.sim_us += plain_ctx.sim_us + logged_ctx.sim_us;
  ctx.mix(plain_ctx.hash);
  ctx.mix_schedule(plain_ctx.schedule);
  if (written != 0) {
    SIM_COUNT("probe.logged_connection");
  }
  ctx.nontrivial = true;
  SIM_CHECK(with == without && plain_ctx.hash == logged_ctx.hash && plain_ctx.steps == logged_ctx.steps,
            "interference",
            "a connection behaves differently when it is logged: %s / %s",
            without.empty() ? "no error" : without.c_str(),
            with.empty() ? "no error" : with.c_str());
}

}

// ------------------------------------------------------- what the logger asks

extern "C" {

time_t
sim_time(time_t *t)
{
  time_t now = sim::the_clock.on ? static_cast<time_t>(sim::the_clock.seconds) : 0;
  if (t != nullptr) {
    *t = now;
  }
  return now;
}

int
sim_gettimeofday(timeval *t, void *)
{
  t->tv_sec = sim_time(nullptr);
  t->tv_usec = 0;
  return 0;
}

int
sim_clock_gettime(clockid_t, timespec *t)
{
  t->tv_sec = sim_time(nullptr);
  t->tv_nsec = 0;
  return 0;
}

int64_t
sim_system_clock_now()
{
  return static_cast<int64_t>(sim_time(nullptr)) * 1000000000;
}
}
