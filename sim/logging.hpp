// World "logging": the console logger on two simulated output streams that
// fill up, fail and recover, under a simulated clock; and connections with and
// without it, side by side.
#pragma once

#include "core.hpp"

namespace sim {

// One log line, with colours taken out, judged against what was logged.
struct LogLine {
  uint64_t time = 0; // seconds
  int level = 0;
  std::string place; // empty: not asked for
  std::string message;
};

void
run_logging(Ctx &ctx);

// The same world with and without a logger (`world` is run twice).
void
run_logged(Ctx &ctx, void (*world)(Ctx &));

}
