// World "tools": the two interop programs, each run to its end in a child
// process on a virtual disk whose calls fail, fall short or are interrupted.
#pragma once

#include "core.hpp"

namespace sim {

struct ToolsProfile {
  unsigned soft = 200;   // permille of calls that fall short or are interrupted
  unsigned hard = 300;   // permille of runs with one failing call
  unsigned invalid = 300; // permille of runs with invalid input
};

void
run_tools(Ctx &ctx, const ToolsProfile &profile);

}
