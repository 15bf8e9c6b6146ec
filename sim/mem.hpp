// World "memory": histories of operations on the library's byte containers,
// checked step by step against plain strings.
#pragma once

#include "core.hpp"

namespace sim {

struct MemProfile {
  unsigned max_objects = 6;
  unsigned steps = 120;
  unsigned buffers = 500;    // permille of steps on chained buffers
  unsigned lookahead = 300;  // permille of steps that look ahead
  unsigned alloc_fault = 0;  // permille of allocating calls that fail
};

void
run_mem(Ctx &ctx, const MemProfile &profile);

}
