// World "rounds": one client and one server connection that serve exchange
// after exchange; what a finished exchange held must be released.
#pragma once

#include "core.hpp"

namespace sim {

struct RoundsProfile {
  unsigned rounds = 24;
  unsigned alloc_fault = 0; // permille of throwing calls that fail first
};

void
run_rounds(Ctx &ctx, const RoundsProfile &profile);

}
